"""The heuristic scores: control flow, register distance, push and pop, as the model assigns them to the live
neighbourhood of a candidate."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator

PROPERTY = 'C41'
RULE = ('random programs of functions (conditional runs, comparisons, matching and mismatching pushes and pops) with '
        '1..16 candidates per address, some discarded, under the default model and models with other probabilities. '
        'Non-trivial: an address with two live candidates; distinct by program and model.')
ASSUMPTIONS = ['the program consists of functions, each contiguous, of defined instructions, the first at its first address',
               'what an instruction reads, writes and which flags it sets is decided by C12 and C13']
LEVEL_NOTE = ('control flow, push and pop recomputed exactly; register distance exactly for candidates reading one '
              'storage, between those of the storages for others')
MIN_EVENTS = {'flow_scores': 3000, 'flow_kinds': 500, 'distance_scores': 2000, 'single_storage': 1000,
              'push_pop_scores': 200, 'matched': 40, 'wiped': 30, 'other_models': 60,
              'branch_scores': 400, 'branches_outside': 40, 'asked_again': 40, 'far': 8,
              'crowds': 10, 'writers': 3, 'far_reads': 4, 'single_instruction': 20}


def flow(M, c, prev, post):
    share = lambda l, f: sum(map(f, l)) / len(l) if l else 0
    same = lambda x: x.conditional_field == c.conditional_field
    sets = lambda x: bool(x.modifies_flags())
    s, f, e = share(prev, same), share(prev, sets), share(prev, lambda x: same(x) or sets(x))
    a = share(post, same)
    if c.conditional_field != 14:
        if s and f:
            r = max(e * a * M.branch_after_cpsr_and_near_cond_are_equals, e * M.branch_after_cpsr_and_prev_cond_are_equals)
        elif s:
            r = max(s * a * M.both_conditionals_are_equals, s * M.prev_conditionals_are_equals)
        elif f:
            r = max(f * a * M.branch_after_cpsr_and_after_cond_are_equals, f * M.branch_after_cpsr)
        else:
            r = 0
    elif f:
        r = f * (1 - M.branch_after_cpsr)
    elif s:
        r = max(s * a * M.both_conditionals_are_equals, s * M.prev_conditionals_are_equals)
    else:
        r = a * M.prev_conditionals_are_equals
    return r or M.low_probability, (bool(s), bool(f), bool(a), c.conditional_field == 14)


def distances(M, c, addr, live, collector):
    """One value per storage read."""
    res = []
    for r in c.storages_read():
        lo, hi = collector.storage_min_dist.get(r, 0), collector.storage_max_dist.get(r, 0)
        no = 1
        for d in range(lo, hi + 1):
            v = live.get(addr - 4 * (d + 1))
            if v:
                no *= 1 - sum(r in x.storages_written() for x in v) / len(v)
        res.append(1 - no if no < 1 else None)
    return res


SPECIAL = {13, 14, 15}


def push_pop(M, c, addr, start, fns, live):
    n = len(live[addr])
    plain = lambda regs: set(regs) - SPECIAL
    end = middle = match = False
    if c.is_a('push'):
        if addr in fns:
            last = fns[addr][1]
            pops = [x for x in live[last] if x.is_a('pop')]
            end = bool(pops)
            match = any(plain(x.registers_written()) == plain(c.registers_read()) for x in pops)
            middle = any(x.is_a('pop') for a in range(addr + 4, last + 4, 4) for x in live[a]) and \
                any(x.is_branch for a in range(addr + 8, last + 4, 4) for x in live[a])
    else:
        pushes = [x for x in live[start] if x.is_a('push')]
        end = bool(pushes)
        match = any(plain(x.registers_read()) == plain(c.registers_written()) for x in pushes)
    return max(M.push_given_pop_at_fn_end_equal_registers if match else 1 / n,
               M.push_given_pop_at_fn_end if end else 0,
               M.push_given_pop_at_fn_middle if middle else 0), match


def scored(ctx):
    rng = ctx.rng
    fs = recovery.functions(rng, 4)
    far = ctx.index % 10 == 9
    writers = not far and rng.random() < .08
    if writers:
        # Almost everything before writes what is read, some of it not
        n = rng.choice([3, 4, 6])
        base = fs[0][1][0].addr
        body = [gen.mov_imm(base + 4 * k, 5, 16 * k) for k in range(n)]
        body += [gen.dp_reg(base + 4 * n, 'add', 1, 5, 5), gen.mov_imm(base + 4 * n + 4, 5, 3)]
        body += [gen.mov_imm(base + 4 * (n + 2 + k), 1, k) for k in range(n)]
        body += [gen.dp_reg(base + 4 * (2 * n + 2), 'add', 2, 1, 5)]
        fs = [('writers', body)]
        ctx.ev('writers')
    if far:
        # one long function: what the scores depend on is far away, and there is little of it
        n = 280 if ctx.index % 20 == 9 else rng.choice([70, 150, 600, 1100, 1100])
        body = gen.program(rng, n, base=fs[0][1][0].addr, regs=4, cond=rng.choice([gen.AL, None]))
        rs = sorted(rng.sample(range(4, 12), 2)) + [14]
        body[0] = gen.push(body[0].addr, rs)
        body = [i if not i.kind in ('b', 'bl', 'bx', 'push', 'pop') or not k else gen.mov_imm(i.addr, 1, k & 255)
                for k, i in enumerate(body)]
        j = rng.randrange(1, 8)
        body[j] = gen.pop(body[j].addr, rng.choice([rs, [4]]))
        if rng.random() < .7:
            j += rng.choice([1, 1, 2])
            body[j] = gen.bx(body[j].addr, 14) if rng.random() < .5 else gen.branch(body[j].addr, body[0].addr)
        if rng.random() < .3:
            body[-1] = gen.pop(body[-1].addr, rs[:-1] + [15])
        if rng.random() < .6:
            # A register written once and read once, a long way after
            k = rng.randrange(9, 14)
            body[k] = gen.mov_imm(body[k].addr, 12, 77)
            body[-3] = gen.dp_reg(body[-3].addr, 'add', 2, 12, 3)
            ctx.ev('far_reads')
        fs = [('long', body)]
        ctx.ev('far')
    if not far and not writers and rng.random() < .5:
        # runs of one condition, comparisons, functions ending in another set of registers
        for k, (name, body) in enumerate(fs):
            for j, i in enumerate(body):
                if rng.random() < .3 and 0 < j < len(body) - 1:
                    body[j] = rng.choice([gen.cmp_imm(i.addr, 'cmp', rng.randrange(4), 3),
                                          gen.mov_imm(i.addr, rng.randrange(4), 1, rng.choice([0, 1])),
                                          gen.dp_imm(i.addr, 'sub', 0, 0, 1, rng.choice([0, 14]), 1),
                                          gen.pop(i.addr, [4, 5, 15], rng.choice([0, 14])),
                                          gen.branch(i.addr, i.addr + rng.choice([-1, 1]) * (1 << rng.randrange(2, 25)),
                                                     rng.choice([0, 14]), rng.random() < .5)])
    if not far:
        # Functions of one instruction
        starts = [b[0].addr for _, b in fs]
        for _, b in fs:
            if len(b) == 1 and rng.random() < .7:
                a = b[0].addr
                b[0] = rng.choice([gen.branch(a, rng.choice(starts + [a, a])), gen.branch(a, a, rng.choice([0, 14]), True),
                                   gen.push(a, [4, 14]), gen.pop(a, [4, 15])])
                ctx.ev('single_instruction')
    ins = [i for _, b in fs for i in b]
    outcome = recovery.flips(rng, ins, .2 if far else .5)
    if writers:
        for i in ins[:n]:
            outcome[i.addr] = sorted(gen.flip_set(i.enc, [0, 1, 2, 3]) | {i.enc ^ 1 << 12})
    if rng.random() < .15:
        # Crowds: dozens of candidates side by side
        k = rng.randrange(len(ins))
        for i in ins[k:k + 3]:
            outcome[i.addr] = sorted(gen.flip_set(i.enc, rng.sample(range(32) if rng.random() < .5 else [28, 29, 20, 30, 31, 12, 16, 21], 6)))
            if rng.random() < .5:
                rng.shuffle(outcome[i.addr])
        ctx.ev('crowds')
    if far:
        outcome[ins[0].addr] = sorted(gen.flip_set(ins[0].enc, rng.sample(range(4, 12), 4)))
    items = [(a, [CAPSInstruction(e, a) for e in v]) for a, v in outcome.items()]
    rng.shuffle(items)
    program = dict(items)
    orig = {i.addr: i.enc for i in ins}
    for v in program.values():
        for c in v:
            if c.encoding != orig[c.address] and rng.random() < .1:
                c.ignore = True
    if rng.random() < .25:
        # Nothing is left at some addresses
        for a in rng.sample(sorted(program), max(1, len(program) // 6)):
            for c in program[a]:
                c.ignore = True
            ctx.ev('wiped')
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    fns = {b[0].addr: (b[0].addr, b[-1].addr) for _, b in fs}
    M, given = DefaultProbabilisticModel(), None
    if rng.random() < .5:
        given = M
        for k in sorted(vars(M)):
            setattr(M, k, rng.choice([.05, .3, .5, .9, rng.random() * .98 + .01]))
        ctx.ev('other_models')
    if given is not None:
        rec = ProbabilisticRecuperator(collector, program, model=given, functions=fns)
    else:
        rec = ProbabilisticRecuperator(collector, program, functions=fns)
    kinds = set()
    for turn in range(rng.choice([1, 1, 2])):
        if turn:
            # Something left since the last time
            for v in program.values():
                for c in v:
                    if c.encoding != orig[c.address] and rng.random() < .3:
                        c.ignore = True
                if rng.random() < .3:
                    v[:] = [c for c in v if not c.ignore] or v[:1]
            ctx.ev('asked_again')
        live = {a: [c for c in v if not c.ignore] for a, v in program.items()}
        rec.recover()
        start, bounds = None, (min(program), max(program))
        for k, a in enumerate(sorted(program)):
            start = a if a in fns else start
            for c in live[a]:
                t = c.scores_by_rule
                if k:
                    want, kind = flow(M, c, live.get(a - 4), live.get(a + 4))
                    ctx.check(abs(t['pcfg'] - want) < 1e-9, 'control-flow', 'wrong control flow score', got=t['pcfg'],
                              want=want, candidate=str(c), addr=hex(a), previous=[str(x) for x in live.get(a - 4) or []][:8],
                              following=[str(x) for x in live.get(a + 4) or []][:8])
                    ctx.ev('flow_scores')
                    kinds.add(kind)
                    if not (c.is_branch or c.is_push_pop):
                        vals = distances(M, c, a, live, collector)
                        none = {M.low_probability, 1 - M.high_probability}
                        nums = [v for v in vals if v is not None]
                        got = t['prd']
                        if not nums:
                            ok = any(abs(got - v) < 1e-9 for v in none)
                        elif len(vals) == 1:
                            ok = abs(got - nums[0]) < 1e-9
                        else:
                            pool = nums + ([] if len(nums) == len(vals) else sorted(none))
                            ok = min(pool) - 1e-9 <= got <= max(pool) + 1e-9
                        ctx.check(ok, 'register-distance', 'wrong register distance score', got=got, storages=vals,
                                  candidate=str(c), addr=hex(a))
                        ctx.ev('distance_scores')
                        if len(vals) == 1:
                            ctx.ev('single_storage')
                if c.is_branch:
                    j, M2 = c.jumping_address, M.just_any_jump_is_valid
                    want = 2 * M2 if j is None else M.branch_to_this_method if fns[start][0] <= j <= fns[start][1] else \
                        M.branch_to_other_method_start if j in fns else 2 * M2 if bounds[0] <= j <= bounds[1] else M2
                    ctx.check('pbd' in t and abs(t['pbd'] - want) < 1e-12, 'branch', 'wrong score of a branch target', table=t,
                              want=want, candidate=str(c), addr=hex(a), function=fns[start])
                    ctx.ev('branch_scores')
                    if want == M2:
                        ctx.ev('branches_outside')
                if c.is_push_pop:
                    want, match = push_pop(M, c, a, start, fns, live)
                    ctx.check('pupo' in t and abs(t['pupo'] - want) < 1e-9, 'push-pop', 'wrong push and pop score',
                              table=t, want=want, candidate=str(c), addr=hex(a), function=fns[start],
                              ends=[str(x) for x in live[fns[start][1]]][:6], begins=[str(x) for x in live[start]][:6])
                    ctx.ev('push_pop_scores')
                    if match:
                        ctx.ev('matched')
    ctx.ev('flow_kinds', len(kinds))
    if any(len(v) > 1 for v in live.values()):
        ctx.distinct(sorted((a, [c.encoding for c in v]) for a, v in live.items()), sorted(vars(M).items()))
    ctx.note(addresses=len(ins), candidates=sum(map(len, live.values())), default=given is None, kinds=len(kinds))


WORKLOADS = [W('scored', scored, 400, 6000)]
