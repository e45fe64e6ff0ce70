"""The flow and distance rules, and the recuperator that adds the rules up and discards what scores nothing."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
from semantic_codec.metadata.recuperator import Recuperator

PROPERTY = 'C38'
RULE = ('random programs with 1..16 candidates per address, some discarded, parts thousands of addresses apart, far jumps, default and other models, addresses asked '
        'in any order; the recuperator with one to three passes. Non-trivial: an address with two live candidates; '
        'distinct by program.')
ASSUMPTIONS = ['the metadata is that of the original program', 'what instructions read and write is decided by C13']
LEVEL_NOTE = 'every score recomputed from the live candidates; discarding recomputed from the scores'
MIN_EVENTS = {'flow_scores': 3000, 'distance_scores': 1500, 'out_of_reach': 100, 'discarded_zero': 300,
              'jumps_inside': 100, 'recuperations': 80, 'discarded_by_score': 200, 'kept_by_score': 500,
              'single_pass': 8, 'far': 20, 'scored_anew': 200}
TINY = 1e-9


def program_of(ctx, share=.5):
    rng = ctx.rng
    ins = gen.program(rng, rng.choice([2, 5, 12, 25]), gaps=rng.random() < .4, regs=rng.choice([3, 13]),
                      kinds=recovery.KINDS, cond=rng.choice([None, gen.AL]))
    if rng.random() < .4:
        # Another part of the program far away, with jumps from one to the other
        ins += gen.program(rng, rng.choice([2, 8]), regs=3, kinds=recovery.KINDS, cond=rng.choice([None, gen.AL]),
                           base=ins[-1].addr + rng.choice([0x200, 0x1004, 0x8000, 0x100000]))
        for k in rng.sample(range(len(ins)), min(len(ins), 5)):
            ins[k] = gen.branch(ins[k].addr, rng.choice(ins).addr, rng.choice([0, gen.AL]), rng.random() < .3)
    ins = [i for i in ins if not gen.caps(i).is_undefined]
    outcome = recovery.flips(rng, ins, share)
    orig = {i.addr: i.enc for i in ins}
    items = [(a, [CAPSInstruction(e, a) for e in v]) for a, v in outcome.items()]
    rng.shuffle(items)
    program = dict(items)
    for a, v in program.items():
        for c in v:
            if c.encoding != orig[a] and rng.random() < .15:
                c.ignore = True
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    return ins, program, collector


def anew(ctx, rule, candidates, addr, key):
    """A score other than it should be is set right and reported, however small the difference."""
    c = ctx.rng.choice(candidates)
    was = c.scores_by_rule.get(key)
    if was is None:
        return
    c.scores_by_rule[key] = was + ctx.rng.choice([1, 1e-4, -1e-6])
    ctx.check(rule.recover(addr), 'update-unreported', 'setting a score right is not reported', rule=key)
    ctx.check(abs(c.scores_by_rule[key] - was) < TINY, 'set-right', 'a score is not set right again', rule=key,
              got=c.scores_by_rule[key], want=was)
    ctx.ev('scored_anew')


def flow(ctx):
    rng = ctx.rng
    ins, program, collector = program_of(ctx)
    if not ins:
        ctx.skip()
    M = DefaultProbabilisticModel()
    if rng.random() < .5:
        for k in sorted(vars(M)):
            setattr(M, k, rng.random())
        rule = ControlFlowBehavior(program, model=M)
    else:
        rule = ControlFlowBehavior(program)
    live = {a: [c for c in v if not c.ignore] for a, v in program.items()}
    share = lambda l, f: sum(map(f, l)) / len(l) if l else 0
    order = sorted(program)
    rng.shuffle(order)
    for a in order:
        ctx.check(rule.recover(a), 'update-unreported', 'giving the first scores is not reported')
        for c in program[a]:
            got = c.scores_by_rule['CFG1']
            if c.ignore:
                ctx.eq(got, 0, 'discarded-scored', 'a discarded candidate got a score')
                ctx.ev('discarded_zero')
                continue
            same = lambda x: x.conditional_field == c.conditional_field
            w = M.both_conditionals_are_equals * (share(live.get(a - 4), same) + share(live.get(a + 4), same))
            if c.conditional_field == 14:
                w -= M.branch_after_cpsr * share(live.get(a - 4), lambda x: bool(x.modifies_flags()))
            if c.is_branch and c.jumping_address in program:
                w += M.just_any_jump_is_valid
                ctx.ev('jumps_inside')
            ctx.check(abs(got - w) < TINY, 'flow', 'wrong flow score', got=got, want=w, candidate=str(c), addr=hex(a))
            ctx.ev('flow_scores')
        if rng.random() < .2:
            ctx.check(not rule.recover(a), 'update-reported', 'scoring again reported a change')
            anew(ctx, rule, program[a], a, 'CFG1')
    if any(len(v) > 1 for v in live.values()):
        ctx.distinct('flow', sorted((a, [(c.encoding, c.ignore) for c in v]) for a, v in program.items()))
    ctx.note(addresses=len(program))


def far(ctx):
    """What is read was written more than a thousand instructions before."""
    rng = ctx.rng
    base, n = rng.choice([0, 0x10000, 0x80000000]), rng.choice([70, 260, 1030, 1200])
    ins = [gen.mov_imm(base, 5, 1)] + [gen.mov_imm(base + 4 * k, rng.randrange(3), k % 200) for k in range(1, n)]
    ins.append(gen.dp_imm(base + 4 * n, 'add', 6, 5, 1))
    program = {i.addr: [gen.caps(i)] for i in ins}
    for k in {0, n - 1, n, rng.randrange(n)}:
        a = base + 4 * k
        program[a] += [CAPSInstruction(e, a) for e in sorted(gen.flip_set(ins[k].enc, rng.sample(range(12, 20), 2)))
                       if e != ins[k].enc]
        rng.shuffle(program[a])
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    ctx.ev('far')
    distances_of(ctx, program, collector, [base + 4 * n])


def distance(ctx):
    rng = ctx.rng
    ins, program, collector = program_of(ctx)
    order = sorted(program)
    rng.shuffle(order)
    distances_of(ctx, program, collector, order)


def distances_of(ctx, program, collector, order):
    rng = ctx.rng
    rule = RegisterReadDistance(program, collector=collector)
    live = {a: [c for c in v if not c.ignore] for a, v in program.items()}
    lo, hi = collector.storage_min_dist, collector.storage_max_dist
    for a in order:
        rule.recover(a)
        for c in program[a]:
            got = c.scores_by_rule.get('REG_DIST1')
            if c.ignore:
                ctx.eq(got, 0, 'discarded-scored', 'a discarded candidate got a score')
                ctx.ev('discarded_zero')
                continue
            reads = c.storages_read()
            known = [r for r in reads if r in lo]
            places = []
            if known:
                near, far = min(lo[r] for r in known), max(hi[r] for r in known)
                places = [p for p in range(a - 4 * (far + 1), a, 4) if p <= a - 4 * (near + 1) and p in program]
            if not any(live[p] for p in places):
                ctx.check(got is None or abs(got) < TINY, 'distance-out-of-reach',
                          'a score without an instruction in reach', got=got, candidate=str(c), addr=hex(a))
                ctx.ev('out_of_reach')
                continue
            best = {r: max([1 / (len(x.storages_written()) * len(live[p])) for p in places for x in live[p]
                            if r in x.storages_written()] or [0]) for r in reads}
            w = min(1, sum(best.values()) / len(reads))
            ctx.check(got is not None and abs(got - w) < TINY, 'distance', 'wrong distance score', got=got, want=w,
                      candidate=str(c), addr=hex(a), best=best)
            ctx.ev('distance_scores')
        if rng.random() < .2 and not any(c.ignore for c in program[a]):
            anew(ctx, rule, program[a], a, 'REG_DIST1')
    ctx.distinct('distance', sorted((a, [(c.encoding, c.ignore) for c in v]) for a, v in program.items()))
    ctx.note(addresses=len(program))


def recuperation(ctx):
    rng = ctx.rng
    ins, program, collector = program_of(ctx)
    if not ins:
        ctx.skip()
    before = {a: [(id(c), c.encoding) for c in v] for a, v in program.items()}
    gone = {id(c) for v in program.values() for c in v if c.ignore}
    r = Recuperator(collector, program)
    r.passes = rng.choice([1, 2, 3, 3, 12])
    r.recover()
    ctx.eq({a: [(id(c), c.encoding) for c in v] for a, v in program.items()}, before, 'program-changed',
           'candidates were added, moved or removed')
    keys = [n + str(p) for n in ('CFG', 'COND_COUNT', 'INST_COUNT', 'REG_COUNT') for p in range(r.passes)]
    for a, v in program.items():
        for c in v:
            if id(c) in gone:
                ctx.check(c.ignore, 'resurrected', 'a discarded candidate came back')
                continue
            if len(v) == 1:
                ctx.check(not c.ignore, 'single-discarded', 'an instruction without alternatives was discarded')
                ctx.eq(dict(c.scores_by_rule), {}, 'single-scored', 'an instruction without alternatives was scored')
                continue
            bad = any(s <= 0 for s in c.scores_by_rule.values())
            ctx.eq(bool(c.ignore), bad and r.passes > 1, 'discarding',
                   'not exactly the candidates scoring nothing are discarded', scores=c.scores_by_rule,
                   passes=r.passes, candidate=str(c), addr=hex(a))
            if not c.ignore:
                for k in keys:
                    ctx.check(k in c.scores_by_rule, 'rule-missing', 'a rule gave no score', rule=k, addr=hex(a))
                ctx.check(abs(c.score() - sum(c.scores_by_rule.values())) < TINY, 'sum', 'the score is not the sum')
                ctx.ev('kept_by_score')
            elif r.passes > 1:
                ctx.ev('discarded_by_score')
    if r.passes == 1:
        ctx.ev('single_pass')
    ctx.ev('recuperations')
    ctx.distinct('recuperation', sorted((a, [c.encoding for c in v]) for a, v in program.items()), r.passes)
    ctx.note(addresses=len(program), passes=r.passes)


WORKLOADS = [W('flow', flow, 120, 3000), W('distance', distance, 120, 3000), W('far', far, 24, 300),
             W('recuperation', recuperation, 120, 3000)]
