"""Recovery never discards the original instruction, and always finishes."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.corruption.corruptors import PacketCorruptor, RandomCorruptor
from semantic_codec.solution.solution_io import SolutionReader
import recover_program

PROPERTY = 'C18'
RULE = ('the whole recovery over programs of 1..5 functions (small to 150 instructions, few or many registers and '
        'conditions, low and high addresses) with arbitrary losses, packet losses, random corruption and none, long plain programs with a few very unlikely instructions, and discards that chain over many passes; watched '
        'before and after every pass. Non-trivial: an address with two candidates; distinct by program and losses.')
ASSUMPTIONS = ['the program consists of contiguous functions of defined instructions',
               'the corruption keeps the original among the candidates']
LEVEL_NOTE = 'sampled programs and losses; checked after every pass for every address'
MIN_EVENTS = {'recoveries': 100, 'passes': 200, 'addresses_checked': 5000, 'candidates_eliminated': 1000,
              'lossless': 5, 'cascades': 30, 'rare': 20, 'originals_below_1e-7': 10, 'packet_losses': 20}
OUTPUTS = ('corrupted_program.txt', 'initial_solution.sol', 'final_solution.sol')


def make_corruptor(ctx, ins):
    rng = ctx.rng
    kind = rng.choice(['given', 'given', 'packet', 'random', 'none'])
    if kind == 'packet':
        n = rng.choice([16, 32, 64])
        ctx.ev('packet_losses')
        return kind, PacketCorruptor(n, len(ins), packets_lost=rng.sample(range(n), rng.choice([1, 1, 2])))
    if kind == 'random':
        return kind, RandomCorruptor(rng.choice([5, 30, 80]), rng.randrange(1, 5), False)
    if kind == 'none':
        ctx.ev('lossless')
        return kind, recovery.Given({i.addr: [i.enc] for i in ins})
    return kind, recovery.Given(recovery.flips(rng, ins, rng.choice([.1, .5, 1]), rng.choice([2, 3, 5])))


def run(ctx):
    fs = recovery.functions(ctx.rng)
    kind, corruptor = make_corruptor(ctx, [i for _, b in fs for i in b])
    watch(ctx, fs, kind, corruptor)


def cascade(ctx):
    """Each pass settles one more address."""
    fs, outcome = recovery.chain(ctx.rng)
    watch(ctx, fs, 'cascade', recovery.Given(outcome))
    ctx.ev('cascades')


def rare(ctx):
    """Long plain programs with a few instructions unlike all others, whose values may be anywhere else instead."""
    rng = ctx.rng
    base = rng.choice([0x1000, 0x80000000])
    n = rng.choice([60, 120, 200])
    body = [gen.mov_imm(base + 4 * k, rng.randrange(4), rng.randrange(200)) for k in range(n)]
    odd = {}
    for k in rng.sample(range(n), rng.randrange(1, 4)):
        a = base + 4 * k
        cond = rng.randrange(14)
        odd[a] = rng.choice([gen.branch(a, a + 0x800000, cond, rng.random() < .5), gen.mov_reg(a, 11, 10, cond),
                             gen.ldst(a, 0, 9, 8, 4, cond), gen.cmp_reg(a, 'teq', 7, 6, cond), gen.mul(a, 5, 6, 7, cond)])
        body[k] = odd[a]
    odds = list(odd.values())
    out = {}
    for i in body:
        v = {i.enc}
        if i.addr in odd:
            # Its surroundings speak for another one
            v |= {body[0].enc & 0xffff0fff, i.enc ^ (i.cond ^ gen.AL) << 28}
        elif rng.random() < .9:
            for o in odds:
                v |= {i.enc & 0xfffffff | o.cond << 28, o.enc | 0xe0000000 & ~(1 << 28), o.enc}
            v |= {i.enc & 0xfffffff | 3 << 28, 0xeb300000}
        v = sorted(e for e in v if e == i.enc or e >> 28 != 15)
        rng.shuffle(v)
        out[i.addr] = v
    watch(ctx, [('main', body)], 'rare', recovery.Given(out))
    ctx.ev('rare')


def watch(ctx, fs, kind, corruptor):
    ins = [i for _, b in fs for i in b]
    orig = {i.addr: i.enc for i in ins}
    steps = []
    ctx.note(functions=len(fs), addresses=len(ins), losses=kind, first=hex(ins[0].addr))
    recover_program.run_recovery(recovery.elf(fs), corruptor, recovery.observed(steps))
    program = steps[-1]['program']
    end = {a: [i.encoding for i in v] for a, v in program.items()}
    start = steps[0]['before']
    for k, s in enumerate(steps):
        nxt = steps[k + 1]['before'] if k + 1 < len(steps) else end
        ctx.eq(sorted(s['before']), sorted(orig), 'addresses', 'an address appeared or vanished')
        for a, v in s['before'].items():
            if orig[a] not in nxt[a]:
                o = [x for x in s['after'][a] if x[0] == orig[a]]
                ctx.fail('original-discarded', 'the original instruction was discarded', addr=hex(a),
                         original=hex(orig[a]), scores=o, step=k + 1, candidates=len(v))
            ctx.check(set(nxt[a]) <= set(v), 'new-candidate', 'a candidate appeared during the recovery', addr=hex(a))
            ctx.check(len(set(nxt[a])) == len(nxt[a]) or len(set(v)) < len(v), 'duplicate',
                      'a candidate was duplicated', addr=hex(a))
            ctx.ev('addresses_checked')
        ctx.ev('passes')
        least = min((x[1] for a, v in s['after'].items() for x in v if x[0] == orig[a]), default=1)
        if least < 1e-7:
            ctx.ev('originals_below_1e-7')
    ctx.ev('candidates_eliminated', sum(len(start[a]) - len(end[a]) for a in orig))
    _, kept = SolutionReader().read('final_solution.sol')
    for a in orig:
        ctx.eq(kept[a][-1].encoding, orig[a], 'original-lost', 'the written solution does not lead to the original',
               addr=hex(a))
    ctx.ev('recoveries')
    if any(len(v) > 1 for v in start.values()):
        ctx.distinct(sorted((a, tuple(v)) for a, v in start.items()))
    ctx.note(passes=len(steps), candidates=sum(map(len, start.values())), left=sum(map(len, end.values())))
    recovery.clean(OUTPUTS)


WORKLOADS = [W('run', run, 240, 5000), W('rare', rare, 40, 800), W('cascade', cascade, 30, 600)]
