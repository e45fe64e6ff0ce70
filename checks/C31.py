"""The constraint problem of a corrupted program: its solutions are exactly the choices that match the metadata."""
from itertools import product
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.solution.solution_builders import ProblemBuilder

PROPERTY = 'C31'
RULE = ('random programs of 2..7 addresses (at most 4000 choices; few or many registers, conditions and opcodes, '
        'undefined and discarded candidates, also alone at an address, empty addresses), their metadata exact or altered; every choice counted '
        'by brute force. Non-trivial: more than one choice; distinct by program and metadata.')
ASSUMPTIONS = ['at least two addresses with candidates (the solver library does not take problems of one variable)',
               'which storages an instruction uses is decided by C13']
LEVEL_NOTE = 'sampled programs, all choices of each enumerated'
MIN_EVENTS = {'problems': 200, 'choices': 10000, 'solutions': 200, 'several_solutions': 20, 'unsolvable': 20,
              'discarded': 100, 'empty_addresses': 15, 'original_found': 100, 'undefined_originals': 40, 'crowds': 10, 'lone_undefined': 20}


class Given(object):
    def __init__(self, m):
        self.condition_count = dict(m.condition_count)
        self.instruction_count = dict(m.instruction_count)
        self.storage_count = dict(m.storage_count)


def tally(choice):
    c, o, s = {}, {}, {}
    for i in choice:
        if i.ignore:
            continue
        c[i.conditional_field] = c.get(i.conditional_field, 0) + 1
        o[i.opcode_field] = o.get(i.opcode_field, 0) + 1
        for r in i.storages_used():
            s[r] = s.get(r, 0) + 1
    return [c, o, s]


def live(d):
    return {k: v for k, v in d.items() if v}


def solve(ctx):
    rng = ctx.rng
    n = rng.randrange(2, 8)
    ins = gen.program(rng, n, gaps=rng.random() < .3, regs=rng.choice([2, 4, 13]), cond=rng.choice([None, gen.AL]))
    orig = [gen.caps(i) for i in ins]
    prog, total = {}, 1
    for i in ins:
        bits = rng.sample(rng.choice([range(28, 32), range(12, 20), range(20, 25), range(0, 4), range(32)]),
                          rng.choice([0, 1, 1, 2, 3]))
        v = sorted(gen.flip_set(i.enc, bits))
        if total * len(v) > 4000:
            v = [i.enc]
        total *= len(v)
        rng.shuffle(v)
        prog[i.addr] = [CAPSInstruction(e, i.addr) for e in v]
        for c in prog[i.addr]:
            if c.encoding != i.enc and rng.random() < .08:
                c.ignore = True
    if n == 2 and rng.random() < .5:
        # A crowd at one address
        i = ins[rng.randrange(2)]
        v = sorted(gen.flip_set(i.enc, rng.sample(range(32), 7)))
        prog[i.addr] = [CAPSInstruction(e, i.addr) for e in v]
        total = len(prog[ins[0].addr]) * len(prog[ins[1].addr])
        ctx.ev('crowds')
    if rng.random() < .25:
        # What stands here is no defined instruction
        k = rng.randrange(n)
        orig[k] = CAPSInstruction(rng.choice([0xffffffff, 0xf3ffffff, 0xe7f000f0]), ins[k].addr)
        if not orig[k].is_undefined:
            orig[k] = CAPSInstruction(0xffffffff, ins[k].addr)
        prog[ins[k].addr].insert(rng.randrange(len(prog[ins[k].addr]) + 1), orig[k])
        total = 1
        for v in prog.values():
            total *= len(v)
        ctx.ev('undefined_originals')
        if rng.random() < .4:
            # and nothing else could
            prog[ins[k].addr] = [orig[k]]
            total = 1
            for v in prog.values():
                total *= len(v)
            ctx.ev('lone_undefined')
    if rng.random() < .15:
        prog[ins[-1].addr + 4] = []
        ctx.ev('empty_addresses')
    ctx.ev('discarded', sum(c.ignore for v in prog.values() for c in v))
    if rng.random() < .4:
        items = list(prog.items())
        rng.shuffle(items)
        prog = dict(items)
    m = MetadataCollector()
    m.collect(orig)
    meta, exact = Given(m), True
    if rng.random() < .3:
        exact = False
        d = rng.choice([meta.condition_count, meta.instruction_count, meta.storage_count])
        if d:
            k = rng.choice(sorted(d))
            how = rng.randrange(3)
            if how == 0:
                d[k] += 1
            elif how == 1 and d[k] > 1:
                d[k] -= 1
            else:
                d.pop(k)
    want_counts = [live(meta.condition_count), live(meta.instruction_count), live(meta.storage_count)]
    saved = [dict(meta.condition_count), dict(meta.instruction_count), dict(meta.storage_count)]
    content = {a: [id(c) for c in v] for a, v in prog.items()}
    where = [a for a in prog if prog[a]]
    want = sorted(tuple(c.encoding for c in ch) for ch in product(*(prog[a] for a in where))
                  if tally(ch) == want_counts)
    ctx.note(addresses=n, choices=total, solutions=len(want), exact=exact)
    for _ in range(rng.choice([1, 1, 2])):
        got = ProblemBuilder().build(prog, meta).getSolutions()
        for g in got:
            ctx.eq(sorted(g), sorted(where), 'variables', 'a solution does not cover the addresses')
            ctx.check(all(id(g[a]) in content[a] for a in where), 'candidate', 'a solution uses another instruction')
        enc = sorted(tuple(g[a].encoding for a in where) for g in got)
        ctx.eq(enc, want, 'solutions', 'the solutions are not the choices that match the metadata',
               metadata=saved, program={hex(a): [str(c) for c in v] for a, v in prog.items()})
    if exact:
        o = {x.address: x.encoding for x in orig}
        ctx.check(tuple(o[a] for a in where) in want, 'original', 'the original program is no solution')
        ctx.ev('original_found')
    ctx.eq({a: [id(c) for c in v] for a, v in prog.items()}, content, 'mutated', 'the program was changed')
    ctx.eq([meta.condition_count, meta.instruction_count, meta.storage_count], saved, 'mutated', 'metadata changed')
    ctx.ev('problems')
    ctx.ev('choices', total)
    ctx.ev('solutions', len(want))
    ctx.ev('several_solutions' if len(want) > 1 else 'unsolvable' if not want else 'unique')
    if total > 1:
        ctx.distinct(saved, sorted((a, tuple((c.encoding, c.ignore) for c in v)) for a, v in prog.items()))


WORKLOADS = [W('solve', solve, 1000, 12000)]
