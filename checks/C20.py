"""Constraint reduction (enumerator): what is pruned, what is kept and the size it reports, against a reference."""
import math
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.solution.solution_builders import ForwardConstraintSolutionEnumerator

PROPERTY = 'C20'
RULE = ('random programs with 1..32 candidates per address in any order (undefined and discarded candidates and '
        'undefined originals included), many candidates that fit, programs of over a hundred addresses, reduced by the enumerator. Non-trivial: something was pruned; distinct by '
        'program.')
ASSUMPTIONS = ['the original of every address is among its candidates']
LEVEL_NOTE = 'final candidate lists, solution number and size compared with a reference simulation'
MIN_EVENTS = {'reductions': 150, 'candidates_pruned': 1000, 'addresses_compared': 2000, 'undefined_originals': 20,
              'many_candidates': 30, 'large_programs': 6, 'astronomic': 1,
              'hundreds_of_candidates': 8}


def reference(program, original):
    """program: {address: [instruction]}; original: {address: instruction}. Prunes program, returns the solution."""
    live = [i for i in original.values() if not i.ignore]
    ops, conds, regs = {}, {}, {}

    def count(i, by):
        ops[i.opcode_field] = ops.get(i.opcode_field, 0) + by
        conds[i.conditional_field] = conds.get(i.conditional_field, 0) + by
        for s in set(i.storages_used()):
            regs[s] = regs.get(s, 0) + by
    for i in live:
        count(i, 1)

    def fits(i):
        return not i.ignore and ops.get(i.opcode_field, 0) > 0 and conds.get(i.conditional_field, 0) > 0 and \
            all(regs.get(r, 0) > 0 for r in i.registers_used())
    todo, solution = list(program), 1
    while todo:
        todo.sort(key=lambda a: len(program[a]))
        a = todo.pop(0)
        v = program[a]
        if not v or original[a].ignore:
            continue
        k = [c.encoding for c in v].index(original[a].encoding)
        if len(v) > 1:
            solution *= k + 1
        count(v[k], -1) if not v[k].ignore else None
        for b in todo:       # everything that cannot be any more goes, except the last candidate of the list
            if program[b]:
                program[b] = [c for c in program[b][:-1] if fits(c)] + program[b][-1:]
    return solution


def build(c):
    return CAPSInstruction(c, 0)


def reduce(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 15, 40])
    ins = gen.program(rng, n, gaps=rng.random() < .3, regs=rng.choice([2, 4, 13]), cond=rng.choice([None, gen.AL]))
    orig = [gen.caps(i) for i in ins]
    for k in range(n):
        if rng.random() < .05:
            orig[k] = CAPSInstruction(rng.choice([0xffffffff, 0xe7f000f0 ^ 0x10, orig[k].encoding]), orig[k].address)
    outcome = {}
    for o in orig:
        bits = rng.sample(range(32), rng.choice([0, 1, 2, 3, 5])) if rng.random() < .7 else []
        if n <= 5 and rng.random() < .04:
            bits = rng.sample(range(32), 9)
            ctx.ev('hundreds_of_candidates')
        v = sorted(gen.flip_set(o.encoding, bits))
        if rng.random() < .6:
            rng.shuffle(v)
        outcome[o.address] = v
    if rng.random() < .4:
        items = list(outcome.items())
        rng.shuffle(items)
        outcome = dict(items)
    compare(ctx, orig, outcome)


def compare(ctx, orig, outcome):
    rng, n = ctx.rng, len(orig)
    dropped = {(o.address, e) for o in orig for e in outcome[o.address]
               if e != o.encoding and rng.random() < .03}

    def fresh():
        p = {a: [CAPSInstruction(e, a) for e in v] for a, v in outcome.items()}
        for a, v in p.items():
            for c in v:
                c.ignore = (a, c.encoding) in dropped
        return p
    want = fresh()
    sol = reference(want, {o.address: o for o in orig})
    got = fresh()
    b = ForwardConstraintSolutionEnumerator(got, orig)
    b.build()
    ctx.note(addresses=n, before=sum(map(len, outcome.values())), after=sum(map(len, got.values())), solution=sol)
    ctx.eq(sorted(got), sorted(outcome), 'addresses', 'an address appeared or vanished')
    for o in orig:
        a = o.address
        g = [c.encoding for c in got[a]]
        if not o.ignore:
            ctx.check(o.encoding in g, 'original-pruned', 'the original was pruned', addr=hex(a), original=str(o))
        else:
            ctx.ev('undefined_originals')
        ctx.check(set(g) <= set(outcome[a]), 'new-candidate', 'a candidate appeared', addr=hex(a))
        ctx.eq(g, [c.encoding for c in want[a]], 'pruning', 'candidates pruned or kept against the constraints',
               addr=hex(a), before=[hex(e) for e in outcome[a]], original=str(o))
        ctx.ev('addresses_compared')
    ctx.eq(b.solution, sol, 'solution', 'wrong solution number')
    size = b.solution_size
    ctx.check(abs(size - math.log2(sol)) < 1e-6 * max(1, size), 'size', 'wrong solution size', got=size,
              want=math.log2(sol))
    pruned = sum(map(len, outcome.values())) - sum(map(len, got.values()))
    ctx.ev('reductions')
    ctx.ev('candidates_pruned', pruned)
    if pruned:
        ctx.distinct([o.encoding for o in orig], sorted(outcome.items()))


def alike(ctx):
    """Many candidates that fit: instructions of the program itself, up to 70 at an address."""
    rng = ctx.rng
    n = rng.choice([3, 8, 20])
    ins = gen.program(rng, n, regs=rng.choice([4, 13]), cond=gen.AL)
    pool = sorted({i.enc ^ b << s for i in ins for b, s in [(0, 0), (1, 0), (1, 12), (1, 16), (2, 12), (3, 0)]})
    orig = [gen.caps(i) for i in ins]
    outcome = {}
    for o in orig:
        v = sorted({o.encoding} | set(rng.sample(pool, min(len(pool), rng.choice([0, 1, 3, 20, 69])))))
        if rng.random() < .5:
            rng.shuffle(v)
        outcome[o.address] = v
    compare(ctx, orig, outcome)
    ctx.ev('many_candidates', sum(len(v) > 32 for v in outcome.values()))


def large(ctx):
    """Programs of more than a hundred addresses with few candidates each."""
    rng = ctx.rng
    n = rng.choice([130, 200, 280])
    ins = gen.program(rng, n, regs=rng.choice([4, 13]), cond=rng.choice([None, gen.AL]))
    orig = [gen.caps(i) for i in ins]
    few = rng.choice([[0, 1, 1, 2], [1, 2, 3]])
    outcome = {o.address: sorted(gen.flip_set(o.encoding, rng.sample(range(28), rng.choice(few)))) for o in orig}
    compare(ctx, orig, outcome)
    ctx.ev('large_programs')


def astronomic(ctx):
    """Solution numbers beyond what a float holds: everything fits, the originals come last."""
    n = ctx.rng.choice([345, 350])
    orig = [CAPSInstruction(0xe3a00000 | (k % 8) << 12 | 7, 0x8000 + 4 * k) for k in range(n)]
    outcome = {o.address: [o.encoding & ~7 | j for j in range(8)] for o in orig}
    prog = {a: [CAPSInstruction(e, a) for e in v] for a, v in outcome.items()}
    b = ForwardConstraintSolutionEnumerator(prog, orig)
    b.build()
    left, sol = orig[:], 1
    for o in orig:
        v = [c.encoding for c in prog[o.address]]
        ctx.check(o.encoding in v, 'original-pruned', 'the original was pruned', addr=hex(o.address))
        sol *= v.index(o.encoding) + 1 if len(v) > 1 else 1
    ctx.check(b.solution >= 1 << 1024, 'solution', 'everything fits, but the solution number is small',
              got=b.solution.bit_length())
    ctx.eq(b.solution, sol, 'solution', 'wrong solution number')
    want = sum(math.log2(len(v)) for v in prog.values())
    ctx.check(abs(b.solution_size - want) < 1e-6 * want, 'size', 'wrong solution size', got=b.solution_size, want=want)
    ctx.ev('astronomic')
    ctx.note(addresses=n, bits=sol.bit_length())
    ctx.distinct('astronomic', n)


WORKLOADS = [W('astronomic', astronomic, 1, 2), W('reduce', reduce, 300, 6000), W('alike', alike, 40, 800), W('large', large, 8, 80)]
