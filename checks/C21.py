"""The compact solution: reading its bits in order leads back to the original instruction of every address."""
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder

PROPERTY = 'C21'
RULE = ('random programs with 1..70 candidates per address, now and then hundreds or thousands (powers of two and not, textual twins, the original at any '
        'place), solution built, then decoded from its bits. Non-trivial: at least two addresses with more than one '
        'candidate; distinct by program.')
ASSUMPTIONS = ['the decoder knows the corrupted program and takes addresses by number of candidates, ties in the order '
               'of the program, as the builder documents', 'the original of every address is among its candidates']
LEVEL_NOTE = 'sampled programs decoded from the bit stream'
MIN_EVENTS = {'solutions_decoded': 150, 'addresses_decoded': 1500, 'long_streams': 40, 'hundreds_of_candidates': 10, 'last_candidate': 100, 'thousands_of_candidates': 2}


def decode(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 20, 60])
    ins = gen.program(rng, n, gaps=rng.random() < .3)
    prog, want = {}, {}
    for i in ins:
        k = rng.choice([1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, rng.randrange(1, 70)])
        if n <= 5 and rng.random() < .1:
            k = rng.choice([255, 256, 257, 300, 600, 1024, 1100, 2049])
            ctx.ev('hundreds_of_candidates')
        elif ctx.index % 50 == 7 and not prog:
            k = rng.choice([4200, 5000, 8300])
            ctx.ev('thousands_of_candidates')
        encs = list({i.enc} | {rng.choice([i.enc ^ (1 << rng.randrange(32)), rng.getrandbits(32)]) for _ in range(k - 1)})
        rng.shuffle(encs)
        if rng.random() < .3 or k > 4000:
            encs.remove(i.enc)
            encs.append(i.enc)
        prog[i.addr] = [CAPSInstruction(e, i.addr) for e in encs]
        want[i.addr] = i.enc
    if rng.random() < .5:
        items = list(prog.items())
        rng.shuffle(items)
        prog = dict(items)
    before = {a: [c.encoding for c in v] for a, v in prog.items()}
    original = [gen.caps(i) for i in ins]
    b = ForwardConstraintSolutionBuilder(prog, original)
    b.build()
    ctx.eq({a: [c.encoding for c in v] for a, v in prog.items()}, before, 'mutated', 'building changed the program')
    q = b.solution
    total = 0
    undefined = {o.address for o in original if o.ignore}
    for a in sorted(before, key=lambda a: len(before[a])):
        v = before[a]
        if len(v) == 1 or a in undefined:
            continue
        bits = 1
        while (1 << bits) < len(v):
            bits += 1
        q.word_size = bits
        k = q.dequeue(0, 0)
        total += bits
        ctx.check(0 <= k < len(v) and v[k] == want[a], 'decoding', 'the solution leads to another instruction',
                  addr=hex(a), candidates=len(v), index=k, original=v.index(want[a]), addresses=n)
        if k == len(v) - 1:
            ctx.ev('last_candidate')
        ctx.ev('addresses_decoded')
    ctx.eq(b.solution_size, total, 'size', 'the size is not the number of bits', addresses=n)
    ctx.ev('solutions_decoded')
    if total > 64:
        ctx.ev('long_streams')
    ctx.note(addresses=n, bits=total)
    if sum(len(v) > 1 for v in before.values()) > 1:
        ctx.distinct(list(before.items()), sorted(want.items()))


WORKLOADS = [W('decode', decode, 300, 6000)]
