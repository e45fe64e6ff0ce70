"""Solution files: what is written is what is read back."""
import os
import struct
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.solution.solution_io import SolutionReader, SolutionWriter

PROPERTY = 'C22'
RULE = ('random programs (0..60 and thousands of addresses over the whole 32-bit space, 1..40 candidates, encodings with all byte '
        'patterns, textual twins), original given as list or dictionary, files overwritten by smaller ones. '
        'Non-trivial: an address whose original is not the first candidate; distinct by program.')
ASSUMPTIONS = ['the original of every address is among its candidates (otherwise writing is refused)']
LEVEL_NOTE = 'sampled round trips, and the documented layout parsed independently'
MIN_EVENTS = {'round_trips': 150, 'candidates_compared': 3000, 'refused': 50, 'overwrites': 80,
              'larger_originals': 20, 'long_lists': 4, 'huge_lists': 1}


def make(rng, n, many=0):
    prog, orig = {}, {}
    for a in rng.sample([0, 4, 0x7ffffffc, 0x80000000, 0xfffffffc] + [rng.randrange(0, 1 << 32, 4) for _ in range(n)],
                        n):
        k = many if many and not prog else rng.choice([1, 1, 2, 8, 40])
        encs = list({rng.choice([rng.getrandbits(32), 0, 0xffffffff, rng.getrandbits(8), 0xe92d4010])
                     for _ in range(min(k, 40))} | {rng.getrandbits(32) for _ in range(k - 40)})
        rng.shuffle(encs)
        prog[a] = [CAPSInstruction(e, a) for e in encs]
        orig[a] = CAPSInstruction(rng.choice(encs), a)
    return prog, orig


def parse(data):
    magic, n = struct.unpack_from('<QL', data)
    pos, res = 12, {}
    for _ in range(n):
        a, k = struct.unpack_from('<LL', data, pos)
        res[a] = list(struct.unpack_from('<%dL' % k, data, pos + 8))
        pos += 8 + 4 * k
    return magic, res, pos


def roundtrip(ctx):
    rng = ctx.rng
    path = 's.sol'
    reader, writer = SolutionReader(), SolutionWriter()
    for turn in range(2):
        many = rng.choice([1500, 6000]) if ctx.index % 40 == 39 and not turn else 0
        prog, orig = make(rng, 3 if many else rng.choice([0, 1, 3, 20, 60]) if not turn else rng.choice([0, 1, 2]), many)
        if many:
            a = next(iter(prog))
            orig[a] = CAPSInstruction(prog[a][-1].encoding, a)
            ctx.ev('long_lists')
        before = {a: [c.encoding for c in v] for a, v in prog.items()}
        whole = dict(orig)
        if rng.random() < .3:
            # only a part of the original program was corrupted
            for a in [rng.randrange(0, 1 << 32, 4) for _ in range(rng.randrange(1, 5))]:
                if a not in whole:
                    whole[a] = CAPSInstruction(rng.getrandbits(32), a)
                    ctx.ev('larger_originals')
        given = list(whole.values()) if rng.random() < .5 else {a: [o] for a, o in whole.items()}
        writer.write_binary(path, given, prog)
        ctx.eq({a: [c.encoding for c in v] for a, v in prog.items()}, before, 'mutated', 'writing changed the program')
        want = {a: v[:v.index(orig[a].encoding) + 1] for a, v in before.items()}
        data = open(path, 'rb').read()
        magic, res, end = parse(data)
        ctx.eq((magic, res, end), (SolutionWriter.MAGIC_WORD, want, len(data)), 'layout',
               'the file does not have the documented layout')
        o, p = reader.read(path)
        ctx.eq({a: [c.encoding for c in v] for a, v in p.items()}, want, 'program', 'another program was read back')
        ctx.eq(list(p), list(prog), 'order', 'the addresses are read back in another order')
        ctx.eq({a: [c.encoding for c in v] for a, v in o.items()}, {a: [x.encoding] for a, x in orig.items()},
               'original', 'another original was read back')
        for d in (o, p):
            for a, v in d.items():
                ctx.check(all(c.address == a for c in v), 'address', 'a candidate got another address', addr=hex(a))
                for c in v:
                    ctx.eq(c.is_undefined, CAPSInstruction(c.encoding, a).is_undefined, 'decode',
                           'a candidate is decoded differently', addr=hex(a))
        for v in p.values():
            for c in v:
                c.ignore = True
                c.scores_by_rule['pc'] = 0
        for a, v in o.items():
            ctx.check(not v[0].scores_by_rule and (v[0].is_undefined or not v[0].ignore), 'shared',
                      'working on the candidates changed the original', addr=hex(a))
        ctx.ev('round_trips')
        ctx.ev('candidates_compared', sum(map(len, want.values())))
        if turn:
            ctx.ev('overwrites')
        if any(len(v) > 1 for v in want.values()):
            ctx.distinct(sorted(want.items()), sorted(before.items()))
        ctx.note(turn=turn, addresses=len(prog), bytes=len(data))
    os.remove(path)


def refused(ctx):
    rng = ctx.rng
    prog, orig = make(rng, rng.choice([1, 4, 20]))
    a = rng.choice(list(prog))
    if rng.random() < .3:
        prog[a] = []
    else:
        prog[a] = [c for c in prog[a] if c.encoding != orig[a].encoding]
    given = list(orig.values()) if rng.random() < .5 else {x: [o] for x, o in orig.items()}
    ctx.check(ctx.raises(RuntimeError, SolutionWriter().write_binary, 'r.sol', given, prog), 'accepts-unsolvable',
              'a program without the original of an address was written', addr=hex(a), left=len(prog[a]))
    ctx.ev('refused')
    ctx.distinct('refused', sorted((x, [c.encoding for c in v]) for x, v in prog.items()))
    ctx.note(addresses=len(prog), missing=hex(a))
    os.remove('r.sol')


def huge(ctx):
    """More candidates at an address than two bytes count."""
    rng = ctx.rng
    n = (1 << 16) + rng.randrange(3000) * (ctx.index % 2)
    encs = [(0xe3a00000 + k * 0x9e3779b1) & 0xffffffff for k in range(n)]
    prog = {0x8000: [CAPSInstruction(0xe1a00000, 0x8000)], 0x8004: [CAPSInstruction(e, 0x8004) for e in encs],
            0x8008: [CAPSInstruction(0xe1a00001, 0x8008)]}
    SolutionWriter().write_binary('h.sol', [v[-1] for v in prog.values()], prog)
    o, p = SolutionReader().read('h.sol')
    ctx.eq([(a, len(v)) for a, v in p.items()], [(a, len(v)) for a, v in prog.items()], 'program', 'candidates were lost')
    ctx.check([c.encoding for c in p[0x8004]] == encs, 'program', 'another program was read back', candidates=n)
    ctx.eq([(a, [c.encoding for c in v]) for a, v in o.items()], [(a, [v[-1].encoding]) for a, v in prog.items()],
           'original', 'another original was read back')
    ctx.ev('huge_lists')
    ctx.distinct('huge', n)
    ctx.note(candidates=n)
    os.remove('h.sol')


WORKLOADS = [W('huge', huge, 2, 4), W('roundtrip', roundtrip, 200, 5000), W('refused', refused, 100, 2000)]
