"""A corrupted program saved to JSON loads back unchanged."""
import os
from mon.core import W
from mon import gen
from semantic_codec.corruption import corruption as co
from semantic_codec.corruption.corruptors import JSONCorruptor, PacketCorruptor, RandomCorruptor
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

PROPERTY = 'C11'
RULE = ('random programs with 0..30 candidates per address (any order, defined or not), saved directly, by the packet '
        'corruptor or by the random corruptor, then loaded by the loader and by the JSON corruptor; files overwritten '
        'by later, smaller programs; programs of none and of thousands of addresses. Non-trivial: some address has two candidates; distinct by the program.')
ASSUMPTIONS = []
LEVEL_NOTE = 'sampled round trips compared candidate by candidate, in order'
MIN_EVENTS = {'round_trips': 150, 'candidates_compared': 2000, 'overwrites': 50, 'extremes': 4, 'missing_path_rejected': 5}


def compare(ctx, got, want):
    ctx.eq(sorted(got), sorted(want), 'addresses', 'the addresses changed')
    ctx.eq(list(got), list(want), 'address-order', 'the order of the addresses changed')
    for a, v in want.items():
        ctx.eq([i.encoding for i in got[a]], v, 'candidates', 'candidates or their order changed', addr=hex(a))
        for i in got[a]:
            ctx.eq(i.address, a, 'candidate-address', 'a candidate got another address')
            ctx.eq(str(i).split(' object at')[0], str(CAPSInstruction(i.encoding, a)).split(' object at')[0], 'decode',
                   'a loaded candidate is not a decoded instruction')
            ctx.ev('candidates_compared')
    ctx.ev('round_trips')


def candidates(rng, ins, most=30):
    k = rng.choice([0, 1, 2, 4, rng.randrange(1, most)])
    encs = [ins.enc] + [rng.choice([rng.getrandbits(32)] * 6 + [0xffffffff, 0, 1 << 31, 0x7fffffff, rng.getrandbits(8)])
                        for _ in range(k)]
    rng.shuffle(encs)
    return encs


def direct(ctx):
    rng = ctx.rng
    path = 'program.json'
    for turn in range(2):
        n = rng.choice([1, 3, 12, 30]) if turn == 0 else rng.choice([1, 2, 5])
        want = {i.addr: candidates(rng, i) for i in gen.program(rng, n, gaps=rng.random() < .5)}
        if rng.random() < .2:
            want[rng.randrange(0, 1 << 32, 4)] = []
        items = list(want.items())
        rng.shuffle(items)
        co.save_corrupted_program_to_json({a: [CAPSInstruction(e, a) for e in v] for a, v in items}, path)
        want = dict(items)
        compare(ctx, co.load_corrupted_program_from_json(path), want)
        compare(ctx, JSONCorruptor(path).corrupt({}), want)
        if turn:
            ctx.ev('overwrites')
        if any(len(v) > 1 for v in want.values()):
            ctx.distinct(sorted(want.items()))
    ctx.note(addresses=len(want), example=sorted(want.items())[:1])
    os.remove(path)


def extremes(ctx):
    """Programs of thousands of addresses, and of none."""
    rng = ctx.rng
    path = 'program.json'
    addrs = rng.sample(range(0, 1 << 20, 4), rng.choice([1500, 3000])) if ctx.index % 2 else \
        list(range(0x18000, 0x18000 + 4 * 2500, 4))
    for want in ({a: [rng.getrandbits(32) for _ in range(1 + (a % 32 == 0))] for a in addrs}, {},
                 {8: list(dict.fromkeys(rng.getrandbits(32) for _ in range(3000)))}):
        co.save_corrupted_program_to_json({a: [CAPSInstruction(e, a) for e in v] for a, v in want.items()}, path)
        compare(ctx, co.load_corrupted_program_from_json(path), want)
    ctx.ev('extremes')
    ctx.distinct('extremes', addrs[:50])
    ctx.note(addresses=len(addrs))
    os.remove(path)


def corruptors(ctx):
    rng = ctx.rng
    size = rng.randrange(2, 30)
    ins = gen.program(rng, size)
    prog = {i.addr: [CAPSInstruction(i.enc, i.addr)] for i in ins}
    path = 'saved.json'
    if rng.random() < .5:
        c = PacketCorruptor(64, size, packets_lost=[rng.randrange(64)], bits_per_interleave=2,
                            save_corrupted_path=path)
        c.packet_lost = [int(x) for x in c.packet_lost]
    else:
        c = RandomCorruptor(rng.choice([5, 50, 100]), rng.randrange(1, 4), True)
        ctx.check(ctx.raises(RuntimeError, c.corrupt, {a: list(v) for a, v in prog.items()}), 'missing-path',
                  'saving without a path was not refused')
        ctx.ev('missing_path_rejected')
        c.corrupted_program_path = path
        prog = {i.addr: [CAPSInstruction(i.enc, i.addr)] for i in ins}
    res = c.corrupt(prog)
    want = {a: [i.encoding for i in v] for a, v in res.items()}
    compare(ctx, co.load_corrupted_program_from_json(path), want)
    compare(ctx, JSONCorruptor(path).corrupt(None), want)
    ctx.check(ctx.raises(RuntimeError, JSONCorruptor(None).corrupt, {}), 'missing-path',
              'loading without a path was not refused')
    ctx.ev('missing_path_rejected')
    if any(len(v) > 1 for v in want.values()):
        ctx.distinct(sorted(want.items()))
    ctx.note(corruptor=type(c).__name__, addresses=size)
    os.remove(path)


WORKLOADS = [W('direct', direct, 80, 2500), W('extremes', extremes, 4, 60), W('corruptors', corruptors, 80, 2500)]
