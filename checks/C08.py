"""Packet-loss corruption: the candidates of every instruction are exactly the variations of its lost bits."""
from mon.core import W
from mon import gen
from checks import channel
from semantic_codec.corruption.corruptors import PacketCorruptor
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp

PROPERTY = 'C08'
RULE = ('random programs (contiguous, with address gaps, at high addresses, dictionaries in any insertion order) and '
        'the shipped programs, under random packet counts, chunk sizes, orders and lost packets (at most 9 lost bits '
        'per instruction). Non-trivial: at least one instruction lost bits; distinct by the parameter tuple and '
        'program.')
ASSUMPTIONS = ['instruction k in address order is word k of the transmitted data; the data size is the program size',
               'the chunk size divides the 32-bit word']
LEVEL_NOTE = ('every candidate list compared with the set computed from the channel model; the recorded boundary '
              'deviation is accepted only in exactly the recorded form')
MIN_EVENTS = {'addresses_compared': 2000, 'candidates_compared': 10000, 'untouched_addresses': 100,
              'exact_programs': 30, 'long': 2, 'reused_corruptors': 10, 'other_losses': 10, 'several_before': 200}


def corrupt(ctx, corruptor, prog, n, ws, order, lost):
    """prog: list of (addr, encoding, or encodings of the candidates there already) in address order."""
    rng = ctx.rng
    prog = [(a, (e,) if isinstance(e, int) else tuple(e)) for a, e in prog]
    items = [(a, [CAPSInstruction(x, a) for x in e]) for a, e in prog]
    rng.shuffle(items)
    d = dict(items)
    res = corruptor.corrupt(d)
    ctx.eq(sorted(res), sorted(a for a, _ in prog), 'addresses', 'corruption added or removed addresses')
    true = channel.lost_bits(len(prog), ws, order, lost)
    shifted, hit = channel.shifted_lost_bits(len(prog), ws, order, lost)
    got = {}
    for k, (a, e) in enumerate(prog):
        encs = [i.encoding for i in res[a]]
        ctx.check(all(i.address == a for i in res[a]), 'candidate-address', 'a candidate has another address', addr=a)
        ctx.eq(len(encs), len(set(encs)), 'duplicates', 'an instruction has the same candidate twice', addr=hex(a),
               lost=lost, packets=n, chunk=ws)
        ctx.eq(encs, sorted(encs), 'unsorted', 'the candidates are not sorted', addr=hex(a))
        ctx.check(set(e) <= set(encs), 'original-lost', 'the original instruction is not a candidate', addr=hex(a))
        ctx.ev('addresses_compared')
        ctx.ev('candidates_compared', len(encs))
        if len(encs) == 1:
            ctx.ev('untouched_addresses')
        got[k] = set(encs)
    ctx.note(packets=n, chunk=ws, instructions=len(prog), lost=list(lost), sizes=[len(got[k]) for k in range(min(20, len(prog)))])

    def variations(e, lost):
        return set().union(*[gen.flip_set(x, lost) for x in e])
    bad = [k for k, (a, e) in enumerate(prog) if got[k] != variations(e, true.get(k, ()))]
    if not bad:
        ctx.ev('exact_programs')
    else:
        worse = [k for k, (a, e) in enumerate(prog) if got[k] != variations(e, shifted.get(k, ()))]
        if not hit or worse:
            k = (worse or bad)[0]
            a, e = prog[k]
            ctx.fail('candidates', 'the candidates are not the variations of the lost bits', addr=hex(a), word=k,
                     original=[hex(x) for x in e], lost=lost, packets=n, chunk=ws, lost_bits=sorted(true.get(k, ())),
                     got=[hex(x) for x in sorted(got[k])][:12], count=len(got[k]))
        ctx.known_hit('boundary-shift', 'packets=%d chunk=%d lost=%s' % (n, ws, list(lost)))
    if any(len(v) > 1 for v in got.values()):
        ctx.distinct(n, ws, tuple(int(x) for x in order), tuple(lost), tuple(prog))


def pick(rng, n_words, maxbits=9):
    """Channel parameters that lose at most maxbits bits of any instruction."""
    for _ in range(300):
        ws = rng.choice([1, 2, 2, 2, 4])
        n = rng.choice([3, 5, 7, 16, 17, 33, rng.randrange(4, 130)])
        if rng.random() < .7:
            order = build_2d_interleave_sp(n, True)
        else:
            order = list(range(n))
            rng.shuffle(order)
        lost = rng.sample([int(x) for x in order], rng.randrange(1, min(n, 5)))
        lb = channel.lost_bits(n_words, ws, order, lost)
        sh, _ = channel.shifted_lost_bits(n_words, ws, order, lost)
        if max([len(v) for v in list(lb.values()) + list(sh.values())] or [0]) <= maxbits:
            return n, ws, order, lost
    return 64, 1, list(range(64)), [rng.randrange(64)]


def random_programs(ctx):
    rng = ctx.rng
    size = rng.choice([1, 2, 4, 9, 16, 30])
    prog = [(i.addr, i.enc) for i in gen.program(rng, size, gaps=rng.random() < .5)]
    n, ws, order, lost = pick(rng, size)
    given = order if rng.random() < .5 or [int(x) for x in order] != [int(x) for x in build_2d_interleave_sp(n, True)] \
        else None
    c = PacketCorruptor(n, size, given, list(lost), ws)
    corrupt(ctx, c, prog, n, ws, order, lost)
    if rng.random() < .4:
        # the same corruptor on another program of the same size
        prog2 = [(i.addr, i.enc) for i in gen.program(rng, size, gaps=rng.random() < .5)]
        corrupt(ctx, c, prog2, n, ws, order, lost)
        ctx.ev('reused_corruptors')
    if rng.random() < .4:
        # ... and told of other lost packets
        for _ in range(20):
            other = rng.sample([int(x) for x in order], rng.randrange(1, min(n, 5)))
            lb, (sh, _) = channel.lost_bits(size, ws, order, other), channel.shifted_lost_bits(size, ws, order, other)
            if max([len(v) for v in list(lb.values()) + list(sh.values())] or [0]) <= 9:
                c.packet_lost = list(other)
                corrupt(ctx, c, prog, n, ws, order, other)
                ctx.ev('other_losses')
                break


def long(ctx):
    """Thousands of instructions."""
    rng = ctx.rng
    size = rng.choice([1030, 1500, 2100, 4200])
    n, ws = rng.choice([17, 64, 100, 130, 1100]), 4
    order = build_2d_interleave_sp(n, True)
    lost = [int(rng.choice(list(order)))]
    base = rng.randrange(0, 1 << 31, 4)
    prog = [(base + 4 * k, rng.getrandbits(32)) for k in range(size)]
    corrupt(ctx, PacketCorruptor(n, size, order, list(lost), ws), prog, n, ws, order, lost)
    ctx.ev('long')


def already(ctx):
    """Some addresses have several candidates before the loss, from an earlier loss or elsewhere."""
    rng = ctx.rng
    size = rng.choice([1, 4, 9, 16, 30])
    n, ws, order, lost = pick(rng, size, 6)
    prog = []
    for i in gen.program(rng, size, gaps=rng.random() < .5):
        flips = gen.flip_set(i.enc, rng.sample(range(32), rng.randrange(0, 3)))
        more = [rng.getrandbits(32) for _ in range(rng.choice([0, 0, 1, 3, 3, 20]))]
        e = list(dict.fromkeys(list(flips) + more))
        rng.shuffle(e)
        prog.append((i.addr, tuple(e)))
    corrupt(ctx, PacketCorruptor(n, size, order, list(lost), ws), prog, n, ws, order, lost)
    ctx.ev('several_before', sum(len(e) > 1 for _, e in prog))


def shipped(ctx):
    rng = ctx.rng
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
    f = setup.files[ctx.index % len(setup.files)]
    prog = sorted({i.address: i.encoding for i in ElfioTextDisassembleReader(f).read_instructions()}.items())
    start = rng.randrange(0, max(1, len(prog) - 60))
    prog = prog[start:start + 60] if not ctx.thorough else prog[start:start + 200]
    n, ws, order, lost = pick(rng, len(prog), 7)
    corrupt(ctx, PacketCorruptor(n, len(prog), packets_lost=list(lost), interleave=order, bits_per_interleave=ws),
            prog, n, ws, order, lost)


def fractional_count(ctx):
    """The caller of the recovery passes size/32 as packet count: rounded up."""
    rng = ctx.rng
    size = rng.randrange(120, 320)
    count = size / 32
    n = -(-size // 32)
    prog = [(i.addr, i.enc) for i in gen.program(rng, size)]
    order = build_2d_interleave_sp(n, True)
    lost = [rng.randrange(n)]
    ws = 2
    if max(len(v) for v in channel.lost_bits(size, ws, order, lost).values()) > 8:
        ctx.skip()
    corrupt(ctx, PacketCorruptor(count, size, packets_lost=lost), prog, n, ws, order, lost)


def boundary(ctx):
    prog = [(i.addr, i.enc) for i in gen.program(ctx.rng, 16)]
    order = build_2d_interleave_sp(16, True)
    corrupt(ctx, PacketCorruptor(16, 16, order, [5]), prog, 16, 2, order, [5])


def no_information(ctx):
    c = PacketCorruptor(16, 4, None, None)
    ctx.check(ctx.raises(RuntimeError, c.corrupt, {0: [CAPSInstruction(0xe1a00000, 0)]}), 'no-loss-accepted',
              'corrupting without knowing the lost packets was not refused')
    ctx.distinct('no_information')


def setup(repo):
    setup.files = gen.sample_files(repo)


WORKLOADS = [W('random', random_programs, 250, 6000), W('shipped', shipped, 18, 240), W('long', long, 3, 30), W('already', already, 80, 1500),
             W('fractional', fractional_count, 6, 40), W('boundary', boundary, 1, 1),
             W('no_information', no_information, 1, 1)]
