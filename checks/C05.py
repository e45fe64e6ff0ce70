"""Interleave then deinterleave with every packet delivered: the data comes back."""
from mon.core import W
from mon import gen
from checks import channel
from semantic_codec.interleaver.interleaver2d import interleave, deinterleave, build_2d_interleave_sp

PROPERTY = 'C05'
RULE = ('random data (1..70 words), packet counts from 1 to more than the number of chunks, chunk sizes dividing 32, '
        'orders from the 2-D interleaver and arbitrary permutations; shipped binaries and thousands of words or packets as data. Non-trivial: at least '
        'two packets; distinct by (data, order, chunk size).')
ASSUMPTIONS = ['the chunk size divides the 32-bit word', 'data words fit in 32 bits', 'at least one word of data']
LEVEL_NOTE = 'sampled round trips, plus a per-packet check of what travels in which packet'
MIN_EVENTS = {'round_trips': 300, 'packet_contents': 300, 'no_error_reported': 300, 'large': 15, 'default_chunks': 20, 'huge': 1}


def trip(ctx, data, order, ws):
    before, order_before = list(data), [int(x) for x in order]
    default = ws == 8 and len(data) % 2
    packets = interleave(data, order) if default else interleave(data, order, ws)
    ctx.eq(list(data), before, 'input-changed', 'interleaving changed its input')
    ctx.eq(sorted(int(k) for k in packets), sorted(int(k) for k in order), 'packets', 'packets do not match the order',
           order=order)
    n = len(order)
    ch = channel.chunks(data, ws)
    for k, p in enumerate(order):
        mine = ch[k::n]
        buf = sum(c << (i * ws) for i, c in enumerate(mine))
        got = sum(int(w) << (32 * i) for i, w in enumerate(packets[int(p)].get_bytes()))
        ctx.eq(got, buf, 'packet-content', 'a packet does not hold exactly the chunks assigned to it', packet=int(p),
               packets=n, word_size=ws)
    ctx.ev('packet_contents')
    words, errors = deinterleave(packets, order) if default else deinterleave(packets, order, ws)
    if default:
        ctx.ev('default_chunks')
    ctx.eq([int(x) for x in order], order_before, 'order-changed', 'the order was changed')
    ctx.eq(len(packets), n, 'packets', 'packets were added or removed')
    words = list(words)
    ctx.eq(words[:len(data)], before, 'lost-data', 'data changed although every packet arrived', packets=n,
           word_size=ws, words=len(data))
    ctx.check(not any(words[len(data):]), 'invented-data', 'non-zero data appeared after the end', packets=n,
              word_size=ws, tail=words[len(data):])
    ctx.ev('round_trips')
    ctx.eq(list(errors), [], 'false-error', 'errors reported although every packet arrived', packets=n, word_size=ws)
    ctx.ev('no_error_reported')
    if n > 1:
        ctx.distinct(before, [int(x) for x in order], ws)
    ctx.note(words=len(data), packets=n, chunk=ws, order=[int(x) for x in order][:20])


def rand_data(rng):
    n = rng.choice([1, 2, 3, 5, 8, 16, 17, 33, 64, 70])
    return [rng.choice([0, 0xffffffff, rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32)])
            for _ in range(n)]


def sp(ctx):
    rng = ctx.rng
    ws = rng.choice([1, 2, 2, 2, 4, 8, 16, 32])
    n = 1 + ctx.index % 90 if rng.random() < .7 else rng.randrange(1, 400)
    trip(ctx, rand_data(rng), build_2d_interleave_sp(n, True), ws)


def permutation(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 7, 16, 31, 32, 33, rng.randrange(1, 150)])
    order = list(range(n))
    rng.shuffle(order)
    trip(ctx, rand_data(rng), order, rng.choice([1, 2, 4, 8, 16, 32]))


def programs(ctx):
    """The shipped sample programs, as 32-bit words."""
    files = setup.files
    f = files[ctx.index % len(files)]
    words = []
    for line in open(f):
        part = line.split(';')
        if not line.startswith('.') and len(part) >= 3:
            words.append(int(part[1], 16))
    ws = ctx.rng.choice([1, 2, 4, 8])
    trip(ctx, words, build_2d_interleave_sp(max(1, len(words) // ctx.rng.choice([8, 16, 32])), True), ws)


def large(ctx):
    """Thousands of packets, thousands of words."""
    rng = ctx.rng
    ws = rng.choice([1, 2, 4, 8, 16, 32])
    n = rng.choice([rng.randrange(2, 40), rng.randrange(1000, 6000), 4096, 4097, 16384 + rng.randrange(200)])
    words = min(rng.choice([1030, 2100, 4500]), 24000 * ws // 32)
    words = max(words, min(n * ws // 32 + 2, 5000))
    if ctx.index == 0 or ctx.thorough and rng.random() < .1:
        n, words, ws = 65536 + rng.randrange(100), 16500, 8
        ctx.ev('huge')
    trip(ctx, [rng.getrandbits(32) for _ in range(words)], build_2d_interleave_sp(n, True), ws)
    ctx.ev('large')


def setup(repo):
    setup.files = gen.sample_files(repo)


WORKLOADS = [W('sp', sp, 360, 8000), W('permutation', permutation, 300, 8000), W('programs', programs, 9, 60),
             W('large', large, 20, 200)]
