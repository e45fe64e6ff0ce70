"""The lattice interleaving of Blaum: near positions of a two-dimensional message are in different packets."""
from mon.core import W
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum as build

PROPERTY = 'C44'
RULE = ('messages of every packet count in a range and random ones, in data from 1x1 to 80x80 positions or hundreds by a few, given by both '
        'sizes or by one of them. Non-trivial: at least two packets and two positions; distinct by count and sizes.')
ASSUMPTIONS = ['message and packet sizes are positive, the message is a whole number of packets',
               'a size left out divides the message']
LEVEL_NOTE = 'every pair of near positions in the sampled matrices; every count of a contiguous range'
MIN_EVENTS = {'matrices': 300, 'positions_compared': 100000, 'perfect_lattices': 20, 'sizes_inferred': 40, 'tall': 20, 'refused': 2}


def look(ctx, m, a, width, height):
    ctx.eq(len(a), height, 'height', 'wrong number of rows', packets=m, width=width, height=height)
    ctx.check(all(len(r) == width for r in a), 'width', 'wrong length of a row', packets=m, width=width, height=height)
    ctx.check(all(v == int(v) and 0 <= v < m for r in a for v in r), 'no-packet', 'a position has no packet', packets=m)
    for y in range(height):
        for x in range(width):
            if x + 1 < width:
                ctx.eq(a[y][x + 1], (a[y][x] + 1) % m, 'row', 'a row does not take the packets in turn', packets=m, at=(x, y))
            # Every row is shifted by the same amount
            if x and y:
                ctx.eq((a[y][x] - a[y - 1][x]) % m, (a[y][0] - a[y - 1][0]) % m, 'shift', 'rows are shifted unevenly',
                       packets=m, at=(x, y))
    if height > 1:
        shift = (a[1][0] - a[0][0]) % m
        for y in range(1, height):
            ctx.eq((a[y][0] - a[y - 1][0]) % m, shift, 'shift', 'rows are shifted unevenly', packets=m, at=(0, y))
    ctx.ev('matrices')
    # The distance at which a packet may be met again: the largest t with (t * t + 1) / 2 = packets, else neighbours differ
    t = next((t for t in range(3, 200, 2) if (t * t + 1) // 2 == m), 2 if m > 2 else 1)
    if t > 2 or m > 2:
        where = {}
        for y in range(height):
            for x in range(width):
                where.setdefault(a[y][x], []).append((x, y))
        for pos in where.values():
            for i, (x, y) in enumerate(pos):
                for u, v in pos[i + 1:]:
                    if v - y >= t:
                        break
                    ctx.check(abs(x - u) + v - y >= t, 'near-positions-share-a-packet',
                              'two near positions are in the same packet', packets=m, at=(x, y), other=(u, v))
        ctx.ev('positions_compared', width * height)
    if t > 2:
        ctx.ev('perfect_lattices')
    if m > 1 and width * height > 1:
        ctx.distinct(m, width, height)
    ctx.note(packets=m, width=width, height=height, distance=t)


def counts(ctx):
    m = ctx.index + 1
    p = ctx.rng.choice([1, 1, 2, 16, 7])
    width, height = ctx.rng.randrange(1, 25), ctx.rng.randrange(1, 25)
    look(ctx, m, build(m * p, p, width, height), width, height)


def lattices(ctx):
    t = 3 + 2 * (ctx.index % 24)
    m = (t * t + 1) // 2
    p = ctx.rng.choice([1, 4, 16])
    width, height = ctx.rng.randrange(t, t + 31), ctx.rng.randrange(t, t + 31)
    a = build(m * p, p, data_width=width, data_height=height)
    look(ctx, m, a, width, height)
    ctx.eq(build(m * p, p, width, height), a, 'repeat', 'sender and receiver would build different matrices', packets=m)


def inferred(ctx):
    width, height = ctx.rng.randrange(1, 31), ctx.rng.randrange(1, 31)
    m = width * height
    a = build(m, 1, width, height)
    ctx.eq(build(m, 1, data_width=width), a, 'height-inferred', 'wrong matrix when the height is inferred', packets=m)
    ctx.eq(build(m, 1, data_height=height), a, 'width-inferred', 'wrong matrix when the width is inferred', packets=m)
    look(ctx, m, a, width, height)
    ctx.ev('sizes_inferred', 2)


def tall(ctx):
    """Hundreds of rows, or of columns."""
    rng = ctx.rng
    size = [rng.choice([130, 260, 520, rng.randrange(120, 700)]), rng.randrange(1, 12)]
    rng.shuffle(size)
    m = rng.choice([rng.randrange(2, 40), 41, 113, rng.randrange(100, 2000)])
    look(ctx, m, build(m, 1, *size), *size)
    ctx.ev('tall')


def refused(ctx):
    ctx.check(ctx.raises(RuntimeError, build, 32, 4), 'no-size', 'a matrix without sizes was built')
    ctx.ev('refused')
    ctx.check(ctx.raises(RuntimeError, build, 32, 4, -1, -1), 'no-size', 'a matrix without sizes was built')
    ctx.ev('refused')
    ctx.distinct('refused')


WORKLOADS = [W('counts', counts, 200, 1500), W('lattices', lattices, 48, 300), W('inferred', inferred, 60, 800),
             W('tall', tall, 24, 240), W('refused', refused, 1, 1)]
