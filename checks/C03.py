"""Interleave orders are permutations of the packets, for every packet count."""
from mon.core import W
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, sucesive_packing

PROPERTY = 'C03'
RULE = ('every packet count in a contiguous range, the counts around every power of four up to 4^6, and random counts '
        'to 6000 (thorough: 20000). Non-trivial: at least two packets; distinct by packet count.')
ASSUMPTIONS = ['the packet count is a positive whole number']
LEVEL_NOTE = 'exhaustive for small packet counts (quick 1..600, thorough 1..3000), sampled above'
MIN_EVENTS = {'order_is_permutation': 300, 'flat_equals_rows': 300, 'matrix_is_permutation': 4, 'huge': 3}


def one(ctx, n):
    flat = build_2d_interleave_sp(n, True)
    vals = [int(x) for x in flat]
    ctx.check(all(float(x) == int(x) for x in flat), 'fractional', 'the order holds a fractional packet index', n=n)
    seen = sorted(vals)
    if seen != list(range(n)):
        ctx.fail('not-a-permutation', 'the interleave order does not name every packet exactly once', packets=n,
                 length=len(vals), missing=sorted(set(range(n)) - set(vals))[:10],
                 extra=sorted(set(vals) - set(range(n)))[:10],
                 repeated=sorted({v for v in vals if vals.count(v) > 1})[:10] if n < 3000 else '?')
    ctx.ev('order_is_permutation')
    rows = build_2d_interleave_sp(n)
    ctx.eq([int(x) for r in rows for x in r], vals, 'flat-differs', 'the flat order is not the rows of the matrix form',
           packets=n)
    ctx.ev('flat_equals_rows')
    ctx.eq([int(x) for x in build_2d_interleave_sp(n, flat=True)], vals, 'unstable',
           'sender and receiver would compute different orders for the same packet count', packets=n)
    # The order is the caller's: using it up does not change the next one
    rows.clear()
    mine = build_2d_interleave_sp(n, True)
    mine.reverse()
    mine.pop()
    ctx.eq([int(x) for x in build_2d_interleave_sp(n, True)], vals, 'unstable',
           'the order changed because an earlier one was used up', packets=n)
    if n > 1:
        ctx.distinct(n)
    ctx.note(packets=n, order=vals[:24])


def small(ctx):
    one(ctx, ctx.index + 1)


def around_powers(ctx):
    k = 1 + ctx.index // 7
    one(ctx, 4 ** k + ctx.index % 7 - 3)


def large(ctx):
    one(ctx, ctx.rng.randrange(600, 20000 if ctx.thorough else 6000))


def huge(ctx):
    """Indices beyond 2^15 and 2^16."""
    n = ctx.rng.choice([32769, 65535, 65536, 65537, 65536 + 4096 * 3 + 5, 131072, 200001])
    flat = [int(x) for x in build_2d_interleave_sp(n, True)]
    seen = bytearray(n)
    for x in flat:
        ctx.check(0 <= x < n and not seen[x], 'not-a-permutation', 'the interleave order does not name every packet exactly once',
                  packets=n, at=x)
        seen[x] = 1
    ctx.eq(len(flat), n, 'not-a-permutation', 'the interleave order does not name every packet exactly once')
    ctx.ev('order_is_permutation')
    ctx.ev('huge')
    ctx.distinct(n)
    ctx.note(packets=n)


def matrix(ctx):
    m = ctx.index
    a = sucesive_packing(m)
    for r in a:
        for k in range(len(r)):
            r[k] += 7
    a = sucesive_packing(m)
    size = 2 ** m
    ctx.eq(len(a), size, 'matrix-shape', 'wrong number of rows', m=m)
    ctx.check(all(len(r) == size for r in a), 'matrix-shape', 'wrong row length', m=m)
    ctx.eq(sorted(int(x) for r in a for x in r), list(range(4 ** m)), 'not-a-permutation',
           'the packing matrix does not hold every index once', m=m)
    ctx.ev('matrix_is_permutation')
    ctx.distinct('m', m)
    ctx.note(m=m)


WORKLOADS = [W('small', small, 600, 3000), W('around_powers', around_powers, 35, 42), W('large', large, 16, 120),
             W('matrix', matrix, 10, 10),
             W('huge', huge, 4, 24)]
