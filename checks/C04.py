"""Spread of the successive packing: neighbours in the 2-D layout are far apart in the sequence."""
from mon.core import W
from semantic_codec.interleaver.interleaver2d import sucesive_packing, build_2d_interleave_sp

PROPERTY = 'C04'
RULE = ('for every matrix exponent and every aligned block size, every aligned block of the packing array. '
        'Non-trivial: a block with at least two cells; distinct by (exponent, block size, block position).')
ASSUMPTIONS = []
LEVEL_NOTE = 'exhaustive over aligned blocks for every exponent to 9 (quick) or 10 (thorough)'
MIN_EVENTS = {'blocks_checked': 1000, 'order_rows_checked': 5}


def blocks(ctx):
    m = 1 + ctx.index
    a = [[int(x) for x in r] for r in sucesive_packing(m)]
    n = 2 ** m
    for k in range(1, m + 1):
        s, mod = 2 ** k, 4 ** (m - k)
        for y in range(0, n, s):
            for x in range(0, n, s):
                cells = [a[y + j][x + i] for j in range(s) for i in range(s)]
                ctx.check(len({c % mod for c in cells}) == 1 and len(set(cells)) == s * s, 'cluster',
                          'two cells of one %dx%d cluster are closer than %d packets apart' % (s, s, mod), m=m,
                          at=(x, y), cells=sorted(cells)[:16])
                ctx.ev('blocks_checked')
                ctx.distinct(m, k, x, y)
    ctx.note(m=m)


def order(ctx):
    """With exactly 4^m packets the order sent is the packing array, row by row."""
    m = ctx.index
    a = [int(x) for r in sucesive_packing(m) for x in r]
    ctx.eq([int(x) for x in build_2d_interleave_sp(4 ** m, True)], a, 'order-not-packing',
           'the order for 4^m packets is not the successive packing', m=m)
    ctx.ev('order_rows_checked')
    ctx.distinct('order', m)
    ctx.note(m=m)


WORKLOADS = [W('blocks', blocks, 9, 10), W('order', order, 10, 11)]
