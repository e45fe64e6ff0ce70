"""Deinterleaving with lost packets: survivors intact, losses reported exactly."""
from mon.core import W
from checks import channel
from checks.C05 import rand_data
from semantic_codec.interleaver.interleaver2d import interleave, deinterleave, build_2d_interleave_sp

PROPERTY = 'C06'
RULE = ('random data, orders and chunk sizes as in C05; every kind of loss: one, several, all but one, all, first or '
        'last in the order; data of thousands of words; lost packets marked None, deleted, or a mix. Non-trivial: at least one packet lost and one '
        'delivered; distinct by (data, order, chunk size, lost set).')
ASSUMPTIONS = ['the chunk size divides the 32-bit word',
               'a lost chunk after the last round in which a surviving packet carried data cannot be known to exist, '
               'so its report is not required; a report of a lost packet beyond the end of the data is padding, not an alarm']
LEVEL_NOTE = 'sampled fault patterns, decided chunk by chunk'
MIN_EVENTS = {'surviving_chunks': 5000, 'lost_chunks': 1000, 'reports_checked': 500, 'all_lost_rejected': 20,
              'marked_none': 50, 'large': 10, 'foreign': 80, 'huge': 2, 'deleted': 50}


def lose(ctx, how, large=False):
    rng = ctx.rng
    ws = rng.choice([1, 2, 2, 4, 8, 16, 32])
    data = rand_data(rng)
    n = rng.choice([1, 2, 3, 4, 7, 16, rng.randrange(2, 120)])
    if large:
        ws = rng.choice([8, 16, 32])
        data = [rng.getrandbits(32) for _ in range(rng.choice([1030, 2100, 4200]))]
        n = rng.choice([16, 100, 1025, 4100])
        ctx.ev('large')
    if how == 'huge':
        ws, n, how = 1, rng.choice([4, 5]), 'one_survivor'
        data = [rng.getrandbits(32) for _ in range(rng.choice([3000, 3500]))]
        ctx.ev('huge')
    if how == 'single' and n == 1:
        n = 2
    if rng.random() < .6:
        order = build_2d_interleave_sp(n, True)
    else:
        order = list(range(n))
        rng.shuffle(order)
    ids = [int(x) for x in order]
    if how == 'single':
        lost = [rng.choice([ids[0], ids[-1], rng.choice(ids)])]
    elif how == 'several':
        lost = rng.sample(ids, rng.randrange(0, n))
    elif how == 'one_survivor':
        keep = rng.choice([ids[0], ids[-1], rng.choice(ids)])
        lost = [p for p in ids if p != keep]
    else:
        lost = list(ids)
    default = ws == 8 and len(data) % 2
    packets = interleave(data, order) if default else interleave(data, order, ws)
    for p in lost:
        if rng.random() < .5:
            packets[p] = None
            ctx.ev('marked_none')
        else:
            del packets[p]
            ctx.ev('deleted')
    if how != 'all' and rng.random() < .25:
        # A packet of no position of the order: not of this transmission
        packets[rng.choice([n, n + 1, n + 50, -1])] = interleave(
            [rng.getrandbits(32) for _ in range(rng.randrange(1, 4))], [0], ws)[0]
        ctx.ev('foreign')
    ctx.note(words=len(data), chunk=ws, packets=n, lost=sorted(lost), order=ids[:20])
    if how == 'all':
        ctx.check(ctx.raises(RuntimeError, deinterleave, packets, order, ws), 'all-lost-accepted',
                  'losing every packet was not reported as an error', packets=n)
        ctx.ev('all_lost_rejected')
        ctx.distinct('all', n, ws, len(data))
        return
    words, errors = deinterleave(packets, order) if default else deinterleave(packets, order, ws)
    ctx.eq([int(x) for x in order], ids, 'order-changed', 'the order was changed')
    got = channel.chunks([int(w) for w in words], ws)
    want = channel.chunks(data, ws)
    gone = set(lost)
    last = max([c for c in range(len(want)) if ids[c % n] not in gone] or [-1])
    full = len(want) if last < 0 else min(len(want), (last // n + 1) * n)
    if last < 0:
        full = 0
    reported = []
    for e in errors:
        ctx.check(int(e[0]) >= 0 and 0 <= int(e[1]) < 32, 'report-outside-word', 'an error is at no bit of a word', e=e)
        reported.append((int(e[0]) * 32 + int(e[1])) // ws)
        ctx.check((int(e[0]) * 32 + int(e[1])) % ws == 0, 'report-misaligned', 'an error is not at a chunk start', e=e)
    rset = set(reported)
    ctx.eq(len(reported), len(rset), 'report-repeated', 'a lost chunk is reported twice', errors=errors)
    for c in range(len(want)):
        if ids[c % n] in gone:
            ctx.ev('lost_chunks')
            if c < full:
                ctx.check(c in rset, 'loss-unreported', 'a lost chunk is not reported',
                          chunk=c, packets=n, word_size=ws, lost=lost)
                ctx.check(c < len(got) and got[c] == 0, 'loss-filled', 'a lost chunk does not read as zero', chunk=c)
        else:
            ctx.check(c < len(got) and got[c] == want[c], 'survivor-damaged',
                      'a chunk of a delivered packet was lost or changed', chunk=c, packets=n, word_size=ws, lost=lost,
                      words=len(data))
            ctx.ev('surviving_chunks')
    for c in reported:
        ctx.check(ids[c % n] in gone, 'false-report', 'a delivered chunk is reported lost', chunk=c,
                  packets=n, lost=lost)
        ctx.ev('reports_checked')
    ctx.check(not any(got[len(want):]), 'invented-data', 'non-zero data appeared after the end', packets=n)
    if lost:
        ctx.distinct(data, ids, ws, sorted(lost))


WORKLOADS = [W('single', lambda c: lose(c, 'single'), 150, 5000),
             W('several', lambda c: lose(c, 'several'), 250, 8000),
             W('one_survivor', lambda c: lose(c, 'one_survivor'), 120, 3000),
             W('large', lambda c: lose(c, c.rng.choice(['single', 'several']), True), 16, 200),
             W('huge', lambda c: lose(c, 'huge'), 2, 6),
             W('all', lambda c: lose(c, 'all'), 40, 500)]
