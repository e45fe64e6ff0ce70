"""Predicted losses are the bits the lost packets really carried."""
from mon.core import W
from checks import channel
from semantic_codec.corruption.corruption import predict_corruption
from semantic_codec.interleaver.interleaver2d import interleave, deinterleave, build_2d_interleave_sp

PROPERTY = 'C07'
RULE = ('random packet counts, chunk sizes dividing 32, data sizes 1..80 and up to 4200 words, orders of the 2-D interleaver or '
        'arbitrary permutations, 1..all packets lost in any order; compared with the chunk model and with what the real '
        'deinterleaver reports. Non-trivial: the lost packets carried data; distinct by the whole parameter tuple.')
ASSUMPTIONS = ['the chunk size divides the 32-bit word', 'the data size is given in 32-bit words, as every caller does']
LEVEL_NOTE = ('sampled configurations; the recorded boundary deviation is accepted only in exactly the recorded form, '
              'anything else is a violation')
MIN_EVENTS = {'predictions_exact': 100, 'lost_bits_compared': 5000, 'cross_checked_with_channel': 100,
              'unordered_losses': 50, 'named_twice': 15, 'nothing_lost': 10, 'large': 15}


def covered(errors, ws):
    res = {}
    for e in errors:
        if len(e) == 2:
            w, b, n = e[0], e[1], ws
        else:
            w, b, n = e
        if n > 0:
            res.setdefault(int(w), set()).update(range(int(b), int(b) + int(n)))
    return res


def run(ctx, n, order, ws, words, lost):
    before = ([int(x) for x in order], list(lost))
    errors = predict_corruption(n, ws, words, order, lost)
    ctx.eq(([int(x) for x in order], list(lost)), before, 'input-changed', 'the prediction changed its input')
    got = covered(errors, ws)
    want = channel.lost_bits(words, ws, order, lost)
    ctx.note(packets=n, chunk=ws, words=words, lost=list(lost), order=before[0][:16], errors=errors[:6])
    ctx.ev('lost_bits_compared', sum(len(v) for v in want.values()))
    ctx.eq(len(errors), len(set(errors)), 'repeated', 'a lost position is predicted twice', errors=errors[:20])
    if got == want:
        ctx.ev('predictions_exact')
        exact = True
    else:
        shifted, hit = channel.shifted_lost_bits(words, ws, order, lost)
        if not (hit and got == shifted):
            ctx.fail('prediction', 'the predicted bits are not the bits the lost packets carried', packets=n, chunk=ws,
                     words=words, lost=lost, order=before[0],
                     missing={w: sorted(b - got.get(w, set())) for w, b in want.items() if b - got.get(w, set())},
                     extra={w: sorted(b - want.get(w, set())) for w, b in got.items() if b - want.get(w, set())})
        ctx.known_hit('boundary-shift', 'packets=%d chunk=%d lost=%s' % (n, ws, list(lost)))
        exact = False
    if list(lost) != sorted(lost):
        ctx.ev('unordered_losses')
    if want:
        ctx.distinct(n, ws, words, tuple(before[0]), tuple(lost))
    return errors if exact else None


def random_case(ctx):
    rng = ctx.rng
    ws = rng.choice([1, 2, 2, 2, 4, 8, 16])
    n = rng.choice([2, 3, 4, 5, 16, 17, 31, 33, rng.randrange(2, 150)])
    words = rng.choice([1, 2, 16, 33, rng.randrange(1, 81)])
    order = build_2d_interleave_sp(n, True)
    if rng.random() < .4:
        order = list(range(n))
        rng.shuffle(order)
    ids = [int(x) for x in order]
    k = rng.choice([1, 1, 2, 3, n // 2 or 1, n])
    lost = rng.sample(ids, min(k, n))
    if rng.random() < .1 and len(lost) < n:
        lost += rng.sample(lost, rng.randrange(1, len(lost) + 1))     # named twice
        ctx.ev('named_twice')
    errors = run(ctx, n, order, ws, words, lost)
    if errors is None or len(set(lost)) == n:
        return
    # cross-check with the real channel: every report of the receiver inside the data is predicted, and vice versa
    packets = interleave([rng.getrandbits(32) for _ in range(words)], order, ws)
    for p in lost:
        packets[p] = None
    _, seen = deinterleave(packets, order, ws)
    seen = {(int(a), int(b)) for a, b in seen if int(a) < words}
    total = words * 32 // ws
    keep = [c for c in range(total) if ids[c % n] not in set(lost)]
    last = (keep[-1] // n + 1) * n if keep else 0
    need = {(c * ws // 32, c * ws % 32) for c in channel.lost_chunks(total, order, lost) if c < last}
    pred = {(e[0], e[1]) for e in errors}
    ctx.check(seen <= pred and need <= seen, 'channel-disagrees',
              'the predicted losses are not the losses the receiver sees', packets=n, chunk=ws, words=words, lost=lost,
              only_seen=sorted(seen - pred)[:10], only_predicted=sorted(need - seen)[:10])
    ctx.ev('cross_checked_with_channel')


def large(ctx):
    """Thousands of words or packets."""
    rng = ctx.rng
    ws = rng.choice([2, 4, 8, 16])
    words = rng.choice([1030, 2100, 4200])
    n = rng.choice([rng.randrange(words * 32 // ws // 1500 + 1, 200 + words * 32 // ws // 1500), rng.randrange(1000, 5000)])
    order = build_2d_interleave_sp(n, True)
    if rng.random() < .4:
        rng.shuffle(order)
    ids = [int(x) for x in order]
    run(ctx, n, order, ws, words, rng.sample(ids, min(n, max(1, rng.randrange(400, 1200) * n * ws // (words * 32)))))
    ctx.ev('large')


def losses_in_every_order(ctx):
    """The same set of lost packets listed in different orders predicts the same bits."""
    rng = ctx.rng
    ws, n, words = rng.choice([1, 2, 4]), rng.randrange(3, 40), rng.randrange(1, 40)
    order = build_2d_interleave_sp(n, True)
    lost = rng.sample([int(x) for x in order], rng.randrange(2, min(n, 5)))
    ref = None
    for _ in range(4):
        rng.shuffle(lost)
        got = covered(predict_corruption(n, ws, words, order, list(lost)), ws)
        if ref is not None:
            ctx.eq(got, ref, 'order-of-losses', 'the prediction depends on how the lost packets are listed', lost=lost,
                   packets=n, chunk=ws, words=words)
        ref = got
    run(ctx, n, order, ws, words, lost)


def no_loss(ctx):
    rng = ctx.rng
    n = rng.randrange(1, 60)
    for lost in ([], ()):
        errors = predict_corruption(n, rng.choice([1, 2, 4, 8]), rng.randrange(1, 60), build_2d_interleave_sp(n, True),
                                    lost)
        ctx.eq(len(errors), 0, 'loss-invented', 'losses are predicted though no packet is lost', packets=n)
        ctx.ev('nothing_lost')


def boundary(ctx):
    """The recorded deviation, reproduced on the repository's own configuration."""
    run(ctx, 16, build_2d_interleave_sp(16, True), 2, 16, [5])


WORKLOADS = [W('random', random_case, 500, 15000), W('loss_orders', losses_in_every_order, 150, 4000),
             W('large', large, 20, 200),
             W('no_loss', no_loss, 10, 60),
             W('boundary', boundary, 1, 1)]
