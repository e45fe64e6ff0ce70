"""BitQueue histories against a list-of-bits FIFO model."""
from mon.core import W
from semantic_codec.architecture.bits import BitQueue

PROPERTY = 'C02'
RULE = ('random histories of enqueue/dequeue/empty/get_bytes on one or two live queues, word size fixed or changed '
        'between operations, random source and destination bit offsets. Non-trivial: the history moves bits through '
        'a 32-bit word boundary; distinct by the full operation history.')
ASSUMPTIONS = ['a dequeue asks for no more bits than the queue holds', 'word sizes 1..32, words fit in 32 bits',
               'the buffer is inspected before anything has been taken out of it']
LEVEL_NOTE = 'sampled histories against a FIFO of single bits'
MIN_EVENTS = {'dequeue_compared': 5000, 'empty_compared': 5000, 'buffer_compared': 100, 'word_crossings': 500,
              'size_changes': 500, 'sparse': 100, 'long_words': 4000}


def _take(value, frm, ws):
    """ws bits of value from bit frm up; bits above 31 do not exist and read as zero."""
    return [(value >> (frm + k)) & 1 if frm + k < 32 else 0 for k in range(ws)]


def _put(value, bits, to):
    for k, b in enumerate(bits):
        if to + k < 32:
            value = value & ~(1 << (to + k)) | b << (to + k)
    return value


class Pair(object):
    def __init__(self, ws):
        self.q, self.m, self.taken, self.ws = BitQueue(ws), [], 0, ws
        self.total = []

    def enqueue(self, ctx, v, frm):
        bits = _take(v, frm, self.ws)
        self.q.enqueue(v, frm)
        if (len(self.total) % 32) + self.ws > 32:
            ctx.ev('word_crossings')
        self.m += bits
        self.total += bits

    def dequeue(self, ctx, v, to, log):
        got = self.q.dequeue(v, to)
        bits, self.m = self.m[:self.ws], self.m[self.ws:]
        if (self.taken % 32) + self.ws > 32:
            ctx.ev('word_crossings')
        self.taken += self.ws
        ctx.eq(got, _put(v, bits, to), 'fifo', 'dequeued bits are not the oldest bits of the queue', history=log,
               into=hex(v), at=to, word_size=self.ws)
        ctx.ev('dequeue_compared')

    def buffer(self, ctx, log):
        got = list(self.q.get_bytes())
        want = [sum(b << i for i, b in enumerate(self.total[k:k + 32])) for k in range(0, len(self.total), 32)]
        ctx.eq(got[:len(want)], want, 'buffer', 'the packed buffer does not hold the queued bits', history=log)
        ctx.check(not any(got[len(want):]), 'buffer', 'the packed buffer has bits nobody queued', history=log)
        ctx.ev('buffer_compared')


def history(ctx, change, aligned=False):
    rng = ctx.rng
    ws = rng.choice([1, 2, 4, 8, 16, 32]) if aligned else rng.randrange(1, 33)
    qs = [Pair(ws) for _ in range(rng.choice([1, 1, 2]))]
    log = []
    steps = rng.choice([6, 20, 60, 150])
    pe = rng.choice([.5, .6, .8])
    sparse = rng.random() < .3     # almost nothing but zeros
    if sparse:
        ctx.ev('sparse')
    crossed = False
    for s in range(steps):
        i = rng.randrange(len(qs))
        p = qs[i]
        if change and rng.random() < .3:
            p.ws = rng.choice([1, 2, 3, 5, 7, 13, 31, 32, rng.randrange(1, 33)])
            p.q.word_size = p.ws
            ctx.ev('size_changes')
        if rng.random() < pe or len(p.m) < p.ws:
            # mostly in-word offsets; sometimes one that runs over the top of the source word across a split
            frm = rng.randrange(0, 33 - p.ws)
            v = rng.getrandbits(32)
            if sparse:
                v = rng.choice([0, 0, 0, 0, 1, 1 << 31, v])
            log.append('e%d:%d@%d/%d' % (i, v, frm, p.ws))
            p.enqueue(ctx, v, frm)
        else:
            v = rng.choice([0, 0, 0xffffffff, rng.getrandbits(32)])
            to = rng.randrange(0, 33 - p.ws)
            log.append('d%d:%d@%d/%d' % (i, v, to, p.ws))
            p.dequeue(ctx, v, to, log)
        ctx.eq(bool(p.q.empty()), not p.m, 'empty', 'emptiness is reported wrongly', history=log, held=len(p.m))
        ctx.ev('empty_compared')
        if not p.taken and rng.random() < .2:
            p.buffer(ctx, log)
        crossed |= len(p.total) > 32
    for p in qs:
        if not p.taken:
            p.buffer(ctx, log)
        while len(p.m) >= p.ws:
            p.dequeue(ctx, 0, 0, log + ['drain'])
            ctx.eq(bool(p.q.empty()), not p.m, 'empty', 'emptiness is reported wrongly', history=log, held=len(p.m))
            ctx.ev('empty_compared')
    if crossed:
        ctx.distinct(log)
    ctx.note(history=' '.join(log[:12]), operations=len(log))


def long(ctx):
    """Thousands of words in one queue, long zero stretches in it."""
    rng = ctx.rng
    p = Pair(rng.choice([8, 16, 32, 13, 31, rng.randrange(1, 33)]))
    n = rng.choice([1100, 2500, 5000]) * 32 // p.ws
    zeros = rng.random() < .5
    for k in range(n):
        v = 0 if zeros and k % 700 < 300 else rng.getrandbits(32)
        p.enqueue(ctx, v, 0)
    p.buffer(ctx, 'long')
    ctx.ev('long_words', n * p.ws // 32)
    m, at, ws = p.m, 0, p.ws
    for k in range(n):
        ctx.check(not p.q.empty(), 'empty', 'emptiness is reported wrongly', history='long', held=len(m) - at)
        got = p.q.dequeue(0, 0)
        if got != sum(b << j for j, b in enumerate(m[at:at + ws])):
            ctx.fail('fifo', 'dequeued bits are not the oldest bits of the queue', history='long', position=at, word_size=ws)
        at += ws
    ctx.ev('dequeue_compared', n)
    ctx.check(p.q.empty(), 'empty', 'emptiness is reported wrongly', history='long', held=0)
    ctx.note(words=n * ws // 32, word_size=ws)
    ctx.distinct('long', n, ws, zeros, ctx.index)


WORKLOADS = [W('long', long, 5, 40),
             W('aligned', lambda c: history(c, False, True), 200, 6000),
             W('fixed_size', lambda c: history(c, False), 400, 12000),
             W('changing_size', lambda c: history(c, True), 400, 12000)]
