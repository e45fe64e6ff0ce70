"""Storing a program without its lost bits: every other bit stays, in order."""
import os
import runpy
import sys
from mon.core import W
from mon import gen
from checks import channel, recovery
from semantic_codec.architecture.bits import BitQueue   # noqa: F401  (the word size of the positions)
from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor
from semantic_codec.corruption.corruption import predict_corruption
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp

PROPERTY = 'C33'
RULE = ('random words (1..450), chunks of 1..16 bits lost anywhere without overlapping (first and last bits of words '
        'and of the data included, in any order), also as predicted for lost packets; the storing program run on '
        'generated disassemblies and on arguments it must refuse. Non-trivial: a lost chunk; distinct by data and losses.')
ASSUMPTIONS = ['lost chunks have one length, given to the compressor, and do not overlap',
               'the documentation does not say from which end the bits of a byte are numbered: either way is accepted, '
               'the same for all bits of a program']
LEVEL_NOTE = 'sampled data and losses; the stream rebuilt bit by bit'
MIN_EVENTS = {'shifted': 200, 'bits_compared': 50000, 'predicted_losses': 30, 'swapped': 100, 'stored': 10,
              'nothing_lost': 10, 'long': 2, 'refused': 12}


def stream(words, msb):
    res = []
    for w in words:
        for byte in w.to_bytes(4, 'little'):
            res += [(byte >> (7 - k if msb else k)) & 1 for k in range(8)]
    return res


def pack(bits, msb):
    out = bytearray((len(bits) + 7) // 8)
    for k, b in enumerate(bits):
        out[k // 8] |= b << (7 - k % 8 if msb else k % 8)
    return bytes(out)


def losses(rng, total, size):
    free, res = list(range(0, total)), []
    taken = set()
    picks = []
    if total > 32 and rng.random() < .4:
        # Side by side, on both sides of the end of a word
        for _ in range(rng.choice([1, 3])):
            end = 32 * rng.randrange(1, total // 32)
            picks += [end, end - size, end + size, end - 2 * size]
        rng.shuffle(picks)
    for k in picks + [None] * rng.choice([0, 1, 2, 5, 20]):
        k = k if k is not None else rng.choice([0, total - size, 32 - size, 31, 32] + [rng.randrange(total) for _ in range(5)])
        cells = set(range(k, k + size))
        if k >= 0 and k < total and not cells & taken:
            taken |= cells
            res.append((k // 32, k % 32))
    rng.shuffle(res)
    return res


def given(ctx):
    """Data, chunk size, lost chunks."""
    rng = ctx.rng
    data = [rng.choice([0, 0xffffffff, rng.getrandbits(32), rng.getrandbits(32)])
            for _ in range(rng.choice([1, 2, 3, 10, 60, 60, 450]))]
    if rng.random() < .25:
        n = rng.choice([5, 16, 33, 64])
        order = [int(x) for x in build_2d_interleave_sp(n, True)]
        lost = rng.sample(order, rng.randrange(1, 4))
        errors = predict_corruption(n, 2, len(data), order, lost)
        errors = [(int(e[0]), int(e[1])) for e in errors if len(e) == 2]
        ctx.ev('predicted_losses')
        return data, 2, errors
    size = rng.choice([1, 2, 2, 2, 3, 4, 8, 16])
    return data, size, losses(rng, len(data) * 32, size)


def shift(ctx):
    data, size, lost = given(ctx)
    d, r = list(data), list(lost)
    c = ShiftCompressor(r, d, size) if size != 2 or ctx.rng.random() < .5 else ShiftCompressor(r, d)
    gone = {w * 32 + b + k for w, b in lost for k in range(size)}
    want = []
    for msb in (True, False):
        want.append(pack([b for k, b in enumerate(stream(data, msb)) if k not in gone], msb))
    for _ in range(ctx.rng.choice([1, 2])):
        c.compress()
        got = bytes(c.compressed_buffer)
        ctx.check(got in want, 'stream', 'the bits left are not the bits that were not lost', data=[hex(w) for w in data],
                  lost=lost, chunk=size, got=got.hex(), want=want[0].hex())
    ctx.eq((d, r), (data, lost), 'mutated', 'the arguments were changed')
    ctx.ev('shifted')
    ctx.ev('bits_compared', len(data) * 32 - len(gone))
    if lost:
        ctx.distinct('shift', data, size, sorted(lost))
    else:
        ctx.ev('nothing_lost')
    ctx.note(words=len(data), chunk=size, lost=lost)


def long(ctx):
    """Data of tens of thousands of words, with losses far in."""
    rng = ctx.rng
    n = rng.choice([10050, 12000, 33000])
    data = [rng.getrandbits(32) for _ in range(n)]
    words = rng.sample(range(n), 6) + [n - 1, 9999, 10000, 10001]
    lost = sorted({(w, 2 * rng.randrange(16)) for w in words})
    rng.shuffle(lost)
    want = []
    for msb in (True, False):
        bits = bin(1 << n * 32 | int.from_bytes(b''.join(w.to_bytes(4, 'little') for w in data), 'big'))[3:] if msb else \
            bin(1 << n * 32 | int.from_bytes(b''.join(w.to_bytes(4, 'little') for w in data), 'little'))[:2:-1]
        left, at = [], 0
        for w, b in sorted(lost):
            left.append(bits[at:w * 32 + b])
            at = w * 32 + b + 2
        left = ''.join(left) + bits[at:]
        left += '0' * (-len(left) % 8)
        want.append(int(left, 2).to_bytes(len(left) // 8, 'big') if msb else
                    int(left[::-1], 2).to_bytes(len(left) // 8, 'little'))
    c = ShiftCompressor(list(lost), list(data))
    c.compress()
    got = bytes(c.compressed_buffer)
    ctx.check(got in want, 'stream', 'the bits left are not the bits that were not lost', words=n, lost=lost,
              sizes=(len(got), len(want[0])))
    ctx.ev('long')
    ctx.ev('bits_compared', n * 32 - 2 * len(lost))
    ctx.distinct('long', n, sorted(lost))
    ctx.note(words=n, lost=lost)


def only_cleared(ctx, got, data, gone):
    """got differs from data at most by lost bits turned to zero (for one way to number the bits)."""
    ctx.eq(len(got), len(data) * 4, 'length', 'the size of the program changed')
    bad = []
    for msb in (True, False):
        a = stream(data, msb)
        b = [(x >> (7 - k if msb else k)) & 1 for x in got for k in range(8)]
        bad.append([k for k in range(len(a)) if a[k] != b[k] and (k not in gone or b[k])])
    ctx.check(not all(bad), 'kept', 'bits that were not lost were changed', bits=bad[0][:20], lost=sorted(gone)[:40])


def swap(ctx):
    data, size, lost = given(ctx)
    r = list(lost)
    if ctx.rng.random() < .3:     # losses beyond the end of the data do not matter
        r.append((len(data) + ctx.rng.randrange(9), ctx.rng.randrange(32)))
    c = SwapCompressor(r, list(data), size)
    c.compress()
    gone = {w * 32 + b + k for w, b in lost for k in range(size)}
    only_cleared(ctx, bytes(c.compressed_buffer), data, gone)
    ctx.ev('swapped')
    ctx.ev('bits_compared', len(data) * 32 - len(gone))
    if lost:
        ctx.distinct('swap', data, size, sorted(lost))


def store(ctx):
    """The storing program: one file with the whole program, one without the losses of a fifth of the packets."""
    fs = recovery.functions(ctx.rng)
    ins = [i for _, b in fs for i in b]
    lines = ['.functions'] + ['0x%x;%s' % (b[0].addr, n) for n, b in fs] + ['', '.text']
    with open('in.disam', 'w') as f:
        f.write('\n'.join(lines + ['0x%x;%08x;mnem;ops' % (i.addr, i.enc) for i in ins]) + '\n')
    argv = sys.argv
    sys.argv = ['store_packets.py', 'in.disam', 'out.bin']
    try:
        runpy.run_path(os.path.join(setup.repo, 'store_packets.py'), run_name='__main__')
    finally:
        sys.argv = argv
    words = [i.enc for i in ins]
    with open('out.bina100', 'rb') as f:
        ctx.eq(f.read(), b''.join(w.to_bytes(4, 'little') for w in words), 'whole', 'the whole program is not stored')
    count = -(-len(words) // 4)
    order = [int(x) for x in build_2d_interleave_sp(count, True)]
    gone = channel.lost_bits(len(words), 2, order, list(range(count // 5)))
    with open('out.bin', 'rb') as f:
        got = f.read()
    sh = channel.shifted_lost_bits(len(words), 2, order, list(range(count // 5)))[0]
    only_cleared(ctx, got, words, {w * 32 + b for d in (gone, sh) for w, bs in d.items() for b in bs})
    ctx.ev('stored')
    ctx.note(instructions=len(words), packets=count)
    ctx.distinct('store', words)
    for n in ('in.disam', 'out.bin', 'out.bina100'):
        os.remove(n)


def told(ctx):
    """What the storing program cannot store it says, and stores nothing."""
    rng = ctx.rng
    fs = recovery.functions(rng)
    ins = [i for _, b in fs for i in b]
    with open('in.disam', 'w') as f:
        f.write('\n'.join(['.functions'] + ['0x%x;%s' % (b[0].addr, n) for n, b in fs] + ['', '.text'] +
                          ['0x%x;%08x;mnem;ops' % (i.addr, i.enc) for i in ins]) + '\n')
    with open('bad.disam', 'w') as f:
        f.write(rng.choice(['.text\n1000;nothex;\n', '.functions\n1000\n', '.functions\n1000;f\n.text\nzz;e1a00000;\n']))
    for args, good in ((['in.disam', 'out.bin'], True), ([], False), (['in.disam'], False), (['none.disam', 'out.bin'], False),
                       (['in.disam', 'out.bin', 'more'], False), (['bad.disam', 'out.bin'], False)):
        argv, code = sys.argv, None
        sys.argv = ['store_packets.py'] + args
        try:
            runpy.run_path(os.path.join(setup.repo, 'store_packets.py'), run_name='__main__')
        except SystemExit as e:
            code = e.code
        finally:
            sys.argv = argv
        there = sorted(n for n in os.listdir('.') if n not in ('in.disam', 'bad.disam'))
        if good:
            ctx.check(not code and there == ['out.bin', 'out.bina100'], 'not-stored', 'a program was not stored', code=code,
                      files=there)
        else:
            ctx.check(code and not there, 'refusal', 'what cannot be stored was not refused', arguments=args, code=code,
                      files=there)
            ctx.ev('refused')
        for n in there:
            os.remove(n)
    os.remove('in.disam')
    os.remove('bad.disam')
    ctx.distinct('told', ctx.index)


def setup(repo):
    setup.repo = repo


WORKLOADS = [W('shift', shift, 400, 10000), W('swap', swap, 200, 4000), W('store', store, 24, 400), W('told', told, 3, 12),
             W('long', long, 2, 20)]
