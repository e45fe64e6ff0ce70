"""Bit primitives against a bit-by-bit reference model."""
from mon.core import W
from semantic_codec.architecture.bits import Bits

PROPERTY = 'C01'
RULE = ('(a) every (source range, destination) combination of a 32-bit copy incl. the invalid ones, with random '
        'source/destination words; (b) random words for the predicates. Non-trivial: a copy that moves at least one '
        'bit, or a rejected range; distinct by (range, destination, words).')
ASSUMPTIONS = ['words are non-negative and fit in 32 bits; bit indices are whole numbers']
LEVEL_NOTE = 'exhaustive over ranges, sampled over word values; reference model is written bit by bit'
MIN_EVENTS = {'copy_compared': 5000, 'reject_compared': 1000, 'mask_compared': 500, 'predicate_compared': 1000}


def model_copy(src, dst, lo, hi, to):
    bits = [(dst >> i) & 1 for i in range(32)]
    for k in range(hi - lo + 1):
        bits[to + k] = (src >> (lo + k)) & 1
    return sum(b << i for i, b in enumerate(bits))


def word(rng):
    return rng.choice([0, 0xffffffff, 0xaaaaaaaa, 0x80000001, rng.getrandbits(32), rng.getrandbits(32)])


def copies(ctx):
    """All copies starting at source bit index%32 (every end and destination, one random word pair each)."""
    lo = ctx.index % 32
    rng = ctx.rng
    for hi in range(lo, 32):
        for to in range(0, 32):
            src, dst = word(rng), word(rng)
            if to + hi - lo < 32:
                got = Bits.copy_bits(src, dst, lo, hi, to)
                want = model_copy(src, dst, lo, hi, to)
                ctx.eq(got, want, 'copy', 'copy_bits moved the wrong bits', src=hex(src), dst=hex(dst), lo=lo, hi=hi,
                       to=to)
                ctx.ev('copy_compared')
                ctx.distinct('copy', lo, hi, to, src, dst)
            else:
                ctx.check(ctx.raises(RuntimeError, Bits.copy_bits, src, dst, lo, hi, to), 'accepts-invalid',
                          'a copy past bit 31 was not rejected', lo=lo, hi=hi, to=to)
                ctx.ev('reject_compared')
                ctx.distinct('rej', lo, hi, to)
    ctx.note(source_from=lo, destinations='all', example=(hex(src), hex(dst)))


def masks(ctx):
    lo = ctx.index % 32
    for hi in range(-3, 40):
        for low in (lo, lo - 3):
            if 0 <= low <= hi < 32:
                ctx.eq(Bits.set(hi, low), sum(1 << i for i in range(low, hi + 1)), 'mask', 'wrong mask', hi=hi, lo=low)
                Bits.check_range(low, hi)
                ctx.ev('mask_compared')
                ctx.distinct('mask', hi, low)
            else:
                for f, a in ((Bits.set, (hi, low)), (Bits.check_range, (low, hi)),
                             (Bits.copy_bits, (5, 9, low, hi, 0)), (Bits.are_on, (5, hi, low))):
                    ctx.check(ctx.raises(RuntimeError, f, *a), 'accepts-invalid', 'invalid range was not rejected',
                              hi=hi, lo=low, function=f.__name__)
                    ctx.ev('reject_compared')
                ctx.distinct('badmask', hi, low)
    ctx.note(lowest=lo)


def predicates(ctx):
    rng = ctx.rng
    for _ in range(60):
        v = word(rng)
        lo = rng.randrange(32)
        hi = rng.randrange(lo, 32)
        ctx.eq(bool(Bits.are_on(v, hi, lo)), any((v >> i) & 1 for i in range(lo, hi + 1)), 'are_on',
               'are_on is wrong', value=hex(v), hi=hi, lo=lo)
        ctx.eq(bool(Bits.is_on(v, lo)), bool((v >> lo) & 1), 'is_on', 'is_on is wrong', value=hex(v), bit=lo)
        ctx.eq(Bits.on(lo), 1 << lo, 'on', 'on is wrong', bit=lo)
        ctx.ev('predicate_compared', 3)
        ctx.distinct('pred', v, hi, lo)
    ctx.note(value=hex(v), hi=hi, lo=lo)


WORKLOADS = [W('copies', copies, 64, 2000), W('masks', masks, 32, 32), W('predicates', predicates, 60, 2000)]
