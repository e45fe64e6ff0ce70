"""Candidate enumeration primitives, and the fields a corrupted instruction may differ in."""
from mon.core import W
from mon import gen
from semantic_codec.corruption import corruption as co
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

PROPERTY = 'C10'
RULE = ('random 32-bit words; every bit range up to 9 bits and some of 10 to 13; the bits chosen over 40 calls per bit of a range; disjoint range lists; 0..5 (now and then up to 11, or more than the range has) random '
        'bit errors in random ranges; instruction corruption with every combination of fields and 0..4 errors. Non-trivial: at least one '
        'bit is varied; distinct by word and parameters.')
ASSUMPTIONS = ['ranges passed together do not overlap, as documented']
LEVEL_NOTE = 'sampled words, ranges enumerated; each result compared with the exact set of variations'
MIN_EVENTS = {'ranges_enumerated': 300, 'range_lists_enumerated': 200, 'random_errors_enumerated': 300, 'many_errors': 3, 'wide_ranges': 5, 'thousands': 2, 'ranges_covered': 30, 'nested_fields': 40, 'defaults': 10, 'errors_beyond_range': 20,
              'instructions_corrupted': 100, 'distributions': 200}


def ranges(ctx):
    rng = ctx.rng
    lo = ctx.index % 32
    for hi in range(lo, min(32, lo + 9) + 1):
        x = rng.getrandbits(32)
        got = list(co.corrupt_all_bits(lo, hi, x))
        ctx.eq(sorted(got), sorted(gen.flip_set(x, range(lo, hi))), 'all-bits',
               'the candidates are not exactly the variations of the bits lo..hi-1', x=hex(x), lo=lo, hi=hi)
        ctx.eq(got[0], x, 'original-first', 'the original does not come first', x=hex(x))
        ctx.ev('ranges_enumerated')
        if hi > lo:
            ctx.distinct('r', x, lo, hi)
    ctx.note(lo=lo, word=hex(x))
    if ctx.index % 8 == 3:
        # Thousands of variations
        hi = lo + rng.choice([10, 12, 13])
        if hi < 32:
            got = list(co.corrupt_all_bits(lo, hi, x))
            ctx.eq(sorted(got), sorted(gen.flip_set(x, range(lo, hi))), 'all-bits',
                   'the candidates are not exactly the variations of the bits lo..hi-1', x=hex(x), lo=lo, hi=hi)
            ctx.ev('thousands')


def range_lists(ctx):
    rng = ctx.rng
    x = rng.getrandbits(32)
    cuts = sorted(rng.sample(range(32), rng.choice([2, 4, 6])))
    tup = [(a, b) for a, b in zip(cuts[::2], cuts[1::2])]
    wide = rng.random() < .1
    tup = [(a, min(b, a + 12)) for a, b in tup[:1]] if wide else [(a, min(b, a + 5)) for a, b in tup]
    if rng.random() < .3:
        tup.append((31, 31)) if all(b <= 31 for _, b in tup) else None
    rng.shuffle(tup)
    bits = [b for lo, hi in tup for b in range(lo, hi)]
    if len(bits) > 12:
        ctx.skip()
    if len(bits) > 9 and len(tup) == 1:
        ctx.ev('wide_ranges')
    before = list(tup)
    got = list(co.corrupt_all_bits_tuples(tup, x))
    ctx.note(word=hex(x), ranges=tup, candidates=len(got))
    ctx.eq(tup, before, 'input-changed', 'the ranges were modified')
    ctx.eq(sorted(got), sorted(gen.flip_set(x, bits)), 'range-list',
           'the candidates are not exactly the variations of the listed bits', x=hex(x), ranges=tup)
    ctx.ev('range_lists_enumerated')
    if bits:
        ctx.distinct('t', x, tup)
    lo = rng.randrange(0, 32)
    for bad in ((lo, lo - 1), (-1, lo), (lo, 32)):
        ctx.check(ctx.raises(RuntimeError, co.corrupt_all_bits_tuples, [bad], x), 'bad-range-accepted',
                  'an invalid range was accepted', range=bad)


def errors(ctx):
    rng = ctx.rng
    kind = rng.randrange(4)
    x = rng.getrandbits(32)
    if kind == 0:
        lo = rng.randrange(0, 32)
        hi = rng.randrange(lo, 32)
        many = 12 if rng.random() < .2 else 6
        amount = rng.randrange(0, min(many, hi - lo + 2))
        if hi - lo < 8 and rng.random() < .15:
            amount = hi - lo + 1 + rng.randrange(1, 40)
        got, lo_hi = co.corrupt_bits(hi, lo, amount, x), (lo, hi)
    else:
        f, lo_hi, top = [(co.corrupt_conditional, (28, 31), 4), (co.corrupt_registers, (0, 10), 5),
                         (co.corrupt_opcode, (20, 27), 5)][kind - 1]
        amount = rng.randrange(0, top + 1)
        if kind != 2 and rng.random() < .15:
            amount = lo_hi[1] - lo_hi[0] + 1 + rng.randrange(1, 9)
        got = f(amount, x)
    got = list(got)
    union = 0
    for e in got:
        union |= e ^ x
    bits = [b for b in range(64) if union >> b & 1]
    ctx.note(word=hex(x), range=lo_hi, errors=amount, candidates=[hex(g) for g in got[:8]])
    ctx.check(all(lo_hi[0] <= b <= lo_hi[1] for b in bits), 'outside-field', 'a bit outside the range was varied',
              bits=bits, range=lo_hi)
    width = lo_hi[1] - lo_hi[0] + 1
    if amount > width:
        ctx.ev('errors_beyond_range')
    ctx.eq(len(bits), min(amount, width), 'error-count', 'not the number of bits asked for was varied', bits=bits, asked=amount)
    ctx.eq(sorted(got), sorted(gen.flip_set(x, bits)), 'random-errors',
           'the candidates are not all the variations of the chosen bits, once each', x=hex(x), bits=bits)
    ctx.eq(got[0], x, 'original-first', 'the original does not come first', x=hex(x))
    ctx.ev('random_errors_enumerated')
    if amount > 6:
        ctx.ev('many_errors')
    if amount:
        ctx.distinct('e', x, lo_hi, sorted(got))


def any_bit(ctx):
    """Over many calls every bit of the range is hit, and no bit is hit by all of them."""
    rng = ctx.rng
    lo = rng.randrange(0, 31)
    hi = rng.randrange(lo + 1, 32)
    x, width = rng.getrandbits(32), hi - lo + 1
    every, always = 0, 0xffffffff
    for _ in range(40 * width):
        e = list(co.corrupt_bits(hi, lo, 1, x))[-1] ^ x
        every |= e
        always &= e
    ctx.note(word=hex(x), range=(lo, hi))
    # A bit of the range is missed in all calls with a probability of less than e**-40
    ctx.eq(every, sum(1 << b for b in range(lo, hi + 1)), 'never-chosen', 'a bit of the range is never chosen',
           range=(lo, hi), chosen=hex(every))
    ctx.eq(always, 0, 'always-chosen', 'the same bit is chosen every time', range=(lo, hi))
    ctx.ev('ranges_covered')
    ctx.distinct('a', lo, hi)


FIELDS = {'conditional': 0xf0000000, 'registers': 0x7ff, 'opcode': 0x0ff00000}


def nested(ctx, ins, encs, masks):
    """Each candidate of the fields corrupted first is kept, and varied in all ways of the bits chosen for it."""
    have = set(encs)
    parents, seen = {ins.enc}, 0
    for mask in masks:
        seen |= mask
        level = {e & seen | ins.enc & ~seen for e in encs}
        children = set()
        for p in parents:
            mine = [e for e in level if not (e ^ p) & ~mask]
            union = 0
            for e in mine:
                union |= e ^ p
            for e in gen.flip_set(p, [b for b in range(32) if union >> b & 1]):
                children.add(e)
                ctx.check(e in have or CAPSInstruction(e, ins.addr).is_undefined, 'incomplete',
                          'a defined variation of the corrupted bits is missing', original=hex(ins.enc), missing=hex(e))
        parents = children | level
    ctx.ev('nested_fields')


def instruction(ctx):
    rng = ctx.rng
    ins = gen.random_ins(rng, 0x1000, 0x1000, 0x1100)
    flags = {k: rng.random() < .5 for k in FIELDS}
    amount = rng.choice([0, 1, 2, 3, 4, 4, 6])
    orig = CAPSInstruction(ins.enc, ins.addr)
    other = CAPSInstruction(0xe1a00000, 0x1004)
    prog = {ins.addr: [orig], 0x1004: [other]}
    ctx.note(instruction=repr(ins), fields=[k for k in flags if flags[k]], amount=amount)
    if rng.random() < .1:
        # What is not asked for otherwise: two errors in the condition
        flags, amount = dict(conditional=True, registers=False, opcode=False), 2
        res = co.corrupt_instruction(prog, orig, ins.addr)
        ctx.ev('defaults')
    else:
        res = co.corrupt_instruction(prog, orig, ins.addr, amount=amount, **flags)
    ctx.check(list(res) == list(prog[ins.addr]), 'result', 'the returned candidates are not those of the program')
    ctx.check(prog[0x1004] == [other] and set(prog) == {0x1000, 0x1004}, 'elsewhere', 'another address was changed')
    ctx.check(res[0] is orig, 'original-first', 'the original does not come first')
    mask = sum(FIELDS[k] for k in flags if flags[k])
    union = 0
    for c in res[1:]:
        d = c.encoding ^ ins.enc
        ctx.check(d and not d & ~mask, 'outside-field', 'a candidate differs outside the corrupted fields',
                  candidate=hex(c.encoding), original=hex(ins.enc), fields=flags)
        ctx.check(not c.is_undefined, 'undefined', 'an undefined instruction was offered', candidate=hex(c.encoding))
        ctx.eq(c.address, ins.addr, 'candidate-address', 'a candidate has another address')
        union |= d
        ctx.check(bin(d).count('1') <= amount, 'error-count', 'a candidate has more wrong bits than asked',
                  asked=amount, candidate=hex(c.encoding), original=hex(ins.enc))
    encs = [c.encoding for c in res]
    ctx.eq(len(encs), len(set(encs)), 'duplicates', 'a candidate is repeated', encodings=[hex(e) for e in encs])
    if sum(flags.values()) != 1:
        # the bits of the second field are drawn anew for each candidate of the first: no exact set to expect
        want = None
    else:
        want = {e for e in gen.flip_set(ins.enc, [b for b in range(32) if union >> b & 1])
                if e == ins.enc or not CAPSInstruction(e, ins.addr).is_undefined}
    if want is not None:
        ctx.ev('single_field_sets')
        ctx.eq(set(encs), want, 'incomplete', 'a defined variation of the corrupted bits is missing', original=hex(ins.enc))
    if sum(flags.values()) > 1:
        nested(ctx, ins, encs, [FIELDS[k] for k in ('conditional', 'registers', 'opcode') if flags[k]])
    ctx.ev('instructions_corrupted')
    if union:
        ctx.distinct('i', ins.enc, tuple(flags.items()), sorted(encs))


def distribution(ctx):
    rng = ctx.rng
    for _ in range(10):
        amount, bins = rng.randrange(0, 8), rng.randrange(1, 6)
        r = list(co.distribute_random_amount(amount, bins))
        ctx.eq(len(r), bins, 'distribution', 'wrong number of shares', amount=amount, bins=bins, shares=r)
        ctx.check(all(x >= 0 for x in r) and sum(r) <= amount and (bins > 1 or r == [amount]), 'distribution',
                  'the shares exceed the amount', amount=amount, bins=bins, shares=r)
        ctx.ev('distributions')
        ctx.distinct('d', amount, bins, tuple(r))
    ctx.note(amount=amount, bins=bins, shares=r)


WORKLOADS = [W('ranges', ranges, 64, 2000), W('range_lists', range_lists, 400, 10000), W('errors', errors, 600, 20000), W('any_bit', any_bit, 40, 1500),
             W('instruction', instruction, 250, 8000), W('distribution', distribution, 40, 1000)]
