"""Random corruption: bounded damage, as many instructions as asked, always terminates."""
import math
from mon.core import W
from mon import gen
from semantic_codec.corruption.corruption import corrupt_program
from semantic_codec.corruption.corruptors import RandomCorruptor
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

PROPERTY = 'C09'
RULE = ('random programs of 1..60 instructions (contiguous, with address gaps, any base address, any dictionary '
        'order), percentages 0..100, 0..5 bit errors per instruction, function and corruptor object, thousands of instructions; invalid '
        'percentages. Non-trivial: at least two instructions; distinct by program and parameters.')
ASSUMPTIONS = ['the program has at least one instruction, one candidate per address',
               'a percentage that floating point turns into one instruction more or less is not an alarm']
LEVEL_NOTE = 'sampled; non-termination is decided on a budget of executed lines'
MIN_EVENTS = {'small_shares': 20, 'programs_corrupted': 300, 'candidates_checked': 3000, 'with_gaps': 80, 'percent_rejected': 10,
              'full_corruption': 20, 'amounts_seen': 20, 'amounts_large': 20, 'huge': 8000}


def run(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 10, 25, 60, 60, 300])
    gaps = rng.random() < .5
    ins = gen.program(rng, n, gaps)
    pct = rng.choice([0, 1, .5, .9, rng.random(), 10, 33.3, 50.0, 90, 99, 100, 100.0, rng.random() * 100])
    mx = rng.choice([0, 1, 1, 2, 3, 4, 5])
    items = [(i.addr, [CAPSInstruction(i.enc, i.addr)]) for i in ins]
    rng.shuffle(items)
    prog = dict(items)
    ctx.note(instructions=n, gaps=gaps, percent=pct, max_bits=mx, base=hex(ins[0].addr))
    if rng.random() < .5:
        corrupt_program(prog, pct, mx)
    else:
        c = RandomCorruptor(pct, mx, False)
        prog = c.corrupt(prog)
    ctx.ev('programs_corrupted')
    if 0 < pct < 1 and n > 20:
        ctx.ev('small_shares')
    if gaps:
        ctx.ev('with_gaps')
    if pct == 100:
        ctx.ev('full_corruption')
    ctx.eq(sorted(prog), sorted(i.addr for i in ins), 'addresses', 'corruption added or removed addresses')
    hit = 0
    for i in ins:
        v = prog[i.addr]
        encs = [x.encoding for x in v]
        ctx.eq(encs[0], i.enc, 'original-moved', 'the original is not the first candidate', addr=hex(i.addr))
        ctx.eq(len(encs), len(set(encs)), 'duplicates', 'a candidate is repeated', addr=hex(i.addr))
        ctx.check(all(x.address == i.addr for x in v), 'candidate-address', 'a candidate has another address')
        union = 0
        for e in encs[1:]:
            union |= e ^ i.enc
            ctx.ev('candidates_checked')
        bits = bin(union).count('1')
        ctx.check(bits <= max(1, mx), 'too-many-bits', 'more bits were damaged in one instruction than allowed',
                  allowed=max(1, mx), damaged=bits, original=hex(i.enc), candidates=[hex(e) for e in encs])
        ctx.eq(set(encs), gen.flip_set(i.enc, [b for b in range(32) if union >> b & 1]), 'incomplete',
               'the candidates are not all the variations of the damaged bits', original=hex(i.enc), max_bits=mx)
        hit += len(encs) > 1
    exact = n * pct / 100
    allowed = {max(1, math.ceil(exact)), max(1, math.ceil(exact - 1e-9)), max(1, math.ceil(exact + 1e-9))}
    ctx.check(hit in allowed, 'amount', 'not as many instructions were corrupted as asked', corrupted=hit,
              instructions=n, percent=pct, expected=sorted(allowed))
    if n > 1:
        ctx.distinct(pct, mx, [(i.addr, i.enc) for i in ins])


def many_bits(ctx):
    """Up to a dozen errors in each of many one-instruction programs: no amount is out of reach."""
    rng = ctx.rng
    seen, most = set(), 10
    for k in range(120):
        a = rng.randrange(0, 1 << 32, 4)
        e = rng.getrandbits(32)
        prog = {a: [CAPSInstruction(e, a)]}
        corrupt_program(prog, 100, most)
        encs = [i.encoding for i in prog[a]]
        union = 0
        for x in encs:
            union |= x ^ e
        bits = [b for b in range(32) if union >> b & 1]
        ctx.eq(sorted(encs), sorted(gen.flip_set(e, bits)), 'incomplete',
               'the candidates are not all the variations of the damaged bits', original=hex(e))
        ctx.check(1 <= len(bits) <= most, 'too-many-bits', 'more bits were damaged in one instruction than allowed',
                  allowed=most, damaged=len(bits))
        seen.add(len(bits))
    # Each of the ten amounts is drawn with one chance in ten: all of the upper two missing 120 times is 2e-12
    ctx.check(max(seen) > most - 2, 'fewer-bits', 'amounts of errors within the limit are never made', seen=sorted(seen))
    ctx.ev('amounts_large', len(seen))
    ctx.distinct('many', ctx.index)


def huge(ctx):
    """Thousands of instructions."""
    rng = ctx.rng
    n = [5000, 9000, 20000, 70000][ctx.index % 4]
    pct = rng.choice([100, 100, 90, 99.5])
    a = 4 * rng.randrange(1 << 20)
    enc = {a + 4 * k: rng.getrandbits(32) for k in range(n)}
    prog = {k: [CAPSInstruction(e, k)] for k, e in enc.items()}
    if rng.random() < .5:
        corrupt_program(prog, pct, 1)
    else:
        prog = RandomCorruptor(pct, 1, False).corrupt(prog)
    ctx.eq(sorted(prog), sorted(enc), 'addresses', 'corruption added or removed addresses')
    hit = 0
    for k, v in prog.items():
        e = [x.encoding for x in v]
        ctx.check(e[0] == enc[k] and len(e) <= 2 and all(bin(x ^ e[0]).count('1') == 1 for x in e[1:]), 'incomplete',
                  'not the original and one single-bit variation', addr=hex(k), original=hex(enc[k]))
        hit += len(e) > 1
    exact = n * pct / 100
    ctx.check(hit in {math.ceil(exact - 1e-9), math.ceil(exact), math.ceil(exact + 1e-9)}, 'amount',
              'not as many instructions were corrupted as asked', corrupted=hit, instructions=n, percent=pct)
    ctx.ev('huge', hit)
    ctx.note(instructions=n, percent=pct)
    ctx.distinct('huge', n, pct)


def invalid(ctx):
    rng = ctx.rng
    pct = rng.choice([-1, -0.5, 101, 100.5, 1000, -1000])
    prog = {0x1000 + 4 * k: [CAPSInstruction(0xe1a00000 + k, 0x1000 + 4 * k)] for k in range(4)}
    ctx.note(percent=pct)
    ctx.check(ctx.raises(RuntimeError, corrupt_program, prog, pct, 2), 'bad-percent-accepted',
              'a percentage outside 0..100 was accepted', percent=pct)
    ctx.check(all(len(v) == 1 for v in prog.values()), 'bad-percent-damage', 'a refused request still did damage')
    ctx.ev('percent_rejected')
    ctx.distinct('bad', pct)


def amounts(ctx):
    """Every number of errors up to the one asked for occurs."""
    rng = ctx.rng
    mx = ctx.index % 6 + 1
    seen = {}
    for turn in range(3):
        prog = {0x8000 + 4 * k: [CAPSInstruction(rng.getrandbits(32), 0x8000 + 4 * k)] for k in range(100)}
        if turn:
            corrupt_program(prog, 100, mx)
        else:
            prog = RandomCorruptor(100, mx, False).corrupt(prog)
        for v in prog.values():
            k = len(v).bit_length() - 1
            seen[k] = seen.get(k, 0) + 1
    ctx.eq(sorted(seen), list(range(1, mx + 1)), 'amounts', 'not every amount of errors up to the one allowed occurs',
           allowed=mx, seen=seen)
    ctx.ev('amounts_seen', len(seen))
    ctx.note(allowed=mx, seen=str(seen))
    if mx > 1:
        ctx.distinct('amounts', ctx.index, sorted(seen.items()))


WORKLOADS = [W('random', run, 500, 12000), W('amounts', amounts, 6, 24), W('many_bits', many_bits, 3, 30), W('huge', huge, 2, 8),
             W('invalid_percent', invalid, 16, 60)]
