"""Huffman codes of symbol frequencies, and the frequencies of instruction parts."""
import contextlib
import heapq
import io
from mon.core import W
from mon import gen
from checks import darm
darm.stub()
from semantic_codec.compressor.huffman import encode, huffman_size, huffman_test, InstructionPartFrequencyCounter  # noqa: E402

PROPERTY = 'C29'
RULE = ('frequency tables of 1..200 symbols (equal, skewed, Fibonacci, with zeros, huge weights, fractions; text or number '
        'symbols, any order), the letters of random texts, and the tables counted on random programs. Non-trivial: at least three symbols; distinct '
        'by table.')
ASSUMPTIONS = ['at least one symbol; weights are not negative; symbols can be compared with each other',
               'what registers an instruction uses is decided by C13']
LEVEL_NOTE = 'each code checked to be decodable and of the least possible size (computed by merging weights alone)'
MIN_EVENTS = {'codes': 300, 'fractions': 20, 'symbols': 5000, 'texts': 30, 'tables_alike': 60, 'decoded': 200, 'programs_counted': 80, 'recounted': 60,
              'part_sizes': 200}


def least(weights):
    h = list(weights)
    heapq.heapify(h)
    total = 0
    while len(h) > 1:
        s = heapq.heappop(h) + heapq.heappop(h)
        total += s
        heapq.heappush(h, s)
    return total


def check_code(ctx, table):
    before = dict(table)
    code = encode(table)
    ctx.eq(table, before, 'mutated', 'encoding changed the frequencies')
    got = {s: c for s, c in code}
    ctx.eq(sorted(map(repr, got)), sorted(map(repr, table)), 'symbols', 'symbols missing or invented')
    ctx.eq(len(code), len(table), 'symbols', 'a symbol has two codes')
    ctx.check(all(set(c) <= {'0', '1'} for c in got.values()), 'alphabet', 'a code is not binary', code=code)
    words = sorted(got.values())
    if len(words) > 1:
        ctx.check(all(w for w in words), 'empty-code', 'a symbol has an empty code', table=table)
        for a, b in zip(words, words[1:]):
            ctx.check(not b.startswith(a), 'prefix', 'a code begins another', a=a, b=b, table=table)
    ctx.eq([len(c) for _, c in code], sorted(len(c) for _, c in code), 'unsorted', 'codes are not by length')
    size = sum(table[s] * len(c) for s, c in got.items())
    ctx.eq(size, least(table.values()), 'not-optimal', 'a shorter code exists', table=table, code=code)
    ctx.eq(huffman_size(table), size, 'size', 'wrong size')
    ctx.eq(huffman_size(table, code), size, 'size', 'wrong size of a given code')
    ctx.eq(encode(table), code, 'repeat', 'a second encoding differs')
    ctx.ev('codes')
    ctx.ev('symbols', len(code))
    if len(table) > 2:
        ctx.distinct(sorted(map(repr, table.items())))
    return got


def tables(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 5, 8, 16, 17, 40, 100, 200])
    kind = rng.choice(['equal', 'random', 'skewed', 'fib', 'zeros', 'huge', 'shares', 'large_shares'])
    if kind == 'fib':
        n = min(n, 40)
        w = [1, 1]
        while len(w) < n:
            w.append(w[-1] + w[-2])
    else:
        one = {'equal': lambda: 7, 'random': lambda: rng.randrange(1, 50), 'skewed': lambda: 2 ** rng.randrange(20),
               'zeros': lambda: rng.choice([0, 0, 1, 5]), 'huge': lambda: rng.getrandbits(70),
               'shares': lambda: rng.randrange(1, 200) / 256.0,
               'large_shares': lambda: 100 + rng.randrange(1, 20000) / 256.0}[kind]
        w = [one() for _ in range(n)]
    syms = rng.sample(range(1000), n)
    if rng.random() < .4:
        syms = ['s%d' % s for s in syms]
    rng.shuffle(w)
    table = dict(zip(syms, w))
    got = check_code(ctx, table)
    if n > 1 and rng.random() < .5:
        # Another table, which differs in one weight only
        other = dict(table)
        other[rng.choice(syms)] = one() * 3 + 1 if kind != 'fib' else 1000
        check_code(ctx, other)
        ctx.ev('tables_alike')
    if kind in ('shares', 'large_shares'):
        ctx.ev('fractions')
    if n > 1:
        text = [rng.choice(syms) for _ in range(60)]
        bits = ''.join(got[s] for s in text)
        back, cur, inv = [], '', {c: s for s, c in got.items()}
        for b in bits:
            cur += b
            if cur in inv:
                back.append(inv[cur])
                cur = ''
        ctx.eq(back, text, 'decode', 'the coded text does not decode', table=table)
        ctx.ev('decoded')
    ctx.note(kind=kind, n=n)


def tally(lists):
    freq, where = {}, {}
    for k, parts in enumerate(lists):
        for p in parts:
            freq[p] = freq.get(p, 0) + 1
            if k not in where.setdefault(p, []):
                where[p].append(k)
    return freq, where


def programs(ctx):
    rng = ctx.rng
    c = InstructionPartFrequencyCounter()
    for round_ in range(rng.choice([1, 2, 3])):
        ins = gen.program(rng, rng.choice([0, 1, 3, 12, 40, 90]), regs=rng.choice([3, 13]))
        prog = [gen.caps(i) for i in ins]
        if prog and rng.random() < .3:
            # The same object several times, not next to each other
            for _ in range(3):
                k = rng.randrange(len(prog))
                prog.append(prog[k])
                ins.append(ins[k])
            ctx.ev('same_object')
        c.count(prog)
        for name, parts in (('reg', [list(i.registers_used()) for i in prog]),
                            ('opcode', [[i.opcode_field] for i in prog]),
                            ('cond', [[i.cond] for i in ins])):
            freq, where = tally(parts)
            first = [next(j for j in range(len(prog)) if prog[j] is i) for i in prog]
            where = {p: sorted({first[k] for k in v}) for p, v in where.items()}
            ctx.eq(getattr(c, name + '_frequency'), freq, name + '-frequency', 'wrong frequency of ' + name)
            pos = {}
            for k, i in enumerate(prog):
                pos.setdefault(id(i), k)
            got = {p: [pos[id(i)] for i in v] for p, v in getattr(c, name + '_with').items()}
            ctx.eq(got, where, name + '-with', 'wrong instructions listed with ' + name)
            if freq:
                check_code(ctx, getattr(c, name + '_frequency'))
                ctx.ev('part_sizes')
        ctx.ev('programs_counted')
        if round_:
            ctx.ev('recounted')
    ctx.note(n=len(ins))


def texts(ctx):
    """The code of the letters of a text."""
    rng = ctx.rng
    letters = rng.sample('abcdefgh xyz.!', rng.randrange(2, 12))
    text = ''.join(rng.choice(letters[:rng.randrange(1, len(letters) + 1)]) for _ in range(rng.randrange(2, 200)))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        huffman_test(text)
    count = {c: text.count(c) for c in set(text)}
    got = out.getvalue()
    heap = sorted(count.values())
    want = 0 if len(heap) > 1 else None
    while len(heap) > 1:
        a = heapq.heappop(heap) + heapq.heappop(heap)
        want += a
        heapq.heappush(heap, a)
    if want is None:
        return
    ctx.check(got.rstrip().endswith(' %d' % want), 'text-size', 'the size told for a text is not the least', text=text,
              want=want, got=got[-200:])
    ctx.eq(len(got.strip().splitlines()), len(count) + 2, 'text-table', 'not one line for each letter', text=text)
    ctx.ev('texts')
    ctx.distinct('text', text)


WORKLOADS = [W('texts', texts, 60, 600), W('tables', tables, 400, 12000), W('programs', programs, 120, 2500)]
