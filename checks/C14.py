"""Disassembly readers: every instruction line becomes exactly that instruction, in its function, in file order."""
import os
import re
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader, TextDisassembleReader

PROPERTY = 'C14'
RULE = ('generated disassembly files in both formats (sections, mapping symbols, symbols of data, gaps, blank lines, '
        'undefined words, addresses up to 2^32) functions of up to 17000 instructions, and the sample files of the repository, compared with what was written. '
        'Non-trivial: at least two functions and an instruction; distinct by content.')
ASSUMPTIONS = ['files written by the tools the formats come from: the symbols precede the code sections; lower-case hex']
LEVEL_NOTE = 'sampled files; the oracle is the list the file was generated from (samples: a separate line parser)'
MIN_EVENTS = {'elfio_files': 80, 'text_files': 80, 'instructions_compared': 3000, 'functions_compared': 400,
              'sample_files': 4, 'malformed_lines_skipped': 10,
              'long_files': 6}
CODE = ['init', 'plt', 'text', 'fini']


def same(ctx, got, want, what):
    """want: [(address, encoding)]"""
    ctx.eq([(i.address, i.encoding) for i in got], want, what, 'instructions differ from the file')
    for i in got:
        ctx.check(isinstance(i, CAPSInstruction), 'type', 'not a decoded instruction')
        ctx.check(not i.ignore or i.is_undefined, 'ignored', 'a freshly read instruction is discarded')
    ctx.ev('instructions_compared', len(want))


def check_function(ctx, f, name, want):
    ctx.eq((str(f).rstrip(), f.name.rstrip()), (name, name), 'function-name', 'wrong function name')
    same(ctx, f.instructions, want, 'function-body')
    ctx.eq(f.length_in_bytes(), 4 * len(want), 'function-length', 'wrong length')
    ctx.eq(f.start_addr(), want[0][0] if want else 0, 'function-start', 'wrong start')
    if want and want[-1][0] == want[0][0] + 4 * (len(want) - 1):
        ctx.eq(f.final_addr(), want[-1][0], 'function-end', 'wrong address of the last instruction')
    ctx.ev('functions_compared')


def words(rng, lo_addr, n):
    a, res = lo_addr, []
    for _ in range(n):
        e = rng.getrandbits(32) if rng.random() < .2 else gen.random_ins(rng, a, a, a + 400).enc
        res.append((a, e))
        a += 4
    return res


def elfio(ctx):
    rng = ctx.rng
    base = rng.choice([0, 4, 0x10330, 0x7fffffe0, 0xc0000000])
    funs, sections, a, twice = [], [], base, []
    for sec in rng.sample(CODE, rng.randrange(1, 5)):
        body = []
        for _ in range(rng.randrange(1, 5)):
            ws = words(rng, a, rng.choice([1, 1, 2, 7, 20]))
            a = ws[-1][0] + 4 + rng.choice([0, 0, 0, 4, 64])
            if rng.random() < .75:
                name = rng.choice(['main', '$a', 'f%d' % a, '_init', 'x.7', 'a b'])
                funs.append((ws[0][0], name))
            body += ws
        sections.append((sec, body))
    data = [(0x90000000 + 4 * k, 'data%d' % k) for k in range(rng.randrange(0, 4))]
    order = funs + data
    rng.shuffle(order)
    lines, bad = ['.functions'], 0
    for x, n in order:
        if rng.random() < .2:      # a mapping symbol at the same address does not make another function
            lines.append('0x%x;%s' % (x, n if rng.random() < .3 else '$a'))
        lines.append('%s%x;%s%s' % (rng.choice(['0x', '0x', '']), x, n, rng.choice(['', '', ' '])))
        if rng.random() < .05:
            lines.append(rng.choice(['', '   ', '\t']))
    lines.append('')
    for sec, body in sections:
        lines.append('.' + sec)
        for x, e in body:
            style = rng.randrange(3)
            if rng.random() < .03:
                lines.append('garbage without separators')
                bad += 1
            if rng.random() < .02:     # listed twice, as it may be where two symbols share an address
                lines.append('0x%x;%08x;mnem' % (x, e))
                twice.append((x, e))
            lines.append(('0x%x;%08x;mnem;{r0, r1}', '0x%x;%x', '%x;0x%08x;add;r0, r1;comment')[style] % (x, e))
            if rng.random() < .05:
                lines.append(rng.choice(['', '   ']))
        lines.append('')
    with open('in.disam', 'w') as f:
        f.write('\n'.join(lines) + rng.choice(['', '\n']))
    want = [w for _, body in sections for w in body for _ in range(1 + (w in twice))]
    starts = dict(funs)
    bodies, cur = {x: [] for x, _ in order}, None
    for x, e in want:
        cur = x if x in starts else cur
        if cur is not None:
            bodies[cur].append((x, e))
    reader = ElfioTextDisassembleReader('in.disam')
    for turn in range(2):     # reading again gives the same, not twice as much
        fs, ins = reader.read()
        same(ctx, ins, want, 'instructions')
        same(ctx, reader.instructions, want, 'instructions')
        ctx.eq(len(fs), len(order), 'functions', 'wrong number of functions')
        for f, (x, n) in zip(fs, order):
            check_function(ctx, f, n, bodies[x])
        ctx.eq(len(reader.functions), len(fs), 'functions', 'functions of the reader differ')
    ctx.eq([str(f).rstrip() for f in reader.read_functions()], [n for _, n in order], 'functions', 'read_functions differs')
    same(ctx, reader.read_instructions(), want, 'instructions')
    ctx.ev('elfio_files')
    ctx.ev('malformed_lines_skipped', bad)
    ctx.ev('listed_twice', len(twice))
    ctx.note(sections=[s for s, _ in sections], functions=len(funs), instructions=len(want))
    if len(funs) > 1:
        ctx.distinct('elfio', want, funs)
    os.remove('in.disam')


def long(ctx):
    """Functions of thousands of instructions, and files of thousands of functions."""
    rng = ctx.rng
    n, per = [(1, 5000), (2, 2500), (2500, 2), (700, 6), (1, 17000)][ctx.index // 2 % 5]
    pool = [rng.choice([rng.getrandbits(32), gen.random_ins(rng, 0).enc]) for _ in range(50)]
    a, funs = 0x10000, []
    for k in range(n):
        funs.append(('f%d' % k, [(a + 4 * j, rng.choice(pool)) for j in range(per)]))
        a += 4 * per
    want = [w for _, b in funs for w in b]
    if ctx.index % 2:
        with open('long.disam', 'w') as f:
            f.write('.functions\n' + ''.join('0x%x;%s\n' % (b[0][0], m) for m, b in funs) + '\n.text\n')
            f.write(''.join('0x%x;%08x;x;y\n' % w for w in want))
        fs, ins = ElfioTextDisassembleReader('long.disam').read()
        names = [m for m, _ in funs]
    else:
        with open('long.disam', 'w') as f:
            for m, b in funs:
                f.write('.text:%08x <%s>:\n' % (b[0][0], m))
                for x, e in b:
                    f.write('    .text:%08x %s\n' % (x, ' '.join('%02x' % y for y in e.to_bytes(4, 'little'))))
        r = TextDisassembleReader('long.disam')
        fs, ins = r.read_functions()[1:], r.read_instructions()
        names = ['.text:%08x <%s>:' % (b[0][0], m) for m, b in funs]
    same(ctx, ins, want, 'instructions')
    ctx.eq(len(fs), n, 'functions', 'wrong number of functions')
    for f, m, (_, b) in zip(fs, names, funs):
        check_function(ctx, f, m, b)
    ctx.ev('long_files')
    ctx.note(functions=n, each=per)
    ctx.distinct('long', n, want[:50])
    os.remove('long.disam')


def text(ctx):
    rng = ctx.rng
    a = rng.choice([0, 0x10544, 0x7ffffff0, 0xc0000000])
    lines, funs = [], [('no_method', [])]
    for k in range(rng.randrange(1, 8)):
        sec = rng.choice(['.text', '.init', '.plt'])
        ws = words(rng, a, rng.choice([1, 2, 9]))
        a = ws[-1][0] + 4 + rng.choice([0, 0, 16])
        if k or rng.random() < .7:
            h = '%s:%08x <%s>:' % (sec, ws[0][0], rng.choice(['main', '$a', 'f%d' % k, '_x']))
            lines.append(h)
            funs.append((h, []))
        for x, e in ws:
            b = e.to_bytes(4, 'little')
            tail = rng.choice(['', '                      push\t{r3, lr}', '  \tldr r0, [pc, #36]\t; 0x0001069c <$d>'])
            lines.append('%s%s:%08x %s%s' % (' ' * rng.randrange(1, 30), sec, x, ' '.join('%02x' % y for y in b), tail))
            funs[-1][1].append((x, e))
        if rng.random() < .6:
            lines.append('')
    with open('in.armasm', 'w') as f:
        f.write('\n'.join(lines) + rng.choice(['', '\n']))
    want = [w for _, ws in funs for w in ws]
    reader = TextDisassembleReader('in.armasm')
    for turn in range(2):
        same(ctx, reader.read_instructions(), want, 'instructions')
        fs = reader.read_functions()
        ctx.eq(len(fs), len(funs), 'functions', 'wrong number of functions')
        for f, (n, ws) in zip(fs, funs):
            check_function(ctx, f, n, ws)
    both = reader.read()
    ctx.eq(sorted(len(x) for x in both), sorted([len(want), len(funs)]), 'read', 'read() gives something else')
    for method in ('read_functions', 'read_instructions'):
        thumb = TextDisassembleReader('in.armasm', TextDisassembleReader.THUMB_SET)
        ctx.check(ctx.raises(RuntimeError, getattr(thumb, method)), 'thumb', 'an unsupported instruction set was read')
    ctx.ev('text_files')
    ctx.note(functions=len(funs), instructions=len(want))
    if len(funs) > 2:
        ctx.distinct('text', want, [n for n, _ in funs])
    os.remove('in.armasm')


def samples(ctx):
    d = os.path.join(ctx.repo, 'tests', 'data')
    names = sorted(n for n in os.listdir(d) if n.endswith(('.disam', '.armasm')))
    name = names[ctx.index % len(names)]
    path = os.path.join(d, name)
    src = open(path).read().split('\n')
    if name.endswith('.disam'):
        sec, want = None, []
        for line in src:
            if line.startswith('.'):
                sec = line[1:].strip()
            m = re.match(r'(0x[0-9a-f]+);([0-9a-f]+);', line)
            if m and sec.split('.')[0] in CODE:
                want.append((int(m.group(1), 16), int(m.group(2), 16)))
        if not want:
            ctx.skip()
        fs, ins = ElfioTextDisassembleReader(path).read()
        same(ctx, ins, want, 'instructions')
        inside = [(i.address, i.encoding) for f in fs for i in f.instructions]
        ctx.check(set(inside) <= set(want) and len(inside) == len(set(inside)), 'functions',
                  'an instruction is in two functions')
    else:
        want = []
        for line in src:
            m = re.match(r' +\.\w+:([0-9a-f]+) ((?:[0-9a-f]{2} ){3}[0-9a-f]{2})(?: |$)', line)
            if m:
                want.append((int(m.group(1), 16), int.from_bytes(bytes.fromhex(m.group(2)), 'little')))
        if not want:
            ctx.skip()
        r = TextDisassembleReader(path)
        same(ctx, r.read_instructions(), want, 'instructions')
        same(ctx, [i for f in r.read_functions() for i in f.instructions], want, 'functions')
    ctx.ev('sample_files')
    ctx.distinct(name)
    ctx.note(file=name, instructions=len(want))


WORKLOADS = [W('elfio', elfio, 150, 4000), W('text', text, 150, 4000), W('samples', samples, 14, 14),
             W('long', long, 10, 30)]
