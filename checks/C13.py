"""Registers and memory an instruction uses, reads and writes, by the ARM architecture."""
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

PROPERTY = 'C13'
RULE = ('instructions assembled from architecture templates with every register in every operand position (including '
        'r0, repeated registers, sp, lr and pc where allowed), queried in any order, repeatedly. Non-trivial: at least '
        'one register operand; distinct by word.')
ASSUMPTIONS = ['storages are the explicit operands: r0-r15, 16 the memory of single loads and stores, 18 no register; '
               'pc is written by every branch',
               'an operand is written or read by its position: what an accumulator or a bit field destination held is '
               'not counted as read; floating point, coprocessor and status register instructions are left out',
               'base write-back of single transfers, the link register of calls, and '
               'the memory and stack update of push are not tracked (existing tests fix this)']
LEVEL_NOTE = 'sampled operand combinations against sets known from the encoder'
MIN_EVENTS = {'answers_changed': 500, 'dp': 500, 'loads': 200, 'stores': 200, 'push_pop': 100, 'multiples': 100, 'multiplies': 100,
              'branches': 100, 'compares': 100, 'r0_as_base': 30, 'read_modify_write': 100, 'known_finding:store-source': 50,
              'others_load': 300, 'others_store': 150, 'others_other': 1000, 'two_written': 300}


def template(rng, a):
    cond = rng.choice([gen.AL, rng.randrange(14)])
    r = lambda: rng.choice([0, 0, rng.randrange(15)])
    k = rng.choice(['dp', 'dp', 'dp', 'dpi', 'dpi', 'sh', 'shr', 'mov', 'movi', 'cmp', 'cmpi', 'ld', 'ld', 'st', 'st', 'h',
                    'ldr', 'str', 'push', 'pop', 'ldm', 'stm', 'mul', 'mla', 'mull', 'b', 'bx', 'pc'])
    s = rng.random() < .2
    if k == 'dp':
        x, y = r(), r()
        return gen.dp_reg(a, rng.choice(sorted(gen.DP3)), x, rng.choice([x, y, r()]), rng.choice([x, y, r()]), cond, s)
    if k == 'dpi':
        x = r()
        return gen.dp_imm(a, rng.choice(sorted(gen.DP3)), x, rng.choice([x, r()]), rng.randrange(256), cond, s)
    if k == 'sh':
        return gen.dp_shift(a, rng.choice(sorted(gen.DP3)), r(), r(), r(), rng.randrange(4), rng.randrange(1, 32), cond)
    if k == 'shr':
        return gen.dp_shift(a, rng.choice(sorted(gen.DP3)), r(), r(), r(), rng.randrange(4), r(), cond, by_reg=True)
    if k == 'mov':
        return gen.mov_reg(a, r(), r(), cond, rng.random() < .3)
    if k == 'movi':
        return gen.mov_imm(a, r(), rng.randrange(256), cond, rng.random() < .3)
    if k == 'cmp':
        return gen.cmp_reg(a, rng.choice(sorted(gen.DPC)), r(), r(), cond)
    if k == 'cmpi':
        return gen.cmp_imm(a, rng.choice(sorted(gen.DPC)), r(), rng.randrange(256), cond)
    if k in ('ld', 'st'):
        return gen.ldst(a, 1 if k == 'ld' else 0, r(), rng.choice([r(), r(), 15]), 4 * rng.randrange(200), cond,
                        rng.randrange(2), rng.randrange(2))
    if k == 'h':
        return gen.ldst_h(a, rng.randrange(2), r(), r(), 2 * rng.randrange(100), cond)
    if k in ('ldr', 'str'):
        return gen.ldst(a, 1 if k == 'ldr' else 0, r(), r(), 0, cond, rm=r() % 13)
    if k in ('push', 'pop'):
        regs = rng.sample(list(range(13)), rng.randrange(2, 9))
        return gen.push(a, regs + rng.choice([[], [14]]), cond) if k == 'push' else \
            gen.pop(a, regs + rng.choice([[], [15]]), cond)
    if k in ('ldm', 'stm'):
        base = rng.randrange(12)
        regs = rng.sample([x for x in range(13) if x != base], rng.randrange(2, 8))
        if k == 'ldm' and rng.random() < .3:
            regs.append(15)
        return gen.ldstm(a, k == 'ldm', base, regs, cond, rng.randrange(2), rng.randrange(2), rng.randrange(2))
    if k == 'mul':
        return gen.mul(a, 1 + rng.randrange(12), 0, r(), cond)
    if k == 'mla':
        return gen.mla(a, 1 + rng.randrange(12), 0, r(), r(), cond)
    if k == 'mull':
        x = rng.sample(range(13), 4)
        return gen.mull(a, x[0], x[1], x[2], x[3], cond, rng.random() < .5)
    if k == 'b':
        return gen.branch(a, a + 8 + 4 * rng.randrange(-100, 100), cond, rng.random() < .5)
    if k == 'bx':
        return gen.bx(a, r(), cond, rng.random() < .5)
    return rng.choice([gen.mov_reg(a, 15, r(), cond), gen.ldst(a, 1, 15, r(), 4, cond)])


def other(rng, a):
    """The rest of the general instructions: (class, word, reads, writes, memory)"""
    r = lambda: rng.choice([0, rng.randrange(13)])
    d, n, m, q = r(), r(), r(), r()
    if rng.random() < .6:
        # The two first registers must differ in some
        n = rng.choice([x for x in range(13) if x != d])
    c = rng.choice([gen.AL, rng.randrange(14)]) << 28
    up, imm = rng.randrange(2) << 23, rng.choice([0, 8, 12, 0x90])
    k = rng.choice(['translated', 'indexed', 'indexed', 'dual', 'signed', 'exclusive', 'swap', 'long', 'product',
                    'moves', 'extend', 'saturate', 'parallel', 'divide', 'field', 'reverse'])
    if k == 'translated':
        # ldrt, strt, ldrbt, strbt: always post-indexed with write-back
        if d == n:
            n = (n + 1) % 13
        load, byte = rng.randrange(2), rng.randrange(2) << 22
        w = c | 0x04200000 | load << 20 | up | byte | n << 16 | d << 12 | imm
        return ('load', w, {n}, {d}, 'r') if load else ('store', w, {d, n}, set(), 'w')
    if k == 'indexed':
        if d == n:
            n = (n + 1) % 13
        load, byte = rng.randrange(2), rng.randrange(2) << 22
        pre = rng.choice([0, 0x01200000])
        reg = rng.random() < .4
        m = rng.choice([x for x in range(13) if x != n])
        w = c | 0x04000000 | load << 20 | up | byte | pre | n << 16 | d << 12 | (0x02000000 | m if reg else imm)
        src = {n, m} if reg else {n}
        return ('load', w, src, {d}, 'r') if load else ('store', w, {d} | src, set(), 'w')
    if k == 'dual':
        d &= 14
        if d > 10:
            d = 10
        n = rng.choice([x for x in range(13) if x not in (d, d + 1)])
        load = rng.randrange(2)
        reg = rng.random() < .4
        m = rng.choice([x for x in range(13) if x not in (d, d + 1, n)])
        w = c | 0x01000000 | up | n << 16 | d << 12 | (0xd0 if load else 0xf0)
        w |= m if reg else 0x00400000 | (imm >> 4) << 8 | imm & 15
        src = {n, m} if reg else {n}
        return ('load', w, src, {d, d + 1}, 'r') if load else ('store', w, {d, d + 1} | src, set(), 'w')
    if k == 'signed':
        if d == n:
            n = (n + 1) % 13
        reg = rng.random() < .5
        m = rng.choice([x for x in range(13) if x not in (d, n)])
        w = c | 0x01100000 | up | n << 16 | d << 12 | rng.choice([0xd0, 0xf0, 0xb0])
        w |= m if reg else 0x00400000 | (imm >> 4) << 8 | imm & 15
        return 'load', w, {n, m} if reg else {n}, {d}, 'r'
    if k == 'exclusive':
        d, n, m = rng.sample(range(12), 3)
        size = rng.choice([0x01800000, 0x01c00000, 0x01e00000, 0x01a00000])
        if size == 0x01a00000:
            m, d, n = rng.choice([0, 2, 4]), rng.randrange(6, 9), rng.randrange(9, 12)
        if rng.random() < .5:
            w = c | size | 0x00100000 | n << 16 | m << 12 | 0xf9f
            return 'load', w, {n}, {m, m + 1} if size == 0x01a00000 else {m}, 'r'
        return ('other', c | size | n << 16 | d << 12 | 0xf90 | m, {m, m + 1, n} if size == 0x01a00000 else {m, n}, {d},
                'w')
    if k == 'swap':
        d, n, m = rng.sample(range(13), 3)
        return 'other', c | 0x01000090 | rng.randrange(2) << 22 | n << 16 | d << 12 | m, {m, n}, {d}, 'r'
    if k == 'long':
        hi, lo = rng.sample(range(13), 2)
        op = rng.choice([0x00400090, 0x01400080, 0x014000a0, 0x014000c0, 0x014000e0, 0x07400010, 0x07400030, 0x07400050,
                         0x07400070, 0x00a00090, 0x00e00090, 0x00b00090, 0x00f00090])
        return 'other', c | op | hi << 16 | lo << 12 | q << 8 | m, {m, q}, {lo, hi}, None
    if k == 'product':
        op, three = rng.choice([(0x01000080, 1), (0x010000a0, 1), (0x010000c0, 1), (0x010000e0, 1), (0x01200080, 1),
                                (0x012000c0, 1), (0x012000a0, 0), (0x012000e0, 0), (0x01600080, 0), (0x016000a0, 0),
                                (0x016000e0, 0), (0x07000010, 1), (0x07000050, 1), (0x07500010, 1), (0x075000d0, 1),
                                (0x00600090, 1), (0x07800010, 1), (0x00300090, 1)])
        if three:
            return 'other', c | op | d << 16 | n << 12 | q << 8 | m, {m, q, n}, {d}, None
        return 'other', c | op | d << 16 | q << 8 | m, {m, q}, {d}, None
    if k == 'moves':
        i = rng.getrandbits(12) | rng.getrandbits(4) << 16
        return 'other', c | rng.choice([0x03000000, 0x03400000]) | d << 12 | i, set(), {d}, None
    if k == 'extend':
        op = rng.choice([0x06a00070, 0x06b00070, 0x06e00070, 0x06f00070, 0x06800070, 0x06c00070]) | rng.randrange(4) << 10
        if rng.random() < .5:
            return 'other', c | op | 15 << 16 | d << 12 | m, {m}, {d}, None
        return 'other', c | op | n << 16 | d << 12 | m, {n, m}, {d}, None
    if k == 'saturate':
        op = rng.choice([0x06a00010, 0x06e00010, 0x06a00f30, 0x06e00f30])
        i = rng.randrange(16) << 16 | (0 if op & 0xf00 else rng.randrange(1, 32) << 7)
        return 'other', c | op | i | d << 12 | m, {m}, {d}, None
    if k == 'parallel':
        op = rng.choice([0x01000050, 0x01200050, 0x01400050, 0x01600050] +
                        [0x06000f10 | a << 20 | b << 5 for a in (1, 2, 3, 5, 6, 7) for b in (0, 1, 2, 3, 4, 7)] +
                        [0x06800fb0, 0x06800010, 0x06800050, 0x06800410])
        return 'other', c | op | n << 16 | d << 12 | m, {n, m}, {d}, None
    if k == 'divide':
        op = rng.choice([0x0710f010, 0x0730f010, 0x0750f010, 0x0700f010, 0x0780f010])
        return 'other', c | op | d << 16 | q << 8 | m, {q, m}, {d}, None
    if k == 'field':
        lsb = rng.randrange(32)
        op = rng.choice([0x07c00010, 0x07a00050, 0x07e00050, 0])
        if op == 0:
            return 'other', c | 0x07c0001f | rng.randrange(lsb, 32) << 16 | d << 12 | lsb << 7, set(), {d}, None
        top = rng.randrange(lsb, 32) if op == 0x07c00010 else rng.randrange(32 - lsb)
        return 'other', c | op | top << 16 | d << 12 | lsb << 7 | m, {m}, {d}, None
    return ('other', c | rng.choice([0x06bf0f30, 0x06bf0fb0, 0x06ff0fb0, 0x06ff0f30, 0x016f0f10]) | d << 12 | m, {m}, {d},
            None)


class Word(object):
    def __init__(self, enc, addr):
        self.enc, self.addr = enc, addr

    def __repr__(self):
        return '%08x %s' % (self.enc, CAPSInstruction(self.enc, self.addr))


def others(ctx):
    rng = ctx.rng
    for _ in range(15):
        kind, enc, reads, writes, mem = other(rng, 0)
        ins = Word(enc, 4 * rng.randrange(1 << 28))
        ctx.note(instruction=repr(ins))
        if CAPSInstruction(enc, ins.addr).is_undefined:
            ctx.ev('undefined_for_capstone')
            continue
        got = observe(ctx, ins)
        memory = {gen.MEM} if mem else set()
        want = {'registers_used': reads | writes, 'registers_read': reads, 'registers_written': writes,
                'storages_used': reads | writes | memory, 'storages_read': reads | (memory if mem == 'r' else set()),
                'storages_written': writes | (memory if mem == 'w' else set())}
        if kind == 'store':
            rt = enc >> 12 & 15
            dev = dict(want)
            # What is stored is found written; of two registers, the first
            dev['registers_written'], dev['storages_written'] = {rt}, {rt, gen.MEM}
            src = {enc >> 16 & 15}
            if enc >> 26 & 3 == 1:
                src |= {enc & 15} if enc >> 25 & 1 else set()
            else:
                src |= {rt + 1} | (set() if enc >> 22 & 1 else {enc & 15})
            dev['registers_read'] = dev['storages_read'] = src
            if got == dev:
                ctx.known_hit('store-source', '%r' % ins)
                want = dev
        for m in METHODS:
            ctx.eq(got[m], want[m], 'storages', 'wrong %s' % m.replace('_', ' '), ins=ins)
        ctx.ev('others_' + kind)
        if len(writes) > 1:
            ctx.ev('two_written')
        ctx.distinct(enc)


METHODS = ('registers_used', 'registers_read', 'registers_written', 'storages_used', 'storages_read',
           'storages_written')
GROUP = {'dp': 'dp', 'mov': 'dp', 'cmp': 'compares', 'ldr': 'loads', 'str': 'stores', 'push': 'push_pop',
         'pop': 'push_pop', 'ldm': 'multiples', 'stm': 'multiples', 'mul': 'multiplies', 'b': 'branches',
         'bl': 'branches', 'bx': 'branches', 'blx': 'branches'}


def observe(ctx, ins):
    rng = ctx.rng
    c = CAPSInstruction(ins.enc, ins.addr)
    order = list(METHODS) + rng.choices(METHODS, k=5) + 2 * [rng.choice(METHODS)]
    rng.shuffle(order)
    got = {}
    for m in order:
        answer = getattr(c, m)()
        v = list(answer)
        if isinstance(answer, list) and rng.random() < .3:
            # what the caller does with an answer is its own business
            rng.choice([answer.clear, lambda: answer.append(rng.randrange(20)), answer.reverse])()
            ctx.ev('answers_changed')
        ctx.eq(len(v), len(set(v)), 'repeated', 'a storage is listed twice', ins=ins, method=m, value=v)
        v = set(v)
        if m in got:
            ctx.eq(v, got[m], 'unstable', 'a second query gives another answer', ins=ins, method=m)
        got[m] = v
    return got


def templates(ctx):
    rng = ctx.rng
    for _ in range(15):
        ins = template(rng, 4 * rng.randrange(1 << 28))
        got = observe(ctx, ins)
        reads, writes = set(ins.reads), set(ins.writes)
        if ins.kind == 'push':
            writes = set()
        want = {'registers_used': reads | writes | (set(ins.named) if ins.kind != 'push' else set()),
                'registers_read': reads, 'registers_written': writes,
                'storages_read': reads | ({gen.MEM} if ins.mem == 'r' else set()),
                'storages_written': writes | ({gen.MEM} if ins.mem == 'w' else set())
                                    | ({gen.PC} if ins.branches else set())}
        want['storages_used'] = want['registers_used'] | ({gen.MEM} if ins.mem else set()) or {gen.NOREG}
        ctx.note(instruction=repr(ins), storages=sorted(got['storages_used']))
        if ins.kind == 'str':
            rt = ins.enc >> 12 & 15
            dev = dict(want)
            dev['registers_written'] = {rt}
            dev['storages_written'] = {rt, gen.MEM} | ({gen.PC} if rt == 15 else set())
            src = {ins.enc >> 16 & 15}
            if ins.mn != 'strh' and ins.enc >> 25 & 1:
                src.add(ins.enc & 15)
            dev['registers_read'] = dev['storages_read'] = src
            if got == dev:
                ctx.known_hit('store-source', '%r' % ins)
                want = dev
        for m in METHODS:
            ctx.eq(got[m], want[m], 'storages', 'wrong %s' % m.replace('_', ' '), ins=ins,
                   text=str(CAPSInstruction(ins.enc, ins.addr)))
        ctx.ev(GROUP[ins.kind])
        if ins.kind in ('ldr', 'str') and ins.enc >> 16 & 15 == 0:
            ctx.ev('r0_as_base')
        if reads & writes:
            ctx.ev('read_modify_write')
        if ins.named:
            ctx.distinct(ins.enc)


WORKLOADS = [W('templates', templates, 400, 15000), W('others', others, 300, 12000)]
