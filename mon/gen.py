"""Generators: ARM (A32) instructions built from their architectural fields, programs, functions, corruptions.

Every instruction is made by an encoder here, so what it means (condition, operation, registers, target) is known
from the ARM architecture manual and not from the code under test.
"""
import os

AL = 14
SP, LR, PC = 13, 14, 15
MEM, NOREG = 16, 18

DP3 = {'and': 0, 'eor': 1, 'sub': 2, 'rsb': 3, 'add': 4, 'adc': 5, 'sbc': 6, 'rsc': 7, 'orr': 12, 'bic': 14}
DPC = {'tst': 8, 'teq': 9, 'cmp': 10, 'cmn': 11}
CONDS = ['eq', 'ne', 'hs', 'lo', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', '']


class Ins(object):
    """An encoded instruction with its architectural meaning.

    kind: dp, cmp, mov, ldr, str, push, pop, b, bl, bx, blx, mul, svc
    reads/writes: general registers read / written as operands (reads: set, writes: set); mem: None, 'r' or 'w'
    """
    __slots__ = ('enc', 'addr', 'kind', 'mn', 'cond', 'reads', 'writes', 'mem', 'target', 'flags', 'named')

    def __init__(self, enc, addr, kind, mn, cond, reads=(), writes=(), mem=None, target=None, flags=False):
        self.enc, self.addr, self.kind, self.mn, self.cond = enc & 0xffffffff, addr, kind, mn, cond
        self.reads, self.writes, self.mem, self.target = frozenset(reads), frozenset(writes), mem, target
        self.flags = flags
        self.named = self.reads | self.writes

    @property
    def branches(self):
        return self.kind in ('b', 'bl', 'bx', 'blx') or PC in self.writes

    def __repr__(self):
        return '<%s %08x @%x cond=%d r=%s w=%s mem=%s t=%s>' % (
            self.mn, self.enc, self.addr, self.cond, sorted(self.reads), sorted(self.writes), self.mem, self.target)


def dp_reg(addr, mn, rd, rn, rm, cond=AL, s=0):
    return Ins(cond << 28 | DP3[mn] << 21 | s << 20 | rn << 16 | rd << 12 | rm, addr, 'dp', mn, cond,
               {rn, rm}, {rd}, flags=bool(s))


def dp_imm(addr, mn, rd, rn, imm, cond=AL, s=0):
    return Ins(cond << 28 | 1 << 25 | DP3[mn] << 21 | s << 20 | rn << 16 | rd << 12 | (imm & 0xff), addr, 'dp', mn,
               cond, {rn}, {rd}, flags=bool(s))


def cmp_reg(addr, mn, rn, rm, cond=AL):
    return Ins(cond << 28 | DPC[mn] << 21 | 1 << 20 | rn << 16 | rm, addr, 'cmp', mn, cond, {rn, rm}, (), flags=True)


def cmp_imm(addr, mn, rn, imm, cond=AL):
    return Ins(cond << 28 | 1 << 25 | DPC[mn] << 21 | 1 << 20 | rn << 16 | (imm & 0xff), addr, 'cmp', mn, cond, {rn},
               (), flags=True)


def mov_reg(addr, rd, rm, cond=AL, mvn=False, s=0):
    return Ins(cond << 28 | (15 if mvn else 13) << 21 | s << 20 | rd << 12 | rm, addr, 'mov', 'mvn' if mvn else 'mov',
               cond, {rm}, {rd}, flags=bool(s))


def mov_imm(addr, rd, imm, cond=AL, mvn=False, s=0):
    return Ins(cond << 28 | 1 << 25 | (15 if mvn else 13) << 21 | s << 20 | rd << 12 | (imm & 0xff), addr, 'mov',
               'mvn' if mvn else 'mov', cond, (), {rd}, flags=bool(s))


def ldst(addr, load, rt, rn, off=0, cond=AL, byte=0, up=1, pre=1, wb=0, rm=None):
    e = cond << 28 | 1 << 26 | (0 if rm is None else 1) << 25 | pre << 24 | up << 23 | byte << 22 | wb << 21 \
        | load << 20 | rn << 16 | rt << 12 | ((off & 0xfff) if rm is None else rm)
    src = {rn} if rm is None else {rn, rm}
    mn = ('ldr' if load else 'str') + ('b' if byte else '')
    if load:
        return Ins(e, addr, 'ldr', mn, cond, src, {rt}, 'r')
    return Ins(e, addr, 'str', mn, cond, src | {rt}, (), 'w')


def ldst_h(addr, load, rt, rn, off=0, cond=AL, up=1):
    e = cond << 28 | 1 << 24 | up << 23 | 1 << 22 | load << 20 | rn << 16 | rt << 12 | (off >> 4 & 15) << 8 | 0xb0 \
        | (off & 15)
    if load:
        return Ins(e, addr, 'ldr', 'ldrh', cond, {rn}, {rt}, 'r')
    return Ins(e, addr, 'str', 'strh', cond, {rn, rt}, (), 'w')


def push(addr, regs, cond=AL):
    return Ins(cond << 28 | 0x092d0000 | sum(1 << r for r in regs), addr, 'push', 'push', cond, set(regs) | {SP}, ())


def pop(addr, regs, cond=AL):
    return Ins(cond << 28 | 0x08bd0000 | sum(1 << r for r in regs), addr, 'pop', 'pop', cond, {SP}, set(regs) | {SP})


def _off24(addr, target):
    return ((target - addr - 8) >> 2) & 0xffffff


def branch(addr, target, cond=AL, link=False):
    return Ins(cond << 28 | (0x0b000000 if link else 0x0a000000) | _off24(addr, target), addr, 'bl' if link else 'b',
               'bl' if link else 'b', cond, (), (), target=target & 0xffffffff)


def bx(addr, rm, cond=AL, link=False):
    return Ins(cond << 28 | (0x012fff30 if link else 0x012fff10) | rm, addr, 'blx' if link else 'bx',
               'blx' if link else 'bx', cond, {rm}, ())


def mul(addr, rd, rm, rs, cond=AL):
    return Ins(cond << 28 | rd << 16 | rs << 8 | 0x90 | rm, addr, 'mul', 'mul', cond, {rm, rs}, {rd})


def dp_shift(addr, mn, rd, rn, rm, kind, amount, cond=AL, s=0, by_reg=False):
    """Data processing with a shifted operand: by a constant 1..31 or by the register number `amount`."""
    e = cond << 28 | DP3[mn] << 21 | s << 20 | rn << 16 | rd << 12 | kind << 5 | rm
    if by_reg:
        return Ins(e | amount << 8 | 0x10, addr, 'dp', mn, cond, {rn, rm, amount}, {rd}, flags=bool(s))
    return Ins(e | amount << 7, addr, 'dp', mn, cond, {rn, rm}, {rd}, flags=bool(s))


def mla(addr, rd, rm, rs, rn, cond=AL):
    return Ins(cond << 28 | 0x00200090 | rd << 16 | rn << 12 | rs << 8 | rm, addr, 'mul', 'mla', cond, {rm, rs, rn},
               {rd})


def mull(addr, lo, hi, rm, rs, cond=AL, signed=False):
    return Ins(cond << 28 | (0x00c00090 if signed else 0x00800090) | hi << 16 | lo << 12 | rs << 8 | rm, addr, 'mul',
               'smull' if signed else 'umull', cond, {rm, rs}, {lo, hi})


def ldstm(addr, load, rn, regs, cond=AL, wb=0, before=0, up=1):
    e = cond << 28 | 0x08000000 | before << 24 | up << 23 | wb << 21 | load << 20 | rn << 16 | sum(1 << r for r in regs)
    back = {rn} if wb else set()
    if load:
        return Ins(e, addr, 'ldm', 'ldm', cond, {rn}, set(regs) | back)
    return Ins(e, addr, 'stm', 'stm', cond, {rn} | set(regs), back)


def svc(addr, imm, cond=AL):
    return Ins(cond << 28 | 0x0f000000 | imm, addr, 'svc', 'svc', cond)


def random_ins(rng, addr, lo=None, hi=None, cond=None, kinds=None, regs=13):
    """A random well-formed instruction at addr. Direct branch targets lie in [lo, hi] (word aligned)."""
    if cond is None:
        cond = AL if rng.random() < .7 else rng.randrange(14)
    k = rng.choice(kinds or ['dp', 'dp', 'dpi', 'dpi', 'cmp', 'cmpi', 'mov', 'movi', 'ldr', 'str', 'ldrb', 'strb',
                             'ldrh', 'strh', 'ldrr', 'push', 'pop', 'b', 'bl', 'bx', 'mul'])
    r = lambda: rng.randrange(regs)
    if k == 'dp':
        return dp_reg(addr, rng.choice(sorted(DP3)), r(), r(), r(), cond, rng.random() < .2)
    if k == 'dpi':
        return dp_imm(addr, rng.choice(sorted(DP3)), r(), r(), rng.randrange(256), cond, rng.random() < .2)
    if k == 'cmp':
        return cmp_reg(addr, rng.choice(sorted(DPC)), r(), r(), cond)
    if k == 'cmpi':
        return cmp_imm(addr, rng.choice(sorted(DPC)), r(), rng.randrange(256), cond)
    if k == 'mov':
        return mov_reg(addr, r(), r(), cond, rng.random() < .2)
    if k == 'movi':
        return mov_imm(addr, r(), rng.randrange(256), cond, rng.random() < .2)
    if k in ('ldr', 'str', 'ldrb', 'strb'):
        return ldst(addr, 1 if k[0] == 'l' else 0, r(), r(), rng.randrange(0, 1024, 4), cond, 1 if k[-1] == 'b' else 0,
                    rng.randrange(2))
    if k == 'ldrr':
        return ldst(addr, 1, r(), r(), 0, cond, rm=r())
    if k in ('ldrh', 'strh'):
        return ldst_h(addr, 1 if k[0] == 'l' else 0, r(), r(), rng.randrange(0, 256, 2), cond)
    if k in ('push', 'pop'):
        n = rng.randrange(2, 6)
        pool = list(range(12)) + [LR if k == 'push' else PC]
        rs = rng.sample(pool, n)
        return (push if k == 'push' else pop)(addr, rs, cond)
    if k in ('b', 'bl'):
        lo, hi = (addr, addr) if lo is None else (lo, hi)
        t = rng.randrange(lo, hi + 4, 4) if rng.random() < .85 else addr + 4 * rng.randrange(-5000, 5000)
        return branch(addr, t & 0xffffffff, cond, k == 'bl')
    if k == 'bx':
        return bx(addr, rng.choice([LR, LR, r()]), cond)
    if k == 'mul':
        rd = rng.randrange(1, regs)
        return mul(addr, rd, (rd + 1) % regs, r(), cond)
    raise ValueError(k)


BASES = [0, 0x1000, 0x10000, 0x104f8, 0x7ffffff0, 0x80000000, 0xc0008000]


def addresses(rng, n, gaps=False, base=None):
    base = rng.choice(BASES) if base is None else base
    res, a = [], base
    for _ in range(n):
        res.append(a)
        a += 4
        if gaps and rng.random() < .15:
            a += 4 * rng.randrange(1, 40)
    return res


def program(rng, n, gaps=False, base=None, **kw):
    """n random instructions at increasing addresses (a list of Ins)."""
    ad = addresses(rng, n, gaps, base)
    return [random_ins(rng, a, ad[0], ad[-1], **kw) for a in ad]


def function_program(rng, nfun, lo=4, hi=14, base=None, apart=False, **kw):
    """Functions: push ... pop/bx, one after the other or with gaps between them. Returns [(name, [Ins])]."""
    sizes = [rng.randrange(lo, hi) for _ in range(nfun)]
    ad = addresses(rng, sum(sizes), False, base)
    if apart:
        gap, moved = 0, []
        for s in sizes:
            moved += [a + gap for a in ad[len(moved):len(moved) + s]]
            gap += 4 * rng.choice([0, 0, 1, 2, 7])
        ad = moved
    res, k = [], 0
    for f, s in enumerate(sizes):
        a = ad[k:k + s]
        body = [random_ins(rng, x, ad[0], ad[-1], **kw) for x in a]
        style = rng.randrange(4)
        if style == 3 and s > 2:
            # The registers are restored before the return
            saved = rng.sample(range(4, 12), rng.randrange(1, 4))
            body[0] = push(a[0], saved + [LR])
            body[-2] = pop(a[-2], saved + [LR])
            body[-1] = bx(a[-1], LR)
        elif style < 2 and s > 2:
            saved = rng.sample(range(4, 12), rng.randrange(1, 4))
            body[0] = push(a[0], saved + [LR])
            body[-1] = pop(a[-1], saved + [PC])
        else:
            body[-1] = bx(a[-1], LR)
        res.append(('fn%d' % f, body))
        k += s
    return res


def sample_files(repo):
    d = os.path.join(repo, 'tests', 'data')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.disam'))


def caps(ins):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    return CAPSInstruction(ins.enc, ins.addr)


def flip_set(enc, bits):
    """All values enc can take when the given bits are unknown."""
    res = {enc}
    for b in bits:
        res |= {e ^ (1 << b) for e in res}
    return res
