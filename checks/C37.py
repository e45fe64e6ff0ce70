"""Field modifiers: the field asked for gets the value, every other bit stays."""
from mon.core import W
from mon import gen
from checks import darm
darm.stub()
from semantic_codec.architecture.instruction_modifier import InstructionModifier   # noqa: E402
from semantic_codec.architecture.capstone_instruction import CAPSInstruction   # noqa: E402

PROPERTY = 'C37'
RULE = ('random words and instructions from architecture templates, every value of the 4-bit fields, random immediates, '
        'values with bits beyond the field, chains of modifications. Non-trivial: the field changes; distinct by word, '
        'field and value.')
ASSUMPTIONS = ['bits of the value beyond the field are not used',
               'a load or store with an immediate offset (class 010) has a 12-bit immediate, others 8 bits']
LEVEL_NOTE = 'every field value enumerated per word; the rest of the word compared bit by bit'
MIN_EVENTS = {'modifications': 10000, 'decoded': 1000, 'chains': 50, 'wide_values': 500}

FIELDS = {'modify_cond': 28, 'modify_opcode': 21, 'modify_rn': 16, 'modify_rd': 12, 'modify_rs': 8, 'modify_rm': 0}


def want(name, enc, v):
    if name == 'modify_immediate':
        n = 12 if enc >> 25 & 7 == 2 else 8
        return enc >> n << n | v & ((1 << n) - 1)
    s = FIELDS[name]
    return enc & ~(15 << s) & 0xffffffff | (v & 15) << s


def one(ctx, m, name, enc, v):
    got = getattr(m, name)(enc, v)
    ctx.eq(got, want(name, enc, v), 'field', 'not exactly the field was changed', field=name, word=hex(enc), value=v)
    ctx.ev('modifications')
    if got != enc:
        ctx.distinct(name, enc, v)
    return got


def words(ctx):
    rng = ctx.rng
    m = InstructionModifier()
    enc = rng.choice([0, 0xffffffff, rng.getrandbits(32), rng.getrandbits(32), gen.random_ins(rng, 0x1000).enc])
    for name in FIELDS:
        for v in range(16):
            one(ctx, m, name, enc, v)
        one(ctx, m, name, enc, v | rng.getrandbits(28) << 4)
        ctx.ev('wide_values')
    for v in [0, 255, 256, 4095, rng.randrange(256), rng.randrange(4096), rng.getrandbits(32)]:
        one(ctx, m, 'modify_immediate', enc, v)
    e = enc
    for _ in range(rng.randrange(2, 20)):
        e = one(ctx, m, rng.choice(sorted(FIELDS) + ['modify_immediate']), e, rng.getrandbits(rng.choice([4, 12])))
    ctx.ev('chains')
    ctx.note(word=hex(enc))


def meaning(ctx):
    """The changed instruction means what was asked."""
    rng = ctx.rng
    m = InstructionModifier()
    for _ in range(10):
        rd, rn, rm = rng.sample(range(13), 3)
        i = gen.dp_reg(0x1000, 'eor', rd, rn, rm)
        r, cond = rng.randrange(13), rng.randrange(15)
        for name, back in (('modify_rd', gen.dp_reg(0x1000, 'eor', r, rn, rm)),
                           ('modify_rn', gen.dp_reg(0x1000, 'eor', rd, r, rm)),
                           ('modify_rm', gen.dp_reg(0x1000, 'eor', rd, rn, r))):
            c = CAPSInstruction(one(ctx, m, name, i.enc, r), 0x1000)
            ctx.eq((set(c.storages_read()), set(c.storages_written()), str(c)),
                   (set(back.reads), set(back.writes), str(gen.caps(back))), 'meaning', 'another instruction resulted',
                   field=name)
            ctx.ev('decoded')
        c = CAPSInstruction(one(ctx, m, 'modify_cond', i.enc, cond), 0x1000)
        ctx.eq(c.conditional_field, cond, 'meaning', 'another condition resulted')
        ops = ['and', 'eor', 'sub', 'rsb', 'add', 'adc', 'sbc', 'rsc', None, None, None, None, 'orr', None, 'bic']
        op = rng.choice([k for k, o in enumerate(ops) if o])
        c = CAPSInstruction(one(ctx, m, 'modify_opcode', i.enc, op), 0x1000)
        ctx.eq((c.encoding, str(c).split()[0]), (gen.dp_reg(0x1000, ops[op], rd, rn, rm).enc, ops[op]), 'meaning',
               'another operation resulted', asked=ops[op])
        p = gen.mul(0x1000, rd, rn, rm)
        c = CAPSInstruction(one(ctx, m, 'modify_rs', p.enc, r), 0x1000)
        ctx.check(str(c).startswith('mul') and r in c.registers_read(), 'meaning', 'another multiplication resulted',
                  text=str(c), register=r)
        d, n = gen.dp_imm(0x1000, 'add', rd, rn, 1), rng.randrange(256)
        ctx.eq(one(ctx, m, 'modify_immediate', d.enc, n), gen.dp_imm(0x1000, 'add', rd, rn, n).enc, 'meaning',
               'another constant resulted')
        l = gen.ldst(0x1000, rng.randrange(2), rd, rn, 8)
        off = rng.randrange(4096)
        ctx.eq(one(ctx, m, 'modify_immediate', l.enc, off), gen.ldst(0x1000, l.enc >> 20 & 1, rd, rn, off).enc,
               'meaning', 'another offset resulted')
        ctx.ev('decoded')
    ctx.note(rd=rd, rn=rn, rm=rm)


WORKLOADS = [W('words', words, 150, 4000), W('meaning', meaning, 40, 1000)]
