"""Instruction decoding: condition, operation, text, branch class and target of every 32-bit word."""
from capstone import Cs, CS_ARCH_ARM, CS_MODE_ARM
from mon.core import W
from mon import gen
from semantic_codec.architecture.instruction import Instruction
from semantic_codec.architecture.capstone_instruction import CAPSInstruction

PROPERTY = 'C12'
RULE = ('instructions assembled from ARM architecture templates (their meaning known from the fields) at addresses over '
        'the whole 32-bit space with branch offsets over the whole 24-bit range, and random 32-bit words compared with '
        'a separate disassembly. Non-trivial: the word decodes; distinct by word and address.')
ASSUMPTIONS = ['A32 instruction set, capstone 5 as installed',
               'ADC, SBC and RSC are excluded from the flag oracle of the templates: the installed disassembler reports them '
               'wrong', 'conditions of the unconditional space (field 15) are only compared with the disassembler']
LEVEL_NOTE = 'sampled words; templates give the oracle independently of the disassembler'
MIN_EVENTS = {'templates_decoded': 2000, 'random_words': 2000, 'undefined_words': 100, 'direct_branches': 300,
              'other_branches': 200, 'branch_lookups': 200, 'hex_forms': 500, 'byte_swaps': 500,
              'questions': 5000, 'decoded_lists': 200}


def many(rng, a, cond):
    """A load or store of any number of registers."""
    base = rng.randrange(13)
    regs = rng.sample([x for x in range(16) if x not in (gen.SP, base)], rng.randrange(2, 15))
    load = gen.PC in regs
    k = rng.randrange(3)
    if k == 0:
        return gen.pop(a, regs, cond)
    if k == 1:
        return gen.push(a, (set(regs) - {gen.PC}) | {gen.LR, 4}, cond)
    return gen.ldstm(a, load or rng.randrange(2), base, regs, cond, rng.randrange(2), rng.randrange(2), rng.randrange(2))


def template(rng, a):
    k = rng.randrange(12)
    cond = rng.choice([gen.AL, rng.randrange(15)])
    r = lambda: rng.randrange(15)
    if k < 6:
        return gen.random_ins(rng, a, a - 4000 & 0xfffffffc, (a - 4000 & 0xfffffffc) + 8000, cond)
    if k == 6:
        off = rng.choice([0, 1, -1, 2, -2, 0x7fffff, -0x800000, rng.randrange(-0x800000, 0x800000)])
        if rng.random() < .15:
            # A call of code of the other instruction set, which may be at a half word
            half = rng.randrange(2)
            return gen.Ins(0xfa000000 | half << 24 | off & 0xffffff, a, 'blx', 'blx', gen.AL, (), (),
                           target=a + 8 + 4 * off + 2 * half & 0xffffffff)
        return gen.branch(a, a + 8 + 4 * off, cond, rng.random() < .5)
    if k == 7:
        return gen.bx(a, r(), cond, rng.random() < .5)
    if k == 8:
        return gen.mov_reg(a, gen.PC, r(), cond, s=rng.randrange(2))
    if k == 9:
        return rng.choice([gen.ldst(a, 1, gen.PC, r(), 4 * rng.randrange(64), cond),
                           gen.dp_imm(a, 'add', gen.PC, gen.PC, 4 * rng.randrange(60), cond, rng.randrange(2)),
                           gen.dp_reg(a, rng.choice(['and', 'orr', 'sub']), gen.PC, r(), r(), cond, rng.randrange(2)),
                           gen.dp_imm(a, 'sub', gen.PC, gen.LR, 4, cond, rng.randrange(2)),
                           gen.ldstm(a, 1, rng.randrange(13), [gen.PC, gen.SP, 11], cond), many(rng, a, cond),
                           gen.mov_imm(a, gen.PC, 4 * rng.randrange(60), cond)])
    if k == 10:
        return gen.svc(a, rng.randrange(1 << 24), cond)
    return rng.choice([gen.mla(a, 1 + rng.randrange(12), r() % 13, r() % 13, r() % 13, cond),
                       gen.mull(a, 1, 2, 3, 4, cond), gen.dp_shift(a, 'add', r(), r(), r(), rng.randrange(4),
                                                                  1 + rng.randrange(31), cond)])


def address(rng):
    return rng.choice([0, 4, 0x10000, 0x7ffffffc, 0x80000000, 0xfffffff8, rng.randrange(0, 1 << 32, 4),
                       rng.randrange(0, 1 << 20, 4)])


def templates(ctx):
    rng = ctx.rng
    for _ in range(12):
        ins = template(rng, address(rng))
        c = CAPSInstruction(ins.enc, ins.addr)
        ctx.note(instruction=repr(ins))
        ctx.check(not c.is_undefined and not c.ignore, 'undefined', 'an architectural instruction is undefined',
                  ins=ins)
        ctx.eq(c.encoding, ins.enc, 'encoding', 'the encoding changed', ins=ins)
        ctx.eq(c.address, ins.addr, 'address', 'the address changed', ins=ins)
        ctx.eq(c.conditional_field, ins.cond, 'condition', 'wrong condition', ins=ins)
        if ins.mn not in ('rsc', 'sbc', 'adc'):    # capstone itself reports these wrong
            ctx.eq(bool(c.modifies_flags()), ins.flags,
                   'flags', 'wrong flag update', ins=ins)
        ctx.eq(bool(c.is_branch), bool(ins.branches), 'is-branch', 'wrong branch class', ins=ins, text=str(c))
        ctx.eq(bool(c.is_branch_with_link), ins.kind in ('bl', 'blx'), 'link', 'wrong link class', ins=ins)
        ctx.eq(bool(c.is_push_pop), ins.kind in ('push', 'pop'), 'push-pop', 'wrong push/pop class', ins=ins)
        ctx.eq(c.jumping_address, ins.target, 'target', 'wrong branch target', ins=ins, text=str(c))
        if ins.target is not None:
            ctx.ev('direct_branches')
        elif ins.branches:
            ctx.ev('other_branches')
        if ins.kind in ('push', 'pop', 'b', 'bl', 'bx', 'blx', 'ldr', 'str', 'cmp', 'svc'):
            ctx.check(c.is_a(ins.mn), 'mnemonic', 'the instruction is not recognised by its mnemonic', ins=ins,
                      text=str(c))
            ctx.check(not c.is_a('vfma'), 'mnemonic', 'recognised as another mnemonic', ins=ins)
            for names in (['vfma', ins.mn], ['vfma', 'vfms', ins.mn, 'vfnma']):
                ctx.check(c.is_a(names), 'mnemonic', 'not recognised as one of several mnemonics', ins=ins, names=names)
            ctx.check(not c.is_a(['vfma', 'vfms']), 'mnemonic', 'recognised as one of other mnemonics', ins=ins)
        ctx.ev('templates_decoded')
        ctx.distinct('t', ins.enc, ins.addr)
        # the same word given as text
        h = '%08x' % ins.enc
        spaced = ' '.join(h[i:i + 2] for i in range(0, 8, 2))
        for text in (h, spaced, h.upper()):
            d = CAPSInstruction(text, ins.addr)
            ctx.eq((d.encoding, d.conditional_field, str(d)), (ins.enc, ins.cond, str(c)), 'hex-form',
                   'the word given as text decodes differently', text=text)
            ctx.ev('hex_forms')
        ctx.eq(Instruction(str(ins.enc), ins.addr, Instruction.DEC_STR).encoding, ins.enc, 'decimal-form',
               'a decimal string is read wrong', enc=ins.enc)
        rev = int.from_bytes(ins.enc.to_bytes(4, 'little'), 'big')
        ctx.eq(Instruction.reverse_endianess(ins.enc), rev, 'byte-swap', 'wrong byte order reversal', enc=hex(ins.enc))
        ctx.eq(int(Instruction.reverse_endianess(spaced), 16), rev, 'byte-swap', 'wrong byte order reversal of text',
               text=spaced)
        ctx.eq(Instruction.reverse_endianess(Instruction.reverse_endianess(h)), h, 'byte-swap', 'reversal not involutive')
        ctx.ev('byte_swaps')


def words(ctx):
    rng = ctx.rng
    md = Cs(CS_ARCH_ARM, CS_MODE_ARM)
    md.detail = True
    for _ in range(20):
        enc, a = rng.getrandbits(32), address(rng)
        if rng.random() < .5:
            enc = gen.random_ins(rng, a, 0, 4).enc ^ (1 << rng.randrange(32))
        if rng.random() < .1:
            enc = rng.choice([0, 0xffffffff, 0x0b000000, 0xf0000000, 0xe7f000f0])
        c = CAPSInstruction(enc, a)
        ref = list(md.disasm(enc.to_bytes(4, 'little'), a))
        ctx.ev('random_words')
        ctx.eq(c.is_undefined, not ref, 'undefined', 'definedness differs from the disassembler', enc=hex(enc))
        ctx.eq(c.ignore, not ref, 'undefined', 'an undefined word is not ignored', enc=hex(enc))
        if not ref:
            ctx.ev('undefined_words')
            c.ignore = False
            ctx.check(c.ignore, 'undefined', 'an undefined word can be un-ignored', enc=hex(enc))
            continue
        r = ref[0]
        ctx.eq(str(c), '%s\t%s' % (r.mnemonic, r.op_str), 'text', 'wrong text', enc=hex(enc))
        ctx.eq((c.conditional_field, c.opcode_field), (r.cc - 1, r.id), 'fields', 'wrong condition or operation',
               enc=hex(enc))
        ctx.eq(bool(c.modifies_flags()), bool(r.update_flags), 'flags', 'wrong flag update', enc=hex(enc))
        c.ignore = True
        ctx.check(c.ignore, 'ignore', 'a discarded candidate is not ignored')
        c.ignore = False
        ctx.check(not c.ignore, 'ignore', 'a defined candidate stays ignored')
        ctx.distinct('w', enc, a)
    ctx.note(last=hex(enc))


def lookup(ctx):
    rng = ctx.rng
    prog = gen.program(rng, rng.randrange(5, 40), gaps=rng.random() < .5)
    objs = [CAPSInstruction(i.enc, i.addr) for i in prog]
    at = {i.addr: o for i, o in zip(prog, objs)}
    for i, o in zip(prog, objs):
        want = at.get(i.target) if i.target is not None else None
        ctx.check(o.branch_to(objs) is want, 'branch-to', 'wrong destination instruction', ins=i,
                  got=o.branch_to(objs), want=want)
        ctx.ev('branch_lookups')
    ctx.note(program=len(prog), resolved=sum(i.target in at for i in prog))


QUESTIONS = {
    'conditional_field': lambda c: c.conditional_field, 'opcode_field': lambda c: c.opcode_field,
    'opcode_type': lambda c: c.opcode_type, 'jumping_address': lambda c: c.jumping_address,
    'is_branch': lambda c: bool(c.is_branch), 'is_branch_with_link': lambda c: bool(c.is_branch_with_link),
    'is_push_pop': lambda c: bool(c.is_push_pop), 'modifies_flags': lambda c: bool(c.modifies_flags()),
    'is_undefined': lambda c: c.is_undefined, 'ignore': lambda c: c.ignore, 'text': str,
    'mnemonic': lambda c: bool(c.is_a(['ldr', 'b', 'push'])), 'branch_to': lambda c: c.branch_to([c]) is c,
    'used': lambda c: sorted(c.storages_used()), 'read': lambda c: sorted(c.storages_read()),
    'written': lambda c: sorted(c.storages_written()), 'score': lambda c: c.score(),
    'encoding': lambda c: c.encoding, 'address': lambda c: c.address}


def asked(ctx):
    """Whatever was asked before, of this instruction or of others: the answer is that of a fresh instruction."""
    rng = ctx.rng
    made = []
    for _ in range(rng.randrange(1, 6)):
        ins = template(rng, address(rng))
        if made and rng.random() < .4:      # the same word elsewhere
            ins = template(rng, address(rng))
            made.append((made[0][0], ins.addr, CAPSInstruction(made[0][0], ins.addr)))
            continue
        made.append((ins.enc, ins.addr, CAPSInstruction(ins.enc, ins.addr)))
    for _ in range(60):
        enc, addr, c = rng.choice(made)
        q = rng.choice(sorted(QUESTIONS))
        ctx.eq(QUESTIONS[q](c), QUESTIONS[q](CAPSInstruction(enc, addr)), 'asked', 'the answer depends on what was asked before',
               question=q, enc=hex(enc), addr=hex(addr))
        ctx.ev('questions')
    for enc, addr, c in made:
        ctx.eq((c.encoding, c.address, c.ignore, dict(c.scores_by_rule), list(c.ssa_read), list(c.ssa_written)),
               (enc, addr, False, {}, [], []), 'altered', 'asking altered the instruction', enc=hex(enc), addr=hex(addr))
        ctx.distinct('a', enc, addr)
    ctx.note(instructions=len(made), first=hex(made[0][0]))


def decoded(ctx):
    """A list of words turned into instructions."""
    rng = ctx.rng
    for _ in range(5):
        words = [rng.choice([template(rng, 0).enc, rng.getrandbits(32), 0xffffffff, 0]) for _ in range(rng.randrange(0, 12))]
        given = list(words)
        every = CAPSInstruction.encodings_to_inst(given, return_undefined=True)
        ctx.eq([c.encoding for c in every], words, 'decoded-list', 'words were lost or moved')
        some = CAPSInstruction.encodings_to_inst(given)
        ctx.eq([c.encoding for c in some], [w for w in words if not CAPSInstruction(w, 0).is_undefined], 'decoded-list',
               'not exactly the defined words are returned')
        ctx.eq([str(c) for c in some], [str(CAPSInstruction(c.encoding, 0)) for c in some], 'decoded-list', 'a word is decoded otherwise')
        ctx.eq(given, words, 'mutated', 'the list given was changed')
        ctx.ev('decoded_lists')
        ctx.distinct('l', words)
    ctx.note(words=len(words))


def bad_type(ctx):
    for v in (1.5, None, [1], b'00'):
        ctx.check(ctx.raises(RuntimeError, Instruction, v, 0), 'bad-type', 'an encoding of a wrong type is accepted',
                  value=v)
    ctx.distinct('bad')


WORKLOADS = [W('templates', templates, 400, 12000), W('words', words, 300, 10000), W('lookup', lookup, 60, 1500),
             W('asked', asked, 150, 4000), W('decoded', decoded, 80, 1500),
             W('bad_type', bad_type, 1, 1)]
