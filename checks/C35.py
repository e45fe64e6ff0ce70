"""Programs as lists, dictionaries and functions: conversions keep every instruction, in address order."""
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
from semantic_codec.architecture.functions import ElfFunction
from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr, \
    from_instruction_dict_to_list, from_instruction_list_to_dict

PROPERTY = 'C35'
RULE = ('random programs (0..60 instructions, gaps, high addresses, lists and dictionaries in any order, 0..4 '
        'candidates per address), functions in any order, empty ones among them, and the shipped programs. '
        'Non-trivial: an order that is not that of the addresses; distinct by order.')
ASSUMPTIONS = ['one instruction per address in a list', 'the instructions of a function are contiguous and in order']
LEVEL_NOTE = 'object identities compared'
MIN_EVENTS = {'lists': 200, 'dictionaries': 200, 'function_sets': 100, 'empty_functions': 30, 'functions': 300, 'long_functions': 2,
              'shipped': 4}


def ids(l):
    return [id(x) for x in l]


def lists(ctx):
    rng = ctx.rng
    ins = [gen.caps(i) for i in gen.program(rng, rng.choice([0, 1, 2, 9, 60]), gaps=rng.random() < .5)]
    given = list(ins)
    if rng.random() < .7:
        rng.shuffle(given)
    before = ids(given)
    d = from_instruction_list_to_dict(given)
    ctx.eq(ids(given), before, 'mutated', 'the list was changed')
    ctx.eq({a: ids(v) for a, v in d.items()}, {i.address: [id(i)] for i in ins}, 'list-to-dict',
           'the dictionary does not hold each instruction alone at its address')
    ctx.check(len({id(v) for v in d.values()}) == len(d), 'shared', 'two addresses share a list')
    ctx.ev('lists')
    for v in d.values():
        for _ in range(rng.choice([0, 0, 1, 3])):
            v.append(CAPSInstruction(rng.getrandbits(32), v[0].address))
        if rng.random() < .1:
            v.clear()
    keys = list(d)
    rng.shuffle(keys)
    d = {k: d[k] for k in keys}
    snapshot = {k: ids(v) for k, v in d.items()}
    res = from_instruction_dict_to_list(d)
    ctx.eq(ids(res), [id(d[k]) for k in sorted(keys)], 'dict-to-list', 'the candidates are not in address order')
    ctx.eq(({k: ids(v) for k, v in d.items()}, list(d)), (snapshot, keys), 'mutated', 'the dictionary was changed')
    ctx.ev('dictionaries')
    ctx.distinct([i.address for i in given], keys)
    ctx.note(n=len(ins))


def functions_of(ctx, fs, where):
    before = [ids(f.instructions) for f in fs]
    listed, addr = from_functions_to_list_and_addr(fs)
    ctx.eq([ids(f.instructions) for f in fs], before, 'mutated', 'a function was changed')
    ctx.eq(ids(listed), ids(sorted((i for f in fs for i in f.instructions), key=lambda i: i.address)), 'functions',
           'the instructions of the functions are not listed once each by address', where=where)
    full = {f.instructions[0].address: (f.instructions[0].address, f.instructions[-1].address)
            for f in fs if f.instructions}
    got = {k: tuple(v) for k, v in addr.items()}
    ctx.eq(got, full, 'bounds', 'wrong first and last addresses of the functions', where=where)
    for f in fs:
        n = len(f.instructions)
        ctx.eq((f.length_in_bytes(), f.start_addr(), f.final_addr()),
               (4 * n, f.instructions[0].address, f.instructions[-1].address) if n else (0, 0, 0), 'function-bounds',
               'wrong bounds of a function', instructions=n, name=f.name)
        ctx.eq(str(f), f.name, 'name', 'a function has another name')
        ctx.ev('functions')
        ctx.ev('long_functions', n > 1024)
        if not n:
            ctx.ev('empty_functions')
    ctx.ev('function_sets')


def functions(ctx):
    rng = ctx.rng
    fs = []
    for name, body in gen.function_program(rng, rng.randrange(1, 7), 1, rng.choice([2, 8, 20]) if ctx.index % 25 else 1500,
                                           rng.choice([0, 4, 0x1000, 0x7ffffff0, 0xc0000000])):
        f = ElfFunction(name)
        f.instructions = [gen.caps(i) for i in body]
        fs.append(f)
        if rng.random() < .2:
            fs.append(ElfFunction('empty%d' % len(fs)))
    rng.shuffle(fs)
    if rng.random() < .1:
        fs = [ElfFunction()]
        ctx.check(fs[0].instructions is not ElfFunction().instructions, 'shared', 'two functions share instructions')
    functions_of(ctx, fs, 'generated')
    ctx.distinct([(f.name, f.start_addr(), len(f.instructions)) for f in fs])
    ctx.note(functions=len(fs))


def shipped(ctx):
    f = setup.files[ctx.index % len(setup.files)]
    functions_of(ctx, ElfioTextDisassembleReader(f).read_functions(), f)
    ctx.ev('shipped')
    ctx.distinct(f)
    ctx.note(file=f)


def setup(repo):
    setup.files = gen.sample_files(repo)


WORKLOADS = [W('lists', lists, 250, 6000), W('functions', functions, 200, 4000), W('shipped', shipped, 8, 8)]
