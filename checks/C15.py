"""Program metadata: counts, distances between definition and use, and empty encodings against a reference."""
from mon.core import W
from mon import gen
from semantic_codec.architecture.arm_constants import AReg
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
from semantic_codec.metadata.metadata_collector import MetadataCollector

PROPERTY = 'C15'
RULE = ('random programs of 0..120 instructions (with repeated words, discarded and undefined entries, all condition '
        'fields, coprocessor registers), programs of thousands of instructions and the sample programs; every count and distance recomputed independently. '
        'Non-trivial: some storage has a distance; distinct by program.')
ASSUMPTIONS = ['counts: a fresh collector per program (they add up over several programs)', 'which storages an instruction reads and writes is decided by C13']
LEVEL_NOTE = 'sampled programs, reference computed from positions of writes and reads'
MIN_EVENTS = {'programs': 120, 'distances_compared': 600, 'counts_compared': 2000, 'discarded': 100, 'samples': 4, 'collected_again': 60,
              'long_programs': 12, 'long_distances': 5}


def check(ctx, insts):
    before = [(i.encoding, i.address, i._ignore) if hasattr(i, '_ignore') else (i.encoding, i.address) for i in insts]
    c = MetadataCollector()
    c.collect(insts)
    live = [i for i in insts if not i.ignore]
    ctx.ev('discarded', len(insts) - len(live))
    cond, op, sto = {}, {}, {}
    for i in live:
        cond[i.conditional_field] = cond.get(i.conditional_field, 0) + 1
        op[i.opcode_field] = op.get(i.opcode_field, 0) + 1
        for s in set(i.storages_used()):
            sto[s] = sto.get(s, 0) + 1
    ctx.eq(dict(c.condition_count), cond, 'conditions', 'wrong count of conditions')
    ctx.eq(dict(c.instruction_count), op, 'operations', 'wrong count of operations')
    ctx.eq(dict(c.storage_count), sto, 'storages', 'wrong count of storages')
    ctx.ev('counts_compared', len(cond) + len(op) + len(sto))
    lo, hi, mean = {}, {}, {}
    for s in range(AReg.STORAGE_COUNT):
        written, ds = None, []
        for k, i in enumerate(live):
            if written is not None and s in i.storages_read():
                ds.append(k - written - 1)
                written = None
            if s in i.storages_written():
                written = k
        if ds:
            lo[s], hi[s], mean[s] = min(ds), max(ds), sum(ds) / len(ds)
    ctx.eq(dict(c.storage_min_dist), lo, 'min-distance', 'wrong least distances')
    ctx.eq(dict(c.storage_max_dist), hi, 'max-distance', 'wrong greatest distances')
    ctx.eq(sorted(c.storage_mean_dist), sorted(mean), 'mean-distance', 'wrong mean distances')
    for s in mean:
        ctx.check(abs(c.storage_mean_dist[s] - mean[s]) < 1e-9, 'mean-distance', 'wrong mean distance', storage=s,
                  got=c.storage_mean_dist[s], want=mean[s])
    ctx.ev('distances_compared', 3 * len(lo))
    ctx.eq([i.encoding for i in c.empty_spaces], sorted({i.encoding for i in live}, reverse=True), 'empty-spaces',
           'the used encodings are not listed once each in descending order')
    ctx.eq([(i.encoding, i.address, i._ignore) if hasattr(i, '_ignore') else (i.encoding, i.address) for i in insts],
           before, 'mutated', 'the program was changed')
    return lo, hi, mean, c


def generated(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 8, 30, 120])
    prog = gen.program(rng, n, gaps=rng.random() < .5, cond=rng.choice([None, None, gen.AL]),
                       regs=rng.choice([3, 13]))
    insts = [CAPSInstruction(i.enc, i.addr) for i in prog]
    for k in range(len(insts)):
        x = rng.random()
        if x < .1:
            insts[k] = CAPSInstruction(rng.getrandbits(32), insts[k].address)
        elif x < .2:
            insts[k] = CAPSInstruction(rng.choice(insts).encoding, insts[k].address)
        elif x < .25:
            insts[k] = CAPSInstruction(rng.choice([0xed9f7b04, 0xee377b06, 0xee010f10]), insts[k].address)
        if rng.random() < .1:
            insts[k].ignore = True
    lo, hi, mean, c = check(ctx, insts)
    if rng.random() < .5:
        # Used before for another program
        d = MetadataCollector()
        d.collect([CAPSInstruction(i.enc, i.addr) for i in gen.program(rng, rng.choice([5, 40]), regs=3)])
        d.collect(insts)
        for s in lo:
            ctx.eq((d.storage_min_dist[s], d.storage_max_dist[s]), (lo[s], hi[s]), 'distance-again',
                   'the distances are not those of the program collected last', storage=s)
            ctx.check(abs(d.storage_mean_dist[s] - mean[s]) < 1e-9, 'distance-again',
                      'the mean distance is not that of the program collected last', storage=s)
        ctx.eq([i.encoding for i in d.empty_spaces], [i.encoding for i in c.empty_spaces], 'empty-spaces-again',
               'the used encodings are not those of the program collected last')
        ctx.ev('collected_again')
    ctx.ev('programs')
    ctx.note(instructions=n, storages_with_distance=sorted(lo))
    if lo:
        ctx.distinct([i.encoding for i in insts])


def long(ctx):
    """Thousands of instructions: distances that add up, registers rarely used, lists of many registers."""
    rng = ctx.rng
    n = rng.choice([1200, 2000, 3500])
    insts = [CAPSInstruction(i.enc, i.addr) for i in gen.program(rng, n, cond=rng.choice([None, gen.AL]),
                                                                regs=rng.choice([3, 8]))]
    for r in range(8, 13):
        for k in rng.sample(range(n), rng.choice([2, 5])):
            i = rng.choice([gen.mov_imm(insts[k].address, r, 7), gen.mov_reg(insts[k].address, 0, r),
                            gen.push(insts[k].address, [0, r]), gen.pop(insts[k].address, [1, r])])
            insts[k] = CAPSInstruction(i.enc, i.addr)
    for k in rng.sample(range(n), rng.choice([0, 40])):
        insts[k].ignore = True
    lo, hi, mean, c = check(ctx, insts)
    ctx.ev('long_distances', sum(h > 255 for h in hi.values()))
    ctx.ev('long_programs')
    ctx.note(instructions=n, greatest=max(hi.values()))
    ctx.distinct([i.encoding for i in insts])


def samples(ctx):
    files = gen.sample_files(ctx.repo)
    f = files[ctx.index % len(files)]
    _, insts = ElfioTextDisassembleReader(f).read()
    if len(insts) > 3000:
        insts = insts[:3000]
    check(ctx, insts)
    ctx.ev('samples')
    ctx.note(file=f, instructions=len(insts))


WORKLOADS = [W('generated', generated, 250, 6000), W('long', long, 24, 200), W('samples', samples, 8, 8)]
