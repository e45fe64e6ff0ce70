"""Metadata of a corrupted program: at how many addresses each value is still possible."""
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector

PROPERTY = 'C16'
RULE = ('random corrupted programs (0..20 addresses, 0..16 candidates each, some discarded or undefined), several '
        'programs in a row on one collector. Non-trivial: an address with two live candidates; distinct by program.')
ASSUMPTIONS = []
LEVEL_NOTE = 'sampled programs, counts recomputed from sets per address'
MIN_EVENTS = {'programs': 200, 'counts_compared': 2000, 'reused': 100, 'discarded': 300, 'many_candidates': 20,
              'many_operations': 10}


def generated(ctx):
    rng = ctx.rng
    c = CorruptedProgramMetadataCollector()
    for turn in range(rng.randrange(1, 4)):
        prog = {}
        for i in gen.program(rng, rng.choice([0, 1, 5, 20]), gaps=rng.random() < .5):
            bits = rng.sample(range(32), rng.choice([0, 0, 1, 2, 4]) if rng.random() < .98 else 9)
            encs = sorted(gen.flip_set(i.enc, bits))
            rng.shuffle(encs)
            if len(encs) > 500:
                ctx.ev('many_candidates')
            prog[i.addr] = [CAPSInstruction(e, i.addr) for e in encs]
            many = rng.random() < .01      # candidates of many operations
            if many:
                encs = sorted(gen.flip_set(i.enc, list(range(20, 28)) + rng.sample(range(20), 2)))
                rng.shuffle(encs)
                prog[i.addr] = [CAPSInstruction(e, i.addr) for e in encs]
                ctx.ev('many_operations', len({x.opcode_field for x in prog[i.addr] if not x.ignore}) > 32)
            for x in prog[i.addr]:
                if rng.random() < .2:
                    x.ignore = True
        if prog and rng.random() < .1:
            # Addresses that share their list of candidates
            prog[max(prog) + 4] = prog[min(prog)]
            ctx.ev('shared_lists')
        c.collect(prog)
        want = ({}, {}, {})
        for v in prog.values():
            live = [i for i in v if not i.ignore]
            ctx.ev('discarded', len(v) - len(live))
            for w, vals in zip(want, ({i.conditional_field for i in live}, {i.opcode_field for i in live},
                                      {s for i in live for s in i.storages_used()})):
                for k in vals:
                    w[k] = w.get(k, 0) + 1
        for got, w, name in zip((c.address_with_cond, c.address_with_op, c.address_with_reg), want,
                                ('condition', 'operation', 'register')):
            ctx.eq(dict(got), w, name, 'wrong number of addresses per ' + name, turn=turn)
            ctx.ev('counts_compared', len(w))
        ctx.ev('programs')
        if turn:
            ctx.ev('reused')
        if any(sum(not i.ignore for i in v) > 1 for v in prog.values()):
            ctx.distinct([(a, [(i.encoding, i.ignore) for i in v]) for a, v in prog.items()])
        ctx.note(turn=turn, addresses=len(prog), candidates=sum(map(len, prog.values())))


WORKLOADS = [W('generated', generated, 250, 6000)]
