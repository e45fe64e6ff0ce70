"""Discarded candidates have no influence on the scores and the elimination of the others."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount
from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
import recover_program

PROPERTY = 'C40'
RULE = ('random programs of functions with 1..16 candidates per address of which up to all are discarded (marked or '
        'undefined), scored by the recovery and by the single rules: against the same program without the discarded '
        'ones, and with other instructions in their place. Non-trivial: a discarded candidate beside a live one; '
        'distinct by program and choice of discarded candidates.')
ASSUMPTIONS = ['the original of an address is discarded only together with all its candidates, and the metadata is that of the other addresses',
               'the program consists of contiguous functions starting at its first address']
LEVEL_NOTE = 'metamorphic: two executions on programs that differ only in discarded candidates'
MIN_EVENTS = {'scores_compared': 5000, 'rule_scores_compared': 3000, 'discarded': 2000, 'all_discarded': 50, 
              'survivors_compared': 1000, 'left_on_the_way': 500}

RULES = [ControlFlowBehavior, ConditionalCount, InstructionCount, RegisterCount, RegisterReadDistance]


def instance(outcome, dead, mode, rng):
    """mode: 'marked' (dead ones discarded), 'removed', 'replaced' (other words in their place)."""
    res = {}
    for a, v in outcome.items():
        res[a] = []
        for e in v:
            gone = (a, e) in dead
            if gone and mode == 'removed':
                continue
            if gone and mode == 'replaced':
                e = rng.choice([rng.getrandbits(32), gen.random_ins(rng, a, a, a).enc, 0xe92d4010, 0xeafffffe])
            c = CAPSInstruction(e, a)
            if gone:
                c.ignore = True
            res[a].append(c)
    return res


def live_of(p):
    return {a: [c for c in v if not c.ignore] for a, v in p.items()}


def frames(rng, fs, outcome):
    """Functions that begin with one of several pushes and end with one of several pops."""
    for _, b in fs:
        if len(b) < 2:
            continue
        lists = [rng.choice([0x8, 0x10, 0x30, 0x70, 0xff0]) for _ in range(2)]
        for at, word, extra in ((b[0], 0xe92d0000, 0x4000), (b[-1], 0xe8bd0000, 0x8000)):
            at.enc = word | lists[0] | extra
            v = {at.enc, word | lists[1] | extra, word | lists[0], at.enc ^ 0x100000, 0xe1a00000 | rng.getrandbits(3)}
            v = [at.enc] + rng.sample(sorted(v - {at.enc}), rng.randrange(1, len(v)))
            rng.shuffle(v)
            outcome[at.addr] = [e for e in v if not CAPSInstruction(e, at.addr).is_undefined]


def ends(ctx):
    pair(ctx, True)


def pair(ctx, framed=False):
    rng = ctx.rng
    fs = recovery.functions(rng, 4)
    ins = [i for _, b in fs for i in b]
    outcome = recovery.flips(rng, ins, rng.choice([.4, .8]))
    if framed:
        frames(rng, fs, outcome)
    share = rng.choice([.1, .3, .7])
    dead = set()
    orig = {i.addr: i.enc for i in ins}
    whole = {i.addr for i in rng.sample(ins, min(len(ins), rng.choice([0, 1, 2])))} if rng.random() < .5 else set()
    for a, v in outcome.items():
        for e in v:
            if a in whole or (e != orig[a] and rng.random() < share):
                dead.add((a, e))
            elif CAPSInstruction(e, a).is_undefined:
                dead.add((a, e))
    for a, v in outcome.items():
        k = sum((a, e) in dead for e in v)
        ctx.ev('discarded', k)
        if k == len(v):
            ctx.ev('all_discarded')
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins if i.addr not in whole])
    fns = {b[0].addr: (b[0].addr, b[-1].addr) for _, b in fs}
    other = rng.choice(['removed', 'removed', 'replaced'])
    one, two = instance(outcome, dead, 'marked', rng), instance(outcome, dead, other, rng)
    # single rules
    for R in RULES:
        res = []
        for p in (one, two):
            r = R(p, collector=collector)
            for a in sorted(p):
                if p[a]:
                    r.recover(a)
            res.append({a: [c.scores_by_rule.get(R.short_name() + '1') for c in v] for a, v in live_of(p).items()})
        for a in res[0]:
            ctx.eq(res[0][a], res[1][a], 'rule-influenced', 'a discarded candidate changes the scores of a rule',
                   rule=R.short_name(), addr=hex(a), other=other)
            ctx.ev('rule_scores_compared', len(res[0][a]))
    for p in (one, two):
        for v in p.values():
            for c in v:
                c.scores_by_rule.clear()
    # the whole recovery, pass by pass
    for turn in range(3):
        for p in (one, two):
            ProbabilisticRecuperator(collector, p, functions=fns).recover()
        x, y = live_of(one), live_of(two)
        for a in x:
            sx = [(c.encoding, dict(c.scores_by_rule), c.score()) for c in x[a]]
            sy = [(c.encoding, dict(c.scores_by_rule), c.score()) for c in y[a]]
            ctx.eq(sx, sy, 'influenced', 'a discarded candidate changes the scores of others', addr=hex(a), turn=turn,
                   other=other)
            ctx.ev('scores_compared', len(sx))
        for p in (one, two):
            for a, v in p.items():
                recover_program.remove_bad_candidates_at_addr(v)
        x, y = live_of(one), live_of(two)
        ctx.eq({a: [c.encoding for c in v] for a, v in x.items()}, {a: [c.encoding for c in v] for a, v in y.items()},
               'survivors-influenced', 'a discarded candidate changes who survives', turn=turn, other=other)
        ctx.ev('survivors_compared', sum(map(len, x.values())))
        if framed or rng.random() < .5:
            # Some are discarded on the way, with the scores they had
            for a in x:
                for c, d in zip(x[a], y[a]):
                    if c.encoding != orig[a] and rng.random() < (.6 if framed else .3):
                        c.ignore = True
                        if other == 'removed':
                            two[a][:] = [e for e in two[a] if e is not d]
                        else:
                            d.ignore = True
                            d.scores_by_rule.clear()
                        ctx.ev('left_on_the_way')
    if dead:
        ctx.distinct(sorted((a, v) for a, v in outcome.items()), sorted(dead), other)
    ctx.note(addresses=len(ins), candidates=sum(map(len, outcome.values())), dead=len(dead), other=other)


WORKLOADS = [W('pair', pair, 240, 4000), W('ends', ends, 300, 4000)]
