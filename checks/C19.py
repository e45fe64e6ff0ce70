"""Recovery does not depend on the order of addresses or candidates, and repeats exactly."""
from mon.core import W
from mon import gen
from checks import recovery
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.metadata.metadata_collector import MetadataCollector
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
import recover_program

PROPERTY = 'C19'
RULE = ('the same corrupted program presented in four orders of addresses and candidates, scored and eliminated three '
        'times; scored again without elimination; runs with another program in between. Non-trivial: an address with '
        'two candidates; distinct by program.')
ASSUMPTIONS = ['the program consists of contiguous functions of defined instructions',
               'the original of every address is among its candidates']
LEVEL_NOTE = 'metamorphic: runs compared with each other, scores to 12 decimals'
MIN_EVENTS = {'orders_compared': 300, 'scores_compared': 20000, 'repeats_compared': 100, 'interleaved': 50, 'crowds': 4}


def setting(rng, chain=False):
    fs, outcome = recovery.chain(rng) if chain else (recovery.functions(rng, 3), None)
    ins = [i for _, b in fs for i in b]
    collector = MetadataCollector()
    collector.collect([gen.caps(i) for i in ins])
    return outcome or recovery.flips(rng, ins, .6), collector, {b[0].addr: (b[0].addr, b[-1].addr) for _, b in fs}


def present(rng, outcome, how):
    items = [(a, list(v)) for a, v in outcome.items()]
    if how == 1:
        items.reverse()
        for _, v in items:
            v.reverse()
    elif how > 1:
        rng.shuffle(items)
        for _, v in items:
            rng.shuffle(v)
    return {a: [CAPSInstruction(e, a) for e in v] for a, v in items}


def table(program):
    return {(a, c.encoding): dict(c.scores_by_rule, score=c.score()) for a, v in program.items() for c in v}


def same(ctx, x, y, mech, msg, **kw):
    ctx.eq(sorted(x), sorted(y), mech, msg + ' (candidates)', **kw)
    for k in x:
        ctx.check(sorted(x[k]) == sorted(y[k]) and all(abs(x[k][r] - y[k][r]) < 1e-12 for r in x[k]), mech, msg,
                  addr=hex(k[0]), enc=hex(k[1]), one=x[k], other=y[k], **kw)
    ctx.ev('scores_compared', len(x))


def orders(ctx):
    rng = ctx.rng
    outcome, collector, fns = setting(rng, ctx.index % 5 == 3)
    if ctx.index % 8 == 7 and len(outcome) < 30:
        # Crowds: dozens of candidates side by side
        k = sorted(outcome)
        j = rng.randrange(len(k))
        for a in k[j:j + 3]:
            outcome[a] = sorted(set(outcome[a]) | gen.flip_set(outcome[a][0], rng.sample(range(32), 6)))
        ctx.ev('crowds')
    other, ocollector, ofns = setting(rng)
    progs = [present(rng, outcome, h) for h in range(4)]
    decoy = present(rng, other, 0)
    for turn in range(3 if ctx.index % 5 != 3 else 6):
        tabs = []
        for h, p in enumerate(progs):
            if h == 2:
                ProbabilisticRecuperator(ocollector, decoy, functions=ofns).recover()
                ctx.ev('interleaved')
            ProbabilisticRecuperator(collector, p, functions=dict(fns) if h % 2 else fns).recover()
            tabs.append(table(p))
        for h in (1, 2, 3):
            same(ctx, tabs[0], tabs[h], 'order', 'the scores depend on the order of presentation', turn=turn, order=h)
            ctx.ev('orders_compared')
        ProbabilisticRecuperator(collector, progs[0], functions=fns).recover()
        same(ctx, tabs[0], table(progs[0]), 'repeat', 'scoring again gives other scores', turn=turn)
        ctx.ev('repeats_compared')
        for p in progs:
            for v in p.values():
                recover_program.remove_bad_candidates_at_addr(v)
        if any(len(v) > 1 for v in progs[0].values()):
            ctx.distinct(turn, sorted(tabs[0]))
    ctx.note(addresses=len(outcome), candidates=sum(map(len, outcome.values())), left=sum(map(len, progs[0].values())))


WORKLOADS = [W('orders', orders, 100, 2500)]
