"""Quality of a solution: number of solutions, bits, bins and depth, whatever is asked first."""
import math
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.solution.solution_quality import SolutionQuality

PROPERTY = 'C24'
RULE = ('random programs with 1..20 candidates per address with scores from a coarse grid (ties included), undefined '
        'originals, zero words; the four figures, evaluate() and report() asked in random orders, then judged again after candidates left. Non-trivial: an '
        'address with several candidates; distinct by program and scores.')
ASSUMPTIONS = ['depth: every address has a candidate and a defined original is among its candidates',
               ]
LEVEL_NOTE = 'sampled programs, figures recomputed in integer arithmetic'
MIN_EVENTS = {'figures_compared': 1000, 'depths_compared': 200, 'orders': 150, 'huge_counts': 20, 'ties': 100, 'judged_again': 100,
              'no_candidate': 50,
              'many_addresses': 4, 'long_lists': 30}


def model(prog, orig):
    bins, count = {}, 1
    for v in prog.values():
        bins[len(v)] = bins.get(len(v), 0) + 1
        count *= len(v)
    depth = 0
    for o in orig:
        if o.ignore:
            continue
        v = sorted(prog[o.address], key=lambda c: (-c.score(), c.encoding))
        rank = next(k for k, c in enumerate(v) if str(c) == str(o))
        depth = max(depth, (rank + 1) / len(v))
    return {'solution_count': count, 'solution_size': sum(math.log2(len(v)) for v in prog.values()),
            'solution_count_bins': bins, 'highest_depth': depth}


def reduce(rng, prog, orig):
    """What a pass of the recovery may do: some candidates go, some scores change."""
    encs = {o.address: o.encoding for o in orig}
    for a, v in prog.items():
        share = rng.choice([0, .3, .9])
        keep = [c for c in v if c.encoding == encs[a] or rng.random() >= share]
        if rng.random() < .5:
            prog[a] = keep
        else:
            v[:] = keep
        if rng.random() < .3:
            for c in keep:
                c.scores_by_rule['x'] = rng.choice([0, .25, .5, 1])


def quality(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 20, 80] * 4 + [300])
    long = n <= 20 and rng.random() < .15
    if n > 100:
        ctx.ev('many_addresses')
    ins = gen.program(rng, n, gaps=rng.random() < .3)
    orig = [gen.caps(i) for i in ins]
    if rng.random() < .3:
        k = rng.randrange(n)
        orig[k] = CAPSInstruction(0xffffffff, orig[k].address)
    if rng.random() < .2:
        k = rng.randrange(n)
        orig[k] = CAPSInstruction(0, orig[k].address)
    prog = {}
    for o in orig:
        k = rng.choice([1, 2] if n > 100 else [1, 130, 300] if long else [1, 1, 2, 3, 5, 8, 20])
        ctx.ev('long_lists', k > 99)
        encs = {o.encoding}
        while len(encs) < k:
            encs.add(rng.choice([rng.getrandbits(32), o.encoding ^ (1 << rng.randrange(32)),
                                 o.encoding ^ (rng.getrandbits(32) & 0xfff)]))
        if rng.random() < .03:
            encs.add(0)
        encs = sorted(encs)
        rng.shuffle(encs)
        prog[o.address] = [CAPSInstruction(e, o.address) for e in encs]
        grid = rng.choice([[.5], [0, 1], [0, .25, .5, 1], [k / 1000 for k in range(1000)],
                           [.5, .5 + 1e-12, .5 - 1e-13, 1e-15, 1e-20]])
        for c in prog[o.address]:
            c.scores_by_rule['x'] = rng.choice(grid)
        scores = [c.score() for c in prog[o.address]]
        if len(set(scores)) < len(scores):
            ctx.ev('ties')
    if rng.random() < .4:
        items = list(prog.items())
        rng.shuffle(items)
        prog = dict(items)
    content = {a: sorted(c.encoding for c in v) for a, v in prog.items()}
    figures = model(prog, orig)
    count, size, depth = figures['solution_count'], figures['solution_size'], figures['highest_depth']
    q = SolutionQuality(prog, orig)
    asked = [rng.choice(sorted(figures) + ['evaluate', 'report']) for _ in range(rng.randrange(2, 9))]
    for name in asked + sorted(figures, key=lambda _: rng.random()):
        if name in ('evaluate', 'report'):
            getattr(q, name)()
            continue
        got, want = getattr(q, name), figures[name]
        if isinstance(want, float):
            ok = abs(got - want) <= 1e-9 * max(1, abs(want))
        else:
            ok = got == want
        ctx.check(ok, name, 'wrong ' + name.replace('_', ' '), got=got, want=want, asked=asked,
                  sizes=sorted(map(len, prog.values())))
        ctx.ev('figures_compared')
        if name == 'highest_depth':
            ctx.ev('depths_compared')
    ctx.eq({a: sorted(c.encoding for c in v) for a, v in prog.items()}, content, 'mutated',
           'judging the program changed its candidates')
    ctx.ev('orders')
    for _ in range(rng.choice([0, 1, 1, 2])):
        reduce(rng, prog, orig)
        q.evaluate()
        for name, want in model(prog, orig).items():
            got = getattr(q, name)
            ctx.check(abs(got - want) <= 1e-9 * max(1, abs(want)) if isinstance(want, float) else got == want,
                      'again-' + name, 'wrong ' + name.replace('_', ' ') + ' when judged again after candidates left',
                      got=got, want=want, asked=asked)
            ctx.ev('figures_compared')
        ctx.ev('judged_again')
    if count > 1 << 64:
        ctx.ev('huge_counts')
    ctx.note(addresses=n, count=count, bits=size, depth=depth, asked=asked)
    if count > 1:
        ctx.distinct(sorted(content.items()), [round(c.score(), 6) for v in prog.values() for c in v])


def no_candidate(ctx):
    """An address lost all its candidates: there is no solution, and the bins say where they went."""
    rng = ctx.rng
    ins = gen.program(rng, rng.choice([1, 3, 20]))
    orig = [gen.caps(i) for i in ins]
    prog = {}
    for o in orig:
        encs = sorted({o.encoding} | {rng.getrandbits(32) for _ in range(rng.choice([0, 1, 3]))})
        prog[o.address] = [CAPSInstruction(e, o.address) for e in encs]
    gone = rng.sample(sorted(prog), rng.randrange(1, len(prog) + 1))
    for a in gone:
        prog[a] = []
    bins = {}
    for v in prog.values():
        bins[len(v)] = bins.get(len(v), 0) + 1
    q = SolutionQuality(prog, orig)
    want = {'solution_count': 0, 'solution_count_bins': bins, 'solution_size': 0}
    for name in [rng.choice(sorted(want)) for _ in range(3)] + sorted(want):
        ctx.eq(getattr(q, name), want[name], 'none-' + name, 'wrong figure when an address has no candidate', figure=name)
        ctx.ev('figures_compared')
    ctx.ev('no_candidate')
    ctx.note(addresses=len(prog), without=len(gone))
    ctx.distinct('none', sorted(bins.items()), len(gone))


WORKLOADS = [W('quality', quality, 250, 6000), W('no_candidate', no_candidate, 60, 600)]
