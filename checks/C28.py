"""Combining probabilities: intersection and union of independent events, uniform density."""
from itertools import product
from mon.core import W
from semantic_codec.probability.probabilities import indep_events_union, indep_intersection, uniform

PROPERTY = 'C28'
RULE = ('lists of 0..13 probabilities from several distributions (0 and 1 included, repeated values, tiny values), '
        'as list or tuple; ranges for the density. Non-trivial: at least two events; distinct by the list.')
ASSUMPTIONS = ['probabilities lie in [0, 1]; compared to 1e-9']
LEVEL_NOTE = 'sampled lists against the probability summed over all outcomes of the events'
MIN_EVENTS = {'unions': 500, 'intersections': 500, 'laws': 500, 'empty_refused': 20, 'densities': 100, 'unlikely': 50}


def near(a, b):
    return abs(a - b) <= 1e-9


def events(ctx):
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13])
    kind = rng.choice(['uniform', 'grid', 'same', 'tiny', 'high'])
    small = rng.choice([1e-6, 1e-9, 1e-13, 1e-15])
    pick = {'uniform': rng.random, 'grid': lambda: rng.choice([0, 0.25, .5, 1]), 'tiny': lambda: rng.random() * small,
            'high': lambda: 1 - rng.random() * 1e-3}
    p = [rng.random()] * n if kind == 'same' else [pick[kind]() for _ in range(n)]
    given = tuple(p) if rng.random() < .3 else list(p)
    every = any_ = 0.0
    if n <= 10:
        for o in product([True, False], repeat=n):     # all outcomes of the events
            w = 1.0
            for x, q in zip(o, p):
                w *= q if x else 1 - q
            every += w if all(o) else 0
            any_ += w if any(o) else 0
    else:
        every = none = 1.0
        for q in p:
            every *= q
            none *= 1 - q
        any_ = 1 - none
    ctx.note(p=p)
    got = indep_intersection(given)
    ctx.check(near(got, every), 'intersection', 'wrong probability of all events', p=p, got=got, want=every)
    if n > 1:
        ctx.check(abs(got - every) <= 1e-9 * every, 'intersection', 'wrong probability of all events', p=p, got=got,
                  want=every)
    ctx.ev('intersections')
    if n == 0:
        ctx.check(ctx.raises(RuntimeError, indep_events_union, given), 'empty-union', 'no events accepted')
        ctx.ev('empty_refused')
        return
    u = indep_events_union(given)
    ctx.check(near(u, any_), 'union', 'wrong probability of any event', p=p, got=u, want=any_)
    if max(p) * n < 1e-5:
        # of unlikely events: one or the other, very nearly exclusive
        few = sum(p) - (sum(p) ** 2 - sum(x * x for x in p)) / 2
        ctx.check(abs(u - few) <= 1e-9 * few, 'union', 'wrong probability of any event', p=p, got=u, want=few)
        ctx.ev('unlikely')
    ctx.ev('unions')
    ctx.eq(list(given), p, 'mutated', 'the probabilities given were changed')
    q = list(p)
    rng.shuffle(q)
    ctx.check(near(indep_events_union(q), u), 'union-order', 'the union depends on the order', p=p)
    ctx.check(max(p) - 1e-9 <= u <= min(1, sum(p)) + 1e-9, 'union-bounds', 'union out of bounds', p=p, got=u)
    ctx.check(near(1 - indep_events_union([1 - x for x in p]), got), 'de-morgan', 'union and intersection disagree',
              p=p)
    ctx.check(near(indep_events_union(given), u), 'repeat', 'a second union differs', p=p)
    ctx.ev('laws')
    if n > 1:
        ctx.distinct(p)


def density(ctx):
    rng = ctx.rng
    for _ in range(5):
        a = rng.choice([0, rng.randrange(-50, 50), rng.uniform(-5, 5)])
        d = rng.choice([1, rng.randrange(1, 200), rng.uniform(.1, 9)])
        got = uniform(a, a + d)
        ctx.check(abs(got * d - 1) < 1e-6, 'density', 'the density over the range is not one', a=a, b=a + d, got=got)
        ctx.ev('densities')
        ctx.distinct('u', a, d)


WORKLOADS = [W('events', events, 1200, 30000), W('density', density, 60, 500)]
