"""The same input gives the same result in every process and after every history."""
import json
import os
import subprocess
import sys
from mon.core import W
from mon import gen
from checks import battery, channel, recovery
from checks.C08 import pick
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp

PROPERTY = 'C45'
RULE = ('every operation of the library (reading, decoding, packets, damage, metadata, rules, recovery, solutions, pruning, flow graphs, names, DOT, '
        'Huffman, compression, bits; 31 in all) on a random program, in a process of its own with another seed for the hashes of '
        'texts, and in a process that has done the same operations on other inputs before (at the same addresses, or different in a single respect), in any order. '
        'Non-trivial: all results compared; distinct by program.')
ASSUMPTIONS = ['where chance is part of an operation, the generator of random numbers starts alike',
               'the result is what can be observed: sets as sets, names of definitions as the definitions they stand for']
LEVEL_NOTE = 'metamorphic: results of one process compared with those of another, figures to nine digits'
MIN_EVENTS = {'processes': 40, 'results_compared': 1500, 'operations_before': 3000, 'repeated': 300}


def words(functions):
    return [gen.Ins(e, a, 'any', 'any', e >> 28) for _, b in functions for a, e in b]


def near(rng, like):
    """An input that differs from another one in a single respect."""
    res = dict(like)
    how = rng.randrange(5)
    if how == 0:
        # Other instructions at the same places
        res['functions'] = [[n, [[a, rng.choice([e, e, 0xe3a00000 | rng.randrange(12) << 12 | rng.randrange(256)])]
                                 for a, e in b]] for n, b in like['functions']]
        res['candidates'] = [[a, v] for a, v in recovery.flips(rng, words(res['functions']), .5).items()]
    elif how == 1:
        res['candidates'] = [[a, v] for a, v in recovery.flips(rng, words(like['functions']), .5).items()]
    elif how == 2:
        for _ in range(30):
            lost = sorted(rng.sample(range(like['packets']), rng.randrange(1, min(like['packets'], 5))))
            ws = rng.choice([1, 2, 4])
            size = len(words(like['functions']))
            order = [int(x) for x in build_2d_interleave_sp(like['packets'], True)]
            lb, (sh, _) = channel.lost_bits(size, ws, order, lost), channel.shifted_lost_bits(size, ws, order, lost)
            if max([len(v) for v in list(lb.values()) + list(sh.values())] or [0]) <= 6:
                res.update(lost=lost, chunk=ws)
                break
    elif how == 3:
        res['model'] = [rng.random() * .98 + .01 for _ in range(30)]
    else:
        res['functions'] = [[n + 'x', b] for n, b in like['functions']]
        res.update(seed=like['seed'] + 1, percent=like['percent'] + 30,
                   queue=[[w, rng.getrandbits(w)] for w, _ in like['queue']])
    return res


def spec(rng, like=None):
    if like is not None and rng.random() < .7:
        return near(rng, like)
    fs = recovery.functions(rng, 3, None if like is None else like['functions'][0][1][0][0])
    functions = [[n, [[i.addr, i.enc] for i in b]] for n, b in fs]
    ins = words(functions)
    n, ws, _, lost = pick(rng, len(ins), 6)
    widths = [rng.randrange(1, 33) for _ in range(rng.randrange(1, 30))]
    return {'model': [rng.random() * .98 + .01 for _ in range(30)] if rng.random() < .3 else None, 'functions': functions, 'candidates': [[a, v] for a, v in recovery.flips(rng, ins, .5).items()],
            'packets': n, 'chunk': ws, 'lost': [int(x) for x in lost], 'seed': rng.randrange(1 << 30),
            'percent': rng.choice([5, 20, 50]), 'queue': [[w, rng.getrandbits(w)] for w in widths]}


def alike(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-9 * max(1, abs(a))
    return a == b


def elsewhere(ctx, names, given):
    """The results of a new process."""
    rng = ctx.rng
    seed = rng.randrange(1, 1 << 32)
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, '-s'] + rng.choice([[], ['-O']]) + [os.path.abspath(battery.__file__)],
                       input=json.dumps({'spec': given, 'names': names}), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       env=env, text=True)
    if p.returncode:
        raise RuntimeError('a process of its own ended with %d: %s' % (p.returncode, p.stderr[-800:]))
    ctx.ev('processes')
    ctx.note(hash_seed=seed)
    return json.loads(p.stdout)


def processes(ctx):
    rng = ctx.rng
    one = spec(rng)
    others = [spec(rng, one) for _ in range(rng.randrange(1, 4))]
    names = list(battery.OPS)
    todo = [(n, k) for n in names for k in range(len(others) + 1)] + [(n, 0) for n in rng.sample(names, 8)]
    rng.shuffle(todo)
    here = {}
    for n, k in todo:
        got = battery.run(n, ([one] + others)[k])
        ctx.ev('operations_before')
        if k == 0:
            if n in here:
                ctx.check(alike(here[n], got), 'history', 'the same operation on the same input gives another result later',
                          operation=n, first=here[n], later=got)
                ctx.ev('repeated')
            here[n] = got
    rng.shuffle(names)
    there = elsewhere(ctx, names, one)
    for n in names:
        ctx.check(alike(here[n], there[n]), 'process', 'another process gives another result', operation=n, here=here[n],
                  there=there[n])
        ctx.ev('results_compared')
        if here[n][:1] == ['error']:
            ctx.ev('errors_alike:' + n)
    ctx.note(instructions=sum(len(b) for _, b in one['functions']), history=len(todo))
    ctx.distinct(one)


WORKLOADS = [W('processes', processes, 80, 900)]
