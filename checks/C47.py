"""Every operation ends: its work grows mildly with the program, and no call nests as deep as the program is long."""
import sys

from mon import gen
from mon.core import W
from checks import battery, recovery
from semantic_codec.corruption.corruption import predict_corruption
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, deinterleave, interleave
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
from semantic_codec.static_analysis.dominators import build_dominator_tree
from semantic_codec.static_analysis.ssa import SSAFormBuilder, build_dominance_frontier

PROPERTY = 'C47'
RULE = ('every operation on programs of one shape (straight, one instruction repeated, changing conditions, diamonds, loops to the start, '
        'nested branches, calls, random) at a size, twice and four times that size, and the codec, Huffman code and DOT text likewise; lines of '
        'the repository executed are counted, and the stack is limited to 100 calls over the caller. Non-trivial: more than a '
        'thousand lines are executed at the largest size; distinct by operation, shape and sizes.')
ASSUMPTIONS = ['work is measured in lines of the repository executed; that of libraries is only limited by the time of a case',
               'enumerations whose result is itself exponential (variations of bits, unions of events, the constraint problem) are left out']
LEVEL_NOTE = 'three sizes per operation and shape; work counted exactly, growth per doubling at most tenfold (a cube is eightfold)'
MIN_EVENTS = {'growths_measured': 150, 'lines_counted': 10000000, 'operations_finished': 300, 'shapes': 60}
CALLS = 100
GROWTH = 10


class TooMuch(BaseException):
    pass


class Counted:
    """Counts the lines of the repository executed, up to a limit, with little stack to nest calls in."""
    def __init__(self, repo, limit):
        self.prefix, self.limit, self.lines = repo + '/', limit, 0

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        self.lines += 1
        if self.lines > self.limit:
            self.limit = 1 << 62
            raise TooMuch()

    def __enter__(self):
        m, depth, f = sys.monitoring, 0, sys._getframe()
        while f:
            depth, f = depth + 1, f.f_back
        self.old = sys.getrecursionlimit()
        m.use_tool_id(3, 'verif-growth')
        m.register_callback(3, m.events.LINE, self._line)
        m.restart_events()
        sys.setrecursionlimit(depth + CALLS)
        m.set_events(3, m.events.LINE)
        return self

    def __exit__(self, *_):
        sys.monitoring.set_events(3, 0)
        sys.setrecursionlimit(self.old)
        sys.monitoring.free_tool_id(3)


def instruction(rng, shape, k, n, base):
    def at(j):
        return base + 4 * max(0, min(n - 1, j))
    a = at(k)
    if shape == 'straight':
        return gen.dp_imm(a, 'add', 1 + k % 11, k % 7, k % 200)
    if shape == 'repeated':
        return gen.mov_imm(a, 1, 2)
    if shape == 'conditions':
        return gen.dp_imm(a, 'add', k % 11, k % 7, k % 200, cond=k % 14) if k % 5 else gen.cmp_imm(a, 'cmp', k % 7, k % 30)
    if shape == 'diamonds':
        return [gen.cmp_imm(a, 'cmp', k % 7, 3), gen.branch(a, at(k + 3), cond=0), gen.mov_imm(a, k % 9, k % 50),
                gen.branch(a, at(k + 2)), gen.dp_imm(a, 'add', k % 9, k % 9, 1)][k % 5]
    if shape == 'loops':
        return gen.branch(a, base, cond=k % 14) if k % 3 == 2 else gen.dp_imm(a, 'sub', k % 9, (k + 1) % 9, 1, s=1)
    if shape == 'nested':
        return gen.branch(a, at(n - 1 - k), cond=1) if k % 2 else gen.dp_imm(a, 'sub', k % 9, (k + 1) % 9, 1, s=1)
    if shape == 'calls':
        return gen.branch(a, at(k * 7 % n), link=True) if k % 2 else gen.ldst(a, k % 4 < 2, k % 9, 13, 4 * (k % 8))
    return gen.random_ins(rng, a, base, base + 4 * n)


SHAPES = ['straight', 'repeated', 'conditions', 'diamonds', 'loops', 'nested', 'calls', 'random']


def spec(rng, shape, n, function):
    base = 0x8000
    ins = [instruction(rng, shape, k, n, base) for k in range(n)]
    words = [[i.addr, i.enc] for i in ins]
    prog = recovery.flips(rng, ins, .4, 3)
    return {'functions': [['f%d' % k, words[k:k + function]] for k in range(0, n, function)],
            'candidates': [[a, v] for a, v in prog.items()], 'packets': 64, 'chunk': 1, 'lost': [5],
            'seed': 7, 'percent': 5, 'queue': [[8, 3]] * n, 'model': None}


def graph(given):
    ins = battery.insts(given)
    g = ARMControlFlowGraph(ins)
    g.build()
    return ins, g


def op_flow(given):
    return len(graph(given)[1].edges())


def op_flow_without_conditions(given):
    g = graph(given)[1]
    g.remove_conditionals()
    return len(g.edges())


def op_dominators(given):
    g = graph(given)[1]
    build_dominator_tree(g, g.root_node)
    build_dominance_frontier(g)
    return sum(len(n.dom_frontier) for n in g)


def op_names(given):
    ins, g = graph(given)
    return len(SSAFormBuilder(ins, g, g.root_node).build().nodes())


OWN = {'flow': op_flow, 'flow_without_conditions': op_flow_without_conditions, 'dominators': op_dominators, 'names': op_names}
SHARED = ['facts', 'read', 'convert', 'packets', 'json', 'metadata', 'recovery', 'rules', 'journey', 'quality', 'report', 'prune',
          'parts', 'older', 'counts', 'modify']


def grows(ctx, name, sizes, do):
    """Does it at each size; `do` gets the size and yields the steps to measure."""
    lines = []
    for n in sizes:
        limit = 4000000 if not lines else GROWTH * max(lines[-1], 3000) + 30000
        step = do(n)
        c = Counted(ctx.repo, limit)
        try:
            with c:
                step()
        except TooMuch:
            ctx.fail('growth', 'the work explodes with the size of the input', operation=name, size=n, sizes=sizes,
                     lines_before=lines, more_than=limit)
        except RecursionError:
            ctx.fail('nesting', 'calls nest as deep as the input is long', operation=name, size=n)
        lines.append(c.lines)
        ctx.ev('operations_finished')
        ctx.ev('lines_counted', c.lines)
    ctx.ev('growths_measured', len(lines) - 1)
    if lines[-1] > 1000:
        ctx.distinct(name, tuple(sizes), lines[-1])
    return lines


def programs(ctx):
    """One shape, one group of operations."""
    rng = ctx.rng
    shape = SHAPES[ctx.index % len(SHAPES)]
    ops = sorted(OWN) if ctx.index // len(SHAPES) % 2 == 0 else rng.sample(SHARED, 4)
    first = rng.randrange(64, 80)
    function = rng.choice([8, 10, 30])
    sizes = [first, 2 * first, 4 * first]
    seen = {}
    ctx.note(shape=shape, sizes=sizes, operations=ops)
    for name in ops:
        def step(n):
            # Branches across functions are fine for the graph; the recovery wants them anywhere
            given = spec(rng, shape, n, function)

            def go():
                if name in OWN:
                    return OWN[name](given)
                r = battery.run(name, given)
                if isinstance(r, list) and r[:1] == ['error']:
                    if r[1] == 'RecursionError':
                        raise RecursionError(r[2])
                    ctx.fail('error', 'an operation fails on a program that is merely long', operation=name, size=n, error=r[1:])
            return go
        seen[name] = grows(ctx, name + ' ' + shape, sizes if name != 'prune' else [n // 2 for n in sizes], step)
    ctx.ev('shapes')
    ctx.note(lines=seen)


def codec(ctx):
    """Packing, predicting and unpacking messages of growing length in growing numbers of packets."""
    rng = ctx.rng
    ws = rng.choice([1, 2, 4, 8])
    first = rng.randrange(20, 40)
    sizes = [first, 2 * first, 4 * first]

    def transmit(n):
        data = [rng.getrandbits(32) for _ in range(n)]

        def go():
            order = [int(x) for x in build_2d_interleave_sp(64, True)]
            p = interleave(data, order, ws)
            p[3] = None
            deinterleave(p, order, ws)
            predict_corruption(64, ws, n, order, [3])
        return go
    ctx.note(chunk=ws, sizes=sizes, lines=grows(ctx, 'transmission', sizes, transmit))
    ctx.note(orders=grows(ctx, 'interleave order', sizes, lambda n: lambda: build_2d_interleave_sp(n * 3, True)))


def trees(ctx):
    """Frequencies that make the code as deep as there are symbols, and texts of long chains."""
    from checks import darm
    darm.stub()
    from semantic_codec.compressor.huffman import encode, huffman_size
    from libs.dot.dotio import read, write
    from pygraph.classes.digraph import digraph
    rng = ctx.rng
    first = rng.randrange(70, 110)
    sizes = [first, 2 * first, 4 * first]

    def deep(n):
        weights, a, b = {}, 1, 1
        for k in range(n):
            weights['s%d' % k] = a
            a, b = b, a + b

        def go():
            huffman_size(weights, encode(weights))
        return go

    def chain(n):
        g = digraph()
        g.add_nodes(['n%d' % k for k in range(n)])
        for k in range(1, n):
            g.add_edge(('n%d' % (k - 1), 'n%d' % k))

        def go():
            back = read(write(g))
            if len(back.edges()) != n - 1:
                ctx.fail('edges', 'the graph read back is not the one written', nodes=n)
        return go
    ctx.note(sizes=sizes, huffman=grows(ctx, 'deep Huffman code', sizes, deep), dot=grows(ctx, 'DOT text', sizes[:2], chain))


WORKLOADS = [W('programs', programs, 64, 640), W('codec', codec, 12, 200), W('trees', trees, 4, 40)]
