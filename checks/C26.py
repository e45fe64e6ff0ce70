"""Dominators and dominance frontiers against their definitions."""
from mon.core import W
from mon import gen
from checks import graphs, C25
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
from semantic_codec.static_analysis.dominators import build_dominator_tree
from semantic_codec.static_analysis.ssa import build_dominance_frontier

PROPERTY = 'C26'
RULE = ('random rooted digraphs of 1..40 nodes (irreducible, loops on the root, self loops, unreachable parts, nodes of many predecessors), in any '
        'order of nodes and edges, computed again after edges changed, and the control flow graphs of random code. '
        'Non-trivial: a node with two predecessors; distinct by graph.')
ASSUMPTIONS = ['frontiers are computed on a graph whose dominators were just computed']
LEVEL_NOTE = 'sampled graphs; dominators by removing each node, frontiers from the definition'
MIN_EVENTS = {'graphs': 300, 'idoms_compared': 3000, 'frontiers_compared': 3000, 'recomputed': 100,
              'unreachable_nodes': 200, 'flow_graphs': 60, 'irreducible_or_root_loops': 50, 'refused': 50, 'deep_graphs': 3, 'fans': 10}


def compare(ctx, g, nodes, succ, root):
    """nodes: list of blocks; succ over indices."""
    tree = build_dominator_tree(g, nodes[root])
    build_dominance_frontier(g)
    ctx.check(g.has_computed_dominators and g.has_computed_dominance_frontier, 'flags',
              'the graph does not say what was computed')
    dom = graphs.dominators(succ, root)
    want = graphs.idoms(dom)
    number = {n: k for k, n in enumerate(nodes)}
    got = {k: number[nodes[k].idom] if nodes[k].idom is not None else None for k in dom}
    ctx.eq(got, want, 'idom', 'wrong immediate dominators', graph=succ)
    ctx.ev('idoms_compared', len(got))
    kids = {k: sorted(x for x in want if want[x] == k) for k in dom}
    ctx.eq({k: sorted(number[x] for x in nodes[k].dom_successors) for k in dom}, kids, 'tree-children',
           'wrong children in the dominator tree', graph=succ)
    ctx.eq(sorted((number[a], number[b]) for a, b in tree.edges()), sorted((d, n) for n, d in want.items()
                                                                           if d is not None),
           'tree', 'the dominator tree is wrong', graph=succ)
    ctx.eq(len(tree.nodes()), len(nodes), 'tree', 'the dominator tree lacks nodes')
    front = graphs.frontiers(succ, dom)
    for k in dom:
        f = [number[x] for x in nodes[k].dom_frontier]
        ctx.eq(sorted(f), sorted(front[k]), 'frontier', 'wrong dominance frontier', node=k, graph=succ)
        ctx.ev('frontiers_compared')
    for k in set(range(len(nodes))) - set(dom):
        ctx.check(nodes[k].idom is None and not nodes[k].dom_frontier and not nodes[k].dom_successors, 'unreachable',
                  'a node that cannot be reached has dominators, dominates or has a frontier', node=k, graph=succ)
        ctx.ev('unreachable_nodes')
    if any(root in v for v in succ.values()):
        ctx.ev('irreducible_or_root_loops')
    ctx.ev('graphs')


def arbitrary(ctx):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 6, 10, 20, 40])
    succ, style = graphs.random_graph(rng, n)
    if rng.random() < .2:
        root = rng.randrange(n)
    else:
        root = 0
    g = ARMControlFlowGraph([])
    ins = CAPSInstruction(0xe1a00000, 0)
    nodes = [CFGBlock([ins]) for _ in range(n)]
    for k, x in enumerate(nodes):
        x.idx = k
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        g.add_node(nodes[k])
    for k in order:
        for s in succ[k]:
            g.add_edge((nodes[k], nodes[s]))
    ctx.check(ctx.raises(RuntimeError, build_dominance_frontier, g), 'too-early',
              'frontiers are computed without dominators')
    ctx.ev('refused')
    ctx.note(style=style, nodes=n, root=root, graph=succ)
    compare(ctx, g, nodes, succ, root)
    if any(sum(k in v for v in succ.values()) > 1 for k in succ):
        ctx.distinct(root, sorted((k, sorted(v)) for k, v in succ.items()))
    for _ in range(rng.randrange(3)):
        for _ in range(rng.randrange(1, 4)):
            a, b = rng.randrange(n), rng.randrange(n)
            if b in succ[a]:
                succ[a].remove(b)
                g.del_edge((nodes[a], nodes[b]))
            else:
                succ[a].append(b)
                g.add_edge((nodes[a], nodes[b]))
        compare(ctx, g, nodes, succ, root)
        ctx.ev('recomputed')


def deep(ctx):
    """Graphs with long rows of nodes: dominators nested deeper than any stack of calls."""
    rng = ctx.rng
    n = rng.choice([1100, 1300]) if not ctx.thorough else rng.choice([1100, 2500])
    succ = {k: [k + 1] if k + 1 < n else [] for k in range(n)}
    for _ in range(rng.choice([0, 3, 30])):
        a = rng.randrange(n)
        b = rng.choice([rng.randrange(n), min(n - 1, a + rng.randrange(2, 9)), max(0, a - rng.randrange(9))])
        if b not in succ[a]:
            succ[a].append(b)
    for v in succ.values():
        rng.shuffle(v)
    g = ARMControlFlowGraph([])
    ins = CAPSInstruction(0xe1a00000, 0)
    nodes = [CFGBlock([ins]) for _ in range(n)]
    for k, x in enumerate(nodes):
        x.idx = k
        g.add_node(x)
    for k, v in succ.items():
        for s in v:
            g.add_edge((nodes[k], nodes[s]))
    ctx.note(nodes=n, extra_edges=sum(len(v) - 1 for v in succ.values()))
    compare(ctx, g, nodes, succ, 0)
    ctx.ev('deep_graphs')
    ctx.distinct('deep', sorted((k, v) for k, v in succ.items()))


def fans(ctx):
    """Nodes with hundreds of predecessors or successors."""
    rng = ctx.rng
    n = rng.choice([70, 140, 300])
    hubs = rng.sample(range(n), 3)
    succ = {k: [] for k in range(n)}
    for k in range(1, n):
        succ[rng.choice([0, hubs[0], rng.randrange(k)]) if rng.random() < .8 else rng.randrange(n)].append(k)
    dom = graphs.dominators(succ, 0)
    for h in hubs:
        # nearly all from below one node, so that one or two edges decide what dominates
        below = rng.choice([0] + [x for x in dom if sum(x in v for v in dom.values()) > 20])
        for k in range(n):
            if (k in dom and below in dom[k] and rng.random() < .9) or rng.random() < .008:
                succ[k].append(h)
    if ctx.index % 2:
        # Every node but one that leads to the hub is below the same one
        succ = {k: [] for k in range(n)}
        succ[0] = [1, 2]
        for k in range(3, n - 1):
            succ[rng.choice([1, 1, rng.randrange(3, k) if k > 3 else 1])].append(k)
        hubs, odd = [n - 1], rng.choice([0, 2])
        for k in [odd] + list(range(3, n - 1)):
            succ[k].append(n - 1)
        if rng.random() < .5:
            succ[n - 1].append(rng.choice([1, 3, n - 2]))
    for k in range(n):
        succ[k] = list(dict.fromkeys(succ[k]))
        rng.shuffle(succ[k])
    g = ARMControlFlowGraph([])
    ins = CAPSInstruction(0xe1a00000, 0)
    nodes = [CFGBlock([ins]) for _ in range(n)]
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        nodes[k].idx = k
        g.add_node(nodes[k])
    for k in order:
        for s in succ[k]:
            g.add_edge((nodes[k], nodes[s]))
    ctx.note(nodes=n, predecessors=max(sum(h in v for v in succ.values()) for h in hubs))
    compare(ctx, g, nodes, succ, 0)
    ctx.ev('fans')
    ctx.distinct('fans', sorted((k, v) for k, v in succ.items()))


def flow(ctx):
    ins = C25.code(ctx.rng)
    g = ARMControlFlowGraph([CAPSInstruction(i.enc, i.addr) for i in ins])
    g.build()
    if ctx.rng.random() < .4:
        g.remove_conditionals()
    nodes = list(g)
    number = {x: k for k, x in enumerate(nodes)}
    succ = {k: [number[s] for s in g.neighbors(x)] for k, x in enumerate(nodes)}
    ctx.note(instructions=len(ins), blocks=len(nodes))
    compare(ctx, g, nodes, succ, number[g.root_node])
    ctx.ev('flow_graphs')
    ctx.distinct('flow', [(i.enc, i.addr) for i in ins])


WORKLOADS = [W('arbitrary', arbitrary, 500, 15000), W('flow', flow, 120, 3000), W('deep', deep, 4, 16),
             W('fans', fans, 24, 300)]
