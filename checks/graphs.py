"""Reference algorithms on directed graphs given as {node: [successors]}: written from the definitions."""


def reachable(succ, root, without=None):
    seen, todo = set(), [root] if root != without else []
    while todo:
        n = todo.pop()
        if n not in seen and n != without:
            seen.add(n)
            todo += succ[n]
    return seen


def dominators(succ, root):
    """{node: set of its dominators} for the nodes reachable from root: d dominates n if no path avoids d."""
    all_ = reachable(succ, root)
    dom = {n: {n} for n in all_}
    for d in all_:
        for n in all_ - reachable(succ, root, d):
            dom[n].add(d)
    return dom


def idoms(dom):
    """{node: immediate dominator}, None for the root."""
    res = {}
    for n, ds in dom.items():
        strict = ds - {n}
        res[n] = next((d for d in strict if dom[d] >= strict), None)
    return res


def frontiers(succ, dom):
    """{node: its dominance frontier}."""
    res = {n: set() for n in dom}
    for p in dom:
        for n in succ[p]:
            for x in dom[p]:
                if x not in dom[n] or x == n:
                    res[x].add(n)
    return res


def random_graph(rng, n):
    """A digraph on 0..n-1, root 0: sparse, dense, with loops, unreachable parts, sometimes a flow graph."""
    style = rng.choice(['sparse', 'dense', 'flow', 'chain', 'ladder', 'tree'])
    succ = {k: [] for k in range(n)}

    def edge(a, b):
        if b not in succ[a]:
            succ[a].append(b)
    if style in ('sparse', 'dense'):
        for _ in range(n * (2 if style == 'sparse' else 5)):
            edge(rng.randrange(n), rng.randrange(n))
    elif style == 'flow':
        for k in range(n - 1):
            if rng.random() < .85:
                edge(k, k + 1)
            if rng.random() < .5:
                edge(k, rng.randrange(n))
    elif style == 'chain':
        for k in range(n - 1):
            edge(k, k + 1)
        for _ in range(rng.randrange(1, 4)):
            edge(rng.randrange(n), rng.randrange(n))
    elif style == 'ladder':
        for k in range(n - 2):
            edge(k, k + 1)
            edge(k, k + 2)
            if rng.random() < .3:
                edge(k + 1, k)
    else:
        for k in range(1, n):
            edge(rng.randrange(k), k)
        for _ in range(n // 3):
            edge(rng.randrange(n), rng.randrange(n))
    for v in succ.values():
        rng.shuffle(v)
    return succ, style
