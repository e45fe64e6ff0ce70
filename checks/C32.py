"""Graphs written in the dot language: nothing is lost or invented, and reading gives the graph back."""
import io
import sys
import pydot
from mon.core import W
from mon import gen
from checks import C25
from libs.dot.dotio import read, read_hypergraph, write, write_hypergraph
from pygraph.classes.digraph import digraph
from pygraph.classes.exceptions import InvalidGraphType
from pygraph.classes.graph import graph
from pygraph.classes.hypergraph import hypergraph
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph

PROPERTY = 'C32'
RULE = ('random directed and undirected graphs of 0..30 nodes (loops, edges both ways, numbers and names with spaces, '
        'dashes and shared prefixes, labels, weights, attributes), hypergraphs, control flow graphs of random code, and texts '
        'of others, parsed again with pydot and with the reader. Non-trivial: an edge; distinct by graph.')
ASSUMPTIONS = ['names do not contain quotes, colons or backslashes and are no words of the language',
               'names, labels and weights come back as text, as the language has it']
LEVEL_NOTE = 'sampled graphs compared edge by edge with what an independent parser sees'
MIN_EVENTS = {'written': 300, 'edges_compared': 3000, 'attributes_compared': 300, 'read_back': 100, 'hypergraphs': 50, 'many_hyperedges': 5, 'links_both_ways': 15,
              'flow_graphs': 30, 'refused': 5, 'undirected': 50, 'texts_refused': 15,
              'quoted_names_read': 40, 'texts_read': 60, 'implicit_nodes': 50}
PLAIN = ['a', 'b', 'ab', 'n1', 'n12', 'n_1', 'A', 'x', 'y', 'z9', 'main', 'loop', 'end_', 'r0', 'r1', 'r10', 'aa', 'ba']
ODD = ['a-b', 'a', 'b', 'a-b-c', 'b-c', 'c', 'x y', 'x', 'y', ' <3> ', '0-ROOT', '12-END', '3- mov\tr0, r1 ... b\t#0x20',
       '4-str\tr0, [sp, #-4]!', '7-push\t{r3, lr}', 1, 2, 12, 3, 10, 0]


def bare(s):
    s = str(s)
    return s[1:-1] if len(s) > 1 and s[0] == s[-1] == '"' else s


def dot(name):
    return '"%s"' % name


def random_graph(rng, names, directed):
    g = digraph() if directed else graph()
    ns = list(dict.fromkeys(rng.sample(names, rng.randrange(0, len(names) + 1))))
    seen, nodes = set(), []
    for n in ns:
        if str(n) not in seen:
            seen.add(str(n))
            nodes.append(n)
            g.add_node(n)
            while rng.random() < .2:
                g.add_node_attribute(n, (rng.choice(['color', 'shape', 'note']), rng.choice(['red', 'blue', 'a b', 7])))
    if nodes:
        for _ in range(rng.choice([0, 1, len(nodes), 3 * len(nodes)])):
            e = (rng.choice(nodes), rng.choice(nodes))
            if rng.random() < .1:
                e = (e[0], e[0])
            if g.has_edge(e):
                continue
            g.add_edge(e, wt=rng.choice([1, 1, 2, 5, 0, 3.5, -1, 1234567, 0.123456789, 1 << 70]),
                       label=rng.choice(['', '', 'yes', 'if not', 'x1', 0, 2, ' x ', 'a  b']))
            while rng.random() < .2:
                g.add_edge_attribute(e, (rng.choice(['style', 'color']), rng.choice(['dotted', 'red', 'a b'])))
    return g


def norm(pairs):
    return {str(k): bare(v) for k, v in pairs}


def expect(g, weighted):
    nodes = {str(n): norm(g.node_attributes(n)) for n in g.nodes()}
    edges = {}
    for a, b in g.edges():
        if not g.DIRECTED and (str(b), str(a)) in edges:
            continue
        at = norm(g.edge_attributes((a, b)))
        if str(g.edge_label((a, b))):
            at['label'] = str(g.edge_label((a, b)))
        elif weighted:
            at['label'] = str(g.edge_weight((a, b)))
        if weighted:
            at['weight'] = str(g.edge_weight((a, b)))
        edges[(str(a), str(b))] = at
    return nodes, edges


def parse(ctx, text):
    d = pydot.graph_from_dot_data(text)
    ctx.check(d and len(d) == 1, 'unparsable', 'what was written is not in the dot language', text=text)
    d = d[0]
    nodes, edges = {}, {}
    for n in d.get_nodes():
        name = bare(n.get_name())
        if name in ('\\n', '\\r\\n'):
            continue
        ctx.check(name not in nodes, 'node-twice', 'a node is written twice', node=name)
        nodes[name] = norm(n.get_attributes().items())
    for e in d.get_edges():
        k = (bare(e.get_source()), bare(e.get_destination()))
        ctx.check(k not in edges, 'edge-twice', 'an edge is written twice', edge=k)
        edges[k] = norm(e.get_attributes().items())
    return d.get_type(), nodes, edges


def fold(edges, directed):
    return edges if directed else {tuple(sorted(k)): v for k, v in edges.items()}


def check_written(ctx, g, directed, weighted):
    nodes, edges = expect(g, weighted)
    text = write(g, weighted)
    kind, n, e = parse(ctx, text)
    ctx.eq(kind, 'digraph' if directed else 'graph', 'kind', 'written as another kind of graph')
    ctx.eq(sorted(n), sorted(nodes), 'nodes', 'nodes lost or invented', text=text)
    ctx.eq(n, nodes, 'node-attributes', 'attributes of nodes lost or changed', text=text)
    e, edges = fold(e, directed), fold(edges, directed)
    ctx.eq(sorted(e), sorted(edges), 'edges', 'edges lost or invented', text=text)
    ctx.eq(e, edges, 'edge-attributes', 'attributes of edges lost or changed', text=text)
    ctx.ev('written')
    ctx.ev('edges_compared', len(edges))
    ctx.ev('attributes_compared', sum(map(len, nodes.values())) + sum(map(len, edges.values())))
    if edges:
        ctx.distinct(directed, weighted, sorted(nodes), sorted(edges.items(), key=repr))
    return text


def graphs(ctx):
    rng = ctx.rng
    directed = rng.random() < .6
    plain = rng.random() < .5
    g = random_graph(rng, PLAIN if plain else ODD, directed)
    weighted = rng.random() < .5
    before = expect(g, True)
    text = check_written(ctx, g, directed, weighted)
    ctx.eq(write(g, weighted), text, 'repeat', 'writing again gives something else')
    ctx.eq(expect(g, True), before, 'mutated', 'writing changed the graph')
    if not directed:
        ctx.ev('undirected')
    if g.nodes():
        r = read(text)
        ctx.check(type(r) is type(g), 'read-kind', 'read as another kind of graph')
        want_n, want_e = expect(g, weighted)
        ctx.eq({n: {k: str(v) for k, v in r.node_attributes(n)} for n in r.nodes()}, want_n, 'read-nodes', 'nodes differ after reading')
        ctx.eq(sorted(tuple(map(str, e)) for e in r.edges()), sorted(tuple(map(str, e)) for e in g.edges()),
               'read-edges', 'edges differ after reading', text=text)
        for e in g.edges():
            a, b = map(str, e)
            at = {k: str(v) for k, v in r.edge_attributes((a, b))}
            if r.edge_label((a, b)):
                at['label'] = str(r.edge_label((a, b)))
            w = want_e[(a, b)] if (a, b) in want_e else want_e[(b, a)]
            if weighted:
                at['weight'] = str(r.edge_weight((a, b)))
            ctx.eq(at, w, 'read-attributes', 'attributes differ after reading', edge=(a, b), text=text)
        ctx.ev('read_back')
        if not plain:
            ctx.ev('quoted_names_read')
    ctx.note(directed=directed, weighted=weighted, nodes=len(g.nodes()), edges=len(g.edges()))


def hypergraphs(ctx):
    rng = ctx.rng
    h = hypergraph()
    names = rng.sample(PLAIN, len(PLAIN)) if rng.random() < .6 else \
        rng.sample(list(dict.fromkeys(map(str, ODD))), len(set(map(str, ODD))))
    ns, es = names[:rng.randrange(0, 9)], names[9:9 + rng.randrange(0, 8)]
    if rng.random() < .2:
        # More hyperedges than there are colours
        es += ['more%d' % k for k in range(rng.randrange(10, 60))]
        ctx.ev('many_hyperedges')
    h.add_nodes(ns)
    links = {}
    for e in es:
        h.add_hyperedge(e)
        links[e] = rng.sample(ns, rng.randrange(0, len(ns) + 1))
        for n in links[e]:
            h.link(n, e)
    colored = rng.random() < .5
    text = write_hypergraph(h, colored) if rng.random() < .7 else write(h)
    if rng.random() < .4:
        # A link may as well be written from the node to the hyperedge, and in any order
        lines = ['graph h {'] + ['%s [hyper_node_type=hypernode];' % dot(n) for n in ns] + \
            ['%s [hyper_node_type=hyperedge];' % dot(e) for e in es]
        body = [(n, e) if rng.random() < .5 else (e, n) for e, v in links.items() for n in v]
        rng.shuffle(body)
        text = '\n'.join(lines + ['%s -- %s;' % (dot(a), dot(b)) for a, b in body] + ['}'])
        ctx.ev('links_both_ways')
    r = read_hypergraph(text)
    ctx.eq(sorted(r.nodes()), sorted(ns), 'hyper-nodes', 'nodes of the hypergraph differ after reading', text=text)
    ctx.eq(sorted(r.hyperedges()), sorted(es), 'hyper-edges', 'hyperedges differ after reading', text=text)
    ctx.eq({e: sorted(r.links(e)) for e in es}, {e: sorted(v) for e, v in links.items()}, 'hyper-links',
           'links differ after reading', text=text)
    ctx.ev('hypergraphs')
    ctx.note(nodes=len(ns), hyperedges=len(es))
    if es:
        ctx.distinct('hyper', ns, sorted(links.items()))


def texts(ctx):
    """Graphs someone else wrote: nodes only named in edges, attributes in any order, comments, semicolons or none."""
    rng = ctx.rng
    directed = rng.random() < .5
    names = rng.sample(PLAIN, rng.randrange(1, len(PLAIN)))
    lines, nodes, edges = [], {}, {}
    for n in names:
        if rng.random() < .5:
            nodes[n] = {k: rng.choice(['red', 'a b', '7']) for k in rng.sample(['color', 'shape', 'note'], rng.choice([0, 0, 1, 2]))}
            lines.append('%s%s' % (rng.choice([n, dot(n)]), written(rng, nodes[n])))
    body = []
    for _ in range(rng.randrange(0, 2 * len(names) + 1)):
        e = (rng.choice(names), rng.choice(names))
        if e in edges or (not directed and e[::-1] in edges):
            continue
        at = {k: rng.choice(v) for k, v in (('weight', ['3', '0', '2.5', '-1']), ('label', ['yes', 'if not', '0']),
                                            ('style', ['dotted', 'a b'])) if rng.random() < .4}
        edges[e] = at
        for n in e:
            if n not in nodes:
                nodes[n] = {}
                ctx.ev('implicit_nodes')
        body.append('%s %s %s%s' % (rng.choice([e[0], dot(e[0])]), '->' if directed else '--', rng.choice([e[1], dot(e[1])]),
                                    written(rng, at)))
    if rng.random() < .5:
        lines += body
    else:          # edges before the nodes they name
        lines = body + lines
    end = rng.choice([';\n', '\n'])
    note = rng.choice(['', '/* a graph */\n', '// a graph\n'])
    text = note + '%s %s {\n%s}\n' % ('digraph' if directed else 'graph', rng.choice(['g', '"the graph"', 'G1']),
                                        ''.join('  ' + x + end for x in lines))
    r = read(text)
    ctx.check(type(r) is (digraph if directed else graph), 'read-kind', 'read as another kind of graph', text=text)
    ctx.eq({n: {k: str(v) for k, v in r.node_attributes(n)} for n in r.nodes()}, nodes, 'read-nodes',
           'nodes differ after reading', text=text)
    both = list(edges) if directed else list(edges) + [e[::-1] for e in edges if e[0] != e[1]]
    ctx.eq(sorted(r.edges()), sorted(both), 'read-edges', 'edges differ after reading', text=text)
    for e, at in edges.items():
        ctx.eq({k: str(v) for k, v in r.edge_attributes(e)}, {k: v for k, v in at.items() if k == 'style'}, 'read-attributes',
               'attributes differ after reading', edge=e, text=text)
        ctx.eq([str(r.edge_label(e)), str(r.edge_weight(e))], [at.get('label', ''), at.get('weight', '1')], 'read-attributes',
               'label or weight differ after reading', edge=e, text=text)
    ctx.ev('texts_read')
    if edges:
        ctx.distinct('text', text)


def written(rng, at):
    if not at:
        return ''
    items = list(at.items())
    rng.shuffle(items)
    return ' [%s]' % rng.choice([', ', ' ']).join('%s=%s' % (k, dot(v)) for k, v in items)


def flow(ctx):
    """A control flow graph, exported."""
    g = ARMControlFlowGraph([gen.caps(i) for i in C25.code(ctx.rng)])
    g.build()
    for weighted in (False, True):
        check_written(ctx, g, True, weighted)
    ctx.ev('flow_graphs')


def refused(ctx):
    for x in (None, 3, 'digraph', [1], {'a': 1}):
        ctx.check(ctx.raises(InvalidGraphType, write, x), 'no-graph-accepted', 'something else was written as a graph')
        ctx.ev('refused')
    whole = write(random_graph(ctx.rng, PLAIN[:6], True))
    cut = whole.rstrip()
    for text in ['', 'a', '{}', 'a -> b', '{"a": 1}', 'graph g }{', 'digraph', '\x7fELF', 'digraph { a ->', cut[:-1], cut[1:]]:
        for reader in (read, read_hypergraph):
            saved, sys.stdout = sys.stdout, io.StringIO()    # the parser prints where it stopped
            try:
                got = reader(text)
            except Exception:
                got = None
            finally:
                sys.stdout = saved
            ctx.check(got is None, 'no-graph-read', 'text that is no graph was read as one', text=text[:80])
            ctx.ev('texts_refused')
    ctx.distinct('refused', ctx.index)


WORKLOADS = [W('graphs', graphs, 300, 8000), W('hypergraphs', hypergraphs, 80, 2000), W('flow', flow, 60, 1200), W('texts', texts, 120, 3000),
             W('refused', refused, 4, 40)]
