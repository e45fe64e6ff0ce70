"""SSA form: unique definitions, and on every path each read names the definition that reaches it."""
from mon.core import W
from mon import gen
from checks import graphs, C25
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock
from semantic_codec.static_analysis.ssa import SSAFormBuilder, place_phi_nodes

PROPERTY = 'C27'
RULE = ('random code of 1..80 instructions (conditional runs, jumps anywhere, few or many registers, memory, floating '
        'point), the graph with or without conditional nodes, random node orders, and hand-linked graphs of blocks; '
        'thousands of definitions of one value; random walks through the graph compare names with the definitions that reach. Non-trivial: a phi function; '
        'distinct by code.')
ASSUMPTIONS = ['what an instruction reads and writes is decided by C13', 'instructions fresh: SSA built once per code']
LEVEL_NOTE = 'sampled code and walks; phi placement bounded by the iterated frontier'
MIN_EVENTS = {'forms': 150, 'reads_followed': 20000, 'definitions': 3000, 'phis': 500, 'phi_entries': 1000,
              'dependencies': 2000, 'linked_graphs': 50, 'floating_point': 50, 'deep_blocks': 3000,
              'many_written': 50, 'many_in_a_block': 3,
              'private': 30, 'late_writes': 20, 'names_of_one': 4000, 'crowded_reads': 20}


def check(ctx, g, objs, root, walks, length=40, frontier=True):
    rng = ctx.rng
    if any(max(list(o.storages_read()) + list(o.storages_written()) + [0]) > 40 for o in objs):
        ctx.ev('floating_point')
    dep = SSAFormBuilder(objs, g, root).build()
    nodes = list(g)
    number = {n: k for k, n in enumerate(nodes)}
    succ = {k: [number[s] for s in g.neighbors(n)] for k, n in enumerate(nodes)}
    dom = graphs.dominators(succ, number[root]) if frontier else graphs.reachable(succ, number[root])
    live = [n for n in nodes if number[n] in dom]
    defs, edges = set(), set()
    for n in live:
        for phi, args in n.phi_functions.items():
            ctx.check(phi not in defs, 'redefined', 'a name is defined twice', name=phi)
            defs.add(phi)
            preds = sum(number[n] in succ[k] for k in dom)
            ctx.eq(len(args), preds, 'phi-arity', 'a phi function lacks or has extra arguments', phi=phi, args=args)
            ctx.check(all(v == phi[0] for v, _ in args), 'phi-args', 'a phi function mixes variables', phi=phi,
                      args=args)
            edges |= {(a, phi) for a in args}
            ctx.ev('phis')
        overwritten, named = set(), set()
        for i in n.instructions:
            named |= set(i.ssa_read)
            overwritten |= {v for v in n.phi_functions if v not in named and any(w[0] == v[0] for w in i.ssa_written)}
        ctx.check(not overwritten, 'dead-phi', 'a phi function whose value is overwritten before it is read', block=n.idx,
                  phi=sorted(overwritten), code=[str(i) for i in n.instructions][:20])
        for i in n.instructions:
            ctx.eq([v for v, _ in i.ssa_written], list(i.storages_written()), 'written', 'wrong names written', ins=str(i))
            ctx.eq({v for v, _ in i.ssa_read}, set(i.storages_read()), 'read', 'wrong names read', ins=str(i))
            ctx.eq(len(i.ssa_read), len(set(i.ssa_read)), 'read', 'a read is named twice', ins=str(i))
            for w in i.ssa_written:
                ctx.check(w not in defs, 'redefined', 'a name is defined twice', name=w, ins=str(i))
                defs.add(w)
                edges |= {(r, w) for r in i.ssa_read}
                ctx.ev('definitions')
    # walks: env[v] is the name of the definition of v that reaches
    for _ in range(walks):
        n, env = root, {}
        for _ in range(length):
            for (v, k), args in n.phi_functions.items():
                ctx.check((v, env.get(v, 0)) in args, 'phi-missing-definition',
                          'a definition that reaches a phi function is not among its arguments', phi=(v, k),
                          args=args, reaches=(v, env.get(v, 0)))
            for v, k in n.phi_functions:
                env[v] = k
            for i in n.instructions:
                for v, k in i.ssa_read:
                    ctx.eq(k, env.get(v, 0), 'wrong-definition', 'a read does not name the definition that reaches it',
                           storage=v, ins=str(i), block=n.idx)
                    ctx.ev('reads_followed')
                if len(i.ssa_read) > 16:
                    ctx.ev('crowded_reads')
                for v, k in i.ssa_written:
                    env[v] = k
            nxt = g.neighbors(n)
            if not nxt:
                break
            n = rng.choice(nxt)
    ctx.ev('phi_entries', sum(len(a) for n in live for a in n.phi_functions.values()))
    taken = set()      # what some block reads before it writes it
    for n in nodes:
        mine = set()
        for i in n.instructions:
            taken |= set(i.storages_read()) - mine
            mine |= set(i.storages_written())
        if len(mine) > 16:
            ctx.ev('many_in_a_block')
    for n in live:
        for v, _ in n.phi_functions:
            ctx.check(v in taken, 'needless-phi', 'a phi function of a value no block takes from before', phi=v,
                      block=n.idx)
    # phi functions only where definitions meet
    front = graphs.frontiers(succ, dom) if frontier else {}
    writes = {}
    for n in live:
        for i in n.instructions:
            for s in i.storages_written():
                writes.setdefault(s, set()).add(number[n])
    for n in live if frontier else ():
        for v, _ in n.phi_functions:
            todo, meet = list(writes.get(v, ())), set()
            while todo:
                for f in front[todo.pop()]:
                    if f not in meet:
                        meet.add(f)
                        todo.append(f)
            ctx.check(number[n] in meet, 'needless-phi', 'a phi function where no definitions meet', phi=v, block=n.idx)
    ctx.eq(set(dep.edges()), edges, 'dependencies', 'the value dependencies differ from the names')
    for n in live:
        for i in n.instructions:
            if len(i.ssa_written) > 4:
                ctx.ev('many_written')
            for w in i.ssa_written:
                ctx.check(w in dep, 'dependencies', 'a written name is not in the dependency graph', name=w)
    ctx.ev('dependencies', len(edges))
    ctx.ev('forms')
    return sum(len(n.phi_functions) for n in live)


def instruction(rng, a, regs):
    x = rng.random()
    if x < .06:
        # Some move sixteen or thirty-two floating point values at once
        return CAPSInstruction(rng.choice([0xee377b06, 0xed9f7b04, 0xeeb40b60, 0xee000a10, 0xee000a10 | rng.randrange(16) << 16,
                                           0xec800a20, 0xec900a20, 0xec800b20, 0xec900b20]), a)
    if x < .12:
        rs = sorted(rng.sample(range(13), rng.choice([2, 5, 8, 12])))
        return gen.caps(rng.choice([gen.pop(a, rs), gen.push(a, rs), gen.ldstm(a, 1, 13, rs, wb=1),
                                    gen.ldstm(a, 0, 13, rs, wb=1)]))
    return gen.caps(gen.random_ins(rng, a, None, None, gen.AL,
                                   ['dp', 'dpi', 'mov', 'movi', 'ldr', 'str', 'cmp', 'push', 'mul'], regs))


def generated(ctx):
    rng = ctx.rng
    ins = C25.code(rng)
    regs = rng.choice([2, 4, 13])
    objs = []
    for i in ins:
        o = gen.caps(i)
        if i.kind in ('dp', 'mov', 'ldr', 'str') and i.cond == gen.AL and rng.random() < .7:
            o = instruction(rng, i.addr, regs)
        if o.is_undefined:
            o = gen.caps(i)
        objs.append(o)
    g = ARMControlFlowGraph(objs)
    g.build()
    if rng.random() < .5:
        g.remove_conditionals()
    phis = check(ctx, g, objs, g.root_node, 12)
    ctx.note(instructions=len(ins), phi_functions=phis, first=[str(o) for o in objs[:4]])
    if phis:
        ctx.distinct([(o.encoding, o.address) for o in objs])


def linked(ctx):
    rng = ctx.rng
    n = rng.choice([2, 3, 5, 9, 25])
    succ, style = graphs.random_graph(rng, n)
    for v in succ.values():      # a root of the control flow graph has no predecessors
        if 0 in v:
            v.remove(0)
    regs, a, objs = rng.choice([2, 4, 13]), 0x1000, []
    g = ARMControlFlowGraph([])
    nodes = [g.root_node]
    for k in range(1, n):
        body = []
        if rng.random() < .06:
            # Long before something is overwritten, unread
            body = [gen.caps(gen.mov_imm(a + 4 * j, 5 + j % 3, j & 255)) for j in range(rng.choice([40, 80, 140]))]
            a += 4 * len(body)
            ctx.ev('late_writes')
        for _ in range(rng.randrange(1, 5) if rng.random() < .95 else 40):
            o = instruction(rng, a, regs)
            while o.is_undefined:
                o = instruction(rng, a, regs)
            body.append(o)
            a += 4
        objs += body
        nodes.append(CFGBlock(body))
    for k, x in enumerate(nodes):
        x.idx = k
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        g.add_node(nodes[k])
    for k in order:
        for s in succ[k]:
            g.add_edge((nodes[k], nodes[s]))
    ctx.check(ctx.raises(RuntimeError, place_phi_nodes, g), 'too-early', 'phi functions placed without dominators')
    phis = check(ctx, g, objs, g.root_node, 12)
    ctx.ev('linked_graphs')
    ctx.note(style=style, blocks=n, phi_functions=phis)
    if phis:
        ctx.distinct('linked', [(o.encoding, o.address) for o in objs], sorted(succ.items()))


def private(ctx):
    """Values written in many blocks, but read only where they were just written: nothing to merge."""
    rng = ctx.rng
    n = rng.choice([4, 8, 20])
    succ, style = graphs.random_graph(rng, n)
    for v in succ.values():
        if 0 in v:
            v.remove(0)
    a, objs = 0x1000, []
    g = ARMControlFlowGraph([])
    nodes = [g.root_node]
    for k in range(1, n):
        body = [rng.choice([0xe0800001, 0xe2811001, 0xe5901000])]
        for s in rng.sample(range(32), rng.choice([1, 4, 12, 30])):
            body.append(0xee000a10 | (s >> 1) << 16 | (s & 1) << 7)
            if rng.random() < .3:
                body.append(0xee101a10 | (s >> 1) << 16 | (s & 1) << 7)
        body = [CAPSInstruction(e, a + 4 * j) for j, e in enumerate(body)]
        a += 4 * len(body)
        objs += body
        nodes.append(CFGBlock(body))
    for k, x in enumerate(nodes):
        x.idx = k
        g.add_node(x)
    for k in rng.sample(range(n), n):
        for s in succ[k]:
            g.add_edge((nodes[k], nodes[s]))
    phis = check(ctx, g, objs, g.root_node, 4)
    ctx.ev('private')
    ctx.note(style=style, blocks=n, phi_functions=phis)
    if phis:
        ctx.distinct('private', [(o.encoding, o.address) for o in objs], sorted(succ.items()))


def deep(ctx):
    """Long code without loops: blocks dominate each other in a long row."""
    rng = ctx.rng
    n = rng.choice([900, 1100, 1700, 2500])
    base, objs = 4 * rng.randrange(1, 1 << 20), []
    ad = [base + 4 * k for k in range(n)]
    for k, a in enumerate(ad):
        cond = rng.choice([gen.AL, gen.AL, 0, 1, 11])
        if rng.random() < .02 and k + 60 < n:
            i = gen.branch(a, ad[k + rng.randrange(2, 50)], rng.choice([0, 1, 12]))
        else:
            i = gen.random_ins(rng, a, None, None, cond, ['dp', 'dpi', 'mov', 'movi', 'ldr', 'str'], 4)
        objs.append(gen.caps(i))
    g = ARMControlFlowGraph(objs)
    g.build()
    if rng.random() < .4:
        g.remove_conditionals()
    blocks = len(g.nodes())
    phis = check(ctx, g, objs, g.root_node, 2, 3 * n, False)
    ctx.ev('deep_blocks', blocks)
    ctx.note(instructions=n, blocks=blocks, phi_functions=phis)
    ctx.distinct('deep', [(o.encoding, o.address) for o in objs])


def names(ctx):
    """Thousands of definitions of the same few values."""
    rng = ctx.rng
    n = [8000, 9000, 5000][ctx.index % 3]
    base = 4 * rng.randrange(1, 1 << 20)
    enc = [0xe2800001, 0xe1a01000, 0xe0810000, 0xe2800004, 0xe1a00001]
    objs = [CAPSInstruction(rng.choice(enc), base + 4 * k) for k in range(n)]
    g = ARMControlFlowGraph(objs)
    g.build()
    check(ctx, g, objs, g.root_node, 1, 40, False)
    most = max(k for o in objs for _, k in o.ssa_written)
    ctx.ev('names_of_one', most)
    ctx.note(instructions=n, names=most)
    ctx.distinct('names', n)


WORKLOADS = [W('names', names, 1, 3), W('generated', generated, 250, 6000), W('linked', linked, 200, 6000),
             W('private', private, 40, 800), W('deep', deep, 8, 60)]
