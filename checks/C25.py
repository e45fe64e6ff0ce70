"""Control flow graph: every step an execution can take is in the graph, and every instruction in one block."""
from mon.core import W
from mon import gen
from semantic_codec.architecture.capstone_instruction import CAPSInstruction
from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph, CFGBlock

PROPERTY = 'C25'
RULE = ('random code of 1..80 instructions (dense conditional runs, forward and backward jumps into their middle, '
        'calls inside and outside, computed jumps, the last instruction conditional) and the shipped functions, '
        'executed by a flag-accurate interpreter of control flow; every step checked against the graph. Non-trivial: a '
        'jump inside the code or a conditional run; distinct by code.')
ASSUMPTIONS = ['defined, contiguous instructions; conditional instructions do not set the flags',
               'a call returns to the next instruction; what happens inside it is followed separately']
LEVEL_NOTE = 'sampled code, random executions (also of the graph without its conditional nodes)'
MIN_EVENTS = {'graphs': 150, 'steps': 10000, 'jumps': 500, 'skips': 500, 'exits': 300, 'calls': 200, 'edges_justified': 2000,
              'without_conditionals': 50, 'block_ends': 1000, 'rebuilt': 50, 'shipped_functions': 50, 'large': 4, 'crowded': 50, 'long_blocks': 15, 'unknown_branches': 500}


def cond_holds(c, f):
    n, z, cc, v = f
    return [z, not z, cc, not cc, n, not n, v, not v, cc and not z, not cc or z, n == v, n != v,
            not z and n == v, z or n != v, True][c]


def flags(rng):
    return [rng.random() < .5 for _ in range(4)]


def code(rng, n=None):
    n = n or rng.choice([1, 2, 3, 6, 12, 30, 80])
    base = rng.choice([0, 0x1000, 0x7fffffe0, 0xc0000000])
    ad = gen.addresses(rng, n, False, base)
    pool = rng.choice([[gen.AL], [gen.AL, 0, 1], [gen.AL, gen.AL, gen.AL, 0, 1, 10, 11], list(range(15))])
    branchy = rng.choice([.1, .3, .6])
    res, cond = [], gen.AL
    for a in ad:
        if rng.random() < .5:
            cond = rng.choice(pool)
        if rng.random() < branchy:
            k = rng.random()
            if k < .6:
                i = gen.branch(a, rng.choice(ad), cond)
            elif k < .75:
                i = gen.branch(a, rng.choice(ad + [ad[0] - 4 & 0xffffffff, ad[-1] + 4 & 0xffffffff, 0x5000]), cond, True)
            elif k < .8:
                i = gen.branch(a, (ad[-1] + 4 * rng.randrange(1, 50)) & 0xffffffff, cond)
            elif k < .9:
                i = gen.bx(a, gen.LR, cond)
            else:
                i = gen.pop(a, [4, gen.PC], cond)
        elif rng.random() < .3 and cond == gen.AL:
            i = gen.cmp_imm(a, 'cmp', rng.randrange(8), rng.randrange(9))
        else:
            while True:
                i = gen.random_ins(rng, a, ad[0], ad[-1], cond, ['dp', 'dpi', 'mov', 'movi', 'ldr', 'str', 'push'])
                if not i.flags:
                    break
        res.append(i)
    return res


class View(object):
    """What the graph says, in terms of instruction numbers; -1 is the entry, n the exit."""
    def __init__(self, ctx, graph, objs):
        n = len(objs)
        self.n = n
        number = {id(o): k for k, o in enumerate(objs)}
        self.block, self.follow, seen = {}, {}, []
        blocks, firsts = [], {}
        for node in graph:
            ks = [number[id(i)] for i in node.instructions]
            if node.kind == CFGBlock.BLOCK:
                ctx.check(ks, 'empty-block', 'a block without instructions')
                blocks.append((node, ks))
                firsts[node] = ks[0]
            else:
                ctx.check(not ks, 'special-with-code', 'a special node has instructions')
                if node.kind == CFGBlock.END:
                    firsts[node] = n
            seen += ks
        ctx.eq(sorted(seen), list(range(n)), 'partition', 'an instruction is in no block or in several')
        for node, ks in blocks:
            ctx.eq(ks, list(range(ks[0], ks[0] + len(ks))), 'block-order', 'a block is not a run of instructions')
            ctx.eq(len({i.conditional_field for i in node.instructions}), 1, 'mixed-block', 'a block mixes conditions')
        for node, ks in blocks + [(graph.root_node, [-1])]:
            for a, b in zip(ks, ks[1:]):
                self.follow[a] = {b}
            out, todo, done = set(), list(graph.neighbors(node)), set()
            while todo:
                x = todo.pop()
                if x in done:
                    continue
                done.add(x)
                if x in firsts:
                    out.add(firsts[x])
                else:
                    todo += graph.neighbors(x)
            self.follow[ks[-1]] = out


def steps_of(ins, k, at):
    """(jump destinations, may fall through) of instruction k when it is executed."""
    i = ins[k]
    if not i.branches:
        return set(), True
    t = at.get(i.target) if i.target is not None else None
    return {len(ins) if t is None else t}, i.kind in ('bl', 'blx')


def check(ctx, ins, runs, without=False, length=60):
    rng = ctx.rng
    n = len(ins)
    objs = [CAPSInstruction(i.enc, i.addr) for i in ins]
    graph = ARMControlFlowGraph(objs)
    graph.build()
    if without:
        graph.remove_conditionals()
        ctx.check(all(x.kind != CFGBlock.COND for x in graph), 'conditional-left', 'a conditional node remains')
        ctx.ev('without_conditionals')
    at = {i.addr: k for k, i in enumerate(ins)}
    view = View(ctx, graph, objs)
    end_of = {id(x.instructions[-1]): x for x in graph if x.instructions}
    for k, i in enumerate(ins):
        if not i.branches or i.target in at:
            continue
        out = graph.neighbors(end_of[id(objs[k])]) if id(objs[k]) in end_of else []
        ctx.check([x.kind for x in out] == [CFGBlock.UNKNOWN_BRANCH], 'unknown-branch',
                  'a jump to nobody knows where does not lead to a node of its own kind', ins=i, leads=[str(x) for x in out])
        kinds = [x.kind for x in graph.neighbors(out[0])]
        ctx.check(CFGBlock.END in kinds and (len(kinds) > 1) <= (i.kind in ('bl', 'blx')), 'unknown-branch',
                  'wrong successors of a jump to nobody knows where', ins=i, leads=kinds)
        ctx.ev('unknown_branches')
    idx = [x.idx for x in graph]
    ctx.eq(len(set(idx)), len(idx), 'node-index', 'two nodes share an index')
    ctx.eq(graph.get_dict_nodes(), {x.idx: x for x in graph}, 'node-index', 'nodes are indexed wrong')
    ends = [x for x in graph if x.kind == CFGBlock.END]
    ctx.check(len(ends) == 1 and not graph.neighbors(ends[0]), 'end', 'the graph does not have one end without successors')
    ctx.check(not graph.incidents(graph.root_node), 'root', 'the root has predecessors')

    number = {id(o): k for k, o in enumerate(objs)}
    for node in graph:
        own = [ins[number[id(o)]] for o in node.instructions]
        tail = own[-1] if own else None
        ctx.eq(bool(node.last_is_branch), bool(own) and bool(tail.branches), 'block-end',
               'wrong whether the block ends in a branch', block=str(node), last=tail)
        ctx.eq(bool(node.last_is_branch_with_link), bool(own) and tail.kind in ('bl', 'blx'), 'block-end',
               'wrong whether the block ends in a call', block=str(node), last=tail)
        if own:
            ctx.check(node.first is node.instructions[0] and node.last is node.instructions[-1], 'block-end',
                      'wrong first or last instruction of a block')
            ctx.eq((node.first_position, node.last_position), (own[0].addr, tail.addr), 'block-end',
                   'wrong positions of a block')
            ctx.ev('block_ends')
    if rng.random() < .3:    # another graph of the same instructions is the same graph
        again = ARMControlFlowGraph(objs)
        again.build()
        if without:
            again.remove_conditionals()
        ctx.eq(View(ctx, again, objs).follow, view.follow, 'rebuilt', 'a second graph of the same code differs')
        ctx.ev('rebuilt')

    def need(a, b, how):
        ctx.check(b in view.follow[a], 'missing-step', 'an execution takes a step that the graph does not have',
                  step=how, source=ins[a] if a >= 0 else 'entry', dest=ins[b] if b < n else 'exit',
                  code=[repr(i) for i in ins][:40], has=sorted(view.follow[a]))
        ctx.ev('steps')
        ctx.ev(how)
        if b == n:
            ctx.ev('exits')
    for _ in range(runs):
        f, last, pc, how = flags(rng), -1, 0 if rng.random() < .7 else rng.randrange(n), 'entry'
        if pc:           # executions are also watched from any instruction on
            last = pc if ins[pc].cond == gen.AL or cond_holds(ins[pc].cond, f) else None
            if last is None:
                continue
            pc, how = advance(ctx, rng, ins, last, at, f)
        for _ in range(length):
            skipped = False
            while pc < n and not (ins[pc].cond >= gen.AL or cond_holds(ins[pc].cond, f)):
                pc += 1
                skipped = True
            need(last, pc, 'skips' if skipped else how)
            if pc == n:
                break
            last = pc
            pc, how = advance(ctx, rng, ins, pc, at, f)
    # the other direction: what the graph has can be explained by the code
    reach = [None] * (n + 1)
    reach[n] = {n}
    for k in range(n - 1, -1, -1):
        reach[k] = {k} | (reach[k + 1] if ins[k].cond != gen.AL else set())
    for a, out in view.follow.items():
        allowed = set(reach[0]) if a < 0 else set()
        if a >= 0:
            jumps, falls = steps_of(ins, a, at)
            if falls or ins[a].cond != gen.AL:
                allowed |= reach[a + 1]
            if ins[a].branches and ins[a].target not in at:
                allowed.add(n)
            for t in jumps:
                allowed |= reach[t]
                s = t      # a jump into a conditional run is received by the condition of the run
                while t < n and s > 0 and ins[t].cond != gen.AL and ins[s - 1].cond == ins[t].cond:
                    s -= 1
                    allowed |= reach[s]
        ctx.check(out <= allowed, 'impossible-step', 'the graph has a step no execution can take',
                  source=ins[a] if a >= 0 else 'entry', extra=[repr(ins[b]) if b < n else 'exit'
                                                               for b in sorted(out - allowed)],
                  code=[repr(i) for i in ins][:40])
        ctx.ev('edges_justified', len(out))
    ctx.ev('graphs')


def advance(ctx, rng, ins, k, at, f):
    """Number of the instruction that follows k (executed) before conditions are looked at, and how."""
    if ins[k].flags:
        f[:] = flags(rng)
    jumps, falls = steps_of(ins, k, at)
    if jumps and not (falls and rng.random() < .5):
        if falls:
            ctx.ev('calls')
        return next(iter(jumps)), 'jumps'
    if jumps:
        ctx.ev('calls')
        f[:] = flags(rng)     # a call may leave any flags
    return k + 1, 'falls'


def generated(ctx):
    ins = code(ctx.rng)
    ctx.note(instructions=len(ins), code=ins[:6])
    check(ctx, ins, 12, ctx.rng.random() < .3)
    at = {i.addr for i in ins}
    if any(i.target in at for i in ins) or any(i.cond != gen.AL for i in ins):
        ctx.distinct([(i.enc, i.addr) for i in ins])


def crowded(ctx):
    """Many jumps to the same instruction, in the middle of a run of one condition, before or after them."""
    rng = ctx.rng
    jumps, length = rng.choice([2, 9, 20, 33]), rng.randrange(2, 8)
    if rng.random() < .4:
        length = rng.randrange(9, 40) if rng.random() < .5 else rng.randrange(60, 300)
        ctx.ev('long_blocks')
    base = rng.choice([0, 0x1000, 0xc0000000])
    cond = rng.choice([gen.AL, gen.AL, 0, 1, 11])
    before = rng.choice([jumps, jumps, 0, rng.randrange(jumps + 1)])
    n = jumps + length
    dest = base + 4 * (before + rng.randrange(1, length))
    ins = []
    for k in range(n):
        a = base + 4 * k
        if before <= k < before + length:
            i = None
            while i is None or i.flags:
                i = gen.random_ins(rng, a, base, base + 4 * n, cond, ['dp', 'dpi', 'mov', 'movi', 'ldr', 'str'])
        else:
            i = gen.branch(a, dest, rng.choice([gen.AL, gen.AL, cond, 0, 1]), rng.random() < .2)
        ins.append(i)
    ctx.note(jumps=jumps, before=before, code=ins[:6])
    check(ctx, ins, 12, rng.random() < .3)
    ctx.ev('crowded')
    ctx.distinct([(i.enc, i.addr) for i in ins])


def large(ctx):
    """One big function."""
    ins = code(ctx.rng, ctx.rng.choice([300, 500] if not ctx.thorough else [500, 900]))
    ctx.note(instructions=len(ins), code=ins[:6])
    check(ctx, ins, 60, ctx.rng.random() < .3, 300)
    ctx.ev('large')
    ctx.distinct([(i.enc, i.addr) for i in ins])


def shipped(ctx):
    files = gen.sample_files(ctx.repo)
    fs, _ = ElfioTextDisassembleReader(files[ctx.index % len(files)]).read()
    for f in fs:
        ins = []
        for i in f.instructions:
            k = 'bl' if i.is_branch_with_link else 'b' if i.is_branch else 'dp'
            ins.append(gen.Ins(i.encoding, i.address, k, str(i), i.conditional_field, target=i.jumping_address,
                               flags=bool(i.modifies_flags())))
        addr = [i.addr for i in ins]
        if not ins or addr != list(range(addr[0], addr[0] + 4 * len(addr), 4)) or len(ins) > 400 or \
                any(i.flags and i.cond != gen.AL for i in ins):
            continue
        ctx.note(function=f.name, instructions=len(ins))
        check(ctx, ins, 6)
        ctx.ev('shipped_functions')
        ctx.distinct(f.name, addr[0], len(addr))


WORKLOADS = [W('generated', generated, 1200, 20000), W('shipped', shipped, 8, 8),
             W('large', large, 6, 40), W('crowded', crowded, 160, 2500)]
