"""Every operation of the library on one given program, as plain data: what it yields must depend on that input alone.

Run as a program (battery.py REPO < inputs) it prints the results of a process that has done nothing else."""
import contextlib
import io
import json
import os
import random
import sys


def insts(spec):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    return [CAPSInstruction(e, a) for _, body in spec['functions'] for a, e in body]


def corrupted(spec):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    return {a: [CAPSInstruction(e, a) for e in v] for a, v in spec['candidates']}


def elf(spec):
    from semantic_codec.architecture.capstone_instruction import CAPSInstruction
    from semantic_codec.architecture.functions import ElfFunction
    res = []
    for name, body in spec['functions']:
        f = ElfFunction(name)
        f.instructions = [CAPSInstruction(e, a) for a, e in body]
        res.append(f)
    return res


def fns(spec):
    return {b[0][0]: (b[0][0], b[-1][0]) for _, b in spec['functions']}


def table(program):
    return sorted([a, c.encoding, c.score(), sorted(c.scores_by_rule.items())] for a, v in program.items() for c in v)


def write(spec, path='battery.disam'):
    with open(path, 'w') as f:
        f.write('\n'.join(['.functions'] + ['0x%x;%s' % (b[0][0], n) for n, b in spec['functions']] + ['', '.text'] +
                          ['0x%x;%08x;mnem;ops' % (a, e) for _, b in spec['functions'] for a, e in b]) + '\n')
    return path


def spoil(*results):
    """What a user may do to the results once he has them."""
    for r in results:
        if isinstance(r, (list, dict, set)):
            r.clear()


def op_facts(spec):
    for i in insts(spec):
        spoil(i.storages_used(), i.storages_read(), i.storages_written())
    return [[i.address, i.encoding, sorted(i.storages_used()), sorted(i.storages_read()), sorted(i.storages_written()),
             sorted(i.registers_used()), i.opcode_field, i.conditional_field, i.is_branch, i.is_branch_with_link,
             i.is_push_pop, i.modifies_flags(), i.jumping_address, str(i)] for i in insts(spec)]


def op_read(spec):
    from semantic_codec.architecture.disassembler_readers import ElfioTextDisassembleReader, TextDisassembleReader
    path = write(spec)
    res = [[str(f), [[i.address, i.encoding] for i in f.instructions]]
           for f in ElfioTextDisassembleReader(path).read_functions()]
    res.append([[i.address, i.encoding] for i in ElfioTextDisassembleReader(path).read_instructions()])
    os.remove(path)
    return res


def op_convert(spec):
    from semantic_codec.metadata.probabilistic_rules.rules import from_functions_to_list_and_addr, \
        from_instruction_dict_to_list, from_instruction_list_to_dict
    ins, f = from_functions_to_list_and_addr(elf(spec))
    d = from_instruction_list_to_dict(ins)
    return [[i.address for i in ins], sorted([k, list(v)] for k, v in f.items()), sorted(d),
            [len(v) for v in from_instruction_dict_to_list(d)]]


def op_channel(spec):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, deinterleave, interleave
    n, ws, lost = spec['packets'], spec['chunk'], spec['lost']
    order = build_2d_interleave_sp(n, True)
    words = [e for _, b in spec['functions'] for _, e in b]
    packets = interleave(words, order, ws)
    for p in lost:
        packets[p] = None
    got, errors = deinterleave(packets, order, ws)
    res = [[int(x) for x in order], [int(x) for x in got], sorted([[int(y) for y in x] for x in errors])]
    spoil(order, got, errors, packets)
    return res


def op_predict(spec):
    from semantic_codec.corruption.corruption import predict_corruption
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp
    n = spec['packets']
    order = build_2d_interleave_sp(n, True)
    errors = predict_corruption(n, spec['chunk'], len(insts(spec)), order, list(spec['lost']))
    res = sorted([int(y) for y in x] for x in errors)
    spoil(order, errors)
    return res


def op_packets(spec):
    from semantic_codec.corruption.corruptors import PacketCorruptor
    d = {i.address: [i] for i in insts(spec)}
    res = PacketCorruptor(spec['packets'], len(d), None, list(spec['lost']), spec['chunk']).corrupt(d)
    out = sorted([a, sorted(c.encoding for c in v)] for a, v in res.items())
    spoil(*res.values())
    return out


def op_random(spec):
    from semantic_codec.corruption.corruptors import RandomCorruptor
    d = {i.address: [i] for i in insts(spec)}
    random.seed(spec['seed'])
    RandomCorruptor(spec['percent'], 3, False).corrupt(d)
    return sorted([a, sorted(c.encoding for c in v)] for a, v in d.items())


def op_json(spec):
    from semantic_codec.corruption.corruption import load_corrupted_program_from_json, save_corrupted_program_to_json
    save_corrupted_program_to_json(corrupted(spec), 'battery.json')
    back = load_corrupted_program_from_json('battery.json')
    os.remove('battery.json')
    res = [[a, [c.encoding for c in v]] for a, v in back.items()]
    spoil(*back.values())
    return res


def collected(spec):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    m = MetadataCollector()
    m.collect(insts(spec))
    return m


def op_metadata(spec):
    m = collected(spec)
    return [sorted(m.condition_count.items()), sorted(m.instruction_count.items()), sorted(m.storage_count.items()),
            sorted([i.encoding, i.address] for i in m.empty_spaces),
            sorted((k, v) for k, v in m.storage_mean_dist.items())]


def modelled(spec):
    """The arguments that name the model, where it is not the usual one."""
    from semantic_codec.metadata.probabilistic_model import DefaultProbabilisticModel
    if not spec.get('model'):
        return {}
    m = DefaultProbabilisticModel()
    for k, v in zip(sorted(vars(m)), spec['model']):
        setattr(m, k, v)
    return {'model': m}


def op_recovery(spec):
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    import recover_program
    p, m, res = corrupted(spec), collected(spec), []
    for _ in range(2):
        ProbabilisticRecuperator(m, p, functions=fns(spec), **modelled(spec)).recover()
        res.append(table(p))
        for v in p.values():
            recover_program.remove_bad_candidates_at_addr(v)
        res.append(sorted([a, sorted(c.encoding for c in v)] for a, v in p.items()))
    return res


def op_rules(spec):
    from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount
    from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance
    from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior
    m, res = collected(spec), []
    for make in (lambda p: ConditionalCount(p, collector=m), lambda p: InstructionCount(p, collector=m),
                 lambda p: RegisterCount(p, collector=m), lambda p: RegisterReadDistance(p, collector=m),
                 lambda p: ControlFlowBehavior(p, **modelled(spec))):
        p = corrupted(spec)
        rule = make(p)
        for a in sorted(p):
            rule.recover(a)
        res.append(table(p))
    return res


def op_journey(spec):
    from checks import recovery
    import recover_program
    from semantic_codec.metadata.recuperator import ProbabilisticRecuperator
    from semantic_codec.solution.solution_io import SolutionReader
    recover_program.run_recovery(elf(spec), recovery.Given(dict(spec['candidates'])), ProbabilisticRecuperator, 2)
    res = []
    for name in ('initial_solution.sol', 'final_solution.sol'):
        with open(name, 'rb') as f:
            res.append(f.read().hex())
        os.remove(name)
    for n in os.listdir('.'):
        if n.startswith('instructions') or n == 'corrupted_program.txt':
            os.remove(n)
    return res


def op_quality(spec):
    from semantic_codec.solution.solution_quality import SolutionQuality
    p = corrupted(spec)
    for a, v in p.items():
        for c in v:
            c.scores_by_rule['x'] = (c.encoding * 2654435761 >> 7) % 101 / 100.0
    q = SolutionQuality(p, insts(spec))
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        q.report()
    return [out.getvalue(), q.solution_count, q.solution_size, sorted(q.solution_count_bins.items()), q.highest_depth]


def op_report(spec):
    import recover_program
    p = {a: [c for c in v if not c.is_undefined] for a, v in corrupted(spec).items()}
    for v in p.values():
        for c in v:
            c.scores_by_rule['pr'] = (c.encoding * 2654435761 >> 7) % 5 / 4.0
    recover_program.print_report('battery.txt', insts(spec), [p[i.address] for i in insts(spec)])
    with open('battery.txt') as f:
        text = f.read()
    os.remove('battery.txt')
    return text


def op_prune(spec):
    from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder, \
        ForwardConstraintSolutionEnumerator
    p = corrupted(spec)
    b = ForwardConstraintSolutionBuilder(p, insts(spec))
    b.build()
    q = corrupted(spec)
    ForwardConstraintSolutionEnumerator(q, insts(spec)).build()
    return [b.solution_size, sorted([a, [c.encoding for c in v]] for a, v in q.items())]


def flow(spec):
    from semantic_codec.static_analysis.cfg import ARMControlFlowGraph
    ins = insts(spec)[:60]
    g = ARMControlFlowGraph(ins)
    g.build()
    return ins, g


def label(n):
    return [n.kind, n.instructions[0].address if n.instructions else -1]


def op_flow(spec):
    """Steps from block to block, straight or over the nodes without instructions."""
    _, g = flow(spec)
    res = []
    for n in g:
        if n.instructions:
            seen, todo = [], list(g.neighbors(n))
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.append(x)
                    if not x.instructions:
                        todo += g.neighbors(x)
            res.append([label(n), len(n.instructions), sorted(label(x) for x in seen)])
    return sorted(res)


def op_dominators(spec):
    from semantic_codec.static_analysis.dominators import build_dominator_tree
    from semantic_codec.static_analysis.ssa import build_dominance_frontier
    _, g = flow(spec)
    build_dominator_tree(g, g.root_node)
    build_dominance_frontier(g)
    return sorted([label(n), label(n.idom) if n.idom else None, sorted(label(x) for x in n.dom_frontier)]
                  for n in g if n.instructions)


def op_names(spec):
    from semantic_codec.static_analysis.ssa import SSAFormBuilder
    ins, g = flow(spec)
    SSAFormBuilder(ins, g, g.root_node).build()
    where = {}
    for n in g:
        for phi in n.phi_functions:
            where[phi] = ['phi', phi[0]] + label(n)
        for i in n.instructions:
            for w in i.ssa_written:
                where[w] = ['ins', w[0], i.address]
    return [sorted([i.address, r[0], where.get(r, ['in', r[0]])] for i in ins for r in i.ssa_read),
            sorted([label(n), sorted([phi[0], len(a)] for phi, a in n.phi_functions.items())] for n in g)]


def op_dot(spec):
    from libs.dot.dotio import read, write as out
    _, g = flow(spec)
    from pygraph.classes.digraph import digraph
    h = digraph()
    name = {n: '%s %d' % (n.kind, k) for k, n in enumerate(g)}
    h.add_nodes(sorted(name.values()))
    for a, b in g.edges():
        h.add_edge((name[a], name[b]), wt=len(a.instructions) + 1)
    back = read(out(h, weighted=True))
    return [sorted(str(x) for x in back.nodes()), sorted([str(a), str(b), float(back.edge_weight((a, b)))]
                                                         for a, b in back.edges())]


def op_huffman(spec):
    from checks import darm
    darm.stub()
    from semantic_codec.compressor.huffman import encode, huffman_size
    count = {}
    for i in insts(spec):
        count[i.opcode_field] = count.get(i.opcode_field, 0) + 1
    code = encode(count)
    res = [huffman_size(count, code), sorted([s, c] for s, c in code)]
    spoil(code)
    count = {}
    for i in insts(spec):
        if not i.is_undefined:
            name = str(i).split()[0]
            count[name] = count.get(name, 0) + 1
    code = encode(count)
    return res + [huffman_size(count, code), sorted([s, c] for s, c in code)]


def op_compress(spec):
    from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor
    res, words = [], [e for _, b in spec['functions'] for _, e in b]
    lost = sorted({(k % len(words), 2 * (k % 16)) for k in spec['lost']})
    for kind in (ShiftCompressor, SwapCompressor):
        c = kind(list(lost), list(words))
        c.compress()
        res.append(bytes(c.compressed_buffer).hex())
    return res


def op_bits(spec):
    from semantic_codec.architecture.bits import BitQueue
    from semantic_codec.corruption.corruption import corrupt_bits
    q = BitQueue()
    for w, v in spec['queue']:
        q.word_size = w
        q.enqueue(v, 0)
    res = []
    random.seed(spec['seed'])
    for w, _ in spec['queue']:
        q.word_size = w
        res.append(q.dequeue(0, 0))
    return [res, sorted(corrupt_bits(20, 12, 2, spec['queue'][0][1]))]


def op_modify(spec):
    from checks import darm
    darm.stub()
    from semantic_codec.architecture.instruction_modifier import InstructionModifier
    m = InstructionModifier()
    return [[m.modify_cond(i.encoding, i.address // 4 % 15), m.modify_immediate(i.encoding, 0x2a)] for i in insts(spec)]


def op_lattice(spec):
    from semantic_codec.interleaver.interleaver2d import build_2d_interleave_matrix_blaum
    n = spec['packets']
    m = build_2d_interleave_matrix_blaum(n * 16, 16, 4, n * 4)
    res = [[int(x) for x in row] for row in m]
    if isinstance(m, list):
        spoil(*m)
    return res


def op_union(spec):
    from semantic_codec.probability.probabilities import indep_events_union, indep_intersection
    ps = [(k % 97) / 97.0 for k in spec['lost']][:6] or [.5]
    return [indep_events_union(list(ps)), indep_intersection(list(ps))]


def op_parts(spec):
    from checks import darm
    darm.stub()
    from semantic_codec.compressor.huffman import InstructionPartFrequencyCounter
    c = InstructionPartFrequencyCounter()
    ins = insts(spec)
    c.count(ins)
    res = [[sorted(getattr(c, n + '_frequency').items()), sorted([k, sorted({i.address for i in v})] for k, v in
                                                                 getattr(c, n + '_with').items())]
           for n in ('reg', 'opcode', 'cond')]
    for n in ('reg', 'opcode', 'cond'):
        spoil(getattr(c, n + '_frequency'), getattr(c, n + '_with'))
    return res


def op_progress(spec):
    from semantic_codec.report.print_progress import TextProgressBar
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p = TextProgressBar(iteration=0, total=spec['packets'] * 3, prefix='Work:', decimals=1, bar_length=20, print_dist=4)
        for _ in range(spec['packets'] * 3 + 2):
            p.progress()
    return out.getvalue()


def op_older(spec):
    from semantic_codec.metadata.recuperator import Recuperator
    p = corrupted(spec)
    r = Recuperator(collected(spec), p)
    r.passes = 2
    r.recover()
    return [table(p), sorted([a, c.encoding] for a, v in p.items() for c in v if c.ignore)]


def op_problem(spec):
    from semantic_codec.metadata.metadata_collector import MetadataCollector
    from semantic_codec.solution.solution_builders import ProblemBuilder
    ins = insts(spec)[:4]
    if len(ins) < 2:
        return []
    m = MetadataCollector()
    m.collect(ins)
    p = corrupted(spec)
    p = {i.address: [i] + [c for c in p[i.address] if c.encoding != i.encoding][:5] for i in ins}
    return sorted(sorted([a, getattr(x, 'encoding', x)] for a, x in s.items())
                  for s in ProblemBuilder().build(p, m).getSolutions())


def op_counts(spec):
    from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector
    c = CorruptedProgramMetadataCollector()
    c.collect(corrupted(spec))
    return [sorted(d.items()) for d in (c.address_with_cond, c.address_with_op, c.address_with_reg)]


def op_hypergraph(spec):
    from pygraph.classes.hypergraph import hypergraph
    from libs.dot.dotio import read_hypergraph, write_hypergraph
    h = hypergraph()
    ins = insts(spec)[:25]
    regs = sorted({r for i in ins for r in i.storages_used()})
    h.add_nodes(['r%d' % r for r in regs])
    for i in ins:
        h.add_hyperedge('%x' % i.address)
        for r in sorted(set(i.storages_used())):
            h.link('r%d' % r, '%x' % i.address)
    back = read_hypergraph(write_hypergraph(h, True))
    return [sorted(back.nodes()), sorted([e, sorted(back.links(e))] for e in back.hyperedges())]


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def run(name, spec):
    """The result of an operation, or the kind of error it ends with."""
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return json.loads(json.dumps(OPS[name](spec)))
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:200]]


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    given = json.load(sys.stdin)
    print(json.dumps({n: run(n, given['spec']) for n in given['names']}))
