"""Operations leave what they are given as it was."""
import os
from mon.core import W
from checks import battery, darm
from checks.C45 import spec
darm.stub()
import recover_program   # noqa: E402
from libs.dot.dotio import read, read_hypergraph, write, write_hypergraph   # noqa: E402
from pygraph.classes.digraph import digraph   # noqa: E402
from pygraph.classes.hypergraph import hypergraph   # noqa: E402
from semantic_codec.architecture.capstone_instruction import CAPSInstruction   # noqa: E402
from semantic_codec.compressor.huffman import encode, huffman_size, InstructionPartFrequencyCounter   # noqa: E402
from semantic_codec.compressor.shiftcompressor import ShiftCompressor, SwapCompressor   # noqa: E402
from semantic_codec.corruption.corruption import corrupt_all_bits_tuples, load_corrupted_program_from_json, \
    predict_corruption, save_corrupted_program_to_json   # noqa: E402
from semantic_codec.corruption.corruptors import PacketCorruptor   # noqa: E402
from semantic_codec.interleaver.interleaver2d import build_2d_interleave_sp, deinterleave, interleave   # noqa: E402
from semantic_codec.metadata.metadata_collector import CorruptedProgramMetadataCollector, MetadataCollector   # noqa: E402
from semantic_codec.metadata.probabilistic_rules.counting_rules import ConditionalCount, InstructionCount, RegisterCount   # noqa: E402
from semantic_codec.metadata.probabilistic_rules.distance_rule import RegisterReadDistance   # noqa: E402
from semantic_codec.metadata.probabilistic_rules.rules import ControlFlowBehavior, from_functions_to_list_and_addr, \
    from_instruction_dict_to_list, from_instruction_list_to_dict   # noqa: E402
from semantic_codec.metadata.recuperator import ProbabilisticRecuperator   # noqa: E402
from semantic_codec.probability.probabilities import indep_events_union, indep_intersection   # noqa: E402
from semantic_codec.solution.solution_builders import ForwardConstraintSolutionBuilder, \
    ForwardConstraintSolutionEnumerator, ProblemBuilder   # noqa: E402
from semantic_codec.solution.solution_io import SolutionReader, SolutionWriter   # noqa: E402
from semantic_codec.solution.solution_quality import SolutionQuality   # noqa: E402
from semantic_codec.static_analysis.cfg import ARMControlFlowGraph   # noqa: E402
from semantic_codec.static_analysis.dominators import build_dominator_tree   # noqa: E402
from semantic_codec.static_analysis.ssa import SSAFormBuilder   # noqa: E402

PROPERTY = 'C46'
RULE = ('every operation (collecting, predicting, packing, damaging, saving, writing, judging, pruning, posing the problem, rules, recovery, '
        'flow graphs, names, DOT, Huffman, compression, probabilities, conversions, the whole journey) on random programs with '
        'discarded and scored candidates, recording all it is given before and after, and called again. Non-trivial: everything '
        'compared; distinct by program.')
ASSUMPTIONS = ['excepted is what an operation is for: scores and discards of a recovery, candidates of a corruptor or a pruning, '
               'names of definitions, packets that are read out, and the rank of candidates where they are ranked',
               'the figures of a model are probabilities, also those that the recovery doubles']
LEVEL_NOTE = 'sampled inputs; a record of every argument before each operation compared with one after it'
MIN_EVENTS = {'operations': 1500, 'facts_compared': 100000, 'again': 300}


class Plain(object):
    """What is recorded of objects; scores=False leaves out what a recovery writes."""
    def __init__(self, scores=True):
        self.scores, self.facts = scores, 0

    def of(self, x):
        self.facts += 1
        if callable(x):
            return self.of(x())
        if isinstance(x, dict):
            return ['dict'] + [[self.of(k), self.of(v)] for k, v in x.items()]
        if isinstance(x, (list, tuple)):
            return [type(x).__name__] + [self.of(v) for v in x]
        if isinstance(x, (set, frozenset)):
            return ['set'] + sorted(map(repr, x))
        if isinstance(x, CAPSInstruction):
            return ['ins', id(x), x.encoding, x.address] + ([x.ignore, x.score(), self.of(x.scores_by_rule)]
                                                            if self.scores else [])
        if isinstance(x, (digraph, hypergraph)):
            return ['graph', [id(n) if hasattr(n, 'instructions') else str(n) for n in x.nodes()]] + (
                [sorted((str(a), str(b), str(x.edge_weight((a, b))), str(x.edge_label((a, b))),
                         str(x.edge_attributes((a, b)))) for a, b in x.edges())] if isinstance(x, digraph) else
                [sorted((str(e), sorted(map(str, x.links(e)))) for e in x.hyperedges())])
        if isinstance(x, MetadataCollector):
            return ['metadata'] + [self.of(v) for v in (x.condition_count, x.instruction_count, x.storage_count,
                                                        x.empty_spaces, x.storage_mean_dist)]
        if hasattr(x, 'instructions'):
            return ['function', str(x), self.of(list(x.instructions))]
        if isinstance(x, (int, float, str, bytes, bool)) or x is None:
            return x
        return [type(x).__name__] + [[k, self.of(v)] for k, v in sorted(vars(x).items())]


class Added(object):
    """A corruptor that puts candidates next to the instructions it is given."""
    def __init__(self, candidates):
        self.candidates = candidates

    def corrupt(self, program):
        for a, v in program.items():
            v += [CAPSInstruction(e, a) for e in self.candidates[a] if e != v[0].encoding]
        return program


def worn(rng, program, originals):
    """Candidates as a recovery in progress leaves them: some discarded, never the original."""
    for v in program.values():
        for c in v:
            if rng.random() < .15 and c.encoding not in originals[c.address]:
                c.ignore = True
        for c in v:
            if rng.random() < .7:
                c.scores_by_rule['x'] = rng.choice([0, .25, .5, 1])
    return program


def operations(ctx, s):
    """(name, what is given, the operation, whether scores are compared too)."""
    rng = ctx.rng
    ins, functions = battery.insts(s), battery.elf(s)
    n, ws, lost = s['packets'], s['chunk'], list(s['lost'])
    rng.shuffle(lost)
    order = [int(x) for x in build_2d_interleave_sp(n, True)]
    data = [e for _, b in s['functions'] for _, e in b]
    metadata = battery.collected(s)
    fns = battery.fns(s)
    model = battery.modelled(s).get('model')

    def program():
        return worn(rng, battery.corrupted(s), {i.address: [i.encoding] for i in ins})

    p, mixed = program(), list(ins)
    rng.shuffle(mixed)
    yield 'collect', [mixed], lambda: MetadataCollector().collect(mixed), True
    yield 'collect-corrupted', [p], lambda: CorruptedProgramMetadataCollector().collect(p), True
    yield 'predict', [order, lost], lambda: predict_corruption(n, ws, len(data), order, lost), True
    yield 'interleave', [data, order], lambda: interleave(data, order, ws), True

    def unpack():
        packets = interleave(data, order, ws)
        for k in lost:
            packets[k] = None
        deinterleave(packets, order, ws)
    yield 'deinterleave', [data, order], unpack, True
    tuples = [(4, 6), (9, 10), (28, 30)]
    yield 'variants', [tuples], lambda: corrupt_all_bits_tuples(tuples, data[0]), True
    whole = {i.address: [i] for i in ins}
    fixed = list(ins)
    yield 'packets', [fixed, order, lost], lambda: PacketCorruptor(n, len(data), order, lost, ws).corrupt(
        {a: list(v) for a, v in whole.items()}), True
    yield 'save', [p], lambda: save_corrupted_program_to_json(p, 'given.json'), True
    yield 'write', [ins, p], lambda: SolutionWriter().write_binary('given.sol', ins, p), True
    before = {x: open(x, 'rb').read() for x in ('given.json', 'given.sol')}

    def load():
        load_corrupted_program_from_json('given.json')
        SolutionReader().read('given.sol')
        ctx.eq({x: open(x, 'rb').read() for x in before}, before, 'file-changed', 'reading a file changed it')
    yield 'load', [], load, True

    def judge():
        q = SolutionQuality(p, ins)
        return q.solution_count, q.solution_size, q.solution_count_bins, q.highest_depth, q.report()
    # Judging and reporting rank the candidates of an address
    yield 'quality', [ins, lambda: {a: sorted(v, key=lambda c: c.encoding) for a, v in p.items()}], judge, True
    fresh = battery.corrupted(s)
    yield 'builder', [ins, fresh], lambda: ForwardConstraintSolutionBuilder(fresh, ins).build(), True
    yield 'enumerator', [mixed], lambda: ForwardConstraintSolutionEnumerator(battery.corrupted(s), mixed).build(), True
    few = {i.address: [i] + [c for c in fresh[i.address] if c.encoding != i.encoding][:4] for i in ins[:4]}
    if len(few) > 1:
        small = MetadataCollector()
        small.collect(ins[:4])
        yield 'problem', [few, small], lambda: ProblemBuilder().build(few, small).getSolutions(), True
    for rule in (ConditionalCount, InstructionCount, RegisterCount, RegisterReadDistance):
        def apply(r=rule, q=p):
            x = r(q, collector=metadata)
            for a in sorted(q):
                x.recover(a)
        yield rule.__name__, [p, metadata], apply, False

    def flow_rule():
        x = ControlFlowBehavior(p) if model is None else ControlFlowBehavior(p, model)
        for a in sorted(p):
            x.recover(a)
    yield 'flow-rule', [p, model], flow_rule, False
    yield 'recovery', [p, metadata, fns, model], lambda: ProbabilisticRecuperator(
        metadata, p, functions=fns, **({} if model is None else {'model': model})).recover(), False
    gone, size = sorted({(k % len(data), 2 * (k % 16)) for k in lost}), 2
    rng.shuffle(gone)
    for kind in (ShiftCompressor, SwapCompressor):
        yield kind.__name__, [gone, data], lambda k=kind: k(gone, data, size).compress(), True
    freq = {}
    for i in ins:
        freq[str(i.opcode_field)] = freq.get(str(i.opcode_field), 0) + rng.choice([1, 1, 3])
    freq['none'] = 0
    code = encode(dict(freq))
    yield 'encode', [freq], lambda: encode(freq), True
    yield 'code-size', [freq, code], lambda: huffman_size(freq, code), True
    yield 'count-parts', [mixed], lambda: InstructionPartFrequencyCounter().count(mixed), True
    rng.shuffle(functions)
    yield 'to-list', [functions], lambda: from_functions_to_list_and_addr(functions), True
    yield 'from-dict', [p], lambda: from_instruction_dict_to_list(p), True
    yield 'to-dict', [mixed], lambda: from_instruction_list_to_dict(mixed), True
    part = ins[:40]
    yield 'flow', [part], lambda: ARMControlFlowGraph(part).build(), True
    g = ARMControlFlowGraph(part)
    g.build()
    yield 'dominators', [part, g], lambda: build_dominator_tree(g, g.root_node), True
    h = ARMControlFlowGraph(part)
    h.build()
    yield 'names', [part], lambda: SSAFormBuilder(part, h, h.root_node).build() if not ctx.turn else None, True
    d = digraph()
    d.add_nodes(['n%d' % k for k in range(6)])
    for a, b in rng.sample([(a, b) for a in range(6) for b in range(6)], 8):
        d.add_edge(('n%d' % a, 'n%d' % b), wt=rng.randrange(9), label=rng.choice(['', 'l']))
    yield 'write-dot', [d], lambda: read(write(d, weighted=True)), True
    e = hypergraph()
    e.add_nodes(['a', 'b'])
    e.add_hyperedge('e')
    e.link('a', 'e')
    yield 'write-hypergraph', [e], lambda: read_hypergraph(write_hypergraph(e, True)), True
    chances = [rng.random() for _ in range(rng.randrange(1, 6))]
    yield 'union', [chances], lambda: indep_events_union(chances), True
    yield 'intersection', [chances], lambda: indep_intersection(chances), True
    yield 'facts', [ins], lambda: [(i.storages_used().append(1), i.storages_read().append(1), i.storages_written().append(1),
                                    i.is_branch, i.modifies_flags(), i.branch_to(ins)) for i in ins], True
    candidates = dict(s['candidates'])
    yield 'journey', [functions, candidates], lambda: recover_program.run_recovery(
        functions, Added(candidates), ProbabilisticRecuperator, 1), True
    listed = [list(v) for v in battery.corrupted(s).values()]
    first = [i for i in ins]
    yield 'report', [first, lambda: [sorted(v, key=lambda c: c.encoding) for v in listed]], \
        lambda: recover_program.print_report('given.txt', first, listed), True


def given(ctx):
    rng = ctx.rng
    s = spec(rng)
    if s['model']:
        # The model stays one of probabilities: some of them are doubled for likelier jumps
        s['model'] = [x / 2 for x in s['model']]
    for name, what, act, scores in operations(ctx, s):
        for turn in range(rng.choice([1, 1, 2])):
            ctx.turn = turn
            a, b = Plain(scores), Plain(scores)
            before = a.of(what)
            facts = [(sorted(i.storages_used()), sorted(i.storages_read()), sorted(i.storages_written()))
                     for x in what if isinstance(x, list) for i in x[:12] if isinstance(i, CAPSInstruction)]
            act()
            after = b.of(what)
            if after != before:
                k = next((k for k in range(1, len(before)) if before[k] != after[k]), 0)
                ctx.fail('given-changed', 'an operation changed what it was given', operation=name, argument=k,
                         before=before[k], after=after[k])
            ctx.eq([(sorted(i.storages_used()), sorted(i.storages_read()), sorted(i.storages_written()))
                    for x in what if isinstance(x, list) for i in x[:12] if isinstance(i, CAPSInstruction)], facts,
                   'facts-changed', 'an operation changed the facts of an instruction', operation=name)
            ctx.ev('operations')
            ctx.ev('facts_compared', a.facts)
            if turn:
                ctx.ev('again')
    ctx.distinct(s)
    ctx.note(instructions=sum(len(b) for _, b in s['functions']))
    for n in os.listdir('.'):
        if n.endswith('.sol') or n.startswith(('given', 'instructions', 'corrupted_program')):
            os.remove(n)


WORKLOADS = [W('given', given, 200, 3000)]
