#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and the check modules (only those that exist)."""
import ast
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'semantic_codec/'
# id: title, statement, over, quantifier text, why tests can't, [(mechanism, file, where)], technique
T = {}


def p(i, title, statement, over, text, why, mech, technique):
    assert len(title) <= 80, i
    T[i] = (title, statement, over, text, why, mech, technique)


p('C01', 'Copying bits between words changes exactly the requested bits',
  'Copying a range of bits from one 32-bit word into another puts exactly those bits, in order, at the destination and leaves every other destination bit as it was. '
  'A range that is reversed, negative or does not fit in either word is refused. '
  'The predicates and masks over bit positions agree with the value of each bit.',
  ['inputs'], 'every (source range, destination) pair and every pair of 32-bit words',
  'The tests copy a handful of ranges between fixed words; the guarantee is over every range and all values.',
  [('bit copy', S + 'architecture/bits.py', 'Bits.copy_bits'), ('range check', S + 'architecture/bits.py', 'Bits.check_range'), ('masks', S + 'architecture/bits.py', 'Bits.set, on, is_on, are_on')],
  'runtime monitor: bit-by-bit reference oracle over observed copies')
p('C02', 'The bit queue returns the bits that were put in, in order',
  'Over any history of additions and removals, with the word size changed in between, the bits taken out of the queue are the bits put in, in the same order, none lost, repeated or altered. '
  'The queue says it is empty exactly when all of them were taken out, and two queues never affect each other.',
  ['histories', 'inputs'], 'every history of enqueue, dequeue and word-size changes over any values and offsets',
  'Tests run a few short histories with one word size; errors appear when values straddle 32-bit words after particular histories.',
  [('enqueue', S + 'architecture/bits.py', 'BitQueue.enqueue'), ('dequeue', S + 'architecture/bits.py', 'BitQueue.dequeue')],
  'runtime monitor: operation log checked online against a FIFO model')
p('C03', 'Interleaving orders list every packet exactly once',
  'The 2-D interleaving order built for any number of packets contains each packet index exactly once, in the nested and in the flat form, and both forms agree. '
  'The packing matrix of every exponent is a permutation of its cells.',
  ['inputs', 'configurations'], 'every positive packet count; every matrix exponent',
  'Tests pin a few orders; an order with a missing or repeated packet loses data only at some packet counts.',
  [('order', S + 'interleaver/interleaver2d.py', 'build_2d_interleave_sp'), ('packing', S + 'interleaver/interleaver2d.py', 'sucesive_packing')],
  'runtime monitor: permutation oracle over produced orders')
p('C04', 'Packing spreads every aligned block over distant packets',
  'In the packing array of side 2^m, any two cells of an aligned block of side 2^k hold packet numbers that are a multiple of 4^(m-k) apart, so a burst that fits such a block hits packets at least that far from each other. '
  'With exactly 4^m packets, the order in which packets are sent is that array read row by row.',
  ['inputs', 'configurations'], 'every exponent and every aligned block',
  'Spreading is what makes a burst recoverable, yet any permutation passes a round-trip test.',
  [('packing', S + 'interleaver/interleaver2d.py', 'sucesive_packing'), ('order', S + 'interleaver/interleaver2d.py', 'build_2d_interleave_sp')],
  'runtime monitor: spreading oracle over produced arrays')
p('C05', 'Without losses, deinterleaving restores the data and reports no error',
  'Data interleaved into packets and deinterleaved with the same order and chunk size is identical to the input over its whole length, with no chunk reported missing. '
  'Each packet carries exactly the chunks its place in the order assigns to it. '
  'Interleaving does not alter the data, and neither direction alters the order.',
  ['inputs', 'configurations'], 'all data, packet counts, orders and chunk sizes dividing the word',
  'Tests round-trip a few sizes that divide evenly; uneven packets and other chunk sizes decide differently.',
  [('interleave', S + 'interleaver/interleaver2d.py', 'interleave'), ('deinterleave', S + 'interleaver/interleaver2d.py', 'deinterleave')],
  'runtime monitor: round-trip and per-packet content oracle')
p('C06', 'After packet loss every surviving chunk is in place, every lost one told',
  'When packets are lost, every chunk carried by a packet that arrived is restored at its original position, bit for bit. '
  'Every other chunk, up to the end of the last round in which some packet that arrived carried one, is reported as missing, at its position, and no chunk that arrived is. '
  'Losing every packet is refused instead of producing data.',
  ['fault_sequences', 'inputs', 'configurations'], 'every set of lost packets, marked or removed, over all data, orders and chunk sizes',
  'Tests lose one fixed packet; which packet is lost (the first, the longest, several) decides whether positions shift.',
  [('deinterleave', S + 'interleaver/interleaver2d.py', 'deinterleave')],
  'runtime monitor: fault injection (packet loss) with a chunk-level channel model as oracle')
p('C07', 'Predicted corruption names exactly the bits that lost packets carried',
  'The corruption predicted for a packet count, chunk size, data size, order and set of lost packets lists exactly the bit ranges those packets carried, no more and no less, whatever order the packets are listed in. '
  'It agrees with what deinterleaving reports when the same packets are really lost.',
  ['fault_sequences', 'configurations'], 'every combination of parameters and lost packets',
  'Tests pin two small configurations; the prediction drives what recovery considers corrupted, over all of them.',
  [('prediction', S + 'corruption/corruption.py', 'predict_corruption'), ('deinterleave', S + 'interleaver/interleaver2d.py', 'deinterleave')],
  'runtime monitor: differential oracle against channel model and real deinterleaver')
p('C08', 'Packet corruption yields every variant of the lost bits, and only those',
  'After simulated packet loss, the candidates of each instruction are exactly the words obtained by giving the lost bits of that instruction every combination of values: distinct, the original included, all at its address. '
  'Where there were several candidates already, this holds of each of them. An instruction that lost nothing keeps its single original word, and a corruptor used again starts afresh.',
  ['fault_sequences', 'programs', 'configurations'], 'every program, address layout, packet count, order and set of lost packets',
  'Tests count candidates of one program and configuration; a missing variant makes recovery impossible and goes unseen.',
  [('corruptor', S + 'corruption/corruptors.py', 'PacketCorruptor.corrupt'), ('variants', S + 'corruption/corruption.py', 'corrupt_all_bits_tuples')],
  'runtime monitor: fault injection with candidate sets compared against the channel model')
p('C09', 'Random corruption damages the asked share of a program, keeping originals',
  'Random corruption of a program ends for every percentage from 0 to 100, damages the requested share of its instructions, and leaves the others with their single original. '
  'Each damaged instruction keeps its original among distinct candidates at the same address, differing from it in no more bits than allowed, and every number of bits up to that occurs. '
  'Percentages out of range are refused.',
  ['programs', 'inputs', 'configurations'], 'every program layout, percentage, error amount and random outcome',
  'Tests run one seed-dependent corruption; termination and the share depend on the program layout and percentage.',
  [('program', S + 'corruption/corruption.py', 'corrupt_program'), ('instruction', S + 'corruption/corruption.py', 'corrupt_instruction'), ('corruptor', S + 'corruption/corruptors.py', 'RandomCorruptor.corrupt')],
  'runtime monitor: invariants over corrupted programs, step budget for termination')
p('C10', 'Bit corruption enumerates exactly the variants of the chosen bits',
  'Varying a bit range or several disjoint ranges of a word gives each combination of those bits exactly once, all other bits intact. '
  'Corrupting up to n random bits of a range gives every combination of some n bits of it, and corrupting an instruction touches only the fields asked for.',
  ['inputs'], 'every word, range, list of ranges, field and error amount',
  'Tests count the results of a few ranges; wrong members of the right number pass.',
  [('range', S + 'corruption/corruption.py', 'corrupt_all_bits'), ('ranges', S + 'corruption/corruption.py', 'corrupt_all_bits_tuples'), ('random bits', S + 'corruption/corruption.py', 'corrupt_bits'), ('distribution', S + 'corruption/corruption.py', 'distribute_random_amount')],
  'runtime monitor: exact variant-set oracle')
p('C11', 'A corrupted program saved to JSON loads back identical',
  'Every address in its order, and every candidate at it in its order, of a corrupted program written to a file is read back with the same encoding and address. '
  'This holds when the file replaces a longer one and when a corruptor wrote it while corrupting.',
  ['programs', 'histories'], 'every corrupted program, and every history of files overwritten',
  'Tests do not compare a loaded program candidate by candidate; addresses travel as text and lists are re-created.',
  [('save', S + 'corruption/corruption.py', 'save_corrupted_program_to_json'), ('load', S + 'corruption/corruption.py', 'load_corrupted_program_from_json'), ('corruptor', S + 'corruption/corruptors.py', 'JSONCorruptor.corrupt')],
  'runtime monitor: round-trip oracle over saved files')
p('C12', 'Decoded instruction facts match the ARM meaning of the word',
  'For every word and address, the condition, opcode, branch kinds, jump target, flag effect and undefinedness reported are those the ARM encoding defines, with targets reduced to the 32-bit space. '
  'They do not depend on what was asked before, and asking does not alter the instruction. '
  'Looking up a branch target finds the instruction at that address or nothing, and a list of words decodes in order, undefined ones only on demand.',
  ['inputs', 'histories'], 'all 32-bit words at all word-aligned addresses, any order of questions',
  'Tests check about twenty instructions; decode errors hide in operand forms and addresses they do not use.',
  [('decode', S + 'architecture/capstone_instruction.py', 'CAPSInstruction'), ('fields', S + 'architecture/instruction.py', 'Instruction'), ('lookup', S + 'architecture/instruction.py', 'Instruction.branch_to')],
  'runtime monitor: encoder-derived oracle plus differential disassembly')
p('C13', 'Storages read and written match the operands of the instruction',
  'The registers and memory an instruction reads, writes and uses are those its encoding names in reading and writing positions, register 0 and repeated registers included. '
  'The used set is the union of both, answers are stable over repeated questions in any order, and callers changing an answer do not affect later ones.',
  ['inputs', 'histories'], 'every template with every register in every operand position',
  'Tests check some registers of about twenty instructions; r0, shifts and multi-operand forms escape.',
  [('operands', S + 'architecture/capstone_instruction.py', 'registers_used, registers_written, registers_read'), ('storages', S + 'architecture/instruction.py', 'storages_read, storages_written, storages_used')],
  'runtime monitor: encoder-derived read/write sets as oracle')
p('C14', 'Reading a disassembly yields every function and instruction it lists',
  'Reading a disassembly in either supported format yields exactly the functions listed, in order, each with exactly its instructions: same words, same addresses. '
  'Data, symbols, headings and blank lines contribute nothing, and reading again gives the same result.',
  ['inputs'], 'every well-formed file in the two formats',
  'Tests read a few sample files and count; layouts those files lack (several sections, gaps, high addresses) decide.',
  [('elfio reader', S + 'architecture/disassembler_readers.py', 'ElfioTextDisassembleReader'), ('text reader', S + 'architecture/disassembler_readers.py', 'TextDisassembleReader')],
  'runtime monitor: generated files compared with their source list')
p('C15', 'Program metadata is what a recount of the program gives',
  'The counts of conditions, opcodes and storages collected from a program equal their numbers of occurrences over its live instructions. '
  'The least, greatest and mean distances of a storage are those between its definitions and the reads that follow, in program order, also for a collector used before.',
  ['programs'], 'every program, with discarded and undefined entries',
  'Tests pin the figures of one sample; distances depend on every interleaving of writes and reads.',
  [('collector', S + 'metadata/metadata_collector.py', 'MetadataCollector.collect')],
  'runtime monitor: metadata recomputed independently from the program')
p('C16', 'Corrupted-program metadata counts each address once per value',
  'For every condition, opcode and storage, the collected figure is the number of addresses that have at least one live candidate with that value. '
  'It is recomputed from nothing for each program given to a collector.',
  ['programs', 'histories'], 'every corrupted program, every sequence of programs',
  'Tests use one collector on one program without discarded candidates.',
  [('collector', S + 'metadata/metadata_collector.py', 'CorruptedProgramMetadataCollector.collect')],
  'runtime monitor: counts recomputed from sets per address')
p('C17', 'Scores are bounded, explained, and eliminate only what they should',
  'Every score and its components lie between 0 and 1; the condition, opcode and register components follow the metadata, the branch component its target, and a candidate with a value the metadata excludes scores 0. '
  'The overall score is the product of the components that apply: for a branch (returns by pop included) its target, for other pushes and pops their registers and pairing, for the rest their registers and register distance. '
  'Elimination removes exactly the candidates scored 0 and, where some candidate scores 1, those scored less.',
  ['programs', 'fault_sequences'], 'every program and corruption; every table of component scores; every list of scored candidates',
  'Tests check single rules on tiny programs; combination and elimination are untested and act on all inputs.',
  [('passes', S + 'metadata/recuperator.py', 'ProbabilisticRecuperator._recover'), ('combination', S + 'metadata/recuperator.py', 'probabilistic_rules, probabilistic_rules_remove_step'), ('elimination', 'recover_program.py', 'remove_bad_candidates_at_addr')],
  'runtime monitor: online score invariants and recomputed components')
p('C18', 'Recovery never discards the original instruction',
  'Throughout a recovery, after every pass and at its end, each address still has its original instruction among its candidates, no candidate was added or moved, and the number of candidates never grows. '
  'Without corruption the program comes out unchanged, and recovery always ends.',
  ['programs', 'fault_sequences', 'histories'], 'every program of contiguous functions and every corruption that keeps the originals',
  'No test runs the recovery; the guarantee must hold after each pass over any program and loss.',
  [('recovery', 'recover_program.py', 'run_recovery'), ('passes', S + 'metadata/recuperator.py', 'ProbabilisticRecuperator'), ('elimination', 'recover_program.py', 'remove_bad_candidates_at_addr')],
  'runtime monitor: online invariant after every recovery pass under fault injection')
p('C19', 'Recovery does not depend on candidate order and repeats identically',
  'Scores and surviving candidates are the same whatever order the addresses and candidates of the corrupted program are presented in. '
  'Scoring again without any change gives the same scores, and recovering another program in between changes nothing.',
  ['programs', 'histories', 'schedules'], 'every program, every order of addresses and candidates, every interleaving of recoveries',
  'Order dependence and leaking state show only by comparing whole runs, which no test does.',
  [('passes', S + 'metadata/recuperator.py', 'ProbabilisticRecuperator._recover')],
  'runtime monitor: metamorphic comparison of observed runs')
p('C20', 'Constraint pruning removes only contradicted candidates and never originals',
  'The enumerator discards exactly the candidates that need a condition, opcode or storage the already settled part of the program has used up; the last candidate listed at an address always stays, and an original is never discarded. '
  'The size and number it reports for the solution are those of the remaining candidates.',
  ['programs', 'fault_sequences'], 'every corrupted program whose originals are among the candidates',
  'The tests build two tiny programs; pruning order and counting depend on the whole program.',
  [('pruning', S + 'solution/solution_builders.py', 'AbstractForwardConstraintSolutionBuilder.build'), ('number', S + 'solution/solution_builders.py', 'ForwardConstraintSolutionEnumerator')],
  'runtime monitor: reference simulation compared with observed reduction')
p('C21', 'The solution bit stream identifies every original instruction',
  'Reading the solution bits with the corrupted program at hand gives, for every address, the original instruction: each ambiguous address takes the least number of bits that can number its candidates, and the others take none. '
  'The reported size is the number of those bits.',
  ['programs', 'fault_sequences'], 'every corrupted program, whatever the candidate counts and order',
  'Tests decode two fixed programs; counts that are not powers of two and textual twins differ.',
  [('builder', S + 'solution/solution_builders.py', 'ForwardConstraintSolutionBuilder'), ('index', S + 'solution/solution_builders.py', '_find_address_correct_index')],
  'runtime monitor: independent decoder as oracle')
p('C22', 'A solution file holds the candidates up to the original, which it marks',
  'A solution written for a corrupted program reads back with the same addresses in the same order and, for each, the candidate words in the same order up to the original, which is marked; the candidates after it are left out. '
  'The file follows the documented layout exactly and replaces whatever was there; a program lacking an original is refused. '
  'Originals and candidates read back can be worked on independently.',
  ['programs', 'histories'], 'every corrupted program over the whole address space',
  'Tests write one program; byte order, high addresses and marker positions vary with the program.',
  [('writer', S + 'solution/solution_io.py', 'SolutionWriter.write_binary'), ('reader', S + 'solution/solution_io.py', 'SolutionReader.read')],
  'runtime monitor: round trip plus independent parser')
p('C23', 'A truncated or foreign solution file is refused, never misread',
  'A solution file cut off at any point before its end, or whose leading mark is damaged, is refused with an error. '
  'What a refused writing leaves behind is refused too. A reader that met such a file still reads the next good one correctly.',
  ['crash_points', 'fault_sequences'], 'every truncation point and every damage to the leading word',
  'Tests read only complete files written just before.',
  [('reader', S + 'solution/solution_io.py', 'SolutionReader.read')],
  'runtime monitor: fault injection at every truncation point')
p('C24', 'Solution quality figures describe the candidates, whatever is asked first',
  'The number of solutions is the product of the candidate counts, the size its base-2 logarithm, the bins how many addresses have each candidate count, and the depth the worst relative rank by score of an original. '
  'The figures do not depend on the order or number of questions, and judging keeps every candidate. An address without candidates makes the number of solutions 0 and counts in the bins.',
  ['programs', 'histories'], 'every corrupted program and score assignment, every order of questions',
  'Tests ask one figure of one program.',
  [('figures', S + 'solution/solution_quality.py', 'SolutionQuality')],
  'runtime monitor: figures recomputed in exact arithmetic')
p('C25', 'The control-flow graph has every possible step and no impossible one',
  'Every step execution can take between instructions of a function, with each conditional instruction executed or skipped, is a path in its graph, and every edge between instructions is a step some execution can take. '
  'A jump to nobody knows where passes through a node of its own kind to the end, and on to the next instruction if it is a call. '
  'Every instruction is in exactly one block, in order, also when conditional nodes are removed.',
  ['programs', 'histories'], 'every function and every execution of it',
  'Tests count nodes and edges of three samples; a missing or extra edge at one branch shape is not seen.',
  [('graph', S + 'static_analysis/cfg.py', 'ARMControlFlowGraph.build'), ('conditionals', S + 'static_analysis/cfg.py', 'remove_conditionals')],
  'runtime monitor: executions of an interpreter checked step by step against the graph')
p('C26', 'Dominators and dominance frontiers are those of the graph',
  'The immediate dominator given to each reachable node is the one the definition gives, for every graph and order of nodes and edges, also when computed again after the graph changed. '
  'The dominance frontier of each node is exactly the set the definition gives, and it is refused before dominators are known.',
  ['inputs', 'histories'], 'every rooted directed graph and every sequence of changes',
  'Tests use two textbook graphs; irreducible graphs, self loops and unreachable parts behave differently.',
  [('dominators', S + 'static_analysis/dominators.py', 'build_dominator_tree'), ('frontiers', S + 'static_analysis/ssa.py', 'build_dominance_frontier')],
  'runtime monitor: definitional oracle (node removal) over random graphs')
p('C27', 'SSA names are unique and every read names the definition that reaches it',
  'In SSA form each definition has its own name, and on every path each read names exactly the definition that reaches it there, phi functions included. '
  'Phi functions are placed only where definitions of a value that some block takes from before can meet, none is left whose value its block overwrites unread, and value dependencies list the definitions an instruction uses.',
  ['programs', 'histories'], 'every function and every path through its graph',
  'Tests build SSA for two samples; reaching definitions vary along every path.',
  [('phi placement', S + 'static_analysis/ssa.py', 'place_phi_nodes'), ('renaming', S + 'static_analysis/ssa.py', 'SSAFormBuilder')],
  'runtime monitor: random path walks against reaching definitions')

exec(open(os.path.join(HERE, 'tools', 'describe_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'describe_more.py')) else None


def consts(i):
    t = ast.parse(open(os.path.join(HERE, 'checks', i + '.py')).read())
    return {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign)
            and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'LEVEL_NOTE')}


NA = globals().get('NA', {})
props, checks = [], []
for i in sorted(set(T) | set(NA)):
    title, st, over, text, why, mech, tech = (T.get(i) or NA[i][:-1])
    props.append({'id': i, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': sorted({f for _, f, _ in mech}),
                              'mechanism': [{'name': n, 'where': f + ': ' + w} for n, f, w in mech],
                              'hook_needed': None}})
    if i in NA:
        continue
    c = consts(i)
    note = c['LEVEL_NOTE'] + '. Assumes: ' + ('; '.join(c['ASSUMPTIONS']) or 'nothing beyond the API') + '.'
    checks.append({'property': i, 'quick_cmd': './run.py ' + i, 'thorough_cmd': './run.py %s --tier thorough' % i,
                   'technique': tech, 'level': 'exploration', 'level_note': note})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    f.writelines(json.dumps(x) + '\n' for x in props)
json.dump({'version': 1, 'setup_cmd': 'true',
           'checks': checks,
           'not_applicable': [{'property': i, 'reason': NA[i][-1]} for i in sorted(NA)],
           'notes': 'No hooks in /repo: every monitor observes through the public API. Verdicts: exit 0 held, 1 violated, 2 '
                    'inconclusive (too little observed). Known findings: known_findings.json.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')
