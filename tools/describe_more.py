# Further entries for tools/describe.py.
p('C28', 'Event probabilities combine as probability theory says',
  'The probability of the union of independent events, and of them all happening, is the one obtained by summing over all outcomes, whatever the order and however many events are given. '
  'No events at all are refused, results stay between 0 and 1, and the uniform density integrates to one.',
  ['inputs'], 'every list of probabilities',
  'Tests combine two or three events; the alternating sums go wrong only for particular counts.',
  [('union', S + 'probability/probabilities.py', 'indep_events_union'), ('intersection', S + 'probability/probabilities.py', 'indep_events_intersection')],
  'runtime monitor: exhaustive outcome enumeration as oracle')
p('C29', 'Huffman codes are decodable, optimal, and their sizes the real ones',
  'The code built for any table of frequencies gives each symbol one code, none the start of another, and the total size is the least any such code can reach. '
  'The reported size is that of the code, and the frequencies of registers, opcodes and conditions counted in a program are those of the program, however often it is counted.',
  ['inputs', 'programs', 'histories'], 'every table of frequencies and every program',
  'Tests compare one small table; ties, zeros and tables of one symbol decide differently.',
  [('code', S + 'compressor/huffman.py', 'huffman_encode, huffman_size'), ('frequencies', S + 'compressor/huffman.py', 'InstructionPartFrequencyCounter')],
  'runtime monitor: prefix and optimality oracle over produced codes')
p('C30', 'From disassembly through loss and recovery to the solution, bits survive',
  'A program read from a disassembly, sent as interleaved packets some of which are lost, recovered and stored is given back by its final solution, which holds the candidates the recovery left: picking the marked candidates yields the original, word for word, and no bit outside the predicted losses ever differs from the original in any candidate. '
  'Recovery passes go on exactly as long as something is left to eliminate, and each asks the recuperator for the rounds wanted. '
  'Starting over from the stored corrupted program leads to the same solution, and the program given stays as it was.',
  ['programs', 'fault_sequences', 'histories'], 'every program of contiguous functions and every loss of packets or bits',
  'No test runs the whole chain; errors of one stage can be hidden or caused by another.',
  [('pipeline', 'recover_program.py', 'run_recovery'), ('reader', S + 'architecture/disassembler_readers.py', 'ElfioTextDisassembleReader'), ('corruption', S + 'corruption/corruptors.py', 'PacketCorruptor'), ('writer', S + 'solution/solution_io.py', 'SolutionWriter')],
  'runtime monitor: end-to-end conservation check under fault injection')
p('C31', 'The constraint problem has exactly the programs its metadata allows',
  'The constraint problem built for a corrupted program is solved exactly by the choices of one candidate per address whose condition, operation and storage counts equal the metadata, discarded and undefined candidates counting for nothing. '
  'The original program is among them when the metadata is its own, and building leaves the program and metadata as they were.',
  ['programs', 'inputs'], 'every corrupted program and metadata',
  'Tests solve one tiny problem; a constraint that is too strong or too weak shows only by enumerating all choices.',
  [('builder', S + 'solution/solution_builders.py', 'ProblemBuilder')],
  'runtime monitor: brute-force enumeration as oracle')
p('C32', 'Graphs written as DOT describe the same graph and read back equal',
  'A graph or hypergraph written as DOT describes exactly its nodes, edges, labels, weights and attributes to an independent parser, each edge once. '
  'Reading it back gives an equal graph, directed or not. What is no graph is not written, and text that is no graph is refused.',
  ['inputs'], 'every graph with names, labels and attributes the format can hold',
  'No test writes or reads DOT; names with dashes, loops and opposite edges need care.',
  [('writer', 'libs/dot/dotio.py', 'write'), ('reader', 'libs/dot/dotio.py', 'read, read_hypergraph')],
  'runtime monitor: round trip plus independent parser')
p('C33', 'Compressing away lost chunks keeps every other bit, in order',
  'Removing the bits predicted to be lost leaves exactly the other bits of the program, in their order. '
  'The swapping variant and the storing program keep the size and change no bit outside the lost chunks. '
  'The input is never altered.',
  ['inputs', 'fault_sequences', 'configurations'], 'every program and every set of non-overlapping lost chunks',
  'No test compresses; chunks at the ends of words and of the program shift everything after them.',
  [('shift', S + 'compressor/shiftcompressor.py', 'ShiftCompressor'), ('swap', S + 'compressor/shiftcompressor.py', 'SwapCompressor'), ('store', 'store_packets.py', '__main__')],
  'runtime monitor: bit-by-bit reference stream')
R = S + 'metadata/probabilistic_rules/'
p('C34', 'Counting rules share out what the metadata has left of each value',
  'The counting rules score a candidate with what the metadata of its condition, operation or registers has left after the settled addresses took theirs, divided by the candidates that could still have it. '
  'Discarded candidates count for nothing and get no score, scores of other rules and passes stay as they are, and a rule tells whether it changed a score.',
  ['programs', 'inputs', 'histories'], 'every corrupted program with its own metadata, every order of addresses and passes',
  'Tests corrupt one field of one instruction and only compare the original with its rivals.',
  [('counting', R + 'counting_rules.py', 'CountingRule'), ('update', R + 'rules.py', 'Rule')],
  'runtime monitor: scores recomputed from recounted candidates')
p('C35', 'Conversions of a program keep every instruction, in address order',
  'Turning a program from a list into a dictionary, from a dictionary into a list and from functions into a list keeps exactly its instructions, the same objects, ordered by address. '
  'The bounds given for a function are the addresses of its first and last instruction. '
  'The converted program is left as it was.',
  ['programs', 'inputs'], 'every program, in any order of instructions, addresses and functions',
  'No test converts a program whose order differs from that of its addresses.',
  [('conversions', R + 'rules.py', 'from_instruction_dict_to_list, from_instruction_list_to_dict, from_functions_to_list_and_addr'), ('functions', S + 'architecture/functions.py', 'ElfFunction')],
  'runtime monitor: object identity oracle over conversions')
p('C36', 'The progress bar never goes back and completes exactly once',
  'Over any number of steps the percentages and the bar printed never decrease, and each bar has the length asked for. '
  'Completion is printed exactly once, followed by a line end, and nothing is printed after it, however often progress is reported.',
  ['inputs', 'histories'], 'every total and print distance, at least as many reports as steps',
  'No test uses the progress bar; totals near the print distance take other branches.',
  [('bar', S + 'report/print_progress.py', 'TextProgressBar.progress')],
  'runtime monitor: online checker over the text written')
p('C37', 'Changing a field of an instruction changes that field and nothing else',
  'Setting the condition, operation, a register or the immediate of an instruction word puts exactly the given value in that field and leaves every other bit of the word as it was. '
  'The changed word decodes to the instruction that was asked for.',
  ['inputs'], 'every 32-bit word and every field value, also wider than the field',
  'The only test of the modifiers cannot run here, and it sets one field of one word.',
  [('fields', S + 'architecture/instruction_modifier.py', 'InstructionModifier.modify_cond, modify_opcode, modify_rn, modify_rd, modify_rs, modify_rm, modify_immediate')],
  'runtime monitor: bit-field reference plus decoding of the result')
p('C38', 'Flow and distance rules score the live neighbours, which decide who goes',
  'The flow rule rewards conditions shared with the live candidates next to it and jumps inside the program; the distance rule rewards reading what live candidates write within the distances of the metadata. '
  'The rule-based recuperator discards exactly the candidates that some rule gave nothing, in several passes only, and never adds, removes or revives one.',
  ['programs', 'configurations', 'histories'], 'every corrupted program with its own metadata, every model and number of passes',
  'Tests score one instruction each and only compare the original with its rivals.',
  [('flow', R + 'rules.py', 'ControlFlowBehavior'), ('distance', R + 'distance_rule.py', 'RegisterReadDistance'), ('discarding', S + 'metadata/recuperator.py', 'Recuperator')],
  'runtime monitor: scores and discards recomputed from the live candidates')
p('C39', 'The recovery report gives the figures of the candidates it lists',
  'The report lists every address with its candidates by falling score, and counts as lost, tied or recovered exactly the addresses that are. '
  'The positions of the originals, the rules that favoured false winners, the average tie and the ratio are those of the listed candidates. '
  'Reporting alters no candidate and gives the standard output back.',
  ['programs', 'inputs'], 'every recovered program, with any scores and ties',
  'No test looks at the report, on which every conclusion about a recovery rests.',
  [('report', 'recover_program.py', 'print_report')],
  'runtime monitor: report parsed and recomputed')
p('C40', 'Discarded candidates have no influence on the others',
  'The scores of the live candidates of a program, in the recovery and in each single rule, and which of them survive, are the same whether discarded candidates are still listed or not, and whatever instructions they are.',
  ['programs', 'histories'], 'every corrupted program and every choice of discarded candidates',
  'Tests score programs without discarded candidates.',
  [('scores', S + 'metadata/recuperator.py', 'ProbabilisticRecuperator'), ('rules', R + 'rules.py', 'ControlFlowBehavior'), ('elimination', 'recover_program.py', 'remove_bad_candidates_at_addr')],
  'runtime monitor: metamorphic comparison of two recoveries')
p('C41', 'Heuristic scores are what the model assigns to the live surroundings',
  'The control-flow score of a candidate is the one the model assigns to the shares of live neighbours with its condition or setting flags, and its push or pop score the one for a matching pop or push in its function. '
  'The score of a branch is the one the model assigns to where it goes: its own function, the start of another, elsewhere in the program or outside. '
  'The register-distance score is the chance that live candidates write what it reads within the distances of the metadata; a model that is passed in is the one used.',
  ['programs', 'configurations'], 'every corrupted program with its own metadata, and every model',
  'No test looks at these scores: each is one of many cases of neighbouring candidates.',
  [('flow', S + 'metadata/recuperator.py', '_compute_proper_cfg'), ('push and pop', S + 'metadata/recuperator.py', '_compute_push_pop'), ('distance', S + 'metadata/recuperator.py', '_compute_register_distance'), ('model', S + 'metadata/probabilistic_model.py', 'DefaultProbabilisticModel')],
  'runtime monitor: scores recomputed from the live neighbourhood')
p('C44', 'The lattice interleaving puts near positions into different packets',
  'Every row of the matrix takes the packets in turn, each row shifted cyclically by the same amount from the row above. '
  'With (t*t+1)/2 packets, no two positions nearer than t steps (along rows and columns) share a packet; with any other count of at least three, no two neighbours do. '
  'A size left out is inferred from the data, and data of no given size is refused.',
  ['inputs', 'configurations'], 'every packet count, every width and height',
  'Tests look at a single matrix, whose shift happens not to wrap.',
  [('matrix', S + 'interleaver/interleaver2d.py', 'build_2d_interleave_matrix_blaum')],
  'runtime monitor: every pair of near positions compared in built matrices')
p('C45', 'The same input gives the same result in every process and history',
  'Reading, decoding, damaging, collecting, scoring, recovering, pruning, storing and analysing a program yield the same results in every process, whatever seed the hashes of texts have, when objects are made anew. '
  'What was done before with other programs, or with results given out earlier, changes nothing. '
  'Where chance takes part, the state of the random module decides the outcome.',
  ['programs', 'histories', 'configurations'], 'every program, every history of operations before it, every hash seed',
  'Tests run each operation once, in one process, with nothing to compare to.',
  [('recovery', S + 'metadata/recuperator.py', 'ProbabilisticRecuperator'), ('decoding', S + 'architecture/capstone_instruction.py', 'CAPSInstruction'),
   ('corruption', S + 'corruption/corruption.py', 'corrupt_bits'), ('interleaving', S + 'interleaver/interleaver2d.py', 'build_2d_interleave_sp'),
   ('metadata', S + 'metadata/metadata_collector.py', 'MetadataCollector'), ('solutions', S + 'solution/solution_builders.py', 'ForwardConstraintSolutionBuilder')],
  'runtime monitor: results recorded in a new process with another hash seed against those recorded after other operations')
p('C46', 'Operations leave what they are given as it was',
  'Collecting, predicting, packing, saving, writing, posing problems, encoding, compressing, converting, drawing and analysing change none of their arguments: no list is reordered or shortened, no instruction altered, no frequency or order consumed. '
  'Recovery and its rules write only scores and discards, and leave the candidates, the metadata, the functions and the model as they are. '
  'Only ranking (judging, reporting) may reorder the candidates of an address, and only corruption, pruning and elimination change which there are.',
  ['programs', 'inputs', 'histories'], 'every operation and every argument',
  'Tests throw the arguments away after the call.',
  [('collector', S + 'metadata/metadata_collector.py', 'MetadataCollector'), ('rules', S + 'metadata/probabilistic_rules/counting_rules.py', 'CountingRule'),
   ('builders', S + 'solution/solution_builders.py', 'AbstractForwardConstraintSolutionBuilder'), ('writer', S + 'solution/solution_io.py', 'SolutionWriter'),
   ('pipeline', 'recover_program.py', 'run_recovery'), ('packing', S + 'interleaver/interleaver2d.py', 'interleave')],
  'runtime monitor: records of every argument before and after each operation compared')
p('C47', 'Every operation ends in time and stack, however large or tangled the program',
  'Decoding, reading, packing, counting, recovering, judging, pruning, encoding and every flow analysis end for programs that are merely long, deep or heavily branched, without an error of their own. '
  'Their work grows at most about as the cube of the size: paths through the program are not walked one by one, and settled blocks are not visited again and again. '
  'No chain of calls is as deep as the program is long.',
  ['programs', 'inputs'], 'every size and shape of program',
  'Tests use programs of some dozens of instructions, where an explosion or a deep recursion does not show.',
  [('flow', S + 'static_analysis/cfg.py', 'ARMControlFlowGraph'), ('dominators', S + 'static_analysis/dominators.py', 'dominator_eval'),
   ('names', S + 'static_analysis/ssa.py', 'SSAFormBuilder'), ('recovery', S + 'metadata/recuperator.py', 'ProbabilisticRecuperator'),
   ('pruning', S + 'solution/solution_builders.py', 'AbstractForwardConstraintSolutionBuilder'), ('order', S + 'interleaver/interleaver2d.py', 'build_2d_interleave_sp')],
  'runtime monitor: lines executed counted at growing sizes, calls confined to a small stack')
NA = {
 'C42': ('Register renaming keeps an instruction equal but for the register',
         'Renaming a register in an instruction replaces it in the operand asked for and nowhere else, and raising the frequency of common registers keeps a change only if the program still works.',
         ['inputs', 'programs'], 'every instruction, register and new register',
         'The tests of this part cannot be imported.',
         [('renaming', S + 'architecture/instruction_modifier.py', 'modify_register'), ('changer', S + 'compressor/huffman.py', 'InstructionPartFrequencyChanger')],
         'none',
         'The code cannot run here: it needs the native disassembler libs.darm, which is not part of the repository nor of the sandbox, and a method (swap23) that exists nowhere; there is no execution to monitor.'),
 'C43': ('Remote quality checks judge the program that was changed',
         'Each changed instruction is sent to the device running the program once, and its answer decides whether that change is kept.',
         ['histories', 'fault_sequences'], 'every sequence of changes and answers',
         'There is no test.',
         [('client', S + 'distributed/modifier.py', '__main__')],
         'none',
         'The module is a sketch that sends fixed greetings through ZeroMQ (not installed here) to a server that is not in the repository; no change or answer is ever processed, so there is nothing to observe.'),
}
