prop('C01', 'Sample files keep and combine every count exactly',
     'A text sample file written from any set of address, range and branch counts has the documented format and reads back with exactly the same counts; reading several files into one, merging readers and merging files (into a new or an existing output) gives the sums of the counts of all inputs; '
     'the totals reported agree with the counts; and a file that is missing or cut short is an error, which leaves an existing output as it was.',
     ['inputs', 'histories', 'fault-schedules'], 'every sample set, every sequence of write, read, append and merge, every truncation',
     'no upstream test writes a sample file or merges two',
     ['sample_reader.cc', 'sample_reader.h', 'profile_creator.cc', 'sample_merger.cc'],
     [('text format', 'sample_reader.cc: TextSampleReaderWriter'), ('merging', 'sample_reader.cc: SampleReader::Merge; profile_creator.cc: MergeSample')],
     SAN + 'round-trip and sum oracle with an independent parser, truncation faults', 'Exploration: random sample sets and operation sequences; the file is parsed independently.')
prop('C02', 'Perf data becomes exactly the sample counts its branch stacks show',
     'From perf data, an address count is the number of samples in the profiled binary at that offset, a branch count the number of recorded taken branches within it and a range count the number of times the code from one branch target to the next branch source was run; '
     'only mappings of the profiled binary count (by build id, else by its name taken literally), wrong-path entries, duplicated top entries and implausible ranges do not, and the counts of several perf files add up, whatever else was read before.',
     ['inputs', 'configurations', 'histories'], 'every set of processes, mappings, build ids and branch stacks, every list of perf files',
     'one upstream test reads one recorded file and compares a few counts',
     ['sample_reader.cc', 'sample_reader.h', 'profile_creator.cc'],
     [('branch stacks', 'sample_reader.cc: PerfDataSampleReader::Append'), ('matching the binary', 'sample_reader.cc: MatchBinary, GetFileName')],
     SAN + 'differential oracle over generated perf data', 'Exploration: generated perf data through a stand-in of quipper\'s reader and parser (see DESIGN.md); the counts are recomputed independently.')
prop('C03', 'Source-level profiles attribute every sample to the right inlined function',
     'From address-level samples and debug information, every function whose samples (its split parts taken together) exceed the threshold, and no other, gets a profile; every sampled address inside it adds its count to each function of its inline stack, the count of a source position is the largest one of its instructions, '
     'and every sampled branch to the start of such a function adds to that function\'s head count and to the call targets of the branch\'s source position. Samples outside every function, or past the end of the function they start in, are attributed to nobody.',
     ['inputs', 'configurations'], 'every binary layout (segments, split functions, aliases), inline structure, sample set and attribution option',
     'the tests run one or two fixed binaries; no test recomputes the attribution',
     ['profile.cc', 'profile.h', 'instruction_map.cc', 'symbol_map.cc', 'source_info.h'],
     [('aggregation per function', 'profile.cc: AggregatePerFunctionProfile'), ('attribution', 'profile.cc: ProcessPerFunctionProfile; symbol_map.cc: AddSourceCount, TraverseInlineStack, AddIndirectCallTarget')],
     SAN + 'differential oracle over generated ELF files and inline stacks', 'Exploration: the whole profile is compared with an independent attribution; where several branches of one source position go to one target any aggregate between their least and their sum is accepted.')
prop('C04', 'Addresses resolve to the function that contains them',
     'From any ELF program, kernel image or kernel module exactly the functions are selected (split cold and part symbols included; data, labels, empty symbols and PLT entries not), an address resolves to the function containing it and to none outside, aliases mean the same function, '
     'and sample offsets and link-time addresses translate into each other according to the executable segments (for kernels relative to the first one, for modules, whose sections all start at the same address and of which only .text counts, by that section).',
     ['inputs'], 'every ELF layout and every address',
     'the tests look at fixed binaries with one executable segment and few addresses',
     ['symbol_map.cc', 'symbol_map.h', 'util/symbolize/elf_reader.cc'],
     [('symbol selection', 'symbol_map.cc: BuildSymbolMap'), ('address translation', 'symbol_map.cc: ReadLoadableExecSegmentInfo; symbol_map.h: get_static_vaddr, GetFileOffsetFromStaticVaddr'), ('lookup', 'symbol_map.cc: GetSymbolInfoByAddr')],
     SAN + 'differential oracle over generated ELF files', 'Exploration: generated ELF files, every function boundary looked up.')
prop('C33', 'The list of profiled symbols names the unsampled functions by size',
     'The symbol list stored with a profile contains functions of the binary that the profile does not mention (as function, inlined callee or call target), under the names the suffix policy gives them: all those at least as large as the one at which the largest functions together reach the requested share of the total size, and none when that share is 0 or smaller than the largest function.',
     ['inputs', 'configurations'], 'every binary, profile, suffix policy and coverage ratio',
     'the tests use a fixed list of sizes and a few ratios',
     ['profile_symbol_list.cc', 'profile_symbol_list.h', 'symbol_map.cc'],
     [('size cutoff', 'profile_symbol_list.cc: fillProfileSymbolList'), ('candidates', 'symbol_map.cc: collectNamesForProfSymList, collectNamesInProfile')],
     SAN + 'differential oracle over generated ELF files and profiles', 'Exploration.')
prop('C18', 'Sampled addresses translate to the right address of the right binary',
     'Exactly the mappings that belong to the profiled binary are selected (those whose name the build id list gives for it, or the name asked for: absolute names exactly, others by their last component, the kernel under each of its names), repeated records counting once and contradictory ones being an error; '
     'and a run-time address in one of them translates to its link-time address according to the mapping and the executable segments, any other to none. What is no program, position-independent program or kernel module is rejected, and the description of a kernel module is read as it is written.',
     ['inputs', 'configurations'], 'every binary, list of mappings and build ids, name to match, process and address',
     'the tests use a few recorded profiles, each with one mapping per binary and one executable segment',
     ['perfdata_reader.cc', 'perfdata_reader.h', 'llvm_propeller_binary_content.cc'],
     [('mapping selection', 'perfdata_reader.cc: SelectMMaps, MMapSelector, GetBuildIdNames'), ('translation', 'perfdata_reader.cc: RuntimeAddressToBinaryAddress'), ('binary', 'llvm_propeller_binary_content.cc: GetBinaryContent')],
     SAN + 'differential oracle over generated ELF files and perf data', 'Exploration.')
prop('C19', 'Branch records aggregate to exact counts over all profiles',
     'Over all readable perf files that have the binary, each branch is counted as often as it was recorded (branches with an end outside the binary included), each fall-through as often as one branch\'s target and the next one\'s source show it, and SPE records by taken and not taken; '
     'the number of files, mappings and branches in the statistics agrees with that, as does the account of which branch sources are branch instructions. Unreadable or foreign files are skipped; having none left, or a missing file, is an error.',
     ['inputs', 'configurations', 'histories'], 'every list of perf files, branch stacks, SPE records and options',
     'the tests aggregate one small recorded profile per case',
     ['perfdata_reader.cc', 'llvm_propeller_perf_lbr_aggregator.cc', 'llvm_propeller_perf_branch_frequencies_aggregator.cc', 'lbr_aggregation.h', 'branch_frequencies.h', 'mini_disassembler.cc'],
     [('LBR', 'perfdata_reader.cc: AggregateLBR; llvm_propeller_perf_lbr_aggregator.cc'), ('SPE', 'perfdata_reader.cc: AggregateSpe; llvm_propeller_perf_branch_frequencies_aggregator.cc'), ('branch instructions', 'llvm_propeller_perf_lbr_aggregator.cc: CheckLbrAddress')],
     SAN + 'differential oracle over generated perf data', 'Exploration: the counts are recomputed independently.')
prop('C20', 'SPE samples become the ranges executed by the right process',
     'Every SPE record is attributed to the process its thread belonged to at the record\'s time (else to the recorded context, or to the only process when there is no context), and a profile read from SPE data has, in file offsets, exactly the branches taken within the binary and the ranges that follow from them, '
     'with both ways of telling branches; several profiles add up, and profiles of another binary or architecture are errors.',
     ['inputs', 'configurations', 'histories'], 'every history of threads and processes, every set of SPE records, both strategies',
     'the tests use one recorded profile of a single-threaded program',
     ['spe_tid_pid_provider.cc', 'spe_sample_reader.cc', 'perfdata_reader.cc', 'simple_spe_sample_reader.cc'],
     [('process of a record', 'spe_tid_pid_provider.cc: GetPid'), ('sample reader', 'spe_sample_reader.cc: GenerateAutofdoProfile'), ('reader without LLVM', 'simple_spe_sample_reader.cc')],
     SAN + 'differential oracle over generated perf data', 'Exploration: SPE packets come from a stand-in of quipper\'s decoder.')
prop('C22', 'Executed ranges follow from branch counts without gain or loss',
     'From taken and not-taken branch counts, each run of code from a branch target to the next branch is executed as often as branches lead there plus what falls into it, and after a branch as often as that was not taken; the ranges of the sample are exactly these with their counts, '
     'and its branches those with both ends known. Code that cannot be read ends a range.',
     ['inputs'], 'every set of branch counts, every code, instruction size and address translation',
     'the tests have about ten hand-written cases',
     ['branch_frequencies_autofdo_sample.cc', 'branch_frequencies_autofdo_sample.h'],
     [('ranges', 'branch_frequencies_autofdo_sample.cc: ToRangeCountMap'), ('branches', 'branch_frequencies_autofdo_sample.cc: ToBranchCountMap')],
     SAN + 'differential oracle', 'Exploration: a straightforward instruction-by-instruction computation is the oracle.')
prop('C34', 'Every perf file is delivered once, in order, with its contents',
     'Asking for perf files one by one or all at once delivers every listed file exactly once, in the order of the list, with its exact contents and a description naming it; a read that fails is reported and leaves the file to be read again by the next call.',
     ['histories', 'fault-schedules'], 'every sequence of calls, list of files and failing reads',
     'the test reads two files without failures',
     ['llvm_propeller_file_perf_data_provider.cc', 'llvm_propeller_file_perf_data_provider.h'],
     [('delivery', 'llvm_propeller_file_perf_data_provider.cc: GetNext; GetAllAvailableOrNext')],
     SAN + 'exactly-once monitor with injected read failures', 'Exploration.')
prop('C23', 'Binary addresses map to the blocks they belong to',
     'From a binary and its basic block address map exactly the wanted functions are kept (those containing a sampled address, with a name, in a text section unless all sections are asked for, without functions that share a name with another, except one copy of identical uniquely named ones) with all names and blocks in address order; '
     'an address maps to the block containing it, as a branch target to the first empty block there, as a branch source never to an empty one, and to none outside; code falls through from one block to another of the same function only over blocks that fall through.',
     ['inputs', 'configurations'], 'every address map, symbol table, set of sampled addresses and looked up address',
     'the tests use a few fixed binaries and look up few addresses',
     ['llvm_propeller_binary_address_mapper.cc', 'llvm_propeller_binary_address_mapper.h'],
     [('selection', 'llvm_propeller_binary_address_mapper.cc: SelectFunctions'), ('lookup', 'llvm_propeller_binary_address_mapper.cc: FindBbHandleIndexUsingBinaryAddress, CanFallThrough')],
     SAN + 'differential oracle over generated binaries', 'Exploration.')
prop('C21', 'Fall-throughs between blocks follow from branch counts',
     'From taken and not taken branch counts, a block falls through as often as its last branch was not taken, where its last instruction is known, else as often as it was entered (by branches or from the sampled block before it) but not left by branches, to the next sampled block if the code can run there, else to its successor if it can run there; '
     'taken counts, end points and statistics are passed on unchanged, however often they are asked for.',
     ['inputs', 'histories'], 'every binary, set of branch counts and instruction size',
     'the tests have a dozen hand-written cases on fixed binaries',
     ['frequencies_branch_aggregator.cc', 'frequencies_branch_aggregator.h', 'branch_aggregation.cc'],
     [('inference', 'frequencies_branch_aggregator.cc: InferFallthroughs, ComputeBlockWeights'), ('end points', 'frequencies_branch_aggregator.cc: GetBranchEndpointAddresses')],
     SAN + 'differential oracle over generated binaries', 'Exploration.')
prop('C24', 'Control flow graphs hold exactly the profile\'s branches and fall-throughs',
     'The graphs built from a binary and a profile have, for each function with executed blocks and no other, every block with its address, size, id and properties, and between two blocks one edge, at both ends, whose weight is the sum of the branches, returns (attributed to the calling block) and fall-throughs between them, of the kind these have; '
     'block frequencies and statistics follow from the edges; a profile whose branches mostly hit the middle of blocks or none is rejected; a profile applied on top of existing graphs adds to them.',
     ['inputs', 'histories'], 'every binary and profile, applied at once or in parts',
     'the tests compare a few recorded profiles with golden graphs',
     ['llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_program_cfg_builder.h', 'llvm_propeller_cfg.cc', 'llvm_propeller_cfg.h', 'llvm_propeller_program_cfg.cc'],
     [('edges', 'llvm_propeller_program_cfg_builder.cc: CreateEdges, CreateFallthroughs, InternalCreateEdge'), ('frequencies', 'llvm_propeller_cfg.cc: CalculateFrequency')],
     SAN + 'differential oracle and conservation monitor over generated binaries', 'Exploration: an edge that several kinds of branches make up may be of any of their kinds; weights stay below 2^31.')
prop('C25', 'Graph operations keep every block, edge and weight consistent',
     'In a control flow graph every edge is listed exactly once at both of its ends, adding a weight to an edge adds exactly that weight, and frequencies, hot join blocks and the counts of hot, cold, empty and landing pad blocks follow from the edges; '
     'a copy of a graph is equal to it and independent of it; cloning a path gives new blocks with the right block and clone numbers, and writing graphs as a protocol buffer (in the order of the functions) and reading them back gives the same functions, names, sections, blocks, properties and edges within functions.',
     ['inputs', 'histories'], 'every program graph and sequence of operations on it',
     'the tests build a few graphs of at most ten blocks',
     ['llvm_propeller_cfg.cc', 'llvm_propeller_cfg.h', 'llvm_propeller_program_cfg_proto_builder.cc', 'llvm_propeller_program_cfg.cc', 'llvm_propeller_program_cfg.h'],
     [('edges', 'llvm_propeller_cfg.cc: CreateEdge, CreateOrUpdateEdge'), ('frequencies', 'llvm_propeller_cfg.cc: CalculateFrequency, GetHotJoinNodes, GetNodeFrequencyStats'), ('copies', 'llvm_propeller_cfg.cc: CloneCfg'), ('protocol buffer', 'llvm_propeller_program_cfg_proto_builder.cc')],
     SAN + 'model-based monitor of the graph after every operation, round-trip oracle', 'Exploration of random program graphs.')
prop('C26', 'The code layout places every executed block exactly once',
     'Whatever the layout parameters and the chains given to start from, every function with executed blocks gets clusters in which each block to be laid out (all of them if functions are not split; else the executed ones, the landing pads if one is executed, and without inter-function reordering the entry) appears exactly once, and no other; clusters start where functions change and at entries; blocks that must follow each other (an only executed successor that is an only predecessor) stay together; '
     'without inter-function reordering each function is one cluster; all hot clusters have different consecutive positions in the order, as the call-chain clustering demands; the cold parts are ordered like the functions\' first clusters.',
     ['inputs', 'configurations'], 'every program graph and combination of layout parameters',
     'the tests lay out a dozen small graphs with the default parameters',
     ['llvm_propeller_code_layout.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_chain_cluster_builder.cc', 'llvm_propeller_node_chain.cc', 'llvm_propeller_chain_cluster_builder.h'],
     [('layout', 'llvm_propeller_code_layout.cc: OrderAll'), ('forced paths', 'llvm_propeller_node_chain_builder.cc: GetForcedPaths'), ('clusters', 'llvm_propeller_chain_cluster_builder.cc: BuildClusters, MergeWithBestPredecessorCluster')],
     SAN + 'exactly-once monitor and independent model of the clustering', 'Exploration of random program graphs.')
prop('C27', 'Layout scores are right, and every merge of chains is the best one',
     'The reported scores of the original and of the new layout are the extended-TSP scores of the addresses and of the order given (fall-through, forward and backward jumps weighted with the parameters, calls from and returns to the middle of a block), without overflow at any weight or distance; '
     'while chains are built, the scores, sizes, frequencies and offsets kept for them are always right, every merge is the one that gains most among all ways to join or split two chains, it is carried out as announced, and it ends only when nothing is left to gain; what is left of a function goes entry first, then by execution density, and the statistics count the chains and merges there were.',
     ['inputs', 'configurations', 'histories'], 'every program graph and combination of layout parameters, every step of chain building, either queue of candidates',
     'the tests check few scores of small hand-made chains; the greedy choice at each step is never compared with the alternatives',
     ['llvm_propeller_code_layout_scorer.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_node_chain_builder.h', 'llvm_propeller_node_chain_assembly.cc', 'llvm_propeller_node_chain_assembly.h', 'llvm_propeller_node_chain.cc', 'llvm_propeller_node_chain.h', 'llvm_propeller_code_layout.cc'],
     [('score', 'llvm_propeller_code_layout_scorer.cc: GetEdgeScore'), ('gain of a merge', 'llvm_propeller_node_chain_assembly.cc: ComputeScoreGain'), ('carrying it out', 'llvm_propeller_node_chain_builder.cc: MergeChains'), ('layout scores', 'llvm_propeller_code_layout.cc: ComputeCfgScores')],
     SAN + 'step-by-step monitor of chain building against brute force', 'Exploration; brute force up to 40 blocks in the chains.')
prop('C28', 'Written cluster and symbol order files are what compiler and linker need',
     'In each version of the cluster file, every laid out function appears once with all its names, its module where known, its clusters with their block ids in order (the entry block first), its clone paths and nothing else, except requested comments; the order file names every hot cluster\'s symbol in the order of the layout, followed by the cold parts in theirs; '
     'the optional comments and the dumped graphs and index agree with the graphs and layout.',
     ['inputs', 'configurations'], 'every layout, file version and combination of options',
     'the tests compare three files with golden copies',
     ['llvm_propeller_profile_writer.cc', 'llvm_propeller_profile_writer.h', 'llvm_propeller_cfg.cc'],
     [('writer', 'llvm_propeller_profile_writer.cc: Write'), ('graph dump', 'llvm_propeller_profile_writer.cc: DumpCfgs; llvm_propeller_cfg.cc: WriteDotFormat')],
     SAN + 'independent parser of the written files', 'Exploration. The frequency shown in dumped graphs (always 0) is not judged: an existing test pins it.')
prop('C29', 'Propeller\'s output depends on the profile and the binary alone',
     'The cluster files, symbol order and dumped graphs that Propeller writes are, byte for byte, the same whatever the order of the samples in the profile, the division of the samples over files and the order of the files, and whatever the seed of its hash tables is (that is, from run to run).',
     ['inputs', 'histories', 'schedules'], 'every binary, profile, division and hash seed',
     'each test runs once per process, under one seed and one order of samples',
     ['llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc', 'llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_code_layout.cc', 'llvm_propeller_node_chain_builder.cc', 'llvm_propeller_chain_cluster_builder.cc', 'llvm_propeller_binary_address_mapper.cc', 'llvm_propeller_profile_writer.cc'],
     [('edges in a fixed order', 'llvm_propeller_program_cfg_builder.cc: CreateEdges, CreateFallthroughs'), ('chain building', 'llvm_propeller_node_chain_builder.cc'), ('whole run', 'llvm_propeller_profile_generator.cc: GeneratePropellerProfiles')],
     SAN + 'self-comparison of whole runs under varied hash seeds, sample orders and divisions', 'Exploration of generated programs and simulated runs.')
prop('C37', 'The Propeller tool turns recorded runs into profiles as a whole, or fails',
     'create_llvm_prof with the format propeller, given a binary and profiles of its runs, writes a cluster file and a symbol order naming exactly the functions with executed blocks, with the clusters that the recorded branches imply, whatever the way inputs are named (one file, several, a list) and the options; '
     'it exits with an error, not with success, if an input is missing, belongs to another binary, or an output cannot be written.',
     ['inputs', 'configurations', 'faults'], 'every binary, profile, naming of the inputs and outputs, and combination of options',
     'no test runs the tool',
     ['create_llvm_prof.cc', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc', 'llvm_propeller_perf_lbr_aggregator.cc', 'llvm_propeller_perf_branch_frequencies_aggregator.cc', 'llvm_propeller_profile_writer.cc'],
     [('tool', 'create_llvm_prof.cc: main'), ('pipeline', 'llvm_propeller_profile_generator.cc; llvm_propeller_profile_computer.cc')],
     SAN + 'end-to-end differential oracle over generated binaries and simulated runs; the tool run as a subprocess', 'Exploration.')
TSAN = 'runtime monitoring of the real code under ThreadSanitizer: '
prop('C30', 'Status consumers may be used from several threads',
     'Consumers can be registered, started and stopped from several threads at once: every start and stop reaches each consumer registered before it exactly once, in the order of registration, and no two of these calls run at the same time; consumers live as long as their registry. '
     'While Propeller runs, a consumer may read its status from another thread at any time: there is no data race, the progress stays in [0, 100], never goes back, and is done at the end exactly if Propeller succeeded.',
     ['schedules', 'histories'], 'every schedule of the threads and sequence of operations',
     'no test uses the registry or a second thread',
     ['status_consumer_registry.cc', 'status_consumer_registry.h', 'status_provider.h', 'status_provider.cc', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc'],
     [('registry', 'status_consumer_registry.cc'), ('start and stop', 'llvm_propeller_profile_generator.cc: RegistryStopper'), ('progress', 'status_provider.h: DefaultStatusProvider')],
     TSAN + 'race detector, offline checker of recorded call histories, injected delays', 'Exploration of random schedules; the evidence counts overlapping operations and distinct call orders.')
prop('C31', 'Progress, statistics and telemetry tell what happened',
     'A status made of weighted parts reports, at any nesting, the job at work and the weighted progress in [0, 100], done exactly when all parts are done; sums of statistics add every number, and their text shows them; '
     'a run of Propeller starts and stops status consumers exactly if asked to, however it ends, its progress goes from 0 to 100, the statistics of the run are the sums of those of its parts, and on success every telemetry reporter is called once, in order, after the profiles are written, with the binary and the statistics of the run.',
     ['histories', 'inputs', 'faults'], 'every tree of jobs, history of progress, run and set of reporters',
     'a test checks two small trees of jobs',
     ['status_provider.cc', 'status_provider.h', 'llvm_propeller_statistics.h', 'llvm_propeller_statistics.cc', 'llvm_propeller_telemetry_reporter.cc', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc'],
     [('progress', 'status_provider.cc: GetProgress'), ('sums', 'llvm_propeller_statistics.h: operator+='), ('reporters', 'llvm_propeller_telemetry_reporter.cc')],
     SAN + 'model-based monitor of progress, conservation monitor of statistics', 'Exploration. Parts of weight zero only are not judged.')
prop('C32', 'Propeller does what its options say, and refuses inputs it cannot use',
     'Setting an option through the builders changes that field and no other, in any order; profiles without a type are taken as LBR profiles; no input profile, profiles of different types, a type Propeller cannot read, and the deprecated list of names are refused before anything is written; the computer without an aggregator refuses all but LBR profiles; '
     'values to be computed when needed are computed once at most, from the inputs given.',
     ['inputs', 'configurations', 'histories'], 'every sequence of settings and list of input profiles',
     'the tests set a handful of options and refuse three inputs',
     ['llvm_propeller_options_builder.cc', 'llvm_propeller_options_builder.h', 'llvm_propeller_profile_generator.cc', 'llvm_propeller_profile_computer.cc', 'lazy_evaluator.h'],
     [('builders', 'llvm_propeller_options_builder.cc'), ('input types', 'llvm_propeller_profile_generator.cc: GetProfileType; llvm_propeller_profile_computer.cc: Create'), ('lazy values', 'lazy_evaluator.h: Evaluate')],
     SAN + 'differential oracle over protocol buffer reflection, model of accepted inputs', 'Exploration.')
prop('C16', 'Addresses get the source position and inline stack of the debug information',
     'For every address of a program with DWARF debug information of versions 2 to 5, the tools\' address lookups report the chain of functions inlined there, innermost first, each with its name, the line it starts at, file, line and discriminator, as the debug information describes it, '
     'whatever forms, tables and layout the compiler chose (create_gcov: as GCC writes it; the LLVM tools: as GCC or clang write it, in kernel modules too).',
     ['inputs'], 'every program, compiler, option and address',
     'the one test looks up a single address in two binaries',
     ['addr2line.cc', 'addr2line.h', 'util/symbolize/dwarf2reader.cc', 'util/symbolize/dwarf2reader.h', 'util/symbolize/dwarf3ranges.cc', 'util/symbolize/addr2line_inlinestack.cc', 'util/symbolize/addr2line_inlinestack.h', 'util/symbolize/functioninfo.cc', 'util/symbolize/functioninfo.h', 'util/symbolize/nonoverlapping_range_map.h', 'util/symbolize/line_state_machine.h'],
     [('line programs', 'util/symbolize/dwarf2reader.cc: LineInfo'), ('inline stacks', 'util/symbolize/addr2line_inlinestack.cc'), ('ranges', 'util/symbolize/dwarf3ranges.cc'), ('create_gcov lookups', 'addr2line.cc: Google3Addr2line::GetInlineStack'), ('LLVM lookups', 'addr2line.cc: LLVMAddr2line::GetInlineStack')],
     SAN + 'differential oracle (llvm-symbolizer on compiled programs) and model of generated debug information', 'Exploration of generated programs and compiler options. Not claimed: split DWARF of versions 2 and 3, in packages of version 5 or with type units, 64-bit DWARF and compressed sections, clang\'s DWARF 5 in create_gcov; clones of one constructor count as the same function.')
prop('C38', 'The AutoFDO tools turn recorded samples into profiles as a whole, or fail',
     'create_gcov, create_llvm_prof and sample_merger, given a program and samples of its runs in any input format (perf data, text), write the profile that the recorded branches and addresses and the debug information imply, in every output format; '
     'profile_merger writes the sum of its inputs, dump_gcov prints a profile completely, profile_diff reports exactly the differences; '
     'each tool exits with an error, not with success, if an input is missing, damaged or of another program, or an output cannot be written.',
     ['inputs', 'configurations', 'faults'], 'every program, set of samples or profiles, format and combination of options',
     'no test runs any of the tools',
     ['create_llvm_prof.cc', 'create_gcov.cc', 'sample_merger.cc', 'profile_merger.cc', 'dump_gcov.cc', 'profile_diff.cc', 'profile_creator.cc', 'profile.cc', 'sample_reader.cc', 'profile_writer.cc', 'llvm_profile_writer.cc', 'llvm_profile_reader.cc', 'profile_reader.cc', 'gcov.cc'],
     [('conversion', 'profile_creator.cc: CreateProfile; create_llvm_prof.cc: main; create_gcov.cc: main'), ('merging', 'profile_merger.cc: main; sample_merger.cc: main'), ('inspection', 'dump_gcov.cc: main; profile_diff.cc: main')],
     SAN + 'end-to-end differential oracle over compiled programs and simulated runs; the tools run as subprocesses', 'Exploration. Conversions are judged on programs with full debug information and unique function names.')
prop('C35', 'Prefetch hints and cache misses reach their source positions',
     'From a list of prefetch hints, create_gcov and create_llvm_prof write a profile with exactly the functions the hints are in, where the k-th hint of an address is a call target __prefetch_<type>_<k> with its delta at the source position and inline stack of the address, and no sample counts; '
     'with --llc_misses every sampled address of a function counts as __llc_misses__ there, whatever the sample threshold; hints outside all functions are passed over. Missing or malformed hints make the tools fail.',
     ['inputs', 'configurations', 'faults'], 'every program, list of hints or misses and format',
     'no test reads hints or misses',
     ['profile_creator.cc', 'profile.cc', 'symbol_map.cc', 'profile_writer.cc', 'llvm_profile_writer.cc', 'create_llvm_prof.cc', 'create_gcov.cc'],
     [('hints', 'profile_creator.cc: ReadPrefetchHints, ConvertPrefetchHints'), ('misses', 'profile.cc: ComputeProfile')],
     SAN + 'end-to-end oracle over compiled programs; the tools run as subprocesses', 'Exploration. Where several addresses of one position share a target, one of the values (misses: anything from the least to the sum) is accepted; totals are not judged.')
prop('C36', 'Functions are reported with the source file of their compile unit',
     'For every address of code compiled with debug information (DWARF 4 or 5, compressed or split with its package), the compile unit lookup reports the file name the compiler was given, and Propeller writes that module name with every function if asked to; code without debug information has no module. '
     'If debug information is missing, or split away and nowhere to be found, asking for module names is an error.',
     ['inputs', 'configurations'], 'every program, compiler option, address and combination of units with and without debug information',
     'the one test checks a binary whose package is missing',
     ['addr2cu.cc', 'addr2cu.h', 'llvm_propeller_binary_content.cc', 'llvm_propeller_program_cfg_builder.cc', 'llvm_propeller_profile_computer.cc', 'llvm_propeller_profile_writer.cc'],
     [('lookup', 'addr2cu.cc'), ('modules in Propeller', 'llvm_propeller_program_cfg_builder.cc: Build; llvm_propeller_profile_writer.cc: Write')],
     SAN + 'differential oracle: the symbol tables of the object files of compiled programs; create_llvm_prof as a subprocess', 'Exploration. Inline functions compiled in several units may be reported with any of these units.')
prop('C39', 'Instructions are told apart by whether they may change the control flow',
     'The disassembler finds the instruction at any address of a section with code, in x86-64 and AArch64 binaries, and says of each whether it may branch (jumps, calls, returns) or not; at addresses without code, in sections without contents, of bytes that are no instruction, or of an instruction cut off by the end of its section it reports an error, without reading beyond; machines it does not know are refused.',
     ['inputs'], 'every binary and address',
     'no test disassembles anything',
     ['mini_disassembler.cc', 'mini_disassembler.h'],
     [('instructions', 'mini_disassembler.cc: DisassembleOne, MayAffectControlFlow'), ('targets', 'mini_disassembler.cc: Create')],
     SAN + 'oracle: instructions with known encodings', 'Exploration of random sequences of common instructions.')

prop('C17', 'Reading a truncated or damaged binary never corrupts memory or hangs',
     'Whatever is wrong with a binary - it is cut off, its file, segment or section headers, its notes, symbols, string tables or map of basic blocks are damaged - reading, symbolizing and loading it either works with what is intact or ends with an error or a failed assertion: it does not read or write memory outside what was loaded, crash or hang. Symbols and build ids that are reported are in the file, and one symbol with a bad name does not hide the others. (Damaged debug information is not covered.)',
     ['inputs', 'faults'], 'every damaged ELF file',
     'the tests read well-formed binaries only',
     ['util/symbolize/elf_reader.cc', 'util/symbolize/elf_reader.h', 'symbol_map.cc', 'addr2line.cc', 'llvm_propeller_binary_content.cc', 'llvm_propeller_binary_address_mapper.cc'],
     [('headers and sections', 'util/symbolize/elf_reader.cc: ElfReaderImpl, ElfSectionReader'), ('build ids', 'util/symbolize/elf_reader.cc: GetBuildId'), ('symbols', 'symbol_map.cc: BuildSymbolMap'), ('basic blocks', 'llvm_propeller_binary_address_mapper.cc: BuildBinaryAddressMapper')],
     SAN + 'oracle: sanitizers, signals, time; what is reported is compared with the bytes of the file', 'Random damage of generated ELF files.')

# Further files the properties depend on.
for pid, files in {
    'C04': ['util/symbolize/elf_reader.h'], 'C02': ['util/symbolize/elf_reader.cc'], 'C09': ['source_info.h'],
    'C16': ['legacy_addr2line.cc', 'util/symbolize/bytereader.cc', 'util/symbolize/bytereader-inl.h', 'util/symbolize/index_helper.cc', 'util/symbolize/dwarf3ranges.h'],
    'C19': ['lbr_branch_aggregator.cc', 'branch_aggregation.h', 'binary_address_branch.h'], 'C23': ['bb_handle.h'],
    'C26': ['llvm_propeller_node_chain_builder.h', 'llvm_propeller_function_cluster_info.h'], 'C31': ['llvm_propeller_formatting.cc'],
}.items():
    for p in P:
        if p['id'] == pid: p['anchors']['files'] += [f for f in files if f not in p['anchors']['files']]
