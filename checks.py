"""What each check runs. quick/thorough are case counts, not times."""
CHECKS = {}
# Freed memory is handed out again at once, so that what is keyed by stale addresses shows.
REUSE = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:quarantine_size_mb=0:thread_local_quarantine_size_kb=0:max_allocation_size_mb=2500'}


def check(pid, parts, rule, **kw):
    CHECKS[pid] = dict(parts=parts, rule=rule, **kw)


def part(driver, quick, thorough, **kw):
    return dict(driver=driver, quick=quick, thorough=thorough, **kw)


check('C06', [part('G_gcov', 12000, 200000)],
      'a random source-level profile (nested inlining, call targets, thresholds, versions 1, 2, 3 and gcc ones) is written and read back; '
      'non-trivial when at least one function is emitted, distinct by the emitted profile')
check('C07', [part('G_gcov', 3000, 60000)],
      '2-4 random profiles sharing functions are written and read into one map in two orders; distinct by the merged profile')
check('C08', [part('G_gcov', 7200, 40000)],
      'a written profile is truncated or corrupted and read in a child process; distinct by the bytes read; timeouts and allocation failures do not count')
check('C05', [part('L_profile', 6000, 150000)],
      'random functions whose names carry suffix combinations, under each policy; non-trivial when at least two functions become one')
check('C09', [part('L_profile', 12000, 150000)],
      'a random source-level profile is written as text, binary or extensible binary and read back by LLVM\'s own reader and the repository\'s; distinct by profile and format')
check('C10', [part('L_profile', 2400, 60000)],
      '2-4 written profiles sharing functions are merged in two orders, with and without special-symbol lists; distinct by the merged profile')
check('C11', [part('L_profile', 2400, 60000)],
      'one profile entered four times in shuffled order under four hash seeds, through elision, flattening, throttling and trimming, and written; bytes compared')
check('C12', [part('L_profile', 24000, 150000)],
      'nesting limit, full and selective flattening of random profiles; non-trivial when something is flattened')
check('C13', [part('L_profile', 16000, 150000)],
      'target trimming, inline throttling, removal; non-trivial when something is removed')
check('C14', [part('L_profile', 32000, 160000)],
      'random call graphs with cycles and inlined instances; totals compared with a model that finds components by reachability')
check('C15', [part('L_profile', 16000, 100000)],
      'random profiles; threshold, entry counts, summary, working sets, overlap and scaling recomputed independently')
check('C03', [part('L_source', 32000, 160000)],
      'a random ELF file (segments, functions, split parts, aliases), random inline stacks per address and random samples; non-trivial when samples are attributed, distinct by the expected profile')
check('C04', [part('L_source', 40000, 200000)],
      'a random ELF file (program, kernel or module) with functions, data, labels, plt and split symbols; every boundary address is looked up')
check('C33', [part('L_source', 48000, 240000)],
      'a random ELF file and profile, each policy and coverage ratio; non-trivial when at least one symbol is listed')
check('C01', [part('L_samples', 18000, 300000)],
      'random sample sets are written as text, parsed independently, read back, appended, merged and truncated; non-trivial when there is a sample, distinct by the sample sets')
check('C02', [part('L_samples', 32000, 400000), part('L_samples', 12000, 100000, prop='C02_reuse', env=REUSE)],
      'random perf data (processes, mappings, build ids, branch stacks with wrong-path, duplicated, foreign and bogus entries); non-trivial when a count is expected, distinct by the expected counts')
check('C18', [part('L_perf', 48000, 240000)],
      'random binaries (programs, position independent, kernel modules), mappings, build ids and names; every mapping boundary translated; non-trivial when an address resolves')
check('C19', [part('L_perf', 24000, 120000)],
      'random perf data files (LBR stacks or SPE records) aggregated over several files; non-trivial when an entry counts, distinct by the expected counts')
check('C20', [part('L_perf', 20000, 100000), part('G_spe', 12000, 80000, prop='C20_simple')],
      'random thread histories and SPE records; non-trivial when a range is expected')
check('C22', [part('L_perf', 80000, 400000)],
      'random branch frequencies and code; non-trivial when a range is expected, distinct by the expected ranges')
check('C34', [part('L_perf', 80000, 400000)],
      'random sequences of calls with failing reads; distinct by the sequence')
check('C23', [part('L_cfg', 64000, 320000)],
      'random binaries with a basic block address map (empty blocks, gaps, aliases, duplicate and missing names, other sections); every block boundary looked up; non-trivial when a function is selected')
check('C21', [part('L_cfg', 64000, 320000)],
      'random binaries and branch frequencies; non-trivial when a fall-through is expected, distinct by the expected fall-throughs')
check('C24', [part('L_cfg', 64000, 320000)],
      'random binaries and branch aggregations; non-trivial when there is an edge, distinct by the edges')

check('C25', [part('L_layout', 48000, 240000)],
      'random program graphs with clones, landing pads, calls and returns; non-trivial when there is an edge, distinct by the frequencies')
check('C26', [part('L_layout', 48000, 240000)],
      'random program graphs and layout parameters; non-trivial when two blocks are laid out, distinct by the layout')
check('C27', [part('L_layout', 24000, 120000)],
      'random program graphs and layout parameters; chains are also built step by step and every step compared with all alternatives; distinct by the scores')
check('C28', [part('L_layout', 24000, 150000)],
      'random layouts written in both versions, with and without comments and graphs; the files are read as compiler and linker do; distinct by the layout')
check('C29', [part('L_prop', 4000, 40000)],
      'perf data of simulated runs of a random program goes through the whole of Propeller under several hash seeds, sample orders and divisions into files; output bytes compared; distinct by the output')
check('C37', [part('L_prop', 6000, 40000, prop='C37_propeller'), part('L_prop', 480, 4000, prop='C37_tool')],
      'perf data of simulated runs of random programs goes through whole tools; the written files are parsed and compared with models of the whole; distinct by the output',
      tools=['L_tool_create_llvm_prof'])
check('C30', [part('T_status', 8000, 60000, prop='C30_registry'), part('T_status', 1600, 8000, prop='C30_poll'), part('T_status', 64, 800, prop='C30_first')],
      'random scripts of registrations, starts and stops run by 2-5 threads with injected delays; Propeller runs while a consumer polls its status from another thread; distinct by the order of the calls and the states seen')
check('C31', [part('L_misc', 20000, 100000)],
      'random trees of jobs and sequences of progress, sums of statistics, and runs of Propeller with reporters and a status consumer; distinct by the states seen')
check('C32', [part('L_misc', 20000, 100000)],
      'random sequences of settings, random lists of input profiles with types, random lazy evaluations; distinct by the options, output or value')
check('C16', [part('G_dwarf', 96, 1200, prop='C16_real'), part('G_dwarf', 12, 200, prop='C16_package'), part('L_dwarf', 40, 1000, prop='C16_real'), part('L_dwarf', 32, 800, prop='C16_module'),
              part('G_dwarf', 1600, 60000, prop='C16_synthetic'), part('L_dwarf', 800, 40000, prop='C16_synthetic')],
      'random C and C++ programs compiled with random options, and synthetic debug information in all forms; every address where the expected stack changes is looked up; distinct by the expected stacks')
check('C38', [part('L_tools', 48, 1500, prop='C38_convert'), part('L_tools', 1200, 30000, prop='C38_combine')],
      'simulated runs of random compiled programs go through create_llvm_prof, create_gcov and sample_merger; random profiles through profile_merger, dump_gcov and profile_diff; '
      'outputs are read back and compared with models of the whole, what is wrong must be refused; distinct by profile and format',
      tools=['L_tool_create_llvm_prof', 'G_tool_create_gcov', 'L_tool_sample_merger', 'L_tool_profile_merger', 'G_tool_profile_merger', 'G_tool_dump_gcov', 'L_tool_profile_diff'])
check('C35', [part('L_tools', 160, 6000, prop='C35_hints')],
      'random hints and misses at addresses of random compiled programs go through create_gcov and create_llvm_prof in all formats; the targets found in the output are compared with those due; damaged lists must be refused; distinct by the hints and the format',
      tools=['L_tool_create_llvm_prof', 'G_tool_create_gcov'])
check('C36', [part('L_binary', 160, 5000)],
      'random programs of several units, some without debug information, are compiled by gcc and clang and every function looked up, in the library and through create_llvm_prof --propeller_output_module_name; distinct by functions and units',
      tools=['L_tool_create_llvm_prof'])
check('C39', [part('L_binary', 40000, 300000)],
      'random sequences of instructions of known encoding in synthetic x86-64 and AArch64 binaries of several sections; every address of an instruction, and addresses without one, looked up; distinct by the instructions')
check('C17', [part('L_damage', 2400, 60000), part('G_damage', 2400, 60000), part('L_bbdamage', 2000, 60000)],
      'a generated binary is truncated, or its headers, notes, symbols, strings or its map of basic blocks are damaged, and it is read, symbolized and loaded, and its blocks looked up, in child processes; distinct by the bytes read',
      tools=['L_tool_create_llvm_prof', 'G_tool_create_gcov'])
