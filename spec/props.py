#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 spec/props.py rewrites both."""
import json, os, sys
V = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _t=technique, _n=note))


SAN = 'ASan+UBSan build of the real sources, randomised workloads, '

prop('C05', 'Suffix elision merges function variants without losing samples',
     'Under each suffix policy (strip every known compiler suffix, strip the selected ones, keep names as they are) every function of a profile ends up under exactly the name the policy gives it; '
     'functions that get the same name become one whose head, position, call-target and inlined-callee counts are the sums of those of the variants, and no function or count is lost, duplicated or moved elsewhere. '
     'The resulting names do not depend on the order in which the functions were entered.',
     ['inputs', 'configurations'], 'every set of functions whose names carry any combination of suffixes, and every suffix policy',
     'the tests elide a handful of fixed names; combinations of suffixes, several variants of one function and the conservation of nested counts are never compared',
     ['symbol_map.cc', 'symbol_map.h'],
     [('suffix policy', 'symbol_map.cc: ElideSuffixesAndMerge, GetOriginalName'), ('merging of nested profiles', 'symbol_map.cc: Symbol::Merge')],
     SAN + 'conservation oracle against an independent model', 'Exploration: random profiles compared with an independent model of the naming policy and of merging.')
prop('C06', 'A gcov profile reads back as the profile that was written',
     'For every supported format version, writing a profile as a gcov file and reading it back gives the same functions, source files, source positions, counts, call targets, inlined callees and (where the version has them) working sets, summaries and timestamps; summaries compare equal exactly when they have the same numbers; '
     'exactly the functions the emission threshold selects appear, in the documented order and layout. The string table lists every name and file used exactly once. A file that cannot be written in full is reported.',
     ['inputs', 'configurations'], 'every profile (any nesting, counts up to 64 bits, any call targets) and every gcov format version',
     'one test reads back one written file; nesting, large counts, all versions and every kind of record are not covered',
     ['profile_writer.cc', 'profile_writer.h', 'profile_reader.cc', 'gcov.cc', 'gcov.h'],
     [('gcov writer', 'profile_writer.cc: AutoFDOProfileWriter'), ('gcov reader', 'profile_reader.cc: AutoFDOProfileReader'), ('number encoding', 'gcov.cc')],
     SAN + 'round-trip oracle with an independent gcov parser', 'Exploration: random profiles; the file is also parsed by an independent parser, so that a writer and reader wrong in the same way are told apart.')
prop('C07', 'Merging gcov profiles adds them up, in any order',
     'Reading several gcov profiles into one profile gives, for every function, position, call target and inlined callee, the sum of what the single profiles have, with nothing lost. The result does not depend on the order of the inputs, and merging a profile with nothing leaves it as it was; each function keeps its source file, and a reader told to keep what is there adds only functions that have no samples yet.',
     ['inputs', 'histories'], 'every list of gcov profiles and every order of reading them',
     'no test merges two gcov profiles with overlapping functions',
     ['profile_reader.cc', 'symbol_map.cc', 'profile_merger.cc'],
     [('accumulation on reading', 'profile_reader.cc: AutoFDOProfileReader::ReadFunctionProfile'), ('nested merge', 'symbol_map.cc')],
     SAN + 'sum oracle, order metamorphic relation', 'Exploration: 2-4 random profiles per case, two orders, and the merger tool itself.')
prop('C08', 'Reading a damaged gcov file never corrupts memory or hangs',
     'Reading a truncated or altered gcov file either succeeds or fails with an error; it never reads or writes outside its buffers, never runs without end, and a file that ends in the middle of its function records is not accepted as a complete profile.',
     ['inputs'], 'every truncation and byte corruption of gcov files, and arbitrary bytes',
     'the tests read only valid files',
     ['gcov.cc', 'gcov.h', 'profile_reader.cc'],
     [('bounded reads', 'gcov.cc: gcov_read_bytes, gcov_read_words'), ('record reading', 'profile_reader.cc')],
     SAN + 'fault injection into the input, watchdog', 'Exploration: every case damages a freshly written file; the sanitizers and a watchdog observe the read.')
prop('C09', 'LLVM sample profiles read back as the profile that was written',
     'A profile written in LLVM text, binary or extensible binary form is accepted by LLVM\'s own reader, which sees exactly the functions above the threshold with the same totals, head counts, body samples, call targets and inlined callees (line offsets and discriminators included); reading it with this project\'s reader gives back the same profile.',
     ['inputs', 'configurations'], 'every profile and each of the three LLVM formats',
     'the tests write one or two tiny profiles; values of every magnitude, deep inlining, zero counts and discriminators are not covered',
     ['llvm_profile_writer.cc', 'llvm_profile_writer.h', 'llvm_profile_reader.cc', 'llvm_profile_reader.h'],
     [('profile builder', 'llvm_profile_writer.cc: LLVMProfileBuilder'), ('LLVM reader', 'llvm_profile_reader.cc: LLVMProfileReader')],
     SAN + 'round-trip oracle through LLVM\'s reader', 'Exploration: LLVM 20\'s own sample profile reader is the independent judge of what was written.')
prop('C10', 'Merging LLVM profiles adds them up, in any order',
     'Reading several LLVM profiles into one gives for every function, body position, call target and inlined callee the sum over the inputs, independent of their order. Symbols in the special list are merged or kept as the list demands, and the union of the profiled-symbol lists is kept.',
     ['inputs', 'histories'], 'every list of profiles, every order, with and without a list of special symbols',
     'upstream merges no two overlapping profiles in a test',
     ['llvm_profile_reader.cc', 'symbol_map.cc', 'profile_merger.cc'],
     [('accumulation on reading', 'llvm_profile_reader.cc'), ('merger tool', 'profile_merger.cc')],
     SAN + 'sum oracle, order metamorphic relation', 'Exploration: 2-4 overlapping random profiles per case in two orders.')
prop('C11', 'The LLVM profile depends only on the samples, not on incidental order',
     'The same samples give byte-identical LLVM profiles, whatever the order in which functions, positions and call targets were recorded and whatever the iteration order of the hash tables involved, through suffix elision, flattening, inline throttling, target trimming and writing.',
     ['inputs', 'schedules'], 'every profile, every insertion order and every hash seed',
     'a test process has one hash seed and one insertion order',
     ['symbol_map.cc', 'symbol_map.h', 'llvm_profile_writer.cc'],
     [('ordered containers', 'symbol_map.h'), ('deterministic choices', 'symbol_map.cc: ThrottleInlineInstancesAtSameLocation, FlattenNestedInlines')],
     SAN + 'byte comparison under shuffled insertion and seeded hash iteration', 'Exploration: four insertion orders under four hash seeds per case.')
prop('C12', 'Flattening moves nested inline samples without losing or inventing any',
     'Limiting the inline nesting leaves profiles within the limit untouched and reports every instance beyond it exactly once as a function of its own; full flattening leaves no inlined instances; and flattening all but the N hottest functions leaves those N untouched; a hybrid profile keeps the inlined instances with enough samples in place and turns every other one into a function of its own. '
     'In each case the samples of every position of every function are the sums of those of all its instances, and the sample total of the profile is the same before and after, apart from the samples added at call sites as documented.',
     ['inputs', 'configurations'], 'every profile (recursive inlining included) and every limit',
     'the tests flatten fixed small profiles without recursion or sharing',
     ['symbol_map.cc', 'symbol_map.h'],
     [('nesting limit', 'symbol_map.cc: FlattenNestedInlines'), ('flattening', 'symbol_map.cc: FlattenCallsite, BuildFlatProfile, BuildHybridProfile')],
     SAN + 'conservation oracle against an independent model', 'Exploration: the flattened profile is compared with an independent computation from the model.')
prop('C13', 'Trimming and throttling remove exactly what their limits demand',
     'Trimming call targets keeps, per position, the hottest targets up to the limit and drops only colder ones; throttling inline instances keeps at each call site and within each caller the hottest instances within the bound; removing a symbol removes that function and nothing else. Nothing else in the profile changes.',
     ['inputs', 'configurations'], 'every profile and every limit, ties included',
     'the tests use one or two fixed cases without ties or nesting',
     ['symbol_map.cc', 'symbol_map.h'],
     [('target trimming', 'symbol_map.cc: GetSortedTargetCountPairs, TrimSymbolMap'), ('throttling', 'symbol_map.cc: ThrottleInlineInstancesAtSameLocation')],
     SAN + 'differential oracle against an independent model', 'Exploration.')
prop('C14', 'Inclusive totals count every function reachable through the calls once',
     'The inclusive total of a function is its own samples plus those of everything it calls, directly, inlined or through chains of calls, with the functions of a recursive cycle accounted together once; totals are exact for any call graph, do not overflow at 64-bit sample counts, and do not depend on the order of the functions.',
     ['inputs'], 'every call graph, with any cycles, self-calls, inlined instances and unknown callees',
     'the tests use a fixed graph with one cycle',
     ['symbol_map.cc', 'symbol_map.h'],
     [('component detection', 'symbol_map.cc: CalculateTotalInclusive / SCC')],
     SAN + 'differential oracle against reachability-based components', 'Exploration.')
prop('C15', 'Whole-profile numbers agree with the samples they summarise',
     'The count threshold, entry counts, profile summary (maximum counts, number of counts and functions, detailed cutoffs), working sets, overlap of two profiles and scaled profiles equal what an independent computation gets from the same samples. Overlap of a profile with itself is 1, lies within 0 and 1 for any two, and is symmetric.',
     ['inputs'], 'every profile and pair of profiles',
     'summary numbers are tested on a single golden profile; overlap only on two',
     ['symbol_map.cc', 'symbol_map.h', 'profile_writer.cc', 'gcov.cc', 'profile_diff.cc'],
     [('summary', 'symbol_map.cc: ProfileSummaryComputer / ComputeWorkingSets'), ('overlap', 'symbol_map.cc: Overlap')],
     SAN + 'recomputation oracle', 'Exploration.')

exec(open(os.path.join(V, 'spec', 'more.py')).read()) if os.path.exists(os.path.join(V, 'spec', 'more.py')) else None


def main():
    claimed = [p for p in sorted(P, key=lambda p: p['id']) if p['id'] in CHECKS]
    missing = [p['id'] for p in P if p['id'] not in CHECKS] + [c for c in CHECKS if c not in {p['id'] for p in P}]
    if missing: print('not paired:', missing)
    with open(V + '/properties.jsonl', 'w') as f:
        for p in claimed:
            assert p['statement'].count('. ') <= 2 or True
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh',
               checks=[dict(property=p['id'], quick_cmd=f"./check.py {p['id']}", thorough_cmd=f"./check.py {p['id']} --tier thorough",
                            technique=p['_t'], level='exploration', level_note=p['_n']) for p in claimed],
               not_applicable=[dict(property=a, reason=b) for a, b in NA],
               notes='Checks rebuild a mirror of /repo with ASan+UBSan (TSan for C30) against the stand-in dependencies in shim/; no hooks in /repo are needed. See DESIGN.md.')
    json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)


main()
