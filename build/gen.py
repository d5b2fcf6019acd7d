#!/usr/bin/env python3
"""Writes build.ninja for the monitoring builds of /repo (see DESIGN.md).

Every autofdo source of /repo is compiled from the current working tree, in the
two configurations upstream has (G: ENABLE_TOOL=GCOV, L: ENABLE_TOOL=LLVM),
against the stand-in dependencies of /verif/shim, with ASan+UBSan.
A source that does not compile (or no longer exists) only breaks the drivers
that need it."""
import os, sys, glob
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), '..'))
ORIG = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, 'out'))
# The sources are compiled from a content-compared mirror of the working tree, so
# that what ninja rebuilds depends on contents and not on the tree's timestamps.
REPO = OUT + '/src'

def mirror():
    want = set()
    for d in ('', 'base', 'util', 'util/symbolize', 'util/regexp', 'util/testing'):
        for f in sorted(glob.glob(os.path.join(ORIG, d, '*'))):
            if not os.path.isfile(f) or not f.endswith(('.cc', '.h', '.proto', '.txt', '.inc', '.def')): continue
            rel = os.path.relpath(f, ORIG)
            want.add(rel)
            dst = os.path.join(REPO, rel)
            data = open(f, 'rb').read()
            if os.path.exists(dst) and open(dst, 'rb').read() == data: continue
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            open(dst, 'wb').write(data)
    for root, _, files in os.walk(REPO):
        for f in files:
            if os.path.relpath(os.path.join(root, f), REPO) not in want: os.unlink(os.path.join(root, f))
mirror()
LLVM = '/usr/lib/llvm-20'

SAN = '-fsanitize=address,undefined -fno-sanitize=alignment,vptr -fno-sanitize-recover=undefined'
COMMON = ('-std=c++17 -g1 -O1 -w -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -include llvm_compat.h '
          f'-I{VERIF}/shim/include -I{OUT}/pb -I{REPO} -I{REPO}/util -I{VERIF}/drivers -isystem {LLVM}/include '
          '-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS')

SYMBOLIZE = ['util/symbolize/' + f for f in ('addr2line_inlinestack.cc bytereader.cc dwarf2reader.cc dwarf3ranges.cc '
             'elf_reader.cc functioninfo.cc index_helper.cc').split()]
GCOV_SRC = ['legacy_addr2line.cc', 'gcov.cc', 'instruction_map.cc', 'profile.cc', 'profile_creator.cc', 'profile_reader.cc',
            'profile_writer.cc', 'sample_reader.cc', 'simple_spe_sample_reader.cc', 'symbol_map.cc'] + SYMBOLIZE
LLVM_CORE = ['addr2line.cc', 'gcov.cc', 'instruction_map.cc', 'profile.cc', 'profile_creator.cc', 'profile_reader.cc', 'profile_writer.cc',
            'profile_symbol_list.cc', 'sample_reader.cc', 'spe_sample_reader.cc', 'symbol_map.cc', 'source_info.cc',
            'llvm_profile_reader.cc', 'llvm_profile_writer.cc', 'util/symbolize/elf_reader.cc', 'addr2cu.cc',
            'branch_frequencies_autofdo_sample.cc', 'mini_disassembler.cc', 'perfdata_reader.cc', 'spe_tid_pid_provider.cc',
            'status_consumer_registry.cc', 'status_provider.cc', 'llvm_propeller_binary_content.cc',
            'llvm_propeller_file_perf_data_provider.cc']
LLVM_PROP = ['branch_aggregation.cc', 'frequencies_branch_aggregator.cc', 'lbr_branch_aggregator.cc'] + [
    f'llvm_propeller_{x}.cc' for x in (
        'binary_address_mapper cfg chain_cluster_builder code_layout code_layout_scorer '
        'formatting node_chain node_chain_assembly node_chain_builder options_builder perf_branch_frequencies_aggregator '
        'perf_lbr_aggregator profile_computer profile_generator profile_writer program_cfg program_cfg_builder '
        'program_cfg_proto_builder statistics telemetry_reporter').split()]
TEST_HELPERS = ['llvm_propeller_cfg_testutil.cc', 'llvm_propeller_mock_program_cfg_builder.cc',
                'llvm_propeller_function_cluster_info_matchers.cc']
OTHER = {f'{t}.cc' for t in 'create_gcov dump_gcov create_llvm_prof profile_merger sample_merger profile_diff'.split()} | {
    'llvm_propeller_generate_testdata.cc', 'llvm_propeller_mock_whole_program_info.cc'}
# A source file that appears later counts as part of the library once CMakeLists.txt names it.
_cm = open(REPO + '/CMakeLists.txt').read() if os.path.exists(REPO + '/CMakeLists.txt') else ''
_known = set(GCOV_SRC) | set(LLVM_CORE) | set(LLVM_PROP) | set(TEST_HELPERS) | OTHER
NEW = [f for f in sorted(os.listdir(REPO)) if f.endswith('.cc') and f not in _known and not f.endswith('_test.cc') and f in _cm]
LLVM_CORE += NEW
# Upstream's own tests, run against the shims to validate the shims themselves.
UP_TESTS_L = [os.path.basename(p)[:-3] for p in sorted(glob.glob(REPO + '/*_test.cc'))]
UP_TESTS_G = ['addr2line_test', 'summary_calculation_test', 'timestamp_test']

L = []
w = L.append
w(f'builddir = {OUT}')
w('cxx = g++')
w(f'rule cxx\n  command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n')
w('rule ar\n  command = rm -f $out && ar crs $out $in\n')
w('rule link\n  command = $cxx $flags -o $out $in $libs\n')
w(f'rule protoc\n  command = protoc -I$dir --cpp_out={OUT}/pb $in\n')
w(f'rule stamp\n  command = touch $out\n')

PBS = []
for d, n in ((REPO, 'llvm_propeller_cfg'), (REPO, 'llvm_propeller_options'), (VERIF + '/shim/proto', 'perf_data')):
    w(f'build {OUT}/pb/{n}.pb.cc | {OUT}/pb/{n}.pb.h: protoc {d}/{n}.proto\n  dir = {d}')
    PBS.append(f'{OUT}/pb/{n}.pb.h')
w(f'build {OUT}/pb/done: stamp | ' + ' '.join(PBS))

def obj(cfg, src, path, flags):
    o = f'{OUT}/{cfg}/' + src.replace('/', '_')[:-3] + '.o'
    w(f'build {o}: cxx {path} || {OUT}/pb/done\n  flags = {flags}')
    return o

CFG = {'G': f'{COMMON} {SAN}', 'L': f'{COMMON} {SAN} -DHAVE_LLVM=1'}
CFG['T'] = f'{COMMON} -fsanitize=thread -DHAVE_LLVM=1'
LIBS = {'G': f'-lglog -lgflags -lprotobuf -lelf -lcrypto -lgmock -lgtest -lpthread',
        'L': f'-lglog -lgflags -lprotobuf -lelf -lcrypto -lgmock -lgtest -L{LLVM}/lib -lLLVM-20 -Wl,-rpath,{LLVM}/lib -lpthread'}
LIBS['T'] = LIBS['L']
pb_objs = {}
for c in CFG:
    pb_objs[c] = [obj(c, f'pb_{n}.cc', f'{OUT}/pb/{n}.pb.cc', CFG[c]) for n in ('llvm_propeller_cfg', 'llvm_propeller_options', 'perf_data')]
arch = {}
for c, groups in (('G', {'core': GCOV_SRC}), ('L', {'core': LLVM_CORE, 'prop': LLVM_PROP + TEST_HELPERS}),
                  ('T', {'core': LLVM_CORE, 'prop': LLVM_PROP})):
    for g, srcs in groups.items():
        objs = [obj(c, x, f'{REPO}/{x}', CFG[c]) for x in srcs if os.path.exists(f'{REPO}/{x}')]
        arch[c, g] = f'{OUT}/{c}/lib{g}.a'
        w(f'build {arch[c, g]}: ar ' + ' '.join(objs + (pb_objs[c] if g == 'core' else [])))
# Single objects, for drivers that need only a few of them.
OBJ = lambda c, x: f'{OUT}/{c}/' + x.replace('/', '_')[:-3] + '.o'

def exe(cfg, name, srcs, extra='', groups=None):
    objs = [obj(cfg, 'x_' + name + '_' + os.path.basename(x), x, CFG[cfg] + ' ' + extra) for x in srcs]
    libs = []
    for g in groups or [k[1] for k in arch if k[0] == cfg]:
        if g.endswith('.cc'):
            if os.path.exists(f'{REPO}/{g}'): libs.append(OBJ(cfg, g))
        elif g == 'pb': libs += pb_objs[cfg]
        else: libs.append(arch[cfg, g])
    san = '-fsanitize=thread' if cfg == 'T' else SAN
    w(f'build {OUT}/bin/{name}: link ' + ' '.join(objs) + ' | ' + ' '.join(libs) +
      f'\n  flags = -fuse-ld=gold {san}\n  libs = -Wl,--start-group {" ".join(libs)} -Wl,--end-group {LIBS[cfg]}')
    return f'{OUT}/bin/{name}'

def groups_of(path):
    """A driver names what it links in a first-lines comment '// link: core'."""
    for line in open(path).read().splitlines()[:10]:
        if line.startswith('// link:'): return line[8:].split()
    return None

# Drivers: drivers/<cfg>_<name>.cc
drivers = []
for p in sorted(glob.glob(VERIF + '/drivers/[GLT]_*.cc')):
    n = os.path.basename(p)[:-3]
    drivers.append(exe(n[0], n, [p], groups=groups_of(p)))
# Tools
tools = []
for t, c in (('create_gcov', 'G'), ('dump_gcov', 'G'), ('profile_merger', 'G')):
    tools.append(exe(c, 'G_tool_' + t, [f'{REPO}/{t}.cc']))
for t in ('create_llvm_prof', 'profile_merger', 'sample_merger', 'profile_diff'):
    tools.append(exe('L', 'L_tool_' + t, [f'{REPO}/{t}.cc']))
ups = []
for t in UP_TESTS_L:
    if t in UP_TESTS_G + ['disassembler_test']: continue
    ups.append(exe('L', 'L_up_' + t, [f'{REPO}/{t}.cc', VERIF + '/build/gtest_main.cc']))
for t in UP_TESTS_G:
    ups.append(exe('G', 'G_up_' + t, [f'{REPO}/{t}.cc', VERIF + '/build/gtest_main.cc']))
w('build drivers: phony ' + ' '.join(drivers))
w('build tools: phony ' + ' '.join(tools))
w('build upstream: phony ' + ' '.join(ups))
w('build libs: phony ' + ' '.join(v for k, v in arch.items() if k[0] in 'GL'))
w('default drivers tools')
os.makedirs(OUT + '/pb', exist_ok=True)
txt = '\n'.join(L) + '\n'
p = OUT + '/build.ninja'
if not os.path.exists(p) or open(p).read() != txt:
    open(p, 'w').write(txt)
