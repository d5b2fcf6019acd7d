#!/usr/bin/env python3
"""Runs the monitoring check of one property: ./check.py C01 [--tier quick|thorough] [--replay FILE]

Mirrors /repo's current working tree, rebuilds the instrumented driver(s), runs
the driver over generated cases in parallel shards, and turns what the monitors
saw into evidence/<ID>.json and the verdict (see DESIGN.md)."""
import argparse, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.realpath(__file__))
OUT = os.environ.get('VERIF_OUT', VERIF + '/out')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

ENV = dict(os.environ)
ENV.update(ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:max_allocation_size_mb=2500:'
           'detect_stack_use_after_return=0:handle_abort=0:symbolize=1',
           UBSAN_OPTIONS='print_stacktrace=1:abort_on_error=1',
           TSAN_OPTIONS='halt_on_error=1:abort_on_error=1:second_deadlock_stack=1',
           GLOG_minloglevel='2', GLOG_logtostderr='1', LC_ALL='C', TZ='UTC', VERIF_TESTDATA='/repo/testdata',
           VERIF_BIN=OUT + '/bin', VERIF_DIR=VERIF)
for k in ('TMPDIR', 'VSHIM_HASH_SEED'): ENV.pop(k, None)


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build(targets):
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        subprocess.run([sys.executable, VERIF + '/build/gen.py'], check=True)
        r = subprocess.run(['ninja', '-f', OUT + '/build.ninja'] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log('\n'.join(x for x in r.stdout.splitlines() if not x.startswith('[') and not x.startswith('g++') and not x.startswith('clang') and ('error' in x or 'undefined' in x or 'FAILED' in x))[:6000])
            log('BUILD FAILED: no verdict')
            sys.exit(3)


def crash_key(err):
    """What ended the process, named by the autofdo function it happened in."""
    m = re.search(r'^F\d{8}.*?\d+ ([\w./]+):\d+\] (.*)$', err, re.M) or re.search(r'^F\d{4}.*? ([\w./]+):\d+\] (.*)$', err, re.M)
    if m and 'Sanitizer' not in err and 'runtime error' not in err:
        return 'fatal:%s:%s' % (m.group(1).split('/')[-1], re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(2))[:80].strip())
    kind = 'crash'
    m = re.search(r'runtime error: (.*)', err)
    if m: kind = 'ubsan ' + re.sub(r"0x[0-9a-f]+|-?\d+|'[^']*'", 'N', m.group(1))[:50]
    m = re.search(r'ERROR: AddressSanitizer:? ([\w-]+)', err)
    if m: kind = 'asan ' + m.group(1)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if m: kind = 'tsan ' + m.group(1).strip()
    fn = None
    for m in re.finditer(r'^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', err, re.M):
        if '/out/src/' in m.group(2):
            fn = re.sub(r'\(.*', '', m.group(1)); break
    if fn is None:
        m = re.search(r'^(/\S*/out/src/\S+?):\d+', err, re.M)
        fn = m.group(1).split('/')[-1] if m else 'unknown'
        m = re.search(r'Assertion .*', err)
        if m: kind += ' ' + m.group(0)[:60]
    return f'crash:{kind}:{fn}'


LIVE = set()


def end(p):
    """Ends a driver and the tools it started."""
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass
    p.wait()
    LIVE.discard(p)


def interrupted(*_):
    for p in list(LIVE): end(p)
    os._exit(3)


class Run:
    def __init__(self, pid, spec, seed, tier, tmp, only=None):
        self.pid, self.spec, self.seed, self.tier, self.tmp, self.only = pid, spec, seed, tier, tmp, only
        self.viol, self.samples, self.counters, self.hashes = {}, [], {}, set()
        self.evals = 0
        self.t0 = time.time()
        self.logs = {}

    def cmd(self, part, frm, to, step, tmp, lg):
        return [OUT + '/bin/' + part['driver'], '--prop', part.get('prop', self.pid), '--seed', str(self.seed), '--from', str(frm),
                '--to', str(to), '--step', str(step), '--tmp', tmp, '--log', lg, '--tier', self.tier]

    def add_viol(self, key, case, part, msg):
        self.viol.setdefault(key, []).append({'case': case, 'part': part.get('prop', self.pid), 'driver': part['driver'], 'msg': msg})

    def consume(self, path, part):
        """Reads a shard's event log. Returns (last begun, last ended, done)."""
        begun = ended = None
        done = False
        if not os.path.exists(path): return None, None, False
        for line in open(path, errors='replace'):
            t = line[:1]
            if t == 'B': begun = int(line[2:])
            elif t == 'E':
                f = line.split()
                ended = int(f[1]); self.evals += 1
                self.hashes.update(f[2:])
            elif t == 'V':
                try: d = json.loads(line[2:])
                except ValueError: continue
                self.add_viol(d['key'], d['case'], part, d['msg'])
            elif t == 'S':
                try: d = json.loads(line[2:])
                except ValueError: continue
                if len(self.samples) < 12: self.samples.append(d)
            elif t == 'N':
                f = line.split(); self.counters[f[1]] = self.counters.get(f[1], 0) + int(f[2])
            elif t == 'D': done = True
        return begun, ended, done

    def run_part(self, part):
        n = part[self.tier]
        shards = min(part.get('shards', 8), n)
        limit = part.get('case_timeout', 60)
        env = dict(ENV); env.update(part.get('env', {}))
        state = []
        for i in range(shards): state.append({'i': i, 'frm': i, 'proc': None, 'crashes': 0, 'gen': 0})
        hung = False
        if self.only is not None:
            state = [{'i': 0, 'frm': self.only, 'proc': None, 'crashes': 0, 'gen': 0}]
        def start(s):
            s['gen'] += 1
            s['tmp'] = f"{self.tmp}/{part['driver']}_{part.get('prop', self.pid)}_{s['i']}_{s['gen']}"
            os.makedirs(s['tmp'])
            s['log'], s['err'] = s['tmp'] + '/log', s['tmp'] + '/stderr'
            os.makedirs(s['tmp'] + '/t')
            to = n if self.only is None else self.only + 1
            s['proc'] = subprocess.Popen(self.cmd(part, s['frm'], to, shards, s['tmp'] + '/t', s['log']),
                                         stdout=subprocess.DEVNULL, stderr=open(s['err'], 'wb'), env=env, cwd=s['tmp'] + '/t',
                                         start_new_session=True)
            LIVE.add(s['proc'])
            s['mark'] = (0, time.time())
        for s in state: start(s)
        while any(s['proc'] for s in state):
            time.sleep(0.05)
            if hung or (self.viol and self.tier == 'quick' and time.time() - self.t0 > 400):
                # There is a verdict, and the rest would take too long.
                for s in state:
                    if s['proc']:
                        end(s['proc']); s['proc'] = None
                        self.consume(s['log'], part)
                return
            for s in state:
                p = s['proc']
                if not p or hung: continue
                rc = p.poll()
                if rc is None:
                    try: sz = os.path.getsize(s['log'])
                    except OSError: sz = 0
                    if sz != s['mark'][0]: s['mark'] = (sz, time.time()); continue
                    if time.time() - s['mark'][1] > limit:
                        end(p); rc = 'hang'
                    else: continue
                s['proc'] = None
                LIVE.discard(p)
                begun, ended, done = self.consume(s['log'], part)
                err = open(s['err'], errors='replace').read()
                if rc == 0 and done:
                    shutil.rmtree(s['tmp'], ignore_errors=True); continue
                if begun is None or begun == ended:
                    # Before the first case or after the last: believed when it happens again.
                    at = s['frm'] if begun is None else begun
                    v = self.rerun(part, at, env, shards) if rc in (-4, -6, -7, -8, -11) or 'Sanitizer' in err or 'runtime error' in err else None
                    if v and not v[0].startswith(('hang:', 'memory:')):
                        self.add_viol('outside-a-case:' + v[0], at, part, v[1])
                        hung = True
                        continue
                    log(err[-3000:]); log('driver failed outside a case, rc=%s: no verdict' % rc); sys.exit(3)
                if rc == 'hang' or rc == -9:
                    # Watchdog or the memory guard: run the case again on its own before believing it.
                    v = self.rerun(part, begun, env, shards)
                    if v:
                        self.add_viol(v[0], begun, part, v[1])
                        hung = v[0].startswith('hang:')
                    else: self.evals += 1
                else:
                    i = max(err.find('ERROR: '), err.find('runtime error'), err.find('WARNING: ThreadSanitizer'))
                    self.add_viol(crash_key(err), begun, part, 'rc=%s\n%s' % (rc, err[max(0, i - 300):i + 2500] if i >= 0 else err[-2500:]))
                s['crashes'] += 1
                s['frm'] = begun + shards
                shutil.rmtree(s['tmp'], ignore_errors=True)
                if self.only is None and s['frm'] < n and s['crashes'] < 25: start(s)

    def rerun(self, part, case, env, shards):
        d = tempfile.mkdtemp(dir=self.tmp)
        os.makedirs(d + '/t')
        try:
            with open(d + '/err', 'wb') as e:
                p = subprocess.Popen(self.cmd(part, case, case + 1, 1, d + '/t', d + '/log'), stdout=subprocess.DEVNULL, stderr=e,
                                     env=env, cwd=d + '/t', start_new_session=True)
            LIVE.add(p)
            p.wait(timeout=part.get('hang_timeout', 120))
        except subprocess.TimeoutExpired:
            return 'hang:' + part.get('prop', self.pid), f'case {case} made no progress for {part.get("hang_timeout", 120)} s on its own'
        finally: end(p)
        if p.returncode == 0: return None
        if p.returncode == -9: return 'memory:' + part.get('prop', self.pid), f'case {case} was ended for its memory use, alone as well'
        err = open(d + '/err', errors='replace').read()
        return crash_key(err), err[-2500:]


def known():
    try: return json.load(open(VERIF + '/known_findings.json'))
    except FileNotFoundError: return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:
        build([f'{OUT}/bin/{b}' for b in sorted({b for s in CHECKS.values() for b in {p['driver'] for p in s['parts']} | set(s.get('tools', []))})])
        sys.exit(0)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    pid, spec = a.id, CHECKS[a.id]
    only_part = None
    if a.replay:
        r = json.load(open(a.replay)); seed, tier, a.case, only_part = r['seed'], r['tier'], r['case'], r['part']
    build([f'{OUT}/bin/{b}' for b in sorted({p['driver'] for p in spec['parts']} | set(spec.get('tools', [])))])
    tb = time.time()
    tmp = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    signal.signal(signal.SIGTERM, interrupted)
    run = Run(pid, spec, seed, tier, tmp, a.case)
    try:
        for part in spec['parts']:
            if only_part and part.get('prop', pid) != only_part: continue
            if any(k.startswith('hang:') for k in run.viol): break
            run.run_part(part)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    kf = [k for k in known() if k.get('property') == pid and k.get('status') == 'known']
    new = {}
    for key, vs in sorted(run.viol.items()):
        k = next((k for k in kf if key in k['keys']), None)
        if k: k['_seen'] = True
        else: new[key] = vs
    if a.case is None and run.evals == 0 and not new: log('nothing was evaluated: no verdict'); sys.exit(3)
    if a.case is None:
        need = spec.get('min_nontrivial', {}).get(tier, 1)
        cov = {'evaluations': max(run.evals, sum(len(v) for v in run.viol.values())), 'distinct_nontrivial': len(run.hashes), 'rule': spec['rule'],
               'samples': run.samples or [{'note': 'no sample recorded'}], 'observed': run.counters,
               'violating_keys': {k: len(v) for k, v in run.viol.items()}}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                   'assumptions': spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)},
                  open(f'{VERIF}/evidence/{pid}.json', 'w'), indent=1)
        if not new and len(run.hashes) < need:
            log(f'only {len(run.hashes)} distinct non-trivial cases (needs {need}): no verdict'); sys.exit(3)
    log(f'{pid} {tier} seed={seed}: {run.evals} cases, {len(run.hashes)} distinct non-trivial, build {tb - t0:.1f}s run {time.time() - tb:.1f}s; '
        + ' '.join(f'{k}={v}' for k, v in sorted(run.counters.items())))
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}", flush=True)
    if new:
        os.makedirs(OUT + '/replay', exist_ok=True)
        for n, (key, vs) in enumerate(new.items()):
            v = vs[0]
            rp = f'{OUT}/replay/{pid}_{hashlib.sha1(key.encode()).hexdigest()[:10]}.json'
            json.dump({'property': pid, 'seed': seed, 'tier': tier, 'key': key, 'case': v['case'], 'part': v['part'], 'driver': v['driver'],
                       'msg': v['msg'], 'occurrences': len(vs), 'how': f'./check.py {pid} --replay {rp}'}, open(rp, 'w'), indent=1)
            log(f'  [{key}] x{len(vs)} case {v["case"]}: {v["msg"][:600]}')
            if n < 5: print(f'VIOLATION property={pid} replay={rp}', flush=True)
        sys.exit(1)
    sys.exit(0)


if __name__ == '__main__':
    main()
