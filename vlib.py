"""Driver: builds bitcode + native replay binaries from /repo's current source, runs symx jobs,
replays counterexamples and sampled paths on the native build, writes evidence."""
import os, sys, json, subprocess, tempfile, shutil, time, glob, hashlib, threading, atexit, signal
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 4
SYMX = os.path.join(VERIF, 'build', 'symx')
CLANG = 'clang-18'; GCC = 'gcc'
INC = ['-I' + REPO, '-I' + REPO + '/include', '-I' + REPO + '/engines/default', '-I' + VERIF + '/rt', '-I' + VERIF + '/harness', '-I' + VERIF + '/rt/config']
COMMON = ['-std=gnu99', '-D_GNU_SOURCE', '-DHAVE_CONFIG_H', '-D__NO_CTYPE', '-w', '-include', VERIF + '/rt/pth.h']
BCFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-g', '-emit-llvm', '-c', '-fno-builtin', '-fwrapv', '-fno-strict-aliasing', '-fno-delete-null-pointer-checks', '-fcommon', '-fno-stack-protector', '-U_FORTIFY_SOURCE']
NATFLAGS = ['-O1', '-g', '-c', '-fno-strict-aliasing', '-fcommon', '-fsanitize=address', '-fno-omit-frame-pointer', '-U_FORTIFY_SOURCE', '-fno-builtin']
FINE = ['-fsanitize-coverage=trace-pc'] # scheduling points at every basic block (rt/pth.c)
RT_BOTH = ['rt/pth.c']; RT_SYM = ['rt/rt.c']; RT_NAT = ['rt/sym_native.c']

def engine_srcs():
    return sorted(os.path.relpath(p, REPO) for p in glob.glob(REPO + '/engines/default/*.c'))

ENG = engine_srcs() + ['util.c', 'config_parser.c', 'genhash.c']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def ensure_symx():
    srcs = sorted(glob.glob(VERIF + '/symx/*'))
    h = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()
    stamp = SYMX + '.stamp'
    if os.path.exists(SYMX) and os.path.exists(stamp) and open(stamp).read() == h: return
    os.makedirs(os.path.dirname(SYMX), exist_ok=True)
    cxx = subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split()
    cxx = [c for c in cxx if c not in ('-fno-exceptions',)]
    ld = subprocess.check_output(['llvm-config-18', '--ldflags', '--libs'], text=True).split()
    tmp = tempfile.mkdtemp(prefix='symxb-')
    try:
        def one(s):
            o = tmp + '/' + os.path.basename(s) + '.o'
            r = sh(['g++', '-O2', '-std=c++17', '-w'] + cxx + ['-fexceptions', '-c', s, '-o', o])
            if r.returncode: raise SystemExit('symx build failed:\n' + r.stdout)
            return o
        with ThreadPoolExecutor(4) as ex: objs = list(ex.map(one, [s for s in srcs if s.endswith('.cpp')]))
        r = sh(['g++', '-o', SYMX + '.tmp'] + objs + ld + ['-lz3'])
        if r.returncode: raise SystemExit('symx link failed:\n' + r.stdout)
        os.rename(SYMX + '.tmp', SYMX); open(stamp, 'w').write(h)
    finally: shutil.rmtree(tmp)

class BuildError(Exception): pass

class Builder:
    """compiles units once per (source, flags, mode)"""
    def __init__(self, tmp): self.tmp = tmp; self.fut = {}; self.ex = ThreadPoolExecutor(NCPU); self.lock = threading.Lock()
    def unit(self, src, flags, mode):
        if '@' in src: # a repo source compiled next to stand-ins for files it includes: symlinked into a scratch directory
            base, sh_dir = src.split('@'); d = '%s/shadow-%s' % (self.tmp, hashlib.sha1(src.encode()).hexdigest()[:10])
            with self.lock:
                if not os.path.isdir(d):
                    shutil.copytree(os.path.join(VERIF, sh_dir), d); os.symlink(os.path.join(REPO, base), os.path.join(d, os.path.basename(base)))
            src = os.path.join(d, os.path.basename(base)); flags = list(flags) + ['-fdebug-prefix-map=%s=%s' % (d, os.path.dirname(os.path.join(REPO, base)))]
        path = src if src.startswith('/') else (os.path.join(VERIF, src) if src.startswith(('rt/', 'harness/')) else os.path.join(REPO, src))
        key = (path, tuple(flags), mode)
        with self.lock:
            if key not in self.fut: self.fut[key] = self.ex.submit(self._cc, path, flags, mode, len(self.fut))
            return self.fut[key]
    def _cc(self, path, flags, mode, n):
        out = '%s/%d-%s.%s' % (self.tmp, n, os.path.basename(path), 'bc' if mode == 'bc' else 'o')
        lib = not path.startswith(REPO + '/') and '/rt/' in path
        if mode == 'bc': cmd = [CLANG] + BCFLAGS + COMMON
        elif FINE[0] in flags: cmd = [CLANG] + ['-O0' if x == '-O1' else x for x in NATFLAGS] + COMMON # the same basic blocks as the bitcode
        else: cmd = [GCC] + NATFLAGS + COMMON
        r = sh(cmd + list(flags) + INC + [path, '-o', out])
        if r.returncode: raise BuildError('compile failed (%s): %s\n%s' % (mode, path, r.stdout[-3000:]))
        return out

class Job:
    def __init__(self, name, harness, srcs=(), defs=(), entry='harness', time=40, thorough_time=None, par=None, libs=(), reach=(), native=True, opts=(), env=None, only=None, samples=16, inc=(), hdefs=None, bounds='', thorough_defs=None, extra=(), hang_timeout=20, fine=False):
        self.__dict__.update(locals()); del self.__dict__['self']

class Check:
    def __init__(self, pid, jobs, bounds, assumptions=(), level='model_checking', min_funcs=1):
        self.pid = pid; self.jobs = jobs; self.bounds = bounds; self.assumptions = list(assumptions); self.level = level

    def main(self, argv):
        t0 = time.time(); ensure_symx()
        self.keep = '--keep' in argv; self.verbose = '-v' in argv
        only = [a for a in argv if not a.startswith('-')]
        replay = None
        if '--replay' in argv: replay = argv[argv.index('--replay') + 1]; only = [json.load(open(replay))['job']]
        jobs = [j for j in self.jobs if (not only or j.name in only) and (j.only is None or j.only == TIER or only)]
        self.tmp = tempfile.mkdtemp(prefix='verif-%s-' % self.pid)
        if not self.keep: atexit.register(shutil.rmtree, self.tmp, True)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.b = Builder(self.tmp)
        # queue all compilations first
        try:
            for j in jobs: self.compile(j, 'bc')
            for j in jobs:
                if j.native: self.compile(j, 'nat')
            if replay: return self.do_replay(jobs[0], replay)
            par = max(1, min(len(jobs), NCPU // 2)); per = max(1, min(NCPU, (2 * NCPU) // par)) if len(jobs) > 1 else NCPU
            with ThreadPoolExecutor(par) as ex: res = list(ex.map(lambda j: self.run(j, per), jobs))
        except BuildError as e:
            print(e); print('ERROR property=%s cannot encode the current tree' % self.pid); return 2
        try: return self.report(jobs, res, t0)
        except BuildError as e: print(e); print('ERROR property=%s cannot build the replay binary' % self.pid); return 2

    def flags(self, j): return list(j.defs) + ['-I' + i for i in j.inc] + (list(j.thorough_defs) if (TIER == 'thorough' and j.thorough_defs) else [])
    def units(self, j, mode):
        f = self.flags(j); L = []
        for s in j.srcs: L.append((s, [x for x in f if not x.startswith('-DH_')] + (FINE if j.fine else [])))
        L.append((j.harness, f))
        for s in j.extra: L.append((s, f))
        for s in RT_BOTH + (RT_SYM if mode == 'bc' else RT_NAT): L.append((s, ['-DSYM_NATIVE_IMPL'] if s in RT_NAT else []))
        return L
    def compile(self, j, mode): return [self.b.unit(s, f, mode) for s, f in self.units(j, mode)]
    def native_bin(self, j):
        objs = [f.result() for f in self.compile(j, 'nat')]; out = '%s/nat-%s' % (self.tmp, j.name)
        if not os.path.exists(out):
            r = sh([GCC, '-fsanitize=address', '-o', out] + objs + list(j.libs) + ['-lm', '-pthread'])
            if r.returncode: raise BuildError('native link failed:\n' + r.stdout[-3000:])
        return out
    def native_run(self, j, inputs, tag, timeout=20, trace=False):
        bin_ = self.native_bin(j); p = '%s/in-%s-%s' % (self.tmp, j.name, tag)
        with open(p, 'w') as f:
            for w, v, n in inputs:
                if not n.startswith('!'): f.write('%d %d %s\n' % (w, v, n.replace('\n', ' ')))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=67:abort_on_error=0:handle_abort=0:print_legend=0:max_allocation_size_mb=2047')
        if trace: env['SYM_TRACE'] = '1'
        d = tempfile.mkdtemp(dir=self.tmp)
        try: r = subprocess.run([bin_, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=d)
        except subprocess.TimeoutExpired: return 'timeout', ''
        return r.returncode, r.stdout.decode('latin1')

    def run(self, j, per):
        bcs = [f.result() for f in self.compile(j, 'bc')]
        out = '%s/out-%s' % (self.tmp, j.name)
        tl = (j.thorough_time or j.time * 6) if TIER == 'thorough' else j.time
        cmd = [SYMX, '-out', out, '-entry', j.entry, '-time', str(tl), '-jobs', str(j.par or per), '-seed', str(SEED), '-repo', REPO + '/', '-samples', str(j.samples)] + list(j.opts) + bcs
        if self.verbose: cmd += ['-v', '-cov', '/tmp/cov-%s-%s' % (self.pid, j.name)]
        try: r = sh(cmd, env=dict(os.environ, **(j.env or {})), timeout=tl + 240)
        except subprocess.TimeoutExpired: r = None
        if self.verbose and r: sys.stderr.write('[%s] %s\n' % (j.name, r.stdout[-6000:]))
        if r is None or r.returncode or not os.path.exists(out + '.json'): return {'job': j.name, 'failed': (r.stdout[-1500:] if r else 'timeout')}
        st = json.load(open(out + '.json')); st['job'] = j.name
        rd = lambda suf: [json.loads(l) for l in open(out + suf)] if os.path.exists(out + suf) else []
        st['viols'] = rd('.viol'); st['samps'] = rd('.samp')[:40]
        return st

    def classify(self, j, v, i):
        """replay a counterexample natively; returns (confirmed, text)"""
        rc, txt = self.native_run(j, v['inputs'], 'v%d' % i, timeout=j.hang_timeout)
        if v['kind'] == 'hang': return rc == 'timeout', 'does not terminate'
        if rc == 'timeout': return True, 'native run does not terminate'
        if rc == 66: return True, [l for l in txt.splitlines() if l.startswith('SYM-VIOLATION')][-1]
        if rc == 67 or (isinstance(rc, int) and rc < 0): 
            ls = [l for l in txt.splitlines() if 'ERROR: AddressSanitizer' in l or 'Assertion' in l]
            return True, (ls[0] if ls else 'killed by signal %s' % rc)
        return False, 'native rc=%s %s' % (rc, txt[-300:])

    def do_replay(self, j, path):
        d = json.load(open(path)); rc, txt = self.native_run(j, d['inputs'], 'replay', trace=True)
        print(txt); print('exit', rc); return 1 if rc in (66, 67, 'timeout') or (isinstance(rc, int) and rc < 0) else 0

    def report(self, jobs, res, t0):
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'assumptions': self.assumptions, 'violations': 0}
        cov = {'bounds': self.bounds, 'jobs': {}, 'samples': []}
        funcs = {}; tot = dict(paths=0, forks=0, queries=0, solver=0.0, validated=0, ins=0, unsat=0, asserts=0, asym=0, cache=0)
        ok = True; lines = []; unconf = []; known = load_known()
        rdir = VERIF + '/evidence/replay'; os.makedirs(rdir, exist_ok=True)
        for j, st in zip(jobs, res):
            if 'failed' in st: print('job %s failed: %s' % (j.name, st['failed'])); ok = False; cov['jobs'][j.name] = {'failed': st['failed'][-400:]}; continue
            mism = 0; val = 0
            if j.native and not st['viols']:
                ss = st['samps'][:j.samples]
                def one(kv): 
                    i, s = kv; return s, self.native_run(j, s['inputs'], 's%d' % i, timeout=30)
                self.native_bin(j)
                with ThreadPoolExecutor(NCPU) as ex: rr = list(ex.map(one, enumerate(ss)))
                for s, (rc, txt) in rr:
                    d = [l for l in txt.splitlines() if l.startswith('SYM-DIGEST')]
                    want = 'SYM-DIGEST %d %s' % (s['nobs'], s['digest'])
                    if rc == 0 and d and d[-1] == want: val += 1
                    else:
                        mism += 1; kp = '%s/mismatch-%s-%s.json' % (rdir, self.pid, j.name); json.dump({'job': j.name, 'inputs': s['inputs']}, open(kp, 'w'))
                        print('job %s: executor/native disagreement rc=%s got=%s want=%s (%s)' % (j.name, rc, d[-1:] or txt[-200:], want, kp))
            for i, v in enumerate(st['viols'][:6]):
                if j.native: conf, why = self.classify(j, v, i)
                else: conf, why = True, 'not replayed natively'
                rp = '%s/%s-%s-%d.json' % (rdir, self.pid, j.name, i); json.dump({'property': self.pid, 'job': j.name, 'kind': v['kind'], 'label': v['label'], 'stack': v['stack'], 'native': why, 'inputs': v['inputs'], 'how': 'cd /verif && python3 run.py %s --replay %s' % (self.pid, rp)}, open(rp, 'w'), indent=1)
                if conf:
                    k = [x for x in known if x['property'] == self.pid and x.get('label') == v['label'] and x.get('job', j.name) == j.name]
                    if k:
                        kl = 'KNOWN-FINDING: property=%s %s' % (self.pid, k[0]['what'])
                        if kl not in lines: lines.append(kl)
                        continue
                    ok_v = 'VIOLATION property=%s replay=%s' % (self.pid, rp); lines.append(ok_v); ev['violations'] += 1
                    print('job %s: %s: %s\n   at %s\n   native: %s' % (j.name, v['kind'], v['label'], v['stack'], why))
                else: unconf.append((j.name, v['kind'], v['label'], why, rp)); print('job %s: UNCONFIRMED %s: %s at %s\n   %s' % (j.name, v['kind'], v['label'], v['stack'], why))
            missing = [r for r in j.reach if not st['reach'].get(r)]
            if missing and not st['viols']: print('job %s: vacuity guard: never reached %s' % (j.name, missing)); 
            for f, c, n in st['functions']: funcs[f] = [max(c, funcs.get(f, [0])[0]), n]
            tot['paths'] += st['paths']; tot['forks'] += st['forks']; tot['queries'] += st['queries']; tot['solver'] += st['solver_usec'] / 1e6; tot['validated'] += val; tot['ins'] += st['instructions']; tot['unsat'] += st['unsat']; tot['asserts'] += st['asserts']; tot['asym'] += st['asserts_symbolic']; tot['cache'] += st['cache_hits']
            cov['jobs'][j.name] = {'harness': j.harness, 'bounds': j.bounds, 'paths': st['paths'], 'completed': st['paths_ok'], 'pruned_by_assume': st['paths_assume_pruned'], 'dropped_by_budget': st['paths_dropped'], 'inconclusive': st['paths_err'], 'inconclusive_reasons': st['errors'], 'exhaustive_within_bounds': st['complete'], 'queries': st['queries'], 'unsat': st['unsat'], 'sat': st['sat'], 'unknown': st['unknown'], 'solver_s': round(st['solver_usec'] / 1e6, 2), 'asserts_checked': st['asserts'], 'asserts_decided_by_solver': st['asserts_symbolic'], 'symbolic_branches': st['sym_branches'], 'wall_s': round(st['wall'], 2), 'reached': st['reach'], 'vacuity_missing': missing, 'native_traces_agreeing': val, 'native_traces_disagreeing': mism}
            print('job %-22s paths=%d complete=%s queries=%d unsat=%d solver=%.1fs wall=%.1fs native-agree=%d%s%s' % (j.name, st['paths'], st['complete'], st['queries'], st['unsat'], st['solver_usec'] / 1e6, st['wall'], val, ' DISAGREE=%d' % mism if mism else '', (' ERR ' + json.dumps(st['errors'])[:600]) if st['errors'] else ''))
            for s in st['samps'][:2]: cov['samples'].append({'job': j.name, 'inputs': [[n, v] for w, v, n in s['inputs']][:60]})
        cov.update({'states': tot['forks'] + len(res), 'transitions': tot['ins'], 'traces_validated_against_impl': tot['validated'], 'paths': tot['paths'], 'queries_discharged': tot['queries'], 'queries_unsat': tot['unsat'], 'solver_s': round(tot['solver'], 2), 'query_cache_hits': tot['cache'], 'assertions_checked': tot['asserts'], 'assertions_decided_by_solver': tot['asym'], 'functions_encoded': sorted(funcs), 'n_functions_encoded': len(funcs), 'unconfirmed_counterexamples': unconf, 'exhaustive': bool(res) and all('failed' not in s and s['complete'] for s in res)})
        if not cov['samples']: cov['samples'] = [{'note': 'no completed path in this run'}]
        cov['states_meaning'] = 'symbolic states created by forking; transitions are LLVM instructions executed symbolically'
        ev['coverage'] = cov; ev['wall_s'] = round(time.time() - t0, 2)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, self.pid), 'w'), indent=1)
        for l in dict.fromkeys(lines): print(l)
        if ev['violations']: return 1
        if not ok: return 2
        print('OK property=%s paths=%d functions=%d wall=%.1fs' % (self.pid, tot['paths'], len(funcs), time.time() - t0)); return 0

def load_known():
    p = VERIF + '/known_findings.json'
    if not os.path.exists(p): return []
    return [x for x in json.load(open(p)) if x.get('status') == 'known']
