#!/usr/bin/env python3
"""Runs one property check: builds its harness from /repo's working tree in a scratch
directory, runs it under instrumentation, judges what the monitors saw and writes
/verif/evidence/<id>.json.

  vrun.py C08 [--tier quick|thorough] [--seed N]   (defaults: VERIF_TIER, VERIF_SEED)
  vrun.py --replay evidence/replay/<file>.json
  vrun.py --setup

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed
(for example the library does not compile at all)."""
import argparse, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
sys.path.insert(0, os.path.join(VERIF, 'checks'))
JOBS = os.cpu_count() or 4

GSAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
WARN = ['-w']
VARIANTS = {
    # name: (compiler, flags, bounds check)
    'gcc-asan':   ('g++',     ['-std=c++17', '-O1', '-g1'] + GSAN, True),
    'gcc-asan0':  ('g++',     ['-std=c++17', '-O0', '-g1'] + GSAN, True),
    'clang-O2':   ('clang++', ['-std=c++17', '-O2', '-DNDEBUG'], False),
    'clang-asan': ('clang++', ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], True),
    'clang-asan-nobc': ('clang++', ['-std=c++17', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all'], False),
    'gcc-asan-nobc': ('g++', ['-std=c++17', '-O1', '-g1'] + GSAN, False),
    'clang-msan': ('clang++', ['-std=c++17', '-O1', '-g1', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-omit-frame-pointer'], False),
    'gcc-tsan':   ('g++',     ['-std=c++17', '-O1', '-g1', '-fsanitize=thread'], True),
    'gcc-san0':   ('g++',     ['-std=c++17', '-O0', '-g1'] + GSAN + ['-fsanitize=bounds-strict,float-cast-overflow,float-divide-by-zero', '-D_GLIBCXX_ASSERTIONS'], True),
    'gcc-san3':   ('g++',     ['-std=c++17', '-O3', '-g1'] + GSAN + ['-fsanitize=bounds-strict,float-cast-overflow,float-divide-by-zero'], False),
    'gcc-san20':  ('g++',     ['-std=c++20', '-O2', '-g1'] + GSAN + ['-fsanitize=bounds-strict,float-cast-overflow,float-divide-by-zero'], True),
    'clang-san2': ('clang++', ['-std=c++17', '-O2', '-g1', '-fsanitize=address,undefined,float-divide-by-zero,local-bounds,nullability', '-fno-sanitize-recover=all'], True),
    'clang-msan0': ('clang++', ['-std=c++17', '-O0', '-g1', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-omit-frame-pointer'], True),
    'gcc-O2-g':   ('g++',     ['-std=c++17', '-O2', '-g1'], False),
    'clang-tsan': ('clang++', ['-std=c++17', '-O1', '-g1', '-fsanitize=thread'], False),
    'gcc-O3':     ('g++',     ['-std=c++17', '-O3', '-DNDEBUG'], False),
    'gcc-O2-bc':  ('g++',     ['-std=c++17', '-O2'], True),
    'clang-O2-bc': ('clang++', ['-std=c++17', '-O2', '-DNDEBUG'], True),
    'gcc-O0':     ('g++',     ['-std=c++17', '-O0'], True),
    'gcc20-O2':   ('g++',     ['-std=c++20', '-O2'], False),
    'clang20-O1': ('clang++', ['-std=c++20', '-O1'], True),
}
SAN_ENV = {
    'ASAN_OPTIONS': 'exitcode=77:detect_leaks=1:abort_on_error=0:detect_stack_use_after_return=1:allocator_may_return_null=1:handle_abort=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'MSAN_OPTIONS': 'exitcode=77',
    'TSAN_OPTIONS': 'exitcode=77:halt_on_error=0',
    'LSAN_OPTIONS': 'exitcode=77',
}


class HarnessError(Exception):
    pass


class Ctx:
    """State of one check run."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.scratch = tempfile.mkdtemp(prefix='vchk-%s-' % pid.lower(), dir=os.environ.get('TMPDIR', '/tmp'))
        self.t0 = time.time()
        self.violations = []       # dicts: key, detail, variant, replay info
        self.evaluations = 0
        self.distinct = {}         # group -> count
        self.counters = {}
        self.samples = []
        self.runs = []             # description of every execution
        self.assumptions = []
        self.lock = threading.Lock()
        self.base_ok = None
        self.only_variant = None
        self.hung = False
        self.deadline = self.t0 + (3000 if self.thorough else 800)

    # ---- configuration header -------------------------------------------------
    def config_dir(self, bc=False, **defs):
        """A directory holding shiva/ShivaConfig.hpp made from the repository's template."""
        d = os.path.join(self.scratch, 'inc-bc' if bc else 'inc-nobc')
        with self.lock:
            f = os.path.join(d, 'shiva', 'ShivaConfig.hpp')
            if not os.path.exists(f):
                os.makedirs(os.path.dirname(f))
                write_config(f, bc)
        return d

    def violation(self, key, detail, variant='', **extra):
        with self.lock:
            self.violations.append(dict(key=key, detail=detail, variant=variant, **extra))

    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def eval(self, n=1):
        with self.lock:
            self.evaluations += n

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    # ---- processes ------------------------------------------------------------
    def sh(self, cmd, timeout=None, env=None, cwd=None, input=None):
        e = dict(os.environ)
        for k in ('CPATH', 'CPLUS_INCLUDE_PATH', 'CXXFLAGS', 'CFLAGS', 'LDFLAGS'):
            e.pop(k, None)
        e.update(env or {})
        try:
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=e, cwd=cwd or self.scratch,
                                 start_new_session=True)
            try:
                o, er = p.communicate(timeout=timeout)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                o, er = p.communicate()
                return 'timeout', o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
            return p.returncode, o.decode('utf8', 'replace'), er.decode('utf8', 'replace')
        except OSError as x:
            raise HarnessError('cannot run %s: %s' % (cmd[0], x))

    def library_compiles(self):
        """Does the library itself (every public header, C++17) compile?"""
        with self.lock:
            if self.base_ok is not None:
                return self.base_ok
        inc = self.config_dir(True)
        ok = True
        for cc in ('g++', 'clang++'):
            f = self.path('base.cpp')
            open(f, 'w').write('#include "shiva_all.hpp"\nint main(){}\n')
            rc, o, e = self.sh([cc, '-std=c++17', '-w', '-fsyntax-only', '-I' + REPO + '/include', '-I' + inc, '-I' + HARNESS, f], timeout=300)
            ok = ok and rc == 0
            self.base_err = e[:3000]
        self.base_ok = ok
        return ok

    def compile(self, jobs):
        """jobs: (key, compiler, flags, bc, src, obj). Returns {key: None | stderr}."""
        def one(j):
            key, cc, flags, bc, src, obj = j
            cmd = [cc] + flags + WARN + ['-I' + REPO + '/include', '-I' + self.config_dir(bc), '-I' + HARNESS, '-c', src, '-o', obj]
            rc, o, e = self.sh(cmd, timeout=1200)
            if rc == 0:
                return key, None
            if rc != 1 or 'error:' not in e:      # killed, out of memory, out of disk: try once more
                rc, o, e = self.sh(cmd, timeout=1200)
                if rc == 0:
                    return key, None
                if rc != 1 or 'error:' not in e:
                    raise HarnessError('compiler failed (%s): %s\n%s' % (rc, ' '.join(cmd), e[-2000:]))
            return key, e
        with ThreadPoolExecutor(JOBS) as ex:
            return dict(ex.map(one, jobs))

    def build_failed(self, variant, what, stderr):
        if not self.library_compiles():
            raise HarnessError('the library does not compile: ' + self.base_err)
        errs = [l for l in stderr.splitlines() if 'error' in l]
        self.violation('compile/' + variant, 'the library compiles on its own, but this use of it does not (%s): %s' % (what, ' | '.join(errs[:4])[:1500]), variant, stderr=stderr[:6000])

    # ---- C++ harnesses --------------------------------------------------------
    def harness(self, name, sources, variants, parts=1, args=(), libs=(), defs=(), timeout=None, scale=None, seeds=None, group=None, env=None, single=(), mainfile='vh_main.cpp', wrap=(), keep=None):
        """Builds sources (each `parts` times with VH_PART) with every variant and runs the binary."""
        if self.only_variant:
            variants = [v for v in variants if v == self.only_variant] or [self.only_variant]
        jobs, need = [], {}
        d = self.path('build-' + name)
        os.makedirs(d, exist_ok=True)
        for v in variants:
            cc, flags, bc = VARIANTS[v]
            need[v] = []
            main = os.path.join(d, '%s-main.o' % v)
            jobs.append(((v, 'main'), cc, flags, bc, os.path.join(HARNESS, mainfile), main))
            need[v].append(main)
            for s, parts_ in [(s if isinstance(s, tuple) else (s, parts)) for s in sources] + [(s, 1) for s in single]:
                for p in range(parts_):
                    o = os.path.join(d, '%s-%s-%d.o' % (v, os.path.basename(s), p))
                    jobs.append(((v, s, p), cc, flags + ['-DVH_PART=%d' % p] + list(defs), bc, s if os.path.isabs(s) else os.path.join(HARNESS, s), o))
                    need[v].append(o)
        # interleave variants so that long parts start early
        built = self.compile(jobs)
        scale = scale if scale is not None else (12 if self.thorough else 1)
        timeout = timeout or (2400 if self.thorough else 150)
        for v in variants:
            bad = [(k, e) for k, e in built.items() if k[0] == v and e]
            if bad:
                self.build_failed(v, '%s %s' % (name, bad[0][0]), bad[0][1])
                continue
            cc, flags, bc = VARIANTS[v]
            exe = os.path.join(d, v)
            rc, o, e = self.sh([cc] + flags + need[v] + ['-o', exe, '-pthread'] + list(libs), timeout=600)
            if rc != 0:
                self.build_failed(v, name + ' link', e)
                continue
            for s in (seeds or [self.seed]):
                if self.hung:
                    return
                out = self.run_exe(exe, name, v, s, scale, args(v) if callable(args) else args, timeout, group or name, env, wrap)[0]
                if keep is not None and out:
                    keep[v] = out

    def run_exe(self, exe, name, v, seed, scale, args, timeout, group, env=None, wrap=()):
        out = self.path('%s-%s-%d.json' % (name, v, seed))
        log = self.path('san-%s-%s' % (name, v))
        for f in os.listdir(self.scratch):
            if f.startswith(os.path.basename(log) + '.'):
                os.unlink(self.path(f))
        e = {k: val + ':log_path=' + log for k, val in SAN_ENV.items()}
        e.update(env or {})
        cmd = [w.replace('{log}', log) for w in wrap] + [exe, '--property', self.pid, '--seed', str(seed), '--scale', str(scale), '--out', out] + (['--thorough'] if self.thorough else []) + list(args)
        if os.path.exists(out):
            os.unlink(out)
        t = time.time()
        rc, o, er = self.sh(cmd, timeout=timeout, env=e)
        if rc == 'timeout':      # inconclusive so far: once more
            if os.path.exists(out):
                os.unlink(out)
            rc, o, er = self.sh(cmd, timeout=timeout, env=e)
        dt = time.time() - t
        reports = ''
        for f in sorted(os.listdir(self.scratch)):
            if f.startswith(os.path.basename(log) + '.'):
                reports += open(self.path(f), errors='replace').read()
        run = dict(harness=name, variant=v, compiler=VARIANTS[v][0] + ' ' + ' '.join(VARIANTS[v][1]), bounds_check=VARIANTS[v][2], seed=seed, wall_s=round(dt, 2))
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        rp = dict(harness=name, seed=seed, scale=scale)
        if res:
            run.update(evaluations=res['evaluations'], distinct=res['distinct'])
            self.evaluations += res['evaluations']
            self.distinct[group] = max(self.distinct.get(group, 0), res['distinct'])
            for k, n in res['counters'].items():
                self.counters[v + ': ' + k] = self.counters.get(v + ': ' + k, 0) + n
            if len(self.samples) < 60:
                self.samples += ['[%s] %s' % (v, s) for s in res['samples'][:24 if not self.samples else 4]]
            for x in res['violations']:
                self.violation(x['key'], x['detail'], v, **rp)
        where = re.findall(r'VH-AT: .*', er)
        if reports.strip():
            kinds = sorted(set(re.findall(r'(?:ERROR: |WARNING: )?(AddressSanitizer[^\n]*|MemorySanitizer[^\n]*|ThreadSanitizer[^\n]*|runtime error: [^\n]*|LeakSanitizer[^\n]*|==\d+== (?:Invalid|Conditional|Use of)[^\n]*)', reports)))
            self.violation('sanitizer/' + (re.sub(r'0x[0-9a-f]+|\d+', 'N', kinds[0])[:80] if kinds else 'report'),
                           'sanitizer report while running %s: %s %s' % (name, ' | '.join(kinds[:3])[:700], where[-1] if where else ''), v, report=reports[:8000], **rp)
        elif rc == 'timeout':
            self.violation('hang/' + name, '%s did not finish within %d s, twice (it takes a few seconds on a correct tree)' % (name, timeout), v, **rp)
            self.hung = True
        elif res is None or rc not in (0, 1):
            # an abort or crash while only valid operations were performed
            if rc in (64, 126, 127):
                raise HarnessError('%s %s failed to run: %s %s' % (name, v, rc, er[-1000:]))
            if rc == -9:
                raise HarnessError('%s %s was killed (memory?)' % (name, v))
            self.violation('crash/' + name, '%s ended with status %s during valid use: %s %s' % (name, rc, where[-1] if where else '', er[-600:]), v, **rp)
        run['status'] = rc
        self.runs.append(run)
        return res, rc, o, er


def write_config(path, bc, template=None):
    """What CMake's configure_file makes of ShivaConfig.hpp.in."""
    t = open(template or os.path.join(REPO, 'include/shiva/ShivaConfig.hpp.in')).read()
    m = re.search(r'project\s*\(\s*Shiva\s+VERSION\s+(\d+)\.(\d+)\.(\d+)', open(os.path.join(REPO, 'CMakeLists.txt')).read())
    v = m.groups() if m else ('0', '1', '0')
    vals = dict(SHIVA_VERSION_MAJOR=v[0], SHIVA_VERSION_MINOR=v[1], SHIVA_VERSION_PATCHLEVEL=v[2], SHIVA_CUDA_MAJOR='0', SHIVA_CUDA_MINOR='0')
    on = lambda n: n == 'SHIVA_ENABLE_BOUNDS_CHECK' and bc
    vals.update({n: 'ON' if on(n) else 'OFF' for n in ('SHIVA_ENABLE_BOUNDS_CHECK', 'SHIVA_ENABLE_CUDA', 'SHIVA_ENABLE_HIP', 'SHIVA_ENABLE_CAMP')})
    t = re.sub(r'@(\w+)@|\$\{(\w+)\}', lambda m: vals.get(m.group(1) or m.group(2), ''), t)
    t = re.sub(r'^#([ \t]*)cmakedefine01[ \t]+(\w+)(.*)$', lambda m: '#%sdefine %s%s %d' % (m.group(1), m.group(2), m.group(3), on(m.group(2))), t, flags=re.M)
    t = re.sub(r'^#([ \t]*)cmakedefine[ \t]+(\w+)(.*)$', lambda m: '#%sdefine %s%s' % m.groups() if on(m.group(2)) else '/* #undef %s */' % m.group(2), t, flags=re.M)
    open(path, 'w').write(t)


def known_findings(pid):
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


def finish(ctx, spec):
    known = known_findings(ctx.pid)
    seen_known, fresh = {}, []
    for v in ctx.violations:
        if v['key'].replace(' ', '_') in known:
            seen_known[v['key'].replace(' ', '_')] = v
        else:
            fresh.append(v)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level='exploration',
              coverage=dict(evaluations=ctx.evaluations, distinct_nontrivial=sum(ctx.distinct.values()), rule=spec['rule'],
                            samples=ctx.samples[:60] or ['(none)'], observed=dict(sorted(ctx.counters.items())), runs=ctx.runs, distinct_per_harness=ctx.distinct),
              assumptions=spec.get('assumptions', []) + ctx.assumptions, wall_s=round(time.time() - ctx.t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, v in seen_known.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (ctx.pid, known[k], v['detail'][:300]))
    for r in ctx.runs:
        print('  ran %s' % json.dumps({k: x for k, x in r.items() if k != 'compiler'}))
    print('%s %s: %d evaluations, %d distinct non-trivial, %.1f s' % (ctx.pid, ctx.tier, ctx.evaluations, sum(ctx.distinct.values()), time.time() - ctx.t0))
    if fresh:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for k, v in enumerate(fresh[:12]):
            p = os.path.join(d, '%s-%d.json' % (ctx.pid, k))
            json.dump(dict(property=ctx.pid, tier=ctx.tier, command='python3 %s/vrun.py --replay %s' % (VERIF, p), **{**v, 'seed': v.get('seed', ctx.seed)}), open(p, 'w'), indent=1)
            print('violation [%s] %s: %s' % (v['variant'], v['key'], v['detail'][:800]))
            if k < 3:
                print('VIOLATION property=%s replay=%s' % (ctx.pid, p))
        if len(fresh) > 12:
            print('... and %d more' % (len(fresh) - 12))
        return 1
    return 0


def run_check(pid, tier, seed, only_variant=None):
    import registry
    if pid not in registry.CHECKS:
        print('unknown property ' + pid)
        return 2
    spec = registry.CHECKS[pid]
    ctx = Ctx(pid, tier, seed)
    ctx.only_variant = only_variant
    try:
        try:
            spec['run'](ctx)
        except HarnessError as x:
            if ctx.violations:      # what was already observed stands
                print('note: the check was cut short: %s' % x)
                return finish(ctx, spec)
            print('HARNESS-ERROR %s: %s' % (pid, x))
            return 2
        except Exception:      # a defect of the check itself is never reported as a violation
            import traceback
            traceback.print_exc()
            if ctx.violations:
                return finish(ctx, spec)
            print('HARNESS-ERROR %s: the check itself failed' % pid)
            return 2
        if ctx.evaluations == 0 and not ctx.violations:
            print('HARNESS-ERROR %s: nothing was observed' % pid)
            return 2
        return finish(ctx, spec)
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    if a.setup:
        for t in ('g++', 'clang++', 'cmake', 'ninja'):
            if not shutil.which(t):
                print('missing tool: ' + t)
                return 1
        import registry
        print('%d checks registered: %s' % (len(registry.CHECKS), ' '.join(sorted(registry.CHECKS))))
        return 0
    if a.replay:
        r = json.load(open(a.replay))
        return run_check(r['property'], r['tier'], r['seed'], r.get('variant') if r.get('variant') in VARIANTS else None)
    return run_check(a.property, a.tier, a.seed)


if __name__ == '__main__':
    sys.modules['vrun'] = sys.modules['__main__']
    sys.exit(main())
