"""C33: runs the continuous-integration scripts with stand-ins for docker and for the tools they call, which
record the calls and fail on demand, and the static-analysis tests with a stand-in for BLT and for make.

The scripts run as an unprivileged user; the only thing made outside the scratch tree is the (empty) build
directory the container script names, which is removed again."""
import json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import vrun

NOBODY = 65534
EXTENSIONS = ('.cpp', '.hpp', '.cxx', '.hxx', '.cc', '.c', '.h', '.hh')
CHECKS = {'--test-code-style': ['testUncrustifyCheck'], '--test-doxygen': ['testDoxygenCheck'], '--code-checks': ['testCppCheck', 'testClangTidy']}
SPECIAL = sorted(sum(CHECKS.values(), []))

# One program under all names: records the call, and fails if it is its turn
STUB = '''#!%(python)s -SE
import json, os, sys
log = %(log)r
name = os.path.basename(sys.argv[0])
args = sys.argv[1:]
plan = json.load(open(log + '.plan'))
def record():
    calls = sum(1 for l in open(log)) if os.path.exists(log) else 0
    with open(log, 'a') as f:
        f.write(json.dumps(dict(tool=name, args=args, cwd=os.getcwd(), env={k: v for k, v in os.environ.items() if k in plan['watch']})) + '\\n')
    return calls
if name == 'docker':
    takes = ('-e', '--env', '-v', '--volume', '--gpus', '--cap-add', '--name', '--mount', '-w', '--workdir', '-u', '--user', '--memory', '--cpus', '--runtime', '--network')
    env, volume, flags, i = {}, None, [], 1
    if args[:1] != ['run']:
        sys.exit(125)
    while i < len(args) and args[i].startswith('-'):
        o, v = args[i], None
        if o.startswith('--') and '=' in o:
            o, v = o.split('=', 1)
        elif o in takes:
            i += 1
            v = args[i]
        if o in ('-e', '--env'):
            if '=' in v:
                a, b = v.split('=', 1)
                env[a] = b
            elif v in os.environ:
                env[v] = os.environ[v]
        elif o in ('-v', '--volume'):
            volume = v
        else:
            flags.append(o + ('' if v is None else '=' + v))
        i += 1
    image, command = args[i], args[i+1:]
    json.dump(dict(image=image, command=command, volume=volume, flags=flags, env=env), open(log + '.docker', 'a'))
    open(log + '.docker', 'a').write('\\n')
    if plan['docker']:
        sys.exit(plan['docker'])
    host, mount = volume.split(':')[:2]
    if not command or not command[0].startswith(mount + '/'):
        sys.exit(127)
    command[0] = host + command[0][len(mount):]
    env['PATH'] = os.environ['PATH']
    env['HOME'] = '/root'
    os.chdir('/')
    os.execve(command[0], command, env)
k = record()
if name == 'python3':
    for i, a in enumerate(args[:-1]):
        if a in ('-bp', '--buildpath'):
            os.makedirs(args[i+1], exist_ok=True)
if plan['fail'] == k:
    sys.exit(plan['rc'])
'''


def units():
    names = []
    for d, ds, fs in os.walk(os.path.join(vrun.REPO, 'tests')):
        names += [f[:-4] for f in fs if f.startswith('test') and f.endswith('.cpp')]
    return sorted(set(names)) or ['testSomething']


class World:
    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        self.r = r = random.Random(ctx.seed * 104729 + k)
        self.base = ctx.path('c%d' % k)
        self.tree = os.path.join(self.base, r.choice(['Shiva', 'work', 'a/b/Shiva-1.0']))
        os.makedirs(self.tree)
        for d in ('scripts', 'hostconfigs'):
            shutil.copytree(os.path.join(vrun.REPO, d), os.path.join(self.tree, d), symlinks=True)
        self.log = os.path.join(self.base, 'calls')
        self.bin = os.path.join(self.base, 'bin')
        os.makedirs(self.bin)
        stub = os.path.join(self.bin, 'stub')
        open(stub, 'w').write(STUB % dict(python=os.path.realpath(sys.executable), log=self.log))
        os.chmod(stub, 0o755)
        for n in ('python3', 'python', 'cmake', 'ctest', 'make', 'gmake', 'ninja', 'cp', 'install', 'mv', 'rsync', 'docker'):
            os.link(stub, os.path.join(self.bin, n))
        for d, ds, fs in os.walk(self.base):
            os.chown(d, NOBODY, NOBODY) if os.geteuid() == 0 else None

    def run(self, script, args, env, fail=-1, rc=0, docker=0):
        for f in (self.log, self.log + '.docker'):
            if os.path.exists(f):
                os.unlink(f)
        json.dump(dict(fail=fail, rc=rc, docker=docker, watch=['CC', 'CXX', 'CMAKE_C_COMPILER', 'CMAKE_CXX_COMPILER', 'CMAKE_BUILD_TYPE', 'HOST_CONFIG', 'ENABLE_CUDA', 'CMAKE_CUDA_ARCHITECTURES', 'NPROC']), open(self.log + '.plan', 'w'))
        user = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
        e = dict(env, PATH=self.bin + ':/usr/local/bin:/usr/bin:/bin', HOME=self.base, LANG='C.UTF-8')
        status = 'timeout'
        for attempt in (60, 180):
            for f in (self.log, self.log + '.docker'):
                if os.path.exists(f):
                    os.unlink(f)
            p = subprocess.Popen([os.path.join(self.tree, 'scripts', script)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=self.base, start_new_session=True, **user)
            try:
                self.out = p.communicate(timeout=attempt)[0].decode('utf8', 'replace')
                status = p.returncode
                break
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
        self.ctx.eval()
        read = lambda f: [json.loads(l) for l in open(f)] if os.path.exists(f) else []
        return status, read(self.log), read(self.log + '.docker')

    def bad(self, what, key, detail):
        self.ctx.violation('ci/' + key, 'seed %d number %d, %s: %s' % (self.ctx.seed, self.k, what, detail), 'python')
        return False


def value(args, names):
    """The value of an option given as 'name value' or 'name=value'; None if it is not there."""
    for i, a in enumerate(args):
        for n in names:
            if a == n and i + 1 < len(args):
                return args[i+1]
            if a.startswith(n + '='):
                return a[len(n)+1:]
    return None


def selected(args, names):
    inc = value(args, ['-R', '--tests-regex'])
    exc = value(args, ['-E', '--exclude-regex'])
    return sorted(n for n in names if (inc is None or re.search(inc, n)) and not (exc is not None and re.search(exc, n)))


def build(call):
    """A call of a build tool: (directory, targets, jobs), or None."""
    a, where, targets, jobs = call['args'], call['cwd'], [], None
    if call['tool'] == 'cmake':
        if not a or a[0] != '--build':
            return None
        where, a = os.path.join(where, a[1]), a[2:]
    elif call['tool'] not in ('make', 'gmake', 'ninja'):
        return None
    i = 0
    while i < len(a):
        n = a[i+1] if i + 1 < len(a) else ''
        if a[i] == '--':
            pass
        elif a[i] in ('-j', '--jobs', '--parallel'):
            if n.isdigit():
                jobs, i = n, i + 1
            else:
                jobs = 'unlimited'
        elif re.match(r'(-j|--jobs=|--parallel=)\d+$', a[i]):
            jobs = re.sub(r'\D', '', a[i])
        elif a[i] in ('-C', '--directory'):
            where, i = os.path.join(where, n), i + 1
        elif a[i] in ('-t', '--target'):
            targets.append(n)
            i += 1
        elif not a[i].startswith('-') and '=' not in a[i]:
            targets.append(a[i])
        i += 1
    return os.path.normpath(where), [t for t in targets if t != 'all'], jobs


def judge(w, what, args, env, calls, names, mount):
    """The calls of a container script in which nothing fails."""
    bad = lambda key, detail: w.bad(what, key, detail)
    shown = ' ; '.join('%s %s' % (c['tool'], ' '.join(c['args'])) for c in calls)
    if not calls or calls[0]['tool'] not in ('python3', 'python') or os.path.basename(calls[0]['args'][0] if calls[0]['args'] else '') != 'config-build.py':
        return bad('configuration', 'the first thing it ran was not the configuration: ' + shown)
    if sum('config-build.py' in ' '.join(c['args']) for c in calls) != 1:
        return bad('configuration', 'it configured more than once: ' + shown)
    c = calls[0]
    script = os.path.realpath(os.path.join(c['cwd'], c['args'][0]))
    if script != os.path.realpath(os.path.join(w.tree, 'scripts', 'config-build.py')):
        return bad('configuration', 'it ran %s, not the script of its own tree' % script)
    hc, bt, bp = value(c['args'], ['-hc', '--host-config']), value(c['args'], ['-bt', '--buildtype']), value(c['args'], ['-bp', '--buildpath'])
    if hc is None or os.path.realpath(os.path.join(c['cwd'], hc)) != os.path.realpath(os.path.join(w.tree, env['HOST_CONFIG'])):
        return bad('host configuration', 'host configuration %r instead of %r' % (hc, env['HOST_CONFIG']))
    if bt != env['CMAKE_BUILD_TYPE']:
        return bad('build type', 'build type %r instead of %r' % (bt, env['CMAKE_BUILD_TYPE']))
    if bp is None:
        return bad('configuration', 'no build directory given: ' + shown)
    cov = [m.group(1) for m in (re.match(r'-DENABLE_COVERAGE(?::\w+)?=(\w+)$', a) for a in c['args']) if m]
    want = '--code-coverage' in args
    got = (cov[-1:] or ['OFF'])[0].upper() in ('ON', 'TRUE', '1', 'YES')
    if got != want:
        return bad('coverage', 'coverage %s asked for, but the configuration says %s' % ('was' if want else 'was not', cov))
    tests, builds, copies = [], [], []
    for i, c in enumerate(calls[1:]):
        b = build(c)
        if c['tool'] == 'ctest':
            d = value(c['args'], ['--test-dir'])
            if os.path.normpath(os.path.join(c['cwd'], d or '.')) != os.path.normpath(bp):
                return bad('tests', 'tests run in %s, not in the build directory %s' % (c['cwd'], bp))
            tests.append((i, selected(c['args'], names)))
        elif b:
            if b[0] != os.path.normpath(bp):
                return bad('build', 'built in %s, not in the build directory %s' % (b[0], bp))
            builds.append((i, b))
        elif c['tool'] in ('cp', 'install', 'mv', 'rsync'):
            copies.append((i, c))
    alone = [a for a in args if a in CHECKS]
    ran = sorted(sum((t for i, t in tests), []))
    if alone:
        expect = sorted(CHECKS[alone[0]])
    elif '--build-exe' in args and '--disable-unit-tests' not in args:
        expect = sorted(n for n in names if n not in SPECIAL)
    else:
        expect = []
    if ran != expect:
        return bad('tests', 'it ran the tests %s, asked for were %s' % (ran[:9], expect[:9]))
    if alone:
        return True
    whole = [(i, b) for i, b in builds if not b[1]]
    if '--build-exe' in args or want:
        if not whole or tests and whole[0][0] > tests[0][0]:
            return bad('build', 'everything was to be built%s: %s' % (' before the tests' if tests else '', shown))
        for i, b in builds:
            if b[2] is not None and env.get('NPROC') and b[2] != env['NPROC'] or not b[1] and b[2] is None and env.get('NPROC', '1') != '1':
                return bad('jobs', 'built with %s jobs instead of %s: %s' % (b[2], env['NPROC'], shown))
    elif builds:
        return bad('build', 'nothing was to be built: ' + shown)
    targets = [t for i, b in builds for t in b[1]]
    if targets != (['shiva_coverage'] if want else []):
        return bad('coverage', 'built the targets %s, coverage %s asked for' % (targets, 'was' if want else 'was not'))
    if want:
        at = [i for i, b in builds if 'shiva_coverage' in b[1]][0]
        report = os.path.join(os.path.normpath(bp), 'shiva_coverage.info.cleaned')
        for i, c in copies:
            src = [os.path.normpath(os.path.join(c['cwd'], a)) for a in c['args'] if not a.startswith('-')]
            if i > at and len(src) == 2 and src[0] == report and src[1] in (os.path.normpath(mount), os.path.join(os.path.normpath(mount), os.path.basename(report))):
                break
        else:
            return bad('coverage', 'the coverage report is not left in the tree: ' + shown)
    return True


def scripts(ctx, k):
    w = World(ctx, k)
    r = w.r
    names = ['blt_gtest_smoke'] + units() + SPECIAL
    mount = '/tmp/Shiva'
    args = r.choice([[], ['--test-code-style'], ['--test-doxygen'], ['--code-checks'], ['--build-exe'], ['--build-exe'], ['--build-exe', '--code-coverage'], ['--code-coverage', '--build-exe'],
                     ['--build-exe', '--disable-unit-tests'], ['--disable-unit-tests', '--build-exe'], ['--code-coverage'], ['--code-coverage', '--build-exe', '--disable-unit-tests']])
    compiler = r.choice(['/usr/bin/clang', 'gcc', '/opt/rh/gcc-toolset-13/root/bin/gcc'])
    env = dict(HOST_CONFIG=r.choice(['hostconfigs/environment.cmake', 'hostconfigs/x.cmake', 'hostconfigs/site/y-12.3.cmake']), CMAKE_BUILD_TYPE=r.choice(['Debug', 'Release', 'RelWithDebInfo']),
               CMAKE_C_COMPILER=compiler, CMAKE_CXX_COMPILER=compiler.replace('gcc', 'g++').replace('clang', 'clang++'))
    if r.random() < .5:
        env.update(ENABLE_CUDA='ON', CMAKE_CUDA_ARCHITECTURES=r.choice(['86', '70;80', 'native']))
    jobs = r.choice([None, '', '1', '3', '64'])
    if jobs is not None:
        env['NPROC'] = jobs
    through = r.random() < .5
    what = '%s %s with %s' % ('ci_build_and_test.sh' if through else 'ci_build_and_test_in_container.sh', ' '.join(args), ' '.join('%s=%s' % x for x in sorted(env.items())))
    image, flags = r.choice(['geosx/ubuntu:22.04-280-607', 'geosx/ubi:8.10']), r.choice(['', '', '--cpus=1 --memory=64g', '--cpus=1 --memory=64g --runtime=nvidia --gpus all'])
    if through:
        outer = dict(env, GITHUB_WORKSPACE=w.tree, DOCKER_REPOSITORY=image, DOCKER_RUN_ARGS=flags, BUILD_AND_TEST_ARGS=' '.join(args))
        go = lambda **x: w.run('ci_build_and_test.sh', [], outer, **x)
    else:
        # on its own the script is given a number of jobs, as the launching script gives it one
        env['NPROC'] = env.get('NPROC') or '2'
        go = lambda **x: w.run('ci_build_and_test_in_container.sh', args, env, **x)
    status, calls, docker = go()
    ok = True
    if status != 0:
        return w.bad(what, 'status', 'status %s although nothing failed: %s' % (status, w.out[-300:]))
    if through:
        if len(docker) != 1:
            return w.bad(what, 'container', '%d containers started' % len(docker))
        d = docker[0]
        mount = (d['volume'] or ':').split(':')[1]
        if d['image'] != image or d['command'][1:] != args or (d['volume'] or '').split(':')[0] != w.tree:
            return w.bad(what, 'container', 'image, arguments or volume differ: %s' % d)
        if [f for f in flags.replace('--gpus all', '--gpus=all').split() if f not in d['flags']]:
            return w.bad(what, 'container', 'options for the container are lost: %s' % d)
        for n in ('ENABLE_CUDA', 'CMAKE_CUDA_ARCHITECTURES', 'HOST_CONFIG', 'CMAKE_BUILD_TYPE', 'CMAKE_C_COMPILER', 'CMAKE_CXX_COMPILER'):
            if d['env'].get(n, '') != env.get(n, ''):
                return w.bad(what, 'container', '%s is %r in the container' % (n, d['env'].get(n)))
        for n, m in (('CC', 'CMAKE_C_COMPILER'), ('CXX', 'CMAKE_CXX_COMPILER')):
            if d['env'].get(n, '') != env[m]:
                return w.bad(what, 'container', '%s is %r in the container' % (n, d['env'].get(n)))
        if jobs is None and d['env'].get('NPROC', '') == '':
            ctx.unlimited.append(what)
            env['NPROC'] = ''
        else:
            env['NPROC'] = env.get('NPROC') or subprocess.run(['/usr/bin/env', '-i', 'PATH=/usr/bin:/bin', 'nproc'], capture_output=True, text=True).stdout.strip()
            if d['env'].get('NPROC') != env['NPROC']:
                return w.bad(what, 'jobs', 'the number of jobs is %r in the container, not %s' % (d['env'].get('NPROC'), env['NPROC']))
    ok = judge(w, what, args, env, calls, names, mount)
    ctx.kinds.add((through, tuple(sorted(args)), 'ENABLE_CUDA' in env, jobs))
    ctx.count('tool calls recorded', len(calls))
    if not ok:
        return
    # every command fails in turn
    for i in range(len(calls)):
        rc = r.choice([1, 2, 8, 77, 127, 255])
        status, seen, docker = go(fail=i, rc=rc)
        which = '%s %s' % (calls[i]['tool'], ' '.join(calls[i]['args'])[:80])
        ctx.count('failures injected')
        if status == 0:
            return w.bad(what, 'hidden failure', '"%s" failed with status %d, but the script ends with status 0' % (which, rc))
        if len(seen) != i + 1:
            return w.bad(what, 'continued', '"%s" failed with status %d, after which it ran %s' % (which, rc, seen[-1] if seen else 'less than before'))
    if through:
        status, seen, docker = go(docker=125)
        if status == 0:
            return w.bad(what, 'hidden failure', 'docker failed, but the script ends with status 0')
    else:
        for n in ('HOST_CONFIG', 'CMAKE_BUILD_TYPE'):
            e = dict(env)
            e.pop(n)
            status, seen, docker = w.run('ci_build_and_test_in_container.sh', args, e)
            if status == 0 or seen:
                return w.bad(what, 'missing', 'without %s it ran %s and ended with status %s' % (n, seen, status))
    if not ctx.violations:
        shutil.rmtree(w.base, ignore_errors=True)


# ---- the static-analysis tests ------------------------------------------------------------------------
BLT = '''
set(BLT_LOADED TRUE)
set(CPPCHECK_FOUND TRUE)
set(CLANGTIDY_FOUND TRUE)
set(UNCRUSTIFY_FOUND TRUE)
set(DOXYGEN_FOUND TRUE)
enable_testing()
macro(blt_add_code_checks)
  cmake_parse_arguments(seen "" "PREFIX;UNCRUSTIFY_CFG_FILE" "SOURCES;CPPCHECK_FLAGS" ${ARGN})
  file(WRITE "@OUT@" "${seen_PREFIX}\\n${seen_UNCRUSTIFY_CFG_FILE}\\n${seen_SOURCES}\\n")
endmacro()
macro(blt_add_doxygen_target)
endmacro()
macro(blt_add_code_coverage_target)
  cmake_parse_arguments(seenc "" "NAME" "RUNNER;SOURCE_DIRECTORIES" ${ARGN})
  file(WRITE "@OUT@.coverage" "${seenc_NAME}\\n${seenc_SOURCE_DIRECTORIES}\\n")
endmacro()
'''
MAKE = '''#!%(python)s -SE
import json, os, sys
plan = json.load(open(%(plan)r))
open(%(plan)r + '.calls', 'a').write(json.dumps([os.path.basename(sys.argv[0]), sys.argv[1:], os.getcwd()]) + '\\n')
sys.stdout.write('progress\\n' * plan['progress'])
sys.stdout.flush()
sys.stderr.write(plan['messages'])
sys.stderr.flush()
sys.exit(plan['rc'])
'''
TEE = '''#!/bin/sh
sleep %s
exec /usr/bin/tee "$@"
'''


def tests(ctx, k):
    r = random.Random(ctx.seed * 15485863 + k)
    base = ctx.path('t%d' % k, r.choice(['home', 'builder', 'campbell', 'blt-user', 'a b', 'rebuild/2']))
    src = os.path.join(base, 'shiva')
    shutil.copytree(vrun.REPO, src, ignore=lambda d, n: [x for x in n if x in ('.git', '_build', 'tpl', 'blt') or x.startswith('build')], symlinks=True)
    out = os.path.join(base, 'seen')
    sub = r.random() < .4
    blt = os.path.join(base if sub else src, 'cmake', 'blt')
    foreign = [os.path.join(src, f) for f in ('cmake/blt/smoke.cpp', 'tpl/camp/include/camp/camp.hpp')]
    for f in foreign + [os.path.join(blt, 'SetupBLT.cmake')]:
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, 'w').write('//\n' if not f.endswith('cmake') else BLT.replace('@OUT@', out))
    # sources that came later
    for f in ('include/shiva/new.hh', 'tests/more/x.cc', 'include/shiva/common/detail/deep.h'):
        if r.random() < .6:
            os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
            open(os.path.join(src, f), 'w').write('//\n')
    inside = not sub and r.random() < .5
    where = os.path.join(src if inside else base, r.choice(['build', 'build-x', '_build'] if inside else ['b', 'build-gcc-release']))
    cov = r.random() < .5
    what = 'seed %d number %d, static analysis of %s built in %s%s' % (ctx.seed, k, src[len(ctx.scratch):], where[len(ctx.scratch):], ' as a subproject' if sub else '')
    bad = lambda key, detail: ctx.violation('code checks/' + key, what + ': ' + detail, 'python')
    top = src
    if sub:
        top = os.path.join(base, 'top')
        os.makedirs(top)
        open(top + '/CMakeLists.txt', 'w').write('cmake_minimum_required(VERSION 3.23)\nproject(top LANGUAGES NONE)\ninclude("%s/SetupBLT.cmake")\nadd_subdirectory("%s" shiva)\n' % (blt, src))
    conf = lambda: ctx.sh(['cmake', '-S', top, '-B', where, '-DSHIVA_ENABLE_BLT=ON', '-DENABLE_COVERAGE=' + ('ON' if cov else 'OFF')], timeout=300, cwd=base)
    for n in range(2):      # the second time the build directory holds generated sources
        rc, o, e = conf()
        if rc == 'timeout':
            raise vrun.HarnessError('cmake takes more than 300 s')
        if rc != 0:
            return bad('configuration', 'the configuration fails: ' + (o + e)[-500:])
    if not os.path.exists(out):
        return bad('sources', 'no code checks were set up')
    prefix, style, files = open(out).read().split('\n')[:3]
    got = set(os.path.realpath(f) for f in files.split(';') if f)
    want = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if os.path.join(d, x) != where]
        want.update(os.path.join(d, f) for f in fs if f.endswith(EXTENSIONS) and os.path.join(d, f) not in foreign)
    want = set(f for f in want if f.startswith((src + '/include/', src + '/tests/')))
    ctx.eval(len(want) + len(foreign) + 1)
    if want - got:
        return bad('sources', '%d of %d sources are not checked, such as %s' % (len(want - got), len(want), sorted(want - got)[0]))
    wrong = sorted(f for f in got if f in foreign or f.startswith(where + '/') or not os.path.exists(f))
    if wrong:
        return bad('sources', '%s is checked, which is not a source of the library' % wrong[0])
    if os.path.realpath(style) != os.path.realpath(os.path.join(src, 'include', 'uncrustify.cfg')):
        return bad('style', 'the style file is %s' % style)
    if cov:
        ctx.eval(2)
        if not os.path.exists(out + '.coverage'):
            return bad('coverage', 'coverage was asked for, but there is no target for it')
        name, dirs = open(out + '.coverage').read().split('\n')[:2]
        if name != 'shiva_coverage' or os.path.join(src, 'include') not in dirs.split(';'):
            return bad('coverage', 'the target is %s, for %s' % (name, dirs))
    elif os.path.exists(out + '.coverage'):
        return bad('coverage', 'coverage was not asked for')
    ctx.kinds.add(('sources', sub, inside, cov, os.path.basename(base)))
    # the tests themselves
    plan, bindir = os.path.join(base, 'plan'), os.path.join(base, 'bin')
    os.makedirs(bindir)
    def put(n, t):
        f = os.path.join(bindir, n)
        open(f, 'w').write(t)
        os.chmod(f, 0o755)
    for n in ('make', 'gmake', 'ninja', 'cmake'):
        put(n, MAKE % dict(python=os.path.realpath(sys.executable), plan=plan))
    put('tee', TEE % r.choice(['0', '0.2', '0.5']))
    ctest = shutil.which('ctest')
    # what the container script asks for must exist, or ctest passes without running anything
    s, o, e = ctx.sh([ctest, '-N'], timeout=300, cwd=where)
    defined = re.findall(r'Test +#\d+: (\S+)', o)
    for n in SPECIAL:
        ctx.eval()
        if n not in defined:
            ctx.undefined.setdefault(n, what)
    if not {'testCppCheck', 'testClangTidy'} <= set(defined):
        return
    for n, rc in [(0, 0), (256, 0), (1, 0), (0, r.choice([1, 2, 255]))] + [r.choice([(0, 0), (2, 2), (255, 0), (257, 0), (512, 0), (300, 1), (-1, 0), (1024, 0)]) for i in range(3)]:
        messages = 'warning without an end of line' if n < 0 else 'warning: something\n' * n
        json.dump(dict(progress=r.choice([0, 1, 3000]), messages=messages, rc=rc), open(plan, 'w'))
        test, target = r.choice([('testCppCheck', 'cppcheck'), ('testClangTidy', 'tidy')])
        if os.path.exists(plan + '.calls'):
            os.unlink(plan + '.calls')
        s, o, e = ctx.sh([ctest, '-R', '^%s$' % test, '--output-on-failure'], timeout=300, cwd=where, env=dict(PATH=bindir + ':/usr/local/bin:/usr/bin:/bin'))
        if s == 'timeout':
            raise vrun.HarnessError('ctest takes more than 300 s')
        calls = [json.loads(l) for l in open(plan + '.calls')] if os.path.exists(plan + '.calls') else []
        ctx.eval()
        ctx.count('static-analysis tests run')
        ctx.kinds.add((test, n, rc))
        if len(calls) != 1 or target not in ' '.join(calls[0][1]) or os.path.realpath(calls[0][2]) != os.path.realpath(where):
            return bad(test, 'the tool was called like this: %s; %s' % (calls, (o + e)[-300:]))
        if (s == 0) != (n == 0 and rc == 0):
            return bad(test, 'it %s although the tool ended with status %d and %s' % ('passes' if s == 0 else 'fails', rc, 'a message without an end of line' if n < 0 else '%d messages' % n))
    if not ctx.violations:
        shutil.rmtree(ctx.path('t%d' % k), ignore_errors=True)


# ---- host configurations ------------------------------------------------------------------------------
def configs(ctx, k):
    """The host configuration of the workflow carries the environment into the cache; every one can be loaded."""
    r = random.Random(ctx.seed * 32452843 + k)
    base = ctx.path('h%d' % k)
    os.makedirs(base)
    open(base + '/CMakeLists.txt', 'w').write('cmake_minimum_required(VERSION 3.23)\nproject(x LANGUAGES NONE)\n')
    shutil.copytree(os.path.join(vrun.REPO, 'hostconfigs'), base + '/hostconfigs', symlinks=True)
    files = sorted(os.path.relpath(os.path.join(d, f), base) for d, ds, fs in os.walk(base + '/hostconfigs') for f in fs if f.endswith('.cmake'))
    main = 'hostconfigs/environment.cmake'
    f = main if k >= len(files) else files[k]
    cc = r.choice(['/usr/bin/gcc', 'clang', '/opt/rh/gcc-toolset-13/root/bin/gcc', '/opt/a b/gcc'])
    env = dict(CC=cc, CXX=cc.replace('clang', 'clang++') if 'clang' in cc else cc[:-3] + 'g++', ENABLE_CUDA=r.choice(['ON', 'ON', 'OFF', '']), CMAKE_CUDA_ARCHITECTURES=r.choice(['86', '70;80', 'native']),
               CUDA_TOOLKIT_ROOT_DIR=r.choice(['', '/opt/cuda-12', '/opt/my cuda']), HOST_CONFIG=f)
    what = 'seed %d number %d, cmake -C %s with %s' % (ctx.seed, k, f, env)
    bad = lambda key, detail: ctx.violation('host configuration/' + key, what + ': ' + detail, 'python')
    for attempt in range(2):      # configuring again changes nothing
        rc, o, e = ctx.sh(['cmake', '-C', f, '-S', '.', '-B', 'out'], timeout=300, cwd=base, env=env)
        ctx.eval()
        if rc == 'timeout':
            raise vrun.HarnessError('cmake takes more than 300 s')
        if rc != 0:
            return bad('load', 'it cannot be loaded: ' + (o + e)[-300:])
        cache = dict(re.findall(r'^([^/#\s][^:\n]*):[A-Z]+=(.*)$', open(base + '/out/CMakeCache.txt').read(), re.M))
        on = lambda n: cache.get(n, '').upper() in ('ON', 'TRUE', '1', 'YES', 'Y')
        if f == main:
            ctx.eval(6)
            for n, v in (('CMAKE_C_COMPILER', env['CC']), ('CMAKE_CXX_COMPILER', env['CXX'])):
                if cache.get(n) != v:
                    return bad('compiler', '%s is %r in the cache' % (n, cache.get(n)))
            if on('ENABLE_CUDA') != (env['ENABLE_CUDA'] == 'ON'):
                return bad('cuda', 'ENABLE_CUDA is %r in the cache' % cache.get('ENABLE_CUDA'))
            if env['ENABLE_CUDA'] == 'ON':
                if cache.get('CMAKE_CUDA_ARCHITECTURES') != env['CMAKE_CUDA_ARCHITECTURES']:
                    return bad('cuda', 'CMAKE_CUDA_ARCHITECTURES is %r in the cache' % cache.get('CMAKE_CUDA_ARCHITECTURES'))
                if env['CUDA_TOOLKIT_ROOT_DIR'] and cache.get('CMAKE_CUDA_COMPILER') != env['CUDA_TOOLKIT_ROOT_DIR'] + '/bin/nvcc' or cache.get('CMAKE_CUDA_HOST_COMPILER') != env['CXX']:
                    return bad('cuda', 'the compilers for CUDA are %r and %r' % (cache.get('CMAKE_CUDA_COMPILER'), cache.get('CMAKE_CUDA_HOST_COMPILER')))
            for n in ('SHIVA_ENABLE_BLT', 'SHIVA_ENABLE_UNIT_TESTS', 'SHIVA_ENABLE_BOUNDS_CHECK'):
                if not on(n):
                    return bad('tests', '%s is %r in the cache, so the workflow tests less than it says' % (n, cache.get(n)))
    ctx.kinds.add((f, env['ENABLE_CUDA'], env['CMAKE_CUDA_ARCHITECTURES'], cc))
    ctx.count('host configurations loaded')
    shutil.rmtree(base, ignore_errors=True)


def run(ctx):
    ctx.kinds = set()
    ctx.undefined = {}
    ctx.unlimited = []
    os.chmod(ctx.scratch, 0o711)
    n = 1200 if ctx.thorough else 90
    made = [d for d in ('/tmp/build', '/tmp/install') if not os.path.exists(d)]
    try:
        with ThreadPoolExecutor(vrun.JOBS) as ex:
            a = [ex.submit(lambda k=k: ctx.violations[3:] or scripts(ctx, k)) for k in range(n)]
            b = [ex.submit(lambda k=k: ctx.violations[3:] or tests(ctx, k)) for k in range(n // 3)]
            c = [ex.submit(lambda k=k: ctx.violations[3:] or configs(ctx, k)) for k in range(n // 2)]
            for f in a + b + c:
                f.result()
    finally:
        for d in made:
            try:
                os.rmdir(d)
            except OSError:
                pass
    if ctx.unlimited:
        ctx.violation('ci/default jobs', '%s: no number of jobs reaches the container' % ctx.unlimited[0], 'python')
    for n, what in sorted(ctx.undefined.items()):
        ctx.violation('code checks/undefined ' + n, '%s: no test %s is defined although its tool is found, so the step of the container script that asks for it passes without running anything' % (what, n), 'python')
    ctx.distinct['kinds of request, place and outcome'] = len(ctx.kinds)
    ctx.runs.append(dict(harness='ci.py', variant='python', wall_s=0, evaluations=ctx.evaluations, distinct=len(ctx.kinds), status=0))
