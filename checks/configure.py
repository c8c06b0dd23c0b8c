"""C30: runs scripts/config-build.py on scratch trees with a stand-in for cmake that records how it was
called, and judges the calls, the exit status and the files left behind.

The script deletes directories, so it runs as an unprivileged user that owns nothing but its scratch tree."""
import os, random, shlex, shutil, stat, subprocess
from concurrent.futures import ThreadPoolExecutor
import vrun
from aggregate import snapshot, compare_snapshots

NOBODY = 65534
STUB = '''#!/bin/sh
d=$(mktemp -d %(log)s/%(name)s.XXXXXX) || exit 99
for a in "$@"; do printf '%%s\\0' "$a"; done > "$d/argv"
pwd -P > "$d/cwd"
ls -A > "$d/listing"
date +%%s%%N > "$d/when"
echo "made by a configuration" > %(name)s.made
[ -f %(log)s/kill ] && kill -9 $$
[ -f %(log)s/%(name)s.exit ] && exit $(cat %(log)s/%(name)s.exit)
exit 0
'''


class World:
    """A scratch tree with a copy of the script, host configurations and things that must not be touched."""
    def __init__(self, ctx, base, r):
        self.ctx, self.base, self.r = ctx, base, r
        self.root = os.path.join(base, r.choice(['shiva', 'shiva', 'my shiva', "it's", 'a$b']))
        self.log = os.path.join(base, '..', os.path.basename(base) + '.log')
        self.log = os.path.abspath(self.log)
        self.bin = self.log + '.bin'
        for d in (self.root + '/scripts', self.root + '/include', self.root + '/hostconfigs/site', self.log, self.bin):
            os.makedirs(d)
        shutil.copy(os.path.join(vrun.REPO, 'scripts', 'config-build.py'), self.root + '/scripts/')
        for f, t in (('/CMakeLists.txt', 'project(x)\n'), ('/include/a.hpp', '//\n')):
            open(self.root + f, 'w').write(t)
        for n in ('cmake', 'dot'):
            f = os.path.join(self.bin, n)
            open(f, 'w').write(STUB % dict(log=self.log, name=n))
            os.chmod(f, 0o755)
        # host configurations
        self.configs = []
        for n in r.sample(['quartz-gcc-12.cmake', 'laptop.cmake', 'noextension', 'a.b.cmake', 'x.cmake.cmake', 'name with space.cmake', 'semi;colon.cmake'], 3):
            d = r.choice([self.root + '/hostconfigs/site', base, self.root + '/hostconfigs'])
            p = os.path.join(d, n)
            open(p, 'w', encoding=r.choice(['utf8', 'latin1'])).write(r.choice(['', 'set(A ON CACHE BOOL "")\n', '# cmake executable path: /nowhere/cmake\n', '# cmake executable path: \nset(B "\u00e9")\n']))
            self.configs.append(p)
        # bystanders, some with names close to those of build directories
        for n in ['build', 'install', 'build-laptop-debug-old', 'build-laptop', 'precious', 'build-quartz-gcc-12-debug.bak', 'install-laptop-debug2']:
            if r.random() < .6:
                self.fill(os.path.join(base, n), keep=True)
        self.work = r.choice([base, self.root, self.root + '/scripts', os.path.join(base, 'elsewhere')])
        os.makedirs(self.work, exist_ok=True)

    def fill(self, d, keep=False):
        """Content that a deletion would take."""
        os.makedirs(os.path.join(d, 'sub/dir'), exist_ok=True)
        for f in ('file', 'sub/dir/deep', '.hidden', 'CMakeCache.txt'):
            open(os.path.join(d, f), 'w').write('old %s of %s\n' % (f, d))
        if not keep and self.r.random() < .5:
            t = os.path.join(self.base, 'precious', 'linked')
            os.makedirs(t, exist_ok=True)
            open(t + '/data', 'w').write('not to be lost\n')
            os.symlink(t, os.path.join(d, 'link'))
        if not keep and self.r.random() < .3:
            os.chmod(os.path.join(d, 'file'), 0o444)

    def give(self):
        """Everything in the scratch tree belongs to the unprivileged user."""
        if os.geteuid() != 0:
            return
        for top in (self.base, self.log, self.bin):
            for d, ds, fs in os.walk(top):
                os.chown(d, NOBODY, NOBODY)
                for x in fs + ds:
                    os.lchown(os.path.join(d, x), NOBODY, NOBODY)

    def run(self, cmd, cwd, path=None):
        user = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if os.geteuid() == 0 else {}
        env = dict(PATH=path or self.bin + ':/usr/local/bin:/usr/bin:/bin', HOME=self.base, TMPDIR=self.log, LANG='C.UTF-8')
        for attempt in (60, 180):
            try:
                p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=cwd, start_new_session=True, **user)
            except OSError as x:
                raise vrun.HarnessError('cannot run %s as an unprivileged user: %s' % (cmd[0], x))
            try:
                o, e = p.communicate(timeout=attempt)
                return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.communicate()
        return 'timeout', '', ''

    def calls(self, name):
        res = []
        for d in sorted(os.listdir(self.log)):
            if d.startswith(name + '.') and os.path.isdir(os.path.join(self.log, d)):
                f = lambda x: open(os.path.join(self.log, d, x), newline='').read()
                res.append(dict(argv=f('argv').split('\0')[:-1], cwd=f('cwd')[:-1], listing=f('listing').split(), when=int(f('when'))))
        return sorted(res, key=lambda c: c['when'])

    def forget(self):
        for d in os.listdir(self.log):
            p = os.path.join(self.log, d)
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


def parse(argv):
    """What a cmake command line says, whichever way it is written."""
    m = dict(cache=[], defs=[], generator=[], graphviz=[], source=[], build=[], other=[])
    k = 0
    while k < len(argv):
        a = argv[k]
        for f, key in (('-C', 'cache'), ('-D', 'defs'), ('-G', 'generator'), ('-S', 'source'), ('-B', 'build')):
            if a.startswith(f):
                v = a[2:]
                if not v:
                    k += 1
                    v = argv[k] if k < len(argv) else ''
                m[key].append(v)
                break
        else:
            if a.startswith('--graphviz='):
                m['graphviz'].append(a[len('--graphviz='):])
            elif a.startswith('-'):
                m['other'].append(a)
            else:
                m['source'].append(a)
        k += 1
    d = {}
    for x in m['defs']:
        n, s, v = x.partition('=')
        d[n.split(':')[0]] = v
    m['defs'] = d
    return m


def take(argv, user):
    """argv without the user's arguments, which must be there one after the other; None if they are not."""
    for k in range(len(argv) - len(user), -1, -1):
        if argv[k:k + len(user)] == user:
            return argv[:k] + argv[k + len(user):]
    return None


USER = ['-DENABLE_COVERAGE:BOOL=ON', '-DFOO=bar', '-DCMAKE_CXX_FLAGS=-O2 -g', '-DCMAKE_PREFIX_PATH=/opt/a;/opt/b', '-DNAME="quoted"', "-DONE='x'", '-DCOST=$HOME', '-DGLOB=*', '-DEMPTY=',
        '-Wno-dev', '--trace', '-UOLD*', '-DPAREN=(a)', '-DAMP=a&b', '-DPIPE=a|b', '-DBACK=a\\b', '-DUNI=\u00e9', '-DTICK=`id`', '-DGT=a>b', '-DHASH=#1', '-DTWO=a  b', '--log-level=VERBOSE', '-DTILDE=~']
PLAIN = ['-DENABLE_COVERAGE:BOOL=ON', '-DFOO=bar', '-DEMPTY=', '-Wno-dev', '--trace', '--log-level=VERBOSE']
TYPES = ['Release', 'Debug', 'RelWithDebInfo', 'MinSizeRel']


def target(w, r, kind):
    """A directory to build or install in: (as given on the command line, where that is)."""
    name = r.choice([kind + 'dir', 'out/of/' + kind, 'dir with space/' + kind, '../' + kind + '-up' if w.work != w.base else kind + '-up', './' + kind + '/x/../y', kind + 'q;r', "it's " + kind])
    where = os.path.normpath(os.path.join(w.work, name))
    given = name if r.random() < .5 else where
    return given + r.choice(['', '', '/']), where


def scenario(ctx, k):
    r = random.Random(ctx.seed * 100003 + k)
    base = ctx.path('w%d' % k, 'tree')
    os.makedirs(base)
    w = World(ctx, base, r)
    history = []
    for step in range(r.choice([1, 1, 2, 3])):
        if not invocation(ctx, w, r, k, step, history):
            return
    if k >= 3:
        shutil.rmtree(ctx.path('w%d' % k), ignore_errors=True)


def invocation(ctx, w, r, k, step, history):
    args, want = [], dict(type='Debug', gen=None, ecc=False, gv=False)
    hc = r.choice(w.configs)
    fate = r.choices(['ok', 'fails', 'killed', 'no cmake', 'bad type', 'no config', 'missing config', 'directory as config', 'config would go', 'sources would go', 'file in the way', 'link in the way'], [24, 4, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1])[0]
    if fate == 'directory as config':
        hc = os.path.join(w.base, 'configs.cmake')
        os.makedirs(hc, exist_ok=True)
    long = r.random() < .5
    opts = []
    if fate != 'no config':
        p = os.path.join(w.base, 'absent.cmake') if fate == 'missing config' else hc
        p = os.path.relpath(p, w.work) if r.random() < .5 else p
        opts.append(['--hostconfig', p] if long else ['-hc', p])
    if r.random() < .7 or fate == 'bad type':
        want['type'] = r.choice(TYPES)
        opts.append([r.choice(['--buildtype', '-bt']), 'Fastest' if fate == 'bad type' else want['type']])
    stem = os.path.basename(hc)
    stem = stem[:-6] if stem.endswith('.cmake') else stem
    build = os.path.join(w.work, 'build-%s-%s' % (stem, want['type'].lower()))
    inst = os.path.join(w.work, 'install-%s-%s' % (stem, want['type'].lower()))
    if r.random() < .6:
        g, build = target(w, r, 'build')
        opts.append([r.choice(['-bp', '--buildpath']), g])
    if r.random() < .6:
        g, inst = target(w, r, 'install')
        opts.append([r.choice(['-ip', '--installpath']), g])
    sort = 'apart'
    if fate in ('ok', 'fails') and r.random() < .15 or fate in ('config would go', 'sources would go', 'file in the way', 'link in the way'):
        opts = [o for o in opts if o[0] not in ('-bp', '--buildpath', '-ip', '--installpath')]
        (g, build), (h, inst) = target(w, r, 'build'), target(w, r, 'install')
        if fate in ('ok', 'fails'):
            sort = r.choice(['build in install', 'install in build', 'one directory'])
            if sort == 'build in install':
                g, build = h.rstrip('/') + '/b', inst + '/b'
            else:
                h, inst = (g, build) if sort == 'one directory' else (g.rstrip('/') + '/i', build + '/i')
        else:
            which = r.choice(['build', 'install'])
            g0, d = (g, build) if which == 'build' else (h, inst)
            if fate == 'config would go':
                os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
                hc = os.path.join(d, 'sub', 'kept.cmake')
                open(hc, 'w').write('set(A ON CACHE BOOL "")\n')
                opts[[o[0] in ('-hc', '--hostconfig') for o in opts].index(True)][1] = hc
            elif fate == 'sources would go':
                g0 = d = r.choice([w.root, w.root + '/scripts', w.base])
            else:
                if os.path.isdir(d):
                    shutil.rmtree(d)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                if fate == 'file in the way':
                    open(d, 'w').write('precious\n')
                    if r.random() < .3:
                        g0, d = g0.rstrip('/') + '/below', d + '/below'
                else:
                    os.symlink(os.path.join(w.base, 'elsewhere'), d)
                    os.makedirs(os.path.join(w.base, 'elsewhere'), exist_ok=True)
            if which == 'build':
                g, build = g0, d
            else:
                h, inst = g0, d
        opts += [['-bp', g], ['--installpath', h]]
    x = r.random()
    if x < .25:
        want['gen'] = 'Ninja'
        opts.append([r.choice(['-n', '--ninja'])])
    elif x < .35:
        want['gen'] = 'Eclipse CDT4 - Unix Makefiles'
        opts.append([r.choice(['-e', '--eclipse'])])
    elif x < .45:
        want['gen'] = 'Xcode'
        opts.append([r.choice(['-x', '--xcode'])])
    if r.random() < .3:
        want['ecc'] = True
        opts.append([r.choice(['-ecc', '--exportcompilercommands'])])
    if r.random() < .25:
        want['gv'] = True
        opts.append([r.choice(['-gvz', '--graphviz'])])
    user = r.sample(PLAIN if r.random() < .4 else USER, r.randint(0, 5))
    if r.random() < .3:
        user = r.choice([['-D', 'A=1', '-D', 'B=2'], ['-DX=1', '-DY=2', '-DX=1'], ['-U', 'OLD*', '-D', 'OLDER=1']]) + user
    opts += [[u] for u in user]
    tail = opts[len(opts) - len(user):]
    head = opts[:len(opts) - len(user)]
    r.shuffle(head)
    merged, i, j = [], 0, 0
    while i < len(head) or j < len(tail):
        if i < len(head) and (j == len(tail) or r.random() < .5):
            merged += head[i]
            i += 1
        else:
            merged += tail[j]
            j += 1
    for d in (build, inst):
        if fate not in ('file in the way', 'link in the way') and not os.path.exists(d) and r.random() < .5:
            w.fill(d)
    # neighbours with similar names
    for d in (build, inst):
        n = os.path.join(os.path.dirname(d), r.choice([os.path.basename(d) + x for x in ('2', '-old', '.bak', ' copy', 's')] + ['old-' + os.path.basename(d), os.path.basename(d)[:-1]]))
        if r.random() < .5 and os.path.isdir(os.path.dirname(d)) and os.path.basename(n) and not os.path.lexists(n) and not any((x + '/').startswith(n + '/') for x in (build, inst)):
            if r.random() < .7:
                w.fill(n, keep=True)
            else:
                open(n, 'w').write('precious\n')
    w.forget()
    if fate == 'fails':
        open(os.path.join(w.log, 'cmake.exit'), 'w').write(str(r.choice([1, 2, 77, 255])))
    if fate == 'killed':
        open(os.path.join(w.log, 'kill'), 'w').close()
    w.give()
    before = snapshot(w.base)
    script = os.path.join(w.root, 'scripts', 'config-build.py')
    script = os.path.relpath(script, w.work) if r.random() < .5 else script
    cmd = ['/usr/bin/env', 'python3', '-B', script] + merged
    bare = os.path.join(w.log, 'bare')
    if fate == 'no cmake':
        os.makedirs(bare)
        import sys
        cmd = [shutil.which('python3'), '-B'] + cmd[3:]
    rc, o, e = w.run(cmd, w.work, bare if fate == 'no cmake' else None)
    after = snapshot(w.base)
    what = 'configuration: seed %d number %d.%d, in %s: config-build.py %s' % (ctx.seed, k, step, os.path.relpath(w.work, w.base), ' '.join(shlex.quote(a) for a in merged))
    history.append(fate)

    def bad(key, text):
        ctx.violation(key, '%s: %s; it printed %r' % (what, text, (o[-200:], e[-300:])), 'python')
        return False
    ctx.eval()
    ctx.count('runs of the script: ' + fate)
    with ctx.lock:
        ctx.distinct['kinds of run'] = len(ctx.kinds.add((fate, want['type'], want['gen'], want['ecc'], want['gv'], len(user), sort)) or ctx.kinds)
        if len(ctx.samples) < 6:
            ctx.samples.append(what + ' -> %s' % rc)
    if rc == 'timeout':
        return bad('hang', 'it did not end')
    cm, dots = w.calls('cmake'), w.calls('dot')
    if fate not in ('ok', 'fails', 'killed', 'no cmake'):
        if rc == 0:
            return bad('refused', 'it ended with status 0 although it cannot do what was asked (%s)' % fate)
        if cm:
            return bad('refused', 'it ran cmake although it cannot do what was asked (%s)' % fate)
        if not compare_snapshots(ctx, what, before, after, []):
            return False
        for d in (build, inst, os.path.dirname(build), os.path.dirname(inst)):
            if os.path.islink(d) or os.path.isfile(d):
                os.unlink(d)     # what was in the way
        return True
    # nothing but the two directories changes
    parents = {p for p in after if p.endswith('/') and (build.startswith(p) or inst.startswith(p))}
    before.update({p: after[p] for p in parents if p not in before})
    if not compare_snapshots(ctx, what, before, after, [build, inst]):
        return False
    if fate == 'no cmake':
        return rc != 0 or bad('status', 'there is no cmake, and it ended with status 0')
    if len(cm) != 1:
        return bad('calls', 'cmake was run %d times' % len(cm))
    c = cm[0]
    if rc != 0 and fate == 'ok':
        return bad('status', 'cmake succeeded, and it ended with %s' % rc)
    if rc == 0 and fate != 'ok':
        return bad('status', 'cmake failed (%s), and it ended with status 0' % fate)
    rest = take(c['argv'], user)
    if rest is None:
        return bad('arguments', 'the arguments %r are not passed on: cmake was called with %r' % (user, c['argv']))
    m = parse(rest)
    ctx.count('cmake calls judged')
    one = lambda x: x[0] if len(x) == 1 else None
    where = os.path.join(c['cwd'], one(m['build'])) if m['build'] else c['cwd']
    real = os.path.realpath
    if real(where) != real(build):
        return bad('place', 'cmake builds in %s instead of %s' % (where, build))
    src = one(m['source'])
    if src is None or real(os.path.join(c['cwd'], src)) != real(w.root):
        return bad('source', 'the source directory given to cmake is %r instead of %s' % (m['source'], w.root))
    cache = one(m['cache'])
    if cache is None or real(os.path.join(c['cwd'], cache)) != real(hc):
        return bad('host configuration', 'the host configuration given to cmake is %r instead of %s' % (m['cache'], hc))
    d = m['defs']
    if d.pop('CMAKE_BUILD_TYPE', None) != want['type']:
        return bad('build type', 'the build type given to cmake is not %s: %r' % (want['type'], c['argv']))
    pre = d.pop('CMAKE_INSTALL_PREFIX', None)
    if pre is None or not os.path.isabs(pre) or real(pre) != real(inst):
        return bad('install directory', 'the install directory given to cmake is %r instead of %s' % (pre, inst))
    ecc = d.pop('CMAKE_EXPORT_COMPILE_COMMANDS', 'off').lower() in ('on', '1', 'true', 'yes', 'y')
    if ecc != want['ecc']:
        return bad('compile commands', 'asked for compile commands: %s, cmake was told: %s' % (want['ecc'], ecc))
    if d or m['other']:
        return bad('arguments', 'cmake got arguments that nobody asked for: %r %r' % (d, m['other']))
    if (one(m['generator']) if m['generator'] else None) != want['gen'] or len(m['generator']) > 1:
        return bad('generator', 'the generator given to cmake is %r instead of %r' % (m['generator'], want['gen']))
    if bool(m['graphviz']) != want['gv'] or len(dots) != (1 if want['gv'] and fate == 'ok' else len(dots) if want['gv'] else 0):
        return bad('graph', 'a graph asked for: %s; cmake was told %r, dot was run %d times' % (want['gv'], m['graphviz'], len(dots)))
    if dots and dots[0]['argv'] and fate == 'ok' and not any(real(os.path.join(dots[0]['cwd'], a)) == real(os.path.join(where, m['graphviz'][0])) for a in dots[0]['argv']):
        return bad('graph', 'dot is run on %r, the graph is %r' % (dots[0]['argv'], m['graphviz'][0]))
    # fresh directories
    old = [p for p in after if before.get(p) == after[p] and after[p] != ('dir',) and any(p.startswith(x + '/') for x in (build, inst))]
    left = [x for x in c['listing'] if x in ('file', 'sub', '.hidden', 'CMakeCache.txt', 'link')]
    if old or left:
        return bad('fresh', 'what an earlier run left was still there: %r' % (old or left))
    # the command kept in the build directory
    f = os.path.join(build, 'cmake_cmd')
    if not os.path.isfile(f) or not os.stat(f).st_mode & stat.S_IXUSR:
        return bad('command file', 'the build directory holds no executable cmake_cmd')
    w.forget()
    w.run(['/bin/sh', './cmake_cmd'], build)
    again = w.calls('cmake')
    if len(again) != 1 or again[0]['argv'] != c['argv']:
        return bad('command file', 'cmake_cmd runs %r instead of %r' % ([x['argv'] for x in again], c['argv']))
    ctx.count('command files run again')
    return True


def run(ctx):
    ctx.kinds = set()
    # the unprivileged user must be able to reach its scratch tree, and own it
    os.chmod(ctx.scratch, 0o711)
    n = 4000 if ctx.thorough else 500
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        list(ex.map(lambda k: ctx.violations[5:] or scenario(ctx, k), range(n)))
    ctx.runs.append(dict(harness='configure.py', variant='python', wall_s=0, evaluations=ctx.evaluations, distinct=ctx.distinct.get('kinds of run', 0), status=0))
