"""C26: runs scripts/aggregateOrSplit.py on scratch copies and judges the files it leaves behind.

Oracles: the compiler's own dependency listing (g++ -MM) says which headers are needed and what
depends on what; the bytes of the input tree say what a split must restore; a snapshot of the whole
scratch tree says what else was touched; programs built both ways must print the same."""
import hashlib, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vrun

START = re.compile(r'^// ===== Start of (.+) =====$')


def snapshot(root, skip=()):
    res = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for f in fs:
            p = os.path.join(d, f)
            if p in skip:
                continue
            st = os.lstat(p)
            res[p] = (hashlib.sha256(open(p, 'rb').read()).hexdigest(), st.st_mode, st.st_mtime_ns)
        res[d + '/'] = ('dir',)
    return res


PLAIN = dict(LC_ALL='POSIX', PYTHONCOERCECLOCALE='0', PYTHONUTF8='0')  # what cron jobs and minimal containers give


def tool(ctx, args, cwd, hashseed):
    # one run in three in the POSIX locale
    env = dict(PLAIN if hashseed % 3 == 0 else {}, PYTHONHASHSEED=str(hashseed))
    ctx.count('runs in the POSIX locale' if hashseed % 3 == 0 else 'runs in the locale of the check')
    script = os.path.join(vrun.REPO, 'scripts', 'aggregateOrSplit.py')
    for attempt in (40, 120):
        rc, o, e = ctx.sh(['python3', '-B', script] + args, timeout=attempt, cwd=cwd, env=env)
        if rc != 'timeout':
            break
    return rc, o, e


def closure(ctx, header, paths):
    """Every header that including this one needs (itself too), by the compiler."""
    rc, o, e = ctx.sh(['g++', '-std=c++17', '-MM', '-w', '-x', 'c++'] + ['-I' + p for p in paths] + [header], timeout=120)
    if rc != 0:
        raise vrun.HarnessError('g++ -MM %s: %s' % (header, e[:500]))
    names = o.split(':', 1)[1].replace('\\\n', ' ').split()
    return {os.path.realpath(n) for n in names}


def sections(path):
    """The start markers of an aggregate, in order, ignoring lines inside that merely look like one (disabled or indented)."""
    return [m.group(1) for m in (START.match(l.rstrip('\r\n')) for l in open(path, newline='', errors='surrogateescape')) if m]


class Tree:
    """A random directory of headers with known content."""
    def __init__(self, root, r, style):
        self.root, self.r, self.twins = root, r, style.get('twins')
        self.dirs = [''] + r.sample(['a', 'b', 'a/c', 'deep/er/still', 'a-b.c', 'with space' if style.get('space') else 'x_y'], r.randint(1, 4))
        self.headers, self.deps, self.content, self.blank = [], {}, {}, set()
        n = r.randint(3, 14)
        for k in range(n):
            d = r.choice(self.dirs)
            name = r.choice(['h%d.hpp' % k, 'h%d.h' % k, 'common.hpp', 'Mixed-Case.hpp'] if not style.get('twins') else ['h%d.hpp' % k, 'common.hpp', 'common.hpp', 'types.hpp', 'types.hpp'])
            p = os.path.normpath(os.path.join(root, d, name))
            if p in self.headers:
                p = os.path.normpath(os.path.join(root, d, 'h%d.hpp' % k))
            self.headers.append(p)
            shape = style.get('shape')
            pool = self.headers[:-1]
            if r.random() < .12:
                # a header with nothing in it
                self.blank.add(p)
                self.deps[p] = []
                continue
            m = r.choice([0, 1, 1, 2, 3])
            if shape == 'chain':
                pool, m = pool[-1:], 1
            elif shape == 'fan':
                m = len(pool) if k == n - 1 else r.choice([0, 1])
            elif shape == 'diamond':
                pool, m = pool[-3:], 2
            self.deps[p] = r.sample(pool, min(len(pool), m))
        self.paths = [os.path.join(root, d) for d in r.sample(self.dirs, len(self.dirs) if self.twins else r.randint(1, len(self.dirs)))]
        if root not in self.paths:
            self.paths.insert(r.randint(0, len(self.paths)), root)
        for k, p in enumerate(self.headers):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').close()
        for k, p in enumerate(self.headers if self.twins else []):
            # prefer headers found by name in the include directories, several of which have the name
            b = [q for q in self.headers[:k] if q not in self.deps[p] and self.resolve(os.path.basename(q), p) == q and os.path.dirname(q) != os.path.dirname(p)
                 and sum(os.path.isfile(os.path.join(d, os.path.basename(q))) for d in self.paths) > 1]
            # and headers beside the one that includes them, whose name an include directory has too
            c = [q for q in self.headers[:k] if q not in self.deps[p] + b[:1] and os.path.dirname(q) == os.path.dirname(p)
                 and any(os.path.isfile(os.path.join(d, os.path.basename(q))) and d != os.path.dirname(p) for d in self.paths)]
            if p not in self.blank:
                self.deps[p] += b[:1] + c[:1]
        for k, p in enumerate(self.headers):
            self.write(k, p, style)

    def resolve(self, name, base):
        for d in [os.path.dirname(base)] + self.paths:
            q = os.path.normpath(os.path.join(d, name))
            if os.path.isfile(q):
                return q
        return None

    def spell(self, p, q):
        """A way to include q from p that the compiler resolves to q."""
        r = self.r
        ways = [os.path.relpath(q, os.path.dirname(p))] + [os.path.relpath(q, d) for d in self.paths if q.startswith(d + '/')] + [os.path.basename(q)]
        r.shuffle(ways)
        if self.twins:
            # the spelling that most directories answer to
            ways.sort(key=lambda w: -sum(os.path.isfile(os.path.join(d, w)) for d in self.paths))
        for w in ways:
            if self.resolve(w, p) == q:
                return w
        return os.path.relpath(q, os.path.dirname(p))

    def write(self, k, p, style):
        r = self.r
        if p in self.blank:
            self.content[p] = r.choice([b'', b'', b'\n', b'// nothing', b'#pragma once', b'#pragma once\n'])
            open(p, 'wb').write(self.content[p])
            return
        inc = []
        deps = self.deps[p] + (r.sample(self.deps[p], 1) if self.deps[p] and r.random() < .2 else [])
        for q in deps:
            form = r.choice(['#include "%s"', '#include "%s"', '#include   "%s"', '#include\t"%s"', '#include "%s" // why', '  #include "%s"', '#  include "%s"', '#include"%s"'] if style.get('spaced', True) else ['#include "%s"'])
            inc.append(form % self.spell(p, q))
        inc += r.sample(['#include <cstddef>', '#include <vector>', '', '// #include "not/there.hpp"', '#define M%d 1' % k], r.randint(0, 3))
        r.shuffle(inc)
        i = self.headers.index(p)
        body = ['inline int f%d() { return %d%s; }' % (i, r.randint(1, 99), ''.join(' + %d * f%d()' % (r.randint(1, 3), self.headers.index(q)) for q in self.deps[p] if q not in self.blank)),
                'static char const * const text%d = "#include \\"x.hpp\\" \\t // ===== Start";' % i, 'template< typename T > constexpr T twice%d( T t ) { return t + t; }' % i]
        extra = ['', '  ', '\t// tabbed comment', '// #pragma once, in a comment', '#if defined( M%d )\n#define N%d 2\n#else\n#define N%d 3\n#endif' % (i, i, i), '/* unicode: \u00e9\u4e16 */', '// End of', 'static int const pad%d[] = {\n  1,\n  2\n};' % i]
        if style.get('markers'):
            extra += ['//aggregated: #include "nothing.hpp"', '// ===== End of nothing.hpp =====', '// ===== Start of nothing.hpp =====', '// ===== Start of /somewhere/else.hpp ===== and more']
        body += r.sample(extra, r.randint(0, len(extra)))
        guard = r.choice(['pragma', 'pragma', 'ifndef', 'spaced'])
        lines = inc + body
        if guard == 'ifndef':
            lines = ['#ifndef GUARD_%d' % i, '#define GUARD_%d' % i] + lines + ['#endif']
        else:
            lines = ['#pragma once' if guard == 'pragma' else r.choice(['#pragma   once', '# pragma once', '#pragma once // only'])] + lines
            if r.random() < .5:
                lines = ['/*', ' * Licence: #include me', ' */', ''] + lines
        nl = '\r\n' if style.get('crlf') and r.random() < .5 else '\n'
        text = nl.join('\n'.join(lines).split('\n')) + r.choice([nl, nl, '', nl * 3])
        self.content[p] = text.encode()
        if style.get('latin'):
            # comments written on a machine with another encoding
            self.content[p] = self.content[p].replace('\u00e9\u4e16'.encode(), r.choice([b'\xe9', b'\xe9t\xe9 \xb5', b'\xff\xfe', b'\xc3', b'\x93quoted\x94']))
        open(p, 'wb').write(self.content[p])


class Twins(Tree):
    """The same names in the own directory and in every include directory."""
    def __init__(self, root, r, style):
        self.root, self.r, self.twins = root, r, True
        self.dirs = r.sample(['a', 'b', 'c', 'd/e'], 3)
        a, b, s = [os.path.join(root, d) for d in self.dirs]
        self.paths = r.sample([a, b], 2)
        first = self.paths[0]
        names = ['x.hpp', 'sub/y.hpp']
        self.headers = [os.path.join(d, n) for n in names for d in (a, b, s)]
        self.deps, self.content, self.blank = {h: [] for h in self.headers}, {}, set()
        # beside the header; found in the first include directory; both
        for p, q in ((os.path.join(s, 'top.hpp'), [os.path.join(s, n) for n in names]), (os.path.join(root, 'far', 'top.hpp'), [os.path.join(first, n) for n in names]),
                     (os.path.join(first, 'near.hpp'), [os.path.join(first, 'sub/y.hpp')])):
            self.headers.append(p)
            self.deps[p] = q
        self.headers.append(os.path.join(root, 'far', 'last.hpp'))
        self.deps[self.headers[-1]] = [os.path.join(root, 'far', 'top.hpp'), os.path.join(s, 'top.hpp')] if r.random() < .5 else [os.path.join(first, 'near.hpp')]
        for k, p in enumerate(self.headers):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'w').close()
        for k, p in enumerate(self.headers):
            self.write(k, p, style)


def judge_aggregate(ctx, what, agg, requested, closures, contents):
    """Structure of one aggregate. Returns False after a violation."""
    order = sections(agg)
    needed = set()
    for h in requested:
        needed |= closures[h]
    real = [os.path.realpath(s) for s in order]
    bad = None
    if sorted(real) != sorted(needed):
        twice = sorted({x for x in real if real.count(x) > 1})
        bad = 'sections', 'headers missing: %s; not needed: %s; more than once: %s' % (sorted(needed - set(real))[:4], sorted(set(real) - needed)[:4], twice[:4])
    else:
        for k, h in enumerate(real):
            late = [d for d in closures[h] if d != h and d not in real[:k]]
            if late:
                bad = 'order', '%s comes before %s, which it needs' % (h, late[0])
                break
    ctx.eval(len(order))
    if bad:
        ctx.violation('aggregate/' + bad[0], '%s: %s' % (what, bad[1]), 'python')
    return not bad


def judge_split(ctx, what, out, needed, contents, unrelated):
    """What the split left below out against the original bytes."""
    found = {}
    for d, ds, fs in os.walk(out):
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p):
                ctx.violation('split/link', '%s: %s is a link' % (what, p), 'python')
                return False
            if p in unrelated:
                continue
            found[p] = open(p, 'rb').read()
    left = dict(found)
    for h in sorted(needed, key=lambda x: -len(x)):
        cand = [p for p in left if os.path.basename(p) == os.path.basename(h)]
        # the longest common tail of the two paths
        cand.sort(key=lambda p: -len(os.path.commonprefix([p[::-1], h[::-1]])))
        same = [p for p in cand if left[p] == contents[h]]
        ctx.eval()
        if not same:
            detail = 'no file of that name below the output directory' if not cand else 'restored with %d bytes %r..., original %d bytes %r...' % ((len(left[cand[0]]),) + diffat(left[cand[0]], contents[h], 0) + (len(contents[h]),) + diffat(left[cand[0]], contents[h], 1))
            ctx.violation('split/content', '%s: %s is not restored: %s' % (what, h, detail), 'python')
            return False
        best = [p for p in same if p == cand[0]] or same
        del left[best[0]]
    if left:
        ctx.violation('split/extra', '%s: unexpected files %s' % (what, sorted(left)[:4]), 'python')
        return False
    for p, c in unrelated.items():
        if not os.path.exists(p) or open(p, 'rb').read() != c:
            ctx.violation('split/unrelated', '%s: %s, unrelated to the aggregate, was changed' % (what, p), 'python')
            return False
    return True


def diffat(a, b, which):
    k = 0
    while k < min(len(a), len(b)) and a[k] == b[k]:
        k += 1
    return ((a, b)[which][max(0, k - 10):k + 30],)


def compare_snapshots(ctx, what, before, after, allowed):
    changed = sorted(p for p in set(before) | set(after) if before.get(p) != after.get(p) and not any(p == a or p.startswith(a.rstrip('/') + '/') for a in allowed))
    ctx.count('files watched for modification', len(before))
    if changed:
        kind = 'created' if changed[0] not in before else 'deleted' if changed[0] not in after else 'modified'
        ctx.violation('touched/' + what.split(':')[0], '%s: %s %s' % (what, changed[0], kind), 'python')
        return False
    return True


def run_tree(ctx, k):
    r = random.Random(ctx.seed * 1000 + k)
    base = ctx.path('tree%d' % k)
    root = os.path.join(base, 'inc lude' if r.random() < .15 else 'include')
    os.makedirs(root)
    style = dict(shape=r.choice([None, None, 'chain', 'fan', 'diamond']), markers=r.random() < .3, crlf=r.random() < .3, latin=r.random() < .3, twins=r.random() < .5, space=r.random() < .1 and ' ' not in root)
    t = (Twins if k < 5 else Tree)(root, r, style)
    what = 'tree: seed %d number %d (%d headers, %s)' % (ctx.seed, k, len(t.headers), style)
    paths = t.paths
    closures = {os.path.realpath(h): closure_known(t, h) for h in t.headers}
    contents = {os.path.realpath(h): c for h, c in t.content.items()}
    req = r.sample(t.headers, r.randint(1, min(3, len(t.headers))))
    if t.twins and k < 5:
        req = [t.headers[-1 - k % 4]]
    elif t.twins and r.random() < .7:
        req = t.headers[-3:]
    if not t.twins and r.random() < .4:
        req = t.headers[-1:]
    if r.random() < .2:
        req = req + req[:1]
    reqreal = [os.path.realpath(h) for h in req]
    outdir = os.path.join(base, 'out')
    os.makedirs(outdir)
    agg = os.path.join(outdir, 'all.hpp')
    default_paths = paths == [root]
    cwd = root if default_paths else base
    if r.random() < .3:
        open(agg, 'w').write('what was here before\n')
    args = ['aggregate'] + [os.path.relpath(h, cwd) if r.random() < .4 else h for h in req] + [os.path.relpath(agg, cwd) if r.random() < .3 else agg]
    if not default_paths:
        args += ['--include-paths'] + [os.path.relpath(p, cwd) if r.random() < .3 else p for p in paths]
    before = snapshot(base)
    rc, o, e = tool(ctx, args, cwd, r.randint(0, 1000))
    if rc != 0 or not os.path.exists(agg):
        ctx.violation('hang/aggregate' if rc == 'timeout' else 'failed/aggregate', '%s: aggregate ended with %s: %s' % (what, rc, (o[-300:] + e[-500:])), 'python')
        return
    if not compare_snapshots(ctx, what, before, snapshot(base), [agg]):
        return
    if not judge_aggregate(ctx, what, agg, reqreal, closures, contents):
        return
    needed = set().union(*[closures[h] for h in reqreal])
    ctx.count('aggregates of random trees')
    ctx.distinct['random trees'] = ctx.distinct.get('random trees', 0) + 1
    # programs
    ids = [t.headers.index(h) for h in t.headers if os.path.realpath(h) in needed and h not in t.blank]
    src = os.path.join(base, 'main.cpp')
    prog = '\n'.join(['#include <cstdio>', '@INC@', 'int main() {'] + ['std::printf( "%%d %%s %%d\\n", f%d(), text%d, twice%d( %d ) );' % (i, i, i, i) for i in ids] + ['#ifdef M%d\nstd::printf( "M\\n" );\n#endif' % i for i in ids] + ['}'])
    outs = []
    for kind in (0, 1):
        inc = '\n'.join('#include "%s"' % h for h in req) if kind == 0 else '\n'.join(['#include "%s"' % agg] * r.randint(1, 3))
        f = os.path.join(base, 'main%d.cpp' % kind)
        open(f, 'w').write(prog.replace('@INC@', inc))
        rc, o, e = ctx.sh(['g++', '-std=c++17', '-w', '-O0', f, '-o', f + '.exe'] + (['-I' + p for p in paths] if kind == 0 else []), timeout=300)
        if rc != 0:
            if kind == 0:
                raise vrun.HarnessError('generated tree does not compile: ' + e[:800])
            ctx.violation('aggregate/program', '%s: a program that compiles with the original headers does not compile with the aggregate: %s' % (what, ' | '.join([l for l in e.splitlines() if 'error' in l][:3])), 'python')
            return
        rc, o, e = ctx.sh([f + '.exe'], timeout=60)
        outs.append((rc, o))
    ctx.eval()
    ctx.count('programs compared')
    if outs[0] != outs[1]:
        ctx.violation('aggregate/behaviour', '%s: the program prints %r with the headers and %r with the aggregate' % (what, outs[0], outs[1]), 'python')
        return
    # split
    dest = os.path.join(base, r.choice(['restored', 'res/to/red', 'out/again']))
    unrelated = {}
    if r.random() < .4:
        os.makedirs(dest)
        u = os.path.join(dest, 'keep.txt')
        open(u, 'wb').write(b'keep me\n')
        unrelated[u] = b'keep me\n'
    before = snapshot(base)
    rc, o, e = tool(ctx, ['split', agg, (os.path.relpath(dest, base) if r.random() < .4 else dest) + r.choice(['', '/'])], base, r.randint(0, 1000))
    if rc != 0:
        ctx.violation('hang/split' if rc == 'timeout' else 'failed/split', '%s: split ended with %s: %s' % (what, rc, o[-300:] + e[-500:]), 'python')
        return
    parents = [dest]
    after = snapshot(base)
    before.update({p: v for p, v in after.items() if p.endswith('/') and dest.startswith(p)})
    if not compare_snapshots(ctx, 'split of ' + what, before, after, [dest]):
        return
    if not judge_split(ctx, what, dest, needed, contents, unrelated):
        return
    ctx.count('splits of random trees')
    # an aggregate of the aggregate and one more header, split twice
    if r.random() < .5:
        agg2 = os.path.join(base, 'second.hpp')
        rc, o, e = tool(ctx, ['aggregate', agg, agg2, '--include-paths'] + paths, base, 1)
        dest2 = os.path.join(base, 'restored2')
        rc2, o2, e2 = tool(ctx, ['split', agg2, dest2], base, 2)
        if rc != 0 or rc2 != 0 or not judge_split(ctx, what + ', aggregated again', dest2, {os.path.realpath(agg)}, {os.path.realpath(agg): open(agg, 'rb').read()}, {}):
            if not ctx.violations:
                ctx.violation('failed/again', '%s: aggregating the aggregate: %s %s' % (what, rc, rc2), 'python')
            return
        ctx.count('aggregates of aggregates restored')
    shutil.rmtree(base, ignore_errors=True)


def closure_known(t, h):
    seen, todo = set(), [h]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += t.deps[x]
    return {os.path.realpath(x) for x in seen}


def public_headers(include):
    res = []
    for d, ds, fs in os.walk(include):
        res += [os.path.join(d, f) for f in fs if f.endswith('.hpp') and f != 'namespaceDocumentation.hpp']
    return sorted(res)


def run_real(ctx):
    """The library's own headers."""
    r = random.Random(ctx.seed)
    base = ctx.path('real')
    inc = os.path.join(base, 'include')
    shutil.copytree(os.path.join(vrun.REPO, 'include'), inc)
    vrun.write_config(os.path.join(inc, 'shiva', 'ShivaConfig.hpp'), False)
    headers = public_headers(inc)
    contents = {h: open(h, 'rb').read() for h in headers}
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        closures = dict(zip(headers, ex.map(lambda h: closure(ctx, h, [inc]), headers)))
    outdir = os.path.join(base, 'out')
    os.makedirs(outdir)
    cases = [headers[:]] + [r.sample(headers, r.randint(1, 4)) for _ in range(16 if ctx.thorough else 5)]
    r.shuffle(cases[0])
    for k, req in enumerate(cases):
        agg = os.path.join(outdir, 'agg%d.hpp' % k)
        what = 'library: %s' % ', '.join(os.path.relpath(h, inc) for h in req[:4])
        cwd = inc if k % 2 else base
        before = snapshot(base)
        rc, o, e = tool(ctx, ['aggregate'] + req + [agg] + ([] if k % 2 else ['--include-paths', inc]), cwd, k)
        if rc != 0:
            ctx.violation('hang/aggregate' if rc == 'timeout' else 'failed/aggregate', '%s: aggregate ended with %s: %s' % (what, rc, e[-500:]), 'python')
            return
        ok = compare_snapshots(ctx, what, before, snapshot(base), [agg]) and judge_aggregate(ctx, what, agg, req, closures, contents)
        if not ok:
            return
        needed = set().union(*[closures[h] for h in req])
        before = snapshot(base)
        dest = os.path.join(base, 'split%d' % k)
        rc, o, e = tool(ctx, ['split', agg, dest], base, k)
        if rc != 0 or not compare_snapshots(ctx, 'split of ' + what, before, snapshot(base), [dest]) or not judge_split(ctx, what, dest, needed, contents, {}):
            if rc != 0:
                ctx.violation('hang/split' if rc == 'timeout' else 'failed/split', '%s: split ended with %s: %s' % (what, rc, e[-500:]), 'python')
            return
        ctx.count('aggregates of library headers')
        ctx.distinct['library'] = ctx.distinct.get('library', 0) + 1
        rc, o, e = ctx.sh(['g++', '-std=c++17', '-w', '-fsyntax-only', '-include', agg, '-x', 'c++', '/dev/null'], timeout=300)
        if rc != 0:
            ctx.violation('aggregate/compile', '%s: the aggregate does not compile: %s' % (what, ' | '.join([l for l in e.splitlines() if 'error' in l][:3])), 'python')
            return
    # a program built with forwarding headers that only include the aggregate of everything
    fwd = os.path.join(base, 'forward')
    for h in headers:
        p = os.path.join(fwd, os.path.relpath(h, inc))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write('#include "%s"\n' % os.path.join(outdir, 'agg0.hpp'))
    jobs = []
    units = [('workload.cpp', p) for p in range(5)] + [('shared.cpp', p) for p in range(9)] + [('c25.cpp', 0)]
    def build(j):
        which, (src, part) = j
        o = os.path.join(base, '%s-%s-%d.o' % (which, src, part))
        i = inc if which == 'ref' else fwd
        rc, so, e = ctx.sh(['g++', '-std=c++17', '-O0', '-w', '-I' + i, '-I' + vrun.HARNESS, '-DVH_PART=%d' % part, '-c', os.path.join(vrun.HARNESS, src), '-o', o], timeout=600)
        return j, o, rc, e
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        res = list(ex.map(build, [(w, u) for u in units for w in ('ref', 'agg')]))
    for which in ('ref', 'agg'):
        mine = [x for x in res if x[0][0] == which]
        bad = [x for x in mine if x[2] != 0]
        if bad:
            if which == 'ref':
                ctx.build_failed('g++', 'program over the original headers', bad[0][3])
            else:
                ctx.violation('aggregate/program', 'the workload does not compile with the aggregate: ' + ' | '.join([l for l in bad[0][3].splitlines() if 'error' in l][:3]), 'python')
            return
        rc, o, e = ctx.sh(['g++'] + [x[1] for x in mine] + ['-o', os.path.join(base, which)], timeout=300)
        if rc != 0:
            ctx.violation('aggregate/link', 'the workload (%s) does not link: %s' % (which, e[-500:]), 'python')
            return
        rc, o, e = ctx.sh([os.path.join(base, which), '--seed', str(ctx.seed), '--log', os.path.join(base, which + '.log'), '--out', os.path.join(base, which + '.json'), '--dump' if which == 'ref' else '--inputs', os.path.join(base, 'inputs')], timeout=300)
        if rc != 0:
            ctx.violation('aggregate/behaviour', 'the workload (%s) ended with status %s: %s' % (which, rc, e[-300:]), 'python')
            return
    a, b = (open(os.path.join(base, w + '.log'), 'rb').read() for w in ('ref', 'agg'))
    rc, o, e = ctx.sh(['g++', '-std=c++17', '-O1', '-w', '-I' + inc, '-I' + vrun.HARNESS, os.path.join(vrun.HARNESS, 'c25cmp.cpp'), '-o', os.path.join(base, 'cmp')], timeout=300)
    rc, o, e = ctx.sh([os.path.join(base, 'cmp'), os.path.join(base, 'ref.log'), os.path.join(base, 'agg.log')])
    last = o.splitlines()[-1].split() if o else ['?']
    if last[0] != 'S' or last[1] != last[3] or len(a) != len(b):
        ctx.violation('aggregate/behaviour', 'the workload gives other results with the aggregate: %s' % o[:500], 'python')
        return
    ctx.count('workload records compared bitwise', int(last[1]))
    ctx.samples.append('the workload over the aggregate of %d headers: %s records bitwise equal' % (len(headers), last[1]))
    ctx.eval(int(last[1]))


def run(ctx):
    def guarded(k):
        run_tree(ctx, k)
    n = 200 if ctx.thorough else 40
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        for f in [ex.submit(guarded, k) for k in range(n)]:
            f.result()
    ctx.samples.append('%d random trees' % n)
    run_real(ctx)
    ctx.runs.append(dict(harness='aggregateOrSplit.py', variant='python', seed=ctx.seed, trees=n))
