"""C27: headers alone, in any order, repeatedly and from many translation units; configure, install, consume."""
import filecmp, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vrun

PROBE = '''
#include <cstdio>
int main()
{
  std::printf( "config %d.%d.%d checks=%d cuda=%d hip=%d std=%ld\\n", SHIVA_VERSION_MAJOR, SHIVA_VERSION_MINOR, SHIVA_VERSION_PATCHLEVEL, CHECKS, CUDA, HIP, __cplusplus >= 201703L ? 17L : 0L );
  shiva::CArrayNd< double, 2, 3 > a; for ( int k = 0; k < 6; ++k ) { a.data()[k] = k; }
  using Q = shiva::QuadratureGaussLegendre< double, 3 >;
  std::printf( "%g %a %a\\n", a( 1, 2 ), Q::weight< 1 >(), Q::coordinate( 2 ) );
  using B = shiva::functions::LagrangeBasis< double, 1, shiva::GaussLobattoSpacing >;
  using S = shiva::geometry::InterpolatedShape< double, shiva::geometry::NCube< double, 3, -1, 1, 1 >, B, B, B >;
  shiva::geometry::LinearTransform< double, S > cell; for ( int k = 0; k < 24; ++k ) { cell.getData().data()[k] = ( k * 7 % 11 ) * 0.25; }
  double const xi[3] = { 0.25, -0.5, 0.125 };
  auto const J = shiva::geometry::utilities::jacobian( cell, xi );
  for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) { std::printf( " %a", J( i, j ) ); } } std::printf( "\\n" );
  std::fflush( stdout );
  int volatile far = 3; double volatile sink = 0; if ( far == 3 ) { double buf[64] = {}; shiva::CArrayViewNd< double, 2, 3 > v( buf ); sink = v( 0, far ); }
  std::printf( "unchecked %g\\n", sink );
}
'''
DETECT = '''
#ifdef SHIVA_ENABLE_BOUNDS_CHECK
#define CHECKS 1
#else
#define CHECKS 0
#endif
#ifdef SHIVA_ENABLE_CUDA
#define CUDA 1
#else
#define CUDA 0
#endif
#ifdef SHIVA_ENABLE_HIP
#define HIP 1
#else
#define HIP 0
#endif
'''


def public_headers():
    inc = os.path.join(vrun.REPO, 'include')
    res = []
    for d, ds, fs in os.walk(inc):
        res += [os.path.relpath(os.path.join(d, f), inc) for f in fs if f.endswith('.hpp') and f != 'namespaceDocumentation.hpp']
    return sorted(res)


def order_matters(h):
    return h == 'shiva/Shiva.hpp'


def alone(ctx, headers):
    """Each header on its own, twice, with the documented standards, compilers and checking."""
    jobs = []
    for h in headers:
        for cc in ('g++', 'clang++'):
            for std in (('c++17', 'c++20') if not ctx.thorough else ('c++17', 'c++20', 'c++23')):
                for bc in (True, False):
                    jobs.append((h, cc, std, bc))

    def one(j):
        h, cc, std, bc = j
        n = ctx.path('alone-%d.cpp' % jobs.index(j))
        open(n, 'w').write('#include "%s"\n#include "%s"\nint main() {}\n' % (h, h))
        rc, o, e = ctx.sh([cc, '-std=' + std, '-w', '-fsyntax-only', '-I' + vrun.REPO + '/include', '-I' + ctx.config_dir(bc), '-I' + vrun.REPO + '/include/shiva' if order_matters(h) else '-I' + ctx.config_dir(bc), n], timeout=300)
        return j, rc, e
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        for j, rc, e in ex.map(one, jobs):
            ctx.eval()
            ctx.count('headers compiled on their own')
            ctx.distinct['alone'] = ctx.distinct.get('alone', 0) + 1
            if rc != 0:
                ctx.violation('alone/' + j[0], '%s included on its own (and once more) does not compile with %s -std=%s, checking %s: %s' % (j + (' | '.join([l for l in e.splitlines() if 'error' in l][:3])[:900],)), j[1])


def units(ctx, headers, k, r):
    """A program of several units that include the headers in different orders, repeatedly, and use the same facilities."""
    d = ctx.path('units-%d' % k)
    os.makedirs(d)
    cc = ['g++', 'clang++'][k % 2]
    std = r.choice(['c++17', 'c++17', 'c++20'])
    bc = bool(r.getrandbits(1))
    opt = r.choice(['-O0', '-O0', '-O2'])
    n = 4
    srcs, orders = [], []
    for u in range(n):
        order = headers[:]
        r.shuffle(order)
        order += r.sample(headers, 3)
        if u == 0:
            order = headers[::-1]
        orders.append(order)
        f = os.path.join(d, 'u%d.cpp' % u)
        open(f, 'w').write(''.join('#include "%s"\n' % h for h in order) + '#define UNIT %d\n#include "c27_unit.hpp"\n' % u)
        srcs.append(f)
    f = os.path.join(d, 'main.cpp')
    open(f, 'w').write('#define UNITS %d\n#include "c27_main.hpp"\n' % n)
    srcs.append(f)
    # every third program keeps one unit in a shared library
    shared = k % 3 == 2
    flags = ['-std=' + std, opt, '-w', '-I' + vrun.REPO + '/include', '-I' + ctx.config_dir(bc), '-I' + vrun.HARNESS] + (['-fPIC'] if shared else [])
    what = 'program %d (%s -std=%s %s, checking %s%s)' % (k, cc, std, opt, bc, ', one unit in a shared library' if shared else '')

    def comp(f):
        rc, o, e = ctx.sh([cc] + flags + ['-c', f, '-o', f + '.o'], timeout=600)
        return f, rc, e
    for f in srcs:
        f, rc, e = comp(f)
        if rc != 0:
            ctx.violation('order/compile', '%s: the headers in the order %s do not compile: %s' % (what, ' '.join(orders[srcs.index(f)])[:600] if srcs.index(f) < n else '-', ' | '.join([l for l in e.splitlines() if 'error' in l][:3])[:700]), cc)
            return
    objs = [f + '.o' for f in srcs]
    if shared:
        rc, o, e = ctx.sh([cc, '-shared', objs[1], '-o', os.path.join(d, 'libunit.so')], timeout=300)
        objs = objs[:1] + objs[2:] + ['-L' + d, '-lunit', '-Wl,-rpath,' + d]
    exe = os.path.join(d, 'prog')
    rc, o, e = ctx.sh([cc] + objs + ['-o', exe, '-pthread'], timeout=300)
    if rc != 0:
        errs = [l for l in e.splitlines() if 'multiple definition' in l or 'undefined' in l or 'error' in l]
        ctx.violation('link/' + ('duplicate' if any('multiple definition' in l for l in errs) else 'missing'), '%s: %d units that include the headers do not link: %s' % (what, n, ' | '.join(errs[:3])[:800]), cc)
        return
    rc, o, e = ctx.sh([exe, str(ctx.seed)], timeout=120)
    ctx.eval()
    vals = [l for l in o.splitlines() if l.startswith('V ')]
    diff = [l for l in o.splitlines() if l.startswith('DIFFERENT')]
    if rc != 0 or diff or not vals:
        ctx.violation('units/behaviour', '%s: status %s, %s' % (what, rc, (' | '.join(diff[:3]) or (o + e)[-400:])), cc)
        return
    ctx.count('programs of several units')
    ctx.count('values compared between units', int(vals[0].split()[1]))
    ctx.count('addresses of shared objects compared between units', int(vals[0].split()[2]))
    ctx.eval(int(vals[0].split()[1]))
    ctx.distinct['units'] = ctx.distinct.get('units', 0) + n
    ctx.samples.append('%s: %s' % (what, vals[0]))
    shutil.rmtree(d, ignore_errors=True)


CONSUMER = '''cmake_minimum_required(VERSION 3.20)
project(consumer CXX)
@STD@
@FIND@
add_executable(prog main.cpp second.cpp)
target_link_libraries(prog PRIVATE @TARGET@)
'''


def consume(ctx, k, bc, way, cc, std):
    """Configures (and installs) a copy of the library, then builds and runs a consumer."""
    d = ctx.path('consume-%d' % k)
    src, build, prefix, con = (os.path.join(d, x) for x in ('src', 'build', 'prefix', 'consumer'))
    os.makedirs(src)
    os.makedirs(con)
    for x in ('include', 'cmake', 'CMakeLists.txt'):
        s = os.path.join(vrun.REPO, x)
        (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(src, x))
    env = dict(CC='gcc' if cc == 'g++' else 'clang', CXX=cc, CMAKE_PREFIX_PATH='', Shiva_DIR='')
    what = 'consumer %d (%s, bounds check %s, %s, standard %s)' % (k, way, 'ON' if bc else 'OFF', cc, std or 'unspecified')
    opts = ['-DSHIVA_ENABLE_BOUNDS_CHECK=' + ('ON' if bc else 'OFF')]
    before = {os.path.join(p, f): open(os.path.join(p, f), 'rb').read() for p, _, fs in os.walk(src) for f in fs}

    def step(name, cmd, cwd=d):
        rc, o, e = ctx.sh(cmd, timeout=600, env=env, cwd=cwd)
        if rc != 0:
            ctx.violation('consume/' + name, '%s: %s fails: %s' % (what, name, (o[-500:] + e[-900:])), cc)
            return None
        return o
    text = CONSUMER.replace('@STD@', 'set(CMAKE_CXX_STANDARD %s)\nset(CMAKE_CXX_STANDARD_REQUIRED ON)' % std if std else '')
    if way == 'install':
        # configured the other way first: the configuration must follow the option
        if step('configure', ['cmake', '-S', src, '-B', build, '-G', 'Ninja', '-DCMAKE_INSTALL_PREFIX=' + prefix] + (['-DSHIVA_ENABLE_BOUNDS_CHECK=' + ('OFF' if bc else 'ON')] if k % 2 else opts)) is None:
            return
        if step('configure again', ['cmake', '-S', src, '-B', build] + opts) is None or step('build', ['cmake', '--build', build]) is None or step('install', ['cmake', '--install', build]) is None:
            return
        inst = os.path.join(prefix, 'include')
        for p, _, fs in os.walk(os.path.join(src, 'include')):
            for f in fs:
                if not f.endswith('.hpp'):
                    continue
                rel = os.path.relpath(os.path.join(p, f), os.path.join(src, 'include'))
                ctx.eval()
                ctx.count('installed headers compared')
                if not os.path.exists(os.path.join(inst, rel)):
                    ctx.violation('install/missing', '%s: %s is not installed' % (what, rel), cc)
                    return
                if open(os.path.join(inst, rel), 'rb').read() != open(os.path.join(p, f), 'rb').read():
                    ctx.violation('install/differs', '%s: the installed %s differs from the original' % (what, rel), cc)
                    return
        shutil.rmtree(build)       # an installation stands alone
        text = text.replace('@FIND@', 'find_package(Shiva 0.1 CONFIG REQUIRED)').replace('@TARGET@', 'Shiva::Shiva')
        copts = ['-DCMAKE_PREFIX_PATH=' + prefix]
        os.rename(src, src + '-away')
    else:
        text = text.replace('@FIND@', 'add_subdirectory(%s shiva-build)' % src).replace('@TARGET@', 'Shiva::shiva')
        copts = opts
    open(os.path.join(con, 'CMakeLists.txt'), 'w').write(text)
    headers = public_headers()
    r = random.Random(ctx.seed * 100 + k)
    r.shuffle(headers)
    usable = [h for h in headers if not order_matters(h)]
    open(os.path.join(con, 'main.cpp'), 'w').write('#include "shiva/ShivaConfig.hpp"\n' + DETECT + ''.join('#include "%s"\n' % h for h in usable) + PROBE)
    open(os.path.join(con, 'second.cpp'), 'w').write(''.join('#include "%s"\n' % h for h in usable[::-1]) + 'double second() { return shiva::QuadratureGaussLegendre< double, 3 >::weight( 1 ); }\n')
    if step('configure consumer', ['cmake', '-S', con, '-B', con + '/b', '-G', 'Ninja'] + copts) is None or step('build consumer', ['cmake', '--build', con + '/b']) is None:
        return
    rc, o, e = ctx.sh([con + '/b/prog'], timeout=60)
    ver = re.search(r'project\s*\(\s*Shiva\s+VERSION\s+([\d.]+)', before[os.path.join(src, 'CMakeLists.txt')].decode())
    want = 'config %s checks=%d cuda=0 hip=0 std=17' % (ver.group(1) if ver else '0.1.0', bc)
    ctx.eval()
    ctx.count('consumers run')
    ctx.distinct['consumers'] = ctx.distinct.get('consumers', 0) + 1
    first = o.splitlines()[0] if o else ''
    if first != want:
        ctx.violation('consume/config', '%s: the consumer sees "%s", expected "%s"' % (what, first, want), cc)
        return
    stopped = rc != 0 and 'unchecked' not in o
    if stopped != bc:
        ctx.violation('consume/checking', '%s: an out-of-range access %s (status %s)' % (what, 'was stopped' if stopped else 'was not stopped', rc), cc)
        return
    ref = ctx.path('consumer-values')
    mine = '\n'.join(o.splitlines()[1:3])
    with ctx.lock:
        if not hasattr(ctx, 'values27'):
            ctx.values27 = mine
    if ctx.values27 != mine:
        ctx.violation('consume/values', '%s: the consumer computes %r, another one %r' % (what, mine, ctx.values27), cc)
        return
    if way == 'install' and k == 0:
        # a version that is not offered must not be found
        open(os.path.join(con, 'CMakeLists.txt'), 'w').write(text.replace('Shiva 0.1', 'Shiva 7.0'))
        rc, o, e = ctx.sh(['cmake', '-S', con, '-B', con + '/b7', '-G', 'Ninja'] + copts, timeout=300, env=env)
        ctx.eval()
        if rc == 0:
            ctx.violation('consume/version', '%s: find_package(Shiva 7.0) succeeds' % what, cc)
    if way == 'subproject':
        after = {os.path.join(p, f): open(os.path.join(p, f), 'rb').read() for p, _, fs in os.walk(src) for f in fs}
        if after != before:
            ctx.violation('consume/source', '%s: configuring changed the source tree: %s' % (what, sorted(set(after) ^ set(before))[:3]), cc)
    shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    headers = public_headers()
    if not ctx.library_compiles():
        # decided header by header below: a header that does not compile is what this property is about
        ctx.count('library does not compile as a whole')
    alone(ctx, headers)
    if ctx.violations:
        return
    r = random.Random(ctx.seed)
    usable = [h for h in headers if not order_matters(h)]
    nu = 30 if ctx.thorough else 6
    seeds = [random.Random(r.random()) for _ in range(nu)]
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(units, ctx, usable, k, seeds[k]) for k in range(nu)]:
            f.result()
    if ctx.violations:
        return
    ways = [(True, 'install', 'g++', ''), (False, 'install', 'clang++', '14'), (True, 'subproject', 'clang++', '20'), (False, 'subproject', 'g++', '14')]
    if ctx.thorough:
        ways += [(b, w, c, s) for b in (True, False) for w in ('install', 'subproject') for c in ('g++', 'clang++') for s in ('', '14', '17', '20')]
    with ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(consume, ctx, k, *w) for k, w in enumerate(ways)]:
            f.result()
    ctx.runs.append(dict(harness='headers', variant='g++/clang++', seed=ctx.seed, programs=nu, consumers=len(ways)))
