"""C32: configures, installs and uses scratch copies of the library in the ways a consumer can, and
judges what the consumer's programs observe against the options that were asked for."""
import os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vrun
from aggregate import snapshot

FLAGS = ['SHIVA_ENABLE_BOUNDS_CHECK', 'SHIVA_ENABLE_CAMP', 'SHIVA_ENABLE_CUDA', 'SHIVA_ENABLE_HIP']
ON, OFF = ['ON', '1', 'TRUE', 'yes', 'on'], ['OFF', '0', 'FALSE', 'no', 'off']

# What a program sees. FULL: the whole library may be compiled (no device code asked for).
MAIN = r'''
#include "shiva/ShivaConfig.hpp"
#ifdef FULL
@HEADERS@
#endif
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
int other();
#define SHOW( x ) std::printf( #x "=1\n" )
int main()
{
  std::printf( "version=%d.%d.%d\n", SHIVA_VERSION_MAJOR, SHIVA_VERSION_MINOR, SHIVA_VERSION_PATCHLEVEL );
  std::printf( "cuda=%d.%d\n", SHIVA_CUDA_MAJOR, SHIVA_CUDA_MINOR );
  std::printf( "standard=%d\n", __cplusplus >= 201703L );
#ifdef SHIVA_ENABLE_BOUNDS_CHECK
  SHOW( SHIVA_ENABLE_BOUNDS_CHECK );
#endif
#ifdef SHIVA_ENABLE_CAMP
  SHOW( SHIVA_ENABLE_CAMP );
#endif
#ifdef SHIVA_ENABLE_CUDA
  SHOW( SHIVA_ENABLE_CUDA );
#endif
#ifdef SHIVA_ENABLE_HIP
  SHOW( SHIVA_ENABLE_HIP );
#endif
#ifdef FULL
  // out of range of the view, inside the buffer
  double buffer[12] = {};
  std::fflush( stdout );
  pid_t p = fork();
  if( p == 0 )
  {
    int volatile i = 5;
    close( 2 ); close( 1 );
    shiva::CArrayViewNd< double, 4 > v( buffer );
    v( i ) = 1.0;
    _exit( buffer[5] == 1.0 ? 0 : 3 );
  }
  int s = 0;
  waitpid( p, &s, 0 );
  std::printf( "outofrange=%s\n", WIFSIGNALED( s ) && WTERMSIG( s ) == SIGABRT ? "aborts" : WIFEXITED( s ) && WEXITSTATUS( s ) == 0 ? "passes" : "other" );
  using namespace shiva; using namespace shiva::functions; using std::get;
  using B = LagrangeBasis< double, 2, GaussLobattoSpacing >;
  shiva::tuple< int, double > const t = shiva::make_tuple( 7, 0.5 );
  std::printf( "values=%.17g %.17g %d %.17g %d\n", B::value< 1 >( 0.25 ), double( QuadratureGaussLegendre< double, 2 >::weight< 0 >() ), get< 0 >( t ), get< 1 >( t ), other() );
#endif
}
'''
OTHER = '''
#ifdef FULL
@HEADERS@
int other() { return shiva::CArrayNd< int, 2, 3 >::size(); }
#else
#include "shiva/ShivaConfig.hpp"
int other() { return SHIVA_VERSION_MAJOR; }
#endif
'''
# An emulation of the part of camp that the library names
CAMP = '''#pragma once
#include <tuple>
#include <utility>
namespace camp
{
template< typename ... T > struct tuple : std::tuple< T ... > { using std::tuple< T ... >::tuple; };
template< typename ... T > constexpr auto make_tuple( T && ... t ) { return tuple< std::decay_t< T > ... >( std::forward< T >( t ) ... ); }
template< int I, typename ... T > constexpr auto const & get( tuple< T ... > const & t ) { return std::get< I >( static_cast< std::tuple< T ... > const & >( t ) ); }
}
'''
LISTS = '''cmake_minimum_required(VERSION 3.23)
project(consumer LANGUAGES C CXX)
%(std)s
%(get)s
add_executable(consumer main.cpp other.cpp)
target_link_libraries(consumer PRIVATE %(target)s)
target_include_directories(consumer PRIVATE "${CAMP_DIR}")
target_compile_definitions(consumer PRIVATE %(full)s)
file(WRITE "${CMAKE_BINARY_DIR}/seen.txt" "${Shiva_VERSION}|${Shiva_INCLUDE_DIRS}")
'''


class World:
    def __init__(self, ctx, k):
        self.ctx, self.k = ctx, k
        self.r = r = random.Random(ctx.seed * 7919 + k)
        self.base = os.path.join(ctx.scratch, 'w%d' % k)
        self.src = os.path.join(self.base, r.choice(['shiva', 'shiva', 'my shiva', 'shiva+1', 'include']))
        shutil.copytree(vrun.REPO, self.src, ignore=lambda d, n: [x for x in n if x in ('.git', '_build', 'docs') or x.startswith('build')], symlinks=True)
        stray = os.path.join(self.src, 'include', 'shiva', 'ShivaConfig.hpp')
        if os.path.exists(stray):
            os.unlink(stray)
        self.camp = os.path.join(self.base, 'campstub')
        os.makedirs(os.path.join(self.camp, 'camp'))
        open(os.path.join(self.camp, 'camp', 'camp.hpp'), 'w').write(CAMP)
        self.build = os.path.join(self.base, r.choice(['build', 'build', 'the build', 'b/u/ild']))
        self.prefix = os.path.join(self.base, r.choice(['inst', 'inst', 'an inst', 'in.st/x']))
        self.incdir = r.choice([None, None, 'include/shiva-0', 'inc', os.path.join(self.base, 'abs inc' if r.random() < .3 else 'absinc')])
        self.libdir = r.choice([None, None, 'lib64', 'lib/x86_64-linux-gnu'])
        self.state = {f: False for f in FLAGS}     # the cache of the build directory
        self.state.update(ENABLE_CUDA=False, ENABLE_HIP=False)
        self.cudaversion = None
        self.history = []
        self.steps = 0
        self.headers = public(os.path.join(self.src, 'include'))
        self.before = snapshot(self.src)
        self.what = ''

    def bad(self, key, detail):
        self.ctx.violation('package/' + key, 'package: seed %d number %d, %s: %s' % (self.ctx.seed, self.k, ' -> '.join(self.history), detail), 'python')
        return False

    def cmake(self, args, env=None, cwd=None):
        for attempt in (120, 300):
            rc, o, e = self.ctx.sh(['cmake'] + args, timeout=attempt, cwd=cwd or self.base, env=dict(env or {}, HOME=self.base, CMAKE_PREFIX_PATH=''))
            if rc != 'timeout':
                break
        return rc, o, e

    # ---- what was asked for ----------------------------------------------------
    def ask(self, state):
        """Random options: cmake arguments and the state they lead to."""
        r, d = self.r, {}
        x = r.random()
        if x < .75:
            d['SHIVA_ENABLE_BOUNDS_CHECK'] = r.random() < .5
        if r.random() < .25:
            d['SHIVA_ENABLE_CAMP'] = r.random() < .6
        y = r.random()
        if y < .12:
            d[r.choice(['SHIVA_ENABLE_CUDA', 'ENABLE_CUDA'])] = True
        elif y < .16:
            d[r.choice(['SHIVA_ENABLE_HIP', 'ENABLE_HIP'])] = True
        elif y < .6:
            d.update({f: False for f in ('SHIVA_ENABLE_CUDA', 'SHIVA_ENABLE_HIP', 'ENABLE_CUDA', 'ENABLE_HIP') if state[f]})
        new = dict(state, **d)
        return d, new

    def expect(self, state):
        want = {f: state[f] for f in FLAGS}
        want['SHIVA_ENABLE_CUDA'] |= state['ENABLE_CUDA']
        want['SHIVA_ENABLE_HIP'] |= state['ENABLE_HIP']
        return want

    def device(self, state):
        w = self.expect(state)
        return w['SHIVA_ENABLE_CUDA'] or w['SHIVA_ENABLE_HIP']

    # ---- judging a program -----------------------------------------------------
    def judge(self, route, text, state, values, cuda=None):
        got = dict(l.split('=', 1) for l in text.splitlines() if '=' in l)
        want = self.expect(state)
        self.ctx.eval(len(FLAGS) + 3)
        self.ctx.count('programs of consumers run')
        for f in FLAGS:
            if (f in got) != want[f]:
                return self.bad('options', 'a program built %s sees %s %s, it was asked to be %s' % (route, f, 'defined' if f in got else 'undefined', 'on' if want[f] else 'off'))
        if got.get('version') != self.version:
            return self.bad('version', 'a program built %s sees version %s, the package is version %s' % (route, got.get('version'), self.version))
        if cuda is not None and got.get('cuda') != cuda:
            return self.bad('cuda version', 'a program built %s sees CUDA %s, the compiler is %s' % (route, got.get('cuda'), cuda))
        if got.get('standard') != '1':
            return self.bad('standard', 'a program built %s is not compiled as C++17 or later' % route)
        if 'values' in got or not self.device(state):
            if got.get('outofrange') != ('aborts' if want['SHIVA_ENABLE_BOUNDS_CHECK'] else 'passes'):
                return self.bad('checking', 'an out-of-range access in a program built %s: %s, with SHIVA_ENABLE_BOUNDS_CHECK %s' % (route, got.get('outofrange'), want['SHIVA_ENABLE_BOUNDS_CHECK']))
            # value of the basis at 0.25: 1 - x^2
            if got.get('values') != '0.9375 1 7 0.5 6':
                return self.bad('values', 'a program built %s prints %s' % (route, got.get('values')))
        with self.ctx.lock:
            self.ctx.kinds.add((route.split(' (')[0],) + tuple(sorted(f for f in FLAGS if want[f])))
        return True

    def program(self, d, state):
        os.makedirs(d, exist_ok=True)
        inc = ['#include "%s"' % h for h in self.headers]
        self.r.shuffle(inc)
        for n, t in (('main.cpp', MAIN), ('other.cpp', OTHER)):
            open(os.path.join(d, n), 'w').write(t.replace('@HEADERS@', '\n'.join(inc)))

    def consumer(self, route, get, target, state, extra=(), cuda=None):
        """Builds and runs a project that uses the library by the lines `get`."""
        r, d = self.r, os.path.join(self.base, 'consumer%d' % self.steps)
        self.steps += 1
        self.program(d, state)
        std = r.choice(['', '', 'set(CMAKE_CXX_STANDARD 14)', 'set(CMAKE_CXX_STANDARD 20)', 'set(CMAKE_CXX_EXTENSIONS OFF)'])
        open(os.path.join(d, 'CMakeLists.txt'), 'w').write(LISTS % dict(std=std, get=get, target=target, full='NOTFULL' if self.device(state) else 'FULL'))
        env = r.choice([dict(CC='gcc', CXX='g++'), dict(CC='gcc', CXX='g++'), dict(CC='clang', CXX='clang++')])
        b = os.path.join(d, 'b')
        route = '%s (as %s%s)' % (route, target, ', ' + std if std else '')
        rc, o, e = self.cmake(['-S', d, '-B', b, '-G', r.choice(['Ninja', 'Unix Makefiles']), '-DCMAKE_BUILD_TYPE=' + r.choice(['', 'Debug', 'Release', 'RelWithDebInfo']), '-DCAMP_DIR=' + self.camp] + list(extra), env)
        if rc != 0:
            return self.bad('consumer', 'a project that uses the library %s cannot be configured: %s' % (route, ' '.join(e.split())[:400]))
        rc, o, e = self.cmake(['--build', b])
        if rc != 0:
            return self.bad('consumer', 'a project that uses the library %s cannot be built: %s' % (route, ' | '.join(l for l in (o + e).splitlines() if 'error' in l)[:600]))
        rc, o, e = self.ctx.sh([os.path.join(b, 'consumer')], timeout=60)
        if rc != 0:
            return self.bad('consumer', 'the program built %s ends with %s' % (route, rc))
        if not self.judge(route, o, state, True, cuda):
            return False
        self.seen = open(os.path.join(b, 'seen.txt')).read().split('|')
        return True

    def raw(self, route, dirs, state, cuda=None):
        """The same program by the compiler alone."""
        d = os.path.join(self.base, 'raw%d' % self.steps)
        self.steps += 1
        self.program(d, state)
        exe = os.path.join(d, 'exe')
        rc, o, e = self.ctx.sh([self.r.choice(['g++', 'g++', 'clang++']), '-std=c++17', '-w', '-I' + self.camp] + self.r.choice([[], ['-DNDEBUG'], ['-O2', '-DNDEBUG']]) + ['-I' + x for x in dirs] + ['-DNOTFULL' if self.device(state) else '-DFULL', os.path.join(d, 'main.cpp'), os.path.join(d, 'other.cpp'), '-o', exe], timeout=300)
        if rc != 0:
            return self.bad('headers', 'a program does not compile with %s: %s' % (route, ' | '.join(l for l in e.splitlines() if 'error' in l)[:600]))
        rc, o, e = self.ctx.sh([exe], timeout=60)
        return self.judge(route, o, state, True, cuda) if rc == 0 else self.bad('headers', 'a program compiled with %s ends with %s' % (route, rc))

    # ---- the steps of a history ------------------------------------------------
    def configure(self):
        r = self.r
        d, new = self.ask(self.state)
        fresh = not self.history
        args = ['-S', self.src, '-B', self.build] + ['-D%s=%s' % (f, r.choice(ON if v else OFF)) for f, v in d.items()]
        cuda = '0.0'
        if r.random() < (.9 if d.get('SHIVA_ENABLE_CUDA') or d.get('ENABLE_CUDA') else .2):
            self.cudaversion = r.choice(['12.4.131', '11.8', '12.0.76', '13.10.2'])
            args.append('-DCMAKE_CUDA_COMPILER_VERSION=' + self.cudaversion)
        if fresh:
            args += ['-G', r.choice(['Ninja', 'Unix Makefiles']), '-DCMAKE_INSTALL_PREFIX=' + self.prefix]
            args += ['-DCMAKE_INSTALL_INCLUDEDIR=' + self.incdir] if self.incdir else []
            args += ['-DCMAKE_INSTALL_LIBDIR=' + self.libdir] if self.libdir else []
        self.history.append('configure ' + (' '.join('%s=%s' % (f, 'ON' if v else 'OFF') for f, v in d.items()) or 'without options'))
        rc, o, e = self.cmake(args)
        w = self.expect(new)
        both = w['SHIVA_ENABLE_CUDA'] and w['SHIVA_ENABLE_HIP']
        self.ctx.count('configurations')
        if both:
            self.ctx.count('contradictory configurations')
            if rc == 0:
                self.bad('contradiction', 'a configuration with both CUDA and HIP succeeds')
                return None
            # start again in a fresh directory
            shutil.rmtree(self.build, ignore_errors=True)
            self.history = []
            self.state = {f: False for f in self.state}
            self.cudaversion = None
            return self.configure()
        if rc != 0:
            self.bad('configure', 'configuring fails: %s' % ' '.join(e.split())[:400])
            return None
        self.state = new
        if w['SHIVA_ENABLE_CUDA'] and self.cudaversion:
            cuda = '.'.join(self.cudaversion.split('.')[:2])
        self.cuda = cuda
        m = re.search(r'^CMAKE_PROJECT_VERSION:STATIC=(.*)$', open(os.path.join(self.build, 'CMakeCache.txt')).read(), re.M)
        self.version = m.group(1)
        return True

    def install(self):
        r = self.r
        rc, o, e = self.cmake(['--build', self.build])
        if rc != 0:
            return self.bad('build', 'building the library fails: %s' % (o + e)[-400:])
        staged = r.random() < .2
        stage = os.path.join(self.base, 'stage')
        rc, o, e = self.cmake(['--install', self.build], env=dict(DESTDIR=stage) if staged else None)
        self.history.append('install' + (' staged' if staged else ''))
        if rc != 0:
            return self.bad('install', 'installing fails: %s' % e[-400:])
        self.ctx.count('installations')
        move = lambda p: stage + p if staged else p
        inc = os.path.join(self.prefix, self.incdir or 'include')
        prefix, inc = move(self.prefix), move(inc)
        # every header of the tree, as it is
        self.ctx.eval(len(self.headers))
        for h in self.headers:
            a, b = os.path.join(self.src, 'include', h), os.path.join(inc, h)
            if not os.path.isfile(b) or open(a, 'rb').read() != open(b, 'rb').read():
                return self.bad('installed headers', '%s is %s' % (b, 'not what the tree holds' if os.path.exists(b) else 'not installed'))
        if not self.raw('the headers installed in ' + inc, [inc], self.state, self.cuda):
            return False
        if staged and os.path.isabs(self.incdir or ''):
            shutil.rmtree(stage)
            return True
        where = prefix
        if not os.path.isabs(self.incdir or '') and r.random() < .5:
            # the installed package may be moved
            where = os.path.join(self.base, r.choice(['moved', 'moved to']) + str(self.steps))
            shutil.move(prefix, where)
            self.ctx.count('installations moved')
            self.history.append('moved')
        try:
            ver = r.choice(['', '.'.join(self.version.split('.')[:2]), self.version])
            get = 'find_package(Shiva %s REQUIRED%s)' % (ver, r.choice(['', ' CONFIG']))
            if r.random() < .2:
                get += '\n' + get
            # cmake searches a prefix for lib, other library directories depend on the platform
            how = r.choice((['-DCMAKE_PREFIX_PATH=' + where, '-DShiva_ROOT=' + where] if not self.libdir else []) + ['-DShiva_DIR=' + os.path.join(where, self.libdir or 'lib', 'cmake', 'Shiva')])
            if not self.consumer('with find_package', get, r.choice(['Shiva::Shiva', 'Shiva::shiva']), self.state, [how], self.cuda):
                return False
            if self.seen[0] != self.version:
                return self.bad('version', 'find_package reports version %r, the package is version %s' % (self.seen[0], self.version))
            dirs = [x for x in self.seen[1].split(';') if x]
            if not dirs or not self.raw('the directories in Shiva_INCLUDE_DIRS (%s)' % self.seen[1], dirs, self.state, self.cuda):
                return False if dirs else self.bad('variables', 'Shiva_INCLUDE_DIRS is empty')
            # a version that is not this one
            if r.random() < .3:
                d = os.path.join(self.base, 'wrong%d' % self.steps)
                self.program(d, self.state)
                major = int(self.version.split('.')[0])
                wrong = r.choice(['%d.0' % (major + 1), '%d.99' % major])
                open(os.path.join(d, 'CMakeLists.txt'), 'w').write('cmake_minimum_required(VERSION 3.23)\nproject(x CXX)\nfind_package(Shiva %s REQUIRED CONFIG)\n' % wrong)
                rc, o, e = self.cmake(['-S', d, '-B', d + '/b', how])
                self.ctx.eval()
                self.ctx.count('requests for another version')
                if rc == 0:
                    return self.bad('version', 'find_package accepts version %s for a request for %s' % (self.version, wrong))
        finally:
            if where != prefix:
                shutil.move(where, prefix)
            if staged:
                shutil.rmtree(stage, ignore_errors=True)
        return True

    def subproject(self):
        """The library inside the consumer's own build, with options of its own."""
        r = self.r
        d, new = self.ask({f: False for f in self.state})
        if self.device(new) and all(self.expect(new)[f] for f in ('SHIVA_ENABLE_CUDA', 'SHIVA_ENABLE_HIP')):
            return True
        sets, args = [], []
        for f, v in d.items():
            x = r.choice(ON if v else OFF)
            if r.random() < .5:
                sets.append('set(%s %s%s)' % (f, x, r.choice(['', ' CACHE BOOL ""'])))
            else:
                args.append('-D%s=%s' % (f, x))
        self.history.append('subproject ' + ' '.join('%s=%s' % (f, 'ON' if v else 'OFF') for f, v in d.items()))
        sub = 'add_subdirectory("%s" "%s")' % (self.src, r.choice(['shiva', 'a/b', 'the lib']))
        if r.random() < .3:
            sub = 'include(FetchContent)\nFetchContent_Declare(shiva SOURCE_DIR "%s")\nFetchContent_MakeAvailable(shiva)' % self.src
        ok = self.consumer('as a subproject', '\n'.join(sets + [sub]), r.choice(['Shiva', 'Shiva::shiva', 'Shiva::Shiva']), new, args, '0.0')
        self.history.pop()
        return ok

    def tree(self):
        return self.raw('the headers of the tree and of the build directory', [os.path.join(self.src, 'include'), os.path.join(self.build, 'include')], self.state, self.cuda)


def public(inc):
    res = []
    for d, ds, fs in os.walk(inc):
        res += [os.path.relpath(os.path.join(d, f), inc) for f in fs if f.endswith('.hpp') and f != 'namespaceDocumentation.hpp']
    return sorted(res)


def scenario(ctx, k):
    w = World(ctx, k)
    r = w.r
    ok = True
    for n in range(r.choice([1, 2, 3])):
        ok = ok and w.configure()
        if ok and r.random() < .8:
            ok = w.install()
        if ok and r.random() < .4:
            ok = w.tree()
        if ok and r.random() < .4:
            ok = w.subproject()
    if ok:
        after = snapshot(w.src)
        changed = sorted(p for p in set(w.before) | set(after) if w.before.get(p) != after.get(p))
        ctx.eval()
        if changed:
            w.bad('source tree', '%s in the source tree was changed' % changed[0])
    if not ctx.violations:
        shutil.rmtree(w.base, ignore_errors=True)


def run(ctx):
    ctx.kinds = set()
    n = 160 if ctx.thorough else 24
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        list(ex.map(lambda k: ctx.violations[3:] or scenario(ctx, k), range(n)))
    ctx.distinct['ways of use and options'] = len(ctx.kinds)
    ctx.runs.append(dict(harness='package.py', variant='python', wall_s=0, evaluations=ctx.evaluations, distinct=len(ctx.kinds), status=0))
