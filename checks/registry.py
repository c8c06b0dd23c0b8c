"""The checks: property id -> how it is run. See DESIGN.md."""
import re
import time

import vrun
CHECKS = {}


NOT_APPLICABLE = {
    'N01': 'Runtime monitoring needs executions, and there is no GPU, vendor compiler or vendor runtime here. What can be observed of device builds without them, on an emulated device, is decided by C29.',
}
ORACLE = 'online monitors with an independent reference oracle over seeded hostile workloads, under ASan+UBSan and optimized builds'


def check(pid, rule, assumptions=(), technique=ORACLE, note='Held on the executions observed (counted in the evidence); says nothing about inputs the workload does not reach.'):
    def deco(f):
        CHECKS[pid] = dict(run=f, rule=rule, assumptions=list(assumptions), technique=technique, note=note)
        return f
    return deco


def variants(ctx, quick, extra=()):
    return list(quick) + (list(extra) if ctx.thorough else [])


MATH = ['reference values are computed in 113-bit arithmetic by /verif/harness/ref.hpp, independently of the library',
        'rounding tolerance: a modest multiple of the unit roundoff times the magnitude of the terms involved']


@check('C01', 'one evaluation is one access (or write) through one access form, index type, array kind, shape and element; non-trivial if the array has more than one element')
def c01(ctx):
    ctx.harness('c01', ['c01.cpp'], variants(ctx, ['gcc-asan0', 'clang-O2'], ['clang20-O1', 'gcc-O3', 'clang-asan-nobc']), parts=8)


@check('C06', 'one evaluation is one node of one node set through one access form and floating-point type; the supported sets are enumerated completely', MATH)
def c06(ctx):
    ctx.harness('c06', ['c06.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']), parts=3)


@check('C07', 'one evaluation is one integral of one polynomial by one rule (or one weight); non-trivial if the polynomial is not constant; distinct by rule, access form and polynomial', MATH)
def c07(ctx):
    ctx.harness('c07', ['c07.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']), parts=3)


@check('C08', 'one evaluation is one basis function of one basis at one coordinate; non-trivial if the reference value is neither 0 nor 1', MATH)
def c08(ctx):
    ctx.harness('c08', ['c0809.cpp'], variants(ctx, ['gcc-asan', 'clang-O2', 'gcc20-O2'], ['gcc-O3', 'clang20-O1', 'clang-asan-nobc']), parts=6, defs=['-DGRAD=0'])


@check('C09', 'one evaluation is one basis function gradient of one basis at one coordinate; non-trivial if the reference value is neither 0 nor 1', MATH)
def c09(ctx):
    ctx.harness('c09', ['c0809.cpp'], variants(ctx, ['gcc-asan', 'clang-O2', 'gcc20-O2'], ['gcc-O3', 'clang20-O1', 'clang-asan-nobc']), parts=6, defs=['-DGRAD=1'])


PROBE = '''#include "shiva/common/CArray.hpp"
int main()
{
  double buf[12] = {};
  shiva::CArrayNd< double, 3, 4 > a; shiva::CArrayNd< double, 3, 4 > const & c = a; shiva::CArrayViewNd< double, 3, 4 > v( buf );
  shiva::CArrayNd< int, 5 > r1; shiva::CArrayNd< int, 2, 3, 4 > r3;
  (void)c; (void)r1; (void)r3; (void)v;
  %s
}
'''
CT_GOOD = ['a.operator()< 2, 3 >() = 1.0; v.operator()< 0, 0 >() = c.operator()< 2, 3 >(); r1.operator()< 4 >() = r3.operator()< 1, 2, 3 >();']
CT_BAD = ['a.operator()< 3, 0 >() = 1.0;', 'a.operator()< 0, 4 >() = 1.0;', 'a.operator()< -1, 0 >() = 1.0;', 'a.operator()< 0, -1 >() = 1.0;', 'return int( c.operator()< 0, 7 >() );',
          'v.operator()< 2, 4 >() = 1.0;', 'r1.operator()< 5 >() = 1;', 'r1.operator()< -1 >() = 1;', 'r3.operator()< 0, 3, 0 >() = 1;', 'r3.operator()< 0, 0, 4 >() = 1;', 'r3.operator()< 2, 0, 0 >() = 1;', 'return r3.operator()< 1, 2, 2147483647 >();']


def compile_probe(ctx, name, text, std='c++17', cc='g++', bc=True):
    f = ctx.path(name + '.cpp')
    open(f, 'w').write(text)
    rc, o, e = ctx.sh([cc, '-std=' + std, '-w', '-fsyntax-only', '-I' + vrun.REPO + '/include', '-I' + ctx.config_dir(bc), f], timeout=300)
    return rc == 0, e


@check('C02', 'one evaluation is one run-time access; non-trivial if at least one index is out of range; distinct by array kind, shape, access form, index type and index tuple',
       ['memory outside a 256-byte zone around the storage is observed by the sanitizer only'],
       technique='runtime monitor: intercepted aborts, captured error stream and poisoned storage around every out-of-range access (ASan+UBSan and optimized builds)')
def c02(ctx):
    ctx.harness('c02', ['c02.cpp'], variants(ctx, ['gcc-asan', 'clang-O2-bc'], ['clang-asan', 'gcc-O2-bc', 'gcc-O0']), parts=6)
    for cc in ('g++', 'clang++'):
        for bc in (True, False):
            for k, t in enumerate(CT_GOOD):
                ok, e = compile_probe(ctx, 'good%d' % k, PROBE % t, cc=cc, bc=bc)
                if not ok:
                    ctx.build_failed(cc, 'in-range compile-time indices', e)
            for k, t in enumerate(CT_BAD):
                ok, e = compile_probe(ctx, 'bad%d' % k, PROBE % t, cc=cc, bc=bc)
                ctx.eval()
                ctx.count('compile-time out-of-range indices rejected', 0 if ok else 1)
                if ok:
                    ctx.violation('compile-time/' + t, 'an out-of-range compile-time index compiles (%s): %s' % (cc, t), cc)


@check('C03', 'one evaluation is the linear index of one multi-index of one range type; non-trivial if the index is not the first of its box',
       ['boxes of more than 20000 indices are sampled'], technique='runtime monitor with a mixed-radix oracle and a visited-set over complete index boxes (UBSan and optimized builds)')
def c03(ctx):
    ctx.harness('c0304', ['c0304.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan']), parts=4, defs=['-DPROP=3'])


@check('C04', 'one evaluation is one complete range iteration whose call trace was checked; non-trivial if more than one call is due; distinct by range type and start index',
       technique='online trace checker over the calls of every iteration (exactly-once, order, termination), several callable kinds')
def c04(ctx):
    ctx.harness('c0304', ['c0304.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan']), parts=4, defs=['-DPROP=4'])


def gen_c05(ctx):
    """Loop ends that depend on the seed."""
    import random
    r = random.Random(ctx.seed)
    shapes = []
    while len(shapes) < (40 if ctx.thorough else 6):
        e = [r.randint(0, 6) if r.random() < .15 else r.randint(1, 6) for _ in range(r.randint(1, 5))]
        n = 1
        for x in e:
            n *= max(x, 1)
        if n <= 130:
            shapes.append(e)
    f = ctx.path('c05_gen.hpp')
    with open(f, 'w') as o:
        o.write('#define GEN_LOOP %d\n' % r.randint(5, 50))
        o.write('[[maybe_unused]] static void generated() { %s }\n' % ' '.join('listNested( Ends< %s >{} );' % ', '.join(map(str, e)) for e in shapes))
    return ['-DGEN="%s"' % f]


@check('C05', 'one evaluation is one loop or expansion whose call trace was checked; non-trivial if more than one call (or index) is due; distinct by calling style and loop ends',
       ['loop ends are compile-time constants: a fixed set plus a set generated from the seed'],
       technique='online trace checker over the calls of every static loop and expansion, all calling styles, C++17 and C++20 builds')
def c05(ctx):
    ctx.harness('c05', ['c05.cpp'], variants(ctx, ['gcc-asan', 'clang20-O1'], ['gcc20-O2', 'clang-asan', 'clang-O2', 'gcc-O3']), parts=4, defs=gen_c05(ctx))


@check('C10', 'one evaluation is one value (or gradient component) of one shape function through one class at one point; non-trivial if the reference is neither 0 nor 1', MATH + ['elements of 1 to 4 dimensions with up to 32 support points; the nodes of the 1-D bases are those the library reports (held to the true ones by C06 and C08)'])
def c10(ctx):
    ctx.harness('c1011', ['c1011.cpp'], variants(ctx, ['gcc-asan', 'clang20-O1'], ['gcc20-O2', 'clang-O2', 'gcc-O3', 'clang-asan-nobc']), parts=9, defs=['-DPROP=10'])


@check('C11', 'one evaluation is one field value (or gradient component) of one data set at one point through one kind of nodal data; non-trivial if the reference is not 0', MATH + ['elements of 1 to 4 dimensions with up to 32 support points'])
def c11(ctx):
    ctx.harness('c1011', ['c1011.cpp'], variants(ctx, ['gcc-asan', 'clang20-O1'], ['gcc20-O2', 'clang-O2', 'gcc-O3', 'clang-asan-nobc']), parts=9, defs=['-DPROP=11'])


MAPV = (['gcc-asan', 'clang20-O1'], ['gcc20-O2', 'clang-O2', 'gcc-O3', 'clang-asan-nobc'])
CELLS = ['cells: reference, boxes, affine, perturbed, mirrored, far from the origin, anisotropic, random and huge; elements with 2 to 24 nodes in float, double and long double']


@check('C12', 'one evaluation is one operation of a history over several live cells, after which every node of every cell was read back', CELLS,
       technique='runtime monitor: shadow copies of every live cell compared bitwise after every operation of random histories (ASan+UBSan and optimized builds)')
def c12(ctx):
    ctx.harness('c1215', ['c1215.cpp'], variants(ctx, *MAPV), parts=5, defs=['-DPROP=12'])


@check('C13', 'one evaluation is one Jacobian entry of one cell at one point through one calling form; non-trivial if the reference is not 0', MATH + CELLS)
def c13(ctx):
    ctx.harness('c1215', ['c1215.cpp'], variants(ctx, *MAPV), parts=5, defs=['-DPROP=13'])


@check('C14', 'one evaluation is one Jacobian entry of one cell at one quadrature point; non-trivial if the reference is not 0; of the points of the larger rules a choice that depends on the seed is compiled', MATH + CELLS)
def c14(ctx):
    ctx.harness('c1215', ['c1215.cpp'], variants(ctx, *MAPV), parts=8, defs=['-DPROP=14', '-DGSEED=%d' % (ctx.seed % 1000)] + (['-DVH_DEEP'] if ctx.thorough else []))


@check('C15', 'one evaluation is one determinant and inverse of one cell at one point through one calling form, or one cell volume; non-trivial if the reference determinant is not 1',
       MATH + CELLS + ['points whose determinant is within 200 times its rounding bound of zero count as degenerate: determinant checked, inverse not'])
def c15(ctx):
    ctx.harness('c1215', ['c1215.cpp'], variants(ctx, *MAPV), parts=5, defs=['-DPROP=15'])


@check('C16', 'one evaluation is one inversion of one matrix through one form, or one double inversion; non-trivial if the matrix is not diagonal', MATH + ['matrices with a determinant within 1000 times its rounding bound of zero are skipped; entries whose cofactors and determinant are representable'])
def c16(ctx):
    ctx.harness('c16', ['c16.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']))


@check('C17', 'one evaluation is one reported quantity of one box through one form; non-trivial if the reference is not 1', MATH + ['positive lengths whose products are representable'])
def c17(ctx):
    ctx.harness('c17', ['c17.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']))


def gen_c18(ctx):
    import random
    r = random.Random(ctx.seed)
    f = ctx.path('c18_gen.hpp')
    lines = []
    for k in range(60 if ctx.thorough else 10):
        big = r.choice([5, 100, 10**6, 2**31 - 1])
        lo = r.randint(-big, big - 1)
        lines.append('dims< R, %d, %d, %d >();' % (max(lo, -2**31 + 1), r.randint(lo + 1, big), r.choice([1, 2, 3, 10, r.randint(1, big)])))
    with open(f, 'w') as o:
        o.write('template< typename R, int MIN, int MAX, int DIV > static void dims();\ntemplate< typename R > static void generated() { %s }\n' % ' '.join(lines))
    return ['-DGEN="%s"' % f]


@check('C18', 'one evaluation is one count or measure of one shape; non-trivial if the reference is not 0 or 1', ['dimensions whose factorials are representable (cubes to 12, simplexes to 11)', 'counts are compared with an enumeration of the faces of the mathematical shape'])
def c18(ctx):
    ctx.harness('c18', ['c18.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']), defs=gen_c18(ctx))


@check('C19', 'one evaluation is one assertion or one report whose output, control flow and side effects were observed', ['host path; the descriptor behind the error stream is captured, its buffering mode is the default'],
       technique='runtime monitor: captured descriptors, intercepted aborts, counted side effects and child process status for every assertion and report (ASan+UBSan and optimized builds)')
def c19(ctx):
    ctx.harness('c19', ['c19.cpp'], variants(ctx, ['gcc-asan', 'clang-O2', 'gcc20-O2'], ['gcc-O3', 'clang-asan', 'gcc-O0']))


@check('C24', 'one evaluation is one power of one base, one factorial or one binomial; non-trivial if neither argument nor result is 0 or 1', ['non-negative exponents; integer results representable in the type; the combinatorial arguments are enumerated for each type'])
def c24(ctx):
    ctx.harness('c24', ['c24.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']))


@check('C28', 'one evaluation is one kernel execution, release or comparison whose effects were observed', ['host path', 'comparisons whose difference is not exact and within 4 roundings of the tolerance are skipped'],
       technique='runtime monitor: call counters, guard zones and shadow data around every kernel, leak detection, reference comparison (ASan+UBSan and optimized builds)')
def c28(ctx):
    ctx.harness('c28', ['c28.cpp'], variants(ctx, ['gcc-asan', 'clang-O2'], ['gcc20-O2', 'gcc-O3', 'clang-asan-nobc']))


@check('C20', 'one evaluation is one result of one operation computed in a constant expression and again at run time; non-trivial if it is neither 0 nor 1', ['the operations of harness/workload.cpp cover every facility declared constexpr; inputs depend on the seed', 'rounding tolerance 512 units of the type; integers exact'],
       technique='differential runtime monitor: results compiled into the binary as constants against the same calls executed on laundered inputs')
def c20(ctx):
    d = ['-DWL_CONSTEXPR', '-DGSEED=%d' % ctx.seed] + (['-DCE_COUNT=12'] if ctx.thorough else [])
    ctx.harness('c20', ['workload.cpp'], variants(ctx, ['gcc-O2-bc', 'clang-O2', 'gcc20-O2'], ['gcc-asan', 'clang20-O1', 'gcc-O3', 'clang-O2-bc']), parts=5, defs=d, single=['c20.cpp'])


WORKLOAD = [('workload.cpp', 5), ('shared.cpp', 9)]


@check('C21', 'one evaluation is one run of one operation of the workload on one input under one sanitizer; distinct by operation and input bytes',
       ['every input lies in a heap block of its exact size, so red zones surround it', 'x87 long double and SSE arithmetic as the compilers emit it'],
       technique='compiler sanitizers (ASan, UBSan with bounds and float-cast checks, LSan, MSan; valgrind in the thorough tier) over a workload that covers every facility, at several optimization levels, bounds checking on and off')
def c21(ctx):
    ctx.harness('c21', WORKLOAD + [('c21exact.cpp', 4)], variants(ctx, ['gcc-san0', 'clang-san2', 'clang-msan', 'gcc-san3'], ['clang-msan0', 'clang-asan', 'gcc-asan', 'gcc-san20']), parts=5, mainfile='c21.cpp', group='workload')
    if ctx.thorough:
        ctx.harness('c21vg', WORKLOAD + [('c21exact.cpp', 4)], ['gcc-O2-g'], parts=5, mainfile='c21.cpp', scale=1, group='workload', wrap=['valgrind', '--error-exitcode=77', '--quiet', '--leak-check=full', '--log-file={log}.vg'])


@check('C22', 'one evaluation is one execution of one operation among concurrent threads, compared bitwise with a sequential run; distinct by operation, input and the global order of begin and end events it was part of',
       ['host threads (std::thread) on x86-64', 'the race detector sees the memory accesses of the executed paths; event tickets are relaxed atomics, which order nothing'],
       technique='ThreadSanitizer builds and optimized stress builds of a concurrent workload over shared read-only inputs, cold start included; offline comparison of every result with a sequential run')
def c22(ctx):
    ctx.harness('c22', WORKLOAD, variants(ctx, ['gcc-tsan', 'clang-tsan', 'clang-O2-bc'], ['gcc-O3', 'gcc-O0']), parts=5, single=['c22.cpp'], seeds=[ctx.seed * 10 + k for k in range(6 if ctx.thorough else 2)], scale=5 if ctx.thorough else 1)


@check('C23', 'one evaluation is one operation at one position of one history, compared bitwise with its value in a process that did nothing else; distinct by history and position',
       ['bitwise comparison within one binary', 'hidden state is seen through results, through writes to inputs (read-only pages and snapshots), the rounding mode and standard output'],
       technique='history monitor: every result of long random histories compared bitwise with the value obtained in a pristine process; inputs in read-only pages, reused addresses, soiled outputs')
def c23(ctx):
    ctx.harness('c23', WORKLOAD, variants(ctx, ['gcc-O0', 'clang-O2', 'gcc20-O2'], ['gcc-O3', 'clang-O2-bc', 'gcc-asan']), parts=5, single=['c23.cpp'])


# Code generation options that keep the meaning of a program, and change which macros are predefined
CODEGEN = {
    '': [],
    'other': ['-fPIC', '-fopenmp', '-funsigned-char', '-fwrapv', '-D_GLIBCXX_ASSERTIONS', '-fno-math-errno'],
    'lean': ['-fno-exceptions', '-fno-rtti', '-fno-stack-protector', '-fno-inline'],
}
if all(re.search(r'^flags\b.*\b%s\b' % f, open('/proc/cpuinfo').read(), re.M) for f in ('avx2', 'fma', 'bmi2')):
    CODEGEN['v3'] = ['-march=x86-64-v3']


def configurations(ctx):
    """(compiler, standard, optimization, bounds check, code generation): all of them, or a choice in which every pair of settings that matters occurs."""
    import random
    g, c = [k for k in CODEGEN if k], ['lean'] + ['v3'] * ('v3' in CODEGEN)
    extra = [('g++', 'c++17', '-O2', False, 'v3'), ('clang++', 'c++17', '-O1', True, 'v3'), ('g++', 'c++20', '-O2', True, 'other'), ('g++', 'c++17', '-O1', False, 'lean'), ('clang++', 'c++20', '-O2', False, 'lean')]
    extra = [x for x in extra if x[4] in CODEGEN]
    std = {'g++': ['c++17', 'c++20', 'c++23', 'gnu++17'], 'clang++': ['c++17', 'c++20', 'c++23', 'c++26']}
    full = [(cc, s, o, bc) for cc in std for s in std[cc] for o in ('-O0', '-Og', '-O1', '-O2', '-O3', '-Os') for bc in (False, True)]
    full = [x + ('',) for x in full]
    if ctx.thorough:
        return full + [('g++', t, o, bc, k) for t in ('c++17', 'c++20') for o in ('-O1', '-O3') for bc in (False, True) for k in g] + [('clang++', t, o, bc, k) for t in ('c++17', 'c++20') for o in ('-O1', '-O3') for bc in (False, True) for k in c]
    fixed = [('g++', 'c++17', '-O2', True), ('g++', 'c++17', '-O3', False), ('g++', 'c++20', '-O1', True), ('g++', 'c++23', '-O2', False), ('clang++', 'c++17', '-O0', True),
             ('clang++', 'c++17', '-O2', False), ('clang++', 'c++20', '-O1', False), ('clang++', 'c++23', '-O2', True), ('g++', 'c++20', '-O0', False), ('clang++', 'c++26', '-O3', False)]
    fixed = [x + ('',) for x in fixed]
    return fixed + extra + random.Random(ctx.seed).sample([c for c in full if c not in fixed and c != ('g++', 'c++17', '-O0', False, '')], 2)


@check('C25', 'one evaluation is one record of results of one operation in one configuration compared with the reference configuration (g++ -std=c++17 -O0, unchecked); distinct by operation, input and configuration',
       ['rounding tolerance: 512 units of the type times the largest magnitude among the results of the operation; integers and counts exact', 'g++ 13 and clang++ 18 on x86-64; no value-changing options such as -ffast-math',
        'clang 18 cannot compile one recursion of static loops used only by the harness of C03/C04 ("cannot compile this scalar expression yet", a compiler limit)'],
       technique='differential monitor: result logs of one workload recorded in a matrix of compilers, standards, optimization levels and checking, compared by an offline checker')
def c25(ctx):
    scale = 3 if ctx.thorough else 1
    inputs = ctx.path('inputs.bin')
    configs = configurations(ctx)
    if ctx.only_variant and ctx.only_variant in [cfg_name(c) for c in configs]:
        configs = [c for c in configs if cfg_name(c) == ctx.only_variant]
    ref = ('g++', 'c++17', '-O0', False, '')
    ctx.only_variant = None
    names, reflog, logs = None, None, []
    cmp_exe = ctx.path('c25cmp')
    rc, o, e = ctx.sh(['g++', '-std=c++17', '-O2', '-w', '-I' + vrun.REPO + '/include', '-I' + ctx.config_dir(False), '-I' + vrun.HARNESS, vrun.HARNESS + '/c25cmp.cpp', '-o', cmp_exe], timeout=300)
    if rc != 0:
        ctx.build_failed(cfg_name(ref), 'offline checker', e)
        return
    done = {}

    def one_batch(batch):
        vs = []
        for c in batch:
            n = cfg_name(c)
            # release builds define NDEBUG
            vrun.VARIANTS[n] = (c[0], ['-std=' + c[1], c[2]] + (['-DNDEBUG'] if c[2] in ('-O2', '-O3', '-Os') else []) + CODEGEN[c[4]], c[3])
            vs.append(n)
        ctx.harness('c25', WORKLOAD, vs, parts=5, mainfile='c25.cpp', scale=scale, args=lambda v: ['--log', ctx.path(v + '.log')] + (['--dump', inputs] if v == cfg_name(ref) else ['--inputs', inputs]), keep=done)
        import shutil
        shutil.rmtree(ctx.path('build-c25'), ignore_errors=True)
    one_batch([ref])
    if cfg_name(ref) not in done:
        return
    names = done[cfg_name(ref)].get('names', [])
    step = 6
    for k in range(0, len(configs), step):
        batch = configs[k:k + step]
        if time.time() - ctx.t0 > (6000 if ctx.thorough else 350):      # a slow machine: report what was compared
            ctx.count('configurations left out for lack of time', len(batch))
            continue
        one_batch(batch)
        for c in batch:
            n = cfg_name(c)
            if n not in done:
                continue
            rc, o, e = ctx.sh([cmp_exe, ctx.path(cfg_name(ref) + '.log'), ctx.path(n + '.log')], timeout=300)
            if rc != 0:
                raise vrun.HarnessError('offline checker: %s' % e)
            for l in o.splitlines():
                w = l.split()
                if w[0] == 'S':
                    ctx.eval(int(w[1]))
                    ctx.count('configurations compared')
                    ctx.count('values compared', int(w[2]))
                    ctx.count('records bitwise equal', int(w[3]))
                    ctx.distinct[n] = int(w[1])
                elif w[0] == 'L':
                    ctx.violation('length/' + n, 'the log has %s records, then ends early' % w[1], n)
                else:
                    name = names[int(w[2])] if w[1] == '0' else 'shared objects (type %s), evaluation %s' % (w[1], w[2])
                    ctx.violation('differs/%s' % name, '%s, input %s, result %s of %s: %s in the reference configuration (g++ c++17 -O0), %s with %s' % (name, w[3], w[4], w[5], w[6], w[7], n), n, seed=ctx.seed)
            if not ctx.samples or len(ctx.samples) < 20:
                ctx.samples.append('%s against the reference: %s' % (n, o.splitlines()[-1]))
            import os
            os.unlink(ctx.path(n + '.log'))


def cfg_name(c):
    return '%s-%s%s%s%s' % (c[0], c[1], c[2], '-bc' if c[3] else '', '-' + c[4] if c[4] else '')


@check('C26', 'one evaluation is one header placed in an aggregate, one header restored by a split, one program run both ways, or one workload record compared; distinct by set of requested headers',
       ['header trees without include cycles; every included file can be resolved; local includes are written with quotes at the start of a line', 'a split is given a file that aggregate wrote'],
       technique='runtime monitor of the tool on scratch trees: file-system snapshots before and after, dependency oracle independent of the tool, byte comparison of restored headers, differential runs of programs')
def c26(ctx):
    import aggregate
    aggregate.run(ctx)


@check('C27', 'one evaluation is one header compiled on its own, one installed header compared, one consumer run, or one value compared between translation units; distinct by header and configuration, program unit, consumer',
       ['host configuration', 'units of one program are compiled with the same compiler, options and configuration'],
       technique='runtime monitor: programs of several units over random include orders compared value by value and address by address; consumers of installed and embedded copies observed; every header compiled on its own')
def c27(ctx):
    import headers
    headers.run(ctx)


@check('C29', 'one evaluation is one call of the portability layer, one failure scenario, or one evaluation of the workload in a kernel compared with the host; non-trivial if data was handed over',
       ['the device is emulated: device code as clang compiles it for a GPU target, retargeted to the CPU and run by a runtime that keeps device and host memory apart; a real GPU, a vendor compiler and its headers are not available',
        'callables run in one thread of one block; types up to 96 bytes, up to 20000 elements'],
       technique='runtime monitor: emulated CUDA/HIP runtime that logs every call, keeps host and device memory apart with page protection, injects failures and defers work to synchronization; differential monitor of kernels against the host')
def c29(ctx):
    import device
    device.run(ctx)


@check('C30', 'one evaluation is one run of the script; distinct by outcome, build type, generator, options and number of arguments',
       ['cmake and dot are stand-ins that record how they are called; the script runs as an unprivileged user on scratch trees'],
       technique='runtime monitor of the tool on scratch trees: recorded command lines parsed and compared with what was asked for, file-system snapshots before and after, failures of cmake injected, histories of several runs')
def c30(ctx):
    import configure
    configure.run(ctx)


@check('C31', 'one evaluation is one published constant, type or value of one instantiation compared with what that component does or was declared with; distinct by component and fact',
       ['a trait that is renamed or removed counts as a change of the interface, and is reported'],
       technique='runtime monitor of self-description: generic workloads that know the components only through their published traits, compared online with what was declared and with the types, counts and results observed (ASan+UBSan and optimized builds)')
def c31(ctx):
    ctx.harness('c31', ['c31.cpp'], variants(ctx, ['gcc-asan', 'clang20-O1'], ['gcc20-O2', 'clang-O2', 'gcc-O3', 'clang-asan-nobc']), parts=4)


@check('C32', 'one evaluation is one option, version, language standard, header or program output as a consumer sees it; distinct by way of use and options',
       ['device options are observed through the configuration header only, as no device compiler is installed; camp is a stand-in of 10 lines'],
       technique='runtime monitor of the configured and installed package: random histories of configurations, installations and moves, consumer programs built each way and run, their observations compared with the options asked for')
def c32(ctx):
    import package
    package.run(ctx)


@check('C33', 'one evaluation is one run of a script or of a static-analysis test, or one source file looked for in what is analysed; distinct by request, place and outcome',
       ['docker, BLT and the tools the scripts call are stand-ins that record the calls and fail on demand', 'one kind of check per run of the container script, as in the workflow', 'paths without blanks for the scripts'],
       technique='runtime monitor of the CI scripts and static-analysis tests: recorded calls, environments and statuses judged against the request, every call made to fail in turn, delays and volumes of messages injected')
def c33(ctx):
    import ci
    ci.run(ctx)


@check('C34', 'one evaluation is one run of the script or one setting of both files; distinct by the numbers of common and of different settings',
       ['settings are written "name = value", with comments that follow a #', 'what is printed about settings of one file only is not judged'],
       technique='runtime monitor of the tool: random and real style files written from known settings in random layouts, its report compared with the settings')
def c34(ctx):
    import styles
    styles.run(ctx)
