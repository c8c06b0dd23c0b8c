"""C29: builds the harness as a CUDA or HIP program with clang and an emulated runtime.

Device code: clang's device pass (NVPTX target, the code a GPU compiler would see), whose LLVM IR is
then retargeted to this machine, with one entry point per kernel that takes the argument array of a
launch. Host code: clang's host pass; the 'fat binary' of a translation unit is the path of its
device library."""
import os, re
from concurrent.futures import ThreadPoolExecutor

import vrun

LAYOUT = 'e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128'


def config(ctx, kind, bc):
    d = ctx.path('devinc-%s-%s' % (kind, bc))
    f = os.path.join(d, 'shiva', 'ShivaConfig.hpp')
    if not os.path.exists(f):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        vrun.write_config(f, bc)
        t = open(f).read()
        sym = 'SHIVA_ENABLE_' + kind.upper()
        t2 = t.replace('/* #undef %s */' % sym, '#define ' + sym)
        if t2 == t:
            raise vrun.HarnessError('the configuration header has no ' + sym)
        open(f, 'w').write(t2.replace('#define SHIVA_CUDA_MAJOR        0', '#define SHIVA_CUDA_MAJOR        12'))
    return d


def split_params(s):
    out, depth, cur, quote = [], 0, '', False
    for c in s:
        if c == '"':
            quote = not quote
        if not quote:
            if c in '([{<':
                depth += 1
            elif c in ')]}>':
                depth -= 1
            elif c == ',' and depth == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def first_type(p):
    if p[0] in '<{[':
        close = {'<': '>', '{': '}', '[': ']'}[p[0]]
        d = 0
        for k, c in enumerate(p):
            if c == p[0]:
                d += 1
            elif c == close:
                d -= 1
                if d == 0:
                    return p[:k + 1]
    return p.split()[0]


def balanced(s, start):
    """The text in the parentheses that open at s[start]."""
    d, quote = 0, False
    for k in range(start, len(s)):
        c = s[k]
        if c == '"':
            quote = not quote
        elif not quote:
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return s[start + 1:k]
    raise vrun.HarnessError('cannot read the IR: ' + s[:200])


def retarget(text):
    """NVPTX LLVM IR -> x86-64 LLVM IR with launch entry points."""
    kernels = set(re.findall(r'!\{ptr @("[^"]+"|[\w.$]+), !"kernel", i32 1\}', text))
    kernels |= set(re.findall(r'^define [^\n]*\bptx_kernel\b[^\n@]*@("[^"]+"|[\w.$]+)\(', text, re.M))
    text = re.sub(r'\bptx_kernel ', '', text)
    text = re.sub(r'addrspacecast \(ptr addrspace\(\d+\) (@(?:"[^"]+"|[\w.$]+)) to ptr\)', r'\1', text)
    text = re.sub(r'addrspacecast ptr(?: addrspace\(\d+\))? (\S+) to ptr(?: addrspace\(\d+\))?', r'bitcast ptr \1 to ptr', text)
    text = re.sub(r' addrspace\(\d+\)', '', text)
    text = re.sub(r'(@llvm\.[\w.]*?)\.p[1-7]\b', r'\1.p0', text)
    text = re.sub(r'"target-cpu"="[^"]*"|"target-features"="[^"]*"', '', text)
    lines, seen, entry = [], set(), []
    for l in text.split('\n'):
        if l.startswith('target datalayout'):
            l = 'target datalayout = "%s"' % LAYOUT
        elif l.startswith('target triple'):
            l = 'target triple = "x86_64-pc-linux-gnu"'
        elif l.startswith('!nvvm.'):
            continue
        elif l.startswith('declare '):
            n = re.search(r'@[\w.$]+', l).group(0)
            if n in seen:
                continue
            seen.add(n)
        elif l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            if m.group(1) in kernels:
                l = re.sub(r'^define (?:weak_odr |internal |linkonce_odr )?(?:hidden |protected )?', 'define ', l)
                name = m.group(1).strip('"')
                body, sizes, args = [], [], []
                for k, p in enumerate(split_params(balanced(l, m.end() - 1))):
                    t = first_type(p)
                    bv = re.search(r'byval\(', p)
                    st = balanced(p, bv.end() - 1) if bv else ('i8' if t == 'i1' else t)
                    sizes.append('i64 ptrtoint (ptr getelementptr (%s, ptr null, i64 1) to i64)' % st)
                    body.append('  %%s%d = getelementptr ptr, ptr %%a, i64 %d\n  %%p%d = load ptr, ptr %%s%d' % (k, k, k, k))
                    if bv:
                        al = re.search(r'\balign (\d+)', p)
                        args.append('ptr byval(%s)%s %%p%d' % (st, ' align ' + al.group(1) if al else '', k))
                    elif t == 'i1':
                        body.append('  %%b%d = load i8, ptr %%p%d\n  %%v%d = trunc i8 %%b%d to i1' % (k, k, k, k))
                        args.append('i1 zeroext %%v%d' % k)
                    else:
                        body.append('  %%v%d = load %s, ptr %%p%d, align 1' % (k, t, k))
                        args.append('%s %s%%v%d' % (t, 'signext ' if ' signext' in p else 'zeroext ' if ' zeroext' in p else '', k))
                q = '@"%s__emu' % name
                entry.append('%s_n" = constant i32 %d' % (q, len(sizes)))
                entry.append('%s_sizes" = constant [%d x i64] [%s]' % (q, len(sizes), ', '.join(sizes)) if sizes else '%s_sizes" = constant i64 0' % q)
                entry.append('define void %s"(ptr %%a) {\n%s\n  call void @"%s"(%s)\n  ret void\n}' % (q, '\n'.join(body), name, ', '.join(args)))
        lines.append(l)
    # "metadata" that only named the kernels may be left without a user; that is fine
    return '\n'.join(lines) + '\n' + '\n'.join(entry) + '\n', len(kernels)


def run(ctx):
    # (kind, bounds checking, extra flags for both passes)
    variants = [('cuda', True, ['-std=c++17', '-O1']), ('hip', False, ['-std=c++17', '-O1'])]
    if ctx.thorough:
        variants += [('hip', True, ['-std=c++20', '-O2']), ('cuda', False, ['-std=c++20', '-O2']), ('cuda', True, ['-std=c++17', '-O0']), ('cuda', True, ['-std=c++17', '-O1', '-UB'])]
    dev = os.path.join(vrun.HARNESS, 'device')
    for kind, bc, flags in variants:
        ub = '-UB' in flags
        flags = [f for f in flags if f != '-UB']
        name = '%s%s%s%s' % (kind, '-bc' if bc else '', ''.join(flags).replace('-std=c++', '-'), '-ub' if ub else '')
        if ctx.only_variant and ctx.only_variant != name:
            continue
        d = ctx.path(name)
        os.makedirs(d)
        inc = ['-I' + dev, '-I' + dev + '/fake-' + kind, '-I' + vrun.HARNESS, '-I' + vrun.REPO + '/include', '-I' + config(ctx, kind, bc)]
        common = ['clang++', '-x', kind, '-nocudainc', '-nocudalib', '-nogpuinc', '-nogpulib', '-w', '-Xclang', '-fcuda-allow-variadic-functions', '-DWL_DEVICE', '-include', kind + '_runtime.h' if kind == 'cuda' else 'hip/hip_runtime.h'] + flags + inc
        if kind == 'cuda':
            devflags = ['-Xclang', '-target-sdk-version=12.1', '--cuda-device-only', '--cuda-gpu-arch=sm_70']
            hostflags = ['-Xclang', '-target-sdk-version=12.1', '--cuda-host-only']
        else:
            X = lambda *a: [x for y in a for x in ('-Xclang', y)]
            devflags = ['--cuda-host-only', '-U__CUDA_ARCH__'] + X('-fcuda-is-device', '-triple', 'nvptx64-nvidia-cuda', '-target-cpu', 'sm_70', '-target-feature', '+ptx63', '-aux-triple', 'x86_64-pc-linux-gnu')
            hostflags = ['--cuda-host-only']
        if ub:
            devflags += ['-Xclang', '-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift-base,shift-exponent,bounds,null,alignment,bool,enum,unreachable,return,float-cast-overflow', '-Xclang', '-fsanitize-trap=signed-integer-overflow,integer-divide-by-zero,shift-base,shift-exponent,bounds,null,alignment,bool,enum,unreachable,return,float-cast-overflow']
        units = [(os.path.join(dev, 'c29.cpp'), p) for p in (0, 1, 2)] + [(os.path.join(vrun.HARNESS, 'workload.cpp'), p) for p in range(5)]

        def device(u):
            src, p = u
            b = os.path.join(d, '%s-%d' % (os.path.basename(src), p))
            rc, o, e = ctx.sh(common + devflags + ['-DVH_PART=%d' % p, '-S', '-emit-llvm', src, '-o', b + '.ll'], timeout=600)
            if rc != 0:
                return 'device code', u, rc, e
            text, n = retarget(open(b + '.ll').read())
            ctx.count('kernels built', n)
            open(b + '.x.ll', 'w').write(text)
            rc, o, e = ctx.sh(['clang', '-w', '-O1', '-fPIC', '-shared', '-Wl,-Bsymbolic', '-x', 'ir', b + '.x.ll', '-o', b + '.so'], timeout=600)
            if rc != 0:
                raise vrun.HarnessError('retargeted device code: ' + e[:2000])
            os.unlink(b + '.ll')
            os.unlink(b + '.x.ll')
            return None

        def host(u):
            src, p = u
            b = os.path.join(d, '%s-%d' % (os.path.basename(src), p))
            open(b + '.bin', 'w').write(b + '.so\0')
            rc, o, e = ctx.sh(common + hostflags + ['-Xclang', '-fcuda-include-gpubinary', '-Xclang', b + '.bin', '-DVH_PART=%d' % p, '-c', src, '-o', b + '.o'], timeout=600)
            return None if rc == 0 else ('host code', u, rc, e)

        def runtime(u):
            o_ = os.path.join(d, os.path.basename(u) + '.o')
            rc, o, e = ctx.sh(['clang++', '-std=c++17', '-O1', '-w', '-c'] + (['-DEMU_HIP'] if kind == 'hip' else []) + ['-I' + dev, '-I' + vrun.HARNESS, u, '-o', o_], timeout=300)
            if rc != 0:
                raise vrun.HarnessError('emulated runtime: ' + e[:2000])
        with ThreadPoolExecutor(vrun.JOBS) as ex:
            jobs = [ex.submit(device, u) for u in units] + [ex.submit(host, u) for u in units] + [ex.submit(runtime, os.path.join(dev, 'emu.cpp')), ex.submit(runtime, os.path.join(vrun.HARNESS, 'vh_main.cpp'))]
            bad = [r for r in (j.result() for j in jobs) if r]
        if bad:
            what, u, rc, e = bad[0]
            if 'error:' not in e or rc != 1:
                raise vrun.HarnessError('compiler failed (%s): %s' % (rc, e[-2000:]))
            if re.search(r"(undeclared identifier|unknown type name|no member named|no template named) '%s\w+'" % kind, e):
                raise vrun.HarnessError('the emulated interface lacks something: ' + e[:2000])
            ctx.build_failed(name, '%s of %s, part %d, as %s' % (what, os.path.basename(u[0]), u[1], kind.upper()), e)
            continue
        objs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.o')]
        exe = os.path.join(d, 'run')
        rc, o, e = ctx.sh(['clang++'] + objs + ['-o', exe, '-pthread', '-ldl', '-Wl,--export-dynamic-symbol=emu_*'], timeout=300)
        if rc != 0:
            raise vrun.HarnessError('link: ' + e[-3000:])
            continue
        vrun.VARIANTS[name] = ('clang++ -x ' + kind, flags, bc)
        ctx.run_exe(exe, 'c29', name, ctx.seed, 12 if ctx.thorough else 1, (), 1200 if ctx.thorough else 200, 'c29')
        if ctx.hung:
            return
