"""C34: runs scripts/compare_uncrustify.py on pairs of style files written from a list of settings, and judges
what it prints against the settings."""
import os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
import vrun

NAMES = ['indent_columns', 'indent_with_tabs', 'newlines', 'sp_arith', 'sp_assign', 'nl_if_brace', 'nl_max', 'code_width', 'mod_paren', 'cmt_width', 'pos_bool', 'align_span', 'sp_after_comma', 'nl_end_of_file', 'sp', 'nl_if_brace2', 'x']
VALUES = ['0', '1', '2', '3', '80', '-1', 'add', 'remove', 'force', 'ignore', 'true', 'false', 'lf', 'auto', '"  "', '"a=b"', '"#if"', '"#endif # x"', '00', 'True', 'lead_break', '']


def write(r, path, settings):
    """Settings in the given order, in the many ways a style file may be laid out; a repeated setting replaces the earlier one."""
    out = [r.choice(['# Uncrustify 0.70.1\n', ''])]
    for i, (k, v) in enumerate(settings):
        if r.random() < .3:
            out.append(r.choice(['#\n', '\n', '   \n', '# %s = 99\n' % r.choice(NAMES), '\t# general options\n', '#%s=7\n' % k, '  ##  # \n']))
        if r.random() < .1:
            out.append('%s = %s\n' % (k, r.choice(VALUES)))
        out.append(r.choice(['', '', '  ', '\t']) + k + r.choice([' = ', '=', '                      = ', '\t=\t', '= ', ' =']) + v + r.choice(['', '', '  ', '     # unsigned number', ' # a = b', '# ignore/add/remove/force', '\t#', ' # x # y = z']) + '\n')
    text = ''.join(out)
    if r.random() < .2:
        text = text.replace('\n', '\r\n')
    if r.random() < .2:
        text = text.rstrip('\r\n')
    open(path, 'w', newline='').write(text)


def pairs(out):
    """(settings printed as common, settings printed as different)"""
    m = re.search(r'Common Settings:\n(.*?)\n?Different Settings:\n?(.*)\Z', out, re.S)
    if not m:
        return None, None
    common = [tuple(x.strip() for x in l.split('=', 1)) for l in m.group(1).split('\n') if l.strip()]
    different = [re.match(r'(\S+?):\s?(.*?)\s?!=\s?(.*)$', l) for l in m.group(2).split('\n') if l.strip()]
    return common, [tuple(x.strip() for x in d.groups()) if d else None for d in different]


def scenario(ctx, k):
    r = random.Random(ctx.seed * 49979687 + k)
    base = ctx.path('s%d' % k)
    os.makedirs(base)
    names = r.sample(NAMES, r.randint(0, len(NAMES)))
    one = [(n, r.choice(VALUES)) for n in names]
    other = [(n, v if r.random() < .5 else r.choice(VALUES)) for n, v in one if r.random() < .8]
    other += [(n, r.choice(VALUES)) for n in NAMES if n not in names and r.random() < .3]
    r.shuffle(other)
    a, b = os.path.join(base, r.choice(['a.cfg', 'my style.cfg'])), os.path.join(base, 'b.cfg')
    real = k % 25 == 0
    if real:
        shutil.copy(os.path.join(vrun.REPO, 'include', 'uncrustify.cfg'), a)
        text = open(a, encoding='utf8').read()
        one = re.findall(r'^[ \t]*([a-z]\w*)[ \t]*=[ \t]*("[^"\n]*"|[^#\n]*?)[ \t]*(?:#.*)?$', text, re.M)
        other = [(n, v if r.random() < .95 else '17') for n, v in one if r.random() < .98]
    else:
        write(r, a, one)
    write(r, b, other)
    if r.random() < .05:
        b, other = a, one
    kept = [open(f, 'rb').read() for f in (a, b)]
    what = 'style comparison: seed %d number %d' % (ctx.seed, k)
    bad = lambda key, detail: ctx.violation('styles/' + key, '%s: %s; files %s and %s' % (what, detail, a, b), 'python')
    for attempt in (60, 180):
        rc, o, e = ctx.sh(['python3', '-B', os.path.join(vrun.REPO, 'scripts', 'compare_uncrustify.py'), a, b], timeout=attempt, cwd=base)
        if rc != 'timeout':
            break
    ctx.eval()
    if rc != 0:
        return bad('status', 'status %s: %s' % (rc, e[-300:]))
    common, different = pairs(o)
    if common is None:
        return bad('format', 'the two lists are missing: ' + o[:300])
    common = [c for c in common if ' ' not in c[0]]      # lines without =, such as those that start with set
    x, y = dict(one), dict(other)
    want = sorted((n, x[n]) for n in x if n in y and x[n] == y[n])
    differ = sorted((n, x[n], y[n]) for n in x if n in y and x[n] != y[n])
    ctx.eval(len(want) + len(differ))
    if None in different:
        return bad('format', 'a line of the differences cannot be read: ' + o[-300:])
    if sorted(common) != want:
        d = sorted(set(common) ^ set(want)) or 'repeated'
        return bad('common', 'settings wrongly reported or not reported as common: %s' % d[:3])
    seen = sorted(t for t in different if t[0] in x and t[0] in y)
    if seen != differ:
        d = sorted(set(seen) ^ set(differ)) or 'repeated'
        return bad('different', 'settings wrongly reported or not reported as different: %s' % d[:3])
    if [open(f, 'rb').read() for f in (a, b)] != kept or sorted(os.listdir(base)) != sorted({os.path.basename(a), 'b.cfg'}):
        return bad('touched', 'a file was changed or made')
    with ctx.lock:
        ctx.kinds.add((len(want), len(differ), real))
    ctx.count('settings in both files', len(want) + len(differ))
    shutil.rmtree(base, ignore_errors=True)


def run(ctx):
    ctx.kinds = set()
    n = 6000 if ctx.thorough else 500
    with ThreadPoolExecutor(vrun.JOBS) as ex:
        list(ex.map(lambda k: ctx.violations[3:] or scenario(ctx, k), range(n)))
    ctx.distinct['numbers of common and of different settings'] = len(ctx.kinds)
    ctx.runs.append(dict(harness='styles.py', variant='python', wall_s=0, evaluations=ctx.evaluations, distinct=len(ctx.kinds), status=0))
