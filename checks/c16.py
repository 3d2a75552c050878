"""C16: the errors of a wrong program are on the lines of the mistake."""
import os
import random
import re
import shutil

from vf import core, fuzz, typing

LOC = re.compile(r'(?:^on (\d+):(\d+)|\[(\d+):(\d+)\])', re.M)
JUNK = ['// a comment', '', '\t', '  // "quoted', "// it's", '\r', '// }', '//']
BLOCKS = ['func zz%d() *i8 { return "a\nb\n\nc"; }', 'func zz%d() *i8 { return "a\\\nb \\n \\"\n"; }', "func zz%d() i8 { return '\\\n'; }", "func zz%d() i8 { return '\n'; }", 'type ZZ%d = i32;', 'struct ZZ%d {\n  a i32\n\n  b i64\n}',
          'func zz%d(a i32) i32 {\n  // x\n  return a +\n\n  1;\n}']


def lines(v):
    """Lines of the errors of a verdict, in the order they are printed."""
    t = '\n'.join(v.get('errors') or []) or v.get('log', '')
    return [int(m.group(1) or m.group(3)) for m in LOC.finditer(t)]


def pad(rng, c):
    """The program with more lines before and between its own; where the mistake is then."""
    L = c.src.split('\n')
    first, last = c.line - 1, c.last - 1
    out, a, b = [], None, None
    for k in range(rng.choice([0, 0, 1, 3])):
        out += (rng.choice(BLOCKS) % k).split('\n')
    for i, x in enumerate(L):
        if not first < i <= last:
            while rng.random() < 0.15:
                out.append(rng.choice(JUNK))
        if i == first:
            a = len(out) + 1
        out.append(x)
        if i == last:
            b = len(out)
    return '\n'.join(out), a, b


def job(seed, b, n):
    rng = random.Random('C16:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    cases = []
    while len(cases) < n:
        c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        if not c.ok:
            cases.append((c,) + pad(rng, c))
    d = core.fresh()
    typing.write(d)
    try:
        vs = fuzz.batch(d, [s.encode() for _, s, _, _ in cases])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (c, s, a, z), v in zip(cases, vs):
        res['evals'] += 1
        k = 'mistake: ' + c.what.split(' ')[0]
        res['cov'][k] = res['cov'].get(k, 0) + 1
        res['sigs'].append(core.sig(s))
        ls = lines(v)
        why = ''
        if fuzz.crash(v):
            why = fuzz.crash(v)
        elif v['stage'] == 'ok':
            why = 'the program was accepted'
        elif not ls or not all(a <= l <= z for l in ls):
            why = 'errors on lines %s' % ls
        if why:
            res['fails'].append(core.Failure('wrong place', 'the only mistake (%s) is on lines %d to %d: %s\n%s\n%s' % (
                c.what, a, z, why, '\n'.join(s.split('\n')[a - 1:z]), '\n'.join(v.get('errors') or [v.get('log', '')])), s))
            break
    if b < 4:
        c, s, a, z = cases[0]
        res['samples'] = ['%s on lines %d to %d: %r => %s' % (c.what, a, z, '\n'.join(s.split('\n')[a - 1:z]), (vs[0].get('errors') or [''])[0][:300])]
    return res


BAD = ['$', '`', '~', '?', '\x01', '#', '#else', "'ab'", '\\', '\x00']


def illegal(rng, s):
    """A token that does not exist put between two tokens; its line."""
    t = fuzz.tokens(s)
    # not inside of a name or a comment
    where = [i for i, x in enumerate(t) if i and t[i - 1] not in (b'@', b'#') and not t[i - 1].startswith(b'//')]
    i = rng.choice(where)
    pre = b''.join(t[:i]) + b' '
    return pre + rng.choice(BAD).encode() + b' ' + b''.join(t[i:]), pre.count(b'\n') + 1


def syntax(seed, b, n, pool):
    """Programs that parse, with an illegal token."""
    rng = random.Random('C16s:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    cases = []
    for _ in range(n):
        p = rng.choice(pool)
        if rng.random() < .4:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
            if c.ok:
                p = pad(rng, c)[0].encode()
        cases.append(illegal(rng, p))
    d = core.fresh()
    typing.write(d)
    try:
        vs = fuzz.batch(d, [s for s, _ in cases])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (s, l), v in zip(cases, vs):
        res['evals'] += 1
        res['cov']['illegal token'] = res['cov'].get('illegal token', 0) + 1
        res['sigs'].append(core.sig(s))
        ls = lines(v)
        if v['stage'] != 'parse' or fuzz.crash(v) or not ls or ls[0] != l:
            res['fails'].append(core.Failure('wrong place', 'there is an illegal token on line %d; the compiler ended at stage %s with %s, first error on line %s' % (
                l, v['stage'], fuzz.crash(v) or '\n'.join(v.get('errors') or [])[:600], ls[:1]), s))
            break
    return res


def prefix(rng, s):
    """A change of one token; its line."""
    t = fuzz.tokens(s)
    i = rng.choice([i for i, x in enumerate(t) if not x.isspace() and not x.startswith(b'//')])
    line = b''.join(t[:i]).count(b'\n') + 1
    k = rng.random()
    if k < 0.4:
        u = t[:i] + t[i + 1:]
    else:
        u = t[:i] + [rng.choice(fuzz.EXTRA), b' '] + t[i + (k < 0.7):]
    return b''.join(u), line


def changed(seed, b, n, pool):
    """Programs that parse with one token changed: no syntax error before it."""
    rng = random.Random('C16p:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    cases = [prefix(rng, rng.choice(pool)) for _ in range(n)]
    d = core.fresh()
    typing.write(d)
    try:
        vs = fuzz.batch(d, [s for s, _ in cases])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (s, l), v in zip(cases, vs):
        res['evals'] += 1
        if v['stage'] != 'parse' or fuzz.crash(v):
            continue
        res['cov']['syntax error after a change'] = res['cov'].get('syntax error after a change', 0) + 1
        res['sigs'].append(core.sig(s))
        ls = lines(v)
        if not ls or ls[0] < l:
            res['fails'].append(core.Failure('wrong place', 'the first token that is wrong is on line %d or later; the first error is on line %s: %s' % (
                l, ls[:1], '\n'.join(v.get('errors') or [])[:600]), s))
            break
    return res


def modules(seed, b, n):
    """The mistake is in a file that is imported, directly or not."""
    rng = random.Random('C16m:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    for _ in range(n):
        c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        while c.ok:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        s, a, z = pad(rng, c)
        depth = rng.randint(1, 3)
        names = ['%s%d' % (rng.choice(['m', 'sub/m', 'x_y']), k) for k in range(depth)]
        files, want = {names[-1] + '.cd': re.sub(r'func main\(\)', 'func mainx()', s)}, []
        for k in range(depth):
            # file k imports file k + 1
            dirs = os.path.dirname(names[k - 1]) if k else ''
            path = os.path.relpath(names[k] + '.cd', dirs or '.')
            top = [rng.choice(JUNK) for _ in range(rng.choice([0, 1, 4]))]
            if rng.random() < .5:
                # another module, without mistakes
                top.insert(rng.randint(0, len(top)), 'import ok%d, "./ok.cd";' % k)
                files[os.path.join(dirs, 'ok.cd')] = 'const X := 1;\nfunc ok() i32 { return X; }\n'
            txt = '\n'.join(top + ['import m%d, "./%s";' % (k, path)]) + '\n'
            want.append((len(top) + 1, path))
            if k:
                files[names[k - 1] + '.cd'] = txt + 'func g() i32 { return 1; }\n'
            else:
                main = txt + 'func main() i32 { return 0; }\n'
        if 'import' in s:
            files.update({os.path.join(os.path.dirname(names[-1]), k): t for k, t in typing.FILES.items()})
        missing = rng.random() < .15
        if missing:
            # the mistake is the import of the last file
            del files[names[-1] + '.cd']
        d = core.fresh()
        try:
            r = core.compile_src(main, d, files=files)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res['evals'] += 1
        k = 'in a module %d imports away' % depth
        res['cov'][k] = res['cov'].get(k, 0) + 1
        res['sigs'].append(core.sig(s))
        text = '\n'.join(r.errors)
        ls = lines(r.verdict)
        ok = r.stage == 'semantic' and not r.panic and len(ls) > depth and [l for l, _ in want] == ls[:depth] and \
            all(p in text for _, p in want) and all(a <= l <= z for l in ls[depth:])
        if missing:
            res['cov']['import of a file that is missing'] = res['cov'].get('import of a file that is missing', 0) + 1
            if r.stage != 'semantic' or r.panic or [l for l, _ in want] != ls or not all(p in text for _, p in want):
                res['fails'].append(core.Failure('wrong place', 'the last of the imports on lines %s is of a file that is missing; errors on lines %s: %s' % (
                    [l for l, _ in want], ls, r.describe()[:900]), main, files=files))
                break
        elif not ok and c.what.split(' ')[0] not in ('main',):
            res['fails'].append(core.Failure('wrong place', 'the mistake (%s) is on lines %d to %d of %s, imported on lines %s; errors on lines %s: %s' % (
                c.what, a, z, names[-1], [l for l, _ in want], ls, r.describe()[:900]), main, files=files))
            break
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 120) for b in range(ck.n(160, 2000))])
    pool = fuzz.seeds()
    d = core.fresh()
    typing.write(d)
    pool = [p for p, v in zip(pool, fuzz.batch(d, pool)) if v['stage'] != 'parse' and not fuzz.crash(v)]
    ck.pmap(changed, [(ck.seed, b, 100, pool) for b in range(ck.n(120, 1500))])
    ck.pmap(modules, [(ck.seed, b, 20) for b in range(ck.n(60, 600))])
    ck.pmap(syntax, [(ck.seed, b, 100, pool) for b in range(ck.n(120, 1500))])


if __name__ == '__main__':
    core.main('C16', 'random programs with exactly one wrong statement, and programs with one illegal token, between comments, blank lines and texts of several '
              'lines: every error of the checker lies on the lines of the statement, the first syntax error on the line of the token', body)
