"""C17: compilation is a function of the source text."""
import importlib
import os
import random
import re
import shutil

from vf import core, fuzz, layout, typing

GENS = ['c01', 'c04', 'c05', 'c06', 'c07', 'c10', 'c11', 'c12', 'c13', 'c13', 'c13', 'c13']


def program(rng):
    """(text, other files) of a program of some check."""
    gen = importlib.import_module('checks.' + rng.choice(GENS)).gen
    cases = []
    k = rng.choice([1, 2, 4])
    while len(cases) < k:
        c = gen(rng, 'c%d' % len(cases))
        if c is not None:
            cases.append(c)
    return core.program(cases), core.files_of(cases)


VALUES = [('i32', '7'), ('u8', '9 as u8'), ('f64', '2.5 as f64'), ('*i32', '&x'), ('[2]i32', '[2]i32{1, 2}'), ('i8', "'a'"), ('f32', '1.5'), ('*i8', '"text"')]


def ambiguous(rng):
    """Several files have functions of the same names for the same types: some rule has to choose."""
    names, vals = ['f', 'g', 'h'][:rng.randint(1, 3)], rng.sample(VALUES, rng.randint(1, 3))
    files, heads = {}, ''
    for i in range(rng.randint(2, 6)):
        t = ''.join('import o%d, "./%s";\n' % (j, n) for j, n in enumerate(files) if rng.random() < 0.3)
        t += 'const K := %d;\nstruct S { a%d i32 }\n' % (i, i)
        for n in names:
            if rng.random() < 0.8:
                t += 'func %s(v %s) i32 { return %d; }\n' % (n, rng.choice(vals)[0], 100 * i + len(n))
        files['m%d.cd' % i] = t
    order = list(files)
    rng.shuffle(order)
    for n in order:
        heads += 'import %s, "./%s";\n' % (n[:-3], n)
    src = heads + 'func main() i32 {\n  x := 3;\n'
    for i, (t, v) in enumerate(vals):
        src += '  v%d : %s = %s;\n' % (i, t, v)
        for n in names:
            if rng.random() < 0.7:
                src += '  @print(v%d.%s(), "\\n");\n' % (i, n)
    if rng.random() < 0.3:
        src += '  y : m0.T = 3;\n  z : m1.U = 4;\n'
    return src + '  return 0;\n}\n', files


def ask(d, cmd):
    """Verdict of one process, with its code as OUT."""
    r = core.run([core.CTX.driver] + cmd, cwd=d, timeout=60)
    i = r.out.rfind(b'@@VERDICT ')
    return core.json.loads(r.out[i + 10:].split(b'\n')[0]) if i >= 0 else {'stage': 'died', 'code': r.code, 'log': r.out.decode('utf8', 'replace')[-1500:]}


def answer(v, ll):
    """What is compared: code up to the names of the compiler, or errors."""
    a = answer_of(v, ll)
    # messages of the operating system about files that can't be read show the whole path
    where = os.path.dirname(os.path.dirname(ll))
    return tuple(re.sub(r'((?:open|read) )' + re.escape(where) + r'\S*/', r'\1<DIR>/', x) for x in a)


def answer_of(v, ll):
    if v['stage'] == 'ok':
        with open(ll) as f:
            return 'ok', layout.canon(f.read())
    return v['stage'], '\n'.join(v.get('errors') or []) + v.get('log', '') + (v.get('panic') or '').split('\n')[0], '\n'.join(v.get('warnings') or [])


def put(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode())


def differences(src, files, others, rng):
    """Compiles in several ways; the first two answers that differ, or None, and how many there were."""
    d = core.fresh()
    try:
        a, b = os.path.join(d, 'a'), os.path.join(d, 'b', 'c')
        os.makedirs(a)
        os.makedirs(b)
        for x in (a, b):
            put(x, dict(files, **{'p.cd': src}))
        got = []
        for i in range(3):
            v = ask(a, ['compile', 'p.cd', 'o%d.ll' % i, '.'])
            got.append(('compiled alone', answer(v, a + '/o%d.ll' % i)))
        # from other directories, by other paths
        v = ask(d, ['compile', 'b/c/p.cd', 'o.ll', 'b/c'])
        got.append(('compiled from a directory above', answer(v, d + '/o.ll')))
        v = ask(b, ['compile', os.path.join(b, 'p.cd'), 'o.ll', '../c'])
        got.append(('compiled by its absolute path', answer(v, b + '/o.ll')))
        # after and before other programs in one process
        for n, t in enumerate(others):
            put(a, {'q%d.cd' % n: t})
        order = ['q%d.cd' % n for n in range(len(others))] + ['p.cd', 'p.cd']
        rng.shuffle(order)
        put(a, {'list': '\n'.join(order)})
        r = core.run([core.CTX.driver, 'batch', 'list', '.'], cwd=a, timeout=150, as_gb=12)
        for part in r.out.split(b'\n@@INPUT ')[1:]:
            k = int(part.split(b'\n', 1)[0])
            j = part.find(b'@@VERDICT ')
            if order[k] == 'p.cd' and j >= 0:
                v = core.json.loads(part[j + 10:].split(b'\n')[0])
                if v['stage'] != 'ok' or k == max(i for i, x in enumerate(order) if x == 'p.cd'):
                    got.append(('compiled with other programs before', answer(v, a + '/p.cd.ll')))
        for how, x in got[1:]:
            if x != got[0][1]:
                return '%s: %s\n%s: %s' % (got[0][0], first(got[0][1], x), how, first(x, got[0][1])), len(got), got[0][1][0]
        return None, len(got), got[0][1][0]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def first(x, y):
    """The answer x where it differs from y."""
    if x[0] != y[0]:
        return str(x)[:600]
    for p, q in zip(x[1].split('\n'), y[1].split('\n')):
        if p != q:
            return '%s ... %s' % (x[0], p[:300])
    return '%s ... (%d lines)' % (x[0], x[1].count('\n'))


def job(seed, b, n):
    rng = random.Random('C17:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    pool = fuzz.seeds()
    for _ in range(n):
        k = rng.random()
        if k < .1:
            src, files = ambiguous(rng)
            what = 'methods of several files'
        elif k < .5:
            src, files = program(rng)
            what = 'program of %d files' % (1 + len(files))
            if files and rng.random() < .35:
                n = rng.choice(sorted(files))
                t = files[n] if isinstance(files[n], bytes) else files[n].encode()
                files = dict(files, **{n: fuzz.mutate(rng, t, pool) if rng.random() < .6 else fuzz.swap(rng, t)})
                what = 'program with a wrong module'
        elif k < .75:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
            src, files, what = c.src, typing.FILES, 'case of typing'
        else:
            s = rng.choice(pool)
            src = fuzz.swap(rng, s) if rng.random() < .6 else fuzz.mutate(rng, s, pool)
            files, what = {}, 'changed program'
        others = [rng.choice(pool) for _ in range(rng.randint(0, 2))] + ([program(rng)[0]] if rng.random() < .5 else [])
        bad, m, stage = differences(src, files, others, rng)
        res['evals'] += m
        for x in (what, 'answer: ' + stage):
            res['cov'][x] = res['cov'].get(x, 0) + 1
        res['sigs'].append(core.sig(src))
        if bad:
            res['fails'].append(core.Failure('different answers', bad, src, files=files))
            break
    if b < 3:
        res['samples'] = ['%s, compiled %d times' % (what, m)]
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 12) for b in range(ck.n(100, 2500))])


if __name__ == '__main__':
    core.main('C17', 'random programs (also of many modules), programs with one mistake, with methods that several files have, and mutants are compiled several times: alone, from other directories, by other '
              'paths, before and after other programs in one process; verdict, errors and code (up to invented names) must be the same', body)
