"""C21: `candice tree` draws the structure that the text has, and answers for any text."""
import os
import random
import re
import shutil

from vf import core, fuzz, syntax

MARKS = '═╦╠╚║'


def tree(d, text, name='t.cd'):
    with open(os.path.join(d, name), 'wb') as f:
        f.write(text)
    return core.run([os.path.join(core.CTX.dir, 'candice'), 'tree', name], cwd=d, timeout=60)


def strip(out):
    return [l.rstrip() for l in out.decode('utf8', 'replace').rstrip('\n').split('\n')]


def differ(got, want):
    for i, (a, b) in enumerate(zip(got + ['<end>'], want + ['<end>'])):
        if a != b:
            return 'line %d of the drawing is\n%s\ninstead of\n%s' % (i + 1, a[-400:], b[-400:])
    return 'the drawing has %d lines instead of %d' % (len(got), len(want))


def exact(rng, res, d):
    want = None
    while want is None or len(want) > 1500 or sum(map(len, want)) > 200000:
        g = syntax.Gen(rng, rng.choice([1, 2, 2, 3, 3, 4]))
        src, t = g.program()
        want = [l.rstrip() for l in syntax.draw(syntax.shown(t))] if len(src) < 8000 else None
    r = tree(d, src.encode())
    got = strip(r.out)
    res['evals'] += 1
    for k, v in g.cov.items():
        res['cov'][k] = res['cov'].get(k, 0) + v
    res['sigs'].append(core.sig(src))
    if r.code != 0 or got != want:
        return core.Failure('tree', 'status %s: %s\n%s' % (r.code, differ(got, want), r.err[-500:].decode('utf8', 'replace')), src)
    if len(res['samples']) < 1:
        res['samples'].append('%r => %r' % (src[:300], '\n'.join(got)[:600]))
    return None


def anything(rng, res, d, pool):
    """Any text is answered: with the tree, and an error if the text doesn't parse."""
    if rng.random() < .5:
        src = syntax.Gen(rng, 3).program()[0].encode()
    else:
        src = rng.choice(pool)
    r = rng.random()
    if r < .6:
        src = fuzz.mutate(rng, src, pool)
    elif r < .8:
        src = fuzz.swap(rng, src)
    else:
        src = src[:rng.randrange(len(src) + 1)]
    text = src
    if not text.strip():
        return None
    v = fuzz.batch(d, [text])[0]
    r = tree(d, text)
    res['evals'] += 1
    res['sigs'].append(core.sig(text))
    bad = v['stage'] == 'parse'
    k = 'text that %s' % ('does not parse' if bad else 'parses')
    res['cov'][k] = res['cov'].get(k, 0) + 1
    out = r.out.decode('utf8', 'replace')
    why = ''
    if r.code != 0 or b'goroutine ' in r.err:
        why = 'status %s: %s' % (r.code, r.err[-800:].decode('utf8', 'replace'))
    elif fuzz.crash(v):
        why = ''                 # C15 tells
    elif bad != (' Error ' in out and 'Generating AST' in out):
        why = 'the text %s, the command printed %r' % ('has errors' if bad else 'has no errors', out[-300:])
    elif not bad and not any(m in text.decode('utf8', 'replace') for m in MARKS):
        t = syntax.undraw([l for l in out.rstrip('\n').split('\n')])
        if out.strip() and t is None:
            why = 'the lines of the drawing don\'t connect:\n' + out[:1500]
    return core.Failure('tree', why, text.decode('utf8', 'replace')) if why else None


def job(seed, b, n, m):
    rng = random.Random('C21:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    pool = fuzz.seeds()
    d = core.fresh()
    try:
        for i in range(n):
            f = exact(rng, res, d)
            if f:
                res['fails'].append(f)
                break
        for i in range(m):
            f = anything(rng, res, d, pool)
            if f:
                res['fails'].append(f)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if b >= 3:
        res['samples'] = []
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 60, 15) for b in range(ck.n(200, 4000))])


if __name__ == '__main__':
    core.main('C21', 'texts generated together with the tree their syntax has (the drawing must be exactly that tree), and mutated texts (the command answers, reports an '
              'error when there is one, and its lines connect)', body, what=('driver', 'candice'), pkgs={'candice': './cmd/build'})
