"""C03: the same tokens mean the same program however they are laid out, and grouping follows precedence."""
import os
import random
import re
import shutil

from vf import core, fuzz, lang, layout
from vf.prog import *
from vf.gen import Exprs

POOL = None


def gen(rng, uid):
    pg = PG(rng, uid, p_trace=0.1, p_call=0.15, depth=rng.choice([1, 2, 3]), budget=25, structs=rng.choice([0, 1, 2]),
            ifs=2, for3=1, forcond=1, forinf=1, switch=1, ret=0.5, brk=1, aggdecl=1, multiassign=1, multidecl=1, incdec=1, ptr=1,
            lam=rng.choice([0, 1]), p_blockexpr=0.04, expr=4)
    pg.add_globals(2)
    for _ in range(rng.randint(0, 2)):
        pg.func(4)
    return pg.case(rng.randint(3, 9))


def spelled(rng, cases, p):
    """The program with parentheses around a share p of its values."""
    r = random.Random(rng.random())
    lang.PAREN = (lambda: r.random() < p, rng.choice([1, 1, 1, 2]))
    try:
        return core.program(cases)
    finally:
        lang.PAREN = lang.SKIP = None


def variants(rng, cases, n):
    out = []
    for i in range(n):
        k = rng.choice(['parentheses', 'layout', 'layout', 'both'])
        src = spelled(rng, cases, rng.choice([0.1, 0.5, 1])) if k != 'layout' else core.program(cases)
        if rng.random() < 0.3:
            src = layout.debrace(rng, src)
            k += ', no braces'
        if rng.random() < 0.3:
            src = layout.numbers(rng, src)
            k += ', numbers'
        if 'layout' in k or 'both' in k:
            st = rng.choice(layout.STYLES)
            src = layout.relayout(rng, src, st)
            k += ', ' + st
        out.append((k, src))
    return out


def outputs(d, ll, src):
    exe = ll + '.exe'
    l = core.link(ll, exe, 'O0', d=d)
    if l.code:
        return 'does not link', l.code
    r = core.execute(exe, 'O0', d)
    return r.code, r.out


def job(seed, b, k, n):
    rng = random.Random('C03:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    cases, tries = [], 0
    while len(cases) < k and tries < 40 * k:
        tries += 1
        try:
            c = gen(rng, 'c%d' % len(cases))
            c.interpret()
        except (lang.UB, RecursionError):
            continue
        cases.append(c)
    vs = variants(rng, cases, n)
    d = core.fresh()
    try:
        srcs = [core.program(cases)] + [s for _, s in vs]
        files = core.files_of(cases)
        verdicts = fuzz.batch(d, [s.encode() for s in srcs])
        codes = [layout.canon(open('%s/%d.cd.ll' % (d, i)).read()) if v['stage'] == 'ok' else None for i, v in enumerate(verdicts)]
        res['evals'] += len(srcs)
        f = core.check_program(srcs[0], [c.expect for c in cases], ('O0',), files)
        if f:
            res['fails'].append(f)
        for i, (kind, s) in enumerate(vs):
            res['cov'][kind] = res['cov'].get(kind, 0) + 1
            res['sigs'].append(core.sig(s))
            if codes[i + 1] is not None and codes[i + 1] == codes[0]:
                continue
            res['cov']['other code, compared by its output'] = res['cov'].get('other code, compared by its output', 0) + 1
            f = core.check_program(s, [c.expect for c in cases], ('O0',), files)
            if f:
                f.detail = 'the program spelled differently (%s): %s' % (kind, f.detail)
                f.files = dict(f.files, **{'original.cd': srcs[0]})
                res['fails'].append(f)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if b < 4:
        res['samples'] = ['%s: %s' % (vs[0][0], vs[0][1][:1200])]
    return res


def corpus(seed, b, progs):
    """Programs of the repository, spelled differently."""
    rng = random.Random('C03c:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    d = core.fresh()
    try:
        vs = []
        for p in progs:
            p = p.decode('utf8', 'replace')
            vs.append(('original', p))
            vs += [(st, layout.relayout(rng, p, st, False)) for st in layout.STYLES]
        verdicts = fuzz.batch(d, [s.encode() for _, s in vs])
        res['evals'] += len(vs)
        for i, ((kind, s), v) in enumerate(zip(vs, verdicts)):
            if kind == 'original':
                j = i
            ok = verdicts[j]['stage'] == 'ok'
            if kind == 'original' or fuzz.crash(verdicts[j]):
                continue
            res['sigs'].append(core.sig(s))
            key = 'repository program, ' + ('accepted' if ok else 'rejected')
            res['cov'][key] = res['cov'].get(key, 0) + 1
            if v['stage'] != verdicts[j]['stage']:
                res['fails'].append(core.Failure('layout changes the verdict', '%s: the original ended at stage %s, with other white space (%s) it ends at %s: %s' % (
                    kind, verdicts[j]['stage'], kind, v['stage'], v.get('errors') or v.get('log') or v.get('panic')), s, files={'original.cd': vs[j][1]}))
            elif ok:
                a, z = '%s/%d.cd.ll' % (d, j), '%s/%d.cd.ll' % (d, i)
                if layout.canon(open(a).read()) != layout.canon(open(z).read()):
                    x, y = outputs(d, a, vs[j][1]), outputs(d, z, s)
                    if x != y:
                        res['fails'].append(core.Failure('layout changes the program', 'the same tokens with other white space (%s) give %r instead of %r' % (
                            kind, y, x), s, files={'original.cd': vs[j][1]}))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 8, 10) for b in range(ck.n(200, 2000))])
    pool = fuzz.seeds()
    ck.pmap(corpus, [(ck.seed, b, pool[b::30]) for b in range(30)] * ck.n(1, 1))


if __name__ == '__main__':
    core.main('C03', 'random programs and those of the repository are spelled again with redundant parentheses, other white space, comments and without '
              'optional semicolons; the emitted code, or else the behaviour, must be the one of the first spelling and of the interpreter', body)
