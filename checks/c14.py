"""C14: exactly the programs that obey the typing rules are accepted, and what is accepted is valid LLVM."""
import os
import random
import shutil

from vf import core, decls, fuzz, typing

POOL = None


def verdict(v):
    return 'accepted' if v['stage'] == 'ok' else 'rejected'


def said(v):
    return (fuzz.crash(v) or '\n'.join(v.get('errors') or []) or v.get('log', ''))[:1500]


def invalid(ll):
    """What the C++ driver has against the emitted code, or ''."""
    r = core.run(['clang', '-w', '-O0', '-S', '-emit-llvm', '-o', '/dev/null', ll], timeout=60)
    if r.code == 0:
        return ''
    e = r.err.decode('utf8', 'replace')
    if 'PLEASE submit a bug report' in e:
        return ''
    return e[:1500]


def one(s):
    """(verdict, complaint about the emitted code) of an input."""
    d = core.fresh()
    typing.write(d)
    try:
        v = fuzz.batch(d, [s])[0]
        return v, invalid(d + '/0.cd.ll') if v['stage'] == 'ok' else ''
    finally:
        shutil.rmtree(d, ignore_errors=True)


def words(e):
    """The kind of an LLVM error, without names and places."""
    import re
    m = re.search(r'error: (.*)', e)
    return re.sub(r"'[^']*'|\"[^\"]*\"|[%@]\S+|\d+", '', m.group(1) if m else e[:60])


def shrinkcase(c):
    """Lines removed while model and compiler keep disagreeing is not possible (the model
    knows whole programs only): the surrounding functions are all that is shown."""
    return c.src


def job(seed, b, n, share):
    """n typing cases; a share of the accepted ones goes through the LLVM verifier."""
    rng = random.Random('C14:%s:%s' % (seed, b))
    cases = [typing.Gen(random.Random(rng.getrandbits(64)), True).case() for _ in range(n)]
    res = {'evals': n, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    d = core.fresh()
    typing.write(d)
    try:
        vs = fuzz.batch(d, [c.src.encode() for c in cases])
        for i, (c, v) in enumerate(zip(cases, vs)):
            k = '%s: %s' % (c.what.split(' ')[0], 'legal' if c.ok else 'illegal')
            res['cov'][k] = res['cov'].get(k, 0) + 1
            res['sigs'].append(core.sig(c.src))
            body = '\n'.join(c.src.split('\n')[c.line - 1:c.last])
            if fuzz.crash(v):
                res['fails'].append(core.Failure('no verdict', said(v), c.src))
            elif verdict(v) != ('accepted' if c.ok else 'rejected'):
                res['fails'].append(core.Failure(
                    'wrongly ' + verdict(v), 'the typing rules say %s (%s), the compiler %s it.\nThe statement:\n%s\nThe compiler:\n%s' %
                    ('legal' if c.ok else 'illegal', c.what, verdict(v), body, said(v)), c.src))
            elif c.ok and rng.random() < share:
                res['cov']['emitted code verified'] = res['cov'].get('emitted code verified', 0) + 1
                e = invalid('%s/%d.cd.ll' % (d, i))
                if e:
                    res['fails'].append(core.Failure('invalid code', 'the program is accepted, its code is not:\n' + e, c.src))
            if len(res['fails']) >= 3:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if b < 4:
        res['samples'] = ['%s (%s): %s' % (cases[0].what, 'legal' if cases[0].ok else 'illegal', cases[0].src)]
    return res


def declared(seed, b, n, share):
    """n programs of declarations that mention each other."""
    rng = random.Random('C14d:%s:%s' % (seed, b))
    cases = [decls.Gen(random.Random(rng.getrandbits(64))).case('mo%d.cd' % i) for i in range(n)]
    res = {'evals': n, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    d = core.fresh()
    for i, (_, m, _) in enumerate(cases):
        if m:
            with open('%s/mo%d.cd' % (d, i), 'w') as f:
                f.write(m)
    try:
        vs = fuzz.batch(d, [s.encode() for s, _, _ in cases])
        for i, ((s, m, why), v) in enumerate(zip(cases, vs)):
            if m:
                s += '\n// mo%d.cd:\n%s' % (i, m)
            k = 'declarations: ' + (why or 'legal')
            res['cov'][k] = res['cov'].get(k, 0) + 1
            res['sigs'].append(core.sig(s))
            if fuzz.crash(v):
                res['fails'].append(core.Failure('no verdict', said(v), s))
            elif verdict(v) != ('rejected' if why else 'accepted'):
                res['fails'].append(core.Failure('wrongly ' + verdict(v), 'the declarations are %s, the compiler %s them.\nThe compiler:\n%s' % (
                    'illegal (%s)' % why if why else 'legal', verdict(v), said(v)), s))
            elif not why and rng.random() < share:
                e = invalid('%s/%d.cd.ll' % (d, i))
                if e:
                    res['fails'].append(core.Failure('invalid code', 'the program is accepted, its code is not:\n' + e, s))
            if len(res['fails']) >= 3:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def mutants(seed, b, n):
    """Programs with replaced tokens: what is accepted must verify."""
    rng = random.Random('C14m:%s:%s' % (seed, b))
    ins = [fuzz.swap(rng, rng.choice(POOL)) if rng.random() < .8 else fuzz.mutate(rng, rng.choice(POOL), POOL) for _ in range(n)]
    res = {'evals': n, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    d = core.fresh()
    typing.write(d)
    seen = set()
    try:
        vs = fuzz.batch(d, ins)
        for i, (s, v) in enumerate(zip(ins, vs)):
            k = 'mutant ' + ('refused by the checker' if v['stage'] == 'semantic' else 'refused by the code generator' if v['stage'] == 'died' else
                             'not parsed' if v['stage'] == 'parse' else 'accepted' if v['stage'] == 'ok' else v['stage'])
            res['cov'][k] = res['cov'].get(k, 0) + 1
            if v['stage'] != 'ok':
                continue
            res['sigs'].append(core.sig(s))
            e = invalid('%s/%d.cd.ll' % (d, i))
            if e and words(e) not in seen:
                k = words(e)
                seen.add(k)
                small = fuzz.shrink(s, lambda u: words(one(u)[1] or '-') == k)
                res['fails'].append(core.Failure('invalid code', 'the program is accepted, its code is not:\n' + one(small)[1], small))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def body(ck):
    global POOL
    POOL = fuzz.seeds()
    ck.pmap(job, [(ck.seed, b, 200, 0.12) for b in range(ck.n(110, 1600))])
    ck.pmap(declared, [(ck.seed, b, 200, 0.1) for b in range(ck.n(40, 1200))])
    ck.pmap(mutants, [(ck.seed, b, 50) for b in range(ck.n(120, 3000))])


if __name__ == '__main__':
    core.main('C14', 'random programs with one statement that may break a typing rule are accepted exactly when the rule model says so; the code of accepted '
              'programs and mutants goes through the LLVM verifier of the C++ driver', body)
