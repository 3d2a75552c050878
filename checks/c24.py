"""C24: a function with a result is accepted exactly when every path returns, and gives what its path returns."""
import random
import shutil

from vf import core, flow, fuzz

WRAPS = ['function', 'function', 'function', 'variable', 'block expression', 'argument', 'nested', 'method']


def wrap(kind, name, text):
    """A function of two i32 with this body, directly or inside of something that needs a result too."""
    if kind == 'function':
        return 'func %s(n i32, a i32) i32 {\n%s}\n' % (name, text)
    if kind == 'variable':
        return 'func %s(n i32, a i32) i32 {\n  f := func(n i32, a i32) i32 {\n%s  };\n  return f(n, a);\n}\n' % (name, text)
    if kind == 'block expression':
        return 'func %s(n i32, a i32) i32 {\n  return :i32 {\n%s  };\n}\n' % (name, text)
    if kind == 'argument':
        return 'func ap%s(f func(i32, i32) i32, n i32, a i32) i32 { return f(n, a); }\nfunc %s(n i32, a i32) i32 {\n  return ap%s(func(n i32, a i32) i32 {\n%s  }, n, a);\n}\n' % (name, name, name, text)
    if kind == 'nested':
        return 'func %s(n i32, a i32) i32 {\n  for i := 0; i < 3; ++i {\n    if i == 1 {\n      g := func(n i32, a i32) i32 {\n%s      };\n      return g(n, a);\n    }\n  }\n  return 0;\n}\n' % (name, text)
    return 'struct S%s { x i32 }\nfunc m%s(s *S%s, n i32, a i32) i32 {\n%s}\nfunc %s(n i32, a i32) i32 { s := @S%s{ x: 1 }; return (&s).m%s(n, a); }\n' % (name, name, name, text, name, name, name)


def case(rng, name):
    """(text, legal, inputs with results, kinds of statements)"""
    f = flow.Flow(rng)
    while True:
        b = f.body(rng.choice([1, 2, 2, 3, 3]))
        if len(str(b)) < 4000:
            break
    ok = flow.returns(b) and flow.legal(b)
    kind = rng.choice(WRAPS)
    text = f.text(b)
    runs = []
    if ok:
        for n in [0, 2047] + [rng.getrandbits(11) for _ in range(10)]:
            try:
                v = flow.evaluate(b, n, 7)
            except (flow.Unreachable, flow.Endless, flow.Brk, flow.Cnt):
                continue
            runs.append((n, v))
    return wrap(kind, name, text), ok, runs, f.kinds | {'in: ' + kind}


def job(seed, b, n, share):
    rng = random.Random('C24:%s:%s' % (seed, b))
    cases = [case(rng, 'f%d' % i) for i in range(n)]
    res = {'evals': n, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}

    def add(k, m=1):
        res['cov'][k] = res['cov'].get(k, 0) + m
    d = core.fresh()
    try:
        vs = fuzz.batch(d, [(c[0] + 'func main() i32 { return 0; }\n').encode() for c in cases])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    good = []
    for c, v in zip(cases, vs):
        res['sigs'].append(core.sig(core.re.sub(r'\bf\d+\b', 'f', c[0])))
        add('every path returns' if c[1] else 'some path does not return')
        for k in c[3]:
            add(k if k.startswith('in: ') else 'with ' + k)
        crash = fuzz.crash(v)
        if crash:
            res['fails'].append(core.Failure('no verdict', crash[:1500], c[0]))
        elif (v['stage'] == 'ok') != c[1]:
            res['fails'].append(core.Failure('wrongly ' + ('rejected' if c[1] else 'accepted'), 'every path of the function %s, the compiler says: %s' % (
                'returns' if c[1] else 'does not return', '; '.join(v.get('errors') or [v['stage']])[:800]), c[0]))
        elif c[1]:
            good.append(c)
    if len(res['fails']) == 0 and rng.random() < share:
        for i in range(0, len(good), 20):
            part = [c for c in good[i:i + 20] if c[2]]
            src = ''.join(c[0] for c in part) + 'func main() i32 {\n'
            exp = []
            for k, c in enumerate(part):
                name = core.re.findall(r'func (f\d+)\(', c[0])[-1]
                src += '  @print("\\n#%d\\n");\n' % k + ''.join('  @print(%s(%d, 7));\n' % (name, n) for n, _ in c[2])
                exp.append(''.join(str(v) for _, v in c[2]).encode())
                add('runs', len(c[2]))
            src += '  @print("\\n#end\\n");\n  return 0;\n}\n'
            f = core.check_program(src, exp, ('O0', 'O3'))
            res['evals'] += 2 * len(part)
            if f:
                res['fails'].append(f)
    if b < 4:
        res['samples'] = ['%s\n// %s' % (cases[0][0], 'legal, results %s' % cases[0][2][:3] if cases[0][1] else 'some path does not return')]
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 100, 1) for b in range(ck.n(100, 1500))])


if __name__ == '__main__':
    core.main('C24', 'random bodies of if, switch, for, blocks, #if, block expressions and functions; the verdict must be that of the rule for returning on every path, '
              'and the accepted functions return what the way taken for each input returns', body)
