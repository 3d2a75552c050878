"""C01: integer and float arithmetic."""
from vf import core, lang
from vf.gen import *

lang.IEEE = True


def gen(rng, uid):
    nm = Names(uid)
    k = rng.randint(1, 3)
    types = rng.sample(INTS + FLTS, k)
    for t in list(types):
        if isinstance(t, Int) and not t.signed and rng.random() < 0.5:
            types.append(Int(t.bits, True))
    decls, body, params = [], [], []
    ops, gl = operands(rng, nm, types, decls, body, params)
    ex = Exprs(rng, ops, casts=False, types=types, i1=False)
    for _ in range(rng.randint(3, 6)):
        t = rng.choice(types + [I1, I1])
        e = ex.gen(t, rng.choice([1, 1, 2, 3]))
        form = rng.random()
        if form < 0.6:
            body.append(Print(e, ''))
        elif form < 0.8:
            n = nm('r')
            body.append(Decl(n, e.t, e))
            body.append(Print(Var(n, e.t), ''))
        else:
            lv = [o for o in ops if o.t == t and is_lv(o)]
            if not lv:
                body.append(Print(e, ''))
                continue
            l = rng.choice(lv)
            body.append(Assign(l, e))
            body.append(Print(l, ''))
    lv = [o for o in ops if is_lv(o) and isinstance(o.t, Int)]
    if lv:
        l = rng.choice(lv)
        op = rng.choice(['++', '--'])
        ex.note('%s %s' % (l.t.src(), op))
        body.append(ExprS(IncDec(op, l)))
        body.append(Print(l, IncDec(op, l), ''))
    if params:
        f = Func('w_' + uid, [(n, t) for n, t, _ in params], [], body)
        decls.append(f)
        body = [ExprS(Call(f, [e for _, _, e in params]))]
    return Case(decls, Func('case_' + uid, [], [], body), gl, {'cov': ex.count})


def body(ck):
    nb = ck.n(260, 3000)
    ck.pmap(core.generic_batch, [('C01', ck.seed, b, gen, 24, ('O0', 'O3')) for b in range(nb)])
    ck.assumptions = ['integer division by zero and shifts by the width or more are undefined and not generated']


if __name__ == '__main__':
    core.main('C01', 'random expressions over every integer width and signedness and both float types, in every kind of '
              'place (local, parameter, global, field, element, heap, call result), compared with a bit-exact interpreter; '
              'non-trivial: defined, prints at least one operation, distinct source', body)
