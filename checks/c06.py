"""C06: functions."""
from vf import core
from vf.prog import *


def gen(rng, uid):
    pg = PG(rng, uid, p_rec=0.5, p_call=0.35, p_part=rng.choice([0, 0.1]), p_trace=0.1, depth=2, budget=20, expr=1, call=4, multidecl=3, multiassign=3, ret=1.5,
            structs=rng.choice([0, 1, 2]), aggdecl=1, aggassign=0.5, ptr=0.7)
    pg.add_globals(1)
    pt = list(pg.scal)
    pt += [s for s in pg.structs if isinstance(s, Struct)]
    pt += [Ptr(t) for t in pt[:3]]
    pv = [t for t in pt if not isinstance(t, Ptr)]
    for _ in range(rng.randint(2, 5)):
        ret = [rng.choice(pv) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        pg.func(4, maxparams=rng.choice([2, 4, 9]), ptypes=pt, ret=ret)
    if rng.random() < 0.6:
        recursive(pg)
    # function values
    if rng.random() < 0.7:
        fnvalues(pg)
    c = pg.case(rng.randint(4, 9))
    return c


def recursive(pg):
    """Bounded recursion, also mutual, with locals that must survive the inner call."""
    rng = pg.rng
    t = rng.choice([x for x in pg.scal if isinstance(x, Int)])
    f, n = pg.nm('r'), pg.nm('n')
    a, loc = pg.nm('a'), pg.nm('l')
    two = rng.random() < 0.5
    fn = Func(f, [(n, I32), (a, t)], [t], [])
    other = fn
    if rng.random() < 0.5:
        other = Func(pg.nm('r'), [(n, I32), (a, t)], [t], [])
        other.body = [Print(Str('o'), Var(n, I32), Var(a, t), ''),
                      Return(Bin(rng.choice('+-^'), Call(fn, [Bin('-', Var(n, I32), Lit(I32, 1)), Bin('+', Var(a, t), Lit(t, 3))]), Var(a, t)))]
        pg.note('mutual recursion')
    base = Return(Bin(rng.choice('+*^'), Var(a, t), lit(rng, t)))
    rec = Call(other, [Bin('-', Var(n, I32), Lit(I32, 1)), Bin(rng.choice('+-'), Var(a, t), Lit(t, 1))])
    body = [If([(Bin('<=', Var(n, I32), Lit(I32, 0)), [base])])]
    body.append(Decl(loc, t, Bin('*', Var(a, t), Lit(t, 2))))
    if two:
        m = pg.nm('m')
        body.append(Decl(m, t, rec))
        body.append(Print(Var(loc, t), Var(n, I32), ''))
        body.append(Return(Bin('-', Bin('+', Var(m, t), Var(loc, t)), Call(fn, [Bin('-', Var(n, I32), Lit(I32, 2)), Var(loc, t)]))))
    else:
        body.append(Return(Bin('+', rec, Var(loc, t))))
    fn.body = body
    if other is not fn and rng.random() < 0.5:
        pg.decls.append(fn)
        pg.decls.append(other)
    else:
        if other is not fn:
            pg.decls.append(other)
        pg.decls.append(fn)
    drv = Func(pg.nm('d'), [], [t], [Return(Call(fn, [Lit(I32, rng.randint(0, 6)), lit(rng, t)]))])
    pg.decls.append(drv)
    pg.funcs.append(drv)
    pg.note('recursion')


def fnvalues(pg):
    """Functions passed, stored and called through variables, fields, elements and parameters."""
    rng = pg.rng
    t, u = rng.choice(pg.scal), rng.choice(pg.scal)
    ft = Fn([t, u], [t])
    fs = []
    for _ in range(rng.randint(2, 3)):
        a, b = pg.nm('a'), pg.nm('b')
        f = Func(pg.nm('h'), [(a, t), (b, u)], [t], [Print(lit(rng, I32), Var(a, t), Var(b, u), ''),
                                                     Return(Bin(rng.choice('+-'), Var(a, t), lit(rng, t)))])
        fs.append(f)
        pg.decls.append(f)
    S = Struct(pg.nm('F'), [(pg.nm('z'), I8), (pg.nm('fn'), ft)])
    pg.decls.append(S)
    fname = S.fields[1][0]
    p = pg.nm('k')
    ap = Func(pg.nm('ap'), [(p, ft), ('x', t)], [t], [Return(Call(Var(p, ft), [Var('x', t), lit(rng, u)]))])
    pick = Func(pg.nm('pick'), [('i', I32)], [ft],
                [If([(Bin('==', Var('i', I32), Lit(I32, 0)), [Return(FnRef(fs[0]))])]), Return(FnRef(fs[1]))])
    pg.decls += [ap, pick]
    v, arr, st = pg.nm('v'), pg.nm('arr'), pg.nm('st')
    body = [Decl(v, ft, FnRef(fs[0])), Print(Call(Var(v, ft), [lit(rng, t), lit(rng, u)]), ''),
            Assign(Var(v, ft), FnRef(fs[1])), Print(Call(Var(v, ft), [lit(rng, t), lit(rng, u)]), '')]
    body.append(Print(Call(ap, [FnRef(rng.choice(fs)), lit(rng, t)]), Call(ap, [Var(v, ft), lit(rng, t)]), ''))
    at = Arr(len(fs), ft)
    body.append(Decl(arr, at, ArrLit(at, [FnRef(f) for f in fs])))
    for i in range(len(fs)):
        body.append(Print(Call(Index(Var(arr, at), Lit(I32, i)), [lit(rng, t), lit(rng, u)]), ''))
    body.append(Decl(st, S, StructLit(S, [(S.fields[0][0], Lit(I8, 1)), (fname, FnRef(rng.choice(fs)))])))
    body.append(Print(Call(Field(Var(st, S), fname), [lit(rng, t), lit(rng, u)]), ''))
    body.append(Decl(v + 'q', ft, Call(pick, [Lit(I32, rng.randrange(2))])))
    body.append(Print(Call(Var(v + 'q', ft), [lit(rng, t), lit(rng, u)]), ''))
    drv = Func(pg.nm('d'), [], [t], body + [Return(lit(rng, t))])
    pg.decls.append(drv)
    pg.funcs.append(drv)
    pg.note('function values')


def body(ck):
    nb = ck.n(160, 3000)
    ck.pmap(core.generic_batch, [('C06', ck.seed, b, gen, 10, ('O0', 'O3')) for b in range(nb)] +
            [('C06', ck.seed, 100000 + b, gen, 10, ('asan', 'msan')) for b in range(nb // 6)])


if __name__ == '__main__':
    core.main('C06', 'random call graphs: parameters and results of every kind (up to 9 and 3), several results declared and assigned, '
              'recursion, mutual recursion, method calls, function values; the trace must equal the interpreter\'s', body)
