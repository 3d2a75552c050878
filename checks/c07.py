"""C07: structs, unions, arrays and pointers."""
from vf import core
from vf.lang import place
from vf.prog import *


def leaves(rng, e, t, out):
    """Every scalar of e, through one member of each union; unions are given as (place, member)."""
    if isinstance(t, Struct):
        for f, ft in t.fields:
            leaves(rng, Field(e, f), ft, out)
    elif isinstance(t, Arr):
        for i in range(t.n):
            leaves(rng, Index(e, Lit(rng.choice([I32, U8, I64, U32]), i)), t.el, out)
    elif isinstance(t, Union):
        # mostly the widest member
        f, ft = max(t.fields, key=lambda x: x[1].size) if rng.random() < 0.6 else rng.choice(t.fields)
        leaves(rng, Field(e, f), ft, out)
    else:
        out.append(e)


def layout(rng, uid):
    """Fill every scalar of neighbouring aggregates, in any order, and read all of them back."""
    pg = PG(rng, uid, types=rng.sample(INTS, 3) + [I8, rng.choice(FLTS)])
    def scalar():
        return rng.choice(pg.scal)
    def make(d):
        r = rng.random()
        if d <= 0 or r < 0.15:
            return scalar()
        if r < 0.45:
            s = Struct(pg.nm('S'), [(pg.nm('f'), make(d - 1) if rng.random() < 0.5 else scalar()) for _ in range(rng.randint(1, 4))])
            pg.decls.append(s)
            return s
        if r < 0.75:
            return Arr(rng.randint(1, 4), make(d - 1))
        ts = [make(d - 1) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.4:
            s = Struct(pg.nm('S'), [(pg.nm('f'), scalar()) for _ in range(rng.randint(2, 3))])
            pg.decls.append(s)
            ts.append(Arr(rng.randint(2, 4), s))
        u = Union(pg.nm('U'), list({t: (pg.nm('m'), t) for t in ts}.values()))
        pg.decls.append(u)
        return u
    fs = []
    for _ in range(rng.randint(1, 3)):
        fs += [(pg.nm('b'), scalar())] * (rng.random() < 0.7)
        fs += [(pg.nm('x'), make(3))]
    fs.append((pg.nm('e'), scalar()))
    W = Struct(pg.nm('W'), fs)
    pg.decls.append(W)
    body, roots = [], []
    for k in range(rng.randint(1, 3)):
        n = pg.nm('w')
        r = rng.random()
        if r < 0.4:
            body.append(Decl(n, W, StructLit(W, [(fs[-1][0], lit(rng, fs[-1][1]))])))
            roots.append((Var(n, W), W))
        elif r < 0.7:
            A = Arr(rng.randint(1, 2), W)
            body.append(Decl(n, A, ArrLit(A, [])))
            roots.append((Var(n, A), A))
        else:
            p = Ptr(W)
            m = rng.randint(1, 2)
            body.append(Decl(n, p, Alloc(W, Lit(rng.choice([I32, I64, U8]), m))))
            for i in range(m):
                roots.append((Index(Var(n, p), Lit(I32, i)), W))
            if rng.random() < 0.5:
                q = pg.nm('q')
                body.append(Decl(q, p, Addr(Index(Var(n, p), Lit(I32, m - 1)))))
                roots[-1] = (Var(q, p) if False else Deref(Var(q, p)), W)
    chosen = []
    for e, t in roots:
        out = []
        leaves(rng, e, t, out)
        chosen.append(out)
    every = [x for o in chosen for x in o]
    if not 1 <= len(every) <= 120:
        return None
    order = list(every)
    rng.shuffle(order)
    for x in order:
        body.append(Assign(x, lit(rng, x.t)))
    def show():
        xs = every if len(every) < 40 else rng.sample(every, 40)
        for i in range(0, len(xs), 6):
            body.append(Print(*xs[i:i + 6], ''))
    show()
    if rng.random() < 0.6:
        # copies of parts are independent
        e, t = rng.choice(roots)
        n = pg.nm('c')
        body.append(Decl(n, t, e))
        for x in rng.sample(every, min(len(every), 3)):
            body.append(Assign(x, lit(rng, x.t)))
        f, ft = rng.choice(fs)
        src = [r for r in roots if r[1] == t]
        body.append(Assign(e, Var(n, t)) if rng.random() < 0.5 else Assign(Var(n, t), rng.choice(src)[0]))
        pg.note('whole copies')
    for x in rng.sample(every, min(len(every), 3)):
        body.append(Assign(x, lit(rng, x.t)))
    show()
    pg.note('layouts filled and read')
    pg.note('scalars in them', len(every))
    return Case(pg.decls, Func('case_' + uid, [], [], body), [], {'cov': pg.cov})


def pointers(rng, uid):
    """Pointers to arrays and structs, computed in every way, indexed and dereferenced."""
    pg = PG(rng, uid, types=rng.sample(INTS, 3) + [I8, rng.choice(FLTS)])

    def make(d):
        r = rng.random()
        if d <= 0:
            return rng.choice(pg.scal)
        if r < 0.6:
            return Arr(rng.randint(2, 3), make(d - 1))
        s = Struct(pg.nm('S'), [(pg.nm('f'), make(d - 1) if rng.random() < 0.4 else rng.choice(pg.scal)) for _ in range(rng.randint(1, 3))])
        pg.decls.append(s)
        return s

    E = make(rng.choice([1, 1, 2]))
    p, m = Ptr(E), rng.randint(2, 4)
    B = Arr(m, E)
    H = Struct(pg.nm('H'), [(pg.nm('k'), rng.choice(pg.scal)), (pg.nm('q'), p)])
    pg.decls.append(H)
    ident = Func(pg.nm('id'), [('x', p)], [p], [Return(Var('x', p))])
    byval = Func(pg.nm('v'), [('x', E)], [E], [Return(Var('x', E))])
    step = Func(pg.nm('st'), [('x', p), ('n', I32)], [p], [Return(Bin('+', Var('x', p), Var('n', I32)))])
    pg.decls += [ident, byval, step]

    def number(k):
        if k < 0:
            return rng.choice([lambda: Neg(Lit(I32, -k)), lambda: Lit(I32, k), lambda: Bin('-', Lit(I32, 0), Lit(I32, -k))])()
        return rng.choice([lambda: Lit(I32, k), lambda: Lit(rng.choice([I32, U8, I64, U32, U16, I8]), k), lambda: Bin('-', Lit(I32, k + 1), Lit(I32, 1))])()

    b, q = pg.nm('b'), pg.nm('p')
    full = []
    body = []
    if rng.random() < 0.6:
        body.append(Decl(b, B, ArrLit(B, [])))
        base = Var(b, B)
        body.append(Decl(q, p, Addr(Index(base, Lit(I32, 0)))))
    else:
        body.append(Decl(q, p, Alloc(E, Lit(I32, m))))
        base = Var(q, p)
    for i in range(m):
        out = []
        leaves(rng, Index(base, Lit(I32, i)), E, out)
        full += out
    if len(full) > 40:
        return None
    for x in full:
        body.append(Assign(x, lit(rng, x.t)))
    at = rng.randrange(m)
    if at:
        body.append(Assign(Var(q, p), rng.choice([Bin('+', Var(q, p), Lit(I32, at)), Addr(Index(base, Lit(I32, at)))])))
        if base.t == p:
            base, off = Var(q, p), at
        else:
            off = 0
    else:
        off = 0
    h, hs, pp = pg.nm('h'), pg.nm('hs'), pg.nm('pp')
    PA = Arr(2, p)
    o2 = [rng.randrange(m), rng.randrange(m)]
    body += [Decl(h, H, StructLit(H, [(H.fields[1][0], Var(q, p))])),
             Decl(hs, PA, ArrLit(PA, [Addr(Index(base, number(o - off))) for o in o2])), Decl(pp, Ptr(p), Addr(Var(q, p)))]

    def ptr(d):
        """(pointer to an element, its position)"""
        r = rng.randrange(15 if d else 6)
        k = rng.randrange(2)
        if r == 0:
            return Var(q, p), at
        if r == 1:
            o = rng.randrange(m)
            return Addr(Index(base, number(o - off))), o
        if r == 2:
            return Field(Var(h, H), H.fields[1][0]), at
        if r == 3:
            return Index(Var(hs, PA), Lit(I32, k)), o2[k]
        if r == 4:
            return Deref(Var(pp, Ptr(p))), at
        if r == 5:
            return Index(Var(pp, Ptr(p)), Lit(I32, 0)), at
        e, o = ptr(d - 1)
        t = rng.randrange(m)
        if r in (6, 7, 8):
            if t >= o:
                return Bin('+', e, number(t - o)), t
            return Bin('-', e, number(o - t)), t
        if r == 9:
            return Cast(e, p), o
        if r == 10:
            return Cast(Cast(e, Ptr(rng.choice([I8, I64]))), p), o
        if r == 11:
            return Call(ident, [e]), o
        if r == 12:
            return Call(step, [e, Lit(I32, t - o)]), t
        if r == 13:
            return BlockExpr(p, [Return(e)]), o
        return Addr(Index(e, number(t - o))), t

    def element():
        e, o = ptr(rng.choice([0, 1, 1, 2, 3]))
        pg.note('pointer: ' + type(e).__name__)
        if rng.random() < 0.25:
            return Deref(e), o
        t = rng.randrange(m)
        return Index(e, number(t - o)), t

    def part():
        x, _ = element()
        while isinstance(x.t, (Arr, Struct)):
            if isinstance(x.t, Struct):
                if isinstance(x, Deref) and rng.random() < 0.3:
                    x = x.e
                    x = Field(x, rng.choice(x.t.to.fields)[0])
                else:
                    x = Field(x, rng.choice(x.t.fields)[0])
            else:
                x = Index(x, number(rng.randrange(x.t.n)))
        return x

    def starts(x):
        """Whether an assignment may begin with it."""
        return place(x)[0] in '*(' or place(x)[0].isalpha()

    for _ in range(rng.randint(4, 9)):
        r = rng.random()
        if r < 0.45:
            body.append(Print(*[part() for _ in range(rng.randint(1, 4))], ''))
            continue
        if r < 0.7:
            x = part()
            if not starts(x):
                continue
            body.append(Assign(x, lit(rng, x.t) if rng.random() < 0.6 else rng.choice([y for y in [part() for _ in range(6)] if y.t == x.t] or [lit(rng, x.t)])))
        elif r < 0.8:
            x = element()[0]
            if not starts(x):
                continue
            body.append(Assign(x, element()[0] if rng.random() < 0.7 else Call(byval, [element()[0]])))
        elif r < 0.9:
            x = part()
            n = pg.nm('r')
            body += [Decl(n, Ptr(x.t), Addr(x)), Assign(Deref(Var(n, Ptr(x.t))), lit(rng, x.t))]
        else:
            n = pg.nm('c')
            body.append(Decl(n, E, element()[0]))
            out = []
            leaves(rng, Var(n, E), E, out)
            body.append(Print(*out[:6], ''))
    for i in range(0, len(full), 6):
        xs = full[i:i + 6]
        body.append(Print(*xs, ''))
    pg.note('pointers to aggregates')
    return Case(pg.decls, Func('case_' + uid, [], [], body), [], {'cov': pg.cov})


def big(rng, uid):
    """Structs with many fields, long arrays, many parameters."""
    pg = PG(rng, uid)
    body = []
    S = Struct(pg.nm('S'), [(pg.nm('f'), rng.choice(pg.scal)) for _ in range(rng.randint(12, 70))])
    pg.decls.append(S)
    A = Arr(rng.randint(100, 400), rng.choice([t for t in pg.scal if isinstance(t, Int)]))
    s, a = Var(pg.nm('s'), S), Var(pg.nm('a'), A)
    fs = [(f, lit(rng, t)) for f, t in S.fields if rng.random() < .9]
    rng.shuffle(fs)
    named = set(f for f, _ in fs)
    body += [Decl(s.name, S, StructLit(S, fs)), Decl(a.name, A, ArrLit(A, [lit(rng, A.el) for _ in range(A.n)]))]
    places = [Field(s, f) for f, _ in S.fields if f in named] + [Index(a, Lit(I32, i)) for i in range(A.n)]

    def show(n):
        xs = rng.sample(places, n)
        for i in range(0, n, 8):
            body.append(Print(*xs[i:i + 8], ''))
    show(60)
    for x in rng.sample(places, 12):
        body.append(Assign(x, lit(rng, x.t)))
    xs = rng.sample(places, rng.randint(8, 24))
    ps = [(pg.nm('p'), x.t) for x in xs]
    order = rng.sample(ps, len(ps))
    f = Func(pg.nm('m'), ps, [S], [Print(*[Var(*q) for q in order], '')] + [Return(s2) for s2 in [StructLit(S, [(f, lit(rng, t)) for f, t in S.fields])]])
    pg.decls.append(f)
    c = Var(pg.nm('c'), S)
    body.append(Decl(c.name, S, Call(f, xs)))
    body.append(Print(*[Field(c, f) for f, _ in S.fields], ''))
    show(60)
    pg.note('large aggregates')
    return Case(pg.decls, Func('case_' + uid, [], [], body), [], {'cov': pg.cov})


def gen(rng, uid):
    r = rng.random()
    if r < 0.03:
        return big(rng, uid)
    if r < 0.35:
        return layout(rng, uid)
    if r < 0.5:
        return pointers(rng, uid)
    pg = PG(rng, uid, structs=rng.randint(1, 4), unions=rng.choice([0, 0, 1, 2]), p_call=0.15, p_part=rng.choice([0, 0.1]), depth=2, budget=30, expr=1,
            print=3, decl=1, assign=5, aggdecl=5, aggassign=5, ptr=4, multidecl=1, multiassign=2, ifs=0.7, for3=0.7,
            forcond=0.5, forinf=0, switch=0.3, incdec=1.5, call=2)
    pg.add_globals(1)
    pt = list(pg.structs) + pg.scal[:2]
    pt = [t for t in pt if not isinstance(t, Union)]
    ptp = pt + [Ptr(t) for t in pt]
    for _ in range(rng.randint(1, 3)):
        pg.func(5, ptypes=ptp, ret=[rng.choice(pt) for _ in range(rng.choice([0, 1, 1, 2]))])
    c = pg.case(rng.randint(6, 12))
    return c


def body(ck):
    nb = ck.n(240, 2500)
    ck.pmap(core.generic_batch, [('C07', ck.seed, b, gen, 8, ('O0', 'O3')) for b in range(nb)] +
            [('C07', ck.seed, 100000 + b, gen, 8, ('asan', 'msan')) for b in range(nb // 6)])


if __name__ == '__main__':
    core.main('C07', 'random nested structs, unions, arrays and pointers: literals, copies, parts read and written through every '
              'path, passing and returning by value and by pointer; memory must hold what the interpreter\'s memory holds', body)
