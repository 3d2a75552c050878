"""C02: conversions between types."""
from vf import core, lang
from vf.gen import *

lang.IEEE = True

ALL = [I1] + INTS + FLTS


def convertible(rng, f, t):
    """A value of f whose conversion to t is defined."""
    for _ in range(200):
        v = value(rng, f)
        if isinstance(f, Flt):
            v = F32.round(v)
            if rng.random() < 0.3:
                v = F32.round(v * 3.7)
            if v - v != 0:
                continue
        try:
            convert(f, t, v)
            return v
        except UB:
            pass
    return 0 if isinstance(f, Int) else 1.0


def place(rng, nm, t, v, decls, body, gl):
    """An expression of type t with value v."""
    n = nm('v')
    l = Lit(t, v)
    k = rng.choice(['lit', 'local', 'global', 'field', 'elem', 'call', 'deref', 'const', 'param'])
    if k == 'local':
        body.append(Decl(n, t, l))
        return Var(n, t)
    if k == 'global':
        gl.append(Decl(n, t, l))
        return Var(n, t)
    if k == 'const':
        (gl if rng.random() < 0.5 else body).append(ConstDecl(n, t, l))
        return Const(n, t, v)
    if k == 'field':
        S = Struct('S' + n, [('z', I8), ('f', t)])
        decls.append(S)
        body.append(Decl(n, S, StructLit(S, [('z', Lit(I8, 7)), ('f', l)])))
        return Field(Var(n, S), 'f')
    if k == 'elem':
        a = Arr(3, t)
        body.append(Decl(n, a, ArrLit(a, [Lit(t, value(rng, t)), Lit(t, value(rng, t)), l])))
        return Index(Var(n, a), Lit(I32, 2))
    if k == 'call':
        f = Func(nm('f'), [], [t], [Return(l)])
        decls.append(f)
        return Call(f, [])
    if k == 'param':
        f = Func(nm('f'), [('x', t)], [t], [Return(Var('x', t))])
        decls.append(f)
        return Call(f, [l])
    if k == 'deref':
        body.append(Decl(n, t, l))
        return Deref(Addr(Var(n, t)))
    return l


def show(e):
    """Print a converted value, also in ways that expose its upper bits."""
    return e


def gen(rng, uid):
    nm = Names(uid)
    decls, body, gl, cov = [], [], [], {}
    for _ in range(rng.randint(3, 6)):
        f, t = rng.choice(ALL), rng.choice(ALL)
        v = convertible(rng, f, t)
        e = place(rng, nm, f, v, decls, body, gl)
        chain = Cast(e, t)
        cov['%s->%s' % (f.src(), t.src())] = 1
        if rng.random() < 0.35:
            t2 = rng.choice(ALL)
            chain = Cast(chain, t2)
        r = rng.random()
        if r < 0.4:
            body.append(Print(chain, ''))
        elif r < 0.6:
            n = nm('r')
            body.append(Decl(n, chain.t, chain))
            body.append(Print(Var(n, chain.t), ''))
        elif r < 0.75 and isinstance(chain.t, Int) and chain.t.bits < 64:
            # the bits above the width must not take part in what follows
            wide = I64 if chain.t.signed else U64
            n = nm('r')
            body.append(Decl(n, chain.t, chain))
            body.append(Print(Cast(Bin('+', Var(n, chain.t), Lit(chain.t, 1)), wide), ''))
            body.append(Print(Cast(Var(n, chain.t), I64), Cast(Var(n, chain.t), U64), Cast(Var(n, chain.t), F64), ''))
        elif r < 0.85:
            body.append(Print(Bin(rng.choice(CMP), chain, Lit(chain.t, value(rng, chain.t))), ''))
        else:
            f = Func(nm('g'), [('x', chain.t)], [chain.t], [Return(Var('x', chain.t))])
            decls.append(f)
            body.append(Print(Call(f, [chain]), ''))
    if rng.random() < 0.5:
        # pointers: reinterpret memory, round trip through an integer, an array as a pointer
        t = rng.choice(INTS + FLTS)
        k = rng.randint(1, 5)
        a = Arr(k, t)
        n, p = nm('a'), nm('p')
        body.append(Decl(n, a, ArrLit(a, [lit(rng, t) for _ in range(k)])))
        i = rng.randrange(k)
        body.append(Decl(p, Ptr(t), Cast(Var(n, a), Ptr(t)) if False else ArrPtr(Var(n, a))))
        body.append(Print(Index(Var(p, Ptr(t)), Lit(I32, i)), Deref(Bin('+', Var(p, Ptr(t)), Lit(I32, i))), ''))
        q = nm('q')
        via = rng.choice([U64, I64, None])
        if via:
            body.append(Decl(q, via, Cast(Var(p, Ptr(t)), via)))
            back = Cast(Var(q, via), Ptr(t))
        else:
            body.append(Decl(q, Ptr(U8), Cast(Var(p, Ptr(t)), Ptr(U8))))
            j = rng.randrange(k * t.size)
            body.append(Print(Index(Var(q, Ptr(U8)), Lit(I32, j)), ''))
            back = Cast(Var(q, Ptr(U8)), Ptr(t))
        body.append(Print(Index(Paren(back), Lit(I32, i)), ''))
        if rng.random() < 0.4:
            # the address of the array itself, also as the result of a call, is that of its first element
            pa = Ptr(a)
            f = Func(nm('f'), [('x', pa)], [pa], [Return(Var('x', pa))])
            decls.append(f)
            it = rng.choice([U64, I64])
            e = rng.choice([Call(f, [Addr(Var(n, a))]), Paren(Addr(Var(n, a)))])
            r = nm('r')
            body.append(Decl(r, it, Cast(e, it)))
            body.append(Print(Bin('==', Var(r, it), Paren(Cast(Var(p, Ptr(t)), it))), Index(Paren(Cast(Var(r, it), Ptr(t))), Lit(I32, i)), ''))
            cov['address of an array'] = 1
        cov['pointer round trip'] = 1
    return Case(decls, Func('case_' + uid, [], [], body), gl, {'cov': cov})


class ArrPtr(E):
    """array as *T"""
    prec = P_AS

    def __init__(self, e):
        self.e, self.t = e, Ptr(e.t.el)

    def s(self):
        return '%s as %s' % (self.e.at(P_AS), self.t.src())

    def ev(self, m):
        return self.e.addr(m)


def body(ck):
    nb = ck.n(450, 5000)
    ck.pmap(core.generic_batch, [('C02', ck.seed, b, gen, 24, ('O0', 'O3')) for b in range(nb)])
    ck.assumptions = ['a float outside the range of the integer it is cast to is undefined and not generated']


if __name__ == '__main__':
    core.main('C02', 'random chains of casts over every pair of numeric types (and pointers) from boundary values in every kind '
              'of place; non-trivial: every case casts, counted by distinct source', body)
