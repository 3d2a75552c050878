"""Random generation of well-typed expressions and values."""
from . import lang
from .lang import *

BOUNDARY = {}


def int_value(rng, t):
    r = rng.random()
    if t.bits == 1:
        return rng.randrange(2)
    if t.bits >= 32 and r < 0.06:
        # at and next to the middle of two neighbouring floats
        m = rng.choice([24, 24, 53]) if t.bits == 64 else 24
        k = rng.randrange(m, t.bits) if rng.random() < .5 else rng.randrange(t.bits - 7, t.bits)
        return t.wrap(rng.choice([1, -1]) * ((((1 << (m - 1)) + rng.choice([0, 1, rng.randrange(1 << (m - 1))])) << (k - m + 1)) + (1 << (k - m)) + rng.choice([-1, 0, 1])))
    if r < 0.35:
        return t.wrap(rng.choice([0, 1, 2, -1, t.lo, t.hi, t.hi - 1, t.lo + 1, t.hi // 2, t.hi // 2 + 1]))
    if r < 0.7:
        return t.wrap(rng.randint(-20, 100))
    if r < 0.85:
        return t.wrap(rng.choice([-1, 0, 1]) + (1 << rng.randrange(t.bits)))
    return rng.randint(t.lo, t.hi)


def flt_value(rng, t):
    r = rng.random()
    if lang.IEEE and r < 0.04:
        return F32.round(rng.choice([1, -1]) * rng.choice([1e38, 3e38, 3.4028235e38, 1e30]))
    if r < 0.3:
        return float(rng.choice([0, 1, -1, 2, 0.5, -0.5, 0.25, 100, -3]))
    if r < 0.8:
        return rng.randint(-4000, 4000) / 8.0
    if t.bits == 64 and r < 0.9:
        # a literal is an f32 before it is cast
        return F32.round(rng.randint(-10 ** 9, 10 ** 9) / 1024.0)
    return F32.round(rng.randint(-100000, 100000) / 64.0)


def value(rng, t):
    return int_value(rng, t) if isinstance(t, Int) else flt_value(rng, t)


def lit(rng, t):
    return Lit(t, value(rng, t))


def nonzero(rng, t):
    while True:
        v = value(rng, t)
        if v != 0 and v != -1:
            return Lit(t, v)


def has_body(e):
    """Whether a block expression or anonymous function is part of e."""
    if isinstance(e, (Lambda, BlockExpr)):
        return True
    if isinstance(e, (list, tuple)):
        return any(has_body(x) for x in e)
    return isinstance(e, E) and any(has_body(x) for x in vars(e).values())


class Exprs:
    """Expressions over a set of operands (by type)."""

    def __init__(self, rng, operands, calls=None, ops=None, casts=True, floats=True, types=None, i1=True):
        self.rng = rng
        self.by = {}
        for o in operands:
            self.by.setdefault(o.t, []).append(o)
        self.calls = calls or {}
        self.casts = casts
        self.types = types or (INTS + (FLTS if floats else []))
        self.count = {}
        self.paren = 0.0
        self.allow_i1 = i1

    def note(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def leaf(self, t):
        rng = self.rng
        vs = self.by.get(t)
        if vs and rng.random() < 0.75:
            return rng.choice(vs)
        return lit(rng, t)

    def gen(self, t, d):
        rng = self.rng
        e = self._gen(t, d)
        if self.paren and rng.random() < self.paren:
            e = Paren(e)
        return e

    def _gen(self, t, d):
        rng = self.rng
        if d <= 0 or rng.random() < 0.1:
            return self.leaf(t)
        if t == I1:
            return self.boolean(d)
        r = rng.random()
        if self.casts and r < 0.12:
            # integer casts never lose definedness
            src = rng.choice([x for x in INTS if x != t]) if isinstance(t, Int) else \
                (rng.choice(INTS + [f for f in FLTS if f != t]))
            if rng.random() < 0.05 and self.allow_i1:
                src = I1
            self.note('cast %s->%s' % (src.src(), t.src()))
            return Cast(self.gen(src, d - 1), t)
        if r < 0.2:
            self.note('neg ' + t.src())
            return Neg(self.gen(t, d - 1))
        if isinstance(t, Flt):
            op = rng.choice('+-*/' if rng.random() < 0.9 else '%')
            self.note('%s %s' % (t.src(), op))
            if op in '/%' and not (lang.IEEE is True and rng.random() < .7):
                return Bin(op, self.gen(t, d - 1), nonzero(rng, t))
            return Bin(op, self.gen(t, d - 1), self.gen(t, d - 1))
        op = rng.choice(['+', '-', '*', '+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
        self.note('%s %s' % (t.src(), op))
        l = self.gen(t, d - 1)
        if op in '/%':
            if rng.random() < 0.5:
                r = nonzero(rng, t)
            elif t.signed:
                r = Bin('|', Bin('&', self.gen(t, d - 1), Lit(t, t.hi)), Lit(t, rng.choice([1, 2, 3, 4])))
            else:
                r = Bin('|', self.gen(t, d - 1), Lit(t, rng.choice([1, 2, 3, 4])))
            return Bin(op, l, r)
        if op in ('<<', '>>'):
            return Bin(op, l, self.shift_amount(t, d))
        return Bin(op, l, self.gen(t, d - 1))

    def shift_amount(self, t, d):
        rng = self.rng
        st = t if t.signed else Int(t.bits, True)
        if rng.random() < 0.6:
            return Lit(st, rng.choice([0, 1, t.bits - 1, rng.randrange(t.bits)]))
        return Bin('&', self.gen(st, d - 1), Lit(st, t.bits - 1))

    def boolean(self, d):
        rng = self.rng
        r = rng.random()
        if d > 1 and r < 0.3:
            op = rng.choice(['&&', '||'])
            self.note('bool ' + op)
            return Bin(op, self.gen(I1, d - 1), self.gen(I1, d - 1))
        if d > 1 and r < 0.4:
            self.note('bool !')
            return Not(self.gen(I1, d - 1))
        t = rng.choice(self.types)
        op = rng.choice(CMP)
        self.note('%s %s' % (t.src(), op))
        l = self.gen(t, d - 1)
        if rng.random() < 0.2 and not has_body(l):
            # (anonymous functions keep what they captured per occurrence in the source)
            return Bin(op, l, l)
        return Bin(op, l, self.gen(t, d - 1))


class Names:
    def __init__(self, uid):
        self.uid = uid
        self.n = 0

    def __call__(self, base='v'):
        self.n += 1
        return '%s%d_%s' % (base, self.n, self.uid)


def operands(rng, nm, types, decls, body, params=None):
    """Declare operands of each type in different kinds of places. Appends
    declarations to decls (top level) and body (statements); returns lvalue and
    rvalue expressions."""
    out = []
    globals_ = []
    st_fields = []
    for t in types:
        for _ in range(rng.choice([1, 2, 2, 3])):
            v = value(rng, t)
            kind = rng.choice(['local', 'local', 'field', 'elem', 'deref', 'call', 'global', 'typed', 'param', 'heap'])
            n = nm('v')
            if kind == 'local' or kind == 'typed':
                body.append(Decl(n, t, Lit(t, v), typed=kind == 'typed'))
                out.append(Var(n, t))
            elif kind == 'field':
                st_fields.append((n, t, v))
            elif kind == 'elem':
                k = rng.randint(1, 4)
                i = rng.randrange(k)
                vals = [Lit(t, v if j == i else value(rng, t)) for j in range(k)]
                body.append(Decl(n, Arr(k, t), ArrLit(Arr(k, t), vals)))
                out.append(Index(Var(n, Arr(k, t)), Lit(I32, i)))
            elif kind == 'deref':
                body.append(Decl(n, t, Lit(t, v)))
                p = nm('p')
                body.append(Decl(p, Ptr(t), Addr(Var(n, t))))
                out.append(Deref(Var(p, Ptr(t))))
            elif kind == 'heap':
                body.append(Decl(n, Ptr(t), Alloc(t, Lit(I32, 2))))
                body.append(Assign(Index(Var(n, Ptr(t)), Lit(I32, 1)), Lit(t, v)))
                out.append(Index(Var(n, Ptr(t)), Lit(I32, 1)))
            elif kind == 'call':
                f = Func(nm('f'), [], [t], [Return(Lit(t, v))])
                decls.append(f)
                out.append(Call(f, []))
            elif kind == 'global':
                globals_.append(Decl(n, t, Lit(t, v), typed=rng.random() < 0.5))
                out.append(Var(n, t))
            elif kind == 'param':
                if params is None:
                    body.append(Decl(n, t, Lit(t, v)))
                else:
                    params.append((n, t, Lit(t, v)))
                out.append(Var(n, t))
    if st_fields:
        rng.shuffle(st_fields)
        S = Struct('S_' + nm.uid, [(n, t) for n, t, _ in st_fields])
        decls.append(S)
        n = nm('s')
        body.append(Decl(n, S, StructLit(S, [(f, Lit(t, v)) for f, t, v in st_fields])))
        base = Var(n, S)
        if rng.random() < 0.3:
            p = nm('p')
            body.append(Decl(p, Ptr(S), Addr(base)))
            base = Var(p, Ptr(S))
        for f, t, _ in st_fields:
            out.append(Field(base, f))
    return out, globals_
