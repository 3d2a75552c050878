"""C09: @alloc, @realloc, @free and the memory compiled programs touch."""
import random

from vf import core
from vf.gen import *


class HG:
    """Straight-line histories of heap operations; what is live, and how long
    it is, is known while they are generated."""

    def __init__(self, rng, uid):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.cov = {}
        self.decls, self.globals = [], []
        self.types = []
        self.live = []            # [expr of pointer, elem type, count, assignable]
        self.scal = list(dict.fromkeys([I32] + rng.sample(INTS, 3) + rng.sample(FLTS, 1)))
        self.ints = [t for t in self.scal if isinstance(t, Int)]
        for _ in range(rng.randint(1, 3)):
            fs = []
            for _ in range(rng.randint(1, 5)):
                r = rng.random()
                t = rng.choice(self.scal)
                if r < 0.2:
                    t = Arr(rng.randint(1, 4), t)
                elif r < 0.35 and self.types:
                    t = rng.choice(self.types)
                elif r < 0.45:
                    t = Ptr(t)
                fs.append((self.nm('f'), t))
            s = Struct(self.nm('S'), fs)
            self.types.append(s)
            self.decls.append(s)

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    # the parts of a value that hold scalars
    def leaves(self, e, t, out):
        if isinstance(t, (Int, Flt)):
            out.append(e)
        elif isinstance(t, Struct):
            for f, ft in t.fields:
                self.leaves(Field(e, f), ft, out)
        elif isinstance(t, Arr):
            for i in range(t.n):
                self.leaves(Index(e, Lit(I32, i)), t.el, out)

    def fill(self, p, t, a, b, body):
        """Write elements a..b-1."""
        rng = self.rng
        if b <= a:
            return
        if b - a > 2 or rng.random() < 0.5:
            i = self.nm('i')
            it = rng.choice([x for x in (I32, I64, U32, U8, I16) if b <= x.hi])
            v = Var(i, it)
            b2 = []
            ls = []
            self.leaves(Index(p, v), t, ls)
            if not ls:
                return
            for l in ls:
                x = Cast(v, l.t) if l.t != it else v
                b2.append(Assign(l, Bin(rng.choice(['+', '-', '*']), x, lit(rng, l.t) if isinstance(l.t, Int) else Lit(l.t, 1.5))))
            body.append(For(b2, Bin('<', v, Lit(it, b)), Decl(i, it, Lit(it, a)), ExprS(IncDec('++', v))))
        else:
            for k in range(a, b):
                ls = []
                at = Index(p, Lit(rng.choice([I32, I64, U16]), k))
                if k == 0 and rng.random() < 0.5:
                    at = Deref(p)
                self.leaves(at, t, ls)
                for l in ls:
                    body.append(Assign(l, lit(rng, l.t)))

    def show(self, p, t, n, body):
        """Print every element."""
        rng = self.rng
        if n == 0:
            return
        if n > 4:
            i = self.nm('i')
            v = Var(i, I32)
            ls = []
            self.leaves(Index(p, v), t, ls)
            if ls:
                body.append(For([Print(*ls[:12], ',')], Bin('<', v, Lit(I32, n)), Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', v))))
            return
        for k in range(n):
            ls = []
            self.leaves(Index(p, Lit(I32, k)), t, ls)
            if ls:
                body.append(Print(*ls[:12], ','))

    def count(self, n, body):
        """An expression of n elements."""
        rng = self.rng
        t = rng.choice([I32, I32, I64, U32, U64, I16, U8, U8, I8, U16])
        if n > t.hi:
            t = I32
        r = rng.random()
        if r < 0.6:
            return Lit(t, n)
        v = self.nm('n')
        body.append(Decl(v, t, Lit(t, n)))
        return Var(v, t)

    def realcount(self, n, body):
        t = self.rng.choice([I32, I64, I16, I8])
        if n > t.hi:
            t = I32
        if self.rng.random() < 0.6:
            return Lit(t, n)
        v = self.nm('n')
        body.append(Decl(v, t, Lit(t, n)))
        return Var(v, t)

    def elem(self):
        rng = self.rng
        r = rng.random()
        if r < 0.45:
            return rng.choice(self.scal)
        if r < 0.85:
            return rng.choice(self.types)
        return Arr(rng.randint(1, 4), rng.choice(self.scal))

    def new(self, body, t=None):
        rng = self.rng
        t = t or self.elem()
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 17, rng.randint(1, 60)])
        if t.size <= 8 and rng.random() < 0.08:
            n = rng.randint(128, 300)
        v = self.nm('p')
        pt = Ptr(t)
        body.append(Decl(v, pt, Alloc(t, self.count(n, body)), typed=rng.random() < 0.3))
        p = Var(v, pt)
        self.fill(p, t, 0, n, body)
        self.live.append([p, t, n])
        self.note('@alloc')
        return self.live[-1]

    def step(self, body):
        rng = self.rng
        r = rng.random()
        if r < 0.2 or not self.live:
            self.new(body)
        elif r < 0.4:
            x = rng.choice(self.live)
            p, t, n = x
            m = rng.choice([n + 1, n * 2 + 1, max(1, n // 2), max(1, n - 1), n + rng.randint(0, 40), 1])
            body.append(Assign(p, Realloc(p, self.realcount(m, body))))
            self.fill(p, t, n, m, body)
            x[2] = m
            self.note('@realloc ' + ('grows' if m > n else 'shrinks' if m < n else 'same'))
            self.show(p, t, m, body)
        elif r < 0.5:
            x = rng.choice(self.live)
            self.show(*x, body)
            body.append(Free(x[0]))
            self.live.remove(x)
            self.note('@free')
        elif r < 0.6:
            # through an alias
            x = rng.choice(self.live)
            p, t, n = x
            if not n:
                return
            k = rng.randrange(n)
            q = self.nm('q')
            e = Bin('+', p, Lit(rng.choice([I32, I64]), k)) if rng.random() < 0.6 else Addr(Index(p, Lit(I32, k)))
            body.append(Decl(q, Ptr(t), e))
            self.fill(Var(q, Ptr(t)), t, 0, n - k, body)
            self.show(p, t, n, body)
            self.note('alias into a block')
        elif r < 0.68:
            # whole elements between blocks
            a, b = rng.choice(self.live), rng.choice(self.live)
            if a[1] != b[1]:
                b = self.new(body, a[1])
            if a[2] and b[2]:
                i, j = rng.randrange(a[2]), rng.randrange(b[2])
                body.append(Assign(Index(a[0], Lit(I32, i)), Index(b[0], Lit(I32, j))))
                self.show(*a, body)
                self.note('element copied between blocks')
        elif r < 0.76:
            # a list
            k = rng.randint(1, 6)
            t = rng.choice(self.scal)
            N = Struct(self.nm('N'), None)
            pn = Ptr(N)
            order = [('v', t), ('next', pn)] if rng.random() < 0.5 else [('next', pn), ('pad', I8), ('v', t)]
            N.set(order)
            self.decls.append(N)
            h, i, c, x = self.nm('h'), self.nm('i'), self.nm('c'), self.nm('x')
            H, I, Cc, X = Var(h, pn), Var(i, I32), Var(c, pn), Var(x, pn)
            null = Null(pn)
            body.append(Decl(h, pn, null))
            body.append(For([
                Decl(c, pn, Alloc(N, Lit(I32, 1))),
                Assign(Field(Cc, 'v'), Bin('*', Cast(I, t) if t != I32 else I, lit(rng, t) if isinstance(t, Int) else Lit(t, 2.5))),
                Assign(Field(Cc, 'next'), H),
                Assign(H, Cc)], Bin('<', I, Lit(I32, k)), Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', I))))
            loop = [Print(Field(X, 'v'), ',')]
            body.append(For(loop, Bin('!=', Cast(X, I64), Lit(I64, 0)), Decl(x, pn, H), Assign(X, Field(X, 'next'))))
            d = self.nm('d')
            body.append(For([Decl(d, pn, H), Assign(H, Field(H, 'next')), Free(Var(d, pn))], Bin('!=', Cast(H, I64), Lit(I64, 0))))
            self.note('linked list')
        elif r < 0.84:
            # blocks of pointers to blocks
            t = self.elem()
            k, n = rng.randint(1, 4), rng.randint(1, 4)
            pp, i = self.nm('m'), self.nm('i')
            P, I = Var(pp, Ptr(Ptr(t))), Var(i, I32)
            body.append(Decl(pp, Ptr(Ptr(t)), Alloc(Ptr(t), Lit(I32, k))))
            body.append(For([Assign(Index(P, I), Alloc(t, Lit(I32, n)))], Bin('<', I, Lit(I32, k)), Decl(i, I32, Lit(I32, 0)),
                            ExprS(IncDec('++', I))))
            for a in range(k):
                self.fill(Index(P, Lit(I32, a)), t, 0, n, body)
            for a in range(k):
                self.show(Index(P, Lit(I32, a)), t, n, body)
            body.append(For([Free(Index(P, I))], Bin('<', I, Lit(I32, k)), Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', I))))
            body.append(Free(P))
            self.note('blocks of pointers')
        elif r < 0.92:
            # allocated and freed in a loop and in a function
            t = rng.choice(self.scal)
            n = rng.randint(1, 9)
            f = Func(self.nm('mk'), [('n', I32), ('v', t)], [Ptr(t)], [
                Decl('r', Ptr(t), Alloc(t, Var('n', I32))),
                For([Assign(Index(Var('r', Ptr(t)), Var('i', I32)), Var('v', t))], Bin('<', Var('i', I32), Var('n', I32)),
                    Decl('i', I32, Lit(I32, 0)), ExprS(IncDec('++', Var('i', I32)))),
                Return(Var('r', Ptr(t)))])
            self.decls.append(f)
            i, q = self.nm('i'), self.nm('q')
            body.append(For([
                Decl(q, Ptr(t), Call(f, [Bin('+', Var(i, I32), Lit(I32, 1)), lit(rng, t)])),
                Print(Index(Var(q, Ptr(t)), Var(i, I32)), ','), Free(Var(q, Ptr(t)))],
                Bin('<', Var(i, I32), Lit(I32, n)), Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', Var(i, I32)))))
            self.note('block returned from a function')
        else:
            # a block owned by a struct, resized through a pointer to it
            t = rng.choice(self.scal)
            S = Struct(self.nm('B'), [('len', I32), ('data', Ptr(t)), ('cap', rng.choice([I32, I64]))])
            self.decls.append(S)
            p = Var('b', Ptr(S))
            ct = S.ft['cap']
            f = Func(self.nm('add'), [('b', Ptr(S)), ('v', t)], [], [
                If([(Bin('>=', Cast(Field(p, 'len'), ct) if ct != I32 else Field(p, 'len'), Field(p, 'cap')), [
                    Assign(Field(p, 'cap'), Bin('+', Bin('*', Field(p, 'cap'), Lit(ct, 2)), Lit(ct, 1))),
                    Assign(Field(p, 'data'), Realloc(Field(p, 'data'), Field(p, 'cap')))])]),
                Assign(Index(Field(p, 'data'), Field(p, 'len')), Var('v', t)),
                Assign(Field(p, 'len'), Bin('+', Field(p, 'len'), Lit(I32, 1)))])
            self.decls.append(f)
            v, i = self.nm('b'), self.nm('i')
            cap = rng.randint(0, 3)
            body.append(Decl(v, S, StructLit(S, [('len', Lit(I32, 0)), ('data', Alloc(t, Lit(I32, cap))), ('cap', Lit(ct, cap))])))
            V = Var(v, S)
            k = rng.randint(1, 12)
            x = Cast(Var(i, I32), t) if t != I32 else Var(i, I32)
            body.append(For([ExprS(Call(f, [Addr(V), Bin('+', x, Lit(t, 3 if isinstance(t, Int) else 3.5))]))],
                            Bin('<', Var(i, I32), Lit(I32, k)), Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', Var(i, I32)))))
            self.show(Field(V, 'data'), t, k, body)
            body.append(Print(Field(V, 'len'), Field(V, 'cap'), ''))
            self.note('growing block of a struct')


def gen(rng, uid):
    g = HG(rng, uid)
    body = []
    for _ in range(rng.randint(3, 9)):
        g.step(body)
    for x in g.live:
        g.show(*x, body)
    for x in g.live:
        if rng.random() < 0.5:
            body.append(Free(x[0]))
    return Case(g.decls, Func('case_' + uid, [], [], body), g.globals, {'cov': g.cov})


def big(seed, b):
    """Blocks of more bytes than 31 or 32 bits count."""
    rng = random.Random('C09:big:%d:%d' % (seed, b))
    name, size, leaf = rng.choice([('i8', 1, ''), ('u16', 2, ''), ('i32', 4, ''), ('i64', 8, ''), ('f64', 8, ''), ('[5]i16', 10, '[3]'), ('Big', 24, '.b'), ('*Big', 8, '')])
    n = rng.randint(9 << 28, 5 << 29) // size
    m = n + rng.choice([0, 1, (1 << 28) // size])

    def num(k, signed=False):
        t = rng.choice((['i32'] if k < 1 << 31 else []) + (['i64'] if signed else ['u32', 'i64', 'u64']))
        return rng.choice(['%d as %s' % (k, t), 'n_%s(%d as i64)' % (t, k)])

    val = {'f64': ('2.5 as f64', '2.500'), '*Big': None, 'i8': ('7 as i8', '7'), 'u16': ('60000 as u16', '60000'), 'i32': ('-70000', '-70000'), 'i64': ('-70000 as i64', '-70000'),
           '[5]i16': ('-7 as i16', '-7'), 'Big': ('5000000000', '5000000000')}[name]
    src = 'struct Big { a i32 b i64 c i8 }\n'
    for t in ('i32', 'u32', 'i64', 'u64'):
        src += 'func n_%s(n i64) %s { return n as %s; }\n' % (t, t, t)
    src += 'func main() i32 {\n  @print("\\n#0\\n");\n  y := @Big{a: 1, b: 2 as i64, c: 3 as i8};\n'
    src += '  p := @alloc(%s, %s);\n' % (name, num(n))
    v = '&y' if val is None else val[0]
    src += '  p[%s]%s = %s;\n  p[0]%s = %s;\n' % (num(n - 1), leaf, v, leaf, v)
    src += '  p = @realloc(p, %s);\n  p[%s]%s = %s;\n' % (num(m, True), num(m - 1), leaf, v)
    out = ''
    for k in (n - 1, 0, m - 1):
        src += '  @print(p[%s]%s%s, "");\n' % (num(k), leaf, '.b' if val is None else '')
        out += ('2' if val is None else val[1]) + ' '
    src += '  @free(p);\n  @print("\\n#end\\n");\n  return 0;\n}\n'
    f = core.check_program(src, [out.encode()], ('O0', 'O3', 'asan'))
    return {'evals': 3, 'sigs': [core.sig(src)], 'cov': {'block of more than 2^31 bytes': 1}, 'fails': [f] if f else [], 'samples': []}


def released(seed, b):
    """Blocks that together are more than the memory of the process, one at a time."""
    rng = random.Random('C09:released:%d:%d' % (seed, b))
    name, size = rng.choice([('i8', 1), ('i64', 8), ('f64', 8), ('*i32', 8), ('**i8', 8), ('*S', 8), ('**S', 8), ('S', 24), ('[4]i16', 8), ('*[4]i16', 8)])
    n = 65536 // size
    form = rng.choice(['@free(p);', 'h := @H{x: 1 as i8, p: p}; @free(h.p);', 'a := [2]*T{p, p}; @free(a[1]);', 'q := &p; @free(*q);',
                       'drop(p);', '@free(same(p));', 'q := p; if i % 2 == 0 { @free(q); } else { @free(p); }'])
    src = 'struct S { a i32 b i64 c i8 }\nstruct H { x i8 p *T }\n'
    src += 'func drop(p *T) { @free(p); }\nfunc same(p *T) *T { return p; }\n'
    src += 'func main() i32 {\n  @print("\\n#0\\n");\n  none := 0;\n  for i := 0; i < 80000; i = i + 1 {\n'
    src += '    p := @alloc(T, %d);\n' % n
    if rng.random() < 0.4:
        src += '    p = @realloc(p, %d);\n' % (n + rng.randint(1, n))
    src += '    if (p as i64) == (0 as i64) { none = none + 1; }\n    %s\n  }\n' % form
    src += '  @print("null:", none);\n  @print("\\n#end\\n");\n  return 0;\n}\n'
    src = src.replace('*T', '*' + name).replace('(T,', '(%s,' % name)
    f = core.check_program(src, [b'null: 0'], ('O0',))
    return {'evals': 1, 'sigs': [core.sig(src)], 'cov': {'80000 blocks of 64 KB': 1}, 'fails': [f] if f else [], 'samples': []}


def body(ck):
    ck.pmap(released, [(ck.seed, b) for b in range(ck.n(48, 300))])
    ck.pmap(big, [(ck.seed, b) for b in range(ck.n(24, 200))])
    nb = ck.n(200, 3000)
    ck.pmap(core.generic_batch, [('C09', ck.seed, b, gen, 10, ('asan', 'O3')) for b in range(nb)])
    ck.assumptions = ['histories only touch live blocks within their length: a report of AddressSanitizer is the fault of the emitted code']


if __name__ == '__main__':
    core.main('C09', 'random histories of @alloc, @realloc, @free and accesses through pointers, aliases, lists, blocks of pointers and '
              'structs that own blocks; output must equal the interpreter\'s and AddressSanitizer must stay silent', body)
