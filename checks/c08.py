"""C08: sizes, layout and calls as in C."""
import random

from vf import core
from vf.gen import *


# ------------------------------------------------------------ C source
def cname(t):
    if isinstance(t, Int):
        if t.bits == 1:
            return '_Bool'
        return '%sint%d_t' % ('' if t.signed else 'u', t.bits)
    if isinstance(t, Flt):
        return 'float' if t.bits == 32 else 'double'
    if isinstance(t, Void):
        return 'void'
    raise AssertionError(t)


def cdecl(t, n):
    """C declaration of n with type t."""
    if isinstance(t, Struct):
        return 'struct %s %s' % (t.name, n)
    if isinstance(t, Union):
        return 'union %s %s' % (t.name, n)
    if isinstance(t, Ptr):
        if isinstance(t.to, Arr):
            return cdecl(t.to, '(*%s)' % n)
        return cdecl(t.to, '*' + n)
    if isinstance(t, Arr):
        return cdecl(t.el, '%s[%d]' % (n, t.n))
    if isinstance(t, Fn):
        return cdecl(t.rets[0] if t.rets else VOID, '(*%s)(%s)' % (n, ', '.join(cdecl(p, '') for p in t.params) or 'void'))
    return '%s %s' % (cname(t), n)


def ctype(s):
    return '%s %s {\n%s};\n' % ('union' if isinstance(s, Union) else 'struct', s.name,
                                ''.join('  %s;\n' % cdecl(t, n) for n, t in s.fields))


def cx(e):
    if isinstance(e, Lit):
        if isinstance(e.t, Int):
            return '((%s)%s)' % (cname(e.t), '(-0x7fffffffffffffffLL-1)' if e.v == -(1 << 63) else
                                 '%dULL' % e.v if e.v >= 1 << 63 else '%dLL' % e.v)
        return '((%s)%s)' % (cname(e.t), repr(float(e.v)))
    if isinstance(e, Var):
        return e.name
    if isinstance(e, Field):
        return '%s%s%s' % (cx(e.e), '->' if isinstance(e.e.t, Ptr) else '.', e.f)
    if isinstance(e, Index):
        return '%s[%s]' % (cx(e.e), cx(e.i))
    if isinstance(e, Deref):
        return '(*%s)' % cx(e.e)
    if isinstance(e, Bin) and isinstance(e.t, Ptr):
        return '(%s + %s)' % (cx(e.l), cx(e.r))
    if isinstance(e, Bin):
        return '((%s)(%s %s %s))' % (cname(e.t), cx(e.l), e.op, cx(e.r))
    if isinstance(e, Cast):
        return '((%s)%s)' % (cname(e.t), cx(e.e))
    if isinstance(e, Call):
        f = e.fn.name if isinstance(e.fn, Func) else cx(e.fn)
        return '%s(%s)' % (f, ', '.join(cx(a) for a in e.args))
    if isinstance(e, Str):
        return '"%s"' % e.txt
    if isinstance(e, SizeOf):
        return '((int32_t)sizeof(%s))' % cdecl(e.of, '')
    if isinstance(e, OffsetOf):
        return '((int64_t)((char *)&%s - (char *)&%s))' % (cx(e.part), cx(e.base))
    raise AssertionError(e)


CF = {('i', 1): '%d', ('i', 8): '%d', ('u', 8): '%d', ('i', 16): '%d', ('u', 16): '%d', ('i', 32): '%d', ('u', 32): '%u',
      ('i', 64): '%lld', ('u', 64): '%llu'}


def cs(s):
    if isinstance(s, Print):
        f, a = [], []
        for e in s.es:
            if isinstance(e, Str):
                f.append('%s')
                a.append(cx(e))
            elif isinstance(e.t, Flt):
                f.append('%.3f')
                a.append('(double)' + cx(e))
            elif e.t == STR:
                f.append('%s')
                a.append('(char *)' + cx(e))
            else:
                f.append(CF[e.t.key()])
                a.append(('(long long)' if e.t.bits == 64 else '') + cx(e))
        return '  printf("%s"%s);\n' % (' '.join(f), ''.join(', ' + x for x in a))
    if isinstance(s, Assign):
        return '  %s = %s;\n' % (cx(s.l), cx(s.e))
    if isinstance(s, Decl):
        return '  %s = %s;\n' % (cdecl(s.t, s.name), cx(s.e))
    if isinstance(s, Return):
        return '  return %s;\n' % cx(s.es[0]) if s.es else '  return;\n'
    if isinstance(s, ExprS):
        return '  %s;\n' % cx(s.e)
    raise AssertionError(s)


def cfunc(f, body=True):
    ret = f.rets[0] if f.rets else VOID
    h = cdecl(ret, '%s(%s)' % (f.name, ', '.join(cdecl(t, n) for n, t in f.params) or 'void'))
    if not body:
        return h + ';\n'
    return h + ' {\n' + ''.join(cs(s) for s in f.body) + '}\n'


class OffsetOf(E):
    """Distance of a part from the beginning of a variable."""
    t = I64
    prec = P_ADD

    def __init__(self, part, base):
        self.part, self.base = part, base

    def s(self):
        return '(&%s as i64) - (&%s as i64)' % (self.part.at(P_PRE), self.base.at(P_PRE))

    def ev(self, m):
        return self.part.addr(m) - self.base.addr(m)


# ------------------------------------------------------------ generator
class IG:
    def __init__(self, rng, uid):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.cov = {}
        self.decls, self.c, self.types = [], [], []
        self.body = []

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    def scal(self):
        return self.rng.choice(INTS + FLTS + [I8, U8, I16, U16])

    def member(self, d=0):
        rng = self.rng
        r = rng.random()
        if r < (0.4 if d else 0.2) and self.types:
            return rng.choice(self.types)
        if r < (0.6 if d else 0.4) and d < 3:
            return Arr(rng.randint(1, 4), self.member(d + 1))
        if r < 0.48:
            return Ptr(self.scal())
        if r < 0.53:
            return Fn([self.scal() for _ in range(rng.randint(0, 2))], [self.scal()])
        if r < 0.57:
            return I1
        return self.scal()

    def aggregate(self):
        rng = self.rng
        if rng.random() < 0.22:
            ts = []
            for _ in range(rng.randint(1, 4)):
                t = self.member(1)
                if t not in ts and not isinstance(t, Union):
                    ts.append(t)
            t = Union(self.nm('U'), [(self.nm('m'), x) for x in ts or [I32]])
            self.note('union')
        else:
            t = Struct(self.nm('S'), [(self.nm('f'), self.member()) for _ in range(rng.randint(1, 6))])
            self.note('struct')
        self.types.append(t)
        self.decls.append(t)
        self.c.append(ctype(t))
        return t

    def leaves(self, e, t, out, inunion=False):
        if isinstance(t, (Int, Flt)):
            out.append(e)
        elif isinstance(t, Struct):
            for f, ft in t.fields:
                self.leaves(Field(e, f), ft, out, inunion)
        elif isinstance(t, Union):
            f, ft = self.rng.choice(t.fields)
            self.leaves(Field(e, f), ft, out, True)
        elif isinstance(t, Arr):
            for i in range(t.n):
                self.leaves(Index(e, Lit(I32, i)), t.el, out, inunion)

    def parts(self, e, t, out):
        out.append(e)
        if isinstance(t, (Struct, Union)):
            for f, ft in t.fields:
                self.parts(Field(e, f), ft, out)
        elif isinstance(t, Arr):
            self.parts(Index(e, Lit(I32, self.rng.randrange(t.n))), t.el, out)

    def extern(self, f):
        self.decls.append('extern func %s(%s) %s;\n' % (f.name, ', '.join(t.src() for _, t in f.params),
                                                       f.rets[0].src() if f.rets else 'void'))
        self.c.append(cfunc(f))

    def layout(self):
        rng = self.rng
        t = rng.choice(self.types) if rng.random() < 0.8 else Arr(rng.randint(1, 3), rng.choice(self.types))
        n = self.nm('v')
        v = Var(n, t)
        # sizes and offsets, as seen on both sides
        f = Func(self.nm('cz'), [], [], [Print(SizeOf(t), '')])
        self.extern(f)
        self.body += [Print(SizeOf(t), ''), ExprS(Call(f, []))]
        self.note('size')
        p = Var('p', Ptr(t))
        whole = Deref(p)
        ps = []
        self.parts(whole, t, ps)
        ps = ps[1:]
        rng.shuffle(ps)
        heap = Var(n, Ptr(t))
        self.body.append(Decl(n, Ptr(t), Alloc(t, Lit(I32, rng.randint(1, 3)))))
        hw = Deref(heap)
        if ps:
            sub = ps[:6]
            f = Func(self.nm('co'), [('p', Ptr(t))], [], [Print(*[OffsetOf(x, whole) for x in sub], '')])
            self.extern(f)
            g = Func(self.nm('go'), [('p', Ptr(t))], [], [Print(*[OffsetOf(x, whole) for x in sub], '')])
            self.decls.append(g)
            self.body += [ExprS(Call(f, [heap])), ExprS(Call(g, [heap]))]
            self.note('offsets')
        # one side writes, the other one reads
        ls = []
        self.leaves(whole, t, ls)
        if not ls:
            return
        for who in rng.sample(['c', 'candice', 'c'], 2):
            w = Func(self.nm('w'), [('p', Ptr(t))], [], [Assign(x, lit(rng, x.t)) for x in ls])
            r = Func(self.nm('r'), [('p', Ptr(t))], [], [Print(x, '') for x in ls])
            if who == 'c':
                self.extern(w)
                self.decls.append(r)
                self.note('written in C, read in candice')
            else:
                self.extern(r)
                self.decls.append(w)
                self.note('written in candice, read in C')
            self.body += [ExprS(Call(w, [heap])), ExprS(Call(r, [heap]))]

    def calls(self):
        """A C function with many parameters."""
        rng = self.rng
        ps = [(self.nm('p'), rng.choice(INTS + FLTS + [I1, I8, U8, I16, U16])) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12]))]
        ret = rng.choice([None] + INTS + FLTS + [I1, I8, U8])
        b = [Print(*[Var(n, t) for n, t in ps[:6]], '')]
        if ps[6:]:
            b.append(Print(*[Var(n, t) for n, t in ps[6:]], ''))
        # what the caller left above a narrow value must not count
        for n, t in ps:
            if isinstance(t, Int) and t.bits < 64:
                w = I64 if t.signed else U64
                b.append(Print(Bin('*', Cast(Var(n, t), w), Lit(w, 3)), ''))
        if ret:
            same = [Var(n, t) for n, t in ps if t == ret and t != I1]
            b.append(Return(Bin('+', rng.choice(same), lit(rng, ret)) if same and isinstance(ret, Int) else lit(rng, ret)))
        f = Func(self.nm('cf'), ps, [ret] if ret else [], b)
        self.extern(f)
        args = []
        for _, t in ps:
            r = rng.random()
            if r < 0.5 and isinstance(t, Int):
                # a value whose register holds more bits
                src = rng.choice([I64, I32, U64])
                n = self.nm('a')
                self.body.append(Decl(n, src, lit(rng, src)))
                args.append(Cast(Var(n, src), t))
            elif r < 0.8:
                n = self.nm('a')
                self.body.append(Decl(n, t, lit(rng, t)))
                args.append(Var(n, t))
            else:
                args.append(lit(rng, t))
        how = rng.random()
        fn = f
        if how < 0.25:
            n = self.nm('fp')
            self.body.append(Decl(n, f.type(), FnRef(f)))
            fn = Var(n, f.type())
            self.note('C function as a value')
        c = Call(fn, args)
        if ret is None:
            self.body.append(ExprS(c))
        elif isinstance(ret, Int) and ret.bits < 64:
            w = I64 if ret.signed else U64
            self.body.append(Print(Cast(c, w), ''))
        else:
            self.body.append(Print(c, ''))
        self.note('C function with %d parameters' % len(ps))

    def callback(self):
        """C calls functions of candice, given as a pointer or by name."""
        rng = self.rng
        ps = [(self.nm('p'), rng.choice(INTS + FLTS + [I1, I8, U8, I16, U16])) for _ in range(rng.choice([0, 1, 2, 4, 7, 10]))]
        ret = rng.choice(INTS + FLTS + [I1, I8, U8, U16])
        b = [Print(*[Var(n, t) for n, t in ps], '')] if ps else [Print('none')]
        for n, t in ps:
            if isinstance(t, Int) and t.bits < 64:
                w = I64 if t.signed else U64
                b.append(Print(Bin('-', Lit(w, 7), Cast(Var(n, t), w)), ''))
        ints = [(n, t) for n, t in ps if isinstance(t, Int) and t != I1]
        if isinstance(ret, Int) and ints and rng.random() < 0.6:
            n, t = rng.choice(ints)
            b.append(Return(Cast(Var(n, t), ret)))
        else:
            b.append(Return(lit(rng, ret)))
        kind = rng.choice(['pub', 'value', 'lambda'])
        self.note('C calls candice: ' + kind)
        args = [lit(rng, t) for _, t in ps]
        if kind == 'pub':
            f = Func(self.nm('pf'), ps, [ret], b)
            self.decls.append(PubFunc(f))
            self.c.append(cfunc(f, False))
            call = Call(f, args)
            params, vals = [], []
        else:
            f = Func(self.nm('vf'), ps, [ret], b)
            ft = f.type()
            call = Call(Var('f', ft), args)
            params = [('f', ft)]
            if kind == 'value':
                self.decls.append(f)
                vals = [FnRef(f)]
            else:
                x = self.nm('x')
                t = rng.choice(INTS)
                self.body.append(Decl(x, t, lit(rng, t)))
                f.body.insert(0, Print(Var(x, t), ''))
                f.captures = [(x, t)]
                vals = [Lambda(f)]
        wide = call
        if isinstance(ret, Int) and ret.bits < 64:
            wide = Cast(call, I64 if ret.signed else U64)
        k = Func(self.nm('ck'), params, [], [Print(wide, '')])
        self.extern(k)
        self.body.append(ExprS(Call(k, vals)))

    def variadic(self):
        rng = self.rng
        ts = [rng.choice(INTS + FLTS + [I1, STR]) for _ in range(rng.randint(1, 9))]
        f = self.nm('cv')
        pts = [rng.choice(INTS + FLTS) for _ in range(rng.randint(1, 3))]
        ps = [(self.nm('p'), t) for t in pts]
        c = 'int32_t %s(%s, ...) {\n  va_list l;\n  va_start(l, %s);\n' % (f, ', '.join(cdecl(t, n) for n, t in ps), ps[-1][0])
        c += cs(Print(*[Var(n, t) for n, t in ps], ''))
        for t in ts:
            if t == STR:
                c += '  printf("%s ", va_arg(l, char *));\n'
            elif isinstance(t, Flt):
                c += '  printf("%.3f ", va_arg(l, double));\n'
            elif t.bits < 32:
                c += '  printf("%d ", va_arg(l, int));\n'
            else:
                c += '  printf("%s ", %sva_arg(l, %s));\n' % (CF[t.key()], '(long long)' if t.bits == 64 else '', cname(t))
        c += '  va_end(l);\n  return 5;\n}\n'
        if isinstance(pts[-1], Flt) and pts[-1].bits == 32 or isinstance(pts[-1], Int) and pts[-1].bits < 32:
            ps.append((self.nm('p'), I32))
            pts.append(I32)
            return      # va_start is undefined after a parameter of a promoted type
        self.decls.append('extern func %s(%s, ..) i32;\n' % (f, ', '.join(t.src() for t in pts)))
        self.c.append(c)
        args = []
        for t in pts + ts:
            if t == STR:
                args.append(Str(rng.choice(['abc', '', 'x y', '%d'])))
            elif rng.random() < 0.5:
                n = self.nm('a')
                self.body.append(Decl(n, t, lit(rng, t)))
                args.append(Var(n, t))
            else:
                args.append(lit(rng, t))
        model = Func(f, [('p%d' % i, t) for i, t in enumerate(pts + ts)], [I32],
                     [Print(*[Var('p%d' % i, t) for i, t in enumerate(pts)], '')] +
                     [Print(Var('p%d' % (len(pts) + i), t), '') for i, t in enumerate(ts)] + [Return(Lit(I32, 5))])
        self.body.append(Print(Call(model, args), ''))
        self.note('variable arguments')

    def memory(self):
        """Arrays by pointer."""
        rng = self.rng
        t = self.scal()
        k = rng.randint(1, 5)
        n = self.nm('v')
        a = Arr(k, t)
        self.body.append(Decl(n, a, ArrLit(a, [lit(rng, t) for _ in range(k)])))
        p = Var('p', Ptr(t))
        i, j = rng.randrange(k), rng.randrange(k)
        f = Func(self.nm('cm'), [('p', Ptr(t))], [Ptr(t)],
                 [Print(*[Index(p, Lit(I32, x)) for x in range(k)], ''), Assign(Index(p, Lit(I32, i)), lit(rng, t)),
                  Return(Bin('+', p, Lit(I32, j)))])
        self.extern(f)
        q = self.nm('q')
        self.body += [Decl(q, Ptr(t), Call(f, [AsPtr(Var(n, a))])), Print(Deref(Var(q, Ptr(t))), '')]
        self.body.append(Print(*[Index(Var(n, a), Lit(I32, x)) for x in range(k)], ''))
        self.note('array by pointer')


class PubFunc:
    def __init__(self, f):
        self.f = f

    def decl(self):
        return 'pub ' + self.f.src()


class AsPtr(E):
    prec = P_AS

    def __init__(self, e):
        self.e, self.t = e, Ptr(e.t.el)

    def s(self):
        return '%s as %s' % (self.e.at(P_AS), self.t.src())

    def ev(self, m):
        return self.e.addr(m)


def gen(rng, uid):
    g = IG(rng, uid)
    for _ in range(rng.randint(1, 4)):
        g.aggregate()
    for _ in range(rng.randint(2, 4)):
        rng.choice([g.layout, g.layout, g.calls, g.calls, g.callback, g.variadic, g.memory])()
    return Case(g.decls, Func('case_' + uid, [], [], g.body), [], {'cov': g.cov, 'c': ''.join(g.c)})


def declared_again(seed, b):
    """Every file declares the same functions of C, with types of its own."""
    rng = random.Random('C08:again:%d:%d' % (seed, b))
    texts, out = [], []
    for k in range(rng.randint(2, 4)):
        bits = rng.choice([8, 16, 32, 64])
        signed = rng.random() < 0.5
        t = '%s%d' % ('i' if signed else 'u', bits)
        size, it = rng.choice(['i64', 'u64']), rng.choice(['i32', 'u32'])
        c, n = rng.randint(1, 255), rng.randint(2, 9)
        v = int.from_bytes(bytes([c]) * (bits // 8), 'little', signed=signed)
        w = rng.randint(1, 120)
        fs = [('extern func memset(*%s, %s, %s) *%s;' % (t, it, size, t),
               '  p := @alloc(%s, %d);\n  q := memset(p, %d as %s, %d as %s);\n  @print(q[%d], "");\n  @free(p);\n' % (
                   t, n, c, it, n * bits // 8, size, rng.randrange(n)), '%d ' % v),
              ('extern func malloc(%s) *%s;\nextern func free(*%s);' % (size, t, t),
               '  m := malloc(%d as %s);\n  m[1] = %d as %s;\n  @print(m[1], "");\n  free(m);\n' % (n * bits // 8, size, w, t), '%d ' % w),
              ('extern func abs(%s) %s;' % (it, it), '  @print(abs(%d as %s), "");\n' % (w, it), '%d ' % w)]
        fs = rng.sample(fs, rng.randint(1, 3))
        texts.append('\n'.join(f[0] for f in fs) + '\nfunc use%d() {\n%s}\n' % (k, ''.join(f[1] for f in fs)))
        out.append(''.join(f[2] for f in fs))
    files = {'again%d.cd' % k: x for k, x in enumerate(texts[:-1])}
    ks = list(range(len(files)))
    rng.shuffle(ks)
    src = ''.join('import a%d, "./again%d.cd";\n' % (k, k) for k in ks) + texts[-1] + 'func main() i32 {\n  @print("\\n#0\\n");\n'
    order = [rng.randrange(len(texts)) for _ in range(5)]
    for k in order:
        src += '  %suse%d();\n' % ('' if k == len(files) else 'a%d.' % k, k)
    src += '  @print("\\n#end\\n");\n  return 0;\n}\n'
    f = core.check_program(src, [''.join(out[k] for k in order).encode()], ('O0', 'O3'), files=files)
    return {'evals': 2, 'sigs': [core.sig(src + ''.join(texts))], 'cov': {'functions of C declared again': 1}, 'fails': [f] if f else [], 'samples': []}


def body(ck):
    ck.pmap(declared_again, [(ck.seed, b) for b in range(ck.n(60, 600))])
    nb = ck.n(200, 3000)
    ck.pmap(core.generic_batch, [('C08', ck.seed, b, gen, 10, ('O0', 'O3')) for b in range(nb)])
    ck.assumptions = ['x86-64 Linux; aggregates are passed to C by pointer (by value is not claimed)']


if __name__ == '__main__':
    core.main('C08', 'random structs, unions and arrays written on one side and read on the other side of a C library compiled by gcc and '
              'clang at -O2, sizes and offsets computed on both sides, calls in both directions with narrow, wide, many and variable '
              'arguments; both sides must print what the interpreter does', body)
