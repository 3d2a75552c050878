"""C10: strings, characters, @print."""
from vf import core
from vf.gen import *

PRINTABLE = ''.join(chr(c) for c in range(32, 127))
WIDE = 'éñüßøλжλ→€日本😀'


class CStr(Str):
    """A literal, its characters escaped or written as they are."""

    def __init__(self, txt, rng):
        self.txt = txt
        o = ''
        for c in txt:
            if c == '"' or c == '\\':
                o += '\\' + c
            elif c == '\n':
                o += '\\n' if rng.random() < 0.7 else c
            else:
                o += c
        self.text = '"' + o + '"'

    def s(self):
        return self.text


class Char(E):
    t = I8

    def __init__(self, c):
        self.c = c

    def s(self):
        x = {'\n': '\\n', '\t': '\\t', '\r': '\\r', '\\': '\\\\'}.get(self.c, self.c)
        return "'" + x + "'"

    def ev(self, m):
        return ord(self.c)


def cstring(m, p):
    out = bytearray()
    while True:
        b = m.mem.get(p, 1)[0]
        if b is None:
            raise UB('string')
        if not b:
            return bytes(out)
        out.append(b)
        p += 1


class Cat(E):
    prec = P_ADD
    t = STR

    def __init__(self, l, r):
        self.l, self.r = l, r

    def s(self):
        return '%s + %s' % (self.l.at(P_ADD), self.r.at(P_ADD + 1))

    def ev(self, m):
        a = self.l.ev(m)
        b = self.r.ev(m)
        x = cstring(m, a) + cstring(m, b) + b'\0'
        p = m.mem.alloc(len(x))
        m.mem.put(p, list(x))
        return p


class SCmp(E):
    prec = P_CMP
    t = I1

    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r

    def s(self):
        return '%s %s %s' % (self.l.at(P_CMP), self.op, self.r.at(P_CMP + 1))

    def ev(self, m):
        a = cstring(m, self.l.ev(m))
        b = cstring(m, self.r.ev(m))
        return compare(self.op, a, b)


def related(rng, x):
    """A text that differs from x in little."""
    c = rng.choice(PRINTABLE + '\n')
    i = rng.randrange(len(x) + 1)
    return rng.choice([x + '\n', '\n' + x, x + ' ', ' ' + x, x + x, x[::-1], x.upper(), x.lower(), x[1:], x[:-1], x[:i] + c + x[i:], x[:i] + x[i + 1:],
                       x + '\\', x + '0', x.replace('\n', ' '), x[:len(x) // 2], x.swapcase()])


EARLIER = []


def text(rng):
    if EARLIER and rng.random() < .25:
        # (nearly) one that was there before
        x = rng.choice(EARLIER)
        return x if rng.random() < .2 else related(rng, x)
    x = newtext(rng)
    if len(x) < 60:
        EARLIER.append(x)
    return x


def newtext(rng):
    r = rng.random()
    if r < 0.08:
        return ''
    if r < 0.3:
        return ''.join(rng.choice('ab') for _ in range(rng.randint(1, 5)))     # likely to be equal or a prefix
    if r < 0.4:
        return ''.join(rng.choice(['%d', '%s', '%n', '%', '%%', '\\', '"', "'", '//', '\n', '{', '}', '#', '@', ';', ' '])
                       for _ in range(rng.randint(1, 8)))
    if r < 0.5:
        return ''.join(rng.choice(WIDE + 'ab') for _ in range(rng.randint(1, 6)))
    if r < 0.53:
        return rng.choice(PRINTABLE) * rng.randint(100, 700)
    return ''.join(rng.choice(PRINTABLE + '\n') for _ in range(rng.randint(1, 20)))


class SG:
    def __init__(self, rng, uid):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.cov = {}
        self.decls, self.globals = [], []
        self.strs = []        # expressions of strings
        self.funcs = []

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    def expr(self, d=2):
        """A string."""
        rng = self.rng
        r = rng.random()
        if d > 0 and r < 0.35:
            self.note('concatenation')
            return Cat(self.expr(d - 1), self.expr(d - 1))
        if d > 0 and r < 0.45 and self.funcs:
            self.note('call')
            return Call(rng.choice(self.funcs), [self.expr(d - 1), self.expr(d - 1)])
        if d > 0 and r < 0.5:
            return Paren(self.expr(d - 1))
        if r < 0.8 and self.strs:
            return rng.choice(self.strs)
        self.note('literal')
        return CStr(text(rng), rng)

    def show(self, e):
        """Print a string so that its length shows."""
        return Print(e, '|')

    def stmts(self, body, k, depth=0):
        rng, nm = self.rng, self.nm
        mark = len(self.strs)
        for _ in range(k):
            r = rng.random()
            if r < 0.25:
                n = nm('s')
                body.append(Decl(n, STR, self.expr(), typed=rng.random() < 0.3))
                self.strs.append(Var(n, STR))
                body.append(self.show(self.strs[-1]))
            elif r < 0.35 and self.strs:
                v = rng.choice(self.strs)
                if is_lv(v) and v not in self.const:
                    body.append(Assign(v, self.expr()))
                    body.append(self.show(v))
                    self.note('assignment')
            elif r < 0.5:
                op = rng.choice(CMP)
                a = self.expr()
                b = a if rng.random() < 0.15 else self.expr()
                if rng.random() < 0.2:
                    # one a prefix of the other
                    b = Cat(a, CStr(text(rng), rng))
                    if rng.random() < 0.5:
                        a, b = b, a
                self.note('comparison ' + op)
                c = SCmp(op, a, b)
                if rng.random() < 0.5:
                    body.append(Print(c, ''))
                else:
                    body.append(If([(c, [Print('yes')])], [Print('no')]))
            elif r < 0.58:
                # characters of a string
                n, i = nm('s'), nm('i')
                body.append(Decl(n, STR, self.expr()))
                v = Var(n, STR)
                self.strs.append(v)
                c = Index(v, Var(i, I32))
                body.append(For([Print(c, Cast(c, U8), ',')],
                                Bin('&&', Bin('!=', c, Cast(Lit(I32, 0), I8)), Bin('<', Var(i, I32), Lit(I32, 8))),
                                Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', Var(i, I32)))))
                self.note('characters of a string')
            elif r < 0.66:
                # a result of + may be written to, and shares nothing with the operands
                a = nm('s')
                x = Cat(self.expr(1), CStr(rng.choice(['abc', 'xyz!', '0123456789']), rng))
                body.append(Decl(a, STR, x))
                b = nm('s')
                body.append(Decl(b, STR, Cat(Var(a, STR), CStr('', rng))))
                ch = rng.choice(['\n', '\t', '\r', '\\', "'", '"', 'q', ' ', '~', '%'])
                body.append(Assign(Index(Var(a, STR), Lit(I32, rng.randrange(3))), Char(ch)))
                body.append(self.show(Var(a, STR)))
                body.append(self.show(Var(b, STR)))
                self.strs += [Var(a, STR), Var(b, STR)]
                self.note('write into a string')
                self.note('character %r' % ch)
            elif r < 0.72:
                # built in a loop
                a, i = nm('s'), nm('i')
                body.append(Decl(a, STR, self.expr(0)))
                v = Var(a, STR)
                step = Cat(v, self.expr(0)) if rng.random() < 0.5 else Cat(self.expr(0), v)
                body.append(For([Assign(v, step)], Bin('<', Var(i, I32), Lit(I32, rng.randint(1, 5))),
                                Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', Var(i, I32)))))
                body.append(self.show(v))
                self.strs.append(v)
                self.note('loop')
            elif r < 0.78:
                # by hand
                a = nm('s')
                s = ''.join(rng.choice('mnopq') for _ in range(rng.randint(0, 5)))
                body.append(Decl(a, STR, Alloc(I8, Lit(I32, len(s) + 1))))
                v = Var(a, STR)
                for j, c in enumerate(s):
                    body.append(Assign(Index(v, Lit(I32, j)), Char(c)))
                body.append(Assign(Index(v, Lit(I32, len(s))), Cast(Lit(I32, 0), I8)))
                body.append(self.show(v))
                self.strs.append(v)
                self.note('string in allocated memory')
            elif r < 0.85:
                # the rest of a string
                a = nm('s')
                k2 = rng.randint(0, 4)
                body.append(Decl(a, STR, Bin('+', Paren(Cat(CStr('wxyz', rng), self.expr(0))), Lit(I32, k2))))
                self.strs.append(Var(a, STR))
                body.append(self.show(self.strs[-1]))
                self.note('pointer into a string')
            elif r < 0.93:
                # values of every kind in one @print
                es = []
                for _ in range(rng.randint(0, 6) if rng.random() < .85 else rng.randint(7, 20)):
                    t = rng.choice(INTS + FLTS + [I1, STR, STR])
                    es.append(self.expr(1) if t == STR else lit(rng, t))
                if rng.random() < 0.3:
                    es.append(Char(rng.choice('azAZ09 ~')))
                if not es:
                    continue
                body.append(Print(*es))
                body.append(Print('|'))
                self.note('@print of %d' % len(es))
            elif depth < 2:
                inner = []
                self.stmts(inner, rng.randint(1, 3), depth + 1)
                if rng.random() < 0.5:
                    body.append(Block(inner))
                else:
                    body.append(If([(SCmp(rng.choice(CMP), self.expr(0), self.expr(0)), inner)], [Print('else')]))
        if depth:
            # what was declared inside is not visible after it
            del self.strs[mark:]


def gen(rng, uid):
    if uid == 'c0':
        EARLIER.clear()
    del EARLIER[:-30]
    g = SG(rng, uid)
    nm = g.nm
    g.const = []
    body = []
    for _ in range(rng.randint(0, 2)):
        n = nm('G')
        s = CStr(text(rng), rng)
        if rng.random() < 0.5:
            g.globals.append(ConstDecl(n, STR, s))
            g.strs.append(Var(n, STR))
            g.const.append(g.strs[-1])
        else:
            g.globals.append(Decl(n, STR, s))
            g.strs.append(Var(n, STR))
    for _ in range(rng.randint(0, 2)):
        a, b = Var('a', STR), Var('b', STR)
        k = rng.randrange(4)
        if k == 0:
            fb = [Return(Cat(b, a))]
        elif k == 1:
            fb = [If([(SCmp(rng.choice(CMP), a, b), [Return(a)])]), Return(b)]
        elif k == 2:
            fb = [Decl('t', STR, a), Assign(a, b), Assign(b, Var('t', STR)), Return(Cat(a, Cat(CStr(text(rng), rng), b)))]
        else:
            fb = [Print(a, b, ''), Return(Cat(a, b))]
        f = Func(nm('f'), [('a', STR), ('b', STR)], [STR], fb)
        g.decls.append(f)
        g.funcs.append(f)
    if rng.random() < 0.4:
        S = Struct(nm('S'), [('n', rng.choice(INTS)), ('s', STR), ('m', STR)])
        g.decls.append(S)
        n = nm('r')
        body.append(Decl(n, S, StructLit(S, [('n', lit(rng, S.ft['n'])), ('s', g.expr()), ('m', g.expr())])))
        base = Var(n, S)
        g.strs += [Field(base, 's'), Field(base, 'm')]
        if rng.random() < 0.5:
            p = nm('p')
            body.append(Decl(p, Ptr(S), Addr(base)))
            g.strs.append(Field(Var(p, Ptr(S)), 's'))
        body.append(Print(base, ''))      # the name of its type
        g.note('strings in a struct')
    if rng.random() < 0.4:
        k = rng.randint(1, 4)
        A = Arr(k, STR)
        n = nm('a')
        body.append(Decl(n, A, ArrLit(A, [g.expr(1) for _ in range(k)])))
        g.strs += [Index(Var(n, A), Lit(I32, i)) for i in range(k)]
        g.note('strings in an array')
    g.stmts(body, rng.randint(3, 9))
    for e in g.strs[:6]:
        body.append(g.show(e))
    return Case(g.decls, Func('case_' + uid, [], [], body), g.globals, {'cov': g.cov})


def every_character(ck):
    """Each character as a character and in a string, with and without backslash."""
    src, want = 'func main() i32 {\n  @print("\\n#0\\n");\n', b''
    for c in PRINTABLE:
        forms = []
        if c != "\\":
            forms.append(("'%s'" % c, ord(c)))
        if c != "'":
            forms.append(("'\\%s'" % c, {'n': 10, 't': 9, 'r': 13}.get(c, ord(c))))
        if c not in '"\\':
            forms += [('"%s"[0]' % c, ord(c)), ('("x%sy")[1]' % c, ord(c))]
        if c not in 'tr':
            forms.append(('("z\\%sz")[1]' % c, {'n': 10}.get(c, ord(c))))
        for f, v in forms:
            src += '  @print(%s as i32);\n  @print("\\n");\n' % f
            want += b'%d\n' % v
    src += '  @print("\\n#end\\n");\n  return 0;\n}\n'
    f = core.check_program(src, [want], ('O0',))
    ck.evals += 1
    ck.sigs.add(core.sig(src))
    ck.add('every printable character')
    if f:
        ck.fail(f)


def body(ck):
    every_character(ck)
    nb = ck.n(150, 3000)
    na = ck.n(40, 800)
    ck.pmap(core.generic_batch, [('C10', ck.seed, b, gen, 12, ('O0', 'O3')) for b in range(nb)] +
            [('C10', ck.seed, 100000 + b, gen, 12, ('asan',)) for b in range(na)])
    ck.assumptions = ['strings that come from literals are not written to']


if __name__ == '__main__':
    core.main('C10', 'random histories over strings (literals with every kind of character, +, comparison, indexing, writing, aliases, '
              'fields, elements, calls, loops) and @print of mixed values; output must equal the interpreter\'s, also under AddressSanitizer', body)
