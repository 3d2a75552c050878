"""Random programs with one statement that may break a typing rule, and whether it does.

A program is a list of lines, one statement per line; case() returns
Case(src, ok, line, last, what): ok tells whether the rules of the language accept it,
line..last are the lines of the statement in question."""
import collections

from . import flow

Case = collections.namedtuple('Case', 'src ok line last what')

INTS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64']
SIGNED = ['i8', 'i16', 'i32', 'i64']
FLOATS = ['f32', 'f64']
NUM = INTS + FLOATS + ['i1']
PTRS = ['*i8', '*i32', '*u8', '**i32', '*S', '*R', '*f64', '*[2]i32', '*U']
AGGR = ['U', '[2]U', 'S', 'R', '[2]i32', '[3]i32', '[2]u8', '[2]S', '[2][2]i32']
FUNCS = ['func() *i8', 'func() *S', 'func(i32) *i32', 'func(i32) func(i32) i32', 'func(i32) i32', 'func(i32) i64', 'func(i64) i32', 'func() i32', 'func() void', 'func(i32, i32) i32', 'func(*S) S', 'func(S) S', 'func(U) i32', 'func(i32) U']
TYPES = NUM + PTRS + AGGR + FUNCS
MEMBERS = ['i32', 'f64', '[2]i32', '*i8', 'func(i32) i32', '**i32']
ALIAS = {'A': 'i64', 'Q': '*S', 'B': 'u8', 'V': '[2]i32'}
PRE = ['struct S { a i32 b *i8 c [2]i32 }', 'struct R { a i32 b *i8 c [2]i32 }', 'union U { a i32 d f64 q [2]i32 p *i8 f func(i32) i32 r **i32 }', 'type A = i64;', 'type Q = *S;', 'type B = u8;', 'type V = [2]i32;',
       'const K := 7;', 'func plus(a i32, b i32) i32 { return a + b; }', 'func nothing() void { }', 'func two() i32, i64 { return 1, 2 as i64; }',
       'func met(s *S, n i32) i32 { return s.a + n; }', 'func mes(s S, n i32) i32 { return s.a + n; }']


FILES = {
    'tm.cd': """const MK := 3;
mv := 2;
mw := 2.5;
struct S { a i32 b *i8 c [2]i32 }
struct P { x i64 y S }
union U { a i32 d f64 q [2]i32 p *i8 f func(i32) i32 r **i32 }
func sum(a i32, b i32) i32 { return a + b; }
func none() void { }
func pair() i32, i64 { return 1, 2 as i64; }
func make() S { p := @alloc(S, 1); return *p; }
func scale(s *S, n i32) i32 { return s.a * n; }
func plain(s S, n i32) i32 { return s.a * n; }
""",
    'tg.cd': """type T;
struct Box { v T n i32 }
func wrap(x T) Box { p := @alloc(Box, 1); p.v = x; return *p; }
func open(b *Box) T { return b.v; }
""",
    'tq.cd': """type T;
type V;
struct Two { v T w *V }
func mk(x T, y *V) Two { p := @alloc(Two, 1); p.v = x; p.w = y; return *p; }
"""}
IMPORTS = ['import m, "./tm.cd";', 'import gi, i32, "./tg.cd";', 'import gs, S, "./tg.cd";', 'import gj, i32, "./tg.cd";']
MODTYPES = ['m.S', '*m.S', '[2]m.S', 'm.U', 'm.P', 'gi.Box', 'gs.Box', '*gi.Box', '*gs.Box', 'func(m.S) m.S', 'func(*gi.Box) i32']
ALIAS['gj.Box'] = 'gi.Box'


def write(d):
    """The modules that the cases import."""
    for n, t in FILES.items():
        with open(d + '/' + n, 'w') as f:
            f.write(t)


def canon(t):
    return ALIAS.get(t, t)


def is_int(t):
    return t in INTS or t == 'i1'


def is_num(t):
    return t in NUM


def is_ptr(t):
    return t.startswith('*')


def inner(t):
    """Element type of a pointer or an array."""
    return t[1:] if t[0] == '*' else t[t.index(']') + 1:]


def fn_parts(t):
    """'func(a, b) r' -> ([a, b], r)"""
    d, i = 0, t.index('(')
    for j in range(i, len(t)):
        d += {'(': 1, ')': -1}.get(t[j], 0)
        if d == 0:
            break
    ps, r = t[i + 1:j], t[j + 1:].strip()
    return ([p.strip() for p in ps.split(',')] if ps.strip() else []), r


def parse(t):
    """Type as nested tuples: a name, ('*', T), ('[', n, T), ('f', [T], R)."""
    if t[0] == '*':
        return '*', parse(t[1:])
    if t[0] == '[':
        i = t.index(']')
        return '[', int(t[1:i]), parse(t[i + 1:])
    if t.startswith('func('):
        d, parts, cur = 1, [], ''
        for i in range(5, len(t)):
            c = t[i]
            d += {'(': 1, ')': -1}.get(c, 0)
            if not d:
                break
            if c == ',' and d == 1:
                parts.append(cur)
                cur = ''
            else:
                cur += c
        if cur.strip():
            parts.append(cur)
        return 'f', [parse(x.strip()) for x in parts], parse(t[i + 1:].strip())
    return t


def show(t):
    if isinstance(t, str):
        return t
    if t[0] == '*':
        return '*' + show(t[1])
    if t[0] == '[':
        return '[%d]%s' % (t[1], show(t[2]))
    return 'func(%s) %s' % (', '.join(show(x) for x in t[1]), show(t[2]))


def compose(r, d):
    """A random type of depth up to d."""
    c = r.random()
    if d == 0 or c < .25:
        return r.choice(INTS + FLOATS + ['i1', 'S', 'R', 'U'])
    if c < .5:
        return '*', compose(r, d - 1)
    if c < .75:
        return '[', r.randint(1, 3), compose(r, d - 1)
    return 'f', [compose(r, d - 1) for _ in range(r.choice([0, 1, 1, 2]))], r.choice(['void', compose(r, d - 1)])


def change(r, t):
    """The type with one of its parts changed."""
    if isinstance(t, str) or r.random() < .15:
        c = r.random()
        if c < .2 and t != 'void':
            return '*', t
        if c < .3 and t != 'void':
            return '[', r.randint(1, 3), t
        if not isinstance(t, str) and t[0] in '*[' and c < .7 and t[-1] != 'void':
            return t[-1]
        for group in (INTS, FLOATS + ['i32'], ['S', 'R', 'U']):
            if t in group and c < .7:
                return r.choice([x for x in group if x != t])
        return r.choice(INTS + FLOATS + ['S', 'R', 'U'])
    if t[0] == '*':
        return '*', change(r, t[1])
    if t[0] == '[':
        return ('[', r.choice([n for n in (1, 2, 3) if n != t[1]]), t[2]) if r.random() < .4 else ('[', t[1], change(r, t[2]))
    ps, c = list(t[1]), r.random()
    if c < .15:
        ps.insert(r.randint(0, len(ps)), r.choice(INTS))
    elif c < .3 and ps:
        del ps[r.randrange(len(ps))]
    elif c < .6 and ps:
        i = r.randrange(len(ps))
        ps[i] = change(r, ps[i])
    else:
        return 'f', ps, change(r, t[2])
    return 'f', ps, t[2]


class Gen:
    def __init__(self, rng, imports=False):
        self.imports = imports
        self.r = rng
        self.used = {}

    def ty(self, pool=None):
        return self.r.choice(pool or self.pool)

    def n(self, t):
        """Identifier part of a type: its declarations are emitted when it's used."""
        if t not in self.used:
            self.used[t] = 't%d' % len(self.used)
        return self.used[t]

    def expr(self, t, d=1, place=False, suffix=False):
        """An expression of type t."""
        r = self.r
        k = self.n(t)
        opts = ['v' + k, 'v' + k, 'p' + k, 'h%s.f' % k, 'hp%s.f' % k, 'a%s[1]' % k, 'a%s[v%s]' % (k, self.n(r.choice(INTS))), '*q' + k, 'q%s[0]' % k]
        if suffix:
            opts.remove('*q' + k)
        if t in SIGNED + INTS + FLOATS + ['*i8']:
            opts.append('g' + k)
        if place:
            return r.choice(opts)
        opts += ['mk%s()' % k] * 2
        if d > 0 and r.random() < .5:
            e = lambda u: self.expr(u, d - 1)
            more = [':%s { return %s; }' % (t, e(t))] if r.random() < .3 else []
            if t == 'i1':
                u = r.choice(NUM)
                more += ['(%s %s %s)' % (e(u), r.choice(['==', '<', '>=', '!=']), e(u)), '!' + e('i32'), '(%s && %s)' % (e('i1'), e('i1'))]
            elif is_num(t):
                more += ['(%s %s %s)' % (e(t), r.choice(['+', '-', '*', '/']), e(t)), '(-%s)' % e(t), '(%s as %s)' % (e(r.choice(NUM)), t), '++' + self.expr(t, 0, True)]
                if t in INTS:
                    more += ['(%s %s %s)' % (e(t), r.choice(['&', '|', '^', '%']), e(t)), '(%s %s %s)' % (e(t), r.choice(['<<', '>>']), e(r.choice(SIGNED)))]
                if t == 'i32':
                    if self.mods:
                        more += ['m.mv', 'm.MK', 'm.sum(%s, %s)' % (e('i32'), e('i32')), '%s.scale(%s)' % (self.expr('*m.S', 0, suffix=True), e('i32')), 'gi.open(%s)' % e('*gi.Box'), '%s.v' % self.expr('gi.Box', 0, suffix=True)]
                    more += ['3', 'K', '@sizeof(%s)' % r.choice(['i64', 'S', '*i8']), 'plus(%s, %s)' % (e('i32'), e('i32')), '%s.met(%s)' % (self.expr('*S', 0, suffix=True), e('i32')), '%s.a' % self.expr(r.choice(['S', '*S']), 0, suffix=True)]
                if t == 'i64':
                    more += ['5000000000']
                if t == 'i8':
                    more += ["'c'"]
                if t == 'f32':
                    more += ['2.5']
            elif is_ptr(t):
                u = inner(t)
                more += ['@alloc(%s, 2)' % u, '(&%s)' % self.expr(u, 0, True), '(%s + %s)' % (e(t), e(r.choice(INTS))), '(%s as %s)' % (e(r.choice(PTRS + ['i64'])), t)]
                if t == '*i8':
                    more += ['"s"', '(%s + %s)' % (e(t), e(t))]
            elif t == 'func(i32) i32':
                more += ['func(z i32) i32 { return z + %s; }' % e('i32')]
            elif t == 'func(i32, i32) i32':
                more += ['plus']
            elif t == '[2]i32':
                more += ['[2]i32{%s, %s}' % (e('i32'), e('i32')), '%s.c' % self.expr(r.choice(['S', '*S']), 0, suffix=True)]
            elif t == 'gi.Box':
                more += ['%s.wrap(%s)' % (r.choice(['gi', 'gj']), e('i32'))]
            elif t == 'gs.Box':
                more += ['gs.wrap(%s)' % e('S')]
            elif t in ('S', 'R', 'm.S'):
                more += ['@%s{ a: %s, b: %s, c: %s }' % (t, e('i32'), e('*i8'), e('[2]i32'))]
            if more:
                return r.choice(more)
        return r.choice(opts)

    # statements: (list of lines, accepted, description); None when not applicable

    def hole(self):
        """T, an expression of type U, whether U is T."""
        r = self.r
        t = self.ty()
        u = t if r.random() < .45 else self.near(t)
        return t, self.expr(u, r.choice([0, 1, 2])), canon(t) == canon(u), u

    def near(self, t):
        """Another type, often a similar one."""
        r = self.r
        t = canon(t)
        if t in ('U', '*U', 'm.U') and r.random() < .4:
            return '*' * t.count('*') + r.choice(MEMBERS)
        if self.mods and r.random() < .3:
            if t in ('S', '*S', '[2]S', 'U', 'm.S', '*m.S', '[2]m.S', 'm.U') and r.random() < .7:
                return t.replace('m.', '') if 'm.' in t else t.replace('S', 'm.S').replace('U', 'm.U')
            return r.choice(MODTYPES)
        if r.random() < .5:
            return show(change(r, parse(t)))
        if r.random() < .5:
            for group in (INTS, FLOATS, PTRS, AGGR, FUNCS):
                if t in group:
                    return r.choice(group)
        return r.choice(TYPES)

    def spell(self, t):
        for a, u in ALIAS.items():
            if u == t and self.r.random() < .5 and (self.mods or '.' not in a):
                return a
        return t

    def s_exact(self):
        r = self.r
        t, e, ok, u = self.hole()
        k, w = self.n(t), self.spell(t)
        c = r.randrange(15)
        stars = len(t) - len(t.lstrip('*'))
        if t[stars:] in ('U', 'm.U') and u[:stars] == t[:stars] and u[stars:] in MEMBERS and c in (0, 1, 8, 12, 13, 14):
            ok = True   # the value becomes a value of the union
        other = self.ty()
        if c == 0:
            return ['x : %s = %s;' % (w, e)], ok, 'declaration of %s with %s' % (t, u)
        if c == 1:
            return ['%s = %s;' % (self.expr(t, 0, True), e)], ok, 'assignment to %s of %s' % (t, u)
        if c == 2:
            return ['take%s(%s);' % (k, e)], ok, 'argument %s for %s' % (u, t)
        if c == 3:
            return ['take2%s(%s, %s);' % (k, self.expr('i32', 1), e)], ok, 'second argument %s for %s' % (u, t)
        if c == 4:
            return ['(func(x %s) void { })(%s);' % (w, e)], ok, 'argument %s of an anonymous function of %s' % (u, t)
        if c == 5:
            return ['ft%s(%s);' % (k, e)], ok, 'argument %s of a function value of %s' % (u, t)
        if c == 6:
            return ['x := :%s { return %s; };' % (w, e)], ok, 'return of %s from a block of %s' % (u, t)
        if c == 7:
            return ['x := func() %s { return %s; };' % (w, e)], ok, 'return of %s from an anonymous function of %s' % (u, t)
        if c == 8:
            return ['x := @H%s{ n: %s, f: %s };' % (k, self.expr('i32', 0), e)], ok, 'field %s with %s' % (t, u)
        if c == 9:
            return ['x := [2]%s{ %s, %s };' % (w, self.expr(t, 0), e)], ok, 'element %s with %s' % (t, u)
        if c == 10:
            o = self.expr(other, 0, True)
            return ['%s, %s = %s, %s;' % (o, self.expr(t, 0, True), self.expr(other, 0), e)], ok, 'list assignment to %s of %s' % (t, u)
        if c == 11:
            return ['(&%s).mm%s(%s);' % (self.expr('S', 0, True), k, e)], ok, 'argument %s of a method for %s' % (u, t)
        if c == 12:
            return ['lam%s := func(y i32) void {' % k, '    %s = %s;' % (self.expr(t, 0, True), e), '};'], ok, 'assignment inside an anonymous function to %s of %s' % (t, u)
        if c == 13:
            return ['if 1 { %s = %s; }' % (self.expr(t, 0, True), e)], ok, 'assignment in a branch to %s of %s' % (t, u)
        return ['x := 1;', 'for y := %s; x < 3; %s = %s { ++x; }' % (self.expr(other, 0), 'v' + k, e)], ok, 'update of a loop, %s with %s' % (t, u)

    def s_long(self):
        """Longer lists of values, one of which may have another type than its place."""
        r = self.r
        n = r.randint(3, 8)
        c = r.randrange(6)
        ts = [self.ty() for _ in range(n)]
        if c == 0:
            ts = ts[:1] * n
        us = list(ts)
        i = r.randrange(n) if r.random() < .6 else n - 1
        if r.random() < .55:
            us[i] = self.near(ts[i])
        t, u = ts[i], us[i]
        ok = canon(t) == canon(u)
        w = [self.spell(x) for x in ts]
        es = ', '.join(self.expr(x, 0) for x in us)
        if c == 0:
            return ['x := [%d]%s{ %s };' % (n + r.choice([0, 0, 1]), w[0], es)], ok, 'element %d of type %s for %s' % (i, u, t)
        if c == 1:
            return ['%s = %s;' % (', '.join(self.expr(x, 0, True) for x in ts), es)], ok, 'place %d of type %s assigned a value of %s' % (i, t, u)
        if c == 2:
            return ['(func(%s) void { })(%s);' % (', '.join('y%d %s' % (k, x) for k, x in enumerate(w)), es)], ok, 'parameter %d of type %s given a value of %s' % (i, t, u)
        if c == 3:
            return ['x := func() %s { return %s; };' % (', '.join(w), es)], ok, 'result %d of type %s given a value of %s' % (i, t, u)
        xs = ', '.join('x%d' % k for k in range(n))
        if c == 4:
            return ['%s := %s;' % (xs, es), '(func(y %s) void { })(x%d);' % (w[i], i)], ok, 'name %d of a list declared with a value of type %s used as %s' % (i, u, t)
        bad = not ok
        return ['const %s := %s;' % (xs, ', '.join(str(k) for k in range(n))), ('x%d = 1;' if bad else 'y := x%d;') % i], not bad, 'assignment to a constant of a list' if bad else 'use of a constant of a list'

    def s_cond(self):
        r = self.r
        t = self.ty(TYPES)
        e = self.expr(t, 1)
        if e.startswith('@') or '{' in e:
            e = self.expr(t, 0)
        c = r.randrange(8)
        if c == 0:
            return ['if %s { }' % e], is_num(t), 'condition of type ' + t
        if c == 1:
            n, w = r.choice([1, 1, 2, 3, 5]), r.randrange(5)
            return ['if 1 { } %s %s' % (' '.join('else if %s { }' % (e if j == w % n else r.choice(['0', '1', 'K', 'v' + self.n('i32')])) for j in range(n)), r.choice(['', 'else { }']))], is_num(t), 'else if of type ' + t
        if c == 2:
            return ['for %s { break; }' % e], is_num(t), 'loop condition of type ' + t
        if c == 3:
            return ['for y := 0; %s; ++y { }' % e], is_num(t), 'loop condition of type ' + t
        if c == 4:
            return ['x := !%s;' % e], is_num(t) or is_ptr(t), 'negation of ' + t
        if c == 5:
            return ['x := -%s;' % e], is_num(t), 'minus of ' + t
        if c == 6:
            return ['switch %s {' % e, '    default { }', '}'], is_int(t), 'switch on ' + t
        return ['%s%s;' % (r.choice(['++', '--']), self.expr(t, 0, True))], is_num(t), 'increment of ' + t

    def s_index(self):
        r = self.r
        t = self.ty(TYPES)
        c = r.randrange(8)
        if c == 0:
            return ['x := a%s[%s];' % (self.n(self.ty()), self.expr(t, 1))], is_int(t), 'index of type ' + t
        if c == 1:
            return ['x := v%s[%s];' % (self.n(t), self.expr(r.choice(INTS), 0))], is_ptr(t) or t[0] == '[', 'element of ' + t
        if c == 2:
            return ['x := *%s;' % self.expr(t, 0)], is_ptr(t), 'dereference of ' + t
        if c == 3:
            f = r.choice(['a', 'b', 'c', 'zz'])
            return ['x := %s.%s;' % (self.expr(t, 0, suffix=True), f)], t.count('*') < 2 and (t.lstrip('*') in ('S', 'R') and f != 'zz' or t.lstrip('*') == 'U' and f == 'a'), 'field %s of %s' % (f, t)
        if c == 4:
            return ['x := @alloc(%s, %s);' % (self.ty(), self.expr(t, 1))], is_int(t), 'length of type ' + t
        if c == 5:
            return ['@free(%s);' % self.expr(t, 1)], is_ptr(t), '@free of ' + t
        if c == 6:
            return ['x := @realloc(%s, 3);' % self.expr(t, 1)], is_ptr(t), '@realloc of ' + t
        return ['x := @realloc(%s, %s);' % (self.expr(r.choice(PTRS), 0), self.expr(t, 1))], t in SIGNED or t == 'i1', '@realloc length of type ' + t

    def s_asm(self):
        """@asm takes a string literal, then numbers and pointers, and has a number, a pointer or nothing as its result."""
        r = self.r
        c = r.randrange(4)
        out, ins = r.choice(NUM + PTRS), [self.expr(r.choice(NUM + PTRS), 0) for _ in range(r.randrange(3))]
        if c == 0:
            t = self.ty(TYPES + ['void', 'void'])
            return [('@asm(%s);' if t == 'void' or r.random() < .2 else 'x := @asm(%s);') % ', '.join([t, '"nop"'] + ins)], is_num(t) or is_ptr(t) or t == 'void', '@asm with a result of type ' + t
        if c == 1:
            t = self.ty(TYPES)
            ins.insert(r.randint(0, len(ins)), self.expr(t, 1))
            return ['x := @asm(%s);' % ', '.join([out, '"nop"'] + ins)], is_num(t) or is_ptr(t), '@asm with an argument of type ' + t
        if c == 2:
            text, ok = r.choice([('"nop"', True), ('""', True), ('3', False), ("'n'", False), (self.expr('*i8', 0), False), ('"nop" as *i8', False), ('nosuch', False), ('1.5', False)])
            return ['x := @asm(%s);' % ', '.join([out, text] + ins)], ok, '@asm of ' + text
        return ['x := @asm(%s, "nop") * 1;' % out], out == 'i32', 'arithmetic on an @asm result of type ' + out

    def s_binary(self):
        r = self.r
        t = self.ty(TYPES if r.random() < .5 else NUM)
        u = t if r.random() < .5 else self.near(t)
        op = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||'])
        same = t == u
        if op in ('<<', '>>'):
            ok = t in INTS and u in SIGNED
            if 'i1' in (t, u):
                return None
        elif op in ('&', '|', '^'):
            ok = same and is_int(t)
        elif op in ('&&', '||'):
            ok = is_num(t) and is_num(u) and (same or 'i1' in (t, u))
            if is_ptr(t) or is_ptr(u):
                return None
        elif op in ('==', '!=', '<', '>', '<=', '>='):
            ok = same and (is_num(t) or is_ptr(t))
        else:
            ok = same and is_num(t)
            if op in '+-':
                ok = ok or is_ptr(t) and is_int(u) or op == '+' and same and t == '*i8'
        res = 'x := %s %s %s;' % (self.expr(t, 1), op, self.expr(u, 1))
        if r.random() < .2:
            res = 'x := plus(%s %s %s as i32, 1);' % (self.expr(t, 0), op, self.expr(u, 0))
            if op not in ('*', '/', '%', '+', '-') or not is_num(t):
                return None
            # as binds tighter: the right operand is cast
            ok = t == 'i32' and is_num(u)
            if not is_num(u) and not is_ptr(u) or is_ptr(u):
                return None
        return [res], ok, '%s %s %s' % (t, op, u)

    def s_cast(self):
        t, u = self.ty(TYPES), self.ty(TYPES)
        scalar = lambda x: is_num(x) or is_ptr(x)
        ok = scalar(t) and scalar(u) or t[0] == '[' and is_ptr(u) and inner(u) == inner(t)
        if t[0] == '[' and is_ptr(u) and not ok:
            return None
        if (is_ptr(t) and u in FLOATS) or (is_ptr(u) and t in FLOATS):
            return None
        return ['x := %s as %s;' % (self.expr(t, 0), self.spell(u))], ok, 'cast of %s to %s' % (t, u)

    def s_call(self):
        r = self.r
        if r.random() < .5:
            t = self.ty(TYPES if r.random() < .3 else FUNCS)
            ps = fn_parts(t)[0] if t.startswith('func') else []
            args = list(ps)
            ok = t.startswith('func')
            m = r.randrange(4)
            if m == 1 and args:
                args.pop()
                ok = False
            elif m == 2:
                args.append('i32')
                ok = False
            elif m == 3 and args:
                i = r.randrange(len(args))
                args[i] = self.near(args[i])
                ok = ok and args[i] == ps[i]
            e = self.expr(t, 0)
            e = e if e[0] not in '*' else '(%s)' % e
            return ['%s(%s);' % (e, ', '.join(self.expr(a, 1) for a in args))], ok, 'call of %s with (%s)' % (t, ', '.join(args))
        n = r.choice([0, 1, 1, 2, 2, 3])
        a = ', '.join(self.expr('i32', 1) for _ in range(n))
        if r.random() < .5:
            return ['x := plus(%s);' % a], n == 2, '%d arguments for 2' % n
        recv = self.ty(['S', 'R', '*S', '*R', 'i32', '*i8'])
        m = r.choice(['met', 'mes'])
        rv = self.expr(recv, 0)
        rv = rv if rv[0] != '*' else '(%s)' % rv
        return ['x := %s.%s(%s);' % (rv, m, a)], n == 1 and recv == {'met': '*S', 'mes': 'S'}[m], 'method %s of %s with %d arguments' % (m, recv, n)

    def s_count(self):
        r = self.r
        c = r.randrange(5)
        n, m = r.randint(1, 3), r.randint(1, 3)
        if r.random() < .5:
            m = n
        ts = [self.ty() for _ in range(max(n, m))]
        names = ', '.join('x%d' % i for i in range(n))
        vals = ', '.join(self.expr(t, 0) for t in ts[:m])
        if c == 0:
            return ['%s := %s;' % (names, vals)], n == m, '%d names for %d values' % (n, m)
        if c == 1:
            return ['%s := two();' % names], n == 2, '%d names for the 2 values of a call' % n
        if c == 2:
            return ['%s = %s;' % (', '.join(self.expr(t, 0, True) for t in ts[:n]), vals)], n == m, '%d places for %d values' % (n, m)
        if c == 3:
            k = r.randint(0, 4)
            return ['x := [2]i32{%s};' % ', '.join(self.expr('i32', 0) for _ in range(k))], None if k < 2 else k == 2, '%d elements for an array of 2' % k
        f = r.choice(['a', 'b', 'zz', 'n'])
        return ['x := @S{ %s: %s };' % (f, self.expr('*i8' if f == 'b' else 'i32', 1))], f in 'ab', 'struct literal with the field %s' % f

    def s_name(self):
        r = self.r
        bad = r.random() < .6
        c = r.randrange(10)
        k = self.n('i32')
        if c == 0:
            return ['x := %s + 1;' % ('nosuch' if bad else 'v' + k)], not bad, 'undefined name' if bad else 'name'
        if c == 1:
            return ['%s(1, 2);' % ('nosuch' if bad else 'plus')], not bad, 'undefined function' if bad else 'function'
        if c == 2:
            return ['x := 0 as *%s;' % ('Nosuch' if bad else 'R')], not bad, 'undefined type in a cast' if bad else 'cast to a type'
        if c == 3:
            return ['x := @%s{ a: 1 };' % ('Nosuch' if bad else 'S')], not bad, 'undefined struct' if bad else 'struct'
        if c == 4:
            return ['@%s(%s);' % ('nosuch' if bad else 'print', self.expr('i32', 0))], not bad, 'undefined builtin' if bad else 'builtin'
        if c == 5:
            inner_ = r.choice(['{ y := 1; }', 'if 1 { y := 1; }', 'for y := 0; y < 1; ++y { }', 'z := func(y i32) i32 { return y; };', 'z := :i32 { y := 1; return y; };'])
            pre = [inner_] if bad else ['y := 1;', inner_]
            return pre + ['x := y;'], not bad, 'name out of its scope' if bad else 'name in its scope'
        if c == 6:
            return (['x := later;', 'later := 1;'] if bad else ['later := 1;', 'x := later;']), not bad, 'name before its declaration' if bad else 'name after its declaration'
        if c == 7:
            what = r.choice(['K', 'plus', 'ck'])
            tgt = what if bad else 'v' + k
            pre = ['const ck := 3;']
            st = r.choice(['%s = %s;' % (tgt, 'func(a i32, b i32) i32 { return a; }' if tgt == 'plus' else '4'), '++%s;' % tgt if tgt != 'plus' else 'plus = plus;'])
            return pre + [st], not bad, 'constant modified' if bad else 'variable modified'
        if c == 8:
            return ['x := @sizeof(%s);' % ('Nosuch' if bad else r.choice(['S', '*R', '[2]i32', 'A']))], not bad, 'undefined type in @sizeof' if bad else '@sizeof'
        return ['x : %s = 0 as *S;' % ('*Nosuch' if bad else '*S')], not bad, 'undefined type in a declaration' if bad else 'declaration'

    def s_const(self):
        r = self.r
        if r.random() < .4:
            # the constant may be an operand of the place, not the place
            p, v, K = 'q' + self.n('i32'), 'v' + self.n('i32'), r.choice(['K', 'K', 'm.MK'] if self.mods else ['K'])
            w = lambda: r.choice([K, K, 'plus(%s, 1)' % K, K + ' + 1', '-' + K, ':i32 { return %s; }' % K, ':i32 { y := %s; return y; }' % K, K + ' as u8', '(%s < 3)' % K, '(%s)' % K,
                                  'func() i32 { return %s; }()' % K, '[1]i32{%s}[0]' % K, '@S{ a: %s }.a' % K, '@sizeof(i32) * ' + K])
            good = lambda: r.choice(['*(%s + %s)' % (p, w()), '*(%s - (%s))' % (p, w()), '%s[%s]' % (p, w()), '(%s + %s)[%s]' % (p, w(), w()), '*((%s) as *i32)' % w(), '((%s) as *i32)[0]' % w(),
                                     '((%s) as *S).a' % w(), '*:*i32 { y := %s; return %s; }' % (w(), p), '*(%s + %s[%s])' % (p, p, w()), v, '(%s + (%s))[%s]' % (p, w(), w()),
                                     '*(%s + %s + %s)' % (p, w(), w())])
            ok = r.random() < .6
            place = good() if ok else r.choice([K, K, '(%s)' % K])
            how = r.randrange(4)
            if how == 0:
                return ['%s%s;' % (r.choice(['++', '--']), place if place[0] != '-' else '(%s)' % place)], ok, 'change of ' + place
            if how == 1:
                l = [place] + [good() for _ in range(r.choice([1, 1, 2]))]
                r.shuffle(l)
                return ['%s = %s;' % (', '.join(l), ', '.join(r.choice([v, '3', K]) for _ in l))], ok, 'assignment of a list with ' + place
            return ['%s = %s;' % (place, r.choice([v, '3', K]))], ok, 'assignment of ' + place
        k = self.n(r.choice(['i32', 'i64', 'f64', '*i8', 'u8']))
        good = r.choice(['3', 'K', 'K + 4', '-K', "'a'", '"s"', 'plus', 'K as i64', '!K', '(K * 2) as u8', '2.5', 'K < 4', 'K << 2', 'K & 6 | 1'] + ['m.MK', 'm.MK + K', 'm.sum'] * self.mods)
        bad = r.choice(['v' + k, 'p' + k, 'plus(1, 2)', 'K + v' + self.n('i32'), 'v%s as i64' % self.n('i32'), 'a%s[0]' % k, 'h%s.f' % k, 'hp%s.f' % k, '*q' + k, '&v' + k, '-v' + self.n('i32'), '@alloc(i32, 2)', 'nosuch',
                        'K + plus(1, 2)', '!v' + self.n('i32'), 'K + nosuch'] + ['m.mv', 'm.sum(1, 2)', 'm.mv + 1', 'm.nosuch'] * self.mods)
        ok = r.random() < .4
        return ['const cc := %s;' % (good if ok else bad)], ok, 'constant' if ok else 'value of a constant that is not constant'

    def s_module(self):
        r = self.r
        if not self.mods:
            return None
        bad = r.random() < .5
        b = lambda x, y: x if bad else y
        i = lambda: self.expr('i32', 1)
        c = r.randrange(15)
        if c == 0:
            return ['x := m.%s;' % b('nosuch', r.choice(['MK', 'mv', 'mw', 'sum']))], not bad, 'name of a module'
        if c == 1:
            return [r.choice(['m.%s = %s;' % (b('MK', 'mv'), i()), '%sm.%s;' % (r.choice(['++', '--']), b('MK', 'mv')), 'm.%s, v%s = 1, 2;' % (b('MK', 'mv'), self.n('i32'))])], not bad, 'constant of a module modified' if bad else 'variable of a module modified'
        if c == 2:
            t = self.ty() if bad else 'i32'
            return ['m.mv = %s;' % self.expr(t, 1)], t == 'i32', 'assignment of %s to an i32 of a module' % t
        if c == 3:
            n = r.choice([0, 1, 2, 2, 2, 3])
            return ['x := m.sum(%s);' % ', '.join(i() for _ in range(n))], n == 2, '%d arguments for 2 of a function of a module' % n
        if c == 4:
            t = self.ty() if bad else 'i32'
            return ['x := m.sum(%s, %s);' % (i(), self.expr(t, 1))], t == 'i32', 'argument %s for i32 of a function of a module' % t
        if c == 5:
            return ['x : *m.%s = 0 as *m.%s;' % (b('Nosuch', 'S'), r.choice(['S', b('Nosuch', 'S')]))], not bad, 'type of a module'
        if c == 6:
            return ['x := @m.%s{ %s: %s };' % (b(r.choice(['Nosuch', 'S', 'R']), 'S'), b('zz', 'a'), i())], not bad, 'struct of a module'
        if c == 7:
            return ['x := %s.%s(1, 2);' % (b('nosuch', 'm'), 'sum')], not bad, 'module of a function'
        if c == 8:
            recv = r.choice(['m.S', '*m.S', 'S', '*S', 'R', 'i32', '*m.P'])
            m = r.choice(['scale', 'plain', 'met'])
            rv = self.expr(recv, 0, suffix=True)
            return ['x := %s.%s(%s);' % (rv if rv[0] not in '*&+-' else '(%s)' % rv, m, i())], recv == {'scale': '*m.S', 'plain': 'm.S', 'met': '*S'}[m], 'method %s of %s' % (m, recv)
        if c == 9:
            return [b('x := m.none();', 'm.none();')], not bad, 'value of a void function of a module' if bad else 'call of a module'
        if c == 10:
            n = r.choice([1, 2, 2, 3])
            return ['%s := m.pair();' % ', '.join('x%d' % j for j in range(n))], n == 2, '%d names for the 2 values of a module' % n
        if c == 11:
            return ['x := @sizeof(m.%s);' % b('Nosuch', 'S')], not bad, 'size of a type of a module'
        if c == 12:
            t = self.near('i32') if bad else 'i32'
            return ['x := %s.wrap(%s);' % (r.choice(['gi', 'gj']), self.expr(t, 1))], t == 'i32', '%s for the type parameter i32' % t
        if c == 13:
            t = self.near('S') if bad else 'S'
            return ['x := gs.wrap(%s);' % self.expr(t, 1)], t == 'S', '%s for the type parameter S' % t
        t = r.choice(['gi.Box', 'gs.Box', 'm.S'])
        return ['x := %s.open(%s);' % (r.choice(['gi', 'gj']), self.expr('*' + t, 0))], t == 'gi.Box', 'pointer to %s for one to gi.Box' % t

    def s_flow(self):
        r = self.r
        c = r.randrange(7)
        if c == 0:
            # any nesting: the innermost function or loop around it decides
            w = r.choice(['break;', 'continue;'])
            ok, text, names = self.in_loop, [], []
            for j in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
                k, after = 'y%d' % j, '}'
                how, head = r.choice([('loop', 'for %s := 0; %s < 2; ++%s {' % (k, k, k)), ('loop', 'for %s := 0; %s < 2; ++%s {' % (k, k, k)), ('loop', 'for {'), ('loop', 'for 0 {'),
                                      ('function', '%s := func() void {' % k), ('function', '%s := func(a i32) i32 {' % k), ('function', 'func f%s() void {' % k),
                                      ('function', 'func f%s(a i32) i32 {' % k), ('block expression', '%s := :i32 {' % k), ('block expression', '%s := plus(1, :i32 {' % k),
                                      ('if', 'if 1 {'), ('else', 'if 0 { } else {'), ('else if', 'if 0 { } else if 1 {'), ('switch', 'switch 1 { case 2 {'), ('switch', 'switch 1 { default {'),
                                      ('block', '{'), ('#if', '#if 1 {'), ('header', 'for :i32 {'), ('header', 'for %s := 0; 1; %s = :i32 {' % (k, k)),
                                      ('header', 'for %s := :i32 {' % k)])
                if how == 'loop':
                    ok = True
                elif how == 'function':
                    ok = False
                if 'i32 {' in head and how != 'loop':
                    after = 'return 3; }'
                if how in ('block expression', 'function') and ':=' in head:
                    after += ');' if 'plus(' in head else ';'
                elif how == 'switch':
                    after += ' }'
                elif how == 'header':
                    after += {'for :': ' { }', 'for y': '; 1; nothing() { }' if head.endswith(':= :i32 {') else ' { }'}[head[:5]]
                names.append(how)
                text.insert(len(text) // 2, head)
                text.insert(len(text) // 2 + 1, after)
            text.insert(len(text) // 2, 'if 1 { %s }' % w)
            return text, ok, '%s in %s' % (w, ', '.join(names) or 'nothing else')
        if c == 1 and r.random() < .7:
            f = flow.Flow(r)
            b = f.body(r.choice([1, 2, 2]))
            if len(str(b)) > 1500:
                return None
            t = f.text(b, '').rstrip().split('\n')
            head, tail = r.choice([('x := func(n i32, a i32) i32 {', '};'), ('x := func(n i32, a i32) i32 {', '};'), ('n := 1; a := 2; x := plus(1, :i32 {', '});')])
            return [head] + t + [tail], flow.returns(b) and flow.legal(b), 'paths that return a value'
        if c == 1:
            body = r.choice([('if a { return 1; }', False), ('if a { return 1; } else { return 2; }', True), ('return a;', True), ('', False),
                             ('for a { return 1; }', False), ('if a { return 1; } else if a { return 2; }', False), ('{ return 1; }', True),
                             ('if a { if a { return 1; } else { return 2; } } else { return 3; }', True), ('if a { if a { return 1; } } else { return 3; }', False),
                             ('if a { return 1; } else if a { return 2; } else { return 3; }', True), ('if a { return 1; } else { a = 3; }', False),
                             ('@unreachable();', True), ('if a { a = 2; } return a;', True)])
            f = 'x := func(a i32) i32 { %s };' if r.random() < .7 else 'x := plus(1, :i32 { a := 2; %s });'
            return [f % body[0]], body[1], 'paths that return a value: ' + body[0]
        if c == 2:
            ok = r.random() < .5
            return ['x := func() void { return %s; };' % ('' if ok else self.expr(self.ty(), 0))], ok, 'return of a value from a void function' if not ok else 'return from a void function'
        if c == 3:
            t = self.ty()
            ok = r.random() < .5
            return ['x := func() %s { return %s; };' % (t, self.expr(t, 0) if ok else '')], ok, 'return without value from a function' if not ok else 'return'
        if c == 4:
            ok = r.random() < .4
            return [r.choice(['nothing();', 'if 1 { nothing(); }']) if ok else
                    r.choice(['x := nothing();', 'x := [1]i32{ nothing() };', 'plus(nothing(), 1);', 'x := nothing() + 1;', 'if nothing() { }', '@print(nothing());', 'x := @S{ a: nothing() };',
                              'v%s = nothing();' % self.n('i32'), 'x := !nothing();', 'x := &nothing();', 'x := nothing() as i32;', 'x := func() i32 { return nothing(); };'])], ok, 'value of a void call' if not ok else 'void call'
        if c == 5:
            ok = r.random() < .4
            return [r.choice(['x := 0 as *void;', 'x := func(a *void) void { };', 'x : *void = 0 as *void;']) if ok else
                    r.choice(['x : void = 1;', 'x := func(a void) i32 { return 1; };', 'x := 1 as void;', 'x := @alloc(void, 3);', 'x := [2]void{1, 2};', 'x : [2]void = 1;'])], ok, 'void type' if not ok else 'pointer to void'
        k = r.choice(INTS)
        u = k if r.random() < .5 else r.choice(NUM)
        return ['switch %s {' % self.expr(k, 0), '    case %s { }' % ("'c'" if u == 'i8' else '3' if u == 'i32' else '3 as ' + u), '    default { }', '}'], k == u, 'case of %s in a switch on %s' % (u, k)

    def s_place(self):
        """Declarations and statements where they may be and where not."""
        r = self.r
        decl = r.choice(['struct Lz { a i32 }', 'union Lz { a i32 b f32 }', 'type Lz = i32;', 'extern func labs(i64) i64;', 'import lz, "./nothing.cd";',
                         'struct Lz { a i32 } y : Lz = @Lz{ a: 1 };', 'type Lz = *S;'])
        free = r.choice(['const lz := 3;', 'lz := 3;', 'lz : i32 = 4;', 'lz := "text";', '#if 0 { nothing(); }', '#if 1 { const lz := 3; }', '#if 0 { struct Lz { a i32 } }',
                         'struct Lz { a i32 }' if self.top else 'lz := [1]i32{3};', 'union Lz { a i32 b f32 }' if self.top else '{ }',
                         'type Lz = i32;' if self.top else 'nothing();', 'extern func labs(i64) i64;' if self.top else ';'[:0] + 'lz := plus(1, 2);'])
        inner = r.choice(['if 1 { }', 'if 0 { } else { nothing(); }', 'for 0 { }', 'for { }', 'for z := 0; z < 3; ++z { }', 'switch 1 { default { } }', 'return;', 'gtop = 3;',
                          '++gtop;', '--gtop;', 'nothing();', 'plus(1, 2);', '@print(1);', '{ z := 3; }', '{ }', 'gtop;', '3;', 'z, y := 1, 2;', 'gtop, gtop = 1, 2;',
                          '@unreachable();', '@free(0 as *i8);', '"text";', 'gtop = gtop + 1;'])
        if self.top and self.mods and self.imports and r.random() < .6:
            # two types are needed
            f, need = r.choice([('tq', 2), ('tq', 2), ('tg', 1)])
            n = r.choice([0, 1, 1, 2, 2])
            ts = r.sample(self.pool, n)
            unknown = n >= need and r.random() < .2
            if unknown:
                ts[r.randrange(need)] = r.choice(['Nosuch', '*Nosuch', 'm.Nosuch', 'nosuch.S', '[2]Nosuch'])
            return ['import lz, %s"./%s.cd";' % (''.join(t + ', ' for t in ts), f)], n >= need and not unknown, '%d types for the %d of a file' % (n, need) if not unknown else 'unknown type as a type argument'
        if self.top:
            bad = r.random() < .6
            st = inner if bad else free
            if r.random() < .3:
                st = '#if %s { %s }' % (r.choice(['1', 'LINUX']), st)
            return ['gtop := 1;', st], not bad, '%s at the top level' % st
        bad = r.random() < .6
        st = decl if bad else free
        if r.random() < .2:
            st = '#if %s { %s }' % (r.choice(['1', 'LINUX']), st)
        return [st], not bad, '%s in a function' % st

    def case(self):
        r = self.r
        self.top = r.random() < .03
        self.mods = r.random() < .3
        self.pool = r.sample(TYPES, 4) + r.sample(NUM, 2) + r.sample(['A', 'Q', 'B', 'V'], 1) * (r.random() < .3)
        self.pool += [show(compose(r, 3)) for _ in range(r.choice([0, 1, 2]))]
        self.pool = [canon(t) for t in self.pool]
        if self.mods:
            self.pool += r.sample(MODTYPES, 3)
        wraps, self.in_loop = [], False
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            w = r.choice(['{', 'if 1 {', 'for {', 'for i := 0; i < 2; ++i {', 'if 0 { } else {', 'switch 1 { default {', 'w := func() void {', 'w := :i32 {', 'if 0 { } else if 1 {'])
            self.in_loop = w.startswith('for') or self.in_loop and not w.startswith('w := func')
            wraps.append(w)
        while True:
            f = r.choice([self.s_exact] * 6 + [self.s_cond] * 2 + [self.s_index] * 2 + [self.s_binary] * 4 + [self.s_cast, self.s_call, self.s_call, self.s_count, self.s_long, self.s_name, self.s_name, self.s_flow, self.s_flow, self.s_const] + [self.s_module] * 6 * self.mods)
            z = r.random()
            if self.top or z < .02:
                f = self.s_place
            elif z < .03:
                f = self.s_asm
            st = f()
            if st and st[1] is not None:
                break
        body, ok, what = st
        noise = lambda: ['%s = %s;' % (self.expr(t, 0, True), self.expr(t, 1)) for t in [self.ty()]] if r.random() < .6 else []
        before = [x for w in range(r.randint(0, 2)) for x in noise()]
        after = [x for w in range(r.randint(0, 2)) for x in noise()]
        pre = list(PRE)
        if self.mods:
            pre[4:4] = r.sample(IMPORTS, len(IMPORTS))
        # every type that appeared gets its declarations
        done, params, loc = 0, [], []
        names = list(self.used.items())
        for t, k in names:
            pre.append('struct H%s { n i32 f %s }' % (k, t))
        for t, k in names:
            if is_num(t) and t != 'i1':
                pre.append('g%s := %s;' % (k, '3 as ' + t if t not in FLOATS else '1.5 as ' + t))
            elif t == '*i8':
                pre.append('g%s := "g";' % k)
            pre += ['func mk%s() %s { p := @alloc(%s, 1); return *p; }' % (k, t, t), 'func take%s(x %s) void { }' % (k, t), 'func take2%s(n i32, x %s) void { }' % (k, t),
                    'func mm%s(s *S, x %s) void { }' % (k, t)]
            loc += ['v%s := mk%s();' % (k, k), 'h%s := @H%s{ n: 1, f: v%s };' % (k, k, k), 'hp%s := &h%s;' % (k, k), 'a%s := [2]%s{ v%s, v%s };' % (k, t, k, k), 'q%s := @alloc(%s, 3);' % (k, t),
                    'ft%s := take%s;' % (k, k)]
            params.append('p%s %s' % (k, t))
        lines = pre + ['func work(%s) void {' % ', '.join(params)] + ['    ' + x for x in loc]
        ind = '    '
        for x in before:
            lines.append(ind + x)
        for w in wraps:
            lines.append(ind + w)
            ind += '    '
        first = len(lines) + 1
        if not self.top:
            lines += [ind + x for x in body]
        last = len(lines)
        for w in reversed(wraps):
            if w == 'w := :i32 {':
                lines.append(ind + 'return 1;')
            ind = ind[4:]
            lines.append(ind + ('} }' if w.startswith('switch') else '};' if w.startswith('w :=') else '}'))
        lines += [ind + x for x in after] + ['}']
        if self.top:
            first = len(lines) + 1
            lines += body
            last = len(lines)
        lines += ['func main() i32 { return 0; }']
        return Case('\n'.join(lines) + '\n', ok, first, last, what)
