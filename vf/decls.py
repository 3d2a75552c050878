"""Random declarations with a model of the rules about them: every mentioned type exists,
no type contains itself, void is only returned, names are declared once, and function
values have exactly the type of the function."""

PRIMS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'i1']
# types: ('p', name), ('n', name), ('m', name), ('*', t), ('[', n, t), ('f', params, ret, variadic), ('t', types), VOID
VOID = ('v',)


def src(t):
    k = t[0]
    if k in 'pn':
        return t[1]
    if k == 'm':
        return 'mo.' + t[1]
    if k == '*':
        return '*' + src(t[1])
    if k == '[':
        return '[%d]%s' % (t[1], src(t[2]))
    if k == 'f':
        return 'func(%s) %s' % (', '.join([src(x) for x in t[1]] + (['..'] if t[3] else [])), '(%s)' % src(t[2]) if t[2][0] == 't' else src(t[2]))
    if k == 't':
        return ', '.join(src(x) for x in t[1])
    return 'void'


class Item:
    def __init__(self, kind, name, **kw):
        self.kind, self.name = kind, name
        self.active = True
        self.__dict__.update(kw)


class Gen:
    """The program, or (with outer) a module that it imports, maybe with a type P."""

    def __init__(self, rng, outer=None, arg=None):
        self.r, self.outer, self.arg = rng, outer, arg
        self.p_bad = rng.choice([0, 0, 0.01, 0.03]) * (0.3 if outer else 1)
        self.tag = 'm' if outer else 'n'
        self.names = ['M%d' % i if outer and rng.random() < 0.8 else 'T%d' % i for i in range(rng.randint(1, 7))]
        self.mod = None
        self.known = set()
        self.aliases = {}
        if not outer and rng.random() < 0.5:
            arg = None
            if rng.random() < 0.5:
                arg = self.ty(2)
                while arg == VOID:
                    arg = self.ty(2)
            self.mod = Gen(rng, self, arg)
            self.mod.items = self.mod.declarations()

    # ---------------------------------------------------------- types
    def ty(self, d=2, names=None):
        """A random type; names are those that it may contain by value."""
        r = self.r
        if r.random() < self.p_bad:
            return r.choice([VOID, ('n', 'Nope'), ('m', 'Nope') if not self.outer else VOID, ('[', 2, VOID), ('f', (VOID,), VOID, False), ('n', r.choice(self.names))])
        x = r.random()
        if names is None:
            names = self.names
        if d > 0 and x < 0.15:
            return ('*', self.ty(d - 1) if r.random() > 0.08 else VOID)
        if d > 0 and x < 0.3:
            return ('[', r.choice([0, 1, 2, 3, 3]), self.ty(d - 1, names))
        if d > 0 and x < 0.4:
            return self.fn(d - 1)
        if x < 0.7 and names:
            return ('n', r.choice(names))
        if x < 0.8 and self.mod:
            return ('m', r.choice(self.mod.names))
        if x < 0.8 and self.arg:
            return ('n', 'P')
        return ('p', r.choice(PRIMS))

    def fn(self, d):
        r = self.r
        ps = tuple(self.ty(d) for _ in range(r.choice([0, 1, 1, 2])))
        ret = VOID if r.random() < 0.3 else self.ty(d) if r.random() < 0.85 else ('t', tuple(self.ty(0) for _ in range(2)))
        return ('f', ps, ret, r.random() < 0.15)

    # ---------------------------------------------------------- the rules
    def resolve(self, t, seen=()):
        """t with the aliases replaced by what they stand for."""
        k = t[0]
        if k == 'n':
            if t[1] == 'P' and self.arg:
                return self.outer.resolve(self.arg)
            a = self.aliases.get(t[1])
            return self.resolve(a, seen + (t[1],)) if a is not None and t[1] not in seen else (self.tag, t[1])
        if k == 'm':
            return self.mod.resolve(('n', t[1])) if self.mod else t
        if k == '*':
            return ('*', self.resolve(t[1], seen))
        if k == '[':
            return ('[', t[1], self.resolve(t[2], seen))
        if k == 'f':
            return ('f', tuple(self.resolve(x, seen) for x in t[1]), self.resolve(t[2], seen), t[3])
        if k == 't':
            return ('t', tuple(self.resolve(x, seen) for x in t[1]))
        return t

    def unknown(self, t, known):
        k = t[0]
        if k == 'n':
            return t[1] not in known
        if k == 'm':
            return not self.mod or t[1] not in self.mod.known
        if k == '*':
            return self.unknown(t[1], known)
        if k == '[':
            return self.unknown(t[2], known)
        if k == 'f':
            return any(self.unknown(x, known) for x in t[1]) or self.unknown(t[2], known)
        if k == 't':
            return any(self.unknown(x, known) for x in t[1])
        return False

    def voidpart(self, t):
        k = t[0]
        if k == '[':
            return t[2] == VOID or self.voidpart(t[2])
        if k == '*':
            return self.voidpart(t[1])
        if k == 't':
            return any(x == VOID or self.voidpart(x) for x in t[1])
        if k == 'f':
            return any(x == VOID or self.voidpart(x) for x in t[1]) or self.voidpart(t[2])
        return False

    def value(self, t):
        """Why t is no type of a value, or ''."""
        t = self.resolve(t)
        return 'void as a value' if t == VOID or self.voidpart(t) else ''

    def inside(self, t):
        """Names of the types whose values are part of those of t."""
        t = self.resolve(t)
        while t[0] == '[':
            t = t[2]
        return {t} if t[0] in 'nm' else set()

    # ---------------------------------------------------------- programs
    def declarations(self):
        r = self.r
        order = list(self.names)
        r.shuffle(order)
        items = []
        for i, n in enumerate(order):
            before = order[:i] if r.random() > self.p_bad * 4 else list(self.names)
            kind = r.choice(['struct', 'struct', 'union', 'type'])
            if kind == 'type':
                items.append(Item('type', n, t=self.ty(2, before)))
            else:
                fs = [('f%d' % j, self.ty(2, before)) for j in range(r.choice([0, 1, 2, 3, 4]))]
                if fs and r.random() < self.p_bad:
                    fs.append((r.choice(fs)[0], ('p', 'i32')))
                items.append(Item(kind, n, fs=fs))
        # aliases come before what mentions them, as a rule
        if r.random() > self.p_bad * 5:
            al = [x for x in items if x.kind == 'type']
            rest = [x for x in items if x.kind != 'type']
            r.shuffle(rest)
            items = al + rest
            # (those that mention a type by its name, which may be declared later, stay in their order)
        else:
            r.shuffle(items)
        for i in range(r.randint(0, 3)):
            ps = [('a%d' % j, self.ty(1)) for j in range(r.choice([0, 1, 2, 3]))]
            if ps and r.random() < self.p_bad:
                ps.append((r.choice(ps)[0], ('p', 'i32')))
            f = self.fn(1)
            items.insert(r.randint(0, len(items)), Item('func', 'fn%d' % i, ps=ps, ret=f[2]))
        for i in range(r.randint(0, 2)):
            f = self.fn(1)
            ret = f[2] if f[2][0] != 't' else VOID
            e = Item('extern', 'ext%d' % i, ps=[('', x) for x in f[1]], ret=ret, variadic=r.random() < 0.4)
            items.insert(r.randint(0, len(items)), e)
            if r.random() < 0.2:
                items.insert(r.randint(0, len(items)), Item('extern', e.name, ps=e.ps, ret=e.ret, variadic=e.variadic))
        for i in range(r.randint(0, 2)):
            items.insert(r.randint(0, len(items)), Item('global', 'gl%d' % i, const=r.random() < 0.3))
        if r.random() < self.p_bad * 4 and items:
            # a name declared again
            x = r.choice(items)
            k = r.choice(['struct', 'type', 'func', 'global', 'extern', 'union'])
            n = x.name
            y = {'struct': Item('struct', n, fs=[('a', ('p', 'i32'))]), 'union': Item('union', n, fs=[('a', ('p', 'i32'))]), 'type': Item('type', n, t=('p', 'u8')),
                 'func': Item('func', n, ps=[], ret=VOID), 'global': Item('global', n, const=False),
                 'extern': Item('extern', n, ps=[], ret=VOID, variadic=False)}[k]
            if x.kind != 'extern' or k != 'extern':
                items.insert(r.randint(0, len(items)), y)
        for x in items:
            x.macro = r.choice(['LINUX', 'LINUX', 'WINDOWS', 'MACOS']) if r.random() < 0.05 else None
            x.active = x.macro in (None, 'LINUX')
        self.aliases = {x.name: x.t for x in items if x.active and x.kind == 'type'}
        return items

    def text(self, items):
        out = 'type P;\n' if self.arg else ''
        for x in items:
            s = self.item(x)
            if x.macro:
                s = '#if %s {\n%s}\n' % (x.macro, s)
            out += s
        return out

    def case(self, path):
        """(program, module at the path or None, the rule that they break or '')."""
        r = self.r
        items = self.declarations()
        made = {x.name for x in items if x.active and x.kind in ('struct', 'union')}
        why = 'an unknown type in an import' if self.mod and self.mod.arg and self.unknown(self.mod.arg, made) else ''
        uses = [] if why else self.uses(items)
        text = ''
        if self.mod:
            text = 'import mo%s, "./%s";\n' % (', ' + src(self.mod.arg) if self.mod.arg else '', path)
            why = why or self.mod.illegal(self.mod.items, [])
        why = why or self.illegal(items, uses)
        text += self.text(items)
        text += 'func nothing() { }\nfunc two() i32, i32 {\n  return 1, 2;\n}\n'
        text += 'func main() i32 {\n' + ''.join('  ' + u[0] + '\n' for u in uses) + '  return 0;\n}\n'
        return text, self.mod and self.mod.text(self.mod.items), why

    def item(self, x):
        if x.kind in ('struct', 'union'):
            return '%s %s {\n%s}\n' % (x.kind, x.name, ''.join('  %s %s\n' % (n, src(t)) for n, t in x.fs))
        if x.kind == 'type':
            return 'type %s = %s;\n' % (x.name, src(x.t))
        if x.kind == 'func':
            return 'func %s(%s) %s {\n%s}\n' % (x.name, ', '.join('%s %s' % (n, src(t)) for n, t in x.ps), src(x.ret),
                                                '' if x.ret == VOID else '  @unreachable();\n')
        if x.kind == 'extern':
            return 'extern func %s(%s) %s;\n' % (x.name, ', '.join([src(t) for _, t in x.ps] + (['..'] if x.variadic else [])), src(x.ret))
        return '%s%s := 3;\n' % ('const ' if x.const else '', x.name)

    def uses(self, items):
        """Statements of main: (text, rule)."""
        r = self.r
        out = []
        fs = {x.name: x for x in items if x.active and x.kind in ('func', 'extern')}
        mfs = {x.name: x for x in self.mod.items if x.active and x.kind in ('func', 'extern')} if self.mod else {}
        for i in range(r.randint(0, 4)):
            k = r.choice(['cast', 'size', 'alloc', 'value', 'value', 'value', 'rest', 'lambda'])
            t = self.ty(1)
            if k == 'cast':
                out.append(('p%d := 0 as *%s;' % (i, src(t)), ('part', t)))
            elif k == 'size':
                out.append(('s%d := @sizeof(%s);' % (i, src(t)), ('known', t)))
            elif k == 'alloc':
                out.append(('h%d := @alloc(%s, 3);' % (i, src(t)), ('value', t)))
            elif k == 'lambda':
                ps = [self.ty(1) for _ in range(r.randint(0, 2))]
                names = ['a%d' % j for j in range(len(ps))]
                if len(ps) == 2 and r.random() < self.p_bad * 2:
                    names = ['a0', 'a0']
                out.append(('l%d := func(%s) void { };' % (i, ', '.join('%s %s' % (n, src(x)) for n, x in zip(names, ps))), ('lambda', names, ps)))
            elif mfs and k == 'value' and r.random() < 0.4:
                f = r.choice(list(mfs.values()))
                ft = self.mod.resolve(('f', tuple(t for _, t in f.ps), f.ret, getattr(f, 'variadic', False)))
                want = self.near(ft) if r.random() < 0.08 + self.p_bad * 5 else ft
                out.append(('v%d : %s = mo.%s;' % (i, src(want), f.name), ('same', want, ft, f.name)))
            elif fs:
                f = r.choice(list(fs.values()))
                ft = ('f', tuple(t for _, t in f.ps), f.ret, getattr(f, 'variadic', False))
                if k == 'value':
                    want = self.near(ft) if r.random() < 0.08 + self.p_bad * 5 else ft
                    out.append(('v%d : %s = %s;' % (i, src(want), f.name), ('same', want, ft, f.name)))
                elif getattr(f, 'variadic', False):
                    # arguments of the fixed parameters by way of memory, and some more
                    more, ok = [], True
                    for _ in range(r.randint(0, 3)):
                        e, good = r.choice([('1', True), ('2.5', True), ('"x"', True), ('main', True), ('main()', True), ('0 as *i8', True),
                                            ('@sizeof(i64)', True)] + ([('nothing()', False), ('two()', False)] if r.random() < 0.3 else []))
                        more.append(e)
                        ok = ok and good
                    args = ['*(0 as *%s)' % src(t) for _, t in f.ps] + more
                    out.append(('%s(%s);' % (f.name, ', '.join(args)), ('args', [t for _, t in f.ps], ok)))
        return out

    def near(self, t):
        """Another type than t, or the same in other words."""
        r = self.r
        ps, ret, var = list(t[1]), t[2], t[3]
        k = r.randrange(6)
        if k == 0:
            var = not var
        elif k == 1:
            ret = ('p', 'i32') if ret == VOID else VOID if r.random() < 0.3 else ('*', ret) if ret[0] != 't' else ('t', ret[1][::-1])
        elif k == 2 and ps:
            i = r.randrange(len(ps))
            p = ps[i]
            ps[i] = ('[', p[1] + 1, p[2]) if p[0] == '[' else p[1] if p[0] == '*' and p[1] != VOID else self.ty(1)
        elif k == 3 and ps:
            ps.pop(r.randrange(len(ps)))
        elif k == 4 and len(ps) > 1:
            ps = ps[::-1]
        else:
            # an alias for what it stands for
            if r.random() < 0.5:
                return self.resolve(t)
            ps.append(('p', r.choice(PRIMS)))
        return ('f', tuple(ps), ret, var)

    def illegal(self, items, uses):
        """The first rule that the program breaks, or ''."""
        live = [x for x in items if x.active]
        types = [x for x in live if x.kind in ('struct', 'union', 'type')]
        if len({x.name for x in types}) < len(types):
            return 'a type declared twice'
        made = {x.name for x in types if x.kind != 'type'}
        known = set(made) | ({'P'} if self.arg else set())
        self.known = known
        for x in live:
            if x.kind == 'type':
                if self.unknown(x.t, known):
                    return 'an unknown type in an alias'
                known.add(x.name)
            elif x.kind in ('struct', 'union'):
                if any(self.unknown(t, known) for _, t in x.fs):
                    return 'an unknown type of a field'
                if len({n for n, _ in x.fs}) < len(x.fs):
                    return 'a field declared twice'
        names = {}
        for x in live:
            if x.kind in ('struct', 'union'):
                for _, t in x.fs:
                    if self.value(t):
                        return self.value(t)
            elif x.kind in ('func', 'extern'):
                if any(self.unknown(t, known) for _, t in x.ps) or self.unknown(x.ret, known):
                    return 'an unknown type in a function'
                if x.kind == 'func' and len({n for n, _ in x.ps}) < len(x.ps):
                    return 'a parameter declared twice'
                for _, t in x.ps:
                    if self.value(t):
                        return self.value(t)
                if self.resolve(x.ret) != VOID and self.value(x.ret):
                    return self.value(x.ret)
            if x.kind in ('func', 'extern', 'global'):
                if x.name in names and not (x.kind == names[x.name] == 'extern'):
                    return 'a name declared twice'
                names[x.name] = x.kind
        g = {(self.tag, x.name): set().union(*[self.inside(t) for _, t in x.fs], set()) for x in types if x.kind != 'type'}
        if self.mod:
            g.update(self.mod.graph)
        self.graph = g
        state = {}

        def cyclic(n):
            if n not in g:
                return False
            if n in state:
                return state[n] == 1
            state[n] = 1
            if any(cyclic(m) for m in sorted(g[n])):
                return True
            state[n] = 2
            return False
        if any(cyclic(n) for n in sorted(g)):
            return 'a type that contains itself'
        for _, u in uses:
            if u[0] == 'same':
                want = u[1]
                if self.unknown(want, known):
                    return 'an unknown type of a variable'
                if self.value(want):
                    return self.value(want)
                if self.resolve(want) != self.resolve(u[2]):
                    return 'a function of another type'
            elif u[0] == 'lambda':
                if any(self.unknown(t, known) for t in u[2]):
                    return 'an unknown type in a function'
                if len(set(u[1])) < len(u[1]):
                    return 'a parameter declared twice'
                for t in u[2]:
                    if self.value(t):
                        return self.value(t)
            elif u[0] == 'args':
                if not u[2]:
                    return 'no value as an argument'
            else:
                if self.unknown(u[1], known):
                    return 'an unknown type in an expression'
                if u[0] == 'value' and self.value(u[1]):
                    return self.value(u[1])
                if u[0] == 'part' and self.voidpart(self.resolve(('*', u[1]))):
                    return 'void as a value'
        return ''


# ---------------------------------------------------------------- instances of one file
OTHER = '''struct S {
  a i32
}
struct R {
  a i64
}
union U {
  a i32
  b f32
}
'''
TEMPLATE = '''type P;
struct S {
  a func(P) void
  n i32
}
counter := 0;
func first(s *S) func(P) void {
  return s.a;
}
func size(s *S) i32 {
  return s.n;
}
'''


class Instances:
    """A file imported with two lists of types: one module exactly when they are the same types."""

    def __init__(self, rng):
        self.r = rng

    def ty(self, d):
        r = self.r
        x = r.random()
        if d and x < 0.2:
            return ('*', self.ty(d - 1))
        if d and x < 0.4:
            return ('[', r.choice([1, 2, 3, 11, 111]), self.ty(d - 1))
        if d and x < 0.65:
            ps = tuple(self.ty(d - 1) for _ in range(r.choice([0, 1, 1, 2])))
            ret = VOID if r.random() < 0.3 else self.ty(d - 1) if r.random() < 0.8 else ('t', tuple(self.ty(0) for _ in range(2)))
            return ('f', ps, ret, r.random() < 0.2)
        if x < 0.85:
            return ('n', r.choice(['S', 'R', 'U', 'oa.S', 'oa.R', 'oa.U', 'ob.S', 'ob.R', 'ob.U', 'A', 'B']))
        return ('p', r.choice(PRIMS))

    def resolve(self, t):
        k = t[0]
        if k == 'n' and t[1] in self.alias:
            return self.alias[t[1]]
        if k == '*':
            return ('*', self.resolve(t[1]))
        if k == '[':
            return ('[', t[1], self.resolve(t[2]))
        if k == 'f':
            return ('f', tuple(self.resolve(x) for x in t[1]), self.resolve(t[2]), t[3])
        if k == 't':
            return ('t', tuple(self.resolve(x) for x in t[1]))
        return t

    def near(self, t):
        """t with one part replaced."""
        r = self.r
        k = t[0]
        if k == 'n':
            if t[1] in self.alias and r.random() < 0.5:
                return self.alias[t[1]]
            if r.random() < 0.5:
                # the same name in another module
                n = t[1].split('.')[-1]
                return ('n', r.choice([n, 'oa.' + n, 'ob.' + n] if n not in self.alias else [n]))
            return self.ty(0)
        if k == 'p':
            return r.choice([('p', r.choice(PRIMS)), ('*', t)])
        if k == '*':
            return ('*', self.near(t[1])) if r.random() < 0.8 else t[1]
        if k == '[':
            return ('[', t[1], self.near(t[2])) if r.random() < 0.6 else ('[', r.choice([1, 2, 3, 11]), t[2])
        if k == 't':
            l = list(t[1])
            i = r.randrange(len(l))
            l[i] = self.near(l[i])
            return ('t', tuple(l if r.random() < 0.8 else l[::-1]))
        if k == 'v':
            return ('p', 'i32')
        x = r.randrange(4)
        ps = list(t[1])
        if x == 0 and ps:
            i = r.randrange(len(ps))
            ps[i] = self.near(ps[i])
            return ('f', tuple(ps), t[2], t[3])
        if x == 1:
            return ('f', t[1], self.near(t[2]) if t[2] != VOID or r.random() < 0.5 else t[2], t[3])
        if x == 2:
            return ('f', t[1], t[2], not t[3])
        return ('f', tuple(ps[::-1]) if r.random() < 0.5 else tuple(ps[:-1]), t[2], t[3])

    def case(self, i):
        """(program, files, whether it is legal)"""
        r = self.r
        self.alias = {'A': ('p', r.choice(PRIMS)), 'B': ('n', r.choice(['S', 'R', 'oa.S', 'ob.U']))}
        a = self.ty(3)
        b = a if r.random() < 0.3 else self.near(a)
        if r.random() < 0.3:
            b = self.near(b)
        if VOID in (a, b) or 't' in (a[0], b[0]):
            a = b = ('p', 'i32')
        same = self.resolve(a) == self.resolve(b)
        uses = ['x : *ma.S = 0 as *mb.S;', 'x := 0 as *ma.S; x = 0 as *mb.S;', 'x := ma.size(0 as *mb.S);', 'x := (0 as *mb.S).a; x = (0 as *ma.S).a;',
                'x := [1]*ma.S{0 as *mb.S};', 'f := ma.size; f = mb.size;', 'x : func(%s) void = (0 as *mb.S).a;' % src(a), 'y : func(%s) void = mb.first(0 as *mb.S);' % src(a),
                'x := @ma.S{a: *(0 as *func(%s) void), n: 1};' % src(b)]
        s = 'import oa, "./oa.cd";\nimport ob, "./ob.cd";\n' + OTHER
        s += ''.join('type %s = %s;\n' % (n, src(t)) for n, t in self.alias.items())
        s += 'import ma, %s, "./in.cd";\nimport mb, %s, "%s";\n' % (src(a), src(b), r.choice(['./in.cd', './in.cd', '././in.cd', './x/../in.cd']))
        s += 'func main() i32 {\n  %s\n  return 0;\n}\n' % r.choice(uses)
        return s, same
