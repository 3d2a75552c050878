"""C11: constants and initial values of globals."""
from vf import core, lang
from vf.gen import *

lang.IEEE = 'overflow'


class CG:
    def __init__(self, rng, uid):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.cov = {}
        self.consts = []      # Const in scope everywhere
        self.gvars = []
        self.globals, self.decls = [], []

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    def const_expr(self, t, consts, d=None):
        """An expression over literals and constants, with its value."""
        for _ in range(30):
            ex = Exprs(self.rng, consts)
            ex.paren = 0.1
            e = ex.gen(t, self.rng.randint(0, 3) if d is None else d)
            try:
                v = e.ev(None)
            except UB:
                continue
            for k, n in ex.count.items():
                self.cov['const ' + k] = self.cov.get('const ' + k, 0) + n
            return e, v
        v = value(self.rng, t)
        return Lit(t, v), v

    def typ(self):
        return self.rng.choice(INTS + FLTS + [I1])

    def show(self, e):
        """Print the value of e in ways that show all its bits."""
        es = [e]
        if isinstance(e.t, Int):
            es += [Cast(e, I64), Cast(e, U64)]
            if e.t.bits > 1:
                es.append(Bin('>=', e, Lit(e.t, 1)))
        else:
            es.append(Bin('*', e, Lit(e.t, 1000.0)))
        return Print(*es, '')

    def local(self, body, consts, vars_, depth):
        """Statements that declare and use constants."""
        rng = self.rng
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if r < 0.4:
                t = self.typ()
                e, v = self.const_expr(t, consts)
                if rng.random() < 0.3 and consts:
                    n = rng.choice(consts).name     # shadows
                    if '.' in n:
                        n = self.nm('k')
                    else:
                        self.note('shadowing constant')
                else:
                    n = self.nm('k')
                body.append(ConstDecl(n, t, e, typed=rng.random() < 0.5))
                consts = [c for c in consts if c.name != n] + [Const(n, t, v)]
                vars_ = [x for x in vars_ if x.name != n]
                body.append(self.show(consts[-1]))
                self.note('local constant')
            elif r < 0.55:
                t = self.typ()
                e, v = self.const_expr(t, consts)
                n = self.nm('v')
                if rng.random() < 0.2 and consts:
                    n = rng.choice(consts).name
                    if '.' in n:
                        n = self.nm('v')
                    else:
                        self.note('variable shadows constant')
                consts = [c for c in consts if c.name != n]
                vars_ = [x for x in vars_ if x.name != n] + [Var(n, t)]
                body.append(Decl(n, t, e))
            elif r < 0.72 and consts:
                c = rng.choice(consts)
                # the folded value against one computed when it runs
                ops = consts + vars_ * 2
                ex = Exprs(rng, ops)
                body.append(self.show(ex.gen(c.t if rng.random() < 0.5 else self.typ(), 2)))
                self.note('runtime use')
            elif r < 0.82:
                its = [c for c in consts if isinstance(c.t, Int) and c.t.bits > 1]
                if not its:
                    continue
                c = rng.choice(its)
                t = c.t
                cases, seen = [], set()
                for _ in range(rng.randint(1, 4)):
                    e, v = self.const_expr(t, consts, rng.randint(0, 2))
                    if v in seen:
                        continue
                    seen.add(v)
                    cases.append((e, [Print(Lit(I32, len(cases)), 'case')]))
                if rng.random() < 0.7 and c.v not in seen:
                    cases.insert(rng.randrange(len(cases) + 1), (c, [Print('same')]))
                on = c if rng.random() < 0.4 else Bin('^', c, Bin('^', c, Lit(t, rng.choice([c.v] + list(seen)))))
                body.append(Switch(on, cases, [Print('none')]))
                self.note('switch on constants')
            elif r < 0.9 and depth < 2:
                inner = []
                self.local(inner, list(consts), list(vars_), depth + 1)
                k = rng.choice(['block', 'if', 'for'])
                if k == 'block':
                    body.append(Block(inner))
                elif k == 'if':
                    e, v = self.const_expr(I1, consts)
                    body.append(If([(e, inner)], [Print('other')]))
                else:
                    i = self.nm('i')
                    body.append(For(inner, Bin('<', Var(i, I32), Lit(I32, 2)), Decl(i, I32, Lit(I32, 0)), ExprS(IncDec('++', Var(i, I32)))))
                self.note('nested ' + k)
            elif vars_:
                v = rng.choice(vars_)
                if v.t != I1:
                    e, _ = self.const_expr(v.t, consts)
                    body.append(Assign(v, e))
                    body.append(self.show(v))
        # everything that is visible here, at the end
        if consts:
            for c in rng.sample(consts, min(3, len(consts))):
                body.append(self.show(c))


def gen(rng, uid):
    g = CG(rng, uid)
    nm = g.nm
    files, imports = {}, []
    if rng.random() < 0.35:
        # constants of another module
        m, txt, cs = 'm' + uid, '', []
        for _ in range(rng.randint(1, 4)):
            t = g.typ()
            e, v = g.const_expr(t, cs)
            n = nm('M')
            txt += ConstDecl(n, t, e, typed=rng.random() < 0.5).s(0)
            cs.append(Const(n, t, v))
        f = 'mod_%s.cd' % uid
        files[f] = txt
        imports.append('import %s, "./%s";\n' % (m, f))
        g.consts += [Const('%s.%s' % (m, c.name), c.t, c.v) for c in cs]
        g.note('constants of a module')
    for _ in range(rng.randint(2, 6)):
        t = g.typ()
        e, v = g.const_expr(t, g.consts)
        n = nm('G')
        if rng.random() < 0.65:
            g.globals.append(ConstDecl(n, t, e, typed=rng.random() < 0.5))
            g.consts.append(Const(n, t, v))
            g.note('global constant')
        else:
            g.globals.append(Decl(n, t, e, typed=rng.random() < 0.5))
            g.gvars.append(Var(n, t))
            g.note('global variable')
    body = []
    for x in g.gvars + g.consts:
        body.append(g.show(x))
    g.local(body, list(g.consts), list(g.gvars), 0)
    funcs = []
    if rng.random() < 0.5:
        b = []
        p = nm('p')
        t = g.typ()
        g.local(b, list(g.consts), list(g.gvars) + [Var(p, t)], 1)
        f = Func(nm('f'), [(p, t)], [], b)
        g.decls.append(f)
        e, v = g.const_expr(t, g.consts)
        body[:0] = [ExprS(Call(f, [e])), ExprS(Call(f, [lit(rng, t)]))]
    if rng.random() < 0.3:
        # strings and functions
        s = ''.join(rng.choice('abcdefgh XYZ0123') for _ in range(rng.randint(0, 12)))
        n = nm('T')
        d = ConstDecl(n, STR, Str(s), typed=rng.random() < 0.5)
        (g.globals if rng.random() < 0.6 else body).append(d)
        body.append(Print(Var(n, STR), ''))
        if s:
            i = rng.randrange(len(s))
            body.append(Print(Index(Var(n, STR), Lit(I32, i)), ''))
        g.note('string constant')
        if s and rng.random() < 0.6:
            # other constants of the same name and length, in other places
            alike = []
            for _ in range(rng.randint(2, 3)):
                u = ''.join(rng.choice('abcdefgh XYZ0123') for _ in range(len(s)))
                alike.append([ConstDecl(n, STR, Str(u)), Print(Var(n, STR), Index(Var(n, STR), Lit(I32, rng.randrange(len(s)))), '')])
            if rng.random() < 0.5:
                f = Func(nm('f'), [], [], alike.pop())
                g.decls.append(f)
                body.append(ExprS(Call(f, [])))
            body += [Block(b) for b in alike]
            body.append(Print(Var(n, STR), ''))
            g.note('string constants of the same name')
    if rng.random() < 0.3:
        t = rng.choice(INTS)
        h = Func(nm('h'), [('x', t)], [t], [Return(Bin('+', Var('x', t), Lit(t, value(rng, t))))])
        g.decls.append(h)
        n = nm('F')
        how = rng.choice(['const', 'var', 'local'])
        if how == 'const':
            g.decls.append(ConstDecl(n, h.type(), FnRef(h)).s(0))
        elif how == 'var':
            g.decls.append(Decl(n, h.type(), FnRef(h)).s(0))
        a = lit(rng, t)
        call = Print(NamedCall(n, h, [a]), Call(h, [a]), '')
        if how == 'local':
            typed = rng.random() < 0.5
            call = Block([ConstDecl(n, h.type(), FnRef(h), typed=typed), call])
            if rng.random() < 0.6:
                # the constant as the value of another one, and of a variable
                k, v = nm('F'), nm('v')
                call.body += [ConstDecl(k, h.type(), Var(n, h.type())), Decl(v, h.type(), Var(rng.choice([n, k]), h.type())),
                              Print(NamedCall(k, h, [a]), NamedCall(v, h, [a]), '')]
            g.note('function as local constant')
        body.append(call)
        g.note('function as initial value')
    return Case(g.decls, Func('case_' + uid, [], [], body), g.globals,
                {'cov': g.cov, 'files': files, 'imports': ''.join(imports)})


class NamedCall(Call):
    def __init__(self, name, fn, args):
        Call.__init__(self, fn, args)
        self.name = name

    def s(self):
        return '%s(%s)' % (self.name, ', '.join(a.s() for a in self.args))


def body(ck):
    nb = ck.n(400, 5000)
    ck.pmap(core.generic_batch, [('C11', ck.seed, b, gen, 12, ('O0', 'O3')) for b in range(nb)])


if __name__ == '__main__':
    core.main('C11', 'random constant expressions over literals, earlier constants and constants of other modules as values of '
              'global and local constants, of globals and of switch labels; every value and every use must equal the interpreter\'s', body)
