"""C13: imports, module names and files with type parameters."""
import copy
import importlib
import os
import random
import re
import shutil
from vf import core, decls, fuzz, lang
from vf.gen import *

CUR = None      # the module whose text is being written


def q(owner, name):
    return name if owner is CUR else '%s.%s' % (CUR.alias[owner], name)


class QStruct(Struct):
    def __init__(self, owner, lname):
        self.owner, self.lname = owner, lname
        Struct.__init__(self, owner.key + '#' + lname, None)

    def src(self):
        return q(self.owner, self.lname)

    def decl(self):
        return 'struct %s {\n%s}\n' % (self.lname, ''.join('  %s %s\n' % (n, t.src()) for n, t in self.fields))


class QVar(Var):
    def __init__(self, owner, lname, t):
        self.owner, self.lname = owner, lname
        Var.__init__(self, owner.key + '#' + lname, t)

    def s(self):
        return q(self.owner, self.lname)


class QConst(Const):
    def __init__(self, owner, lname, t, v):
        self.owner, self.lname = owner, lname
        Const.__init__(self, owner.key + '#' + lname, t, v)

    def s(self):
        return q(self.owner, self.lname)


class QFunc(Func):
    def __init__(self, owner, lname, params, rets, body):
        self.owner, self.lname = owner, lname
        Func.__init__(self, None, params, rets, body)

    @property
    def name(self):
        return q(self.owner, self.lname)

    @name.setter
    def name(self, v):
        pass


class QMethod(Call):
    def s(self):
        return '%s.%s(%s)' % (self.args[0].at(P_IDX), self.fn.lname, ', '.join(a.s() for a in self.args[1:]))


def called(t, name, owner):
    """The same type, written by another name in the module owner."""
    c = copy.copy(t)
    c.src = lambda: name if CUR is owner else t.src()
    c.plain, c.owned = t, owner
    return c


def plain(t):
    return getattr(t, 'plain', t)


POOL = ['f', 'g', 'helper', 'next', 'get', 'set', 'mk', 'sum', 'run', 'i32x', 'push']
SPOOL = ['S', 'P', 'Node', 'Box', 'Pair']
VPOOL = ['state', 'count', 'total', 'x', 'y', 'last']
CPOOL = ['K', 'LIMIT', 'ZERO']
APOOL = ['m', 'a', 'b', 'lib', 'other', 'util', 'x1']


class Mod:
    def __init__(self, key, path):
        self.key, self.path = key, path
        self.alias = {}          # Mod -> name under which this file knows it
        self.imports = []        # (alias, Mod, types, text of the path)
        self.consts, self.vars, self.funcs, self.structs = [], [], [], []
        self.init = []           # Decl of globals, in the order they run
        self.deps = []
        self.params = []

    def import_lines(self):
        return ['import %s, %s"%s";\n' % (a, ''.join(t.src() + ', ' for t in ts), p) for a, m, ts, p in self.imports]


class World:
    def __init__(self, rng, uid):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.cov = {}
        self.inst = {}
        self.templates = []      # [seed, path, number of parameters]
        self.text = {}
        self.order = []
        self.mainnames = [self.nm('w') for _ in range(4)]

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    # ---------------------------------------------------- modules
    def instance(self, i, types):
        k = (i, tuple(plain(t).key() for t in types))
        if k in self.inst:
            self.note('module shared' if not types else 'instance shared')
            return self.inst[k]
        m = Mod('%s_%d_%d' % (self.uid, i, len(self.inst)), self.templates[i][1])
        self.inst[k] = m
        Build(self, m, i, random.Random(self.templates[i][0]), [plain(t) for t in types]).build()
        self.order.append(m)
        return m

    def files(self):
        return dict(self.text)


class Build:
    """One module. For the same seed the text is the same whatever the
    types are, so nothing random may depend on them."""

    def __init__(self, w, m, i, rng, types):
        self.w, self.m, self.i, self.rng = w, m, i, rng
        self.numeric = w.templates[i][3] if i is not None else []
        self.T = []
        for n, t in enumerate(types):
            self.T.append(called(t, ['T', 'R', 'Elem'][n], m))
        m.params = self.T
        self.used = set()
        self.imported = []
        self.js = set()

    def fresh(self, pool):
        rng = self.rng
        for _ in range(8):
            n = rng.choice(pool)
            if rng.random() < 0.15:
                n = rng.choice(self.w.mainnames + (['main'] if self.i is not None else []))
            if n not in self.used:
                break
        else:
            n = 'n%d' % len(self.used)
        self.used.add(n)
        return n

    def add_import(self, j, types):
        """Import template j with the given types."""
        rng, m = self.rng, self.m
        a = self.fresh(APOOL) if self.i is not None else self.w.nm('m')
        d = os.path.dirname(m.path)
        p = os.path.relpath(self.w.templates[j][1], d or '.')
        r = rng.random()
        if not p.startswith('.'):
            p = './' + p
        if r < 0.2 and d:
            p = './../%s/%s' % (os.path.basename(d), p[2:] if p.startswith('./') else p)
        elif r < 0.3:
            p = './' + p
        x = self.w.instance(j, types)
        m.imports.append((a, x, types, p))
        m.alias.setdefault(x, a)
        if x not in self.imported:
            self.imported.append(x)
        return x

    def arg_type(self, numeric):
        """A type to instantiate a file with, from what is known here."""
        rng = self.rng
        scal = rng.choice([I8, I16, I32, I64, U8, U32, U64, F32, F64])
        own = rng.choice(self.T) if self.T else None
        ownnum = [t for t, n in zip(self.T, self.numeric) if n]
        r = rng.random()
        if numeric:
            if ownnum and r < 0.5:
                return rng.choice(ownnum)
            return scal
        if own and r < 0.4:
            return own
        ss = self.m.structs + [s for x in self.imported for s in x.structs]
        if ss and r < 0.75:
            s = rng.choice(ss)
            if self.i is not None:
                s = s
            return Ptr(s) if rng.random() < 0.15 else s
        if r < 0.85:
            return Ptr(scal)
        if r < 0.9:
            return Arr(3, scal)
        return scal

    def build(self):
        global CUR
        rng, m = self.rng, self.m
        w = self.w
        # imports
        later = []
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if self.i is not None else rng.randint(2, 5)):
            hi = self.i if self.i is not None else len(w.templates)
            if hi == 0:
                break
            j = rng.randrange(hi)
            if self.T and j in self.js:
                continue        # the same instance for some types only
            self.js.add(j)
            if rng.random() < 0.25 and (m.structs == []):
                self.struct()
            nums = w.templates[j][3]
            self.add_import(j, [self.arg_type(n) for n in nums])
        for _ in range(rng.randint(1, 2)):
            self.struct()
        for _ in range(rng.randint(1, 2)):
            self.const()
        for _ in range(rng.randint(1, 2)):
            self.var()
        for _ in range(rng.randint(2, 4)):
            self.func()
        if self.T:
            self.generic_funcs()
        save, CUR = CUR, m
        try:
            head = ''.join('type %s\n' % ['T', 'R', 'Elem'][n] for n in range(len(self.T)))
            early = [s.decl() for s in m.structs if s.early]
            decls = early + m.import_lines()
            if rng.random() < 0.3:
                decls = m.import_lines() + early
            decls += [s.decl() for s in m.structs if not s.early]
            gl = [d.s(0) for d in m.init]
            fns = [f.src() for f in m.funcs]
            rng.shuffle(fns)
            # functions may come before the types, imports and functions they use, but not before the variables
            names = {x.lname for x in m.consts + m.vars}
            first = [f for f in fns if not names & set(re.findall(r'\w+', f))]
            if rng.random() < 0.5:
                first = []
            body = first + decls + gl + [f for f in fns if f not in first]
            txt = head + ''.join(body)
        finally:
            CUR = save
        if self.i is not None:
            p = w.templates[self.i][1]
            if w.text.setdefault(p, txt) != txt:
                raise core.Broken('generator of C13: the text depends on the types:\n%s\n----\n%s' % (w.text[p], txt))

    # ---------------------------------------------------- declarations
    def scalar(self):
        return self.rng.choice([I8, I16, I32, I32, I64, U8, U16, U32, U64, F64, F32])

    def struct(self):
        rng, m = self.rng, self.m
        s = QStruct(m, self.fresh(SPOOL) if self.i is not None else self.w.nm('S'))
        fs = []
        for k in range(rng.randint(1, 4)):
            r = rng.random()
            others = m.structs + [x for y in self.imported for x in y.structs]
            if r < 0.2 and others:
                t = rng.choice(others)
            elif r < 0.45 and self.T:
                t = rng.choice(self.T)
            elif r < 0.55:
                t = Arr(rng.randint(1, 3), self.scalar())
            else:
                t = self.scalar()
            fs.append(('xyzvk'[k], t))
        s.set(fs)
        s.early = not self.imported
        m.structs.append(s)
        self.w.note('struct')

    def const(self):
        m = self.m
        t = self.scalar()
        cs = m.consts + [c for y in self.imported for c in y.consts]
        e = self.expr(t, [c for c in cs], 1)
        try:
            v = e.ev(None)
        except UB:
            e = lit(self.rng, t)
            v = e.v
        n = self.fresh(CPOOL) if self.i is not None else self.w.nm('K')
        d = ConstDecl(n, t, e)
        m.consts.append(QConst(m, n, t, v))
        d.q = m.consts[-1]
        m.init.append(d)

    def var(self):
        m = self.m
        t = self.scalar()
        e = lit(self.rng, t)
        n = self.fresh(VPOOL) if self.i is not None else self.w.nm('v')
        d = Decl(n, t, e)
        d.q = QVar(m, n, t)
        m.vars.append(d.q)
        m.init.append(d)

    def expr(self, t, ops, d):
        ex = Exprs(self.rng, ops)
        for o in ops:           # calls among the operands make it nontrivial
            pass
        return ex.gen(t, d)

    def operands(self, params):
        """What may appear in an expression of this module."""
        rng, m = self.rng, self.m
        o = [Var(n, t) for n, t in params if not t.is_agg and not isinstance(t, (Ptr, Fn)) and not hasattr(t, 'plain')]
        o += m.consts + m.vars
        for y in self.imported:
            o += y.consts + y.vars
            if y.consts or y.vars:
                self.w.note('imported value')
        for f in self.callable():
            if rng.random() < 0.6:
                o.append(Call(f, [lit(rng, t) if not o or rng.random() < 0.5 else self.expr(t, [x for x in o if not isinstance(x, Call)], 1) for _, t in f.params]))
        return o

    def callable(self):
        fs = [f for f in self.m.funcs if f.kind == 'pure']
        for y in self.imported:
            fs += [f for f in y.funcs if f.kind == 'pure']
        return [f for f in fs if f.cost < 60]

    def known(self, t):
        """Can the type be written in the file of this module?"""
        if getattr(t, 'owned', None) is self.m:
            return True
        t = plain(t)
        if isinstance(t, QStruct):
            return t.owner in self.m.alias or t.owner is self.m
        if isinstance(t, Ptr):
            return self.known(t.to)
        if isinstance(t, Arr):
            return self.known(t.el)
        if isinstance(t, Fn):
            return all(self.known(x) for x in t.params + t.rets)
        return True

    def func(self):
        rng, m = self.rng, self.m
        k = rng.choice(['pure', 'pure', 'mk', 'method', 'method', 'apply'])
        n = self.fresh(POOL) if self.i is not None else self.w.nm('f')
        if k == 'pure':
            ps = [('p%d' % i, self.scalar()) for i in range(rng.randint(0, 3))]
            t = self.scalar()
            ops = self.operands(ps)
            body = []
            vs = m.vars + [v for y in self.imported for v in y.vars]
            for _ in range(rng.randint(0, 2)):
                v = rng.choice(vs)
                body.append(Assign(v, self.expr(v.t, ops, rng.randint(1, 2))))
                if v.owner is not m:
                    self.w.note('assignment to a variable of another module')
            if rng.random() < 0.3:
                # a local that is called like something of the module
                cand = [v for v in m.vars if v.t == I32 or True]
                v = rng.choice(cand)
                body.append(LocalDecl(v.lname, v.t, self.expr(v.t, [o for o in ops if not isinstance(o, Call)], 1)))
                ops = [o for o in ops if not self.mentions(o, v)] + [Var(v.lname, v.t)]
                self.w.note('local shadows global of a module')
            body.append(Return(self.expr(t, ops, 2)))
            f = QFunc(m, n, ps, [t], body)
            f.cost = 1 + sum(getattr(o.fn, 'cost', 1) for o in ops if isinstance(o, Call)) * 3
        elif k == 'mk':
            ss = m.structs + [s for y in self.imported for s in y.structs]
            if self.T:
                ss = m.structs
            ss = [s for s in ss if all(self.known(t) for _, t in s.fields)]
            if not ss:
                return
            s = rng.choice(ss)
            ps, vals = [], []
            for i, (fn, ft) in enumerate(s.fields):
                ps.append(('p%d' % i, ft))
                vals.append((fn, Var('p%d' % i, ft)))
            rng.shuffle(vals)
            f = QFunc(m, n, ps, [s], [Return(StructLit(s, vals))])
            f.cost = 1
        elif k == 'method':
            ss = [s for s in m.structs]
            s = rng.choice(ss)
            ptr = rng.random() < 0.5
            ps = [('self', Ptr(s) if ptr else s)]
            fs = [Field(Var('self', ps[0][1]), fn) for fn, ft in s.fields if not ft.is_agg and not hasattr(ft, 'plain')]
            for i in range(rng.randint(0, 2)):
                ps.append(('p%d' % i, self.scalar()))
            ops = self.operands(ps) + fs
            body = []
            for x in fs:
                if rng.random() < 0.4:
                    body.append(Assign(x, self.expr(x.t, ops, 1)))
            t = self.scalar()
            body.append(Return(self.expr(t, ops, 2)))
            f = QFunc(m, n, ps, [t], body)
            f.cost = 1 + sum(getattr(o.fn, 'cost', 1) for o in ops if isinstance(o, Call)) * 3
        else:
            t = self.scalar()
            r = self.scalar()
            ps = [('fn', Fn([t], [r])), ('v', t)]
            f = QFunc(m, n, ps, [r], [Return(Call(Var('fn', ps[0][1]), [Var('v', t)]))])
            f.cost = 2
        f.kind = k
        if f.cost > 60 and k != 'pure':
            return
        m.funcs.append(f)
        self.w.note('function ' + k)

    def mentions(self, o, v):
        if o is v:
            return True
        if isinstance(o, Call):
            # its text may read or its function may be called after the shadowing: only its text matters
            return any(self.names(a, v.lname) for a in o.args)
        return isinstance(o, (QVar, QConst, Var)) and getattr(o, 'lname', getattr(o, 'name', None)) == v.lname and \
            getattr(o, 'owner', None) in (None, self.m)

    def names(self, e, lname):
        for x in walk(e):
            if isinstance(x, (QVar, QConst)) and x.owner is self.m and x.lname == lname:
                return True
            if isinstance(x, Var) and not isinstance(x, QVar) and x.name == lname:
                return True
        return False

    def generic_funcs(self):
        rng, m = self.rng, self.m
        for T, num in zip(self.T, self.numeric):
            for _ in range(rng.randint(1, 3)):
                k = rng.choice(['swap', 'fill', 'pick', 'size', 'applyT'] + (['arith', 'arith', 'sumup', 'max'] if num else []))
                n = self.fresh(POOL)
                a, b = Var('a', T), Var('b', T)
                if k == 'swap':
                    ps = [('a', Ptr(T)), ('b', Ptr(T))]
                    pa, pb = Deref(Var('a', Ptr(T))), Deref(Var('b', Ptr(T)))
                    f = QFunc(m, n, ps, [], [Decl('t', T, pa), Assign(pa, pb), Assign(pb, Var('t', T))])
                elif k == 'fill':
                    p = Var('p', Ptr(T))
                    i = Var('i', I32)
                    f = QFunc(m, n, [('n', I32), ('v', T)], [Ptr(T)], [
                        Decl('p', Ptr(T), Alloc(T, Var('n', I32))),
                        For([Assign(Index(p, i), Var('v', T))], Bin('<', i, Var('n', I32)), Decl('i', I32, Lit(I32, 0)), ExprS(IncDec('++', i))),
                        Return(p)])
                elif k == 'pick':
                    f = QFunc(m, n, [('c', I1), ('a', T), ('b', T)], [T], [If([(Var('c', I1), [Return(a)])]), Return(b)])
                elif k == 'size':
                    vs = rng.choice(m.vars)
                    f = QFunc(m, n, [], [I32], [Return(SizeOf(T))])
                elif k == 'applyT':
                    ft = Fn([T], [T])
                    f = QFunc(m, n, [('fn', ft), ('a', T)], [T], [Return(Call(Var('fn', ft), [Call(Var('fn', ft), [a])]))])
                elif k == 'arith':
                    op = rng.choice('+-*')
                    f = QFunc(m, n, [('a', T), ('b', T)], [T], [Return(Bin(rng.choice('+-*'), Bin(op, a, b), Cast(Lit(I32, rng.randrange(1, 50)), T)))])
                elif k == 'sumup':
                    p, i, s = Var('p', Ptr(T)), Var('i', I32), Var('s', T)
                    f = QFunc(m, n, [('p', Ptr(T)), ('n', I32)], [T], [
                        Decl('s', T, Cast(Lit(I32, 0), T)),
                        For([Assign(s, Bin('+', s, Index(p, i)))], Bin('<', i, Var('n', I32)), Decl('i', I32, Lit(I32, 0)), ExprS(IncDec('++', i))),
                        Return(s)])
                else:
                    f = QFunc(m, n, [('a', T), ('b', T)], [T], [If([(Bin(rng.choice(['<', '>']), a, b), [Return(a)])]), Return(b)])
                f.kind, f.cost = k, 3
                m.funcs.append(f)
                self.w.note('generic ' + k)


class LocalDecl(Decl):
    pass


def walk(e):
    yield e
    for v in list(vars(e).values()):
        for x in (v if isinstance(v, (list, tuple)) else [v]):
            if isinstance(x, tuple):
                x = x[-1]
            if isinstance(x, E):
                yield from walk(x)


class Main(Build):
    """The case itself."""

    def fnfor(self, ft):
        """A function of the wanted type: of a module or of the main file."""
        rng = self.rng
        fs = [f for y in [self.m] + self.imported for f in y.funcs if f.type() == ft]
        if fs and rng.random() < 0.6:
            return rng.choice(fs)
        ps = [('p%d' % i, plain(t)) for i, t in enumerate(ft.params)]
        r = plain(ft.rets[0]) if ft.rets else None
        if r is None:
            body = []
        elif ps and plain(ps[0][1]) == r and (r.is_agg or isinstance(r, Ptr)):
            body = [Return(Var('p0', r))]
        elif r.is_agg or isinstance(r, Ptr):
            return None
        else:
            body = [Return(self.expr(r, [Var(n, t) for n, t in ps if isinstance(t, (Int, Flt))] + self.m.consts, 2))]
        f = QFunc(self.m, self.w.nm('f'), ps, [r] if r else [], body)
        f.kind, f.cost = 'given', 1
        self.m.funcs.append(f)
        return f

    def value(self, t, d=0):
        rng = self.rng
        t = plain(t)
        vs = [v for v in self.locals if v.t == t]
        if vs and rng.random() < 0.5:
            return rng.choice(vs)
        if isinstance(t, (Int, Flt)):
            return lit(rng, t)
        if isinstance(t, QStruct) and self.known(t):
            vals = [(n, self.value(ft, d + 1)) for n, ft in t.fields]
            if any(v is None for _, v in vals):
                return None
            return StructLit(t, vals)
        if isinstance(t, Arr) and self.known(t):
            vals = [self.value(t.el, d + 1) for _ in range(t.n)]
            return None if None in vals else ArrLit(t, vals)
        if isinstance(t, Ptr):
            vs = [v for v in self.locals if v.t == plain(t.to)]
            if vs:
                return Addr(rng.choice(vs))
            v = self.value(t.to, d + 1)
            if v is None:
                return None
            n = self.w.nm('l')
            self.body.append(Decl(n, plain(t.to), v))
            self.locals.append(Var(n, plain(t.to)))
            return Addr(self.locals[-1])
        if isinstance(t, Fn):
            f = self.fnfor(t)
            return FnRef(f) if f else None
        return vs[0] if vs else None

    def show(self, e, d=0):
        t = plain(e.t)
        if isinstance(t, (Int, Flt)):
            self.body.append(Print(e, ''))
        elif isinstance(t, Struct):
            for n, ft in t.fields:
                self.show(Field(e, n), d + 1)
        elif isinstance(t, Arr):
            for i in range(t.n):
                self.show(Index(e, Lit(I32, i)), d + 1)
        elif isinstance(t, Ptr) and d < 3 and not isinstance(e, Field):
            self.show(Deref(e) if not isinstance(plain(t.to), Struct) else e.__class__ and DerefOf(e), d + 1)

    def run(self):
        rng = self.rng
        self.locals, self.body = [], []
        mods = self.imported
        for _ in range(rng.randint(6, 14)):
            if not mods:
                break
            y = rng.choice(mods)
            r = rng.random()
            if r < 0.15 and y.structs:
                s = rng.choice(y.structs)
                v = self.value(s)
                if v is None:
                    continue
                n = self.w.nm('l')
                self.body.append(Decl(n, s, v, typed=rng.random() < 0.5))
                self.locals.append(Var(n, s))
                self.w.note('variable of a module type')
            elif r < 0.3 and y.vars:
                v = rng.choice(y.vars)
                self.body.append(Assign(v, self.expr(v.t, y.consts + y.vars + self.m.consts, 2)))
                self.body.append(Print(*(y.vars + [''])))
                self.w.note('main assigns a module variable')
            elif r < 0.4 and y.funcs:
                f = rng.choice(y.funcs)
                if f.kind == 'pure':
                    n = self.w.nm('h')
                    self.body.append(Decl(n, f.type(), FnRef(f)))
                    self.body.append(Print(Call(Var(n, f.type()), [lit(rng, t) for _, t in f.params]), ''))
                    self.w.note('function of a module as value')
            elif y.funcs:
                self.call(rng.choice(y.funcs))
        for y in mods:
            if y.consts + y.vars:
                self.body.append(Print(*(y.consts + y.vars + [''])))
        for v in self.locals:
            self.show(v)

    def call(self, f):
        rng = self.rng
        args = []
        for n, t in f.params:
            if n == 'p' and isinstance(t, Ptr):     # sumup
                el = plain(t.to)
                k = rng.randint(1, 4)
                nme = self.w.nm('l')
                self.body.append(Decl(nme, Arr(k, el), ArrLit(Arr(k, el), [lit(rng, el) for _ in range(k)])))
                args.append(Addr(Index(Var(nme, Arr(k, el)), Lit(I32, 0))))
                self.k = k
                continue
            if n == 'n' and f.kind in ('fill', 'sumup'):
                self.k = self.k if f.kind == 'sumup' else rng.randint(1, 4)
                args.append(Lit(I32, self.k))
                continue
            v = self.value(t)
            if v is None:
                return
            args.append(v)
        if f.kind == 'swap':
            # two places of the type
            T = plain(f.params[0][1].to)
            ps = []
            for _ in range(2):
                v = self.value(T)
                if v is None:
                    return
                n = self.w.nm('l')
                self.body.append(Decl(n, T, v))
                self.locals.append(Var(n, T))
                ps.append(self.locals[-1])
            self.body.append(ExprS(Call(f, [Addr(p) for p in ps])))
            for p in ps:
                self.show(p)
            self.w.note('call swap')
            return
        c = Call(f, args)
        if f.kind == 'method' and isinstance(args[0], Var) and rng.random() < 0.7:
            c = QMethod(f, args)
            self.w.note('method of another module')
        elif f.kind == 'method' and isinstance(args[0], Addr) and rng.random() < 0.7:
            n = self.w.nm('l')
            self.body.append(Decl(n, args[0].t, args[0]))
            c = QMethod(f, [Var(n, args[0].t)] + args[1:])
            self.w.note('method of another module through a pointer')
        self.w.note('call ' + f.kind)
        if not f.rets:
            self.body.append(ExprS(c))
            return
        t = plain(f.rets[0])
        n = self.w.nm('l')
        self.body.append(Decl(n, t, c, typed=rng.random() < 0.4 and self.known(t)))
        v = Var(n, t)
        if f.kind == 'fill':
            for i in range(self.k):
                self.show(Index(v, Lit(I32, i)))
            return
        self.locals.append(v)
        if f.kind not in ('pure',) or isinstance(t, (Int, Flt)):
            self.show(v)


class DerefOf(Deref):
    pass


class MCase(Case):
    def src(self):
        return self.txt

    def __getstate__(self):
        return {'meta': self.meta, 'expect': self.expect, 'txt': self.txt, 'entry': Func(self.entry.name, [], [], [])}

    def interpret(self, fuel=60000):
        m = Machine(fuel)
        for mod in self.order:
            for d in mod.init:
                if isinstance(d.q, QVar):
                    m.declare(d.q.name, d.t, encode(d.t, d.e.ev(m)))
        m.call(self.entry, [])
        self.expect = b''.join(m.out)
        self.machine = m
        return self.expect


def gen(rng, uid):
    global CUR
    w = World(rng, uid)
    nt = rng.randint(2, 5)
    dirs = ['', 'lib' + uid, 'lib%s/in' % uid, 'src' + uid]
    for i in range(nt):
        np = rng.choice([0, 0, 1, 1, 2])
        d = rng.choice(dirs)
        base = rng.choice(['mod', 'a', 'x'])
        p = '%s/%s.cd' % (d, base) if d else '%s_%s.cd' % (base, uid)
        if p in [t[1] for t in w.templates]:
            p = p[:-3] + '%d.cd' % i
        w.templates.append([rng.getrandbits(40), p, np, [rng.random() < 0.6 for _ in range(np)]])
    m = Mod(uid + '_main', 'main.cd')
    b = Main(w, m, None, rng, [])
    b.build()
    b.run()
    w.order.append(m)
    entry = Func('case_' + uid, [], [], b.body)
    CUR = m
    decls = [s.decl() for s in m.structs] + [d.s(0) for d in m.init] + [f.src() for f in m.funcs] + [entry.src()]
    c = MCase([], entry, [], {'cov': w.cov, 'files': w.files(), 'imports': ''.join(m.import_lines())})
    c.order = w.order
    txt = ''.join(decls)
    c.txt = txt
    for mod in w.order:
        if len(mod.params):
            w.note('instances')
        else:
            w.note('modules')
    return c


def instances(seed, b, n):
    """A file imported with two types: the types and functions of both are the same exactly when the two types are."""
    rng = random.Random('C13i:%s:%s' % (seed, b))
    cases = [decls.Instances(random.Random(rng.getrandbits(64))).case(i) for i in range(n)]
    res = {'evals': n, 'sigs': [], 'cov': {}, 'fails': [], 'samples': [cases[0][0]] if b == 0 else []}
    d = core.fresh()
    for name, txt in (('oa', decls.OTHER), ('ob', decls.OTHER), ('in', decls.TEMPLATE)):
        with open('%s/%s.cd' % (d, name), 'w') as f:
            f.write(txt)
    try:
        vs = fuzz.batch(d, [s.encode() for s, _ in cases])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (s, same), v in zip(cases, vs):
        k = 'two imports of a file with %s types' % ('the same' if same else 'different')
        res['cov'][k] = res['cov'].get(k, 0) + 1
        res['sigs'].append(core.sig(s))
        said = (fuzz.crash(v) or '\n'.join(v.get('errors') or []) or v.get('log', ''))[:1500]
        if fuzz.crash(v):
            res['fails'].append(core.Failure('no verdict', said, s))
        elif (v['stage'] == 'ok') != same:
            res['fails'].append(core.Failure('instances', 'the types of the two imports are %s, the compiler %s the program.\n%s' % (
                'the same' if same else 'different', 'accepted' if v['stage'] == 'ok' else 'rejected', said), s))
    return res


MOVED = ('c04', 'c05', 'c06', 'c07', 'c09', 'c10', 'c11', 'c12', 'c23', 'c25')


def moved(seed, b, modes):
    """Programs of the other checks as modules: the main file only calls them."""
    rng = random.Random('C13m:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    dirs = ['', 'd/', 'd/e/', 'o/']
    files, head, calls, expect = {}, '', [], []
    for k in range(rng.randint(2, 3)):
        cases = []
        for _ in range(60):
            if len(cases) == 2:
                break
            g = importlib.import_module('checks.' + rng.choice(MOVED)).gen
            try:
                # the names of one file are those of the others
                c = g(rng, 'c%d' % len(cases))
                if c is None or c.meta.get('imports') or c.meta.get('files') or c.meta.get('c'):
                    continue
                c.interpret()
            except (lang.UB, RecursionError):
                continue
            cases.append(c)
        if not cases:
            continue
        d = rng.choice(dirs)
        path = '%sw%d.cd' % (d, rng.randint(0, 1) if '%sw0.cd' % d not in files and '%sw1.cd' % d not in files else k + 2)
        generic = rng.random() < .4
        files[path] = ('type T;\n' if generic else '') + ''.join(c.src() for c in cases)
        for i, t in enumerate(rng.sample(['i32', 'u8', '*i8', '[2]i64', 'func(i32) i32'], rng.choice([1, 2])) if generic else [None]):
            name = rng.choice(['m%d%d' % (k, i), 'm%d%d' % (k, i), cases[0].entry.name + 'x%d%d' % (k, i)])
            ts = ', ' + t if t else ''
            if rng.random() < .3:
                # by a file between
                mid = '%smid%d%d.cd' % (rng.choice(dirs), k, i)
                up = '/'.join(['..'] * mid.count('/') + [path])
                files[mid] = 'import %s%s, "./%s";\n' % (name, ts, up) + ''.join('func %s() void { %s.%s(); }\n' % ((c.entry.name, name, c.entry.name)) for c in cases)
                head += 'import %s, "./%s";\n' % (name, mid)
                res['cov']['moved: by a file between'] = res['cov'].get('moved: by a file between', 0) + 1
            else:
                head += 'import %s%s, "./%s";\n' % (name, ts, path)
            calls += [(name, c) for c in cases]
            if generic:
                res['cov']['moved: instances'] = res['cov'].get('moved: instances', 0) + 1
    if not calls:
        return res
    if rng.random() < .5:
        rng.shuffle(calls)
    src = head + 'func main() i32 {\n' + ''.join('  @print("\\n#%d\\n");\n  %s.%s();\n' % (i, n, c.entry.name) for i, (n, c) in enumerate(calls))
    src += '  @print("\\n#end\\n");\n  return 0;\n}\n'
    f = core.check_program(src, [c.expect for _, c in calls], modes, files)
    res['evals'] = len(calls) * len(modes)
    res['sigs'] = [core.sig(core.norm(x)) for x in files.values()]
    res['cov']['moved: files'] = len(files)
    if f:
        res['fails'].append(f)
    return res


def body(ck):
    nb = ck.n(500, 6000)
    ck.pmap(moved, [(ck.seed, b, ('O0', 'O3') if b % 4 == 0 else ('O0',)) for b in range(ck.n(120, 2000))])
    ck.pmap(instances, [(ck.seed, b, 100) for b in range(ck.n(40, 600))])
    ck.pmap(core.generic_batch, [('C13', ck.seed, b, gen, 4, ('O0', 'O3') if b % 4 == 0 else ('O0',)) for b in range(nb)])


if __name__ == '__main__':
    core.main('C13', 'random graphs of modules in several directories: same names everywhere, shared and separate instances, files with '
              'type parameters, module variables changed from everywhere, methods and types of other modules; the trace must equal the interpreter\'s', body)
