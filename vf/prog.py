"""Random generation of whole functions: statements, scopes, aggregates,
pointers, functions. A check gives the weights of what it is about."""
from .gen import *


class V:
    """A variable in scope."""

    def __init__(self, name, t, ro=False, depth=0):
        self.name, self.t, self.ro, self.depth = name, t, ro, depth


DEFAULT = dict(print=4, decl=3, assign=4, multidecl=1, multiassign=1, incdec=1, ifs=2, for3=1, forcond=1, forinf=0.5,
               switch=1, block=0.7, ret=0.3, brk=1, call=1, ptr=0, aggdecl=0, aggassign=0, blockexpr=0, lam=0, clash=0)


class PExprs(Exprs):
    """Expressions with calls, traces, aggregates' parts."""

    def __init__(self, pg, types, **kw):
        Exprs.__init__(self, pg.rng, [], types=types, **kw)
        self.pg = pg

    def leaf(self, t):
        pg, rng = self.pg, self.rng
        r = rng.random()
        if t in pg.scal and r < pg.k['p_trace']:
            self.note('traced operand')
            return pg.traced(lit(rng, t) if rng.random() < 0.4 else self.place(t))
        if r < pg.k['p_trace'] + pg.k['p_call']:
            c = pg.call_for(t)
            if c is not None:
                self.note('call operand')
                return c
        if r > 1 - pg.k['p_blockexpr'] and pg.blockdepth < 2:
            b = pg.blockexpr(t)
            if b is not None:
                self.note('block expression')
                return b
        return self.place(t)

    def place(self, t):
        vs = self.pg.places(t)
        if vs and self.rng.random() < 0.8:
            return self.rng.choice(vs)
        return lit(self.rng, t)


def has_part(a, t):
    """Whether a value of type a has a part of type t."""
    if isinstance(a, Struct):
        return a == t or any(has_part(ft, t) for _, ft in a.fields)
    return a == t or isinstance(a, Arr) and has_part(a.el, t)


class PG:
    """Generates one case. knobs: weights of statement kinds, and
    p_trace, p_call, p_blockexpr, p_shadow, depth, budget, types, structs."""

    def __init__(self, rng, uid, **knobs):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.k = dict(p_trace=0.0, p_call=0.0, p_blockexpr=0.0, p_shadow=0.0, depth=3, budget=25, structs=0, arrays=False,
                      expr=2, unions=0, p_nobrace=0.0, p_rec=0.0, p_part=0.0)
        self.w = dict(DEFAULT)
        for a, b in knobs.items():
            if a in self.w:
                self.w[a] = b
            else:
                self.k[a] = b
        self.cov = {}
        self.decls = []
        self.globals = []
        self.funcs = []       # callable Func
        self.scopes = []      # of lists of V
        self.loop = 0
        self.rets = None
        self.blockdepth = self.lamdepth = 0
        self.inlam = False
        self.fntypes = []
        self.nt = 0
        self.infn = 0
        self.inpart = 0
        self.partsleft = 12
        self.recursing = []   # [function, calls of itself left]
        self.scal = knobs.get('types') or rng.sample(INTS, 2) + [I32, rng.choice(FLTS)]
        self.scal = list(dict.fromkeys(self.scal))
        self.tracers = {}
        self.mutators = {}
        self.structs = []
        kinds = ['s'] * self.k['structs'] + ['u'] * self.k['unions']
        rng.shuffle(kinds)
        for x in kinds:
            self.new_struct() if x == 's' else self.new_union()
        if self.k['unions'] and rng.random() < 0.8:
            # a union between other members
            u = rng.choice([s for s in self.structs if isinstance(s, Union)])
            fs = [(self.nm('f'), self.member_type(False)) for _ in range(rng.randint(1, 3))]
            fs.insert(rng.randrange(len(fs)), (self.nm('f'), u))
            s = Struct(self.nm('S'), fs)
            self.structs.append(s)
            self.decls.append(s)

    def note(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    # ------------------------------------------------------------ types
    def member_type(self, deep=True):
        rng = self.rng
        r = rng.random()
        if deep and self.structs and r < 0.3:
            return rng.choice(self.structs)
        if deep and r < 0.5:
            # (an array literal takes no member of a union as an element)
            sts = [s for s in self.structs if isinstance(s, Struct)]
            return Arr(rng.randint(1, 4), self.member_type(False) if rng.random() < 0.8 or not sts else rng.choice(sts))
        return rng.choice(self.scal)

    def new_struct(self):
        n = self.nm('S')
        s = Struct(n, [(self.nm('f'), self.member_type()) for _ in range(self.rng.randint(1, 5))])
        self.structs.append(s)
        self.decls.append(s)
        return s

    def new_union(self):
        n = self.nm('U')
        ts = []
        for _ in range(self.rng.randint(1, 4)):
            t = self.member_type(self.rng.random() < 0.3)
            sts = [s for s in self.structs if isinstance(s, Struct)]
            if sts and self.rng.random() < 0.3:
                t = Arr(self.rng.randint(1, 4), self.rng.choice(sts))
            if t not in ts and not isinstance(t, Union):
                ts.append(t)
        if not ts:
            ts = [self.rng.choice(self.scal)]
        u = Union(n, [(self.nm('m'), t) for t in ts])
        self.structs.append(u)
        self.decls.append(u)
        return u

    def agg_type(self):
        rng = self.rng
        if self.structs and rng.random() < 0.7:
            return rng.choice(self.structs)
        el = self.member_type()
        while isinstance(el, Union):
            el = self.member_type()
        return Arr(rng.randint(1, 4), el)

    # ------------------------------------------------------------ places
    def visible(self):
        """Variables a name refers to here."""
        seen, out = set(), []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name not in seen:
                    seen.add(v.name)
                    out.append(v)
        return out

    def parts(self, e, t, want, out, d=0):
        """Places of type want within place e of type t."""
        if t == want:
            out.append(e)
        if d > 4:
            return
        if isinstance(t, Struct):
            for f, ft in t.fields:
                self.parts(Field(e, f), ft, want, out, d + 1)
        elif isinstance(t, Union):
            for f, ft in t.fields:
                if ft == want or isinstance(ft, (Struct, Arr)):
                    self.parts(Field(e, f), ft, want, out, d + 1)
        elif isinstance(t, Arr):
            idx = self.index(t.n)
            self.parts(Index(e, idx), t.el, want, out, d + 1)
        elif isinstance(t, Ptr) and not isinstance(t.to, Void):
            if isinstance(t.to, Struct) and self.rng.random() < 0.7:
                for f, ft in t.to.fields:
                    self.parts(Field(e, f), ft, want, out, d + 1)
            else:
                self.parts(Deref(e) if self.rng.random() < 0.7 else Index(e, Lit(I32, 0)), t.to, want, out, d + 1)

    def index(self, n):
        rng = self.rng
        if rng.random() < self.k['p_trace']:
            t = rng.choice([x for x in self.scal if isinstance(x, Int)])
            self.note('traced index')
            return self.traced(Lit(t, rng.randrange(n)))
        if rng.random() < 0.6:
            return Lit(rng.choice([I32, I32, U8, I64, U32, I16, U64, I8]), rng.randrange(n))
        vs = [v for v in self.visible() if isinstance(v.t, Int) and not v.t.signed]
        if vs:
            v = rng.choice(vs)
            return Bin('%', Var(v.name, v.t), Lit(v.t, n))
        if n in (1, 2, 4):
            vs = [v for v in self.visible() if isinstance(v.t, Int) and v.t.bits > 8]
            if vs:
                v = rng.choice(vs)
                return Bin('&', Var(v.name, v.t), Lit(v.t, n - 1))
        return Lit(I32, rng.randrange(n))

    def places(self, want, write=False, maxdepth=None):
        out = []
        for v in self.visible():
            if write and v.ro:
                continue
            if maxdepth is not None and v.depth > maxdepth:
                continue
            self.parts(Var(v.name, v.t), v.t, want, out)
        return out

    # ------------------------------------------------------------ expressions
    def exprs(self):
        ex = PExprs(self, [t for t in self.scal], casts=self.rng.random() < 0.5)
        ex.count = self.cov
        return ex

    def part_of_value(self, t):
        """A field or element of a value that isn't a variable."""
        rng = self.rng
        for _ in range(4):
            a = self.agg_type()
            if self.inpart and rng.random() < 0.5:
                a = self.parttype
            if has_part(a, t):
                break
        if not has_part(a, t) or self.inpart > 1 or self.blockdepth + self.infn + self.inpart > 3 or self.partsleft <= 0:
            return None
        self.partsleft -= 1
        self.parttype = a
        self.inpart += 1
        e = self.part_of(t, a)
        self.inpart -= 1
        return e

    def part_of(self, t, a):
        rng = self.rng
        e = self.call_for(a) if rng.random() < 0.4 else None
        if e is None:
            e = self.blockexpr(a) if self.k['p_blockexpr'] and rng.random() < 0.4 else self.agg_lit(a)
        while e.t != t:
            if isinstance(e.t, Struct):
                fs = [(n, ft) for n, ft in e.t.fields if has_part(ft, t)]
                e = Field(e, rng.choice(fs)[0])
            else:
                self.parttype = a
                e = Index(e, self.index(e.t.n) if rng.random() < 0.7 else self.index_value(e.t.n))
        self.note('part of a value that is no variable')
        return e

    def index_value(self, n):
        """An index that takes some computing."""
        rng = self.rng
        ts = [x for x in self.scal if isinstance(x, Int)]
        el = self.parttype
        while isinstance(el, Arr):
            el = el.el
        t = el if isinstance(el, Int) and el.bits > 2 and rng.random() < 0.7 else rng.choice(ts)
        self.infn += 1
        e = (self.part_of_value(t) if rng.random() < 0.5 else None) or self.scalar(t, 1)
        self.infn -= 1
        if t.signed:
            return Bin('&', e, Lit(t, {1: 0, 2: 1, 3: 1}.get(n, 3)))
        return Bin('%', e, Lit(t, n))

    def scalar(self, t, d=None):
        if self.k['p_part'] and self.rng.random() < self.k['p_part']:
            e = self.part_of_value(t)
            if e is not None:
                return e
        return self.exprs().gen(t, self.rng.randint(0, self.k['expr']) if d is None else d)

    def cond(self):
        rng = self.rng
        e = self.exprs().gen(I1, rng.randint(1, self.k['expr'] + 1))
        if rng.random() < self.k['p_trace']:
            e = self.traced(e)
        return e

    def traced(self, e):
        """e, printing a number when it is evaluated."""
        t = e.t
        f = self.tracers.get(t)
        if f is None:
            f = Func('t_%s_%s' % (t.src().replace('*', 'p'), self.uid), [('id', I32), ('v', t)], [t],
                     [Print(Var('id', I32), ':'), Return(Var('v', t))])
            self.tracers[t] = f
            self.decls.append(f)
        self.nt += 1
        return Call(f, [Lit(I32, self.nt), e])

    def call_for(self, t):
        if self.infn > 1:
            return None
        fs = [f for f in self.funcs if f.rets == [t]]
        if self.recursing and not self.loop and not self.lamdepth and self.recursing[-1][1] > 0 and self.recursing[-1][0].rets == [t]:
            self.recursing[-1][1] -= 1
            self.note('call of itself')
            return self.mkcall(self.recursing[-1][0])
        fs += [Var(v.name, v.t) for v in self.visible() if isinstance(v.t, Fn) and v.t.rets == [t]]
        if not fs:
            return None
        f = self.rng.choice(fs)
        return self.mkcall(f)

    def mkcall(self, f):
        self.infn += 1
        if not isinstance(f, Func):
            args = [self.anyexpr(t) for t in f.t.params]
            self.infn -= 1
            self.note('call of a function value')
            return Call(f, args)
        if getattr(f, 'fuel', False):
            own = [x for x in self.recursing if x[0] is f]
            if own:
                fuel = Bin('-', Var(f.params[0][0], I32), Lit(I32, 1))
            else:
                fuel = Lit(I32, self.rng.randint(0, 3))
            args = [fuel] + [self.anyexpr(t) for _, t in f.params[1:]]
        else:
            args = [self.anyexpr(t) for _, t in f.params]
        self.infn -= 1
        if args and is_lv(args[0]) and isinstance(args[0].t, (Struct, Union)) and self.rng.random() < 0.4:
            self.note('method call')
            return Method(f, args)
        return Call(f, args)

    def anyexpr(self, t):
        if isinstance(t, (Int, Flt)):
            return self.scalar(t, self.rng.randint(0, 1))
        if isinstance(t, Ptr):
            return self.pointer(t)
        if isinstance(t, Fn):
            return self.fnexpr(t)
        return self.aggregate(t)

    def fnexpr(self, t):
        """A function value: a function, a variable or an anonymous function."""
        c = [FnRef(f) for f in self.funcs if f.type() == t]
        c += [Var(v.name, v.t) for v in self.visible() if v.t == t]
        if c and (self.rng.random() < 0.6 or self.lamdepth > 1):
            return self.rng.choice(c)
        return self.lam(t)

    def lam(self, t):
        """An anonymous function of type t that uses variables around it."""
        rng = self.rng
        if self.lamdepth > 1:
            return Lambda(Func('', [(self.nm('a'), pt) for pt in t.params], t.rets,
                               [Print(lit(rng, I32), '')] + ([Return(*[lit(rng, r) for r in t.rets])] if t.rets else [])))
        caps = [(v.name, v.t) for v in self.visible() if v.depth > 1]
        saved = self.scopes, self.rets, self.loop, self.inlam, self.blockdepth
        self.scopes = list(self.scopes)
        self.rets, self.loop, self.inlam = t.rets, 0, True
        self.lamdepth += 1
        self.blockdepth = 0
        params = [(self.newname('a'), pt) for pt in t.params]
        if len(set(n for n, _ in params)) < len(params):
            params = [(self.nm('a'), pt) for pt in t.params]
        self.push()
        for n, pt in params:
            self.add(n, pt)
        self.push()
        body = []
        for _ in range(rng.randint(1, 4)):
            body += self.stmt(1 if self.lamdepth < 2 else 0)
            if isinstance(body[-1], Return):
                break
        if t.rets and not isinstance(body[-1], Return):
            body.append(Return(*[self.anyexpr(r) for r in t.rets]))
        self.scopes, self.rets, self.loop, self.inlam, self.blockdepth = saved
        self.lamdepth -= 1
        self.note('anonymous function, nested %d, %s' % (self.lamdepth, 'in a loop' if self.loop else 'outside loops'))
        return Lambda(Func('', params, t.rets, body, caps))

    def fntype(self):
        rng = self.rng
        if self.fntypes and rng.random() < 0.6:
            return rng.choice(self.fntypes)
        t = Fn([rng.choice(self.scal) for _ in range(rng.randint(0, 2))], [rng.choice(self.scal)] if rng.random() < 0.8 else
               [rng.choice(self.scal) for _ in range(rng.choice([0, 2]))])
        self.fntypes.append(t)
        return t

    def s_lam(self, d):
        if self.lamdepth > 1:
            return None
        rng = self.rng
        vs = [v for v in self.visible() if isinstance(v.t, Fn) and not v.ro]
        if vs and rng.random() < 0.3:
            v = rng.choice(vs)
            self.note('function value assigned')
            return Assign(Var(v.name, v.t), self.fnexpr(v.t))
        t = self.fntype()
        e = self.fnexpr(t)
        n = self.nm('l')
        self.add(n, t)
        return Decl(n, t, e, typed=rng.random() < 0.3)

    def pointer(self, t, maxdepth=None):
        """A pointer that stays valid while variables up to maxdepth live."""
        rng = self.rng
        c = [Addr(p) for p in self.places(t.to, maxdepth=maxdepth, write=True)]
        if rng.random() < 0.3:
            c = [Var(v.name, v.t) for v in self.visible() if v.t == t and (maxdepth is None or v.depth <= maxdepth)] or c
        if c:
            return rng.choice(c)
        return Alloc(t.to, Lit(I32, rng.randint(1, 3))) if t.to.is_agg and False else Addr(self.anyexpr_rvalue(t.to))

    def anyexpr_rvalue(self, t):
        if isinstance(t, (Int, Flt)):
            return Paren(lit(self.rng, t))
        return self.agg_lit(t)

    def agg_lit(self, t):
        rng = self.rng
        if isinstance(t, Struct):
            fs = list(t.fields)
            rng.shuffle(fs)
            return StructLit(t, [(n, self.member(ft)) for n, ft in fs])
        if isinstance(t, Arr):
            return ArrLit(t, [self.member(t.el) for _ in range(t.n)])
        raise AssertionError(t)

    def member(self, t):
        rng = self.rng
        if isinstance(t, (Int, Flt)):
            return self.scalar(t, rng.choice([0, 0, 1]))
        if isinstance(t, Union):
            return self.union_init(t)
        return self.aggregate(t)

    def union_init(self, t):
        ft = self.rng.choice(t.fields)[1]
        return self.member(ft) if not isinstance(ft, Union) else self.aggregate(ft)

    def aggregate(self, t):
        rng = self.rng
        r = rng.random()
        if r < 0.5:
            ps = self.places(t)
            if ps:
                return rng.choice(ps)
        if r < 0.7:
            c = self.call_for(t)
            if c is not None:
                return c
        if isinstance(t, Union):
            return self.union_init(t)
        return self.agg_lit(t)

    def blockexpr(self, t):
        """`:T { ... return e; }`"""
        self.blockdepth += 1
        self.push()
        saved = self.rets, self.loop
        self.rets, self.loop = None, 0
        value = self.scalar if isinstance(t, (Int, Flt)) else self.anyexpr
        body = []
        for _ in range(self.rng.randint(0, 3)):
            body += self.stmt(1)
        if self.rng.random() < 0.4:
            self.rets = [t]
            body.append(If([(self.cond(), [Return(value(t))])], [Return(value(t))] if self.rng.random() < 0.4 else None))
        body.append(Return(value(t)))
        if isinstance(body[-2] if len(body) > 1 else None, If) and body[-2].other is not None and \
                isinstance(body[-2].clauses[0][1][0], Return):
            body.pop()
        self.rets, self.loop = saved
        self.pop()
        self.blockdepth -= 1
        return BlockExpr(t, body)

    # ------------------------------------------------------------ scopes
    def push(self):
        self.scopes.append([])

    def pop(self):
        self.scopes.pop()

    def add(self, name, t, ro=False):
        v = V(name, t, ro, len(self.scopes))
        self.scopes[-1].append(v)
        return v

    def newname(self, base='v'):
        if self.rng.random() < self.k['p_shadow']:
            vs = [v for v in self.visible() if not v.ro]
            if vs:
                v = self.rng.choice(vs)
                self.note('redeclared in %s scope' % ('the same' if v.depth == len(self.scopes) else 'an inner'))
                return v.name
        return self.nm(base)

    def hides(self, name, t):
        """Redeclaring a name must not change what live pointers refer to."""
        return False

    # ------------------------------------------------------------ statements
    def body(self, d, n=None):
        """Statements of a new block."""
        self.push()
        out = []
        n = n or self.rng.randint(1, 4)
        if self.rng.random() < .03:
            # a long one, of mostly simple statements
            n = self.rng.randint(8, 24)
            self.k['budget'] += n
            self.note('long body')
            d = min(d, self.rng.choice([0, 1, 1]))
        for _ in range(n):
            if self.k['budget'] <= 0:
                break
            out += self.stmt(d)
            if out and isinstance(out[-1], (Return, Break, Continue)):
                break
        if not out:
            out = [self.p_print()]
        self.pop()
        return out

    def stmt(self, d):
        rng = self.rng
        self.k['budget'] -= 1
        w = dict(self.w)
        if d <= 0 or self.k['budget'] <= 0:
            for x in ('ifs', 'for3', 'forcond', 'forinf', 'switch', 'block'):
                w[x] = 0
        if not self.loop:
            w['brk'] = 0
        if self.rets is None:
            w['ret'] = 0
        if not self.funcs and not any(isinstance(v.t, Fn) for v in self.visible()):
            w['call'] = 0
        kinds = list(w)
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        r = getattr(self, 's_' + k)(d)
        if r is None:
            return [self.p_print()]
        return r if isinstance(r, list) else [r]

    def p_print(self):
        return Print(*[self.scalar(self.rng.choice(self.scal)) for _ in range(self.rng.choice([1, 1, 1, 1, 2, 3, 5]))], '')

    def s_print(self, d):
        return self.p_print()

    def s_decl(self, d):
        t = self.rng.choice(self.scal + [I1])
        e = self.scalar(t)
        n = self.newname()
        self.add(n, t)
        return Decl(n, t, e, typed=self.rng.random() < 0.3)

    def s_assign(self, d):
        ts = list(self.scal)
        self.rng.shuffle(ts)
        for t in ts:
            ps = self.places(t, write=True)
            if ps:
                l = self.rng.choice(ps)
                self.note('assign to ' + type(l).__name__)
                return Assign(l, self.scalar(t))
        return None

    def s_multidecl(self, d):
        n = self.rng.randint(2, 3)
        ts = [self.rng.choice(self.scal) for _ in range(n)]
        fs = [f for f in self.funcs if len(f.rets) > 1]
        if fs and self.rng.random() < 0.5:
            f = self.rng.choice(fs)
            es = [self.mkcall(f)]
            ts = f.rets
            self.note('several results declared')
        else:
            es = [self.scalar(t) for t in ts]
            self.note('several variables declared')
        names = []
        for t in ts:
            nme = self.newname()
            while nme in names:
                nme = self.nm('v')
            names.append(nme)
        for nme, t in zip(names, ts):
            self.add(nme, t)
        return MultiDecl(names, ts, es)

    def s_multiassign(self, d):
        rng = self.rng
        fs = [f for f in self.funcs if len(f.rets) > 1]
        if fs and rng.random() < 0.4:
            f = rng.choice(fs)
            ls = [self.places(t, write=True) for t in f.rets]
            if all(ls):
                ls = [rng.choice(x) for x in ls]
                self.note('several results assigned')
                return MultiAssign(ls, [self.mkcall(f)])
        t = rng.choice(self.scal)
        ps = self.places(t, write=True)
        if len(ps) < 2:
            return None
        if rng.random() < 0.5:
            a, b = rng.sample(ps, 2)
            self.note('swap')
            return MultiAssign([a, b], [b, a])
        n = rng.randint(2, min(6, len(ps)))
        ls = rng.sample(ps, n)
        if rng.random() < 0.4:
            # the same places, in another order
            self.note('%d places rotated' % n)
            k = rng.randrange(1, n)
            return MultiAssign(ls, ls[k:] + ls[:k])
        self.note('several assigned')
        return MultiAssign(ls, [self.scalar(t) for _ in ls])

    def s_incdec(self, d):
        ts = [t for t in self.scal if isinstance(t, Int)]
        self.rng.shuffle(ts)
        for t in ts:
            ps = self.places(t, write=True)
            if ps:
                return ExprS(IncDec(self.rng.choice(['++', '--']), self.rng.choice(ps)))
        return None

    def s_ifs(self, d):
        rng = self.rng
        cl = [(self.cond(), self.body(d - 1)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        other = self.body(d - 1) if rng.random() < 0.5 else None
        self.note('if with %d conditions%s' % (len(cl), ' and else' if other else ''))
        return If(cl, other)

    def counter(self):
        return self.rng.choice([t for t in self.scal if isinstance(t, Int)])

    def s_for3(self, d):
        rng = self.rng
        t = self.counter()
        i = self.nm('i')
        k = rng.randint(0, 4)
        self.push()
        form = rng.random()
        if form < 0.5:
            self.add(i, t, ro=True)
            init, cond = Decl(i, t, Lit(t, 0)), Bin('<', Var(i, t), Lit(t, k))
            step = ExprS(IncDec('++', Var(i, t))) if rng.random() < 0.5 else Assign(Var(i, t), Bin('+', Var(i, t), Lit(t, 1)))
        elif form < 0.8:
            self.add(i, t, ro=True)
            init, cond = Decl(i, t, Lit(t, k)), Bin('>', Var(i, t), Lit(t, 0))
            step = ExprS(IncDec('--', Var(i, t))) if rng.random() < 0.5 else Assign(Var(i, t), Bin('-', Var(i, t), Lit(t, 1)))
        else:
            self.add(i, t, ro=True)
            init, cond = Decl(i, t, Lit(t, 1)), Bin('!=', Var(i, t), Lit(t, 1 << k) if k < 7 else Lit(t, 2))
            step = Assign(Var(i, t), Bin('*', Var(i, t), Lit(t, 2)))
        if rng.random() < self.k['p_trace']:
            cond = self.traced(cond)
        if isinstance(step, Assign) and rng.random() < self.k['p_trace']:
            step = Assign(step.l, self.traced(step.e))
        if rng.random() < 0.3:
            cond = Bin('&&', cond, self.cond())
        self.loop += 1
        b = self.body(d - 1)
        self.loop -= 1
        self.pop()
        self.note('for with counter')
        return For(b, cond, init, step)

    def s_forcond(self, d):
        rng = self.rng
        t = self.counter()
        i = self.nm('i')
        self.add(i, t, ro=True)
        k = rng.randint(0, 4)
        cond = Bin('<', Var(i, t), Lit(t, k))
        if rng.random() < self.k['p_trace']:
            cond = self.traced(cond)
        if rng.random() < 0.3:
            cond = Bin(rng.choice(['&&']), cond, self.cond())
        self.loop += 1
        b = self.body(d - 1)
        self.loop -= 1
        self.note('for with condition')
        return [Decl(i, t, Lit(t, 0)), For([ExprS(IncDec('++', Var(i, t)))] + b, cond)]

    def s_forinf(self, d):
        rng = self.rng
        t = self.counter()
        i = self.nm('i')
        self.add(i, t, ro=True)
        k = rng.randint(1, 4)
        stop = If([(Bin('>', IncDec('++', Var(i, t)), Lit(t, k)), [Break()])])
        self.loop += 1
        b = self.body(d - 1)
        self.loop -= 1
        self.note('for without condition')
        return [Decl(i, t, Lit(t, 0)), For([stop] + b)]

    def s_switch(self, d):
        rng = self.rng
        t = rng.choice([x for x in self.scal if isinstance(x, Int)])
        # a selector that often hits a case
        ks = rng.sample(range(0, 6), rng.randint(0, 4))
        sel = self.scalar(t) if rng.random() < 0.3 else Bin('&', Paren(self.scalar(t)), Lit(t, rng.choice([1, 3, 7])))
        many = rng.random() < 0.06
        if many:
            # most cases do little, the selector hits one of them
            ks = rng.sample(range(0, 16), rng.randint(7, 14))
            sel = Bin('&', Paren(self.scalar(t)), Lit(t, 15))
        if rng.random() < self.k['p_trace']:
            sel = self.traced(sel)
        if rng.random() < 0.2 and t.signed:
            ks = [k if rng.random() < 0.5 else -k - 1 for k in ks]
        cases = [(Lit(t, k), self.body(d - 1) if not many or rng.random() < .1 else rng.choice([[], [Print(Lit(I32, k))]])) for k in ks]
        de = self.body(d - 1) if rng.random() < 0.6 or not cases else None
        self.note('switch')
        return Switch(sel, cases, de)

    def s_block(self, d):
        self.note('block')
        return Block(self.body(d - 1))

    def s_ret(self, d):
        self.note('early return')
        st = Return(*[self.anyexpr(t) for t in self.rets])
        if self.rng.random() < 0.5:
            return If([(self.cond(), [st])])
        return st

    def s_brk(self, d):
        st = self.rng.choice([Break, Continue])()
        self.note(type(st).__name__.lower())
        if self.rng.random() < 0.7:
            return If([(self.cond(), [st])])
        return st

    def s_call(self, d):
        f = self.rng.choice(self.funcs + [Var(v.name, v.t) for v in self.visible() if isinstance(v.t, Fn)])
        self.note('call statement')
        return ExprS(self.mkcall(f))

    # aggregates and pointers
    def s_aggdecl(self, d):
        t = self.agg_type()
        e = self.aggregate(t) if not (isinstance(t, Union)) else None
        if isinstance(t, Union):
            ps = self.places(t)
            e = self.rng.choice(ps) if ps and self.rng.random() < 0.4 else self.union_init(t)
        n = self.newname('g')
        self.add(n, t)
        self.note('declare %s' % type(t).__name__)
        return Decl(n, t, e, typed=isinstance(t, Union) or self.rng.random() < 0.3)

    def agg_vars(self):
        return [v for v in self.visible() if v.t.is_agg and not v.ro]

    def s_aggassign(self, d):
        rng = self.rng
        vs = self.agg_vars()
        if not vs:
            return None
        types = []
        for v in vs:
            types.append(v.t)
            if isinstance(v.t, Struct):
                types += [ft for _, ft in v.t.fields if ft.is_agg]
            if isinstance(v.t, Arr) and v.t.el.is_agg:
                types.append(v.t.el)
        t = rng.choice(types)
        ps = self.places(t, write=True)
        if not ps:
            return None
        if len(ps) > 1 and rng.random() < 0.15 and not isinstance(t, Union):
            a, b = rng.sample(ps, 2)
            if not overlap(a, b):
                self.note('swap %s' % type(t).__name__)
                return MultiAssign([a, b], [b, a])
        l = rng.choice(ps)
        self.note('assign %s' % type(t).__name__)
        return Assign(l, self.aggregate(t) if not isinstance(t, Union) else self.union_or_place(t))

    def union_or_place(self, t):
        ps = self.places(t)
        if ps and self.rng.random() < 0.4:
            return self.rng.choice(ps)
        return self.union_init(t)

    def s_ptr(self, d):
        rng = self.rng
        ps = [v for v in self.visible() if isinstance(v.t, Ptr) and not v.ro]
        if ps and rng.random() < 0.3:
            v = rng.choice(ps)
            self.note('point elsewhere')
            e = self.pointer(v.t, maxdepth=v.depth)
            if not (isinstance(e, Addr) and not is_lv(e.e) and (self.loop or self.inlam)):
                return Assign(Var(v.name, v.t), e)
        t = rng.choice(self.scal) if rng.random() < 0.5 else self.agg_type()
        if isinstance(t, Union):
            t = rng.choice(self.scal)
        e = self.pointer(Ptr(t), maxdepth=len(self.scopes))
        n = self.nm('p')
        self.add(n, Ptr(t))
        self.note('pointer to %s' % type(t).__name__)
        return Decl(n, Ptr(t), e)

    def dump(self):
        """Print the scalars of every variable in scope."""
        out = []
        for v in sorted(self.visible(), key=lambda v: v.name):
            es = []
            scalars_of(Var(v.name, v.t), v.t, es)
            if not es:
                continue
            if len(es) > 12:
                es = self.rng.sample(es, 12)
            for i in range(0, len(es), 4):
                out.append(Print(*es[i:i + 4], ''))
        return out

    # ------------------------------------------------------------ places changed by the same expression
    def mutator(self, t):
        """A function that gives a place another value and returns the one it had."""
        f = self.mutators.get(t)
        if f is None:
            p, v, o = Var('p', Ptr(t)), Var('v', t), Var('o', t)
            say = [] if self.rng.random() < 0.5 else [Print(Lit(I32, 77), ':')]
            f = Func('mu%d_%s' % (len(self.mutators), self.uid), [('p', Ptr(t)), ('v', t)], [t],
                     say + [Decl('o', t, Deref(p)), Assign(Deref(p), v), Return(o)])
            self.mutators[t] = f
            self.decls.append(f)
        return f

    def changing(self, pl):
        """A call that changes place pl and has its former value."""
        return Call(self.mutator(pl.t), [Addr(pl), self.anyexpr(pl.t)])

    def reads(self, pl, n):
        """n values: of pl, and of calls that change it."""
        out = [self.changing(pl) if self.rng.random() < 0.5 else pl for _ in range(n)]
        i = self.rng.randrange(n - 1)
        out[i] = pl
        out[self.rng.randrange(i + 1, n)] = self.changing(pl)
        return out

    def s_clash(self, d):
        rng = self.rng
        t = rng.choice([x for x in self.scal if x != I1])
        ps = self.places(t, write=True)
        if not ps:
            return None
        pl = rng.choice(ps)
        kind = rng.choice(['print', 'operands', 'names', 'array', 'arguments', 'results', 'function', 'function', 'field', 'index',
                           'pointer', 'assigned', 'condition', 'struct'])
        self.note('changed while it is read: ' + kind)
        if kind == 'print':
            return Print(*self.reads(pl, rng.randint(2, 4)), '')
        if kind == 'operands':
            es = self.reads(pl, rng.randint(2, 4))
            e = es[0]
            for x in es[1:]:
                op = rng.choice(['+', '-', '*'] + (['&', '|', '^'] if isinstance(t, Int) else []))
                e = Bin(op, e, Paren(x) if isinstance(x, Bin) else x) if rng.random() < 0.7 else Bin(op, x, Paren(e))
            return Print(e, '')
        if kind == 'names':
            es = self.reads(pl, rng.randint(2, 4))
            ns = [self.newname() for _ in es]
            st = MultiDecl(ns, [t] * len(es), es)
            for n in ns:
                self.add(n, t)
            return [st, Print(*[Var(n, t) for n in ns], '')]
        if kind == 'array':
            es = self.reads(pl, rng.randint(2, 4))
            n = self.newname()
            at = Arr(len(es), t)
            st = Decl(n, at, ArrLit(at, es))
            self.add(n, at)
            return [st, Print(*[Index(Var(n, at), Lit(I32, i)) for i in range(len(es))], '')]
        if kind == 'struct':
            n = self.nm('S')
            es = self.reads(pl, 3)
            S_ = Struct(n, [(self.nm('f'), t) for _ in range(3)])
            self.decls.append(S_)
            v = self.newname()
            st = Decl(v, S_, StructLit(S_, [(f, e) for (f, _), e in zip(S_.fields, es)]))
            self.add(v, S_)
            return [st, Print(*[Field(Var(v, S_), f) for f, _ in S_.fields], '')]
        if kind == 'arguments':
            es = self.reads(pl, rng.randint(2, 4))
            f = Func(self.nm('f'), [('a%d' % i, t) for i in range(len(es))], [], [])
            f.body.append(Print(*[Var(a, t) for a, _ in f.params], ''))
            self.decls.append(f)
            return ExprS(Call(f, es))
        if kind == 'results':
            p = Var('p', Ptr(t))
            m = self.mutator(t)
            es = [Deref(p), Call(m, [p, lit(rng, t)]), Deref(p)]
            if rng.random() < 0.5:
                es = [es[1], es[2], Call(m, [p, lit(rng, t)])]
            f = Func(self.nm('f'), [('p', Ptr(t))], [t] * 3, [Return(*es)])
            self.decls.append(f)
            ns = [self.newname() for _ in es]
            st = MultiDecl(ns, [t] * 3, [Call(f, [Addr(pl)])])
            for n in ns:
                self.add(n, t)
            return [st, Print(*[Var(n, t) for n in ns], pl, '')]
        if kind in ('function', 'field'):
            ft = Fn([t, t][:rng.randint(1, 2)], [t])
            fs = []
            for i in range(2):
                f = Func(self.nm('f'), [('a%d' % j, t) for j in range(len(ft.params))], [t], [])
                f.body += [Print(Lit(I32, 1000 + i), ':'), Return(Var('a0', t))]
                self.decls.append(f)
                fs.append(f)
            v = self.nm('fv')
            if kind == 'field':
                S_ = Struct(self.nm('S'), [('k', t), ('call', ft)])
                self.decls.append(S_)
                st = Decl(v, S_, StructLit(S_, [('k', lit(rng, t)), ('call', FnRef(fs[0]))]))
                fp = Field(Var(v, S_), 'call')
            elif rng.random() < 0.5:
                st = Decl(v, ft, FnRef(fs[0]))
                fp = Var(v, ft)
            else:
                at = Arr(2, ft)
                st = Decl(v, at, ArrLit(at, [FnRef(fs[0]), FnRef(fs[1])]))
                fp = Index(Var(v, at), Lit(I32, 0))
            q = Var('q', Ptr(ft))
            ch = Func(self.nm('f'), [('q', Ptr(ft)), ('x', t)], [t], [Assign(Deref(q), FnRef(fs[1])), Return(Var('x', t))])
            self.decls.append(ch)
            args = [Call(ch, [Addr(fp), self.anyexpr(t)])] + [pl] * (len(ft.params) - 1)
            rng.shuffle(args)
            return [st, Print(Call(fp, args), Call(fp, [pl] * len(ft.params)), '')]
        if kind in ('index', 'pointer', 'assigned'):
            a, i = self.nm('ar'), self.nm('ix')
            at = Arr(4, t)
            sts = [Decl(a, at, ArrLit(at, [lit(rng, t) for _ in range(4)]))]
            it = I32
            if kind == 'pointer':
                start = Addr(Index(Var(a, at), Lit(I32, 0)))
                where = rng.choice(['variable', 'variable', 'field', 'field', 'element', 'through a pointer'])
                if where == 'field':
                    H = Struct(self.nm('S'), [('k', t), ('q', Ptr(t))])
                    self.decls.append(H)
                    sts.append(Decl(i, H, StructLit(H, [('q', start)])))
                    p = Field(Var(i, H), 'q')
                    if rng.random() < 0.4:
                        j = self.nm('ph')
                        sts.append(Decl(j, Ptr(H), Addr(Var(i, H))))
                        p = Field(Var(j, Ptr(H)), 'q')
                elif where == 'element':
                    A = Arr(2, Ptr(t))
                    sts.append(Decl(i, A, ArrLit(A, [start, start])))
                    p = Index(Var(i, A), Lit(I32, 1))
                else:
                    sts.append(Decl(i, Ptr(t), start))
                    p = Var(i, Ptr(t))
                    if where == 'through a pointer':
                        j = self.nm('pp')
                        sts.append(Decl(j, Ptr(Ptr(t)), Addr(p)))
                        p = Deref(Var(j, Ptr(Ptr(t))))
                q = Var('q', Ptr(Ptr(t)))
                ch = Func(self.nm('f'), [('q', Ptr(Ptr(t))), ('x', I32)], [I32],
                          [Assign(Deref(q), Addr(Index(Deref(q), Lit(I32, 1)))), Return(Var('x', I32))])
                self.decls.append(ch)
                e = Index(p, Call(ch, [Addr(p), Lit(I32, rng.randint(0, 2))]))
                if rng.random() < 0.4:
                    sts.append(Assign(e, self.anyexpr(t)))
                    sts.append(Print(*[Index(Var(a, at), Lit(I32, k)) for k in range(4)], ''))
                else:
                    sts.append(Print(e, Deref(p), ''))
                return Block(sts)
            sts.append(Decl(i, it, Lit(I32, rng.randint(0, 3))))
            iv = Var(i, it)
            m = self.mutator(it)
            ch = lambda: Call(m, [Addr(iv), Lit(I32, rng.randint(0, 3))])
            ix = lambda: Index(Var(a, at), rng.choice([iv, iv, ch()]))
            if kind == 'index':
                sts.append(Print(*[ix() for _ in range(rng.randint(2, 4))], ''))
            else:
                if rng.random() < 0.5:
                    # the place is found before the value
                    k = rng.randint(0, 3)
                    sts.append(Assign(Index(Var(a, at), iv), Index(Var(a, at), ch())))
                else:
                    n = rng.randint(2, 5)
                    sts.append(MultiAssign([ix() for _ in range(n)], [ix() for _ in range(n)]))
                sts.append(Print(*[Index(Var(a, at), Lit(I32, k)) for k in range(4)], iv, ''))
            return Block(sts)
        es = self.reads(pl, 3)
        c = Bin(rng.choice(['&&', '||']), Bin(rng.choice(['==', '<', '>=']), es[0], es[1]), Bin(rng.choice(['!=', '<=', '>']), es[2], pl))
        return [If([(c, [Print(Lit(I32, 1), pl, '')])], [Print(Lit(I32, 2), pl, '')])]

    # ------------------------------------------------------------ functions
    def func(self, n=6, maxparams=4, ret=None, ptypes=None, d=None):
        """A new function that later ones may call."""
        rng = self.rng
        pts = ptypes or self.scal
        params = [(self.nm('a'), rng.choice(pts)) for _ in range(rng.randint(0, maxparams))]
        if ret is None:
            ret = [rng.choice(pts) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            if len(ret) > 1:
                ret = [t for t in ret]
        saved = self.scopes, self.rets, self.loop, self.k['budget']
        glob = self.scopes[:1]
        self.scopes, self.rets, self.loop = list(glob), ret, 0
        self.k['budget'] = n * 2
        self.push()
        for a, t in params:
            self.add(a, t)
        self.push()
        body = []
        if rng.random() < self.k['p_rec'] and not self.recursing:
            # a function that may call itself, as deep as its first parameter says
            fuel = self.nm('n')
            f = Func(self.nm('f'), [(fuel, I32)] + params, ret, body)
            f.fuel = True
            body.append(If([(Bin('<=', Var(fuel, I32), Lit(I32, 0)), [Return(*[self.anyexpr(t) for t in ret])])]))
            self.recursing.append([f, 2])
            for _ in range(rng.randint(1, n)):
                body += self.stmt(self.k['depth'] - 1 if d is None else d)
                if isinstance(body[-1], (Return, Break, Continue)):
                    break
            if not isinstance(body[-1], Return):
                if self.recursing[-1][1] > 0:
                    self.recursing[-1][1] -= 1
                    self.note('call of itself')
                    body.append(ExprS(self.mkcall(f)))
                body += self.dump()
                if ret:
                    body.append(Return(*[self.anyexpr(t) for t in ret]))
            self.recursing.pop()
            self.scopes, self.rets, self.loop, self.k['budget'] = saved
            self.funcs.append(f)
            self.decls.append(f)
            self.note('recursive function')
            return f
        for _ in range(rng.randint(1, n)):
            body += self.stmt(self.k['depth'] - 1 if d is None else d)
            if isinstance(body[-1], (Return, Break, Continue)):
                break
        if ret and not isinstance(body[-1], Return):
            body.append(Return(*[self.anyexpr(t) for t in ret]))
        f = Func(self.nm('f'), params, ret, body)
        self.scopes, self.rets, self.loop, self.k['budget'] = saved
        self.funcs.append(f)
        self.decls.append(f)
        return f

    def add_globals(self, n, types=None):
        if not self.scopes:
            self.push()
        for _ in range(n):
            t = self.rng.choice(types or self.scal)
            nme = self.nm('g')
            self.globals.append(Decl(nme, t, lit(self.rng, t), typed=self.rng.random() < 0.5))
            self.add(nme, t)

    def case(self, n=10, dump=True):
        """The entry function of the case."""
        if not self.scopes:
            self.push()
        self.push()
        self.rets, self.loop = [], 0
        body = []
        for _ in range(n):
            body += self.stmt(self.k['depth'])
            if isinstance(body[-1], (Return, Break, Continue)):
                break
        if dump and not isinstance(body[-1], Return):
            body += self.dump()
        # the functions of a case come before those that call them
        return Case(self.decls, Func('case_' + self.uid, [], [], body), self.globals, {'cov': self.cov})


def overlap(a, b):
    """Whether two places may be nested (the same variable)."""
    def root(e):
        while not isinstance(e, Var):
            e = e.e
        return e.name
    def viaptr(e):
        while not isinstance(e, Var):
            if isinstance(e, Deref) or isinstance(e.e.t, Ptr):
                return True
            e = e.e
        return False
    return root(a) == root(b) or viaptr(a) or viaptr(b)


def scalars_of(e, t, out, d=0):
    if isinstance(t, (Int, Flt)):
        out.append(e)
    elif isinstance(t, Struct):
        for f, ft in t.fields:
            scalars_of(Field(e, f), ft, out, d + 1)
    elif isinstance(t, Arr):
        for i in range(t.n):
            scalars_of(Index(e, Lit(I32, i)), t.el, out, d + 1)
    elif isinstance(t, Union):
        # the bytes every program may look at
        for f, ft in t.fields[:1]:
            pass
    elif isinstance(t, Ptr) and isinstance(t.to, (Int, Flt)):
        out.append(Deref(e))
