"""C28: the array and map files of std behave as sequences."""
import os
import random
from vf import core
from vf.gen import *


class SCase(Case):
    def __init__(self, uid, txt, expect, meta):
        Case.__init__(self, [], Func('case_' + uid, [], [], []), [], meta)
        self.txt, self.expect = txt, expect

    def src(self):
        return self.txt

    def interpret(self, fuel=0):
        return self.expect


class Ty:
    """An element type: source name, how a value is written, how it is shown."""


class Scal(Ty):
    def __init__(self, t):
        self.t, self.name = t, t.src()

    def val(self, g):
        return value(g.rng, self.t)

    def lit(self, g, v):
        return Lit(self.t, v).s()

    def paths(self, p, v):
        return [(p, fmt(None, self.t, v).decode())]

    def change(self, g, p, v):
        """A statement that changes the place p (an *T expression is (*p)), the new value."""
        w = self.val(g)
        return '%s = %s;' % (p, self.lit(g, w)), w


class Rec(Ty):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields

    def decl(self):
        return 'struct %s {\n%s}\n' % (self.name, ''.join('  %s %s\n' % (n, t.name) for n, t in self.fields))

    def val(self, g):
        return tuple(t.val(g) for _, t in self.fields)

    def lit(self, g, v):
        fs = ['%s: %s' % (n, t.lit(g, x)) for (n, t), x in zip(self.fields, v)]
        g.rng.shuffle(fs)
        return '@%s{%s}' % (self.name, ', '.join(fs))

    def paths(self, p, v):
        return [x for (n, t), w in zip(self.fields, v) for x in t.paths('%s.%s' % (p, n), w)]

    def change(self, g, p, v):
        i = g.rng.randrange(len(self.fields))
        n, t = self.fields[i]
        s, w = t.change(g, '%s.%s' % (p, n), v[i])
        return s, v[:i] + (w,) + v[i + 1:]


class SG:
    def __init__(self, rng, uid):
        self.rng, self.nm, self.uid = rng, Names(uid), uid
        self.cov = {}
        self.imports, self.decls, self.body, self.out = [], [], [], []
        self.mods = {}           # element type -> alias of array.cd
        self.maps = {}           # (T, R) -> alias
        self.vars = []           # [name, element type, list]
        self.types = [Scal(t) for t in rng.sample(INTS + FLTS, 3)]
        for _ in range(rng.randint(0, 2)):
            r = Rec(self.nm('S'), [(n, rng.choice(self.types)) for n in 'abcd'[:rng.randint(1, 4)]])
            self.types.append(r)
            self.decls.append(r.decl())

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    def mod(self, t):
        if t not in self.mods or self.rng.random() < 0.05:
            a = self.nm('a')
            self.imports.append('import %s, %s, "./std/array.cd";\n' % (a, t.name))
            self.mods[t] = a
        return self.mods[t]

    def mapmod(self, t, r):
        if (t, r) not in self.maps:
            a = self.nm('m')
            self.imports.append('import %s, %s, %s, "./std/map.cd";\n' % (a, t.name, r.name))
            self.maps[t, r] = a
        return self.maps[t, r]

    def st(self, s):
        self.body.append('  ' + s + '\n')

    def show(self, t, p, v):
        ps = t.paths(p, v)
        self.st('@print(%s, "");' % ', '.join(x for x, _ in ps))
        self.out.append(' '.join([o for _, o in ps] + ['']))

    def number(self, e, n):
        self.st('@print(%s, "");' % e)
        self.out.append('%d ' % n)

    def call(self, a, f, x, args=(), ref=False):
        """f(x, args) as function of the module, or as method."""
        r = self.rng.random()
        args = list(args)
        if r < 0.5:
            self.note('function call')
            return '%s.%s(%s)' % (a, f, ', '.join([('&' + x) if ref else x] + args))
        if ref:
            p = self.nm('p')
            self.st('%s := &%s;' % (p, x))
            x = p
        self.note('method call')
        return '%s.%s(%s)' % (x, f, ', '.join(args))

    def step(self):
        rng = self.rng
        r = rng.random()
        if not self.vars or r < 0.12:
            t = rng.choice(self.types)
            n = self.nm('v')
            self.st('%s := %s.with_capacity(%d);' % (n, self.mod(t), rng.choice([0, 0, 1, 2, 3, 7, 20])))
            self.vars.append([n, t, []])
            self.note('with_capacity')
            return
        v = rng.choice(self.vars)
        n, t, xs = v
        a = self.mod(t)
        if r < 0.42:
            for _ in range(rng.choice([1, 1, 2, 3, 9])):
                x = t.val(self)
                self.st(self.call(a, 'push', n, [t.lit(self, x)], True) + ';')
                xs.append(x)
                self.note('push')
        elif r < 0.47:
            # many
            k = rng.randint(5, 60)
            x = t.val(self)
            i = self.nm('i')
            self.st('for %s := 0; %s < %d; ++%s { %s; }' % (i, i, k, i, '%s.push(&%s, %s)' % (a, n, t.lit(self, x))))
            xs += [x] * k
            self.note('push in a loop')
        elif r < 0.6 and xs:
            p = self.nm('r')
            self.st('%s := %s;' % (p, self.call(a, 'pop', n, [], True)))
            self.show(t, p, xs.pop())
            self.note('pop')
        elif r < 0.7 and xs:
            i = rng.randrange(len(xs))
            p = self.nm('r')
            self.st('%s := %s;' % (p, self.call(a, 'get', n, [str(i)])))
            self.show(t, p, xs[i])
            self.note('get')
        elif r < 0.8 and xs:
            i = rng.randrange(len(xs))
            p = self.nm('r')
            self.st('%s := %s;' % (p, self.call(a, 'get_ref', n, [str(i)])))
            s, w = t.change(self, '%s[0]' % p, xs[i])
            self.st(s)
            xs[i] = w
            self.note('get_ref and write')
            self.show(t, '%s.get(%s, %d)' % (a, n, i) if isinstance(t, Scal) else '%s[0]' % p, w)
        elif r < 0.87:
            # for_each with a function or an anonymous function
            self.note('for_each')
            f = self.nm('f')
            if rng.random() < 0.5:
                # shows the elements
                one = t.paths('e[0]', t.val(self))
                b = '@print(%s, "");' % ', '.join(x for x, _ in one)
                self.fn(a, n, f, 'e *%s' % t.name, b)
                for x in xs:
                    self.out.append(' '.join([o for _, o in t.paths('', x)] + ['']))
            else:
                s, w = t.change(self, 'e[0]', t.val(self))
                self.fn(a, n, f, 'e *%s' % t.name, s)
                xs[:] = [self.apply(t, s, w, x) for x in xs]
        elif r < 0.95:
            # map
            u = rng.choice(self.types)
            m = self.mapmod(t, u)
            f = self.nm('f')
            w = self.nm('v')
            if u is t and rng.random() < 0.6:
                b = 'return e[0];'
                ys = list(xs)
            elif isinstance(t, Rec) and rng.random() < 0.7 and [k for k, (_, x) in enumerate(t.fields) if x is u]:
                k = rng.choice([k for k, (_, x) in enumerate(t.fields) if x is u])
                b = 'return e[0].%s;' % t.fields[k][0]
                ys = [x[k] for x in xs]
            elif isinstance(u, Rec) and [x for _, x in u.fields if x is t]:
                vs = [None if x is t else x.val(self) for _, x in u.fields]
                b = 'return @%s{%s};' % (u.name, ', '.join('%s: %s' % (n2, 'e[0]' if x is t else x.lit(self, y)) for (n2, x), y in zip(u.fields, vs)))
                ys = [tuple(z if x is t else y for (_, x), y in zip(u.fields, vs)) for z in xs]
            else:
                y = u.val(self)
                b = 'return %s;' % u.lit(self, y)
                ys = [y for _ in xs]
            b2 = ('@print("<%s>"); ' % f) + b
            self.out.append('<%s>' % f * len(xs))
            sig = '(e *%s) %s' % (t.name, u.name)
            if rng.random() < 0.5:
                self.decls.append('func %s%s { %s }\n' % (f, sig, b2))
                arg = f
            else:
                arg = 'func%s { %s }' % (sig, b2)
            self.st('%s := %s.map(%s, %s);' % (w, m, n, arg))
            self.vars.append([w, u, ys])
            self.mod(u)
            self.note('map')
        else:
            # handed over by value to a function and back
            f = self.nm('f')
            self.decls.append('func %s(x %s.Array) %s.Array { @print(x.length, ""); return x; }\n' % (f, a, a))
            self.st('%s = %s(%s);' % (n, f, n))
            self.out.append('%d ' % len(xs))
            self.note('passed and returned')
        self.number(n + '.length', len(xs))
        self.number('(%s.length <= %s.capacity) as i32' % (n, n), 1)

    def apply(self, t, s, w, x):
        """The effect of the statement s (made for another value) on x."""
        if isinstance(t, Scal):
            return w
        path = s.split(' = ')[0].split('.')[1:]
        return self.setp(t, path, x, w)

    def setp(self, t, path, x, w):
        if not path:
            return w
        i = [n for n, _ in t.fields].index(path[0])
        return x[:i] + (self.setp(t.fields[i][1], path[1:], x[i], w[i]),) + x[i + 1:]

    def fn(self, a, n, f, param, b):
        if self.rng.random() < 0.5:
            self.decls.append('func %s(%s) void { %s }\n' % (f, param, b))
            arg = f
        else:
            arg = 'func(%s) void { %s }' % (param, b)
        self.st(self.call(a, 'for_each', n, [arg]) + ';')


def gen(rng, uid):
    g = SG(rng, uid)
    for _ in range(rng.randint(5, 30)):
        g.step()
    for n, t, xs in g.vars:
        g.number(n + '.length', len(xs))
        for i, x in enumerate(xs):
            g.show(t, '%s.ptr[%d]' % (n, i), x)
            if i > 20:
                break
    if rng.random() < 0.5:
        for n, t, xs in g.vars:
            g.st('@free(%s.ptr);' % n)
    files = {'std/' + f: open(os.path.join(core.REPO, 'std', f)).read() for f in ('array.cd', 'map.cd')}
    txt = ''.join(g.decls) + 'func case_%s() void {\n%s}\n' % (uid, ''.join(g.body))
    return SCase(uid, txt, ''.join(g.out).encode(), {'cov': g.cov, 'files': files, 'imports': ''.join(g.imports)})


EMPTY = '''import a, %s, "./std/array.cd";
%s
func main() i32 {
  v := a.with_capacity(%d);
%s  @print("before", "");
  x := a.pop(&v);
  @print("after", v.length);
  return 0;
}
'''


def empty(seed, b):
    """pop on an empty array does not return."""
    import shutil
    rng = random.Random('C28e:%d:%d' % (seed, b))
    t, d = rng.choice([('i32', ''), ('f64', ''), ('S', 'struct S { a i32 b i64 }'), ('u8', '')])
    k = rng.randint(0, 5)
    src = EMPTY % (t, d, rng.randint(0, 4), '  a.push(&v, %s); a.pop(&v);\n' % {'i32': '3', 'f64': '2.5 as f64', 'u8': '7 as u8', 'S': '@S{a: 1, b: 2 as i64}'}[t] * k)
    files = {'std/' + f: open(os.path.join(core.REPO, 'std', f)).read() for f in ('array.cd', 'map.cd')}
    res = {'evals': 0, 'sigs': [core.sig(src)], 'cov': {'pop of an empty array': 1}, 'fails': [], 'samples': []}
    dd = core.fresh()
    try:
        c = core.compile_src(src, dd, files=files)
        if not c.ok:
            res['fails'].append(core.Failure('rejected', c.describe(), src, files=files))
            return res
        for mode in ('O0', 'O3'):
            exe = os.path.join(dd, 'e' + mode)
            r = core.link(c.ll, exe, mode, (), dd)
            if r.code:
                res['fails'].append(core.Failure('invalid code', r.err.decode()[:500], src, files=files))
                return res
            r = core.execute(exe, mode, dd)
            res['evals'] += 1
            if r.code == 0 or b'after' in r.out:
                res['fails'].append(core.Failure('wrong output', 'pop of an empty array returned (%s): status %s' % (mode, r.code), src,
                                                 b'the program ends', r.out[-500:], files=files))
                return res
    finally:
        shutil.rmtree(dd, ignore_errors=True)
    return res


LONG = """import a, %(t)s, "./std/array.cd";
import m, %(t)s, %(u)s, "./std/map.cd";
import au, %(u)s, "./std/array.cd";
%(decl)s
sum : u64 = 0 as u64;
n : u64 = 0 as u64;
func see(x u64) void { n = n + 1 as u64; sum = sum * (31 as u64) + x * n; }
func one(e *%(t)s) void { see(%(get)s); }
func other(e *%(u)s) void { see(%(getu)s); }
func conv(e *%(t)s) %(u)s { k := %(get)s; return %(makeu)s; }
func show() void { @print(sum, n, ""); sum = 0 as u64; n = 0 as u64; }
func main() i32 {
  v := a.with_capacity(%(cap)d);
  k := 0 as u64;
%(ops)s
  w := m.map(v, conv);
  w.for_each(other);
  show();
  for i := 0; i < w.length; ++i { r := au.get_ref(w, i); other(r); }
  show();
  for i := 0; i < v.length; ++i { x := v.get(i); one(&x); }
  show();
  @print(v.length, w.length);
  return 0;
}
"""
KINDS = {'i32': ('(*e) as u64', '(k as i32)', 32, True), 'u8': ('(*e) as u64', '(k as u8)', 8, False), 'i64': ('(*e) as u64', '(k as i64)', 64, True), 'u16': ('(*e) as u64', '(k as u16)', 16, False),
         'S': ('(e.b as u64)', '@S{ a: 1 as u8, b: k as i64, c: 2 as i16 }', 64, True), 'i8': ('(*e) as u64', '(k as i8)', 8, True), 'A': ('(e[0][2] as u64)', '@A{ x: [3]u32{1 as u32, 2 as u32, k as u32} }', 32, False)}
KINDS['A'] = ('(e.x[2] as u64)',) + KINDS['A'][1:]


def long_arrays(seed, b):
    """Arrays of some thousand elements, seen through sums of all elements in their order."""
    import shutil
    rng = random.Random('C28l:%d:%d' % (seed, b))
    t, u = rng.choice(list(KINDS)), rng.choice(list(KINDS))
    M = (1 << 64) - 1

    def wrap(x, kind):
        _, _, bits, signed = KINDS[kind]
        x &= (1 << bits) - 1
        return (x - (1 << bits) if signed and x >> (bits - 1) else x) & M
    xs, k, sm, n, out, ops = [], 0, 0, 0, [], []

    def see(x):
        nonlocal sm, n
        n += 1
        sm = (sm * 31 + x * n) & M

    def show():
        nonlocal sm, n
        out.append('%d %d ' % (sm, n))
        sm = n = 0
    for j in range(rng.randint(2, 6)):
        r = rng.random()
        c = rng.choice([20, 255, 256, 257, 1000, 1023, 1024, 1025, 4000, 9000])
        if r < .5 or not xs:
            mul = rng.choice([1, 7, 1 << 33 | 5, 1000003])
            ops.append('  for i := 0; i < %d; ++i { k = k * (%d as u64) + i as u64; a.push(&v, %s); }' % (c, mul, KINDS[t][1]))
            for i in range(c):
                k = (k * mul + i) & M
                xs.append(wrap(k, t))
        elif r < .7:
            c = min(c, len(xs))
            ops.append('  for i := 0; i < %d; ++i { x := a.pop(&v); one(&x); }\n  show();' % c)
            for i in range(c):
                see(xs.pop())
            show()
        elif r < .85:
            ops.append('  for i := 0; i < %d; ++i { k = k + 3 as u64; a.push(&v, %s); if i %% 3 == 0 { x := a.pop(&v); one(&x); } }\n  show();' % (c, KINDS[t][1]))
            for i in range(c):
                k = (k + 3) & M
                xs.append(wrap(k, t))
                if i % 3 == 0:
                    see(xs.pop())
            show()
        else:
            ops.append('  a.for_each(v, one);\n  show();')
            for x in xs:
                see(x)
            show()
    ys = [wrap(x, u) for x in xs]
    for l in (ys, ys, xs):
        for x in l:
            see(x)
        show()
    out.append('%d %d' % (len(xs), len(ys)))
    decl = 'struct S { a u8 b i64 c i16 }\nstruct A { x [3]u32 }\n'
    src = LONG % {'t': t, 'u': u, 'get': KINDS[t][0], 'getu': KINDS[u][0], 'makeu': KINDS[u][1], 'cap': rng.choice([0, 1, 5, 300, 1024]), 'ops': '\n'.join(ops), 'decl': decl}
    files = {'std/' + f: open(os.path.join(core.REPO, 'std', f)).read() for f in ('array.cd', 'map.cd')}
    f = core.check_program(src.replace('func main() i32 {', 'func main() i32 {\n  @print("\\n#0\\n");').replace('  return 0;\n}', '  @print("\\n#end\\n");\n  return 0;\n}'),
                           [''.join(out).encode()], ('O0', 'asan') if b % 2 else ('O3',), files=files)
    return {'evals': 1 + b % 2, 'sigs': [core.sig(src)], 'cov': {'long arrays': 1, 'elements of long arrays': len(xs)}, 'fails': [f] if f else [], 'samples': []}


def body(ck):
    nb = ck.n(240, 3000)
    jobs = [('C28', ck.seed, b, gen, 5, ('O0', 'asan') if b % 3 == 0 else ('O3',)) for b in range(nb)]
    ck.pmap(core.generic_batch, jobs)
    ck.pmap(long_arrays, [(ck.seed, b) for b in range(ck.n(60, 800))])
    ck.pmap(empty, [(ck.seed, b) for b in range(ck.n(12, 40))])


if __name__ == '__main__':
    core.main('C28', 'random histories of with_capacity, push, pop, get, get_ref, for_each and map over several arrays of several element types, '
              'compared with Python lists, part under AddressSanitizer; pop on an empty array must end the program', body)
