"""C23: conditional compilation."""
import random
from vf import core, lang
from vf.prog import *

TRUE = ['1', '2', '255', '0x1', '0xff', '0b1', '2147483648', '9223372036854775807', '9223372036854775808', '0xffffffffffffffff', 'LINUX', 'X64', 'LINUX', 'X64']
FALSE = ['0', '0x0', '0b0', '00', 'WINDOWS', 'MACOS', 'ARM64', 'ARM', 'ARM64BE']


class MacroIf(S):
    """#if: the statements are as if they were written without it."""

    def __init__(self, cond, on, body):
        self.cond, self.on, self.body = cond, on, body

    def s(self, ind):
        b = self.body if isinstance(self.body, str) else block_src(self.body, ind + 1)
        return '%s#if %s {\n%s%s}\n' % (pad(ind), self.cond, b, pad(ind))

    def run(self, m):
        if self.on:
            for st in self.body:
                st.run(m)


class TopIf:
    def __init__(self, cond, decls):
        self.cond, self.decls = cond, decls

    def decl(self):
        o = ''
        for d in self.decls:
            o += d if isinstance(d, str) else d.src() if isinstance(d, Func) else d.decl()
        return '#if %s {\n%s}\n' % (self.cond, o)


# what may be in a block that is not taken: it parses, that is all
JUNK = ['nobody_{u}(1, 2, 3);', 'x := undefined_{u} + 1;', 'return 1, 2, "three";', 'break;', 'continue;', '@print(missing.field[3]);',
        'y : Unknown_{u} = @Unknown_{u}{{a: 1}};', 'z : i32 = "text";', 'a, b, c := 1;', 'for {{ }}', 'if "x" {{ @unreachable(); }}',
        '5 = 6;', '*3 = 4;', 'w : [2]i8 = [2]i8{{1, 2, 3}};', 'switch "s" {{ case 1 {{ }} case 1 {{ }} default {{ }} }}', '// }} not the end\n',
        '@print("}}");', '@print("#if 1 {{");', 'q := func(a nothing) i32 {{ return a; }};', '++7;', '@free(3);', 'r := :i32 {{ }};',
        '{{ {{ }} }}', '#if 1 {{ wrong_{u}(); }}', '#if LINUX {{ return; }}', '#if 0 {{ #if 1 {{ }} }}', '']
TOPJUNK = ['func f_{u}(a i32) i32 {{ }}', 'func f_{u}(a i32) i32 {{ return "x"; }}', 'struct S_{u} {{ a S_{u} }}', 'struct T_{u} {{ a Unknown b [3]None }}',
           'g_{u} : i32 = "text";', 'import m_{u}, "./there/is/none_{u}.cd";', 'extern func e_{u}(Unknown) Nothing;', 'func main() void {{ }}',
           'union U_{u} {{ a U_{u} }}', 'const K_{u} := undefined();', 'type A_{u} = Unknown;',
           'pub func p_{u}() void {{ nobody(); }}', '#if 1 {{ func main() i32 {{ return 9; }} }}', '']
# names that are declared again where the block is not taken
CLASH = ['func {n}() void {{ }}', 'struct {n} {{ a i32 }}', '{n} := 3;', 'extern func {n}(i8) i8;']


class Macros:
    def __init__(self, rng, uid, pg):
        self.rng, self.uid, self.pg = rng, uid, pg

    def junk(self, top=False):
        rng = self.rng
        o = ''
        for _ in range(rng.randint(0, 3)):
            if rng.random() < 0.4:
                other = PG(random.Random(rng.random()), 'z%d' % rng.randrange(100), structs=1, arrays=True, budget=10, depth=2, lam=1)
                other.push()
                other.push()
                try:
                    if top:
                        other.func(3)
                        o += ''.join(d.src() if isinstance(d, Func) else d.decl() for d in other.decls if not isinstance(d, str))
                    else:
                        o += block_src(other.stmt(2), 1)
                    continue
                except (IndexError, ValueError):
                    pass
            o += rng.choice(TOPJUNK if top else JUNK).format(u=self.uid) + '\n'
        if top and rng.random() < 0.3:
            names = [d.name for d in self.pg.decls if hasattr(d, 'name')] + [g.name for g in self.pg.globals]
            if names:
                o += rng.choice(CLASH).format(n=rng.choice(names)) + '\n'
                self.pg.note('a name declared again where it is not taken')
        return o

    def off(self, top=False):
        c = self.rng.choice(FALSE)
        self.pg.note('not taken: ' + c)
        return MacroIf(c, False, self.junk(top))

    def wrap(self, xs, p=0.25, d=0):
        """Put runs of statements inside #if, and blocks that are not taken between them."""
        rng, out, i = self.rng, [], 0
        while i < len(xs):
            if rng.random() < 0.12:
                out.append(self.off())
            if rng.random() < p:
                j = rng.randint(i + 1, min(len(xs), i + 4))
                c = rng.choice(TRUE)
                self.pg.note('taken: ' + c)
                run = xs[i:j]
                if d < 2 and rng.random() < 0.3:
                    run = self.wrap(run, 0.4, d + 1)
                    self.pg.note('#if in #if')
                out.append(MacroIf(c, True, run))
                i = j
            else:
                out.append(xs[i])
                i += 1
        if rng.random() < 0.1 and not (xs and isinstance(xs[-1], (Return, Break, Continue))):
            out.append(self.off())
        return out

    def walk(self, x, seen):
        """Every list of statements below x."""
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, list):
            for y in list(x):
                self.walk(y, seen)
            if x and all(isinstance(y, S) for y in x):
                x[:] = self.wrap(x)
        elif isinstance(x, tuple):
            for y in x:
                self.walk(y, seen)
        elif isinstance(x, (S, E, Func)):
            for k, y in vars(x).items():
                if isinstance(y, (S, E, Func, list, tuple)):
                    self.walk(y, seen)

    def top(self, ds):
        rng, out, i = self.rng, [], 0
        while i < len(ds):
            if rng.random() < 0.1:
                o = self.off(True)
                out.append(o.s(0))
            if rng.random() < 0.3:
                j = rng.randint(i + 1, min(len(ds), i + 3))
                c = rng.choice(TRUE)
                self.pg.note('declarations in ' + c)
                run = ds[i:j]
                if rng.random() < 0.3:
                    run = [TopIf(rng.choice(TRUE), run)] + [self.off(True).s(0)]
                out.append(TopIf(c, run))
                i = j
            else:
                out.append(ds[i])
                i += 1
        return out


def gen(rng, uid):
    pg = PG(rng, uid, p_shadow=0.3, p_call=0.2, p_blockexpr=0.05, depth=rng.choice([2, 3]), budget=25, expr=1, structs=rng.choice([0, 1, 2]),
            arrays=True, unions=rng.choice([0, 0, 1]), decl=4, assign=3, multidecl=1, multiassign=1, incdec=1, block=2, print=3, ifs=2,
            for3=1, forcond=1, forinf=0.5, switch=1.5, brk=1, ret=1, call=1.5, aggdecl=2, aggassign=1, lam=0.5)
    pg.add_globals(rng.randint(0, 3))
    for _ in range(rng.randint(1, 3)):
        pg.func(4)
    c = pg.case(rng.randint(3, 8))
    mc = Macros(rng, uid, pg)
    seen = set()
    for f in [d for d in pg.decls if isinstance(d, Func)] + [c.entry]:
        mc.walk(f, seen)
    c.decls = mc.top(list(c.decls))
    gs = []
    for g in c.globals:
        gs.append(MacroIf(rng.choice(TRUE), True, [g]) if rng.random() < 0.4 else g)
    c.globals = gs
    return c


UNKNOWN = ['linux', 'Linux', 'LINUX2', 'X86', 'UNIX', 'DEBUG', 'i32', 'main', 'x', 'ON', 'X_64', 'WINDOWS_', 'LINUX.X64', '1.5', '"LINUX"', '-1', '1 + 1',
           '!0', '!WINDOWS', 'f()', 'LINUX && X64', 'LINUX == 1', '[1]i32{1}', '@sizeof(i32)', '1 as i8', 'g', 'K', '&g', '*g', 'm.x', '', ';', '}', '{ 1 }', 'true']


def refused(seed, b, k):
    """Conditions that are not known when the program is compiled are errors, wherever they are."""
    import shutil
    rng = random.Random('C23r:%d:%d' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    for i in range(k):
        uid = 'c%d' % i
        try:
            c = gen(rng, uid)
            c.interpret()
        except (lang.UB, RecursionError):
            continue
        cond = rng.choice(UNKNOWN)
        bad = '#if %s { %s }\n' % (cond, rng.choice(['', 'x_%s := 1;' % uid]))
        if rng.random() < 0.5:
            src = core.program([c]).replace('func main', 'g := 1;\nconst K := 1;\n' + bad + 'func main', 1)
        else:
            c.entry.body.insert(0, Text(bad))
            src = 'g := 1;\nconst K := 1;\n' + core.program([c])
        d = core.fresh()
        try:
            r = core.compile_src(src, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res['evals'] += 1
        res['sigs'].append(core.sig(core.norm(src)))
        res['cov']['refused: ' + cond] = res['cov'].get('refused: ' + cond, 0) + 1
        if r.ok or r.panic or not r.errors:
            res['fails'].append(core.Failure('accepted' if r.ok else 'no diagnostic', 'the condition of #if is not an integer or a known name: %r: %s' % (
                cond, r.describe()), src))
            break
    return res


def module(rng, uid):
    """Declarations of a module that are inside #if, and imports that are."""
    k = rng.randint(1, 100)
    u = uid
    on, off = rng.choice(TRUE), rng.choice(FALSE)
    mod = '#if %s {\n  func v() i32 { return %d; }\n  struct S { a i32 }\n  K := %d;\n  func S.none() void { }\n}\n' % (on, k, k + 1)
    mod = mod.replace('  func S.none() void { }\n', '')
    mod += '#if %s {\n  func v() i32 { return %d; }\n  struct S { b i8 }\n  K := 0;\n}\n' % (off, k + 2)
    if rng.random() < 0.5:
        mod = mod.split('#if ' + off)
        mod = '#if ' + off + mod[1] + mod[0]
    name = 'm%s.cd' % u
    imp = ['#if %s {\n  import %s, "./%s";\n}\n' % (on, 'm' + u, name), '#if %s {\n  import %s, "./none%s.cd";\n}\n' % (off, 'm' + u, u)]
    rng.shuffle(imp)
    txt = 'x := @m{u}.S{{a: 4}}; @print(m{u}.v(), m{u}.K, x.a, "");'.format(u=u)
    out = '%d %d 4 ' % (k, k + 1)
    if rng.random() < 0.5:
        # names of the language of conditions are free for the program
        txt += ' {n} := 0; #if {n} {{ @print("on", {n}, ""); }}'.format(n=rng.choice(['LINUX', 'X64']))
        out += 'on 0 '
    e = Func('case_' + u, [], [], [Text(txt, lambda m: m.out.append(out.encode()))])
    return Case([], e, [], {'imports': ''.join(imp), 'files': {name: mod}, 'cov': {'module': 1}})


def either(rng, uid):
    return module(rng, uid) if rng.random() < 0.12 else gen(rng, uid)


def body(ck):
    nb = ck.n(220, 3000)
    ck.pmap(refused, [(ck.seed, b, 10) for b in range(ck.n(24, 300))])
    ck.pmap(core.generic_batch, [('C23', ck.seed, b, either, 10, ('O0', 'O3')) for b in range(nb)])
    ck.assumptions = ['the names of other systems are not defined where the check runs: LINUX and X64 are 1, the others 0']


if __name__ == '__main__':
    core.main('C23', 'random programs whose statements and declarations are put inside #if of integers and names that are true, with blocks that are '
              'not taken between them that contain programs that are wrong in every way but parse; the result must be that of the program '
              'without any #if; non-trivial: distinct programs', body)
