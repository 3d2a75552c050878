"""C22: texts outside of the grammar are rejected by the parser."""
import random
import re
import shutil

from vf import core, fuzz, syntax

# (wrong, right): the second is legal in the same place
EXPR = '''a +|a + b ## a * / b|a * b ## a == / b|a == b ## a + % b|a % b ## a && && b|a && b ## a || && b|a && b ## a & | b|a & b ## a << < b|a << b
## a <= = b|a <= b ## a = = b|a == b ## a === b|a == b ## a < < b|a < b ## / a|a ## % a|a ## == a|!a ## < a|-a ## a - |a - 1 ## -|-a ## !|!a ## &|&a ## *|*a ## ++|++a ## --|--a
## f(1 2)|f(1, 2) ## f(a b)|f(a, b) ## f("x" y)|f("x", y) ## f(,)|f() ## f(,a)|f(a) ## f(a,,b)|f(a, b) ## f(a, b|f(a, b) ## f a)|f(a) ## f(a]|f(a)
## a[]|a[0] ## a[1 2]|a[1] ## a[1|a[1] ## a[1)|a[1] ## a 1]|a[1] ## a.|a.b ## a..b|a.b ## a.[1]|a.b ## a.if|a.b
## (a as)|(a as i8) ## (a as 1)|(a as i8) ## (as i32)|(a as i32) ## (a as "i8")|(a as i8) ## (a as *)|(a as *i8) ## (a as [2)|(a as [2]i8)
## @S{a 1}|@S{a: 1} ## @S{a: }|@S{a: 1} ## @S{: 1}|@S{a: 1} ## @S{1: 2}|@S{a: 2} ## @S{a: 1,, b: 2}|@S{a: 1, b: 2} ## @S(a: 1)|@S{a: 1} ## @S{a, b}|@S{a: b}
## @S{a: 1 b: 2}|@S{a: 1, b: 2} ## @S{a: 1, b: 2 c: 3}|@S{a: 1, b: 2, c: 3} ## @m.3{a: 1}|@m.S{a: 1} ## @m."S"{a: 1}|@m.S{a: 1} ## @m.{a: 1}|@m.S{a: 1} ## @m.if{}|@m.S{} ## @.S{}|@m.S{} ## @S{a = 1}|@S{a: 1} ## @S{,}|@S{} ## @S{a: 1)|@S{a: 1} ## @S{a: 1|@S{a: 1}
## [2]i32{1 2}|[2]i32{1, 2} ## [2]i32{1,,2}|[2]i32{1, 2} ## [1]i32{,}|[1]i32{1} ## [2]i32(1,2)|[2]i32{1, 2} ## [2]{1,2}|[2]i8{1,2} ## []i32{1}|[1]i32{1}
## [a]i32{1}|[1]i32{1} ## [-1]i32{1}|[1]i32{1} ## [1.5]i32{1}|[1]i32{1} ## [1 i32{1}|[1]i32{1} ## [1)i32{1}|[1]i32{1} ## [1]i32{1)|[1]i32{1}
## @sizeof()|@sizeof(i32) ## @sizeof(3)|@sizeof(i8) ## @sizeof(i32, i32)|@sizeof(i32) ## @alloc(i32)|@alloc(i32, 1) ## @alloc(3)|@alloc(i8, 3) ## @alloc(i32 3)|@alloc(i32, 3)
## @alloc()|@alloc(i8, 1) ## @free()|@free(a) ## @realloc(a)|@realloc(a, 1) ## @realloc(a,b,c)|@realloc(a, b) ## @free(a,b)|@free(a) ## @alloc(i32,3,4)|@alloc(i32,3)
## @cast(i32)|@cast(i32, a) ## @cast(a)|@cast(T, a) ## @cast i32|@cast(i32, a) ## @3|3 ## @"x"|"x" ## @print|@print() ## @print a|@print(a) ## @nothing(3)|@free(3) ## @unreachable(1)|@unreachable() ## @sizeof(i32, 1)|@sizeof(i32) ## @cast(i32, a, b)|@cast(i32, a) ## @unreachable|@unreachable() ## @asm()|@asm(i32, "") ## @asm(3)|@asm(i32, "")
## (func {})|(func() {}) ## (func(a) void {})|(func(a i8) void {}) ## (func(a i32 b i32) void {})|(func(a i32, b i32) void {})
## (func(,) void {})|(func() void {}) ## (func(i32) void {})|(func(a i32) void {}) ## (func() void)|(func() void {}) ## (func f() void {})|(func() void {})
## (func(a i32,,b i32) void {})|(func(a i32, b i32) void {}) ## (func(a: i32) void {})|(func(a i32) void {}) ## (func(1 i32) void {})|(func(a i32) void {}) ## (func a i32) void {})|(func(a i32) void {})
## (func(a i32 void {})|(func(a i32) void {}) ## (: {})|(:i8 {}) ## (:i32)|(:i32 {}) ## (:{ return 1; })|(:i8 { return 1; }) ## (:1 {})|(:i8 {})
## (a++)|(++a) ## (a--)|(--a) ## (a !b)|(!a) ## (a = )|(a = b) ## (= a)|(a) ## (a := 3)|(a == 3) ## (if a { 1 } else { 2 })|(a) ## (return 1)|(1) ## (;)|(a) ## (a;)|(a)
## (a,)|(a) ## (,a)|(a) ## ()|(a) ## (a|(a) ## a)|(a) ## (a]|(a) ## (a}|(a) ## {a)|(a) ## ''|'a' ## 'ab'|'a' ## 0x|0x1 ## 0xg|0xf ## 0b|0b1 ## 0b2|0b1 ## 1.|1.5 ## .5|0.5 ## 1..2|1.2
## 99999999999999999999999|9999 ## 18446744073709551616|18446744073709551615 ## 0x1ffffffffffffffff|0x1fffffffffffffff ## a ? b|a + b ## a -> b|a - b ## a => b|a == b ## a <> b|a < b ## a ~ b|a & b ## ~a|-a ## a $ b|a + b
## case|a ## import|a ## struct|a ## return|a ## else|a ## switch|a'''

STMT = ''':= 3;|a := 3; ## x := ;|x := 1; ## x : = ;|x := a; ## x : i32;|x : i32 = 1; ## x : i32 3;|x : i32 = 3; ## x = ;|x = 1; ## = 3;|x = 3; ## const x;|const x := 1; ## const := 3;|const x := 3;
## const x = 3;|const x := 3; ## const 3 := 3;|const x := 3; ## 3 := 4;|x := 4; ## a.b := 3;|a.b = 3; ## a[1] := 3;|a[1] = 3; ## *a := 3;|*a = 3; ## a, := 1;|a, b := 1; ## , a := 1;|a := 1;
## a, 3 := 1, 2;|a, b := 1, 2; ## a, b.c := 1, 2;|a, c := 1, 2; ## a,, b := 1, 2;|a, b := 1, 2; ## if { }|if a { } ## if;|if a { } ## if a;|if a { } ## if a }|if a { } ## if (a { }|if (a) { }
## if a { } else;|if a { } else { } ## if a { } else else { }|if a { } else { } ## b; else { }|b; { } ## b; else if a { }|b; if a { } ## if a { } else b { } else { }|if a { } else { }
## for;|for { } ## for ; ; { }|for { } ## for i := 0; i < 3 { }|for i := 0; i < 3; ++i { } ## for i := 0 { }|for i := 0; a; ++i { } ## for i := 0; { }|for i := 0; a; ++i { }
## for i := 0; ; ++i { }|for i := 0; a; ++i { } ## for i := 0; a; c, d := f() { }|for i := 0; a; c, d = f() { } ## for a, b := f(); a; ++b { }|for a = f(); a; ++b { } ## for ;a; { }|for a { } ## for i := 0, i < 3, ++i { }|for i := 0; i < 3; ++i { } ## for return { }|for a { } ## for { } }|for { } ## for i := 0; i < 3; i := 3 { }|for i := 0; i < 3; i = 3 { }
## switch { }|switch a { } ## switch a;|switch a { } ## switch a { 1 { } }|switch a { case 1 { } } ## switch a { case { } }|switch a { case 1 { } } ## switch a { case 1 }|switch a { case 1 { } }
## switch a { case 1: b; }|switch a { case 1 b; } ## switch a { default }|switch a { default { } } ## switch a { default { } default { } }|switch a { default { } } ## switch a { default { } case 1 { } }|switch a { case 1 { } default { } }
## switch a { b; }|switch a { } ## switch a { case 1 { } b; }|switch a { case 1 { } } ## switch a { case 1 { } else { } }|switch a { case 1 { } default { } } ## case 1 { }|{ } ## default { }|{ }
## return return 1;|return 1; ## return if;|return a; ## return ,;|return 1; ## return 1,;|return 1, 2; ## return 1,,2;|return 1, 2; ## break continue|break; continue; @@
## struct { a i32 }|struct S { a i32 } ## struct S a i32 }|struct S { a i32 } ## struct S { a }|struct S { a i32 } ## struct S { 1 i32 }|struct S { a i32 } ## struct S { a i32; b i32 }|struct S { a i32 b i32 }
## struct S { a: i32 }|struct S { a i32 } ## struct S;|struct S { } ## struct 3 { a i32 }|struct S { a i32 } ## struct S { func f() void { } }|struct S { f func() void } ## struct S { a i32, b i32 }|struct S { a i32 b i32 }
## union { a i32 }|union U { a i32 } ## union U { a }|union U { a i32 } ## type;|type T = i8; ## type T =;|type T = i8; ## type = i32;|type T = i32; ## type T i32;|type T = i32; ## type 3 = i32;|type T = i32; ## type T = 3;|type T = i8;
## extern f(i32) i32;|extern func f(i32) i32; ## extern func (i32) i32;|extern func f(i32) i32; ## extern func f i32;|extern func f() i32; ## extern func f(i32;|extern func f(i32) i8; ## extern func f(a i32) i32;|extern func f(i32) i32;
## extern func f(i32 i32) i32;|extern func f(i32, i32) i32; ## extern func f(.., i32) i32;|extern func f(i32, ..) i32; ## extern;|extern func f() i8; ## extern func f(i32,) i32;|extern func f(i32) i32;
## import;|import m, "x"; ## import m;|import m, "x"; ## import "x";|import m, "x"; ## import m "x";|import m, "x"; ## import m, x;|import m, "x"; ## import m, "x", i32;|import m, i32, "x"; ## import 3, "x";|import m, "x";
## import m, i32 "x";|import m, i32, "x"; ## import m,, "x";|import m, "x"; ## import m, 'x';|import m, "x";
## func|func f() void { } ## func f|func f() void { } ## func f { }|func f() { } ## func f( { }|func f() { } ## func f(a) i32 { }|func f(a i32) i32 { } ## func f(a i32 b i32) i32 { }|func f(a i32, b i32) i32 { }
## func f(,) i32 { }|func f() i32 { } ## func 3() i32 { }|func f() i32 { } ## func f() i32, { }|func f() i32, i8 { } ## func f() i32, , i32 { }|func f() i32, i32 { } ## pub f() void { }|pub func f() void { }
## pub pub func f() void { }|pub func f() void { } ## pub x f() void { }|pub func f() void { } ## pub struct f() void { }|pub func f() void { } ## pub const f() void { }|pub func f() void { } ## pub 3 f() void { }|pub func f() void { } ## pub x := 3;|x := 3; ## pub struct S { a i32 }|struct S { a i32 } ## pub;|a; ## pub { }|{ } ## func S.f() void { }|func f() void { } ## func f() i32, i32, { }|func f() i32, i32 { }
## #if { }|#if 1 { } ## #if 1;|#if 1 { } ## #else { }|{ } ## #if 1 { } else { }|#if 1 { } ## #endif|a; ## #|a; ## }|{ } ## {|{ } ## (|(a); ## { } }|{ } ## { ( }|{ } ## [|a; ## ]|a; ## )|a;
## @;|a; ## @print(1|@print(1); ## @print 1);|@print(1); ## @print(1));|@print(1); ## @print(1)]|@print(1); ## a + ;|a + b; ## a.;|a.b; ## a(;|a(); ## a += 1;|a = a + 1; ## a -= 1;|a = a - 1; ## a++;|++a; ## a--;|--a; ## a == = b;|a == b;
## x :: 3;|x := 3; ## x :i32 := 3;|x : i32 = 3; ## x : := 3;|x := 3; ## x : 3 = 3;|x : i8 = 3; ## x : i32, y : i32 = 1, 2;|x, y := 1, 2; ## x : * = 3;|x : *i8 = 3; ## x : [3 = 3;|x : [3]i8 = 3; ## x : [3] = 3;|x : [3]i8 = 3;
## x : []i32 = 3;|x : [1]i32 = 3; ## x : func = 3;|x : func() i8 = 3; ## x : func( = 3;|x : func() i8 = 3; ## x : func(i32 i32) void = 3;|x : func(i32, i32) void = 3; ## x : func(,) void = 3;|x : func() void = 3;
## x : func(i32,) void = 3;|x : func(i32) void = 3; ## x : m. = 3;|x : m.T = 3; ## x : m.3 = 3;|x : m.T = 3; ## x : .m = 3;|x : m = 3; ## x : i32* = 3;|x : *i32 = 3; ## x : &i32 = 3;|x : *i32 = 3; ## x : ** = 3;|x : **i8 = 3;
## x : [-1]i32 = 3;|x : [1]i32 = 3; ## x : [1.5]i32 = 3;|x : [1]i32 = 3; ## x : [a]i32 = 3;|x : [1]i32 = 3; ## x : [1 2]i32 = 3;|x : [1]i32 = 3; ## x : "i32" = 3;|x : i32 = 3;
## if := 3;|a := 3; ## for = 3;|a = 3; ## struct := 3;|a := 3; ## func := 3;|a := 3; ## case := 3;|a := 3; ## return := 3;|a := 3; ## func if() void { }|func a() void { } ## struct for { a i32 }|struct S { a i32 } ## import := 3;|a := 3;
## switch := 3;|a := 3; ## break := 3;|a := 3; ## extern := 3;|a := 3; ## union := 3;|a := 3; ## type := 3;|a := 3; ## pub := 3;|a := 3; ## const const x := 3;|const x := 3; ## as := 3;|a := 3; ## else := 3;|a := 3;'''


TYPE = '''[3|[3]i8 ## [3 i32|[3]i32 ## [3)i32|[3]i32 ## [3}i32|[3]i32 ## []i32|[1]i32 ## [-1]i32|[1]i32 ## [1.5]i32|[1]i32 ## [x]i32|[1]i32 ## [2147483648]i32|[2147483647]i32 ## [4294967297]i32|[1]i32
## [18446744073709551617]i32|[1]i32 ## [99999999999999999999999999]i32|[1]i32 ## [1, 2]i32|[1][2]i32 ## ['c']i32|[1]i32 ## ["3"]i32|[3]i32 ## [1]|[1]i8 ## [1]3|[1]i8 ## [[1]]i32|[1][1]i32
## .m|m ## m.|m.T ## m.3|m.T ## m."T"|m.T ## m..T|m.T ## m.if|m.T ## m.[3]i32|m.T ## func(,) void|func() void ## func(i32 i32) void|func(i32, i32) void ## func(i32,,i32) void|func(i32, i32) void
## func(.., i32) void|func(i32, ..) void ## func(a: i32) void|func(i32) void ## func|func() void ## func(|func() void ## func i32|func() i32 ## func(3) void|func(i8) void ## func[i32] void|func(i32) void ## func(i32] void|func(i32) void
## (i32|(i32) ## (i32]|(i32) ## (i32}|(i32) ## (i32,|(i32, i8) ## (,i32)|(i8, i32) ## ()|(i8) ## (i32 i32)|(i32, i32) ## (i32,,i8)|(i32, i8) ## (3)|(i8) ## "i32"|i32 ## 3|i32 ## 'c'|i8 ## &i32|*i32 ## @S|S ## if|i32
## struct|S ## struct { a i32 }|S ## -i32|i32 ## !i32|i32 ## case|i32 ## return|i32 ## :i32|i32 ## ;|i32 ## =|i32 ## as i32|i32 ## **|**i8 ## *3|*i8 ## *&i32|**i32 ## *if|*i8'''


def pairs(s):
    return [tuple(p.strip() for p in x.rsplit('|', 1)) for x in re.split(r'\s*##\s*', s.replace('\n', ' ')) if x.strip() and not x.strip().endswith('@@')]


EXPR, STMT, TYPE = pairs(EXPR), pairs(STMT), pairs(TYPE)


class Gen(syntax.Gen):
    """Texts with places (ZE: an expression, ZS;: a statement) to put others."""

    def atom(self):
        if self.rng.random() < .3:
            return 'ZE', 'ZE', syntax.ATOM
        return super().atom()

    def type(self, d=2, fn=True):
        if self.rng.random() < .2:
            return 'ZT', 'ZT'
        return super().type(d, fn)

    def body(self, d):
        return self.block(d)

    def statement(self, d, simple=False):
        if self.rng.random() < .3:
            return 'a; ZS;', ('ast.ExpressionStatement', ['ZS'])
        return super().statement(d, simple)


def tokens(text):
    """The places of the brackets of a text, outside of strings, characters and comments."""
    out = []
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\\])\'|//[^\n]*|[()\[\]{}]', text, re.S):
        if m.group(0) in '()[]{}':
            out.append(m.start())
    return out


def brackets(rng, text):
    """The text with brackets that don't match."""
    at = tokens(text)
    if not at:
        return None
    i = rng.choice(at)
    k = rng.randrange(4)
    if k == 0:
        return 'a bracket is missing', text[:i] + ' ' + text[i + 1:]
    if k == 1:
        b = rng.choice([x for x in '()[]{}' if x != text[i]])
        return 'another bracket', text[:i] + b + text[i + 1:]
    if k == 2:
        return 'one bracket more', text[:i] + rng.choice('()[]{}') + text[i:]
    depth = 0
    for j in at:
        depth += 1 if text[j] in '([{' else -1
        if j == i:
            break
    if depth == 0:
        return None
    return 'the text ends inside of brackets', text[:i + 1]


def place(rng, text, mark, sub, keep):
    # a type behind a ) is a result, which may be left out
    at = [m.start() for m in re.finditer(mark, text) if mark != 'ZT' or not text[:m.start()].rstrip().endswith(')')]
    if not at:
        return None
    i = rng.choice(at)
    return plain(text[:i] + sub + text[i + len(mark):])


def plain(text):
    return text.replace('ZE', 'a').replace('ZS;', 'a;').replace('ZT', 'i32')


def job(seed, b, n):
    rng = random.Random('C22:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    pool = [s.decode('utf8', 'replace') for s in fuzz.seeds()]
    cases = []
    while len(cases) < n:
        if rng.random() < .15:
            text = rng.choice(pool)
        else:
            text = Gen(rng, rng.choice([1, 2, 2, 3])).program()[0]
        if len(text) > 6000:
            continue
        r = rng.random()
        if r < .35:
            c = brackets(rng, plain(text))
            if c:
                cases.append((c[0], c[1], None, None))
            continue
        mark = rng.choice(['ZE', 'ZS;', 'ZT'])
        wrong, right = rng.choice({'ZE': EXPR, 'ZS;': STMT, 'ZT': TYPE}[mark])
        w, o = ('(%s)' % wrong, '(%s)' % right) if mark == 'ZE' and not wrong.startswith('(') else (wrong, right)
        state = rng.getstate()
        c = place(rng, text, mark, w, None)
        rng.setstate(state)
        g = place(rng, text, mark, o, None)
        rng.random()
        if c:
            cases.append(('%s instead of %s' % (wrong, right), c, g, mark))
    d = core.fresh()
    try:
        vs = fuzz.batch(d, [c[1].encode() for c in cases])
        twins = [c[2] for c in cases if c[2]]
        ts = dict(zip(twins, fuzz.batch(d, [t.encode() for t in twins])))
        for (what, text, twin, mark_), v in zip(cases, vs):
            res['evals'] += 1 + bool(twin)
            res['sigs'].append(core.sig(text))
            k = what if not twin else {'ZE': 'expression', 'ZS;': 'statement', 'ZT': 'type'}[mark_]
            res['cov'][k] = res['cov'].get(k, 0) + 1
            if fuzz.crash(v):
                continue        # C15 tells
            if v['stage'] != 'parse' or not v.get('errors'):
                res['fails'].append(core.Failure('accepted', '%s, and the parser accepts it' % what, text))
            elif twin and ts[twin]['stage'] == 'parse':
                res['fails'].append(core.Failure('rejected', '%s: the parser rejects the right one: %s' % (what, '\n'.join(ts[twin]['errors'])[:800]), twin))
            if len(res['fails']) >= 2:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if b < 3:
        res['samples'] = ['%s: %s' % (cases[0][0], cases[0][1][:800])]
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 100) for b in range(ck.n(500, 8000))])
    ck.assumptions = ['what is optional (semicolons where a statement cannot go on, braces around one statement, the result type) is not counted as missing']


if __name__ == '__main__':
    core.main('C22', 'random texts in which one expression, type or statement is replaced by one outside of the grammar (each has a twin inside of it, which must parse in the same place), and '
              'texts whose brackets do not match: the parser must report an error; non-trivial: distinct texts', body)
