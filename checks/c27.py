"""C27: the stack a loop needs does not depend on how often it runs."""
import os
import random
import re
import shutil
from vf import core, lang
from vf.prog import *

# The monitor is a C function that every loop calls: where does the stack end
# at this place of the program, in the 64th iteration and in later ones?
PROBE = r'''
#include <stdio.h>
#include <stdlib.h>
static struct { char *activation, *first; long n; } site[4096];
static long visits, changes;
__attribute__((noinline)) void vf_probe(int id, char *act) {
    char *sp = (char *)__builtin_frame_address(0);
    visits++;
    if (site[id].n == 0 || site[id].activation != act) {
        site[id].activation = act;
        site[id].n = 0;
    }
    if (++site[id].n == 64)
        site[id].first = sp;
    if (site[id].n > 64 && sp != site[id].first)
        changes++;
    if (site[id].n > 64 && site[id].first - sp > 4096) {
        printf("\nthe stack has grown %ld bytes in iterations 64 to %ld of loop %d\n",
               (long)(site[id].first - sp), site[id].n, id);
        fflush(stdout);
        exit(97);
    }
}
static void report(void) { fprintf(stderr, "visits %ld changes %ld\n", visits, changes); }
__attribute__((constructor)) static void reg(void) { atexit(report); }
'''
EXTERN = 'extern func vf_probe(i32, *i64) void;\n'


class Probe(S):
    def __init__(self, n, act):
        self.n, self.act = n, act

    def s(self, ind):
        return pad(ind) + 'vf_probe(%d, &%s);\n' % (self.n, self.act)

    def run(self, m):
        m.probes = getattr(m, 'probes', 0) + 1


def special(rng, uid, pg):
    """Statements the generator of programs has none of, with the text they print."""
    u, v = uid, 'vf_x%d_%s' % (rng.randrange(1 << 30), uid)
    k, n = rng.randint(0, 2), rng.randint(-9, 9)
    t = rng.choice([I8, I32, U16, I64, U64])
    if not getattr(pg, 'helpers', False):
        pg.helpers = True
        pg.decls.append('struct VfS_%s { a i32 b [3]i64 }\n' % u)
        pg.decls.append('func vf_arr_%s(x i32) [3]i32 { return [3]i32{x, x + 1, x + 2}; }\n' % u)
        pg.decls.append('func vf_st_%s(x i32) VfS_%s { return @VfS_%s{a: x, b: [3]i64{x as i64, 7 as i64, 9 as i64}}; }\n' % (u, u, u))
        pg.decls.append('func vf_sum_%s(s VfS_%s, p *VfS_%s) i32 { return s.a + p.a; }\n' % (u, u, u))
        pg.decls.append('func vf_none_%s(b bool) i32 { if b { return 4; } @unreachable(); }\n' % u)
    d = dict(u=u, v=v, k=k, n=n, t=t.src())
    forms = {
        'element of a call': ('@print(vf_arr_{u}({n})[{k}], "");', '%d ' % (n + k)),
        'field of a call': ('@print(vf_st_{u}({n}).a, vf_st_{u}({n}).b[{k}], "");', '%d %d ' % (n, (n, 7, 9)[k])),
        'pointer to a copy of an array': ('{v} := vf_arr_{u}({n}) as *i32; @print({v}[{k}], "");', '%d ' % (n + k)),
        'heap': ('{v} := @alloc({t}, {k} + 1); {v}[{k}] = 3 as {t}; @print({v}[{k}], ""); @free({v});', '3 '),
        'heap, again': ('{v} := @realloc(@alloc({t}, 1), {k} + 2); {v}[{k}] = 4 as {t}; @print({v}[{k}], ""); @free({v});', '4 '),
        'pointer plus': ('{v} := [4]{t}{{1 as {t}, 2 as {t}, 3 as {t}, 4 as {t}}}; @print(*((&{v}[0]) + {k}), "");', '%d ' % (k + 1)),
        'pointer minus': ('{v} := [4]{t}{{1 as {t}, 2 as {t}, 3 as {t}, 4 as {t}}}; @print(*((&{v}[3]) - {k}), "");', '%d ' % (4 - k)),
        'joined strings': ('{v} := "ab" + "cd"; @print({v}, ""); @free({v});', 'abcd '),
        'compared strings': ('@print("ab" == "ab", "");', '1 '),
        'struct arguments': ('{v} := vf_st_{u}({n}); @print(vf_sum_{u}({v}, &{v}), "");', '%d ' % (2 * n)),
        'address of a temporary': ('{v} := &{n}; @print(*{v}, "");', '%d ' % n),
        'address of a call': ('{v} := &vf_st_{u}({n}); @print({v}.a, "");', '%d ' % n),
        'asm': ('{v} := @asm(i32, "movl $1, $0", {n}); @print({v}, "");', None),
        'condition': ('{v} := ({k} > 0 && {n} > 2) || !({k} == 1); @print({v} as i32, "");', '%d ' % ((k > 0 and n > 2) or k != 1)),
        'never reached': ('@print(vf_none_{u}(1 == 1), "");', '4 '),
        'copies': ('{v} := vf_st_{u}({n}); {v}_2 := {v}; {v}_2.b = {v}.b; {v} = {v}_2; @print({v}.a, "");', '%d ' % n),
        'block': ('{v} := :VfS_{u} {{ return vf_st_{u}({n}); }}; @print({v}.a, :[3]i32 {{ return vf_arr_{u}({k}); }}[1], "");', '%d %d ' % (n, k + 1)),
        'several results': ('{v}, {v}_2 := {n}, {k}; {v}, {v}_2 = {v}_2, {v}; @print({v}, {v}_2, "");', '%d %d ' % (k, n)),
        'anonymous': ('{v} := func(x i32) i32 {{ return x * 2; }}; @print({v}({n}), "");', '%d ' % (2 * n)),
    }
    name = rng.choice([x for x in forms if forms[x][1] is not None])
    pg.note(name)
    txt, out = forms[name]
    return Text(txt.format(**d), lambda m: m.out.append(out.encode()))


def gen(rng, uid, site):
    """A case whose loop does the same in every iteration."""
    pg = PG(rng, uid, p_shadow=0.2, p_call=0.2, p_part=rng.choice([0.1, 0.3]), p_blockexpr=rng.choice([0.05, 0.2]),
            depth=rng.choice([1, 2, 2]), budget=14, expr=rng.choice([1, 2]), structs=rng.choice([0, 1, 2]), arrays=True,
            unions=rng.choice([0, 0, 1]), p_rec=0.1,
            decl=4, assign=3, multidecl=1.5, multiassign=1.5, incdec=1, block=1.5, print=1, ifs=2, for3=1.5, forcond=1.5,
            forinf=1, switch=1.5, brk=1.2, call=2, aggdecl=3, aggassign=2, ptr=1.5, lam=rng.choice([0, 1.5]))
    pg.push()
    for _ in range(rng.randint(1, 3)):
        pg.func(3)
    form = rng.choice(['for3', 'forcond', 'forinf', 'nested', 'nested2'])
    where = rng.choice(['entry', 'entry', 'if', 'switch', 'block', 'blockexpr', 'lambda', 'loop', 'callee'])
    pg.note('loop: ' + form)
    pg.note('in: ' + where)
    pg.push()
    pg.push()
    pg.rets, pg.loop = None, 1
    always = None
    if rng.random() < 0.5:
        # a condition that is computed in the header of every iteration, with its temporaries
        pg.loop = 0
        always = Bin('||', Bin('==', pg.cond(), Lit(I1, False)), Lit(I1, True))
        pg.note('computed in the header')
    pg.loop = 0
    body = []
    for _ in range(rng.randint(2, 6)):
        body += pg.stmt(pg.k['depth'])
        if rng.random() < 0.3:
            body.append(special(rng, uid, pg))
    if rng.random() < 0.3:
        body += pg.dump()
    if rng.random() < 0.2:
        body.append(If([(pg.cond(), [Continue()])]))
        body.append(pg.p_print())
    pg.pop()
    pg.pop()
    a = 'vf_a_' + uid
    body.insert(rng.randint(0, len(body)), Probe(site, a))
    i, j = 'vf_i_' + uid, 'vf_j_' + uid
    n, k = Lit(I32, 2), Lit(I32, 2)
    iv, jv = Var(i, I32), Var(j, I32)

    def inc(v):
        return ExprS(IncDec('++', v)) if rng.random() < 0.5 else Assign(v, Bin('+', v, Lit(I32, 1)))

    def loop(v, c, body, form):
        cond = Bin('<', v, c)
        if always is not None and (v is jv or not form.startswith('nested')):
            cond = Bin('&&', cond, Paren(always)) if rng.random() < 0.5 else Bin('&&', Paren(always), cond)
        z = Decl(v.name, I32, Lit(I32, 0))
        if form == 'for3':
            return [For(body, cond, z, inc(v))]
        if form == 'forcond':
            return [z, For([inc(v)] + body, cond)]
        return [z, For([If([(Not(Paren(cond)), [Break()])]), inc(v)] + body)]
    plain = rng.choice(['for3', 'forcond', 'forinf'])
    if form.startswith('nested'):
        st = loop(iv, n, loop(jv, k, body, plain), 'for3' if form == 'nested' else rng.choice(['forcond', 'forinf']))
    else:
        k.v = 1
        st = loop(iv, n, body, form)
    act = Decl(a, I64, Lit(I64, 0))
    st = [act] + st
    t = Fn([], [])
    if where == 'if':
        st = [If([(Bin('>', Lit(I32, 2), Lit(I32, 1)), st)])]
    elif where == 'switch':
        st = [Switch(Lit(I32, 2), [(Lit(I32, 1), [pg.p_print()]), (Lit(I32, 2), st)], [pg.p_print()])]
    elif where == 'block':
        st = [Block(st)]
    elif where == 'blockexpr':
        st = [Decl('vf_r_' + uid, I32, BlockExpr(I32, st + [Return(Lit(I32, 1))]))]
    elif where == 'loop':
        o = Var('vf_o_' + uid, I32)
        st = [For(st, Bin('<', o, Lit(I32, 1)), Decl(o.name, I32, Lit(I32, 0)), inc(o))]
    elif where == 'lambda':
        f = 'vf_f_' + uid
        st = [Decl(f, t, Lambda(Func('', [], [], st))), ExprS(Call(Var(f, t), []))]
    elif where == 'callee':
        f = Func('vf_w_' + uid, [], [], st)
        pg.decls.append(f)
        st = [ExprS(Call(f, []))]
    c = Case(sorted(pg.decls, key=lambda d: not isinstance(d, str)), Func('case_' + uid, [], [], st), pg.globals, {'cov': pg.cov})
    out = c.interpret()
    its = n.v * k.v
    if getattr(c.machine, 'probes', 0) == 0 or len(out) % its or out != out[:len(out) // its] * its or len(out) > 300 * its:
        return None
    one = out[:len(out) // its]
    for n.v, k.v in ((3, k.v), (1, k.v), (2, 3 if form.startswith('nested') else k.v)):
        if c.interpret() != one * (n.v * k.v):
            return None
    if form.startswith('nested'):
        n.v, k.v = (24, 40) if rng.random() < 0.5 else (160, 6)
    else:
        n.v = 960
    c.expect = one * (n.v * k.v)
    return c


def batch(seed, b, k):
    rng = random.Random('C27:%d:%d' % (seed, b))
    cases, res = [], {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    tries = 0
    while len(cases) < k and tries < 60 * k:
        tries += 1
        try:
            c = gen(rng, 'c%d' % len(cases), len(cases))
        except (lang.UB, RecursionError):
            continue
        if c is None:
            continue
        if not cases:
            c.decls.insert(0, EXTERN)
        c.meta['c'] = PROBE if not cases else ''
        cases.append(c)
    if len(cases) < k:
        raise core.Broken('generator produced %d of %d cases' % (len(cases), k))
    for c in cases:
        for key, n in c.meta['cov'].items():
            res['cov'][key] = res['cov'].get(key, 0) + n
        res['sigs'].append(core.sig(core.norm(c.src())))
    res['evals'] = len(cases)
    res['cov']['iterations watched'] = 960 * len(cases)
    f = core.check_program(core.program(cases), [c.expect for c in cases], ('O0',), csrc=PROBE)
    if f:
        res['fails'] = [f]
        for c in cases:
            if EXTERN not in c.decls:
                c.decls.insert(0, EXTERN)
            g = core.check_program(core.program([c]), [c.expect], ('O0',), csrc=PROBE)
            if g:
                g.case, g.modes = None, ('O0',)
                res['fails'] = [g]
                break
        for g in res['fails']:
            m = re.search(rb'the stack has grown [^\n]*', g.got)
            if m:
                g.kind, g.detail = 'stack grows', m.group(0).decode()
            g.expect, g.got = g.expect[:300], g.got[-2000:]
    if b < 3:
        res['samples'] = [cases[0].src()[:1500]]
    return res


def body(ck):
    ck.pmap(batch, [(ck.seed, b, 10) for b in range(ck.n(120, 1500))])
    ck.assumptions = ['built without optimisation (an optimiser may only improve it)',
                      'what a loop allocates on the heap is not followed']


if __name__ == '__main__':
    core.main('C27', 'random loops of every kind, in functions, branches, blocks, block expressions, anonymous functions and other loops, '
              'whose iterations declare locals, build literals and temporaries, call functions, break and continue inside; every iteration '
              'reports to a C function where the stack ends, which must not move by more than 4 KB between iteration 64 and 960; '
              'the output must be that of one iteration, repeated; non-trivial: distinct loops', body)
