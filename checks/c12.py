"""C12: anonymous functions and what they capture."""
from vf import core
from vf.prog import *


def gen(rng, uid):
    pg = PG(rng, uid, lam=5, call=5, p_call=0.4, p_shadow=rng.choice([0, 0.3]), p_part=rng.choice([0, 0.05]), depth=2, budget=25, expr=1,
            clash=rng.choice([0, 0, 1]),
            structs=rng.choice([0, 0, 1]), aggdecl=rng.choice([0, 1]), ptr=rng.choice([0, 1]), decl=4, assign=5, for3=1.5,
            incdec=1.5, p_blockexpr=0.03)
    pg.add_globals(1)
    for _ in range(rng.randint(0, 2)):
        pg.fntype()
    pt = pg.scal + pg.fntypes
    for _ in range(rng.randint(0, 2)):
        pg.func(3, ptypes=pt, maxparams=3, ret=[rng.choice(pg.scal)])
    if pg.fntypes and rng.random() < 0.6:
        maker(pg)
    return pg.case(rng.randint(4, 9))


def maker(pg):
    """A function that returns an anonymous one that captured its parameters."""
    rng = pg.rng
    ft = rng.choice(pg.fntypes)
    pg.scopes = pg.scopes[:1]
    pg.push()
    ps = [(pg.nm('a'), rng.choice(pg.scal)) for _ in range(rng.randint(1, 2))]
    for n, t in ps:
        pg.add(n, t)
    pg.push()
    t = rng.choice(pg.scal)
    l = pg.nm('l')
    b = [Decl(l, t, pg.scalar(t))]
    pg.add(l, t)
    saved = dict(pg.w)
    pg.w['ptr'] = 0
    b.append(Return(pg.lam(ft)))
    pg.w = saved
    pg.scopes = pg.scopes[:1]
    f = Func(pg.nm('mk'), ps, [ft], b)
    pg.decls.append(f)
    pg.funcs.append(f)
    pg.note('returned by its maker')


def body(ck):
    nb = ck.n(220, 3000)
    ck.pmap(core.generic_batch, [('C12', ck.seed, b, gen, 10, ('O0', 'O3')) for b in range(nb)] +
            [('C12', ck.seed, 100000 + b, gen, 10, ('asan', 'msan')) for b in range(nb // 6)])


if __name__ == '__main__':
    core.main('C12', 'random programs that create anonymous functions anywhere (also nested, in loops, in arguments, returned), with '
              'captured scalars, structs and pointers that change before and after, and call them; the trace must equal the interpreter\'s', body)
