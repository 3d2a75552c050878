"""C05: variables, scopes and assignment."""
from vf import core
from vf.prog import *


def gen(rng, uid):
    pg = PG(rng, uid, p_shadow=rng.choice([0.3, 0.6]), p_call=0.1, p_part=rng.choice([0, 0.05]), depth=rng.choice([2, 3, 4]), budget=40, expr=1,
            decl=5, assign=5, multidecl=3, multiassign=4, incdec=2, block=3, print=4, ifs=1.5, for3=1, forcond=1, switch=0.7,
            brk=0.5, ret=0.3, p_blockexpr=0.04, clash=rng.choice([0, 0, 1]))
    pg.add_globals(rng.randint(1, 4))
    for _ in range(rng.randint(0, 2)):
        pg.func(4)
    c = pg.case(rng.randint(4, 10))
    return c


def body(ck):
    nb = ck.n(260, 3000)
    ck.pmap(core.generic_batch, [('C05', ck.seed, b, gen, 12, ('O0', 'O3')) for b in range(nb)] +
            [('C05', ck.seed, 100000 + b, gen, 12, ('asan', 'msan')) for b in range(nb // 6)])


if __name__ == '__main__':
    core.main('C05', 'random functions that declare, redeclare and hide names in nested blocks, loops, branches, parameters, globals, '
              'and assign one or several at a time; every name in scope is printed and must hold what the interpreter holds', body)
