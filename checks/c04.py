"""C04: control flow and order of evaluation."""
from vf import core
from vf.prog import *


def gen(rng, uid):
    pg = PG(rng, uid, p_trace=rng.choice([0.15, 0.4]), p_call=0.05, p_part=rng.choice([0, 0.05]), depth=rng.choice([2, 3, 4]), budget=40,
            ifs=3, for3=2, forcond=1.5, forinf=1, switch=2, ret=0.5, brk=2, aggdecl=0.7, multiassign=2, clash=rng.choice([0, 1, 3]))
    pg.add_globals(2)
    for _ in range(rng.randint(0, 2)):
        pg.func(5)
    c = pg.case(rng.randint(3, 9))
    return c


def body(ck):
    nb = ck.n(320, 3000)
    ck.pmap(core.generic_batch, [('C04', ck.seed, b, gen, 12, ('O0', 'O3')) for b in range(nb)] +
            [('C04', ck.seed, 100000 + b, gen, 12, ('asan', 'msan')) for b in range(nb // 6)])


if __name__ == '__main__':
    core.main('C04', 'random functions of nested if / for / switch / blocks with break, continue and return in any position; '
              'operands, conditions and steps announce their evaluation; the trace must equal the interpreter\'s', body)
