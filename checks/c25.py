"""C25: block expressions."""
from vf import core
from vf.prog import *


class BPG(PG):
    """Block expressions of every type, with returns and loops inside, everywhere."""

    def blockexpr(self, t):
        rng = self.rng
        self.blockdepth += 1
        self.push()
        saved = self.rets, self.loop, self.k['depth']
        if rng.random() < 0.5:
            self.loop = 0
        self.rets = [t]
        body = []
        value = (lambda: self.scalar(t)) if t in self.scal else (lambda: self.anyexpr(t))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            body += self.stmt(rng.choice([1, 1, 2]))
        r = rng.random()
        last = [Return(value())]
        if r < 0.2:
            last = [If([(self.cond(), [Return(value())])], [Return(value())])]
            self.note('both branches return')
        elif r < 0.35:
            last = [If([(self.cond(), [Return(value())])], None)] + last
        elif r < 0.45:
            i = self.nm('i')
            last = [For([If([(self.cond(), [Return(value())])], None)], Bin('<', Var(i, I32), Lit(I32, rng.randint(1, 3))), Decl(i, I32, Lit(I32, 0)),
                        ExprS(IncDec('++', Var(i, I32))))] + last
            self.note('return in a loop')
        elif r < 0.55:
            last = [Block(last)]
        elif r < 0.65:
            u = rng.choice([x for x in self.scal if isinstance(x, Int)])
            last = [Switch(self.scalar(u), [(Lit(u, k), [Return(value())]) for k in range(rng.randint(0, 2))], last)]
            self.note('switch that returns')
        body += last
        self.rets, self.loop, self.k['depth'] = saved
        self.pop()
        self.blockdepth -= 1
        if self.blockdepth:
            self.note('inside of another one')
        return BlockExpr(t, body)

    def anyexpr(self, t):
        if self.rng.random() < self.k['p_blockexpr'] and self.blockdepth < 3:
            self.note('block expression of ' + ('a function' if isinstance(t, Fn) else type(t).__name__))
            return self.blockexpr(t)
        return PG.anyexpr(self, t)

    def aggregate(self, t):
        if self.rng.random() < self.k['p_blockexpr'] and self.blockdepth < 3:
            self.note('block expression of ' + type(t).__name__)
            return self.blockexpr(t)
        return PG.aggregate(self, t)


def gen(rng, uid):
    pg = BPG(rng, uid, p_blockexpr=rng.choice([0.1, 0.2, 0.35]), p_trace=rng.choice([0, 0.2]), p_call=0.1, p_shadow=rng.choice([0, 0.3]), p_part=rng.choice([0, 0.1, 0.25]), depth=2, budget=20,
             ret=1, brk=1.5, expr=2, structs=rng.choice([0, 1, 2]), aggdecl=rng.choice([0, 1, 2]), aggassign=rng.choice([0, 1]), ptr=rng.choice([0, 1]), lam=rng.choice([0, 0, 1]))
    pg.add_globals(1)
    for _ in range(rng.randint(0, 2)):
        pg.func(3)
    return pg.case(rng.randint(2, 6))


def body(ck):
    nb = ck.n(160, 3000)
    ck.pmap(core.generic_batch, [('C25', ck.seed, b, gen, 10, ('O0', 'O3')) for b in range(nb)] +
            [('C25', ck.seed, 100000 + b, gen, 10, ('asan', 'msan')) for b in range(nb // 6)])


if __name__ == '__main__':
    core.main('C25', 'random programs with block expressions of every type in every place, nested, with returns in branches and loops inside; '
              'the trace must equal the interpreter\'s', body)
