"""Random control flow that mostly returns: its text, whether every path returns by the
rule of the language, and what it does for an input."""


class Unreachable(Exception):
    pass


class Endless(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


MOD = 1000003


class Flow:
    """A body is a list of statements: tuples whose first element tells the kind. Conditions
    are bits of the parameter n; a is a variable that records the way taken."""

    def __init__(self, rng, p=.8, unreachable=.03):
        self.r, self.p, self.u = rng, p, unreachable
        self.bits = self.ids = 0
        self.kinds = set()

    def bit(self):
        self.bits = (self.bits + 1) % 10
        return self.bits

    def id(self):
        self.ids += 1
        return self.ids

    def body(self, d, loop=False, want=None):
        """A body of depth d that returns with probability p (want: for sure or surely not)."""
        r = self.r
        want = (r.random() < self.p) if want is None else want
        if not want and r.random() < .1:
            return []
        out = [self.plain(d, loop) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        out = [s for s in out if not returns([s])]
        if want:
            out.append(self.returning(d, loop))
        else:
            out.append(self.almost(d, loop))
        return out

    def cond(self):
        return self.bit()

    def plain(self, d, loop):
        r = self.r
        c = r.random()
        if d == 0 or c < .3:
            if loop and r.random() < .3:
                return r.choice([('break',), ('continue',)])
            return 'set', self.id()
        if c < .5:
            return self.some_if(d, loop, r.random() < .3)
        if c < .7:
            return 'for', r.randrange(4), self.body(d - 1, True, r.random() < .5)
        if c < .8:
            return 'switch', self.cases(d, loop, [r.random() < .5 for _ in range(r.randint(0, 3))]), r.choice([None, self.body(d - 1, loop, False)])
        if c < .87:
            return 'value', self.body(d - 1, False)
        if c < .94:
            return 'lambda', self.body(d - 1, False)
        return 'block', self.body(d - 1, loop, False)

    def cases(self, d, loop, wants):
        return [self.body(d - 1, loop, w) for w in wants]

    def some_if(self, d, loop, has_else):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3])
        arms = [(self.cond(), self.body(d - 1, loop, r.random() < .6)) for _ in range(n)]
        return 'if', arms, self.body(d - 1, loop, False) if has_else else None

    def returning(self, d, loop):
        r = self.r
        c = r.random()
        if d == 0 or c < .3:
            return ('unreachable',) if r.random() < self.u else ('return', self.id())
        if c < .65:
            return 'if', [(self.cond(), self.body(d - 1, loop, True)) for _ in range(r.choice([1, 1, 2, 3]))], self.body(d - 1, loop, True)
        if c < .85:
            return 'switch', self.cases(d, loop, [True] * r.randint(0, 3)), self.body(d - 1, loop, True)
        return r.choice(['block', 'macro']) if r.random() < .5 else 'block', self.body(d - 1, loop, True)

    def almost(self, d, loop):
        """Something that looks like returning."""
        r = self.r
        c = r.random()
        if d == 0 or c < .15:
            return 'set', self.id()
        if c < .5:
            n = r.choice([1, 1, 2, 3])
            wants = [True] * (n + 1)
            wants[r.randrange(n + 1)] = False
            els = self.body(d - 1, loop, wants[n])
            return 'if', [(self.cond(), self.body(d - 1, loop, w)) for w in wants[:n]], None if not wants[n] and r.random() < .5 else els
        if c < .8:
            n = r.randint(0, 3)
            wants = [True] * (n + 1)
            wants[r.randrange(n + 1)] = False
            els = self.body(d - 1, loop, wants[n])
            return 'switch', self.cases(d, loop, wants[:n]), None if not wants[n] and r.random() < .5 else els
        if c < .9:
            return 'for', r.randrange(3), self.body(d - 1, True, True)
        return r.choice(['block', 'value', 'lambda']), self.body(d - 1, False, True) if c < .95 else self.body(d - 1, False)

    # text

    def text(self, body, ind='    ', unit='i32'):
        return ''.join(self.stmt(s, ind, unit) for s in body)

    def stmt(self, s, ind, unit):
        k = s[0]
        self.kinds.add(k)
        b = lambda x: '{\n' + self.text(x, ind + '    ', unit) + ind + '}'
        c = lambda n: '((n >> %d) & 1) == 1' % n
        if k == 'set':
            return '%sa = (a * 3 + %d) %% %d;\n' % (ind, s[1], MOD)
        if k == 'return':
            return '%sreturn (a * 5 + %d) %% %d;\n' % (ind, s[1], MOD)
        if k in ('break', 'continue'):
            return ind + k + ';\n'
        if k == 'unreachable':
            return ind + '@unreachable();\n'
        if k == 'block':
            return ind + b(s[1]) + '\n'
        if k == 'macro':
            return ind + '#if LINUX ' + b(s[1]) + '\n'
        if k == 'value':
            return '%sa = (a + :i32 %s) %% %d;\n' % (ind, b(s[1]), MOD)
        if k == 'lambda':
            return '%sa = (a + (func(n i32, a i32) i32 %s)(n, a)) %% %d;\n' % (ind, b(s[1]), MOD)
        if k == 'if':
            o = ind
            for i, (x, y) in enumerate(s[1]):
                o += ('if ' if i == 0 else ' else if ') + c(x) + ' ' + b(y)
            if s[2] is not None:
                o += ' else ' + b(s[2])
            return o + '\n'
        if k == 'for':
            if s[1] == 3:
                return ind + 'for {\n' + self.text(s[2], ind + '    ', unit) + ind + '    break;\n' + ind + '}\n'
            head = ['i := 0; i < 2; ++i', 'i := 3; i > 0; --i', 'i := 0 as u8; i < 1 as u8; ++i'][s[1]]
            return ind + 'for ' + head + ' ' + b(s[2]) + '\n'
        o = ind + 'switch n & 3 {\n'
        for i, x in enumerate(s[1]):
            o += ind + 'case %d {\n' % i + self.text(x, ind + '    ', unit) + ind + '}\n'
        if s[2] is not None:
            o += ind + 'default {\n' + self.text(s[2], ind + '    ', unit) + ind + '}\n'
        return o + ind + '}\n'


def returns(body):
    """Whether every path returns, by the rule of the language. None: a part of it is wrong anyway."""
    for s in body:
        k = s[0]
        if k in ('return', 'unreachable'):
            return True
        if k in ('block', 'macro') and returns(s[1]):
            return True
        if k == 'if' and s[2] is not None and all(returns(b) for _, b in s[1]) and returns(s[2]):
            return True
        if k == 'switch' and s[2] is not None and all(returns(b) for b in s[1]) and returns(s[2]):
            return True
    return False


def legal(body):
    """Whether the functions and block expressions inside all return (code after a return is not looked at)."""
    for s in body:
        k = s[0]
        if k in ('value', 'lambda') and not (legal(s[1]) and returns(s[1])):
            return False
        if k in ('block', 'macro') and not legal(s[1]):
            return False
        if k == 'if' and not (all(legal(b) for _, b in s[1]) and (s[2] is None or legal(s[2]))):
            return False
        if k == 'for' and not legal(s[2]):
            return False
        if k == 'switch' and not (all(legal(b) for b in s[1]) and (s[2] is None or legal(s[2]))):
            return False
        if returns([s]):
            return True
    return True


def evaluate(body, n, a):
    """What a function with this body gives for n; None: nothing (it fell through)."""
    st = [a]
    fuel = [20000]

    def go(body):
        for s in body:
            fuel[0] -= 1
            if fuel[0] < 0:
                raise Endless
            k = s[0]
            if k == 'set':
                st[0] = (st[0] * 3 + s[1]) % MOD
            elif k == 'return':
                raise Ret((st[0] * 5 + s[1]) % MOD)
            elif k == 'unreachable':
                raise Unreachable
            elif k == 'break':
                raise Brk
            elif k == 'continue':
                raise Cnt
            elif k in ('block', 'macro'):
                go(s[1])
            elif k == 'value':
                old = st[0]   # the left operand comes first
                try:
                    go(s[1])
                    return_ = None
                except Ret as e:
                    return_ = e.v
                st[0] = (old + return_) % MOD
            elif k == 'lambda':
                st[0] = (st[0] + evaluate(s[1], n, st[0])) % MOD
            elif k == 'if':
                for c, b in s[1]:
                    if n >> c & 1:
                        go(b)
                        break
                else:
                    if s[2] is not None:
                        go(s[2])
            elif k == 'switch':
                v = n & 3
                if v < len(s[1]):
                    go(s[1][v])
                elif s[2] is not None:
                    go(s[2])
            elif k == 'for':
                for _ in range([2, 3, 1, 1000000][s[1]]):
                    fuel[0] -= 1
                    if fuel[0] < 0:
                        raise Endless
                    try:
                        go(s[2])
                        if s[1] == 3:
                            break
                    except Brk:
                        break
                    except Cnt:
                        continue
    try:
        go(body)
    except Ret as e:
        return e.v
    return None
