"""Random source text together with the tree that its syntax has, and the drawing of a tree.

The text need not be well typed: only its structure counts.  A tree is a string (a leaf) or (label, [trees]).
"""
BINARY = {'&&': 3, '||': 3, '==': 4, '!=': 4, '<': 4, '<=': 4, '>': 4, '>=': 4, '+': 5, '-': 5, '&': 6, '|': 6, '^': 6,
          '<<': 6, '>>': 6, '*': 7, '/': 7, '%': 7}
PREFIX, CALL, INDEX, DOT, ATOM = 9, 10, 12, 13, 20
AS, COMMA, LOW = 8, 2, 0
NAMES = ['a', 'b', 'x', 'foo', 'Bar', 'long_name', 'n1', '_u', 'iff', 'structure', 'for_']
TYPES = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64', 'f32', 'f64', 'void', 'S', 'Pair', 'm.T']
# statements that may not follow another without a semicolon, because they could go on an expression
OPENERS = '(*[-+&@:'


def draw(t):
    """The lines of the drawing of a tree."""
    if isinstance(t, str):
        return [t]
    label, kids = t
    if not kids:
        return ['']
    out, pad = [], ' ' * len(label)
    for i, k in enumerate(kids):
        lines = draw(k)
        mark = ('═' if len(kids) == 1 else '╦') if i == 0 else '╚' if i == len(kids) - 1 else '╠'
        out.append((label if i == 0 else pad) + mark + lines[0])
        wall = '║' if i < len(kids) - 1 else ' '
        out += [pad + wall + l for l in lines[1:]]
    return out


def prefixed(label, t):
    """A tree with a word before its label."""
    if isinstance(t, str):
        return label + t
    return (label + t[0], t[1]) if t[1] else label


def undraw(lines):
    """The tree of a drawing (None: its lines don't connect)."""
    if not lines:
        return None
    first = lines[0]
    at = min([i for i in (first.find('═'), first.find('╦')) if i >= 0], default=-1)
    if at < 0:
        return first if len(lines) == 1 else None
    label, rest = first[:at], [l.ljust(at + 1) for l in lines[1:]]
    if any(l[:at].strip() for l in rest):
        return None
    parts = [[first[at + 1:]]]
    for l in rest:
        if l[at] in '╠╚':
            parts.append([l[at + 1:]])
        elif l[at] in '║ ':
            parts[-1].append(l[at + 1:])
        else:
            return None
    marks = [first[at]] + [l[at] for l in rest if l[at] in '╠╚']
    want = ['═'] if len(parts) == 1 else ['╦'] + ['╠'] * (len(parts) - 2) + ['╚']
    if marks != want:
        return None
    seen = 0
    for l in rest:
        if l[at] in '╠╚':
            seen += 1
        elif (l[at] == '║') != (seen < len(parts) - 1):
            return None
    kids = [undraw(p) for p in parts]
    return None if any(k is None for k in kids) else (label, kids)


def shown(t):
    """A tree without the nodes that are drawn as nothing."""
    if isinstance(t, str):
        return t
    return (t[0], [shown(k) for k in t[1]]) if t[1] else ''


class Gen:
    def __init__(self, rng, depth=4):
        self.rng, self.depth, self.cov = rng, depth, {}

    def note(self, x):
        self.cov[x] = self.cov.get(x, 0) + 1

    def name(self):
        return self.rng.choice(NAMES)

    # types: (text, as shown)
    def type(self, d=2, fn=True):
        rng, r = self.rng, self.rng.random()
        if d <= 0 or r < .5:
            t = rng.choice(TYPES)
            return t, t
        if r < .7:
            t, s = self.type(d - 1)
            return '*' + t, '*' + s
        if r < .88 or not fn:
            n = rng.choice([0, 1, 3, 100])
            t, s = self.type(d - 1)
            return '[%d]%s' % (n, t), '[%d]%s' % (n, s)
        ps = [self.type(d - 1) for _ in range(rng.choice([0, 1, 1, 2]))]
        q = self.type(d - 1)
        return 'func(%s) %s' % (', '.join(p[0] for p in ps), q[0]), 'func(%s) %s' % (', '.join(p[1] for p in ps), q[1])

    # expressions: (text, tree, precedence)
    def paren(self, e, prec, right=False):
        t, s, p = e
        if p < prec or (right and p == prec) or self.rng.random() < .08:
            self.note('parentheses')
            return '(' + t + ')', s
        return t, s

    def integer(self):
        rng = self.rng
        n = rng.choice([0, 1, 2, 3, 7, 10, 255, 65536, 2147483647, 2147483648, 9223372036854775807, 9223372036854775808, 18446744073709551615,
                        rng.randint(0, 2**31), rng.randint(0, 2**63)])
        form = rng.random()
        text = str(n) if form < .7 else hex(n) if form < .85 else bin(n)
        ty = 'i32' if n < 2**31 else 'i64' if n < 2**63 else 'u64'
        return text, '%d (%s)' % (n, ty), ATOM

    def string(self):
        rng = self.rng
        text, value = '', ''
        for _ in range(rng.choice([0, 1, 3, 8])):
            c = rng.choice(['a', 'Z', '0', ' ', '\\n', '\\"', '\\\\', '/', '//', '{', '}', ';', ',', '%d', "'", '(', '\n', 'func', '\\q'])
            text += c
            value += {'\\n': '\n', '\\"': '"', '\\\\': '\\', '\\q': 'q'}.get(c, c)
        return text, value

    def atom(self):
        rng, r = self.rng, self.rng.random()
        if r < .5:
            n = self.name()
            return n, n, ATOM
        if r < .75:
            self.note('integer')
            return self.integer()
        if r < .82:
            self.note('float')
            v = rng.choice(['0.5', '2.25', '1.0', '0.0', '100.125', '3.75'])
            return v, (v[:-2] if v.endswith('.0') else v) + ' (f32)', ATOM
        if r < .9:
            self.note('char')
            c, v = rng.choice([('a', 'a'), ('0', '0'), (' ', ' '), ('\\n', '\\n'), ('\\t', '\\t'), ('\\r', '\\r'), ('\\\\', '\\\\'), ('"', '"'), ('{', '{')])
            return "'%s'" % c, "'%s' (i8)" % v, ATOM
        self.note('string')
        t, v = self.string()
        return '"%s"' % t, ('ast.StringLiteral', [quote(v)]), ATOM

    def args(self, d, k=None):
        es = [self.expr(d - 1) for _ in range(self.rng.choice([0, 1, 1, 2, 3]) if k is None else k)]
        ps = [self.paren(e, COMMA + 1) for e in es]
        return ', '.join(p[0] for p in ps), ('ast.Parameters', [p[1] for p in ps])

    def expr(self, d=None, head=False):
        d = self.depth if d is None else d
        rng = self.rng
        if d <= 0:
            return self.atom()
        r = rng.random()
        if r < .3:
            op = rng.choice(list(BINARY))
            self.note('operator ' + op)
            p = BINARY[op]
            l, lt = self.paren(self.expr(d - 1, head), p)
            q, qt = self.paren(self.expr(d - 1, head), p, True)
            sp = ' ' if rng.random() < .85 or q[0] in '+-&*|=<>' or l[-1] in '+-&*|=<>/' else ''
            return l + sp + op + sp + q, ('ast.BinaryOperation', [lt, "'%s'" % op, qt]), p
        if r < .42:
            op = rng.choice(['-', '+', '!', '*', '&', '++', '--'])
            self.note('prefix ' + op)
            t, s = self.paren(self.expr(d - 1, head), PREFIX)
            return op + (' ' if t[0] in '+-&*=' or rng.random() < .1 else '') + t, ('ast.PrefixOperation', ["'%s'" % op, s]), PREFIX
        if r < .5:
            self.note('as')
            t, s = self.paren(self.expr(d - 1, head), AS)
            ty, shown_ = self.type(1, False)
            return '(%s as %s)' % (t, ty) if True else '', ('ast.BuiltinCall', ['cast', ('ast.TypeParameters', [shown_]), ('ast.Parameters', [s])]), ATOM
        if r < .6:
            self.note('call')
            t, s = self.paren(self.expr(d - 1, head), CALL)
            a, at = self.args(d)
            return '%s(%s)' % (t, a), ('ast.Call', [s, at]), CALL
        if r < .67:
            self.note('index')
            t, s = self.paren(self.expr(d - 1, head), CALL)
            a, at = self.paren(self.expr(d - 1), LOW)
            return '%s[%s]' % (t, a), ('ast.IndexAccess', [s, at]), CALL
        if r < .77:
            self.note('member')
            t, s = self.paren(self.expr(d - 1, head), CALL)
            if t[-1].isdigit() and t.replace('_', '').isalnum() and t[0].isdigit():
                t = '(' + t + ')'
            n = self.name()
            return '%s.%s' % (t, n), ('ast.BinaryOperation', [s, "'.'", n]), CALL
        if r < .87:
            k = rng.random()
            if k < .3:
                self.note('builtin print')
                a, at = self.args(d)
                return '@print(%s)' % a, ('ast.BuiltinCall', ['print', at]), ATOM
            ty, st = self.type(2)
            if k < .6:
                n = rng.choice(['alloc', 'cast'])
                self.note('builtin ' + n)
                a, at = self.args(d, 1)
                return '@%s(%s, %s)' % (n, ty, a), ('ast.BuiltinCall', [n, ('ast.TypeParameters', [st]), at]), ATOM
            if k < .8:
                self.note('builtin sizeof')
                return '@sizeof(%s)' % ty, ('ast.BuiltinCall', ['sizeof', ('ast.TypeParameters', [st]), '']), ATOM
            if k < .9:
                self.note('builtin free')
                a, at = self.args(d, 1)
                return '@free(%s)' % a, ('ast.BuiltinCall', ['free', at]), ATOM
            self.note('builtin realloc')
            a, at = self.args(d, 2)
            return '@realloc(%s)' % a, ('ast.BuiltinCall', ['realloc', at]), ATOM
        if r < .91:
            self.note('struct literal')
            n = self.name()
            fs = [(self.name(), self.paren(self.expr(d - 1), COMMA + 1)) for _ in range(rng.choice([0, 1, 2, 3]))]
            m = rng.choice(['', '', 'm.'])
            return '@%s%s{%s}' % (m, n, ', '.join('%s: %s' % (f, e[0]) for f, e in fs)), \
                ('ast.StructLiteral', [n] + [('ast.Field', [f, e[1]]) for f, e in fs]), ATOM
        if r < .95:
            self.note('array literal')
            es = [self.paren(self.expr(d - 1), COMMA + 1) for _ in range(rng.choice([0, 1, 2, 3]))]
            ty, st = self.type(1, False)
            return '[%d]%s{%s}' % (len(es), ty, ', '.join(e[0] for e in es)), \
                ('ast.ArrayLiteral', [('types.Array', ['[%d]%s' % (len(es), st)])] + [('ast.ArrayElement', [e[1]]) for e in es]), ATOM
        if r < .975:
            self.note('lambda')
            ps, pt = self.params()
            q, qt = self.result()
            b, bt = self.block(min(d - 1, 2))
            return '(func(%s)%s %s)' % (ps, q, b), ('ast.AnonymousFunction', [pt, ('types.Return', [qt]), bt]), ATOM
        self.note('block expression')
        ty, st = self.type(1, False)
        b, bt = self.block(min(d - 1, 2))
        return '(:%s %s)' % (ty, b), ('ast.ExpressionBlock', [('types.Return', [st]), bt]), ATOM

    def params(self):
        ps = [(self.name(), self.type(1)) for _ in range(self.rng.choice([0, 1, 2, 3]))]
        return ', '.join('%s %s' % (n, t[0]) for n, t in ps), ('types.Parameters', ['%s %s' % (n, t[1]) for n, t in ps])

    def result(self):
        r = self.rng.random()
        if r < .3:
            return '', 'void'
        ts = [self.type(1, False) for _ in range(1 if r < .8 else 2)]
        return ' ' + ', '.join(t[0] for t in ts), ', '.join(t[1] for t in ts)

    # statements: (text, tree)
    def block(self, d, braces=True):
        ss = self.statements(d - 1, self.rng.choice([0, 1, 1, 2, 3]))
        return '{' + self.space() + ''.join(s[0] + self.space() for s in ss) + '}', ('ast.Block', [s[1] for s in ss])

    def body(self, d):
        """The body of an if, else or case: a block or one statement."""
        if self.rng.random() < .75:
            return self.block(d)
        t, s = self.statement(d - 1, simple=True)
        while t[0] in OPENERS:
            t, s = self.statement(d - 1, simple=True)
        self.note('body without braces')
        return t, ('ast.Block', [s])

    def space(self):
        return self.rng.choice([' ', '\n', '\n  ', ' // note\n', '\n\n', '\t'])

    def statements(self, d, n):
        return [self.statement(d) for _ in range(n)]

    def value(self):
        """What is declared, assigned or returned: an expression or several."""
        if self.rng.random() < .85:
            t, s, _ = self.expr()
            return t, s
        self.note('comma')
        es = [self.paren(self.expr(2), COMMA + 1) for _ in range(self.rng.choice([2, 2, 3]))]
        return ', '.join(e[0] for e in es), ('ast.CommaExpressions', [e[1] for e in es])

    def place(self):
        """What may be assigned."""
        r = self.rng.random()
        n = self.name()
        if r < .4:
            return n, n
        if r < .6:
            m = self.name()
            return n + '.' + m, ('ast.BinaryOperation', [n, "'.'", m])
        if r < .8:
            t, s, _ = self.expr(2)
            return '%s[%s]' % (n, t), ('ast.IndexAccess', [n, s])
        t, s = self.paren(self.expr(1), PREFIX)
        return '*' + (' ' if t[0] in '+-&*=' else '') + t, ('ast.PrefixOperation', ["'*'", s])

    def declaration(self, multi=True):
        rng = self.rng
        k = rng.choice([1, 1, 1, 2, 3]) if multi else 1
        ns = [self.name() for _ in range(k)]
        t, s = self.value()
        ty = (' ' + self.type(1, False)[0] + ' ') if rng.random() < .3 and k == 1 else ''
        const = 'const ' if rng.random() < .1 and k == 1 and multi else ''
        self.note('declaration of %d names' % k)
        return '%s%s :%s= %s' % (const, ', '.join(ns), ty, t), \
            ('ast.DeclarationStatement' if k == 1 else 'ast.MultipleDeclarationStatement', ns + [s])

    def assignment(self):
        if self.rng.random() < .2:
            self.note('multiple assignment')
            ps = [self.place() for _ in range(2)]
            if ps[0][0][0] == '*':
                ps[0] = ('a', 'a')
            es = [self.paren(self.expr(2), COMMA + 1) for _ in range(2)]
            return ', '.join(p[0] for p in ps) + ' = ' + ', '.join(e[0] for e in es), \
                ('ast.AssignmentStatement', [('ast.CommaExpressions', [p[1] for p in ps]), ('ast.CommaExpressions', [e[1] for e in es])])
        self.note('assignment')
        p, e = self.place(), self.value()
        return p[0] + ' = ' + e[0], ('ast.AssignmentStatement', [p[1], e[1]])

    def statement(self, d, simple=False):
        rng = self.rng
        r = rng.random()
        if d <= 0 or simple:
            r *= .5
        if r < .15:
            t, s = self.declaration()
            return t + ';', s
        if r < .27:
            t, s = self.assignment()
            return t + ';', s
        if r < .4:
            self.note('expression statement')
            t, s, _ = self.expr()
            while t.startswith('func') or t[0] in ':{':
                t, s, _ = self.expr()
            return t + ';', ('ast.ExpressionStatement', [s])
        if r < .5:
            k = rng.choice(['break', 'continue', 'return', 'return', 'return'])
            self.note(k)
            if k != 'return':
                return k + ';', 'ast.%sStatement' % k.capitalize()
            if rng.random() < .25:
                return 'return;', ('ast.ReturnStatement', [''])
            t, s = self.value()
            return 'return ' + t + ';', ('ast.ReturnStatement', [s])
        if r < .65:
            self.note('if')
            t, s, _ = self.expr(2)
            b, bt = self.body(d)
            text, kids = 'if %s %s' % (t, b), [s, bt]
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                self.note('else if')
                t, s, _ = self.expr(2)
                b, bt = self.body(d)
                text += ' else if %s %s' % (t, b)
                kids.append(('ast.ConditionPlusBlock', [s, bt]))
            if rng.random() < .4:
                self.note('else')
                b, bt = self.body(d)
                text += ' else ' + b
                kids.append(('ast.Else', [bt]))
            return text, ('ast.IfStatement', kids)
        if r < .8:
            k = rng.random()
            self.note('for' + (' {}' if k < .2 else ' condition' if k < .5 else ' header'))
            b, bt = self.block(d)
            if k < .2:
                return 'for ' + b, ('ast.ForStatement', [bt])
            t, s, _ = self.expr(2)
            while k < .5 and (t.startswith('func') or t[0] in ':{'):
                t, s, _ = self.expr(2)
            if k < .5:
                return 'for %s %s' % (t, b), ('ast.ForStatement', [prefixed('condition: ', s), bt])
            i, it = self.declaration(False) if rng.random() < .7 else self.assignment()
            kids = [prefixed('initializer: ', it), prefixed('condition: ', s)]
            text = 'for %s; %s; ' % (i, t)
            if rng.random() < .85:
                if rng.random() < .5:
                    o, ot = self.assignment()
                else:
                    o, ot, _ = self.expr(2)
                    while o.startswith('func') or o[0] in ':{':
                        o, ot, _ = self.expr(2)
                    ot = ('ast.ExpressionStatement', [ot])
                text += o + ' '
                kids.append(prefixed('operation: ', ot))
            return text + b, ('ast.ForStatement', kids + [bt])
        if r < .9:
            self.note('switch')
            t, s, _ = self.expr(2)
            text, kids = 'switch %s {' % t, [('ast.Condition', [s])]
            for _ in range(rng.choice([0, 1, 2, 3])):
                t, s, _ = self.expr(1)
                b, bt = self.body(d)
                text += self.space() + 'case %s %s' % (t, b)
                kids.append(('ast.Case', [s, bt]))
            if rng.random() < .5:
                b, bt = self.body(d)
                text += self.space() + 'default ' + b
                kids.append(('ast.Default', [bt]))
            return text + self.space() + '}', ('ast.SwitchStatement', kids)
        if r < .95:
            self.note('block')
            return self.block(d)
        self.note('#if')
        c, yes = rng.choice([('LINUX', True), ('1', True), ('0', False), ('WINDOWS', False), ('MACOS', False)])
        b, bt = self.block(d)
        return '#if %s %s' % (c, b), ('ast.MacroBlock', bt[1] if yes else [])

    def top(self):
        rng, r = self.rng, self.rng.random()
        n = self.name()
        if r < .15:
            k = rng.choice(['struct', 'union'])
            self.note(k)
            fs = [(self.name(), self.type(2)) for _ in range(rng.choice([1, 1, 2, 3]))]
            return '%s %s {%s%s}' % (k, n, self.space(), ''.join(f + ' ' + t[0] + self.space() for f, t in fs)), \
                ('ast.%sStatement' % k.capitalize(), [('ast.Field', [f, t[1]]) for f, t in fs])
        if r < .5:
            self.note('function')
            ps, pt = self.params()
            q, qt = self.result()
            b, bt = self.block(3)
            return '%sfunc %s(%s)%s %s' % (rng.choice(['', '', 'pub ']), n, ps, q, b), \
                ('ast.FunctionDeclarationStatement', [n] + ([pt] if pt[1] else []) + [('types.Return', [qt]), bt])
        if r < .56:
            self.note('extern')
            ts = [self.type(1) for _ in range(rng.choice([0, 1, 2]))]
            q = self.type(1, False)
            return 'extern func %s(%s) %s;' % (n, ', '.join(t[0] for t in ts), q[0]), \
                ('ast.ExternStatement', ['func %s(%s) %s' % (n, ', '.join(t[1] for t in ts), q[1])])
        if r < .6:
            self.note('type definition')
            t, s = self.type(2)
            return 'type %s = %s;' % (n, t), ('ast.TypeDefinition', [n, s])
        if r < .65:
            self.note('import')
            ts = [self.type(1, False) for _ in range(rng.choice([0, 0, 1, 2]))]
            p = rng.choice(['./x.cd', '../a/b.cd', 'map'])
            return 'import %s%s, "%s";' % (n, ''.join(', ' + t[0] for t in ts), p), ('ast.ImportStatement', [t[1] for t in ts] + [quote(p)])
        return self.statement(2)

    def program(self):
        tops = [self.top() for _ in range(self.rng.choice([1, 2, 4, 6]))]
        return self.space().join(t[0] for t in tops) + '\n', ('ast.Program', [t[1] for t in tops])


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace('\t', '\\t').replace('\r', '\\r') + '"'
