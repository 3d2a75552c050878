"""Other spellings of the same program: parentheses, white space, comments,
semicolons; and equality of emitted code up to the names the compiler makes up."""
import re

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\[^\']|\\(?=\')|[^\\])\'|//[^\n]*|#if|[A-Za-z_]\w*|0x[0-9a-fA-F]+|0b[01]+|\d+(?:\.\d+)?|'
                 r'==|!=|<=|>=|&&|\|\||\+\+|--|<<|>>|\.\.|\s+|.', re.S)
WORD = re.compile(r'\w')
KEY = ('if', 'else', 'for', 'switch', 'case', 'default', 'return', 'break', 'continue', 'as', 'struct', 'union', 'func', 'import', 'extern', 'pub',
       'const', 'type')
FUSE = re.compile(r'==|!=|<=|>=|&&|\|\||\+\+|--|<<|>>|\.\.|//|[\w.][\w.]')


def tokens(s):
    """Tokens without white space and comments."""
    return [t for t in TOK.findall(s) if not t.isspace() and not t.startswith('//')]


def can_touch(a, b):
    """Whether nothing is needed between a and b."""
    if a[0] in '"\'' or b[0] in '"\'':
        return True
    return not FUSE.search(a[-1:] + b[:1])


def comment(rng):
    return '//' + ''.join(rng.choice(['x', ' ', '}', '{', '"', "'", ';', '/', '@', '\\', 'é', '(', '\t', 'return 1;', '\\n', '#if', '\x00', '\x7f']) for _ in range(rng.randint(0, 8))) + \
        rng.choice(['\n', '\r\n'])


def gap(rng, style):
    if style == 'one line':
        return ' '
    if style == 'lines':
        return '\n'
    if style == 'tight':
        return ''
    r = rng.random()
    if r < 0.35:
        return rng.choice([' ', '', '', '\t', '  '])
    if r < 0.6:
        return ' '
    if r < 0.8:
        return ''.join(rng.choice([' ', '\n', '\r\n', '\t']) for _ in range(rng.randint(1, 4)))
    return rng.choice(['', ' ', '\n']) + ''.join(comment(rng) + rng.choice(['', ' ', '\n\t']) for _ in range(rng.choice([1, 1, 2])))


STYLES = ('one line', 'lines', 'tight', 'any')


def relayout(rng, src, style, semis=True):
    """The same tokens (some statements lose their semicolon) with other gaps."""
    t = tokens(drop_semis(rng, src) if semis else src)
    o = ''
    if style == 'any':
        o = gap(rng, style)
        if o and not o[-1].isspace():
            o += '\n'
    for i, x in enumerate(t):
        o += x
        if i + 1 == len(t):
            break
        if x in ('@', '#if'):
            # one name
            if x == '#if':
                o += ' '
            continue
        g = gap(rng, style)
        if not g and not can_touch(x, t[i + 1]):
            g = ' '
        if g.startswith('//') and x == '/':
            g = ' ' + g
        o += g
    return o + rng.choice(['', '\n'])


def drop_semis(rng, src):
    """Leaves out semicolons at the ends of lines when what follows cannot continue an expression."""
    p = rng.choice([0, 0.3, 1])
    return re.sub(r'(?<!return);(\n\s*)(?=\}|(?!as\b|else\b)[A-Za-z_])', lambda m: (';' if rng.random() >= p else '') + m.group(1), src)


BODY = re.compile(r'^( *(?:\} else if |\} else|if |for |else if |else)[^\n]*?) *\{\n *((?:[A-Za-z_@])[^\n{}]*;)\n *\}', re.M)


def debrace(rng, src):
    """Bodies of one simple statement lose their braces."""
    return BODY.sub(lambda m: m.group(0) if rng.random() < 0.3 or re.search(r':[^ =]+$', m.group(1).rstrip()) else m.group(1) + ' ' + m.group(2), src)


def numbers(rng, src):
    """Other spellings of integer literals, but not of the sizes of arrays."""
    t = TOK.findall(src)
    for i, x in enumerate(t):
        if x.isdigit() and t[i - 1] != '[' and rng.random() < 0.5:
            n = int(x)
            h = '%x' % n
            t[i] = rng.choice(['0x' + h, '0x' + h.upper(), '0x00' + h, '0b{:b}'.format(n), '0b0{:b}'.format(n), '0' + x])
    return ''.join(t)


NAME = re.compile(r'[@%][-\w.$]+|[@%]"[^"]*"|^[-\w.$]+:', re.M)


def canon(ll):
    """Emitted code with names replaced by numbers in order of appearance (names of
    declared functions stay)."""
    keep = set(re.findall(r'^declare [^\n]*?(@[-\w.$]+)\(', ll, re.M)) | {'@main'}
    m = {}

    def f(x):
        k = x.group(0)
        if k in keep:
            return k
        if k[-1] == ':':
            k = '%' + k[:-1]
            return m.setdefault(k, 'n%d' % len(m)) + ':'
        return m.setdefault(k, 'n%d' % len(m))
    return NAME.sub(f, ll)
