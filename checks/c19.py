"""C19: every error names the place of a token: its line, its column, its text, and the line that it marks."""
import random
import re
import shutil

from vf import core, fuzz, syntax, typing

TOK = re.compile(rb'//[^\n]*|[ \t\r\n]+|(?P<t>"(?:\\.|[^"\\])*"|\'(?:\\[^\']|[^\\]|\\(?=\'))\'|#[A-Za-z_]\w*|[A-Za-z_][A-Za-z0-9_]*|0x[0-9a-fA-F]*|0b[01]*|\d+(?:\.\d+)?|'
                 rb'==|!=|<=|>=|&&|\|\||\+\+|--|<<|>>|\.\.|.)', re.S)
ODD = [b'$', b'`', b'?', b'~', b'\\', b'\x01']
CONSTANTS = [b'wrong := 3 / 0;', b'wrong := (3 + 4) % (2 - 2);', b'other := 2; wrong := other + 1;', b'wrong := 1 << 40;', b'wrong := [2]i32{1, 4 / 0};', b'wrong := (1 as i8) >> (9 as i8);',
             b'func wrong(n i32) void { switch n { case 1 { } case 2 { } case 1 { } } }', b'wrong := *(&3);', b'wrong := 5 as *i32;', b'func wrong2() i32 { return 1; } wrong := wrong2();']
WHITE = [b' ', b'  ', b'\t', b'\n', b'\n\n', b'\r\n', b'\n\t\t', b' // note\n', b'\n// a "b\n  ', b'//\n', b' \t ', b'\n    ']


def tokens(s):
    """[(start, text)] as the lexer would cut the text."""
    return [(m.start('t'), m.group('t')) for m in TOK.finditer(s) if m.group('t') is not None]


def spread(rng, s, chars):
    """The same tokens with other white space and comments between them, and characters in strings."""
    out, end = [], 0
    for i, t in tokens(s):
        gap = s[end:i]
        if gap and rng.random() < .15:
            gap = b' ' + rng.choice(WHITE)
        elif rng.random() < .05:
            gap += b' ' + rng.choice(WHITE)
        end = i + len(t)
        if t[:1] == b'"' and len(t) > 1 and not t.endswith(b'.cd"') and rng.random() < .2:
            # other characters at the end of the string, behind its escapes
            t = t[:-1] + rng.choice([b'\n', b'\\\n', b'\\n', b'\\\\', b'\\"', b'\n\\\n\n']) + t[-1:]
        elif t[:1] == b"'" and len(t) > 2 and chars and rng.random() < .2:
            t = rng.choice([b"'\n'", b"'\\\n'", b"'\\n'", b"'\\\\'"])
        out += [gap, t]
    return b''.join(out) + rng.choice([s[end:], b'', b'\n', b' ', b'\n// end', b'\n\n\t\n'])


def wrong_tokens(s, first, last):
    """(first, last) index of the tokens in these lines."""
    ends = [0] + [m.end() for m in re.finditer(b'\n', s)]
    ix = [i for i, (o, _) in enumerate(tokens(s)) if ends[first - 1] <= o < ends[last]]
    return ix[0], ix[-1]


def drop_semicolon(s, where):
    """The text without the semicolon at the end of the statement, where it is not needed."""
    ts = tokens(s)
    a, b = where
    body = [t for _, t in ts[a:b + 1]]
    if body[-1] != b';' or len(body) < 2 or body[-2] not in (b')', b']', b'}') and not body[-2].isdigit() or b'func' in body or b'return' in body:
        return s, where
    if b + 1 == len(ts) or ts[b + 1][1] != b'@' and not re.match(rb'[A-Za-z_]\w*$', ts[b + 1][1]):
        return s, where
    o = ts[b][0]
    return s[:o] + s[o + 1:], (a, b - 1)


def literal(t):
    """What an error says a token is."""
    if t[:1] == b'"':
        return re.sub(rb'\\(.)', lambda m: b'\n' if m.group(1) == b'n' else m.group(1), t[1:-1], flags=re.S)
    if t[:1] == b"'":
        c = t[1:-1]
        return {b'\\n': b'\n', b'\\t': b'\t', b'\\r': b'\r'}.get(c, c[-1:])
    return t[:1] if t[:1] == b'#' else t


class Text:
    def __init__(self, s):
        self.s = s
        self.lines = s.split(b'\n')
        self.at = dict(tokens(s))

    def place(self, line, col):
        """(offset, why not)"""
        if not 1 <= line <= len(self.lines) or not 1 <= col <= len(self.lines[line - 1]) + 1:
            return None, 'there is no place %d:%d' % (line, col)
        o = sum(len(x) + 1 for x in self.lines[:line - 1]) + col - 1
        if o != len(self.s) and o not in self.at:
            return None, 'no token starts at %d:%d, there is %r' % (line, col, self.s[o:o + 20])
        return o, ''

    def parse_error(self, e):
        """(offset, why it is wrong) for an error of the parser."""
        m = re.match(r"on (\d+):(\d+) 'token: ", e)
        if not m:
            return None, 'no place'
        line, col = int(m.group(1)), int(m.group(2))
        o, why = self.place(line, col)
        if why:
            return o, why
        said = e[m.end():].encode('utf8', 'replace')
        t = self.at.get(o, b'')
        if any(b >= 0x80 for b in t) or t in (b'\0', b"'", b'"') or b'\0' in t:
            return o, ''
        if not said.startswith(literal(t) + b"': "):
            return o, 'the token at %d:%d is %r, not the one that is named' % (line, col, t[:60])
        # the lines and marks that it shows
        shown = e.split('\n')
        marks = [i for i, x in enumerate(shown) if re.match(r'\s*\^+ happened here$', x)]
        if not marks:
            return o, 'nothing is marked'
        if t and b'\n' not in t:
            own = self.lines[line - 1].decode('utf8', 'replace')
            for i in marks:
                at = len(shown[i]) - len(shown[i].lstrip())
                n = shown[i].count('^')
                if at != col - 1 or not own.startswith(shown[i - 1]) or len(shown[i - 1]) < at + 1:
                    return o, 'the text marked is not the token at %d:%d' % (line, col)
                if n > max(1, len(t)):
                    return o, 'the mark is longer than the token at %d:%d' % (line, col)
        return o, ''

    def checker_error(self, e):
        ps = re.findall(r'^\[(\d+):(\d+)\] ', e)
        if not ps:
            return None, 'no place'
        return self.place(int(ps[0][0]), int(ps[0][1]))


def job(seed, b, n, pool):
    rng = random.Random('C19:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    cases = []
    while len(cases) < n:
        r = rng.random()
        where = None
        if r < .3:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
            s = c.src.encode()
            kind = 'program with a wrong statement'
            if not c.ok:
                where = wrong_tokens(s, c.line, c.last)
        elif r < .32:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
            if not c.ok:
                continue
            bad = rng.choice(CONSTANTS)
            s = c.src.encode() + bad + b'\n' + rng.choice([b'', b'after := 5;\n'])
            at = c.src.count('\n') + 1
            where = wrong_tokens(s, at, at)
            kind = 'program with a wrong constant'
        else:
            s = rng.choice(pool) if rng.random() < .4 else syntax.Gen(rng, rng.choice([1, 2, 2, 3])).program()[0].encode()
            kind = 'changed text'
        if len(s) > 6000:
            continue
        if where and rng.random() < .6:
            s, where = drop_semicolon(s, where)
        s = spread(rng, s, not where)
        if where:
            ts = tokens(s)
            where = ts[where[0]][0], ts[where[1]][0]
        if kind == 'changed text':
            ts = tokens(s)
            if rng.random() < .4 and ts:
                i = rng.choice(ts)[0]
                bad = rng.choice(ODD)
                s = s[:i] + bad + b' ' + s[i:]
                where, kind = (i, i), 'illegal token'
            else:
                s = rng.choice([fuzz.mutate(rng, s, pool), fuzz.swap(rng, s)])
        if any(c >= 0x80 for c in s):
            continue
        if any(x == b"'" for _, x in tokens(s)):
            # where the text goes on behind half a character is not said
            continue
        cases.append((kind, s, where))
    d = core.fresh()
    typing.write(d)
    try:
        vs = fuzz.batch(d, [c[1] for c in cases])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for (kind, s, where), v in zip(cases, vs):
        res['evals'] += 1
        if kind == 'program with a wrong constant' and v['stage'] == 'died' and not fuzz.crash(v):
            # errors of the code generator
            m = re.search(r'on \[(\d+):(\d+)\]: ', v['log'])
            o, why = Text(s).place(int(m.group(1)), int(m.group(2))) if m else (None, 'no place')
            res['cov'][kind] = res['cov'].get(kind, 0) + 1
            if not why and not where[0] <= o <= where[1]:
                why = '%s: it is at %s, the error is at %s' % (kind, where, o)
            if why:
                res['fails'].append(core.Failure('wrong place', why + '\n' + v['log'], s))
            continue
        if v['stage'] not in ('parse', 'semantic') or fuzz.crash(v):
            continue
        k = '%s: errors of the %s' % (kind, 'parser' if v['stage'] == 'parse' else 'checker')
        res['cov'][k] = res['cov'].get(k, 0) + 1
        res['sigs'].append(core.sig(s))
        t = Text(s)
        why = ''
        for j, e in enumerate(v['errors'] + [w for w in v.get('warnings') or [] if w.startswith('[')]):
            if 'import' in s.decode('latin1') and v['stage'] == 'parse' and '.cd' in e.split("'token: ")[0]:
                continue
            o, why = t.parse_error(e) if v['stage'] == 'parse' else t.checker_error(e)
            if not why and j == 0 and where and (not where[0] <= o <= where[1] or kind == 'illegal token' and v['stage'] != 'parse'):
                why = '%s: it is at %s, the first error is at %s' % (kind, where, o)
            if why:
                res['fails'].append(core.Failure('wrong place', why + '\n' + e[:1500], s))
                break
        if len(res['fails']) >= 2:
            break
    if b < 3:
        res['samples'] = ['%s: %r' % (cases[0][0], cases[0][1][:800])]
    return res


def body(ck):
    pool = [s for s in fuzz.seeds() if b'import' not in s]
    d = core.fresh()
    pool = [p for p, v in zip(pool, fuzz.batch(d, pool)) if v['stage'] != 'parse' and not fuzz.crash(v)]
    shutil.rmtree(d, ignore_errors=True)
    ck.pmap(job, [(ck.seed, b, 100, pool) for b in range(ck.n(150, 3000))])


if __name__ == '__main__':
    core.main('C19', 'wrong texts in random layouts (tabs, empty lines, comments, strings of several lines): each error must name line and column of the first byte of a token, '
              'syntax errors that token, and mark it in its line; non-trivial: distinct texts with errors', body)
