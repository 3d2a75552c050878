"""Mutated and hostile inputs for the front end, and their verdicts."""
import glob
import json
import os
import re
import shutil

from . import core

TOK = re.compile(rb'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|//[^\n]*|[A-Za-z_]\w*|0x[0-9a-fA-F]+|\d+(?:\.\d+)?|'
                 rb'==|!=|<=|>=|&&|\|\||\+\+|--|<<|>>|\.\.|\s+|.', re.S)
EXTRA = [b'(', b')', b'{', b'}', b'[', b']', b',', b';', b':', b'=', b':=', b'.', b'..', b'*', b'&', b'@', b'#if', b'if ', b'else ',
         b'for ', b'switch ', b'case ', b'default ', b'break;', b'continue;', b'return ', b'return;', b'struct ', b'union ', b'func ',
         b'extern ', b'import ', b'type ', b'pub ', b'const ', b' as ', b'i32', b'void', b'f32', b'f64', b'u8', b'i64', b'*i8', b'i1', b'i7',
         b'0', b'1', b'-1', b'2.5', b'"s"', b"'c'", b'99999999999999999999999', b'0x', b'0b', b'x', b'main', b'@print(', b'@alloc(',
         b'@sizeof(', b'@realloc(', b'@free(', b'@cast(', b'@asm(', b'@unreachable()', b'@foo(', b'@add_compiler_flag(', b'\n', b'\0', b'"', b"'",
         b'//', b'\xff', b'++', b'--', b'!', b'-', b'+', b'%', b'/', b'<<', b'>>', b'==', b'<', b'&&', b'||', b'^', b'|',
         b'func(i32) i32', b'func() void { }', b'[2]i32{1,2}', b'[3]', b'@S{', b':i32 { return 1; }', b'a, b', b'#if LINUX {', b'_', b'\t', b'\\']


def tokens(s):
    return TOK.findall(s)


def seeds():
    """Programs to start from: of the repository, its documentation and ours."""
    out = []
    for pat in ('internals/tests/src/**/*.cd', 'std/*.cd', 'docs/**/*.cd', 'examples/**/*.cd'):
        for f in sorted(glob.glob(os.path.join(core.REPO, pat), recursive=True)):
            out.append(open(f, 'rb').read())
    for f in sorted(glob.glob(os.path.join(core.REPO, 'docs/**/*.md'), recursive=True)) + [os.path.join(core.REPO, 'README.md')]:
        if os.path.exists(f):
            out += re.findall(rb'```[a-z]*\n(.*?)```', open(f, 'rb').read(), re.S)
    for f in sorted(glob.glob(os.path.join(core.VERIF, 'corpus', '*.cd'))):
        out.append(open(f, 'rb').read())
    return sorted({s for s in out if 20 < len(s) < 6000})


def mutate(rng, s, pool, extra=EXTRA):
    t = tokens(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not t:
            t = [b'x']
        k, i = rng.random(), rng.randrange(len(t))
        if k < 0.2:
            del t[i:i + rng.choice([1, 1, 2, 5])]
        elif k < 0.4:
            t[i] = rng.choice(extra)
        elif k < 0.6:
            t.insert(i, rng.choice(extra))
        elif k < 0.75:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k < 0.85:
            t[i] = rng.choice(t)
        elif k < 0.92:
            t = t[:i] if rng.random() < .5 else t[i:]
        elif k < 0.97:
            o = tokens(rng.choice(pool))
            a = rng.randrange(len(o) + 1)
            t[i:i] = o[a:a + rng.randint(1, 20)]
        else:
            b = bytearray(b''.join(t))
            if b:
                b[rng.randrange(len(b))] = rng.randrange(256)
            t = tokens(bytes(b))
    return b''.join(t)


TYPES = [b'i1', b'i8', b'i16', b'i32', b'i64', b'u8', b'u16', b'u32', b'u64', b'f32', b'f64', b'*i8', b'*i32', b'**i8', b'[2]i32', b'[3][2]i8',
         b'func(i32) i32', b'func() void', b'*void', b'bool']
WORDS = {b'if', b'else', b'for', b'switch', b'case', b'default', b'break', b'continue', b'return', b'struct', b'union', b'func', b'extern',
         b'import', b'type', b'pub', b'const', b'as', b'void'}
OPS = [b'+', b'-', b'*', b'/', b'%', b'&', b'|', b'^', b'<<', b'>>', b'==', b'!=', b'<', b'>', b'<=', b'>=', b'&&', b'||', b'=', b'.', b',']
LITS = [b'0', b'1', b'-1', b'255', b'2147483648', b'9223372036854775807', b'1.5', b'"s"', b"'c'", b'0x1F', b'0 as i64', b'1 as u8', b'2.0 as f64',
        b'[2]i32{1, 2}', b'&1', b'!1', b'(0 as *i32)', b'func(q i32) i32 { return q; }', b':i32 { return 1; }', b'@sizeof(i32)', b'@alloc(i8, 3)']
IDENT = re.compile(rb'[A-Za-z_]\w*$')
TYPENAME = re.compile(rb'[iu](1|8|16|32|64)$|f(32|64)$|bool$')


def tclass(t):
    if TYPENAME.match(t):
        return 'type'
    if IDENT.match(t):
        return None if t in WORDS else 'ident'
    if t[:1].isdigit() or t[:1] in (b'"', b"'"):
        return 'lit'
    if t in OPS and t not in (b'.', b','):
        return 'op'
    if t.isspace() or t.startswith(b'//'):
        return None
    return 'sym'


def swap(rng, s):
    """Replaces tokens by others of their class: most results parse."""
    t = tokens(s)
    cl = [tclass(x) for x in t]
    ids = [x for x, c in zip(t, cl) if c == 'ident'] or [b'x']
    where = [i for i, c in enumerate(cl) if c in ('type', 'ident', 'lit', 'op')]
    if not where:
        return s
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.choice(where)
        c = cl[i]
        if c == 'type':
            t[i] = rng.choice(TYPES + [b'*' + t[i], b'[2]' + t[i]]) if rng.random() < .8 else rng.choice(ids)
        elif c == 'ident':
            r = rng.random()
            t[i] = rng.choice(ids) if r < .5 else rng.choice(LITS) if r < .65 else \
                rng.choice([b'*' + t[i], b'&' + t[i], t[i] + b'[0]', t[i] + b'()', b'!' + t[i], b'-' + t[i], b'++' + t[i], t[i] + b' as i64',
                            t[i] + b' as *i8', t[i] + b' as f32', t[i] + b'.' + rng.choice(ids), t[i] + b' + ' + rng.choice(ids),
                            t[i] + b', ' + rng.choice(ids), t[i] + b'(' + rng.choice(ids) + b')', t[i] + b' as ' + rng.choice(TYPES)])
        elif c == 'lit':
            t[i] = rng.choice(LITS) if rng.random() < .7 else rng.choice(ids)
        else:
            t[i] = rng.choice(OPS)
    if rng.random() < .25:
        # a statement is lost, moved or repeated
        ends = [i for i, x in enumerate(t) if x in (b';', b'{', b'}')]
        if len(ends) > 3:
            a = rng.randrange(len(ends) - 1)
            run = t[ends[a] + 1:ends[a + 1] + 1]
            if rng.random() < .6:
                del t[ends[a] + 1:ends[a + 1] + 1]
            if rng.random() < .6:
                b = rng.choice([e for e in ends if e < len(t)] or [0])
                t[b + 1:b + 1] = run
    return b''.join(t)


def batch(d, inputs, timeout=150):
    """Verdicts of the inputs, compiled one after another by driver processes. The inputs after the second one without an answer are not tried."""
    for i, s in enumerate(inputs):
        with open('%s/%d.cd' % (d, i), 'wb') as f:
            f.write(s)
    todo, res = list(range(len(inputs))), [None] * len(inputs)
    while todo:
        if sum(v is not None and v['stage'] == 'hang' for v in res) >= 2:
            for k in todo:
                res[k] = {'stage': 'hang', 'skipped': True}
            break
        with open(d + '/list', 'w') as f:
            f.write('\n'.join('%d.cd' % i for i in todo))
        r = core.run([core.CTX.driver, 'batch', 'list', '.'], cwd=d, timeout=timeout, as_gb=12)
        out = r.out.split(b'\n@@INPUT ')[1:]
        if not out:
            raise core.Broken('driver batch: %s %s' % (r.code, r.err[-500:]))
        for x in out:
            k = todo[int(x.split(b'\n', 1)[0])]
            j = x.find(b'@@VERDICT ')
            if j < 0:
                res[k] = {'stage': 'died', 'code': r.code, 'log': x[:1500].decode('utf8', 'replace') + r.err[:600].decode('utf8', 'replace')}
            else:
                res[k] = json.loads(x[j + 10:].split(b'\n')[0])
        todo = todo[len(out):]
    return res


def crash(v):
    """What is wrong with a verdict as an answer; '' when it is a fine one."""
    if v.get('panic'):
        return 'panic at stage %s: %s\n%s' % (v['stage'], v['panic'], v.get('stack', ''))
    if v['stage'] == 'hang':
        return 'not tried, other inputs had no answer after 20 s' if v.get('skipped') else 'no answer after 20 s'
    if v['stage'] == 'died':
        if v['code'] == 1 and 'Error Compiler' in v['log'] and 'Internal error' not in v['log']:
            return ''
        return 'the compiler ended with status %s and no verdict: %s' % (v['code'], v['log'])
    if v['stage'] == 'emit':
        return 'the code generator failed: %s' % v.get('errors')
    return ''


def klass(v):
    """Class of a bad verdict, to shrink its input."""
    if v.get('panic'):
        m = re.findall(r'internals/(\S+\.go:\d+)', v.get('stack', ''))
        return ('panic', m[0] if m else v['panic'][:40])
    return (v['stage'], v.get('code'))


def shrink(s, bad, tries=250):
    """Smaller input for which bad still holds, by removing runs of tokens."""
    t = tokens(s)
    n = max(1, len(t) // 2)
    while n >= 1 and tries > 0:
        i = 0
        while i < len(t) and tries > 0:
            u = t[:i] + t[i + n:]
            tries -= 1
            if bad(b''.join(u)):
                t = u
            else:
                i += n
        n //= 2
    return b''.join(t)


def one(s, timeout=60):
    d = core.fresh()
    try:
        return batch(d, [s], timeout)[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)
