"""C15: every input gets an answer: no panic, no hang, no exhausted stack; errors say where."""
import random
import re
import shutil

from vf import core, decls, fuzz

LOC = re.compile(r'^(?:on (\d+):(\d+)|\[(\d+):(\d+)\])')


def answered(s, v):
    """'' or why the verdict is not an acceptable answer to s."""
    why = fuzz.crash(v)
    if why:
        return why
    if v['stage'] == 'died':
        if not re.search(r'\[\d+:\d+\]', v['log']):
            return 'the error of the code generator has no position: ' + v['log']
        return ''
    if v['stage'] in ('parse', 'semantic'):
        if not v.get('errors'):
            return 'rejected without an error'
        for e in v['errors']:
            m = LOC.match(e)
            if not m:
                return 'an error without a position: ' + e
            line = int(m.group(1) or m.group(3))
            if not 0 < line <= s.count(b'\n') + 2:
                return 'an error on a line that does not exist (%d): %s' % (line, e)
    return ''


def nested(rng):
    """Deep or long inputs."""
    n = rng.choice([30, 100, 300, 700])
    k = rng.randrange(28)
    m = 'func main() i32 { x := '
    end = '; return 0; }'
    s = [m + '(' * n + '1' + ')' * n + end, m + '- ' * n + '1' + end, m + '!' * n + '1' + end,
         'func main() i32 {' + '{' * n + '}' * n + ' return 0; }', 'func main() i32 {' + 'if 1 {' * n + '}' * n + ' return 0; }',
         'func main() i32 { x := 1; ' + 'if x == 3 { x = 4; } else ' * n + '{ } return 0; }',
         'func main() i32 { x := 1; y := x' + ' + x' * n + end, m + '0 as ' + '*' * n + 'i32' + end,
         'struct S { x ' + '[1]' * n + 'i32 } func main() i32 { return 0; }',
         'func f(x ' + 'func(' * n + 'i32' + ') i32' * n + ') i32 { return 0; } func main() i32 { return 0; }',
         'func f(x i32) i32 { return x; } func main() i32 { return ' + 'f(' * n + '1' + ')' * n + '; }',
         'func main() i32 { x := [1]i32{0}; return ' + 'x[' * n + '0' + ']' * n + '; }', 'func main() i32 { return x' + '.x' * n + '; }',
         m + 'func() i32 { y := ' * n + '1' + '; return 0; }' * n + end, m + ':i32 { return ' * n + '1' + '; }' * n + end,
         m + '(' * n, 'func main() i32 ' + '{' * n, m + '[' * n, m + '@' * n, '#if X {' * n, '"' * (n | 1), "'" * n,
         'func main() i32 { x := 1; ' + 'switch x { case 1 { ' * n + '} }' * n + ' return 0; }',
         'func main() i32 {' + 'for i := 0; i < 1; ++i { ' * n + '}' * n + ' return 0; }',
         ''.join('struct S%d { x %s } ' % (i, 'S%d' % ((i + 1) % n) if rng.random() < .98 else '*S%d' % ((i + 1) % n)) for i in range(n)) +
         'func main() i32 { return @sizeof(S0); }',
         m + '1' * n + end, m + '@print(' * n + '1' + ')' * n + end, 'func ' * n + 'main() {}'][k]
    s = s.encode()
    if rng.random() < 0.4:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(fuzz.EXTRA) + s[i + rng.choice([0, 1]):]
    return s


def gen(rng, pool):
    r = rng.random()
    if r < 0.05:
        return 'random bytes', bytes(rng.choice([rng.randrange(256), rng.choice(b'(){}[];:=.,*&@#"\'\\/ \n\t<>!|^%+-0x')]) for _ in range(rng.randint(0, 80)))
    if r < 0.12:
        return 'random tokens', b''.join(rng.choice([rng.choice(fuzz.EXTRA), rng.choice(fuzz.tokens(rng.choice(pool)))]) + rng.choice([b'', b' ', b' ', b'\n'])
                                         for _ in range(rng.randint(1, 60)))
    if r < 0.2:
        pre, post = rng.choice([(b'func main() i32 { x := 1; ', b' return 0; }'), (b'func main() { y := ', b'; }'), (b'struct S { a i32 } func main() { s := @S{a: 1}; ', b'}')])
        return 'tokens in a function', pre + b' '.join(rng.choice(fuzz.EXTRA) for _ in range(rng.randint(1, 12))) + post
    if r < 0.23:
        return 'deep or long', nested(rng)
    if r < 0.29:
        g = decls.Gen(rng)
        g.p_bad = rng.choice([0, 0.02, 0.1])
        s = g.case('none.cd')[0].encode()
        return 'declarations', s if rng.random() < 0.5 else fuzz.swap(rng, s)
    if r < 0.65:
        return 'program with tokens replaced', fuzz.swap(rng, rng.choice(pool))
    return 'mutated program', fuzz.mutate(rng, rng.choice(pool), pool)


POOL = None


def job(seed, b, n):
    rng = random.Random('C15:%s:%s' % (seed, b))
    ins = [gen(rng, POOL) for _ in range(n)]
    d = core.fresh()
    try:
        vs = fuzz.batch(d, [s for _, s in ins])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    res = {'evals': n, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    seen = set()
    for (kind, s), v in zip(ins, vs):
        st = 'code generation' if v['stage'] == 'died' else v['stage']
        for k in (kind, 'ended at ' + st):
            res['cov'][k] = res['cov'].get(k, 0) + 1
        if st != 'parse':
            res['sigs'].append(core.sig(s))
        why = answered(s, v)
        if not why:
            continue
        k = fuzz.klass(v)
        if k in seen:
            continue
        seen.add(k)
        if v['stage'] == 'hang':
            small = s
        else:
            small = fuzz.shrink(s, lambda u: (lambda w: fuzz.klass(w) == k and answered(u, w) != '')(fuzz.one(u)))
            why = answered(small, fuzz.one(small)) or why
        res['fails'].append(core.Failure('no answer', why, small))
    if b < 4:
        res['samples'] = ['%r => %s' % (ins[0][1][:600], {x: vs[0].get(x) for x in ('stage', 'errors')})]
    return res


def body(ck):
    global POOL
    POOL = fuzz.seeds()
    ck.pmap(job, [(ck.seed, b, 100) for b in range(ck.n(400, 8000))])


if __name__ == '__main__':
    core.main('C15', 'bytes, tokens, nested and mutated programs go through the whole compiler in process; each must be compiled or rejected with errors that '
              'have a position; counted as non-trivial are inputs that parse', body)
