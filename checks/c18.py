"""C18: the commands build, run, init and tree, and the compiler command."""
import hashlib
import importlib
import json
import os
import random
import shutil

from vf import core, typing

GENS = ['c01', 'c04', 'c06', 'c07', 'c12', 'c13', 'c13', 'c25']
HELPER = 'int vf_%d(int x) { return 2 * x + %d; }\n'
USE = '''extern func vf_twice(i32) i32;
%sfunc main() i32 {
%s  @print("#c", vf_twice(21), "\\n#end\\n");
  return 0;
}
'''
ECHO = '''extern func getchar() i32;
func main() i32 {
  for {
    c := getchar();
    if c < 0 { break; }
    @print(c, "");
  }
  @print("\\n#end\\n");
  return %d;
}
'''
LIB = '''%spub func vf_lib(a i32) i32 {
  r := a;
  for i := 0; i < 3; ++i { r = r * 2 + %d; }
  return r;
}
'''
LIBC = '''#include <stdio.h>
int vf_lib(int);
int main(void) { printf("%d\\n#end\\n", vf_lib(5)); return 0; }
'''


class Prog:
    """A program: its files, its output (None: it can't be built), and the flags it needs."""

    def __init__(self, kind, src, files=None, out=None, code=0, flags=(), stdin=b'', link=False, obj=False):
        self.kind, self.src, self.files, self.out, self.code, self.flags = kind, src, files or {}, out, code, list(flags)
        self.inside = set()
        self.stdin, self.link, self.obj = stdin, link, obj


def good(rng):
    r = rng.random()
    if r < .2:
        return flagged(rng)
    if r < .35:
        data = bytes(rng.randint(0, 255) for _ in range(rng.choice([0, 1, 5, 300])))
        code = rng.choice([0, 0, 1, 3, 42])
        return Prog('reads its input', ECHO % code, {}, ''.join('%d ' % b for b in data).encode() + b'\n#end\n', code, stdin=data)
    gen = importlib.import_module('checks.' + rng.choice(GENS)).gen
    cases, k = [], rng.choice([1, 1, 2, 3])
    while len(cases) < k:
        c = gen(rng, 'c%d' % len(cases))
        try:
            if c is None:
                continue
            c.interpret()
        except (core_ub()):
            continue
        if not c.meta.get('c'):
            cases.append(c)
    out = b''.join(b'\n#%d\n%s' % (i, c.expect) for i, c in enumerate(cases)) + b'\n#end\n'
    return Prog('program of %s files' % ('one' if not core.files_of(cases) else 'many'), core.program(cases), core.files_of(cases), out)


def flagged(rng):
    """Files that import each other and need objects, whose flags are in any of the files or in the project."""
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    imports = {i: set() for i in range(n)}
    for i in range(1, n):
        # every file is imported, maybe only by another module
        imports[rng.randrange(i)].add(i)
        for j in range(i):
            if rng.random() < .2:
                imports[j].add(i)
    value, files, need = {}, {}, {}
    flags, given = [], {i: [] for i in range(n)}
    for i in range(n):
        if i and rng.random() < .3:
            need[i] = None
            continue
        need[i] = k = rng.randint(0, 99)
        files['vf%d.c' % i] = HELPER % (i, k)
        r = rng.random()
        if r < .2:
            flags.append('vf%d.o' % i)
        else:
            given[i if r < .8 else rng.randrange(n)].append('vf%d.o' % i)
    if n > 1 and rng.random() < .3:
        # flags that change nothing
        given[rng.randrange(n)] += rng.choice([['-Wall'], ['-O1'], ['-g'], ['-Wall', '-g']])
    texts = {}
    for i in reversed(range(n)):
        lines = ['import m%d, "./vfm%d.cd";' % (j, j) for j in sorted(imports[i])]
        if need[i] is not None:
            lines.append('extern func vf_%d(i32) i32;' % i)
        body, late = [], []
        v = 1
        expr = ['1']
        for j in sorted(imports[i]):
            expr.append('m%d.run(a)' % j)
        calls = [('@add_compiler_flag(%s);' % ', '.join('"%s"' % f for f in given[i]))] if rng.random() < .3 and given[i] else ['@add_compiler_flag("%s");' % f for f in given[i]]
        for c in calls:
            r = rng.random()
            if r < .4:
                body.append('  ' + c)
            elif r < .6:
                body.append('  if a == 0 { %s }' % c)
            elif r < .8:
                lines.append('func flags%d() void { %s }' % (len(lines), c))
            else:
                body.append('  for j := 0; j < 2; ++j { %s }' % c)
        if need[i] is not None:
            expr.append('vf_%d(a)' % i)
        lines += ['func run(a i32) i32 {'] + body + ['  return %s;' % ' + '.join(expr), '}']
        if i == 0:
            lines += ['func main() i32 {', '  @print("#c", run(21), "\\n#end\\n");', '  return 0;', '}']
        texts[i] = '\n'.join(lines) + '\n'
        value[i] = 1 + sum(value[j] for j in imports[i]) + (0 if need[i] is None else 42 + need[i])
    for i in range(1, n):
        files['vfm%d.cd' % i] = texts[i]
    where = ' and '.join((['the project'] if flags else []) + (['the program'] if given[0] else []) + (['modules'] if any(given[i] for i in range(1, n)) else []))
    p = Prog('flags in %s' % (where or 'no file'), texts[0], files, b'#c %d \n#end\n' % value[0], flags=flags)
    p.inside = {f for fs in given.values() for f in fs}
    return p


def core_ub():
    from vf import lang
    return lang.UB, RecursionError


def library(rng):
    k = rng.randint(0, 99)
    r = 5
    for _ in range(3):
        r = r * 2 + k
    return Prog('library', LIB % (rng.choice(['', 'struct S { a i32 }\n', 'const K := 3;\n']), k), {}, b'%d\n#end\n' % r, obj=True)


def bad(rng):
    r = rng.random()
    if r < .3:
        c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        while c.ok:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        return Prog('mistake of a type', c.src, dict(typing.FILES))
    if r < .6:
        return Prog('mistake of syntax', 'func main() i32 {\n  %s\n  return 0;\n}\n' % rng.choice(['a := ;', 'if {', '@print("x"', 'a := (3;', 'x := [3]i32{1;', 'b = 3 +;', 'for i := ; {}', '}']))
    if r < .75:
        return Prog('import of a missing file', 'import m, "./nothing.cd";\nfunc main() i32 { return 0; }\n')
    return Prog('undefined symbol', 'extern func vf_nowhere(i32) i32;\nfunc main() i32 { @print("#end"); return vf_nowhere(3); }\n', link=True)


def snapshot(d):
    o = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, 'rb') as f:
                o[os.path.relpath(p, d)] = hashlib.sha1(f.read()).hexdigest()
    return o


class History:
    def __init__(self, rng):
        self.rng = rng
        self.outer = core.fresh()
        self.d = os.path.join(self.outer, rng.choice(['proj', 'my proj']))
        os.mkdir(self.d)
        self.log = []
        self.cov = {}
        self.evals = 0
        self.prog = None
        self.cfgbad = None
        self.sources = {}
        self.seen = {}         # executable -> program it was built from

    def note(self, x):
        self.cov[x] = self.cov.get(x, 0) + 1

    def put(self, name, text):
        p = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())

    def edit(self):
        rng = self.rng
        r = rng.random()
        self.obj = False
        if r < .6:
            p = good(rng)
        elif r < .7:
            p = library(rng)
        else:
            p = bad(rng)
        self.prog = p
        self.entry = rng.choice(['main.cd', 'main.cd', 'src/start.cd', 'a b.cd'])
        for n, t in p.files.items():
            self.put(n, t)
            if n.endswith('.c'):
                r = core.run(['clang', '-c', n, '-o', n[:-1] + 'o'], cwd=self.d, timeout=60)
                if r.code:
                    raise core.Broken('helper: %r' % r.err[-300:])
        self.put(self.entry, p.src)
        self.cfg = {'name': 'p', 'entrypoint': self.entry, 'cxx': rng.choice(['clang', 'clang', 'clang-18' if 0 else 'clang']), 'kind': rng.choice(['cxx', 'llvm']),
                    'flags': rng.choice([[], ['-m64'], ['-O2'], ['-g', '-m64']]) + p.flags,
                    'output': rng.choice(['program', 'prog2', 'out/x', 'a.b', 'program', 'prog2', 'out/x', os.path.join(self.d, 'out', 'full')])}
        if p.obj:
            self.cfg['binary'] = 'obj'
        elif rng.random() < .2:
            self.cfg['binary'] = 'exe'
        os.makedirs(os.path.join(self.d, 'out'), exist_ok=True)
        text = json.dumps(self.cfg, indent=rng.choice([None, 2]))
        self.cfgbad = None
        if rng.random() < .12:
            self.cfgbad = rng.choice(['no candice.json', 'broken candice.json', 'missing entry point', 'unknown kind', 'missing C compiler', 'unknown flag', 'missing output directory'])
            if self.cfgbad == 'broken candice.json':
                text = text[:rng.randint(1, len(text) - 2)]
            else:
                c = dict(self.cfg)
                if self.cfgbad == 'missing entry point':
                    c['entrypoint'] = 'nothing.cd'
                elif self.cfgbad == 'unknown kind':
                    c['kind'] = 'magic'
                elif self.cfgbad == 'unknown flag':
                    c['flags'] = c['flags'] + ['--vf-no-such-flag']
                elif self.cfgbad == 'missing output directory':
                    c['output'] = 'nowhere/' + os.path.basename(c['output'])
                else:
                    c['cxx'] = 'vf-no-such-compiler'
                text = json.dumps(c)
        if self.cfgbad == 'no candice.json':
            if os.path.exists(os.path.join(self.d, 'candice.json')):
                os.unlink(os.path.join(self.d, 'candice.json'))
        else:
            self.put('candice.json', text)
        self.log.append('edit: %s%s, %s' % (p.kind, ' with ' + self.cfgbad if self.cfgbad else '', json.dumps(self.cfg)))

    def execute(self, exe, p, how):
        """A built executable behaves as its program."""
        if p.obj:
            self.put('user.c', LIBC)
            r = core.run(['clang', '-w', 'user.c', exe, '-o', 'user'], cwd=self.d, timeout=60)
            for n in ('user.c',):
                os.unlink(os.path.join(self.d, n))
            if r.code:
                return '%s: the object can\'t be linked: %s' % (how, r.err.decode('utf8', 'replace')[-600:])
            r = core.run([os.path.join(self.d, 'user')], cwd=self.d)
            os.unlink(os.path.join(self.d, 'user'))
        else:
            r = core.run([os.path.join(self.d, exe)], cwd=self.d, stdin=p.stdin)
        if r.out != p.out or r.code != p.code:
            return '%s: the executable printed %r with status %s instead of %r with %d' % (how, r.out[-500:], r.code, p.out[-500:], p.code)
        return None

    def step(self):
        rng, p = self.rng, self.prog
        before = snapshot(self.d)
        cmd = rng.choice(['build', 'build', 'run', 'run', 'compiler'])
        if p.obj and cmd == 'compiler':
            cmd = 'build'
        release = cmd != 'compiler' and rng.random() < .4
        # the compiler is given the objects that no file asks for itself
        objs = [n[:-1] + 'o' for n in p.files if n.endswith('.c') and n[:-1] + 'o' not in p.inside]
        out = os.path.relpath(os.path.join(self.d, self.cfg['output']), self.d)
        if cmd == 'compiler':
            cwd = self.d
            argv = [os.path.join(core.CTX.dir, 'compiler'), '-name', self.cfg['output']] + (['-o', ','.join(objs)] if objs else []) + [self.entry]
            llvm, failing = True, None
        else:
            out += '.o' if p.obj else ''
            # the project may be named from anywhere
            cwd, path = rng.choice([(self.d, '.')] * 3 + [(self.d, './'), (self.outer, os.path.basename(self.d)), (self.outer, './%s/' % os.path.basename(self.d)), ('/', self.d),
                                    (os.path.join(self.d, 'out'), '..')])
            argv = [os.path.join(core.CTX.dir, 'candice'), cmd, path, *(['--release'] if release else [])]
            llvm, failing = self.cfg['kind'] == 'llvm', self.cfgbad
        r = core.run(argv, cwd=cwd, timeout=120, stdin=p.stdin)
        self.evals += 1
        what = '%s%s of %s%s' % (cmd, ' --release' if release else '', p.kind, ', ' + failing if failing else '')
        if cwd != self.d:
            self.note('project named from another directory')
        self.log.append('%s (in %s) -> %s' % (' '.join(argv), cwd, out))
        if os.listdir(self.outer) != [os.path.basename(self.d)]:
            return '%s made files outside of the project: %s' % (what, os.listdir(self.outer))
        self.note(what)
        text = r.out
        after = snapshot(self.d)
        if r.code not in (0, 1) or b'goroutine ' in r.err:
            return '%s ended with status %s: %s' % (what, r.code, (r.out + r.err)[-800:].decode('utf8', 'replace'))
        # nothing but results appears or changes
        mine = {out} | ({out + '.ll'} if llvm else set())
        for n in set(before) | set(after):
            if n not in mine and before.get(n) != after.get(n):
                return '%s: the file %s was %s' % (what, n, 'created' if n not in before else 'changed' if n in after else 'removed')
        ok = p.out is not None and not failing
        if not ok:
            if b'BUILD SUCCESSFUL' in text:
                return '%s was reported as successful' % what
            if b' Error ' not in text:
                return '%s reported no error: %r' % (what, text[-500:])
            if b'#end' in text:
                return '%s ran an executable: %r' % (what, text[-300:])
            late = p.link or failing in ('missing C compiler', 'unknown flag')
            if after.get(out) != before.get(out) and not (late and out not in after):
                return '%s changed the executable' % what
            if after.get(out) is None:
                self.seen.pop(out, None)
            elif out in self.seen and not late:
                return self.execute(out, self.seen[out], what + ', then the earlier executable')
            return None
        if p.obj and cmd == 'run':
            if b' Error ' not in text:
                return '%s reported no error: %r' % (what, text[-500:])
            self.seen.pop(out, None)
            return None
        if out not in after:
            return '%s left no %s: %s' % (what, out, text[-800:].decode('utf8', 'replace'))
        self.seen[out] = p
        if cmd == 'run':
            body = text
            while b' Warning ' in body.split(b'\n', 1)[0]:
                body = body.split(b'\n', 1)[1]
            tail = b'exit status %d\n' % p.code if p.code else b''
            if body != p.out + tail:
                return '%s printed %r instead of %r' % (what, body[-500:], (p.out + tail)[-500:])
        elif b'BUILD SUCCESSFUL' not in text:
            return '%s was not reported as successful: %s' % (what, text[-800:].decode('utf8', 'replace'))
        return self.execute(out, p, what)


def init(rng):
    """A new project builds and runs."""
    d = core.fresh()
    try:
        sub = rng.choice(['.', '.', 'new', 'a/b'])
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        exe = os.path.join(core.CTX.dir, 'candice')
        named = rng.choice([sub, sub, sub + '/', os.path.join(d, sub)])
        if rng.random() < .3:
            # what is there stays
            for n in rng.choice([['main.cd'], ['candice.json'], ['main.cd', 'candice.json']]):
                with open(os.path.join(d, sub, n), 'w') as f:
                    f.write('{}' if rng.random() < .5 else 'func main() i32 { return 3; }\n')
            before = snapshot(d)
            r = core.run([exe, 'init', named], cwd=d)
            after = snapshot(d)
            if {n: after.get(n) for n in before} != before:
                return 'init changed files that were there: %s' % sorted(before)
            return 'init in a directory with %s reported no error' % sorted(before) if b' Error ' not in r.out else None
        r = core.run([exe, 'init', named], cwd=d)
        if b' Error ' in r.out or sorted(os.listdir(os.path.join(d, sub))) != sorted(['candice.json', 'main.cd'] + ([] if sub == '.' else [])):
            return 'init made %s: %r' % (os.listdir(os.path.join(d, sub)), r.out[-300:])
        w = os.path.join(d, sub)
        r = core.run([exe, 'run', '.'] + (['--release'] if rng.random() < .5 else []), cwd=w)
        if r.out != b'Hello world!':
            return 'the new project printed %r' % r.out[-500:]
        r = core.run([exe, 'build', '.'], cwd=w)
        if b'BUILD SUCCESSFUL' not in r.out or core.run(['./program'], cwd=w).out != b'Hello world!':
            return 'the new project was not built: %r' % r.out[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def usage(rng):
    """Commands that can't be carried out say so and change nothing."""
    d = core.fresh()
    try:
        with open(d + '/main.cd', 'w') as f:
            f.write('func main() i32 { @print("#end"); return 0; }\n')
        before = snapshot(d)
        argv = rng.choice([[], ['build'], ['run'], ['build', '.'], ['run', 'nowhere'], ['tree', 'nothing.cd'], ['init'], ['tree', '.'],
                           ['build', './nowhere', '--release'], ['init', 'nowhere/at/all']])
        r = core.run([os.path.join(core.CTX.dir, 'candice')] + argv, cwd=d)
        exe = 'candice'
        if rng.random() < .3:
            exe, argv = 'compiler', rng.choice([[], ['nothing.cd'], ['-name', 'x'], ['-name', 'x', 'nothing.cd'], ['.']])
            r = core.run([os.path.join(core.CTX.dir, exe)] + argv, cwd=d)
        if b' Error ' not in r.out or b'goroutine ' in r.err or b'#end' in r.out or snapshot(d) != before:
            return exe + ' %s: status %s, %r' % (' '.join(argv), r.code, (r.out + r.err)[-600:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def job(seed, b, n):
    rng = random.Random('C18:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    if b % 6 == 0:
        for f, k in ((init, 'new project'), (usage, 'impossible command')):
            bad_ = f(rng)
            res['evals'] += 1
            res['cov'][k] = res['cov'].get(k, 0) + 1
            if bad_:
                res['fails'].append(core.Failure('command line', bad_, ''))
    h = History(rng)
    try:
        for i in range(n):
            if i == 0 or rng.random() < .55:
                h.edit()
                res['sigs'].append(core.sig(h.prog.src + json.dumps(h.cfg) + str(h.cfgbad)))
            bad_ = h.step()
            if bad_:
                res['fails'].append(core.Failure('command line', bad_ + '\nafter:\n' + '\n'.join(h.log[-8:]), h.prog.src, files=h.prog.files))
                break
    finally:
        shutil.rmtree(h.outer, ignore_errors=True)
    res['evals'] += h.evals
    for k, v in h.cov.items():
        res['cov'][k] = res['cov'].get(k, 0) + v
    if b < 3:
        res['samples'] = ['\n'.join(h.log[:6])]
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 12) for b in range(ck.n(150, 2000))])


if __name__ == '__main__':
    core.main('C18', 'random histories of edits (of programs and candice.json, good and bad) and of the commands build, run, init and the compiler command, debug and '
              'release, both kinds, executables and objects; output, reports, and every file of the project are compared with a model', body,
              what=('candice', 'compiler'), pkgs={'candice': './cmd/build'})
