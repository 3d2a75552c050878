"""C20: builds that overlap in time, or that are interrupted, do not affect other builds."""
import importlib
import json
import os
import random
import shutil
import signal
import subprocess
import time

from vf import core, lang, typing

GENS = ['c01', 'c04', 'c06', 'c07', 'c12', 'c25']
# stands for clang: says when it runs, and takes as long as it is told
WRAPPER = '''#!/bin/bash
: > "$VF_LOG/start.$VF_ID"
sleep "$VF_BEFORE"
%s "$@"
r=$?
sleep "$VF_AFTER"
: > "$VF_LOG/end.$VF_ID"
exit $r
'''


def program(rng, tag):
    """(source, output): None for a program with a mistake."""
    if rng.random() < .1:
        c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        while c.ok or 'import' in c.src:
            c = typing.Gen(random.Random(rng.getrandbits(64))).case()
        return c.src, None
    if rng.random() < .4:
        k = rng.randint(0, 10 ** 6)
        return 'import sh, "./shared.cd";\nfunc main() i32 {\n  @print("%s", sh.twice(%d), "\\n#end\\n");\n  return 0;\n}\n' % (tag, k), b'%s %d \n#end\n' % (tag.encode(), 2 * k)
    while True:
        c = importlib.import_module('checks.' + rng.choice(GENS)).gen(rng, 'c0')
        try:
            if c is None or c.meta.get('c') or core.files_of([c]):
                continue
            c.interpret()
        except (lang.UB, RecursionError):
            continue
        src = core.program([c])
        assert '#end' in src
        return src, b'\n#0\n%s\n#end\n' % c.expect


class Build:
    """One of the builds that overlap."""

    def __init__(self, rng, i):
        self.i = i
        self.kind = rng.choice(['compiler', 'cxx', 'cxx', 'llvm'])
        self.cmd = rng.choice(['build', 'build', 'run'])
        self.release = rng.random() < .3
        self.src, self.out = program(rng, 'tag%d' % i)
        self.entry, self.exe = 'p%d.cd' % i, 'o%d' % i
        self.before, self.after = rng.choice([0, 0, .05, .2, .5]), rng.choice([0, 0, .05, .3])
        self.kill = rng.choice([0, .01, .05, .1, .2, .4]) if rng.random() < .15 else None

    def start(self, d, log):
        env = dict(core.ENV)
        env.update(VF_LOG=log, VF_ID=str(self.i), VF_BEFORE=str(self.before), VF_AFTER=str(self.after), TMPDIR=os.path.join(log, 'tmp'),
                   PATH=os.path.join(log, 'bin') + ':' + env['PATH'])
        if self.kind == 'compiler':
            argv = [os.path.join(core.CTX.dir, 'compiler'), '-name', self.exe, self.entry]
        else:
            with open(os.path.join(d, 'candice.json'), 'w') as f:
                json.dump({'name': 'p', 'entrypoint': self.entry, 'cxx': 'clang', 'kind': self.kind, 'flags': [], 'output': self.exe}, f)
            argv = [os.path.join(core.CTX.dir, 'candice'), self.cmd, '.'] + ['--release'] * self.release
        self.o = open(os.path.join(log, 'out.%d' % self.i), 'w+b')
        self.p = subprocess.Popen(argv, cwd=d, stdin=subprocess.DEVNULL, stdout=self.o, stderr=self.o, env=env, preexec_fn=core._limits(4, 60))

    def wait_started(self, log):
        """Until the build has read all of its inputs."""
        t = time.time()
        while time.time() - t < 60 and self.p.poll() is None and not os.path.exists(os.path.join(log, 'start.%d' % self.i)):
            time.sleep(.004)

    def finish(self):
        try:
            code = self.p.wait(120)
        except subprocess.TimeoutExpired:
            code = 'timeout'
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.o.seek(0)
        return code, self.o.read()

    def __str__(self):
        return '%s%s of %s to %s, %s (C compiler waits %s and %s)%s' % (
            self.kind if self.kind == 'compiler' else 'candice %s, kind %s' % (self.cmd, self.kind), ' --release' if self.release and self.kind != 'compiler' else '', self.entry, self.exe,
            'a good program' if self.out is not None else 'a wrong program', self.before, self.after, '' if self.kill is None else ', killed after %s s' % self.kill)


def check(b, d, code, text):
    """'' or what is wrong with a build that was not killed."""
    if code not in (0, 1) or b'goroutine ' in text:
        return 'ended with status %s: %s' % (code, text[-800:].decode('utf8', 'replace'))
    exe = os.path.join(d, b.exe)
    if b.out is None:
        return 'reported no error: %r' % text[-500:] if b' Error ' not in text else 'made an executable of a wrong program' if os.path.exists(exe) else ''
    if not os.path.exists(exe):
        return 'made no executable: %s' % text[-800:].decode('utf8', 'replace')
    if b.kind != 'compiler' and b.cmd == 'run' and not text.endswith(b.out):
        return 'ran another program, it printed %r instead of %r' % (text[-500:], b.out[-500:])
    r = core.run([exe], cwd=d)
    if r.out != b.out or r.code:
        return 'made an executable that prints %r with status %s instead of %r' % (r.out[-500:], r.code, b.out[-500:])
    return ''


def scenario(rng, res):
    d, log = core.fresh(), core.fresh()
    try:
        os.makedirs(log + '/bin')
        os.makedirs(log + '/tmp')
        with open(log + '/bin/clang', 'w') as f:
            f.write(WRAPPER % shutil.which('clang', path=core.ENV['PATH']))
        os.chmod(log + '/bin/clang', 0o755)
        with open(d + '/shared.cd', 'w') as f:
            f.write('func twice(a i32) i32 { return a * 2; }\n')
        bs = [Build(rng, i) for i in range(rng.choice([2, 2, 3, 4, 6]))]
        for b in bs:
            with open(os.path.join(d, b.entry), 'w') as f:
                f.write(b.src)
        # what an interrupted build might have left
        if rng.random() < .1:
            with open(d + '/.intermediate_output.ll', 'w') as f:
                f.write(rng.choice(['', 'define i32 @main() { ret i32 77 }\n', 'define i32 @ma']))
        story = '\n'.join(map(str, bs))
        ends = {}
        for b in bs:
            b.start(d, log)
            if b.kill is not None:
                time.sleep(b.kill)
                # with its C compiler
                if b.p.poll() is None:
                    os.killpg(b.p.pid, signal.SIGKILL)
                    res['cov']['interrupted builds'] = res['cov'].get('interrupted builds', 0) + 1
                b.finish()
            elif b.kind != 'compiler' or rng.random() < .3:
                b.wait_started(log)
            else:
                time.sleep(rng.choice([0, 0, .01, .03]))
            # it has read its inputs: they may change
            if b.kind != 'compiler' and b.kill is None and rng.random() < .3 and os.path.exists(log + '/start.%d' % b.i):
                with open(os.path.join(d, b.entry), 'w') as f:
                    f.write('func main() i32 { @print("changed"); return 0; }\n')
                res['cov']['source changed while it is built'] = res['cov'].get('source changed while it is built', 0) + 1
        why = ''
        for b in bs:
            if b.kill is None:
                ends[b.i] = b.finish()
        spans = []
        for b in bs:
            s, e = (os.path.join(log, '%s.%d' % (k, b.i)) for k in ('start', 'end'))
            if os.path.exists(s) and os.path.exists(e):
                spans.append((os.stat(s).st_mtime_ns, os.stat(e).st_mtime_ns))
        n = sum(1 for i, x in enumerate(spans) for y in spans[:i] if x[0] < y[1] and y[0] < x[1])
        res['cov']['pairs of builds that overlapped'] = res['cov'].get('pairs of builds that overlapped', 0) + n
        for b in bs:
            if b.kill is None:
                res['evals'] += 1
                k = 'compiler' if b.kind == 'compiler' else 'candice %s, kind %s' % (b.cmd, b.kind)
                res['cov'][k] = res['cov'].get(k, 0) + 1
                why = check(b, d, *ends[b.i])
                if why:
                    why = 'the build of %s %s' % (b.entry, why)
                    break
        if not why:
            # an interrupted build is made again
            for b in bs:
                if b.kill is not None:
                    b.before = b.after = 0
                    b.start(d, log)
                    res['evals'] += 1
                    why = check(b, d, *b.finish())
                    if why:
                        why = 'the build of %s after it was interrupted %s' % (b.entry, why)
                        break
        if not why and not any(b.kill is not None for b in bs):
            mine = {'candice.json', 'shared.cd', '.intermediate_output.ll'} | {x for b in bs for x in (b.entry, b.exe, b.exe + '.ll')}
            left = [n for n in os.listdir(d) if n not in mine] + os.listdir(log + '/tmp')
            if left:
                why = 'the builds left the files %s' % left
        if why:
            files = {b.entry: b.src for b in bs}
            return core.Failure('builds disturb each other', why + '\nthe builds:\n' + story, bs[0].src, files=files), story
        res['sigs'].append(core.sig(story))
        return None, story
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(log, ignore_errors=True)


def job(seed, b, n):
    rng = random.Random('C20:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    for i in range(n):
        f, story = scenario(rng, res)
        if i == 0 and b < 3:
            res['samples'] = [story]
        if f:
            res['fails'].append(f)
            break
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 5) for b in range(ck.n(64, 1500))])


if __name__ == '__main__':
    core.main('C20', 'two to six builds started in one directory at random distances (the C compiler is delayed), some of them killed, some with sources changed behind them: '
              'each executable must be that of its program; counted are distinct sets of builds', body, what=('candice', 'compiler'), pkgs={'candice': './cmd/build'})
