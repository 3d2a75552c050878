"""Machinery shared by the checks: building the compiler of /repo's working
tree, compiling and running generated programs, collecting what the monitors
saw, reporting violations and writing the evidence file."""
import hashlib
import json
import multiprocessing
import os
import pickle
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ENV = dict(os.environ)
ENV.update(PATH='/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           GOENV='off', GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOWORK='off',
           GOFLAGS='-mod=readonly -buildvcs=false', GOPATH='/root/go',
           GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', HOME='/root',
           LC_ALL='C', TERM='dumb')
NPROC = min(8, os.cpu_count() or 1)
RELEASE = ['-O3', '-mllvm', '-inline-threshold=0']


class Broken(Exception):
    """The check could not run."""


def _limits(as_gb, cpu):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
        if as_gb:
            resource.setrlimit(resource.RLIMIT_AS, (as_gb << 30, as_gb << 30))
    return f


class R:
    """Result of a process: code (negative: signal, 'timeout'), out, err."""

    def __init__(self, code, out, err):
        self.code, self.out, self.err = code, out, err


def run(cmd, cwd=None, timeout=60, as_gb=4, cpu=None, stdin=b'', env=None):
    """Run cmd with limits; its whole process group is ended on timeout."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                             stdout=fo, stderr=fe, env=env or ENV,
                             preexec_fn=_limits(as_gb, cpu or timeout + 10))
        try:
            if stdin:
                try:
                    p.stdin.write(stdin)
                    p.stdin.close()
                except BrokenPipeError:
                    pass
            code = p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            code = 'timeout'
        fo.seek(0)
        fe.seek(0)
        return R(code, fo.read(1 << 24), fe.read(1 << 20))


class Ctx:
    """Where the compiler under test and scratch files are."""

    def __init__(self, dir):
        self.dir = dir
        self.driver = os.path.join(dir, 'driver')
        self.candice = os.path.join(dir, 'candice')

    def build(self, race=False, what=('driver',), pkgs=None):
        overlay = {}
        hd = os.path.join(VERIF, 'harness', 'driver')
        for f in os.listdir(hd):
            if f.endswith('.go'):
                overlay[os.path.join(REPO, 'cmd', 'zz_verif_driver', f)] = os.path.join(hd, f)
        ov = os.path.join(self.dir, 'overlay.json')
        with open(ov, 'w') as fh:
            json.dump({'Replace': overlay}, fh)
        for w in what:
            if w == 'driver':
                cmd = ['go', 'build', '-overlay', ov, '-o', self.driver, './cmd/zz_verif_driver']
            else:
                cmd = ['go', 'build', '-o', os.path.join(self.dir, w), (pkgs or {}).get(w, './cmd/' + w)]
            if race:
                cmd.insert(2, '-race')
            p = subprocess.run(cmd, cwd=REPO, env=ENV, capture_output=True, text=True)
            if p.returncode:
                raise Broken('building %s failed:\n%s' % (w, p.stderr[-3000:]))


CTX = None   # set before workers are forked


def fresh():
    return tempfile.mkdtemp(dir=CTX.dir, prefix='p')


# ------------------------------------------------------------ pipeline
class Compiled:
    def __init__(self, verdict, code, log, ll):
        self.verdict = verdict or {}
        self.code, self.log, self.ll = code, log, ll
        self.stage = self.verdict.get('stage')
        self.errors = self.verdict.get('errors') or []
        self.panic = self.verdict.get('panic')

    @property
    def ok(self):
        return self.stage == 'ok'

    def describe(self):
        if self.code == 'timeout':
            return 'the compiler did not finish'
        if self.panic:
            return 'the compiler panicked: %s\n%s' % (self.panic, self.verdict.get('stack', ''))
        if not self.verdict:
            return 'the compiler ended with status %s:\n%s' % (self.code, self.log)
        return 'stopped at %s: %s' % (self.stage, '\n'.join(self.errors))


def compile_src(src, d, name='main', files=None, timeout=60):
    """Compile Candice source text in directory d."""
    path = os.path.join(d, name + '.cd')
    with open(path, 'wb') as f:
        f.write(src.encode() if isinstance(src, str) else src)
    for fn, txt in (files or {}).items():
        fp = os.path.join(d, fn)
        os.makedirs(os.path.dirname(fp), exist_ok=True)
        with open(fp, 'wb') as f:
            f.write(txt.encode() if isinstance(txt, str) else txt)
    ll = os.path.join(d, name + '.ll')
    r = run([CTX.driver, 'compile', path, ll, '.'], cwd=d, timeout=timeout)
    v = None
    text = r.out.decode('utf-8', 'replace')
    i = text.rfind('@@VERDICT ')
    if i >= 0:
        try:
            v = json.loads(text[i + 10:].split('\n', 1)[0])
        except ValueError:
            v = None
    return Compiled(v, r.code, (text[:i] if i >= 0 else text)[-3000:] + r.err.decode('utf-8', 'replace')[-3000:], ll)


MODES = {
    'O0': ['-O0'],
    'O3': RELEASE,
}


def link(ll, exe, mode, extra=(), d=None):
    if mode == 'asan' or mode == 'msan':
        kind = 'address' if mode == 'asan' else 'memory'
        with open(ll) as f:
            t = f.read()
        t = re.sub(r'^(define [^\n]*\)) \{$', r'\1 sanitize_%s {' % kind, t, flags=re.M)
        l2 = ll[:-3] + '.%s.ll' % mode
        with open(l2, 'w') as f:
            f.write(t)
        o = l2[:-3] + '.o'
        r = run(['clang', '-w', '-O0', '-fsanitize=' + kind, '-c', l2, '-o', o], cwd=d, timeout=120)
        if r.code:
            return r
        return run(['clang-18', '-fsanitize=' + kind, o, *extra, '-lm', '-o', exe], cwd=d, timeout=120)
    r = run(['clang', '-w', *MODES[mode], ll, *extra, '-lm', '-o', exe], cwd=d, timeout=120)
    if r.code == 'timeout' and mode != 'O0':
        # the optimizer needs very long for some valid code
        return run(['clang', '-w', '-O0', ll, *extra, '-lm', '-o', exe], cwd=d, timeout=120)
    if r.code and b'PLEASE submit a bug report' in r.err and \
            run(['opt-18', '-passes=verify', '-S', ll, '-o', '/dev/null'], cwd=d, timeout=120).code == 0:
        # the optimizer of clang 17 crashed on valid code (seen in its dead store elimination)
        for flags in (['clang', '-O2'], ['clang', '-O1'], ['clang-18', '-O2'], ['clang', '-O0']):
            r2 = run([flags[0], '-w', *flags[1:], ll, *extra, '-lm', '-o', exe], cwd=d, timeout=120)
            if r2.code == 0:
                return r2
    return r


ASAN_ENV = dict(ENV)
ASAN_ENV['ASAN_OPTIONS'] = 'detect_leaks=0:detect_stack_use_after_return=1:exitcode=99'
ASAN_ENV['MSAN_OPTIONS'] = 'exitcode=99'


def execute(exe, mode, d=None, timeout=10, stdin=b''):
    san = mode in ('asan', 'msan')
    return run([exe], cwd=d, timeout=timeout, as_gb=0 if san else 4,
               env=ASAN_ENV if san else ENV, stdin=stdin)


def program(cases):
    o = ''.join(c.meta.get('imports', '') for c in cases)
    for c in cases:
        o += c.src()
    o += 'func main() i32 {\n'
    for i, c in enumerate(cases):
        o += '  @print("\\n#%d\\n");\n  %s();\n' % (i, c.entry.name)
    return o + '  @print("\\n#end\\n");\n  return 0;\n}\n'


def split(out, n):
    """Outputs of the n cases of a program, None where it did not get there."""
    res = [None] * n
    pos = 0
    for i in range(n):
        mark = b'\n#%d\n' % i
        j = out.find(mark, pos)
        if j < 0:
            return res
        nxt = b'\n#%d\n' % (i + 1) if i + 1 < n else b'\n#end\n'
        k = out.find(nxt, j + len(mark) - 1)
        if k < 0:
            return res
        res[i] = out[j + len(mark):k]
        pos = k
    return res


class Failure:
    def __init__(self, kind, detail, src, expect=b'', got=b'', files=None):
        self.kind, self.detail, self.src = kind, detail, src
        self.expect, self.got, self.files = expect, got, files or {}


C_HEAD = '#include <stdarg.h>\n#include <stdint.h>\n#include <stdio.h>\n#include <stddef.h>\n'


def check_program(src, expect, modes, files=None, extra=(), csrc=''):
    """Run one whole program against its expected output; a Failure or None.
    expect is a list of outputs per case."""
    d = fresh()
    try:
        n = len(expect)
        if csrc:
            # the other side of the calls: a C compiler chosen by the text
            files = dict(files or {}, **{'cpart.c': C_HEAD + csrc})
            with open(os.path.join(d, 'cpart.c'), 'w') as f:
                f.write(C_HEAD + csrc)
            cc = 'gcc' if int(sig(csrc), 16) % 2 else 'clang'
            r = run([cc, '-w', '-O2', '-fwrapv', '-c', 'cpart.c', '-o', 'cpart.o'], cwd=d, timeout=120)
            if r.code:
                raise Broken('the C part does not compile: ' + r.err.decode('utf-8', 'replace')[:2000])
            extra = [*extra, os.path.join(d, 'cpart.o')]
        c = compile_src(src, d, files=files)
        if not c.ok:
            return Failure('rejected' if c.errors and not c.panic else 'compiler failure', c.describe(), src, files=files)
        for mode in modes:
            exe = os.path.join(d, 'exe.' + mode)
            r = link(c.ll, exe, mode, extra, d)
            if r.code:
                return Failure('invalid code', 'clang (%s) ended with %s on the emitted code: %s' % (
                    mode, r.code, r.err.decode('utf-8', 'replace')[:1500]), src, files=files)
            r = execute(exe, mode, d)
            if r.code == 'timeout':
                r = execute(exe, mode, d, timeout=20)
            got = split(r.out, n)
            if r.code != 0:
                return Failure('abnormal end', 'the program (%s) ended with status %s: %s' % (
                    mode, r.code, r.err.decode('utf-8', 'replace')[:3000]), src,
                    b'|'.join(e for e in expect), r.out[-2000:], files=files)
            for i in range(n):
                if got[i] != expect[i]:
                    return Failure('wrong output', 'case %d of the program built with %s' % (i, mode), src,
                                   expect[i], got[i] if got[i] is not None else b'<missing>', files=files)
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def files_of(cases):
    return {n: t for c in cases for n, t in c.meta.get('files', {}).items()}


def cpart(cases):
    return ''.join(c.meta.get('c', '') for c in cases)


def run_cases(cases, modes):
    """Compile the cases as one program; on failure find the cases at fault."""
    if not cases:
        return []
    f = check_program(program(cases), [c.expect for c in cases], modes, files_of(cases), csrc=cpart(cases))
    if f is None:
        return []
    fails = []
    for c in cases:
        g = check_program(program([c]), [c.expect], modes, files_of([c]), csrc=cpart([c]))
        if g is not None:
            g.case, g.modes = c, modes
            fails.append(g)
            if len(fails) >= 2 or 'timeout' in g.detail:
                break
    if not fails:
        # only together
        f.case = None
        fails.append(f)
    return fails


# ------------------------------------------------------------ check
def _call(job):
    fn, args = job
    try:
        return fn(*args)
    except Broken as e:
        return {'broken': str(e)}
    except Exception:
        import traceback
        return {'broken': traceback.format_exc()}


class Check:
    def __init__(self, pid, technique_rule):
        self.pid = pid
        self.rule = technique_rule
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in sys.argv:
            self.tier = 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.evals = 0
        self.sigs = set()
        self.samples = []
        self.cov = {}
        self.viol = []
        self.known = []
        self.assumptions = []
        self.exhaustive = None
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def start(self, **kw):
        global CTX
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % self.pid)
        CTX = Ctx(self.dir)
        CTX.build(**kw)
        return CTX

    def rng(self, *k):
        return random.Random('%s:%d:%s' % (self.pid, self.seed, ':'.join(map(str, k))))

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def merge(self, res):
        if 'broken' in res:
            raise Broken(res['broken'])
        self.evals += res.get('evals', 0)
        self.sigs.update(res.get('sigs', ()))
        for k, v in res.get('cov', {}).items():
            self.cov[k] = self.cov.get(k, 0) + v
        if len(self.samples) < 4:
            self.samples += res.get('samples', [])[:1]
        for f in res.get('fails', []):
            self.fail(f)

    def pmap(self, fn, jobs):
        """Run fn(*args) for each args in jobs on all cores; results merged in order."""
        jobs = [(fn, a) for a in jobs]
        with multiprocessing.get_context('fork').Pool(NPROC) as pool:
            for res in pool.imap(_call, jobs, chunksize=1):
                self.merge(res)
                if len(self.viol) >= 5 or self.viol and time.time() - self.tviol > 45:
                    pool.terminate()
                    break

    def fail(self, f):
        d = os.path.join(VERIF, 'evidence', 'replay', '%s-%d' % (self.pid, len(self.viol)))
        if not self.viol:
            base = os.path.join(VERIF, 'evidence', 'replay')
            if os.path.isdir(base):
                for x in os.listdir(base):
                    if x.startswith(self.pid + '-'):
                        shutil.rmtree(os.path.join(base, x), ignore_errors=True)
        if len(self.viol) < 12:
            os.makedirs(d, exist_ok=True)
            src = f.src if isinstance(f.src, bytes) else (f.src or '').encode('utf-8', 'surrogateescape')
            for name, data in [('program.cd', src), ('expected.txt', f.expect or b''), ('observed.txt', f.got or b''),
                               ('info.txt', ('%s\n%s\n' % (f.kind, f.detail)).encode('utf-8', 'replace'))] + list(f.files.items()):
                fp = os.path.join(d, name)
                os.makedirs(os.path.dirname(fp), exist_ok=True)
                with open(fp, 'wb') as fh:
                    fh.write(data if isinstance(data, bytes) else data.encode())
            if getattr(f, 'case', None) is not None:
                try:
                    blob = pickle.dumps((f.case, getattr(f, 'modes', None)))
                    with open(os.path.join(d, 'case.pkl'), 'wb') as fh:
                        fh.write(blob)
                except Exception:
                    pass
            print('VIOLATION property=%s replay=%s' % (self.pid, d), flush=True)
            print('  %s: %s' % (f.kind, f.detail.strip().replace('\n', '\n    ')[:1200]))
            if f.kind == 'wrong output':
                print('    expected %r\n    observed %r' % (f.expect[-600:], f.got[-600:]))
        if not self.viol:
            self.tviol = time.time()
        self.viol.append(f)

    def finish(self):
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': self.evals,
                'distinct_nontrivial': len(self.sigs),
                'rule': self.rule,
                'samples': self.samples[:4],
                'observed': dict(sorted(self.cov.items())),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.viol),
        }
        if self.exhaustive is not None:
            ev['coverage']['exhaustive'] = self.exhaustive
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1fs' % (
            self.pid, self.tier, self.seed, self.evals, len(self.sigs), len(self.viol), ev['wall_s']))
        return 1 if self.viol else 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sig(x):
    if isinstance(x, str):
        x = x.encode('utf-8', 'surrogateescape')
    return hashlib.sha1(x).hexdigest()[:12]


def norm(src):
    """Source with the per-case suffix of names removed, to count distinct cases."""
    return re.sub(r'_c\d+\b', '_c', src)


def generic_batch(pid, seed, b, gen, k, modes):
    """Generate k cases with gen(rng, uid), run them as one program."""
    from . import lang
    rng = random.Random('%s:%d:%d' % (pid, seed, b))
    cases, res = [], {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    tries = 0
    while len(cases) < k and tries < 40 * k:
        tries += 1
        uid = 'c%d' % len(cases)
        try:
            c = gen(rng, uid)
            if c is None:
                continue
            if len(c.src()) > 60000:
                res['cov']['dropped: very long'] = res['cov'].get('dropped: very long', 0) + 1
                continue
            c.interpret()
        except (lang.UB, RecursionError):
            res['cov']['dropped: undefined'] = res['cov'].get('dropped: undefined', 0) + 1
            continue
        cases.append(c)
    if len(cases) < k:
        raise Broken('generator produced %d of %d cases' % (len(cases), k))
    for c in cases:
        for key, n in c.meta.get('cov', {}).items():
            res['cov'][key] = res['cov'].get(key, 0) + n
        if c.meta.get('nontrivial', True):
            res['sigs'].append(sig(norm(c.src())))
    res['evals'] = len(cases) * len(modes)
    res['fails'] = run_cases(cases, modes)
    if b < 4:
        res['samples'] = ['%s%s\n=> %s' % (''.join('// %s\n%s' % x for x in files_of(cases[:1]).items()), cases[0].src()[:1500], cases[0].expect.decode('utf-8', 'replace')[:300])]
    return res


def main(pid, rule, body, **build):
    """Entry point of a check."""
    ck = Check(pid, rule)
    try:
        ck.start(**build)
        body(ck)
        code = ck.finish()
    except Broken as e:
        print('BROKEN %s: %s' % (pid, e))
        code = 2
    finally:
        if hasattr(ck, 'dir'):
            ck.cleanup()
    sys.stdout.flush()
    sys.exit(code)
