"""C26: the language server answers every request once, whatever the history of messages, and shows the tree of the newest text."""
import json
import os
import random
import shutil
import subprocess
import threading
import time

from vf import core, fuzz, syntax

METHODS = ['textDocument/hover', 'textDocument/definition', 'textDocument/completion', 'textDocument/signatureHelp', 'workspace/symbol', 'shutdown',
           'textDocument/documentSymbol', 'completionItem/resolve', 'vf/unknown', '']
NOTES = ['initialized', 'textDocument/didOpen', 'textDocument/didSave', 'textDocument/didClose', '$/cancelRequest', '$/setTrace', 'workspace/didChangeConfiguration',
         'workspace/didChangeWatchedFiles', 'vf/note']
HARD = [b'', b'\r\n', b'"', b"'", b'func', b'@', b'{' * 50, b'(' * 200, b'a := ;', '\u00e9\u4e16\U0001f600'.encode(), b'"a\r\nb"', b'#if', b'\x00', b'//', b'a.', b'@S{',
        b'switch', b'func f() {', b'import a, "', b'x : ', b'return', b'pub', b'++;', b'struct S { a', b'func(', b'\\', b'\t\t']
URI = 'file:///vf/a.cd'


class Session:
    def __init__(self, rng):
        self.rng = rng
        self.msgs, self.replies, self.trees, self.cov = [], [], [], {}
        self.next = 1
        self.odd = {'1'}

    def note(self, k):
        self.cov[k] = self.cov.get(k, 0) + 1

    def id(self):
        if self.rng.random() < .12:
            i = self.rng.choice([0, -1, -7, 2147483647, -2147483648, '0', '1', '-', 'null', '\u00e9 \u4e16', '"quoted\\"', 'x' * 300])
            if json.dumps(i) not in self.odd:
                self.odd.add(json.dumps(i))
                self.note('unusual id')
                return i
        self.next += self.rng.choice([1, 1, 7])
        return self.next if self.rng.random() < .7 else 'id-%d' % self.next

    def request(self, method, params, want):
        i = self.id()
        m = {'jsonrpc': '2.0', 'id': i, 'method': method}
        if params is not None:
            m['params'] = params
        self.msgs.append(m)
        self.replies.append((i, want, method))

    def notify(self, method, params):
        m = {'jsonrpc': '2.0', 'method': method}
        if params is not None:
            m['params'] = params
        self.msgs.append(m)

    def position(self):
        rng = self.rng
        return rng.choice([{'textDocument': {'uri': URI}, 'position': {'line': rng.randint(0, 50), 'character': rng.randint(0, 80)}}, None, {}, [1, 'a'], {'query': ''}])

    def text(self, pool):
        """A text, and its drawing if it is known."""
        rng = self.rng
        r = rng.random()
        if r < .5:
            while True:
                s, t = syntax.Gen(rng, rng.choice([1, 2, 3])).program()
                t0 = s
                want = syntax.draw(syntax.shown(t))
                if len(s) < 4000 and len(want) < 600 and len(want) > 1:
                    break
            self.note('change to a program')
            if rng.random() < .05:
                self.note('change to a program far from the beginning of the text')
                s = rng.choice(['\n', '// a comment\n', ' ', '\t\n', '// %s\n' % ('long ' * 300)]) * rng.choice([300, 5000, 40000, 150000])
                s = s[:200000] + '\n' + t0
            return s, want
        self.note('change to any text')
        if r < .8:
            s = fuzz.mutate(rng, rng.choice(pool)[:2000], pool)
        elif r < .9:
            s = rng.choice(pool)
            s = s[:rng.randrange(len(s) + 1)]
        else:
            s = b' '.join(rng.choice(HARD) for _ in range(rng.randint(0, 4)))
        return s[:20000].decode('utf8', 'replace'), None

    def change(self, pool):
        rng = self.rng
        k = rng.random()
        params = {'textDocument': {'uri': URI, 'version': self.next}}
        if k < .08:
            self.note('change without changes')
            params = rng.choice([{}, None, [], {'contentChanges': 3}, dict(params, contentChanges=[]), {'contentChanges': [{'text': 3}]}, 'x', dict(params, contentChanges=None)])
            self.notify('textDocument/didChange', params)
            return
        n = rng.choice([1, 1, 1, 1, 2, 3])
        ts = [self.text(pool) for _ in range(n)]
        if self.trees and rng.random() < .15:
            ts.append(rng.choice(self.trees[-3:]))
            self.note('change to an earlier text')
        if n > 1:
            self.note('several changes')
        params['contentChanges'] = [{'text': t} for t, _ in ts]
        self.notify('textDocument/didChange', params)
        if ts[-1][1]:
            self.trees.append(ts[-1])

    def make(self, pool, n):
        rng = self.rng
        self.request('initialize', rng.choice([{'capabilities': {}}, {'processId': 1, 'rootUri': None, 'capabilities': {'textDocument': {'hover': {}}}}, {}]), 'initialize')
        for _ in range(n):
            r = rng.random()
            if r < .5:
                self.change(pool)
            elif r < .8:
                m = rng.choice(METHODS[:-1])
                self.note('request')
                self.request(m, self.position(), 'error')
            else:
                self.note('notification')
                self.notify(rng.choice(NOTES), self.position())

    def bytes(self):
        out = b''
        for m in self.msgs:
            b = json.dumps(m, ensure_ascii=self.rng.random() < .5).encode('utf8', 'replace')
            kind = b'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n' if self.rng.random() < .05 else b''
            head = b'Content-Length: %d\r\n' % len(b)
            out += (kind + head if self.rng.random() < .5 else head + kind) + b'\r\n' + b
        return out


def frames(out):
    """Messages of a stream of them (raises ValueError on anything else)."""
    res = []
    while out:
        head, sep, out = out.partition(b'\r\n\r\n')
        n = None
        for l in head.split(b'\r\n'):
            k, _, v = l.partition(b':')
            if k.strip().lower() == b'content-length':
                n = int(v)
            elif k.strip().lower() != b'content-type':
                raise ValueError('not a header: %r' % l[:200])
        if n is None or not sep or len(out) < n:
            raise ValueError('incomplete message: %r' % head[:200])
        res.append(json.loads(out[:n]))
        out = out[n:]
    return res


def serve(data, rng, d):
    p = subprocess.Popen([os.path.join(core.CTX.dir, 'autocomplete')], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(core.ENV, GORACE='halt_on_error=1 exitcode=66'))
    got = {}
    ts = [threading.Thread(target=lambda n=n, f=f: got.__setitem__(n, f.read()), daemon=True) for n, f in (('out', p.stdout), ('err', p.stderr))]
    for t in ts:
        t.start()
    early = False
    try:
        i = 0
        while i < len(data):
            n = rng.choice([1, 7, 100, 1000, 5000, 100000])
            p.stdin.write(data[i:i + n])
            p.stdin.flush()
            i += n
            if rng.random() < .02:
                time.sleep(rng.choice([0, .001, .01]))
        p.stdin.close()
    except BrokenPipeError:
        early = True
    try:
        code = p.wait(60)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        code = 'no end'
    for t in ts:
        t.join(10)
    return code, got.get('out', b''), got.get('err', b''), early


def judge(s, code, out, err, early):
    if early:
        return 'the server ended before the messages did, with status %s: %s' % (code, err[-1500:].decode('utf8', 'replace'))
    if b'DATA RACE' in err:
        return 'data race: ' + err[err.index(b'WARNING: DATA RACE'):][:3000].decode('utf8', 'replace')
    if b'recovered panic' in err:
        return 'panic: ' + err[err.index(b'recovered panic'):][:600].decode('utf8', 'replace')
    if code != 0:
        return 'the server ended with status %s when its input ended: %s' % (code, err[-1500:].decode('utf8', 'replace'))
    try:
        rs = frames(out)
    except ValueError as e:
        return 'the output isn\'t a sequence of messages: %s' % e
    by = {}
    for r in rs:
        if 'id' not in r or 'method' in r or ('result' in r) == (r.get('error') is not None):
            return 'not a reply: %r' % r
        by.setdefault(json.dumps(r['id']), []).append(r)
    for i, want, method in s.replies:
        got = by.pop(json.dumps(i), [])
        if len(got) != 1:
            return 'the request %s (%s) got %d replies' % (method, i, len(got))
        if want == 'initialize':
            cap = (got[0].get('result') or {}).get('capabilities')
            if not cap or (cap.get('textDocumentSync') or {}).get('change') != 1:
                return 'initialize got %r' % got[0]
    if by:
        return 'replies to no request: %s' % list(by)[:5]
    text = '\n'.join(l.rstrip() for l in err.decode('utf8', 'replace').split('\n'))
    at = 0
    for src, want in s.trees:
        w = '\n' + '\n'.join(l.rstrip() for l in want) + '\n'
        k = text.find(w, at)
        if k < 0:
            return 'after a change, the tree of the newest text is not shown (or earlier than those of older texts):\n%s\ntext:\n%s' % (w[:1500], src[:1500])
        at = k + len(w) - 1
    return ''


def job(seed, b, n):
    rng = random.Random('C26:%s:%s' % (seed, b))
    res = {'evals': 0, 'sigs': [], 'cov': {}, 'fails': [], 'samples': []}
    pool = fuzz.seeds()
    d = core.fresh()
    try:
        for _ in range(n):
            s = Session(rng)
            s.make(pool, rng.choice([0, 2, 10, 40]))
            data = s.bytes()
            why = judge(s, *serve(data, rng, d))
            res['evals'] += len(s.msgs)
            res['sigs'].append(core.sig(data))
            for k, v in s.cov.items():
                res['cov'][k] = res['cov'].get(k, 0) + v
            res['cov']['replies checked'] = res['cov'].get('replies checked', 0) + len(s.replies)
            res['cov']['trees checked'] = res['cov'].get('trees checked', 0) + len(s.trees)
            if why:
                res['fails'].append(core.Failure('language server', why, json.dumps(s.msgs, indent=1)))
                break
            if b < 3 and not res['samples']:
                res['samples'].append('%d messages (%s...), %d replies, %d trees' % (len(s.msgs), ', '.join(m['method'] for m in s.msgs[:6]), len(s.replies), len(s.trees)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


def body(ck):
    ck.pmap(job, [(ck.seed, b, 8) for b in range(ck.n(24, 1500))])


if __name__ == '__main__':
    core.main('C26', 'random sessions with the language server, built with the race detector: requests with and without handlers, notifications, changes to programs and to any '
              'text, in chunks of any size; every request has one reply, and the trees of the newest texts are shown in order', body, what=('autocomplete',), race=True)
