#!/usr/bin/env python3
"""shrink.py REPLAYDIR: make the failing case of a replay smaller."""
import os
import pickle
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)
from vf import core, lang
from vf.lang import *

with open(sys.argv[1] + '/case.pkl', 'rb') as f:
    case, modes = pickle.load(f)
core.CTX = core.Ctx(tempfile.mkdtemp(prefix='shrink'))
core.CTX.build()


def test():
    try:
        case.interpret()
        src = core.program([case])
    except lang.UB:
        return None
    except Exception as e:
        return None
    f = core.check_program(src, [case.expect], modes)
    if f is None:
        return None
    key = f.kind
    if f.kind == 'compiler failure':
        key += f.detail.split('\n')[0][:200]
    if f.kind == 'invalid code':
        key += f.detail.split('error:')[-1][:40]
    return key


def shape(ls):
    return ls


want = test()
print('failure:', want)
assert want


def points(o, seen):
    """(container, key) of every editable place."""
    if id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, list):
        for i, x in enumerate(o):
            yield o, i, x
            yield from points(x, seen)
    elif isinstance(o, tuple):
        for x in o:
            yield from points(x, seen)
    elif isinstance(o, (E, S, Func, Case)):
        for k, x in list(vars(o).items()):
            if k in ('meta', 'machine', 'expect', 't', 'st', 'rets', 'params'):
                continue
            if isinstance(o, Func) and k in ('type',):
                continue
            yield o, k, x
            yield from points(x, seen)


def get(c, k):
    return c[k] if isinstance(c, list) else getattr(c, k)


def put(c, k, v):
    if isinstance(c, list):
        c[k] = v
    else:
        setattr(c, k, v)


def subs(x):
    """Smaller expressions of the same type."""
    out = []
    def walk(y, d):
        if isinstance(y, E):
            if d and y.t == x.t:
                out.append(y)
            for z in vars(y).values():
                if isinstance(z, (E, list)):
                    walk(z, d + 1)
        elif isinstance(y, list):
            for z in y:
                if isinstance(z, tuple):
                    z = z[1]
                walk(z, d)
    walk(x, 0)
    return out


changed = True
rounds = 0
while changed and rounds < 8:
    changed = False
    rounds += 1
    # remove list elements
    for c, k, x in list(points(case, set())):
        if isinstance(x, list) and not (isinstance(c, Func) and k in ('params', 'rets', 'captures')) \
                and not (isinstance(c, Call)) and not isinstance(c, (StructLit, ArrLit)):
            n = max(1, len(x) // 2)
            while n >= 1:
                i = 0
                while i < len(x):
                    old = x[i:i + n]
                    del x[i:i + n]
                    if test() == want:
                        changed = True
                    else:
                        x[i:i] = old
                        i += n
                n //= 2
    for c, k, x in list(points(case, set())):
        try:
            if get(c, k) is not x:
                continue
        except IndexError:
            continue
        if isinstance(x, S) and isinstance(c, list):
            # a compound statement becomes its body
            bodies = [b for b in ([x.body] if isinstance(x, (Block, For)) else [])]
            if isinstance(x, If):
                bodies = [b for _, b in x.clauses] + ([x.other] if x.other else [])
            if isinstance(x, Switch):
                bodies = [b for _, b in x.cases] + ([x.default] if x.default else [])
            for b in bodies:
                i = c.index(x) if x in c else -1
                if i < 0:
                    break
                c[i:i + 1] = b
                if test() == want:
                    changed = True
                    break
                c[i:i + len(b)] = [x]
        if isinstance(x, E):
            cand = subs(x)
            if isinstance(x.t, (Int, Flt)) and not isinstance(x, Lit):
                cand = [Lit(x.t, 1 if isinstance(x.t, Int) else 1.0), Lit(x.t, 0)] + cand
            if isinstance(x, Lit) and isinstance(x.t, Int) and x.v not in (0, 1, 2):
                cand = [Lit(x.t, 1), Lit(x.t, 2)]
            for y in cand:
                put(c, k, y)
                if test() == want:
                    changed = True
                    break
                put(c, k, x)
        if k == 'other' or k == 'default' or k == 'globals':
            if x:
                put(c, k, None if k != 'globals' else [])
                if test() == want:
                    changed = True
                else:
                    put(c, k, x)
test()
src = core.program([case])
print(src)
f = core.check_program(src, [case.expect], modes)
print(f.kind, f.detail[:1500])
print('expected', f.expect, 'got', f.got)
