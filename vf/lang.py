"""Reference model of Candice: types with their C layout, expressions and
statements that print themselves as Candice source, and an interpreter over a
byte-addressed memory. It shares no code with /repo: the expected output of a
generated program comes only from here.

A program that would do something Candice leaves undefined (division by zero,
shift by the width or more, out-of-range float to int, reading memory nobody
wrote) raises UB while it is interpreted; the generator drops such a case.
"""
import sys
import math
import struct as _struct


sys.setrecursionlimit(20000)


class UB(Exception):
    pass


class Fuel(UB):
    pass


# ---------------------------------------------------------------- types
class T:
    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return self.src()

    is_int = is_float = is_ptr = is_agg = False


class Int(T):
    is_int = True

    def __init__(self, bits, signed):
        self.bits, self.signed = bits, signed
        self.size = max(1, bits // 8)
        self.align = self.size
        self.mod = 1 << bits
        if signed and bits > 1:
            self.lo, self.hi = -(1 << (bits - 1)), (1 << (bits - 1)) - 1
        else:
            self.lo, self.hi = 0, (1 << bits) - 1

    def key(self):
        return ('i' if self.signed else 'u', self.bits)

    def src(self):
        return ('i' if self.signed else 'u') + str(self.bits)

    def wrap(self, v):
        v &= self.mod - 1
        if v > self.hi:
            v -= self.mod
        return v

    def unsigned(self, v):
        return v & (self.mod - 1)


class Flt(T):
    is_float = True

    def __init__(self, bits):
        self.bits = bits
        self.size = self.align = bits // 8

    def key(self):
        return ('f', self.bits)

    def src(self):
        return 'f%d' % self.bits

    def round(self, v):
        if self.bits == 64:
            return v
        try:
            return _struct.unpack('<f', _struct.pack('<f', v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)


class Void(T):
    size = 0
    align = 1

    def key(self):
        return ('void',)

    def src(self):
        return 'void'


class Ptr(T):
    is_ptr = True
    size = align = 8

    def __init__(self, to):
        self.to = to

    def key(self):
        return ('p', self.to.key())

    def src(self):
        return '*' + self.to.src()


class Arr(T):
    is_agg = True

    def __init__(self, n, el):
        self.n, self.el = n, el
        self.size = n * el.size
        self.align = el.align

    def key(self):
        return ('a', self.n, self.el.key())

    def src(self):
        return '[%d]%s' % (self.n, self.el.src())


def _up(x, a):
    return (x + a - 1) // a * a


class Struct(T):
    is_agg = True

    def __init__(self, name, fields):
        self.name, self.fields = name, []
        if fields is not None:
            self.set(fields)

    def set(self, fields):
        self.fields = list(fields)
        off = 0
        self.off = {}
        self.ft = {}
        al = 1
        for n, t in self.fields:
            off = _up(off, t.align)
            self.off[n] = off
            self.ft[n] = t
            off += t.size
            al = max(al, t.align)
        self.align = al
        self.size = _up(off, al)
        return self

    def key(self):
        return ('s', self.name)

    def src(self):
        return self.name

    def decl(self):
        return 'struct %s {\n%s}\n' % (self.name, ''.join('  %s %s\n' % (n, t.src()) for n, t in self.fields))


class Union(T):
    is_agg = True

    def __init__(self, name, fields):
        self.name, self.fields = name, list(fields)
        self.off = {n: 0 for n, _ in fields}
        self.ft = dict(fields)
        self.align = max([1] + [t.align for _, t in fields])
        self.size = _up(max([0] + [t.size for _, t in fields]), self.align)

    def key(self):
        return ('u', self.name)

    def src(self):
        return self.name

    def decl(self):
        return 'union %s {\n%s}\n' % (self.name, ''.join('  %s %s\n' % (n, t.src()) for n, t in self.fields))


class Fn(T):
    """A function value."""
    size = align = 8

    def __init__(self, params, rets):
        self.params, self.rets = list(params), list(rets)

    def key(self):
        return ('f', tuple(p.key() for p in self.params), tuple(r.key() for r in self.rets))

    def src(self):
        r = ', '.join(r.src() for r in self.rets) if self.rets else 'void'
        if len(self.rets) > 1:
            r = '(' + r + ')'
        return 'func(%s) %s' % (', '.join(p.src() for p in self.params), r)


I1 = Int(1, True)
I8, I16, I32, I64 = (Int(b, True) for b in (8, 16, 32, 64))
U8, U16, U32, U64 = (Int(b, False) for b in (8, 16, 32, 64))
F32, F64 = Flt(32), Flt(64)
VOID = Void()
SIGNED = [I8, I16, I32, I64]
UNSIGNED = [U8, U16, U32, U64]
INTS = SIGNED + UNSIGNED
FLTS = [F32, F64]
STR = Ptr(I8)


# ---------------------------------------------------------------- memory
class Mem:
    """Blocks of bytes; a pointer is block<<32|offset. A byte holds None until
    it is written."""

    def __init__(self):
        self.blocks = {}
        self.next = 1
        self.freed = 0

    def alloc(self, n):
        b = self.next
        self.next += 1
        self.blocks[b] = [None] * n
        return b << 32

    def free(self, p):
        if p & 0xffffffff or (p >> 32) not in self.blocks:
            raise UB('bad free')
        del self.blocks[p >> 32]

    def get(self, p, n):
        b = self.blocks.get(p >> 32)
        o = p & 0xffffffff
        if b is None or o + n > len(b):
            raise UB('out of bounds read')
        return b[o:o + n]

    def put(self, p, bs):
        b = self.blocks.get(p >> 32)
        o = p & 0xffffffff
        if b is None or o + len(bs) > len(b):
            raise UB('out of bounds write')
        b[o:o + len(bs)] = bs


def encode(t, v):
    if isinstance(t, Int):
        return list((v & ((1 << (8 * t.size)) - 1)).to_bytes(t.size, 'little'))
    if isinstance(t, Flt):
        return list(_struct.pack('<f' if t.bits == 32 else '<d', v))
    if isinstance(t, (Ptr, Fn)):
        return list(v.to_bytes(8, 'little'))
    assert isinstance(v, tuple) and len(v) == t.size, (t, v)
    return list(v)


def decode(t, bs):
    if isinstance(t, (Arr, Struct, Union)):
        return tuple(bs)
    if any(b is None for b in bs):
        raise UB('uninitialised read')
    bs = bytes(bs)
    if isinstance(t, Int):
        v = int.from_bytes(bs, 'little')
        if t.bits == 1:
            if v > 1:
                raise UB('i1 representation')
            return v
        return t.wrap(v)
    if isinstance(t, Flt):
        v = _struct.unpack('<f' if t.bits == 32 else '<d', bs)[0]
        if not math.isfinite(v) and not IEEE:
            raise UB('float read through a union')
        return v
    return int.from_bytes(bs, 'little')


# ---------------------------------------------------------------- expressions
P_COMMA, P_LOGIC, P_CMP, P_ADD, P_BIT, P_MUL, P_AS, P_PRE, P_CALL, P_IDX, P_DOT, P_ATOM = \
    2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 20

OPS = {'&&': P_LOGIC, '||': P_LOGIC,
       '==': P_CMP, '!=': P_CMP, '<': P_CMP, '>': P_CMP, '<=': P_CMP, '>=': P_CMP,
       '+': P_ADD, '-': P_ADD,
       '&': P_BIT, '|': P_BIT, '^': P_BIT, '<<': P_BIT, '>>': P_BIT,
       '*': P_MUL, '/': P_MUL, '%': P_MUL}
CMP = ('==', '!=', '<', '>', '<=', '>=')


# Layout: when set, PAREN() decides whether a value is printed in parentheses
# that do not change its meaning. SKIP is the expression (a place) whose next
# printing must stay bare.
PAREN = None
SKIP = None


def place(e, prec=0):
    """Source of an expression that designates a place."""
    global SKIP
    SKIP = e
    return e.at(prec)


class E:
    prec = P_ATOM
    t = None

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)
        inner = cls.__dict__.get('s')
        if inner is None:
            return

        def s(self):
            global SKIP
            if SKIP is self:
                SKIP = None
                return inner(self)
            x = inner(self)
            return '(' * PAREN[1] + x + ')' * PAREN[1] if PAREN is not None and PAREN[0]() else x
        cls.s = s

    def s(self):
        raise NotImplementedError

    def at(self, prec):
        """Source of this expression as an operand that needs precedence prec."""
        x = self.s()
        return x if self.prec >= prec else '(' + x + ')'

    def ev(self, m):
        raise NotImplementedError


class Lit(E):
    """An integer, float or boolean constant of type t."""

    def __init__(self, t, v):
        self.t, self.v = t, v

    def _bare(self):
        t, v = self.t, self.v
        if t is I32 or t == I32:
            if v == -(1 << 31):
                return '-2147483648 as i32', P_AS
            if v < 0:
                return str(v), P_PRE
            return str(v), P_ATOM
        if isinstance(t, Flt):
            x = flt_src(abs(v))
            neg = math.copysign(1, v) < 0
            if neg:
                x = '-' + x
            if t.bits == 64:
                return x + ' as f64', P_AS
            return x, P_PRE if neg else P_ATOM
        if t == I1:
            return ('1 == 1' if v else '0 == 1'), P_CMP
        if t == I64 and v > 0x7fffffff:
            return str(v), P_ATOM
        if t == U64 and v > 0x7fffffffffffffff:
            return str(v), P_ATOM
        return '%d as %s' % (v, t.src()), P_AS

    @property
    def prec(self):
        return self._bare()[1]

    def s(self):
        return self._bare()[0]

    def ev(self, m):
        return self.v


def flt_src(v):
    x = repr(float(v))
    if 'e' in x or 'inf' in x or 'nan' in x:
        x = '%.10f' % v
    return x


class Chr(E):
    t = I8

    def __init__(self, c):
        self.c = c

    def s(self):
        return "'" + self.c + "'"

    def ev(self, m):
        return ord(self.c)


class Raw(E):
    """Source text with a given meaning."""

    def __init__(self, t, src, fn, prec=P_ATOM):
        self.t, self.src, self.fn, self.prec = t, src, fn, prec

    def s(self):
        return self.src

    def ev(self, m):
        return self.fn(m)


class Str(E):
    t = STR

    def __init__(self, txt):
        self.txt = txt  # no quotes, backslashes

    def s(self):
        return '"' + self.txt.replace('\n', '\\n') + '"'

    def ev(self, m):
        b = self.txt.encode() + b'\0'
        p = m.mem.alloc(len(b))
        m.mem.put(p, list(b))
        return p


class Paren(E):
    def __init__(self, e):
        self.e, self.t = e, e.t

    def s(self):
        return '(' + self.e.s() + ')'

    def ev(self, m):
        return self.e.ev(m)


# Whether infinities and values that are no numbers are followed: no, when they
# come from an overflow, always.
IEEE = False


def arith(op, t, a, b):
    if isinstance(t, Flt):
        if op == '+':
            r = a + b
        elif op == '-':
            r = a - b
        elif op == '*':
            r = a * b
        elif b == 0 and IEEE is not True:
            raise UB('float division by zero')
        elif op == '/':
            r = a / b if b else math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
        else:
            r = math.nan if b == 0 or math.isinf(a) or math.isnan(a) else math.fmod(a, b)
        r = t.round(r)
        if not math.isfinite(r) and not IEEE:
            raise UB('float range')
        return r
    if op == '+':
        return t.wrap(a + b)
    if op == '-':
        return t.wrap(a - b)
    if op == '*':
        return t.wrap(a * b)
    if op in '/%':
        if b == 0 or (t.signed and a == t.lo and b == -1):
            raise UB('division')
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return t.wrap(q if op == '/' else a - q * b)
    if op == '&':
        return t.wrap(a & b)
    if op == '|':
        return t.wrap(a | b)
    if op == '^':
        return t.wrap(a ^ b)
    if op in ('<<', '>>'):
        if not 0 <= b < t.bits:
            raise UB('shift')
        if op == '<<':
            return t.wrap(a << b)
        return t.wrap(t.unsigned(a) >> b)
    raise AssertionError(op)


def compare(op, a, b):
    return int({'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])


class Bin(E):
    def __init__(self, op, l, r, t=None):
        self.op, self.l, self.r = op, l, r
        self.prec = OPS[op]
        self.t = t or (I1 if op in CMP or op in ('&&', '||') else l.t)

    def s(self):
        return '%s %s %s' % (self.l.at(self.prec), self.op, self.r.at(self.prec + 1))

    def ev(self, m):
        op = self.op
        if op == '&&':
            return int(bool(self.l.ev(m)) and bool(self.r.ev(m)))
        if op == '||':
            return int(bool(self.l.ev(m)) or bool(self.r.ev(m)))
        a = self.l.ev(m)
        b = self.r.ev(m)
        if self.op in CMP:
            return compare(op, a, b)
        if isinstance(self.l.t, Ptr):
            sz = self.l.t.to.size
            r = a + b * sz if op == '+' else a - b * sz
            if r >> 32 != a >> 32 or r < 0:
                raise UB('pointer arithmetic')
            return r
        return arith(op, self.l.t, a, b)


class Neg(E):
    prec = P_PRE

    def __init__(self, e):
        self.e, self.t = e, e.t

    def s(self):
        x = self.e.at(P_PRE)
        return ('-(' + x + ')') if x[0] in '+-&*!' else '-' + x

    def ev(self, m):
        v = self.e.ev(m)
        return -v if isinstance(self.t, Flt) else self.t.wrap(-v)


class Pos(Neg):
    def s(self):
        x = self.e.at(P_PRE)
        return ('+(' + x + ')') if x[0] in '+-&*!' else '+' + x

    def ev(self, m):
        return self.e.ev(m)


class Not(E):
    prec = P_PRE
    t = I1

    def __init__(self, e):
        self.e = e

    def s(self):
        return '!' + self.e.at(P_PRE)

    def ev(self, m):
        return int(not self.e.ev(m))


class Cast(E):
    prec = P_AS

    def __init__(self, e, t):
        self.e, self.t = e, t

    def s(self):
        return '%s as %s' % (self.e.at(P_AS), self.t.src())

    def ev(self, m):
        return convert(self.e.t, self.t, self.e.ev(m))


def convert(f, t, v):
    if isinstance(t, Int):
        if isinstance(f, Flt):
            if math.isnan(v) or math.isinf(v):
                raise UB('float to int')
            v = int(v)
            if not t.lo <= v <= t.hi:
                raise UB('float to int range')
            return v
        return t.wrap(v)
    if isinstance(t, Flt):
        if isinstance(f, Int) and t.bits == 32:
            # round once, from the integer
            return round_int_f32(v)
        r = t.round(float(v))
        if math.isinf(r) and not IEEE:
            raise UB('float range')
        return r
    return v


def round_int_f32(v):
    if v == 0:
        return 0.0
    s, a = (-1, -v) if v < 0 else (1, v)
    sh = max(0, a.bit_length() - 24)
    q, r = a >> sh, a & ((1 << sh) - 1)
    half = (1 << sh) >> 1
    if sh and (r > half or (r == half and q & 1)):
        q += 1
    return float(s * (q << sh))


class Var(E):
    def __init__(self, name, t):
        self.name, self.t = name, t

    def s(self):
        return self.name

    def addr(self, m):
        return m.lookup(self.name)

    def ev(self, m):
        return m.load(self.t, self.addr(m))


class Const(E):
    """A named compile-time constant: a value without an address."""

    def __init__(self, name, t, v):
        self.name, self.t, self.v = name, t, v

    def s(self):
        return self.name

    def ev(self, m):
        return self.v


class Field(E):
    prec = P_DOT

    def __init__(self, e, f):
        self.e, self.f = e, f
        st = e.t.to if isinstance(e.t, Ptr) else e.t
        self.st = st
        self.t = st.ft[f]

    def s(self):
        return '%s.%s' % (place(self.e, P_CALL), self.f)

    def addr(self, m):
        if isinstance(self.e.t, Ptr):
            return self.e.ev(m) + self.st.off[self.f]
        return self.e.addr(m) + self.st.off[self.f]

    def ev(self, m):
        if is_lv(self):
            return m.load(self.t, self.addr(m))
        v = self.e.ev(m)
        o = self.st.off[self.f]
        return decode(self.t, v[o:o + self.t.size])


def is_lv(e):
    """Whether e designates memory of the program (and not a temporary)."""
    if isinstance(e, (Var, Deref)):
        return True
    if isinstance(e, (Field, Index)):
        return isinstance(e.e.t, Ptr) or is_lv(e.e)
    if isinstance(e, Paren):
        return False
    return False


class Index(E):
    prec = P_IDX

    def __init__(self, e, i):
        self.e, self.i = e, i
        self.t = e.t.to if isinstance(e.t, Ptr) else e.t.el

    def s(self):
        return '%s[%s]' % (place(self.e, P_CALL), self.i.s())

    def addr(self, m):
        b = self.e.ev(m) if isinstance(self.e.t, Ptr) else self.e.addr(m)
        i = self.i.ev(m)
        if isinstance(self.e.t, Arr) and not 0 <= i < self.e.t.n:
            raise UB('index')
        p = b + i * self.t.size
        if p < 0 or p >> 32 != b >> 32:
            raise UB('index')
        return p

    def ev(self, m):
        if is_lv(self):
            return m.load(self.t, self.addr(m))
        # an element of a temporary
        v = self.e.ev(m)
        i = self.i.ev(m)
        if not 0 <= i < self.e.t.n:
            raise UB('index')
        o = i * self.t.size
        return decode(self.t, v[o:o + self.t.size])


class Deref(E):
    prec = P_PRE

    def __init__(self, e):
        self.e = e
        self.t = e.t.to

    def s(self):
        return '*' + self.e.at(P_PRE)

    def addr(self, m):
        return self.e.ev(m)

    def ev(self, m):
        return m.load(self.t, self.addr(m))


class Addr(E):
    prec = P_PRE

    def __init__(self, e):
        self.e = e
        self.t = Ptr(e.t)

    def s(self):
        x = place(self.e, P_PRE)
        return '&' + ('(' + x + ')' if x[0] == '&' else x)

    def ev(self, m):
        if is_lv(self.e):
            return self.e.addr(m)
        v = self.e.ev(m)
        p = m.local(self.e.t.size)
        m.store(self.e.t, p, v)
        return p


class StructLit(E):
    def __init__(self, st, vals):
        self.t, self.vals = st, vals  # list of (name, E)

    def s(self):
        return '@%s{%s}' % (self.t.src(), ', '.join('%s: %s' % (n, e.s()) for n, e in self.vals))

    def ev(self, m):
        bs = [None] * self.t.size
        for n, e in self.vals:
            o = self.t.off[n]
            ft = self.t.ft[n]
            v = union_value(ft, e, m)
            bs[o:o + len(v)] = v
        return tuple(bs)


def union_value(ft, e, m):
    """Bytes that store e's value in a place of type ft (a union takes a
    value of one of its members)."""
    if isinstance(ft, Union) and e.t != ft:
        b = encode(e.t, e.ev(m))
        return b + [None] * (ft.size - len(b))
    return encode(ft, e.ev(m))


class ArrLit(E):
    def __init__(self, t, vals):
        self.t, self.vals = t, vals

    def s(self):
        return '%s{%s}' % (self.t.src(), ', '.join(e.s() for e in self.vals))

    def ev(self, m):
        bs = [None] * self.t.size
        es = self.t.el.size
        for i, e in enumerate(self.vals):
            v = union_value(self.t.el, e, m)
            bs[i * es:i * es + len(v)] = v
        return tuple(bs)


class Null(E):
    prec = P_AS

    def __init__(self, t):
        self.t = t

    def s(self):
        return '0 as ' + self.t.src()

    def ev(self, m):
        return 0


class SizeOf(E):
    t = I32

    def __init__(self, of):
        self.of = of

    def s(self):
        return '@sizeof(%s)' % self.of.src()

    def ev(self, m):
        return self.of.size


class Alloc(E):
    def __init__(self, of, n):
        self.of, self.n, self.t = of, n, Ptr(of)

    def s(self):
        return '@alloc(%s, %s)' % (self.of.src(), self.n.s())

    def ev(self, m):
        return m.mem.alloc(self.of.size * self.n.ev(m))


class Realloc(E):
    def __init__(self, p, n):
        self.p, self.n, self.t = p, n, p.t

    def s(self):
        return '@realloc(%s, %s)' % (self.p.s(), self.n.s())

    def ev(self, m):
        old = self.p.ev(m)
        n = self.n.ev(m) * self.t.to.size
        data = m.mem.get(old, min(n, len(m.mem.blocks[old >> 32])))
        m.mem.free(old)
        p = m.mem.alloc(n)
        m.mem.put(p, data)
        return p


class IncDec(E):
    """++x / --x: stores and yields the new value."""
    prec = P_PRE

    def __init__(self, op, e):
        self.op, self.e, self.t = op, e, e.t

    def s(self):
        return self.op + place(self.e, P_PRE)

    def ev(self, m):
        a = self.e.addr(m)
        v = arith('+' if self.op == '++' else '-', self.t, m.load(self.t, a), 1)
        m.store(self.t, a, v)
        return v


class FnRef(E):
    def __init__(self, fn):
        self.fn = fn
        self.t = fn.type()

    def s(self):
        return self.fn.name

    def ev(self, m):
        return m.fn_handle(self.fn)


class Call(E):
    """A call of a known function (Func) or of a function value (E)."""
    prec = P_CALL

    def __init__(self, fn, args, src=None):
        self.fn, self.args, self.src = fn, args, src
        ft = fn.type() if isinstance(fn, Func) else fn.t
        self.rets = ft.rets
        self.t = ft.rets[0] if len(ft.rets) == 1 else VOID

    def s(self):
        if self.src:
            return self.src()
        f = self.fn.name if isinstance(self.fn, Func) else place(self.fn, P_CALL)
        return '%s(%s)' % (f, ', '.join(a.s() for a in self.args))

    def multi(self, m):
        fn = self.fn if isinstance(self.fn, Func) else m.fn_of(self.fn.ev(m))
        ft = self.fn.type() if isinstance(self.fn, Func) else self.fn.t
        vals = [encode(pt, a.ev(m)) if not isinstance(pt, Union) else union_value(pt, a, m)
                for pt, a in zip(ft.params, self.args)]
        return m.call(fn, [decode(pt, b) for pt, b in zip(ft.params, vals)])

    def ev(self, m):
        r = self.multi(m)
        return r[0] if r else None


class Method(Call):
    """x.f(y): the same as f(x, y)."""
    prec = P_CALL

    def s(self):
        return '%s.%s(%s)' % (place(self.args[0], P_IDX), self.fn.name, ', '.join(a.s() for a in self.args[1:]))


class Lambda(E):
    """An anonymous function. Its captured variables are copies with static
    storage, written every time the expression is evaluated."""
    prec = P_ATOM

    def __init__(self, fn):
        self.fn = fn
        self.t = fn.type()
        self.caps = fn.captures  # list of (name, type)

    def s(self):
        return self.fn.lambda_src()

    def ev(self, m):
        st = m.statics.get(id(self))
        if st is None:
            st = m.statics[id(self)] = (m.closure(self.fn, {n: m.mem.alloc(t.size) for n, t in self.caps}))
        for n, t in self.caps:
            m.mem.put(m.fns[st][1][n], m.mem.get(m.lookup(n), t.size))
        return st


class BlockExpr(E):
    prec = P_ATOM

    def __init__(self, t, body):
        self.t, self.body = t, body

    def s(self):
        return ':%s {\n%s}' % (self.t.src(), block_src(self.body, 2))

    def ev(self, m):
        try:
            m.block(self.body)
        except _Return as r:
            return r.vals[0]
        raise UB('block expression without value')


# ---------------------------------------------------------------- statements
class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, vals):
        self.vals = vals


class S:
    pass


def block_src(stmts, ind):
    return ''.join(st.s(ind) for st in stmts)


def pad(ind):
    return '  ' * ind


class Decl(S):
    def __init__(self, name, t, e, typed=False):
        self.name, self.t, self.e, self.typed = name, t, e, typed

    def line(self):
        if self.typed:
            return '%s : %s = %s' % (self.name, self.t.src(), self.e.s())
        return '%s := %s' % (self.name, self.e.s())

    def s(self, ind):
        return '%s%s;\n' % (pad(ind), self.line())

    def run(self, m):
        b = union_value(self.t, self.e, m)
        m.declare(self.name, self.t, b)


class ConstDecl(Decl):
    def line(self):
        return 'const ' + Decl.line(self)


class MultiDecl(S):
    def __init__(self, names, ts, es):
        self.names, self.ts, self.es = names, ts, es

    def s(self, ind):
        return '%s%s := %s;\n' % (pad(ind), ', '.join(self.names), ', '.join(e.s() for e in self.es))

    def run(self, m):
        if len(self.es) == 1 and len(self.names) > 1:
            vals = self.es[0].multi(m)
        else:
            vals = [e.ev(m) for e in self.es]
        for n, t, v in zip(self.names, self.ts, vals):
            m.declare(n, t, encode(t, v))


class Assign(S):
    def __init__(self, l, e):
        self.l, self.e = l, e

    def line(self):
        return '%s = %s' % (place(self.l), self.e.s())

    def s(self, ind):
        return '%s%s;\n' % (pad(ind), self.line())

    def run(self, m):
        a = self.l.addr(m)
        m.mem.put(a, union_value(self.l.t, self.e, m))


class MultiAssign(S):
    def __init__(self, ls, es):
        self.ls, self.es = ls, es

    def s(self, ind):
        return '%s%s = %s;\n' % (pad(ind), ', '.join(place(l) for l in self.ls), ', '.join(e.s() for e in self.es))

    def run(self, m):
        # places, then values, then the stores
        addrs = [l.addr(m) for l in self.ls]
        if len(self.es) == 1 and len(self.ls) > 1:
            vals = self.es[0].multi(m)
        else:
            vals = [e.ev(m) for e in self.es]
        for l, v, a in zip(self.ls, vals, addrs):
            m.store(l.t, a, v)


class ExprS(S):
    def __init__(self, e):
        self.e = e

    def line(self):
        return place(self.e)

    def s(self, ind):
        return '%s%s;\n' % (pad(ind), place(self.e))

    def run(self, m):
        if isinstance(self.e, Call):
            self.e.multi(m)
        else:
            self.e.ev(m)


class Free(S):
    def __init__(self, e):
        self.e = e

    def s(self, ind):
        return '%s@free(%s);\n' % (pad(ind), self.e.s())

    def run(self, m):
        m.mem.free(self.e.ev(m))


class Print(S):
    def __init__(self, *es):
        self.es = [Str(e) if isinstance(e, str) else e for e in es]

    def s(self, ind):
        return '%s@print(%s);\n' % (pad(ind), ', '.join(e.s() for e in self.es))

    def run(self, m):
        m.out.append(b' '.join([fmt(m, e.t, e.ev(m)) for e in self.es]))


def fmt(m, t, v):
    if isinstance(t, Int):
        return str(v).encode()
    if isinstance(t, Flt):
        if math.isnan(v):
            raise UB('its sign is not defined')
        return ('%.3f' % v).encode()
    if t == STR:
        out = bytearray()
        while True:
            b = m.mem.get(v, 1)[0]
            if b is None:
                raise UB('string')
            if not b:
                return bytes(out)
            out.append(b)
            v += 1
    if isinstance(t, (Struct, Union)):
        return t.name.encode()
    raise AssertionError('print ' + repr(t))


class If(S):
    """clauses: [(cond, body)], other: body or None"""

    def __init__(self, clauses, other=None, braces=True):
        self.clauses, self.other, self.braces = clauses, other, braces

    def s(self, ind):
        o = ''
        for i, (c, b) in enumerate(self.clauses):
            kw = pad(ind) + 'if' if i == 0 else ' else if'
            o += '%s %s {\n%s%s}' % (kw, c.s(), block_src(b, ind + 1), pad(ind))
        if self.other is not None:
            o += ' else {\n%s%s}' % (block_src(self.other, ind + 1), pad(ind))
        return o + '\n'

    def run(self, m):
        for c, b in self.clauses:
            if c.ev(m):
                return m.block(b)
        if self.other is not None:
            m.block(self.other)


class Block(S):
    def __init__(self, body):
        self.body = body

    def s(self, ind):
        return '%s{\n%s%s}\n' % (pad(ind), block_src(self.body, ind + 1), pad(ind))

    def run(self, m):
        m.block(self.body)


class For(S):
    def __init__(self, body, cond=None, init=None, step=None):
        self.body, self.cond, self.init, self.step = body, cond, init, step

    def s(self, ind):
        if self.init is not None:
            h = 'for %s; %s; %s ' % (self.init.line(), self.cond.s(), self.step.line())
        elif self.cond is not None:
            h = 'for %s ' % self.cond.s()
        else:
            h = 'for '
        return '%s%s{\n%s%s}\n' % (pad(ind), h, block_src(self.body, ind + 1), pad(ind))

    def run(self, m):
        m.push()
        try:
            if self.init is not None:
                self.init.run(m)
            while True:
                m.tick()
                if self.cond is not None and not self.cond.ev(m):
                    break
                # (break and continue in the header concern the loop around this one)
                try:
                    m.block(self.body)
                except _Continue:
                    pass
                except _Break:
                    break
                if self.step is not None:
                    self.step.run(m)
        finally:
            m.pop()


class Switch(S):
    def __init__(self, e, cases, default=None):
        self.e, self.cases, self.default = e, cases, default

    def s(self, ind):
        o = '%sswitch %s {\n' % (pad(ind), self.e.s())
        for k, b in self.cases:
            o += '%scase %s {\n%s%s}\n' % (pad(ind + 1), k.s(), block_src(b, ind + 2), pad(ind + 1))
        if self.default is not None:
            o += '%sdefault {\n%s%s}\n' % (pad(ind + 1), block_src(self.default, ind + 2), pad(ind + 1))
        return o + pad(ind) + '}\n'

    def run(self, m):
        v = self.e.ev(m)
        for k, b in self.cases:
            if k.ev(m) == v:
                return m.block(b)
        if self.default is not None:
            m.block(self.default)


class Break(S):
    def s(self, ind):
        return pad(ind) + 'break;\n'

    def run(self, m):
        raise _Break()


class Continue(S):
    def s(self, ind):
        return pad(ind) + 'continue;\n'

    def run(self, m):
        raise _Continue()


class Return(S):
    def __init__(self, *es):
        self.es = es

    def s(self, ind):
        return '%sreturn%s;\n' % (pad(ind), (' ' + ', '.join(e.s() for e in self.es)) if self.es else '')

    def run(self, m):
        raise _Return([e.ev(m) for e in self.es])


class Text(S):
    """Source text without effect for the model."""

    def __init__(self, txt, fn=None):
        self.txt, self.fn = txt, fn

    def s(self, ind):
        return pad(ind) + self.txt + '\n'

    def run(self, m):
        if self.fn:
            self.fn(m)


# ---------------------------------------------------------------- functions
class Func:
    def __init__(self, name, params, rets, body, captures=()):
        self.name, self.params, self.rets, self.body = name, list(params), list(rets), body
        self.captures = list(captures)

    def type(self):
        return Fn([t for _, t in self.params], self.rets)

    def _sig(self):
        r = ', '.join(r.src() for r in self.rets) if self.rets else 'void'
        return '(%s) %s' % (', '.join('%s %s' % (n, t.src()) for n, t in self.params), r)

    def src(self, kw='func'):
        return '%s %s%s {\n%s}\n' % (kw, self.name, self._sig(), block_src(self.body, 1))

    def lambda_src(self):
        return 'func%s {\n%s}' % (self._sig(), block_src(self.body, 2))


class Machine:
    def __init__(self, fuel=200000):
        self.mem = Mem()
        self.out = []
        self.globals = {}
        self.frames = []
        self.owned = []
        self.handles = {}
        self.statics = {}
        self.fns = {}
        self.fuel = fuel
        self.depth = 0
        self.cov = {}

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel('fuel')

    # scopes
    def push(self):
        self.frames[-1].append({})

    def pop(self):
        self.frames[-1].pop()

    def lookup(self, name):
        if self.frames:
            for sc in reversed(self.frames[-1]):
                if name in sc:
                    return sc[name]
        return self.globals[name]

    def local(self, n):
        """Memory that lives as long as the current call."""
        p = self.mem.alloc(n)
        if self.frames:
            self.owned[-1].append(p >> 32)
        return p

    def declare(self, name, t, bs):
        p = self.local(t.size)
        self.mem.put(p, bs)
        (self.frames[-1][-1] if self.frames else self.globals)[name] = p

    def load(self, t, p):
        return decode(t, self.mem.get(p, t.size))

    def store(self, t, p, v):
        self.mem.put(p, encode(t, v))

    def block(self, stmts):
        self.push()
        try:
            for st in stmts:
                self.tick()
                st.run(self)
        finally:
            self.pop()

    # functions
    def fn_handle(self, fn):
        k = self.handles.get(id(fn))
        if k is None:
            k = (0x7000 + len(self.fns)) << 32
            self.handles[id(fn)] = k
            self.fns[k] = (fn, None)
        return k

    def closure(self, fn, env):
        k = (0x7000 + len(self.fns)) << 32
        self.fns[k] = (fn, env)
        return k

    def fn_of(self, h):
        if h not in self.fns:
            raise UB('function value')
        return self.fns[h]

    def call(self, fn, vals):
        env = None
        if isinstance(fn, tuple):
            fn, env = fn
        self.depth += 1
        self.tick()
        if self.depth > 150:
            raise Fuel('depth')
        self.frames.append([dict(env or {})])
        self.owned.append([])
        try:
            for (n, t), v in zip(fn.params, vals):
                self.declare(n, t, encode(t, v))
            try:
                self.block(fn.body)
            except _Return as r:
                # by value: aggregates are copied as bytes
                return r.vals
            if fn.rets:
                raise UB('no return')
            return []
        finally:
            self.frames.pop()
            for b in self.owned.pop():
                del self.mem.blocks[b]
            self.depth -= 1


class Case:
    """One test case: declarations, and a function that prints."""

    def __init__(self, decls, entry, globals_=(), meta=None):
        self.decls = decls        # list of objects with .decl() or .src(), or str
        self.entry = entry        # Func without parameters or results
        self.globals = list(globals_)   # Decl
        self.meta = meta or {}
        self.expect = None

    def interpret(self, fuel=200000):
        m = Machine(fuel)
        for g in self.globals:
            if not isinstance(g, ConstDecl):
                g.run(m)
            elif not isinstance(g.e, Const):
                g.run(m)
        m.call(self.entry, [])
        self.expect = b''.join(m.out)
        self.machine = m
        return self.expect

    def src(self):
        o = ''
        for g in self.globals:
            o += g.s(0)
        for d in self.decls:
            if isinstance(d, str):
                o += d
            elif isinstance(d, Func):
                o += d.src()
            else:
                o += d.decl()
        o += self.entry.src()
        return o
