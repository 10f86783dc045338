"""Proxy values: SBool, SInt, SStr, SBytes."""
import z3
from .core import C, CS, pred_cs, PathAbort, EngineError, TRUE

W_CH = 21
ALLCH = CS([(0, 0x10FFFF)])


def bv(v, w):
    return z3.BitVecVal(v, w)


# ---------------------------------------------------------------------------------- bool
class SBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C().branch(self.e)

    def __eq__(self, o):
        if isinstance(o, SBool):
            return mkbool(self.e == o.e)
        if o is True or o is False or (isinstance(o, int) and o in (0, 1)):
            return mkbool(self.e if o else z3.Not(self.e))
        if isinstance(o, int):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __and__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.And(self.e, bexpr(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Or(self.e, bexpr(o)))
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(z3.Xor(self.e, bexpr(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    def toint(self):
        return mkint(z3.If(self.e, bv(1, 2), bv(0, 2)), 0, 1)

    def __add__(self, o): return self.toint() + o
    def __radd__(self, o): return o + self.toint()
    def __sub__(self, o): return self.toint() - o
    def __rsub__(self, o): return o - self.toint()
    def __mul__(self, o): return self.toint() * o
    __rmul__ = __mul__
    def __index__(self): return int(bool(self))
    def __repr__(self): return str(bool(self))
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self


def bexpr(b):
    if isinstance(b, SBool):
        return b.e
    return z3.BoolVal(bool(b))


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def snot(b):
    if isinstance(b, SCmp):
        return SCmp(b.op, b.c, b.ts, not b.neg)
    if isinstance(b, SBool):
        return mkbool(z3.Not(b.e))
    return not b


def sand(*bs):
    es = []
    for b in bs:
        if isinstance(b, SBool):
            es.append(b.e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(*es)) if len(es) > 1 else mkbool(es[0])


def sor(*bs):
    es = []
    for b in bs:
        if isinstance(b, SBool):
            es.append(b.e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(*es)) if len(es) > 1 else mkbool(es[0])


def ite(c, a, b):
    """value-level if-then-else for ints"""
    if not isinstance(c, SBool):
        return a if c else b
    A, B = SInt.of(a), SInt.of(b)
    lo, hi = min(A.lo, B.lo), max(A.hi, B.hi)
    w = width(lo, hi)
    return mkint(z3.If(c.e, A.ext(w), B.ext(w)), lo, hi)


# ---------------------------------------------------------------------------------- int
def width(lo, hi):
    lo, hi = int(lo), int(hi)
    return max((~lo if lo < 0 else lo).bit_length(), (~hi if hi < 0 else hi).bit_length()) + 1


def mkint(e, lo, hi):
    """e: signed bit-vector of any width >= width(lo,hi)"""
    if lo == hi:
        return lo
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    w = width(lo, hi)
    if e.size() > w:
        e = z3.simplify(z3.Extract(w - 1, 0, e))
        if z3.is_bv_value(e):
            return e.as_signed_long()
    elif e.size() < w:
        raise EngineError('width')
    return SInt(e, lo, hi)


class SFrac:
    """a / b of integers, kept exact; only rounding functions may consume it"""
    def __init__(self, n, d):
        self.n, self.d = n, d

    def ceil(self):
        return -((-self.n) // self.d)

    def floor(self):
        return self.n // self.d

    def _cmp(self, o, op):
        # d > 0
        if isinstance(o, SFrac):
            return op(self.n * o.d, o.n * self.d)
        if isinstance(o, float):
            if o != int(o):
                raise PathAbort('float comparison')
            o = int(o)
        return op(self.n, o * self.d)

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)
    def __bool__(self): return bool(self.n != 0)
    def __ceil__(self): return self.ceil()
    def __floor__(self): return self.floor()

    def __int__(self):
        raise PathAbort('int(frac)')
    __hash__ = None


class SCmp(SBool):
    """comparison of a linear form with zero: const + sum(coeff * atom) (< | ==) 0"""
    __slots__ = ('op', 'c', 'ts', 'neg', '_x')

    def __init__(self, op, c, ts, neg=False):
        self.op, self.c, self.ts, self.neg = op, c, ts, neg
        self._x = None

    @staticmethod
    def decide(op, lo, hi):
        if op == '<':
            return True if hi < 0 else False if lo >= 0 else None
        return True if lo == hi == 0 else False if (hi < 0 or lo > 0) else None

    @staticmethod
    def make(op, c, ts):
        lo, hi = lin_bounds(c, ts)
        r = SCmp.decide(op, lo, hi)
        if r is not None:
            return r
        if len(ts) == 1:
            (k, x), = ts.values()
            if op == '==' and c % k:
                return False
        return SCmp(op, c, ts)

    @property
    def e(self):
        if self._x is None:
            # one canonical form per comparison, so that equal questions are recognised
            d = lin_int(self.c, self.ts, raw=True)
            if isinstance(d, int):
                self._x = z3.BoolVal((d < 0) if self.op == '<' else d == 0)
            else:
                w = d.e.size()
                self._x = z3.simplify(d.e < bv(0, w) if self.op == '<' else d.e == bv(0, w))
            if self.neg:
                self._x = z3.simplify(z3.Not(self._x))
        return self._x

    def __bool__(self):
        lo, hi = lin_bounds(self.c, self.ts)
        r = self.decide(self.op, lo, hi)
        if r is None:
            r = C().branch(self.e) != self.neg
            self.learn(r)
        return r != self.neg

    def learn(self, r):
        """narrow the interval of a single atom (r: the un-negated comparison)"""
        if len(self.ts) != 1:
            return
        bnd = C().bnd
        (k, x), = self.ts.values()
        i = x.e.get_id()
        C().keep.append(x)
        lo, hi = bnd.get(i, (x.lo, x.hi))
        c = self.c
        if self.op == '<':
            if k < 0:
                v = c // -k             # k*x + c < 0  <=>  x > c/(-k)
                lo, hi = (max(lo, v + 1), hi) if r else (lo, min(hi, v))
            else:
                v = -(c // k)           # ceil(-c/k)
                lo, hi = (lo, min(hi, v - 1)) if r else (max(lo, v), hi)
        else:
            v = -c // k
            if r:
                lo = hi = v
            elif v == lo:
                lo += 1
            elif v == hi:
                hi -= 1
        bnd[i] = (lo, hi)


def lin_bounds(c, ts):
    lo = hi = c
    bnd = C().bnd
    for i, (k, x) in ts.items():
        a, b = bnd.get(i, (x.lo, x.hi))
        if k > 0:
            lo += k * a
            hi += k * b
        else:
            lo += k * b
            hi += k * a
    return lo, hi


def lin_of(x):
    if isinstance(x, SInt):
        if x.lin is not None:
            return x.lin
        return 0, {x.e.get_id(): (1, x)}
    if isinstance(x, SBool):
        return lin_of(x.toint())
    return int(x), {}


def lin_add(a, b, m=1):
    c = a[0] + m * b[0]
    if not b[1]:
        return c, a[1]
    ts = dict(a[1])
    for i, (k, x) in b[1].items():
        o = ts.get(i)
        k = k * m + (o[0] if o else 0)
        if k:
            ts[i] = (k, x)
        else:
            ts.pop(i, None)
    return c, ts


def lin_int(c, ts, raw=False):
    """SInt | int for a linear form"""
    if not ts:
        return c
    if not raw:
        bnd = C().bnd
        if bnd:
            fix = [i for i in ts if i in bnd and bnd[i][0] == bnd[i][1]]
            if fix:
                ts = dict(ts)
                for i in fix:
                    c += ts.pop(i)[0] * bnd[i][0]
                if not ts:
                    return c
    if c == 0 and len(ts) == 1:
        (k, x), = ts.values()
        if k == 1:
            return x
    lo, hi = lin_bounds(c, ts)
    if lo == hi and not raw:
        return lo
    return SInt(None, lo, hi, (c, ts))


class SInt:
    """a mathematical integer: linear form over bit-vector atoms, with an interval"""
    __slots__ = ('_e', 'lo', 'hi', 'lin')

    def __init__(self, e, lo, hi, lin=None):
        self._e, self.lo, self.hi, self.lin = e, lo, hi, lin

    @property
    def e(self):
        if self._e is None:
            c, ts = self.lin
            w = width(self.lo, self.hi)
            acc = None
            for i in sorted(ts):
                k, x = ts[i]
                y = x.ext(w)
                if k != 1:
                    y = y * bv(k, w)
                acc = y if acc is None else acc + y
            if c:
                acc = acc + bv(c, w)
            self._e = z3.simplify(acc)
        return self._e

    @staticmethod
    def var(name, lo, hi):
        if lo == hi:
            return lo
        w = width(lo, hi)
        e = C().bv_var(name, w)
        C().assume(z3.And(e >= bv(lo, w), e <= bv(hi, w)))
        return SInt(e, lo, hi)

    @staticmethod
    def of(x):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            r = x.toint()
            return r if isinstance(r, SInt) else SInt.of(r)
        if isinstance(x, int):
            x = int(x)
            return SInt(bv(x, width(x, x)), x, x, (x, {}))
        raise TypeError(type(x))

    def ext(self, w):
        s = self.e.size()
        if s == w:
            return self.e
        if s > w:
            return z3.Extract(w - 1, 0, self.e)
        return z3.SignExt(w - s, self.e)

    @staticmethod
    def _ok(o):
        return isinstance(o, (int, SInt, SBool))

    def now(self):
        """interval on the current path"""
        c, ts = lin_of(self)
        lo, hi = lin_bounds(c, ts)
        return max(lo, self.lo), min(hi, self.hi)

    def __add__(self, o):
        if not self._ok(o):
            return NotImplemented
        return lin_int(*lin_add(lin_of(self), lin_of(o)))
    __radd__ = __add__

    def __sub__(self, o):
        if not self._ok(o):
            return NotImplemented
        return lin_int(*lin_add(lin_of(self), lin_of(o), -1))

    def __rsub__(self, o):
        if not self._ok(o):
            return NotImplemented
        return lin_int(*lin_add(lin_of(o), lin_of(self), -1))

    def __mul__(self, o):
        if not self._ok(o):
            if isinstance(o, bytes):
                return brepeat(o, self)
            if isinstance(o, (str, list, tuple)):
                return o * self.__index__()
            return NotImplemented
        if isinstance(o, (int, bool)):
            o = int(o)
            if o == 0:
                return 0
            c, ts = lin_of(self)
            return lin_int(c * o, {i: (k * o, x) for i, (k, x) in ts.items()})
        a, b = self, SInt.of(o)
        p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(p), max(p)
        w = max(width(lo, hi), a.e.size(), b.e.size())
        return mkint(a.ext(w) * b.ext(w), lo, hi)
    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    @staticmethod
    def _divmod(a, b):
        if isinstance(b, SInt):
            if b.lo <= 0 <= b.hi and b == 0:
                raise ZeroDivisionError('integer division or modulo by zero')
        elif b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        A, B = SInt.of(a), SInt.of(b)
        alo, ahi = A.now()
        blo, bhi = B.now()
        m = max(abs(alo), abs(ahi)) + 1
        w = max(width(-m, m), A.e.size(), B.e.size()) + 1
        x, y = A.ext(w), B.ext(w)
        bl = blo if blo != 0 else 1
        if alo >= 0 and bl > 0:
            if ahi < bl:
                return 0, a
            q, r = z3.UDiv(x, y), z3.URem(x, y)
            return (mkint(q, 0, ahi // bl), mkint(r, 0, min(ahi, bhi - 1) if bhi > 0 else 0))
        if bl > 0:
            # floor division by a positive divisor
            neg = x < 0
            q = z3.If(neg, -z3.UDiv(-x + y - 1, y), z3.UDiv(x, y))
            r = x - q * y
            return mkint(q, -m, m), mkint(r, 0, bhi - 1)
        raise PathAbort('division by negative symbolic')

    def __floordiv__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._divmod(self, o)[0]

    def __rfloordiv__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._divmod(o, self)[0]

    def __mod__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._divmod(self, o)[1]

    def __rmod__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._divmod(o, self)[1]

    def __divmod__(self, o):
        return self._divmod(self, o)

    def __rdivmod__(self, o):
        return self._divmod(o, self)

    def __truediv__(self, o):
        if isinstance(o, (int, SInt)):
            if o == 0:
                raise ZeroDivisionError('division by zero')
            if o < 0:
                return SFrac(-self, -o)
            return SFrac(self, o)
        return NotImplemented

    def __rtruediv__(self, o):
        if isinstance(o, int):
            return SInt.of(o).__truediv__(self)
        return NotImplemented

    def _bits(self, o, f):
        b = SInt.of(o)
        w = max(self.e.size(), b.e.size())
        if self.lo >= 0 and b.lo >= 0:
            hi = (1 << (max(self.hi, b.hi).bit_length())) - 1
            return mkint(f(self.ext(w + 1), b.ext(w + 1)), 0, hi)
        return mkint(f(self.ext(w), b.ext(w)), -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def __and__(self, o):
        if not self._ok(o):
            return NotImplemented
        if isinstance(o, int) and o >= 0:
            w = max(self.e.size(), width(o, o))
            return mkint(self.ext(w) & bv(o, w), 0, o)
        return self._bits(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._bits(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        if not self._ok(o):
            return NotImplemented
        return self._bits(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        if isinstance(o, SInt):
            o = o.__index__()
        return self * (1 << o)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, SInt):
            o = o.__index__()
        return self // (1 << o)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o < 8 and m is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return pow(self.__index__(), o, m)

    def __lt__(self, o):
        if isinstance(o, SFrac):
            return o > self
        if not self._ok(o):
            if isinstance(o, float):
                return self < __import__('math').ceil(o)
            return NotImplemented
        return SCmp.make('<', *lin_add(lin_of(self), lin_of(o), -1))

    def __ge__(self, o):
        r = self.__lt__(o)
        return r if r is NotImplemented else snot(r)

    def __gt__(self, o):
        if isinstance(o, SFrac):
            return o < self
        if not self._ok(o):
            if isinstance(o, float):
                return self > __import__('math').floor(o)
            return NotImplemented
        return SCmp.make('<', *lin_add(lin_of(o), lin_of(self), -1))

    def __le__(self, o):
        r = self.__gt__(o)
        return r if r is NotImplemented else snot(r)

    def __eq__(self, o):
        if not self._ok(o):
            if isinstance(o, float):
                return self == int(o) if o == int(o) else False
            return False if not isinstance(o, SFrac) else NotImplemented
        return SCmp.make('==', *lin_add(lin_of(self), lin_of(o), -1))

    def __ne__(self, o):
        return snot(self.__eq__(o))

    def __bool__(self):
        r = self != 0
        return r if isinstance(r, bool) else bool(r)

    def __index__(self):
        lo, hi = self.now()
        if lo == hi:
            return lo
        v = C().concretize_bv(self.e, 'int', limit=2048)
        c, ts = lin_of(self)
        SCmp('==', c - v, ts).learn(True)
        return v

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __repr__(self):
        return '<SInt>'

    def __format__(self, spec):
        return '<SInt>'

    def __str__(self):
        return '<SInt>'

    def bit_length(self):
        return self.__index__().bit_length()

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __ceil__(self): return self
    def __floor__(self): return self
    def __trunc__(self): return self
    def __round__(self, n=None): return self


def smin(a, b):
    c = a <= b
    if isinstance(c, bool):
        return a if c else b
    return a if c else b      # forks: keeps expressions small


# ---------------------------------------------------------------------------------- str
def ch_eq(a, b):
    """decided equality of two char items -> bool or z3 expr"""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    ctx = C()
    a = ctx.fixed(a)
    if not isinstance(b, int):
        b = ctx.fixed(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        d = ctx.dom.get(a.get_id())
        if d is not None and b not in d:
            return False
        if b >= (1 << a.size()):
            return False
        i = a.get_id()
        if i in ctx.hexchars and b not in HEXCS or i in ctx.__dict__.get('b64map', ()) and b not in B64CS:
            return False
        e = z3.simplify(a == bv(b, a.size()))
    else:
        if a.eq(b):
            return True
        da, db = ctx.dom.get(a.get_id()), ctx.dom.get(b.get_id())
        if da is not None and db is not None and not da.inter(db).r:
            return False
        w = max(a.size(), b.size())
        if a.size() < w:
            a = z3.ZeroExt(w - a.size(), a)
        if b.size() < w:
            b = z3.ZeroExt(w - b.size(), b)
        e = z3.simplify(a == b)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def items_eq(A, B):
    """equality of two item sequences of the same length -> bool | SBool"""
    es = []
    unary = None
    for a, b in zip(A, B):
        r = ch_eq(a, b)
        if r is False:
            return False
        if r is True:
            continue
        es.append(r)
        unary = (a, b)
    if not es:
        return True
    if len(es) == 1:
        a, b = unary
        if isinstance(a, int):
            a, b = b, a
        if isinstance(b, int):
            return SCharIs(a, b)
        return SBool(es[0])
    return SBool(z3.And(*es))


class SCharIs(SBool):
    """(char var == const): decided through the variable's domain"""
    __slots__ = ('v', 'k', 'cs', 'neg')

    def __init__(self, v, k, cs=None, neg=False):
        self.v, self.k = v, k
        self.cs = cs if cs is not None else CS(((k, k),))
        self.neg = neg
        self.e = z3.simplify(C().in_expr(v, self.cs))
        if neg:
            self.e = z3.Not(self.e)

    def __bool__(self):
        return C().branch_in(self.v, self.cs) != self.neg


B64CS = CS.chars('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/')
HEXCS = CS.chars('0123456789abcdefABCDEF')


def ch_in(c, cs):
    """bool | SBool"""
    if isinstance(c, int):
        return c in cs
    ctx = C()
    c = ctx.fixed(c)
    if isinstance(c, int):
        return c in cs
    d = ctx.dom.get(c.get_id())
    if d is not None:
        i = d.inter(cs)
        if not i.r:
            return False
        if i.r == d.r:
            return True
        return SCharIs(c, None, i)
    if c.get_id() in ctx.__dict__.get('b64map', ()):
        i = B64CS.inter(cs)
        if not i.r:
            return False
        if i.r == B64CS.r:
            return True
    if c.get_id() in ctx.hexchars:
        i = HEXCS.inter(cs)
        if not i.r:
            return False
        if i.r == HEXCS.r:
            return True
    return mkbool(ctx.in_expr(c, cs))


def snotb(b):
    if isinstance(b, SCharIs):
        return SCharIs(b.v, b.k, b.cs, not b.neg)
    return snot(b)


def char_items(s):
    if isinstance(s, SStr):
        return s.cs
    return tuple(map(ord, s))


def mkstr(cs):
    cs = tuple(cs)
    for c in cs:
        if not isinstance(c, int):
            ctx = C()
            cs = tuple(c if isinstance(c, int) else ctx.fixed(c) for c in cs)
            for c in cs:
                if not isinstance(c, int):
                    return SStr(cs)
            break
    return ''.join(map(chr, cs))


def is_str(x):
    return isinstance(x, (str, SStr))


def _unsup(name):
    def f(self, *a, **k):
        return getattr(self.concrete('str.' + name), name)(*a, **k)
    return f


WS = None


def ws_cs():
    return pred_cs('isspace', str.isspace)


LINEBREAKS = CS.chars('\n\x0b\x0c\r\x1c\x1d\x1e\x85\u2028\u2029')


class SStr:
    def __init__(self, cs):
        self._cs = cs

    @property
    def cs(self):
        return self._cs

    # ---- basic protocol
    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return len(self.cs) > 0

    def __iter__(self):
        for c in self.cs:
            yield mkstr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return mkstr(self.cs[i])
        return mkstr((self.cs[i],))

    def __add__(self, o):
        if is_str(o):
            return mkstr(self.cs + char_items(o))
        return NotImplemented

    def __radd__(self, o):
        if is_str(o):
            return mkstr(char_items(o) + self.cs)
        return NotImplemented

    def __mul__(self, n):
        return mkstr(self.cs * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, o):
        from .ops import mod_str
        return mod_str(self, o)

    def __eq__(self, o):
        if not is_str(o):
            return False
        B = char_items(o)
        if len(B) != len(self.cs):
            return False
        return items_eq(self.cs, B)

    def __ne__(self, o):
        return snotb(self.__eq__(o))

    def _lex(self, o):
        """-1/0/1 by forking"""
        A, B = self.cs, char_items(o)
        for a, b in zip(A, B):
            r = ch_eq(a, b)
            if r is not True and (r is False or not C().branch(r)):
                if isinstance(a, int) and isinstance(b, int):
                    return -1 if a < b else 1
                x = bv(a, W_CH) if isinstance(a, int) else a
                y = bv(b, W_CH) if isinstance(b, int) else b
                return -1 if C().branch(z3.ULT(x, y)) else 1
        return (len(A) > len(B)) - (len(A) < len(B))

    def __lt__(self, o): return self._lex(o) < 0 if is_str(o) else NotImplemented
    def __gt__(self, o): return self._lex(o) > 0 if is_str(o) else NotImplemented
    def __le__(self, o): return self._lex(o) <= 0 if is_str(o) else NotImplemented
    def __ge__(self, o): return self._lex(o) >= 0 if is_str(o) else NotImplemented

    def __hash__(self):
        return hash(self.concrete('hash'))

    def concrete(self, reason):
        """enumerate values by forking (bounded)"""
        out = []
        ctx = C()
        for c in self.cs:
            if not isinstance(c, int):
                c = ctx.fixed(c)
            if not isinstance(c, int):
                v = ctx.concretize_bv(c, reason, signed=False, limit=64)
                if c.get_id() in ctx.dom:
                    ctx.dom[c.get_id()] = CS(((v, v),))
                c = v
            out.append(chr(c))
        return ''.join(out)

    def __str__(self):
        return '<SStr %d>' % len(self.cs)

    def __repr__(self):
        return '<SStr %s>' % ''.join(chr(c) if isinstance(c, int) else '?' for c in self.cs)

    def __format__(self, spec):
        return '<SStr>'

    def __contains__(self, o):
        return self.find(o) >= 0

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    # ---- searching
    def _match_at(self, i, sub):
        n = len(sub)
        if i + n > len(self.cs):
            return False
        return bool(items_eq(self.cs[i:i + n], sub))

    def _range(self, start, end):
        n = len(self.cs)
        s, e, _ = slice(None if start is None else start.__index__(),
                        None if end is None else end.__index__()).indices(n)
        if start is not None and start.__index__() > n:
            return n + 1, n
        return s, e

    def find(self, sub, start=None, end=None):
        if not is_str(sub):
            raise TypeError('must be str')
        sub = char_items(sub)
        s, e = self._range(start, end)
        for i in range(s, e - len(sub) + 1):
            if self._match_at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = char_items(sub)
        s, e = self._range(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if self._match_at(i, sub):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        r = self.find(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, start=None, end=None):
        r = self.rfind(sub, start, end)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, start=None, end=None):
        sub = char_items(sub)
        s, e = self._range(start, end)
        if not sub:
            return max(e - s + 1, 0)
        n = 0
        i = s
        while i + len(sub) <= e:
            if self._match_at(i, sub):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def _affix(self, p, pre, start, end):
        s, e = self._range(start, end)
        if s > e:
            return False
        cs = self.cs[s:e]
        if isinstance(p, tuple):
            for x in p:
                if self._affix(x, pre, start, end):
                    return True
            return False
        if not is_str(p):
            raise TypeError('startswith first arg must be str or a tuple of str, not %s' % type(p).__name__)
        p = char_items(p)
        if len(p) > len(cs):
            return False
        if not p:
            return True
        return items_eq(cs[:len(p)] if pre else cs[len(cs) - len(p):], p)

    def startswith(self, p, start=None, end=None):
        return self._affix(p, True, start, end)

    def endswith(self, p, start=None, end=None):
        return self._affix(p, False, start, end)

    def removeprefix(self, p):
        return self[len(char_items(p)):] if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(char_items(p))
        return self[:len(self.cs) - n] if n and self.endswith(p) else self

    # ---- splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out = []
            cur = []
            ws = ws_cs()
            i = 0
            n = len(self.cs)
            while i < n:
                if bool(ch_in(self.cs[i], ws)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                elif not cur and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = mkstr(self.cs[i:])
                    out.append(rest.rstrip())
                    return out
                else:
                    cur.append(self.cs[i])
                i += 1
            if cur:
                out.append(mkstr(cur))
            return out
        sp = char_items(sep)
        if not sp:
            raise ValueError('empty separator')
        out = []
        i = j = 0
        n = len(self.cs)
        while i <= n - len(sp):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(i, sp):
                out.append(mkstr(self.cs[j:i]))
                i += len(sp)
                j = i
            else:
                i += 1
        out.append(mkstr(self.cs[j:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.concrete('rsplit').rsplit(sep, maxsplit)
        out = []
        sp = char_items(sep)
        end = len(self.cs)
        i = end - len(sp)
        while i >= 0 and len(out) < maxsplit:
            if self._match_at(i, sp):
                out.append(mkstr(self.cs[i + len(sp):end]))
                end = i
                i -= len(sp)
            else:
                i -= 1
        out.append(mkstr(self.cs[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        n = len(char_items(sep))
        return (self[:i], sep, self[i + n:])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        n = len(char_items(sep))
        return (self[:i], sep, self[i + n:])

    def splitlines(self, keepends=False):
        out = []
        j = i = 0
        n = len(self.cs)
        while i < n:
            if bool(ch_in(self.cs[i], LINEBREAKS)):
                e = i + 1
                if e < n and bool(ch_in(self.cs[i], CS.chars('\r'))) and bool(ch_in(self.cs[e], CS.chars('\n'))):
                    e += 1
                out.append(mkstr(self.cs[j:e if keepends else i]))
                i = j = e
            else:
                i += 1
        if j < n:
            out.append(mkstr(self.cs[j:]))
        return out

    # ---- trimming / padding
    def _strip(self, chars, left, right):
        cs = self.cs
        st = ws_cs() if chars is None else None
        if chars is not None and isinstance(chars, str):
            st = CS.chars(chars)
        i, j = 0, len(cs)

        def inside(c):
            if st is not None:
                return bool(ch_in(c, st))
            for x in char_items(chars):
                r = ch_eq(c, x)
                if r is True or (r is not False and C().branch(r)):
                    return True
            return False
        if left:
            while i < j and inside(cs[i]):
                i += 1
        if right:
            while j > i and inside(cs[j - 1]):
                j -= 1
        return mkstr(cs[i:j])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def ljust(self, n, fill=' '):
        return mkstr(self.cs + char_items(fill) * (n - len(self.cs)))

    def rjust(self, n, fill=' '):
        return mkstr(char_items(fill) * (n - len(self.cs)) + self.cs)

    def center(self, n, fill=' '):
        return getattr(self.concrete('center'), 'center')(n, fill)

    def zfill(self, n):
        if self.cs and bool(ch_in(self.cs[0], CS.chars('+-'))):
            return mkstr(self.cs[:1] + (48,) * (n - len(self.cs)) + self.cs[1:])
        return self.rjust(n, '0')

    # ---- replace / join
    def replace(self, old, new, count=-1):
        o, nw = char_items(old), char_items(new)
        out = []
        i = 0
        n = len(self.cs)
        done = 0
        if not o:
            if count < 0 or count > n + 1:
                count = n + 1
            for k in range(n + 1):
                if k < count:
                    out.extend(nw)
                if k < n:
                    out.append(self.cs[k])
            return mkstr(out)
        while i < n:
            if (count < 0 or done < count) and self._match_at(i, o):
                out.extend(nw)
                i += len(o)
                done += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def join(self, it):
        return join(self, it)

    def translate(self, table):
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.extend(map(ord, chr(c).translate(table)))
                continue
            for k in list(table):
                if bool(ch_in(c, CS(((k, k),)))):
                    v = table[k]
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(v)
                    else:
                        out.extend(char_items(v))
                    break
            else:
                out.append(c)
        return mkstr(out)

    # ---- case
    def _map(self, name):
        f = getattr(str, name)
        out = []
        ctx = C()
        for c in self.cs:
            if isinstance(c, int):
                out.extend(map(ord, f(chr(c))))
                continue
            h = ctx.hexchars.get(c.get_id())
            if h is not None and name in ('upper', 'lower', 'casefold'):
                out.append(hexchar(h[1], name == 'upper'))
                continue
            d = ctx.dom.get(c.get_id())
            if d is None:
                d = CS([(0, 0x10FFFF)])
            groups = case_groups(name)
            multi = d.inter(groups['multi'])
            if multi.r and bool(ch_in(c, multi)):
                v = ctx.concretize_bv(c, name, signed=False, limit=200)
                ctx.dom[c.get_id()] = CS(((v, v),)) if c.get_id() in ctx.dom else None
                out.extend(map(ord, f(chr(v))))
                continue
            e = c
            for delta, cs in groups['delta'].items():
                i = d.inter(cs)
                if i.r:
                    e = z3.If(ctx.in_expr(c, i), c + bv(delta % (1 << c.size()), c.size()), e)
            if e is not c:
                e = z3.simplify(e)
            out.append(e.as_long() if z3.is_bv_value(e) else e)
        return mkstr(out)

    def lower(self): return self._map('lower')
    def upper(self): return self._map('upper')
    def casefold(self): return self._map('casefold')
    def swapcase(self): return self._map('swapcase')

    def capitalize(self):
        if not self.cs:
            return self
        return mkstr(char_items(self[:1].upper()) + char_items(self[1:].lower()))

    def title(self):
        return self.concrete('title').title()

    # ---- predicates
    def _all(self, name):
        if not self.cs:
            return False
        cs = pred_cs(name, getattr(str, name))
        for c in self.cs:
            if not bool(ch_in(c, cs)):
                return False
        return True

    def isspace(self): return self._all('isspace')
    def isdigit(self): return self._all('isdigit')
    def isdecimal(self): return self._all('isdecimal')
    def isnumeric(self): return self._all('isnumeric')
    def isalpha(self): return self._all('isalpha')
    def isalnum(self): return self._all('isalnum')
    def isascii(self):
        return all(bool(ch_in(c, CS(((0, 127),)))) for c in self.cs)
    def isprintable(self):
        return all(bool(ch_in(c, pred_cs('isprintable', str.isprintable))) for c in self.cs)
    isupper = _unsup('isupper')
    islower = _unsup('islower')
    istitle = _unsup('istitle')
    isidentifier = _unsup('isidentifier')

    def expandtabs(self, n=8):
        return self.concrete('expandtabs').expandtabs(n)

    def encode(self, encoding='utf-8', errors='strict'):
        from .codec import encode
        return encode(self, encoding, errors)

    def format(self, *a, **k):
        from .ops import format_str
        return format_str(self, a, k)


_case = {}


def case_groups(name):
    if name not in _case:
        f = getattr(str, name)
        multi, delta = [], {}
        for i in range(0x110000):
            ch = chr(i)
            m = f(ch)
            if m == ch:
                continue
            if len(m) != 1:
                multi.append((i, i))
            else:
                delta.setdefault(ord(m) - i, []).append((i, i))
        _case[name] = {'multi': CS.norm(multi), 'delta': {k: CS.norm(v) for k, v in delta.items()}}
    return _case[name]


def join(sep, it):
    out = []
    sp = char_items(sep)
    first = True
    for i, x in enumerate(it):
        if not is_str(x):
            raise TypeError('sequence item %d: expected str instance, %s found' % (i, type(x).__name__))
        if not first:
            out.extend(sp)
        first = False
        out.extend(char_items(x))
    return mkstr(out)


def hexchar(nb, up):
    x = z3.ZeroExt(W_CH - 4, nb)
    c = z3.simplify(z3.If(z3.ULT(x, bv(10, W_CH)), x + bv(48, W_CH), x + bv(55 if up else 87, W_CH)))
    C().hexchars[c.get_id()] = (c, nb)
    return c


class LazyStr(SStr):
    """text of a symbolic integer: digits are only expanded when looked at"""

    def __init__(self, value, base=10, minwidth=0, upper=False, fill='0'):
        self.v, self.base, self.minw, self.up = value, base, minwidth, upper
        self._c = None

    def nibbles(self, n):
        v = self.v
        ctx = C()
        w = max(4 * n + 1, v.e.size())
        e = v.ext(w)
        out = []
        for i in range(n - 1, -1, -1):
            nb = z3.simplify(z3.Extract(4 * i + 3, 4 * i, e))
            if z3.is_bv_value(nb):
                k = nb.as_long()
                out.append(ord('0123456789abcdef'[k].upper() if self.up else '0123456789abcdef'[k]))
                continue
            out.append(hexchar(nb, self.up))
        from .ops import hex_key
        if v.lo >= 0:
            ctx.comp[hex_key(out)] = (v, out)
        return tuple(out)

    @property
    def cs(self):
        if self._c is None:
            v = self.v
            if self.base == 16:
                if v.lo < 0 and v < 0:
                    raise PathAbort('negative hex')
                n = 1
                while v.hi >= 16 ** n and v >= 16 ** n:
                    n += 1
                c = self.nibbles(n)
                self._c = (48,) * (self.minw - n) + c
            elif self.base == 10:
                neg = bool(v < 0) if v.lo < 0 else False
                a = -v if neg else v
                if isinstance(a, int):
                    self._c = tuple(map(ord, str(v if isinstance(v, int) else (-a if neg else a))))
                else:
                    n = 1
                    while a.hi >= 10 ** n and a >= 10 ** n:
                        n += 1
                    w = max(a.e.size(), width(0, 10 ** n)) + 1
                    e = a.ext(w)
                    out = []
                    for i in range(n - 1, -1, -1):
                        d = z3.URem(z3.UDiv(e, bv(10 ** i, w)), bv(10, w))
                        d = z3.simplify(z3.ZeroExt(max(0, W_CH - w), d) if w < W_CH else z3.Extract(W_CH - 1, 0, d))
                        d = z3.simplify(d + bv(48, W_CH))
                        out.append(d.as_long() if z3.is_bv_value(d) else d)
                    self._c = ((45,) if neg else ()) + tuple(out)
                    C().decimals = getattr(C(), 'decimals', {})
                    C().decimals[tuple(x if isinstance(x, int) else x.get_id() for x in self._c)] = (self._c, v)
            else:
                raise PathAbort('base')
        return self._c

    def _fixed(self, n):
        if self._c is None and self.base == 16 and self.v.lo >= 0 and self.minw <= n:
            if self.v.hi < 16 ** n or not (self.v >= 16 ** n):
                return mkstr(self.nibbles(n))
        return None

    def rjust(self, n, fill=' '):
        if fill == '0':
            r = self._fixed(n)
            if r is not None:
                return r
        return SStr.rjust(self, n, fill)

    def zfill(self, n):
        r = self._fixed(n)
        return r if r is not None else SStr.zfill(self, n)

    def __len__(self):
        return len(self.cs)

    def __repr__(self):
        return '<LazyStr>'


# ---------------------------------------------------------------------------------- bytes
class Opaque:
    """content of arbitrary (symbolic) length: an uninterpreted function of the index"""
    __slots__ = ('name', 'f', 'meta')

    def __init__(self, name, meta=None):
        self.name = name
        self.f = z3.Function(name, z3.BitVecSort(64), z3.BitVecSort(8))
        self.meta = meta

    def at(self, i):
        i = SInt.of(i)
        e = z3.simplify(self.f(i.ext(64)))
        return e


class Fill(Opaque):
    """one byte value repeated"""
    __slots__ = ('v',)
    made = {}

    def __init__(self, v):
        self.name, self.meta, self.v, self.f = 'fill%d' % v, None, v, None

    @classmethod
    def of(cls, v):
        if v not in cls.made:
            cls.made[v] = cls(v)
        return cls.made[v]

    def at(self, i):
        return bv(self.v, 8)


def brepeat(b, k):
    """b * k for a symbolic k"""
    if not b or k <= 0:
        return b''
    if len(set(b)) == 1:
        return mkbytes([Seg(Fill.of(b[0]), 0, k * len(b))])
    return b * k.__index__()


class Seg:
    __slots__ = ('o', 's', 'n')

    def __init__(self, o, s, n):
        self.o, self.s, self.n = o, s, n


def is_bytes(x):
    return isinstance(x, (bytes, bytearray, SBytes))


def mkbytes(segs):
    """segs: list of tuple(items) | Seg"""
    out = []
    for s in segs:
        if isinstance(s, Seg):
            if isinstance(s.n, int) and s.n == 0:
                continue
            if out and isinstance(out[-1], Seg) and out[-1].o is s.o and (
                    isinstance(s.o, Fill) or _same(out[-1].s + out[-1].n, s.s)):
                out[-1] = Seg(s.o, out[-1].s, out[-1].n + s.n)
                continue
            out.append(s)
        else:
            if not s:
                continue
            if out and not isinstance(out[-1], Seg):
                out[-1] = out[-1] + tuple(s)
            else:
                out.append(tuple(s))
    if not out:
        return b''
    if len(out) == 1 and not isinstance(out[0], Seg):
        t = out[0]
        for c in t:
            if not isinstance(c, int):
                return SBytes(out)
        return bytes(t)
    return SBytes(out)


def _same(a, b):
    r = a == b
    return r is True


def byte_segs(x):
    if isinstance(x, SBytes):
        return x.segs
    x = bytes(x)
    return [tuple(x)] if x else []


class SBytes:
    __slots__ = ('segs', '_len')

    def __init__(self, segs):
        self.segs = segs
        self._len = None

    def slen(self):
        """length: int | SInt"""
        if self._len is None:
            n = 0
            for s in self.segs:
                n = n + (s.n if isinstance(s, Seg) else len(s))
            self._len = n
        return self._len

    def __len__(self):
        n = self.slen()
        return n if isinstance(n, int) else n.__index__()

    def __bool__(self):
        r = self.slen() > 0
        return r if isinstance(r, bool) else bool(r)

    def cut(self, pos):
        """split at pos (0 <= pos <= len) -> (left segs, right segs); forks"""
        left = []
        rest = list(self.segs)
        cum = 0
        while rest:
            s = rest[0]
            n = s.n if isinstance(s, Seg) else len(s)
            nxt = cum + n
            if nxt <= pos:
                left.append(rest.pop(0))
                cum = nxt
                continue
            off = pos - cum
            if off == 0:
                break
            if isinstance(s, Seg):
                left.append(Seg(s.o, s.s, off))
                rest[0] = Seg(s.o, s.s + off, s.n - off)
            else:
                k = off if isinstance(off, int) else off.__index__()
                left.append(s[:k])
                rest[0] = s[k:]
            break
        return left, rest

    def sub(self, a, b):
        """[a:b] with 0<=a<=b<=len"""
        left, right = self.cut(b)
        return mkbytes(SBytes(left).cut(a)[1])

    @staticmethod
    def clamp(i, n, default):
        if i is None:
            return default
        if i < 0:
            i = i + n
            if i < 0:
                return 0
        if i > n:
            return n
        return i

    def __getitem__(self, i):
        n = self.slen()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                return mkbytes([self.items()[i]])
            a = self.clamp(i.start, n, 0)
            b = self.clamp(i.stop, n, n)
            if a >= b:
                return b''
            if len(self.segs) == 1 and not isinstance(self.segs[0], Seg) and isinstance(a, int) and isinstance(b, int):
                return mkbytes([self.segs[0][a:b]])
            return self.sub(a, b)
        if i < 0:
            i = i + n
        if i < 0 or i >= n:
            raise IndexError('index out of range')
        return byte_int(self.at(i))

    def at(self, i):
        cum = 0
        for s in self.segs:
            n = s.n if isinstance(s, Seg) else len(s)
            if i < cum + n:
                k = i - cum
                if isinstance(s, Seg):
                    e = s.o.at(s.s + k)
                    return e
                if isinstance(k, int):
                    return s[k]
                r = bv(0, 8)
                for j, c in enumerate(s):
                    ce = bv(c, 8) if isinstance(c, int) else c
                    r = z3.If(k.e == bv(j, k.e.size()), ce, r) if j < (1 << (k.e.size() - 1)) else r
                return z3.simplify(r)
            cum = cum + n
        raise IndexError('index out of range')

    def _lex(self, o):
        """-1/0/1 by forking"""
        A, B = self.items(), o.items() if isinstance(o, SBytes) else tuple(o)
        for a, b in zip(A, B):
            x, y = [bv(v, 8) if isinstance(v, int) else v for v in (a, b)]
            if not C().branch(x == y):
                return -1 if C().branch(z3.ULT(x, y)) else 1
        return (len(A) > len(B)) - (len(A) < len(B))

    def __lt__(self, o): return self._lex(o) < 0 if is_bytes(o) else NotImplemented
    def __gt__(self, o): return self._lex(o) > 0 if is_bytes(o) else NotImplemented
    def __le__(self, o): return self._lex(o) <= 0 if is_bytes(o) else NotImplemented
    def __ge__(self, o): return self._lex(o) >= 0 if is_bytes(o) else NotImplemented

    def items(self):
        """concrete-length tuple of byte items (forks over lengths)"""
        out = []
        for s in self.segs:
            if isinstance(s, Seg):
                n = s.n if isinstance(s.n, int) else s.n.__index__()
                for j in range(n):
                    e = s.o.at(s.s + j)
                    out.append(e.as_long() if z3.is_bv_value(e) else e)
            else:
                out.extend(s)
        return tuple(out)

    def __iter__(self):
        for c in self.items():
            yield byte_int(c)

    def __add__(self, o):
        if is_bytes(o):
            return mkbytes(self.segs + byte_segs(o))
        return NotImplemented

    def __radd__(self, o):
        if is_bytes(o):
            return mkbytes(byte_segs(o) + self.segs)
        return NotImplemented

    def __mul__(self, n):
        return mkbytes(self.segs * n.__index__())
    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_bytes(o):
            return False
        n, m = self.slen(), blen(o)
        if not (n == m):
            return False
        if isinstance(o, SBytes) and any(isinstance(s, Seg) for s in o.segs) and \
                any(isinstance(s, Seg) for s in self.segs):
            if len(o.segs) == len(self.segs) and all(
                    isinstance(a, Seg) and isinstance(b, Seg) and a.o is b.o and _same(a.s, b.s) and _same(a.n, b.n)
                    or (not isinstance(a, Seg) and not isinstance(b, Seg) and len(a) == len(b)
                        and items_eq(a, b) is True)
                    for a, b in zip(self.segs, o.segs)):
                return True
        A = self.items()
        B = o.items() if isinstance(o, SBytes) else tuple(bytes(o))
        if len(A) != len(B):
            return False
        return items_eq(A, B)

    def __ne__(self, o):
        return snotb(self.__eq__(o))

    def __hash__(self):
        return hash(self.concrete('hash'))

    def concrete(self, reason):
        ctx = C()
        out = []
        for c in self.items():
            if not isinstance(c, int):
                c = ctx.fixed(c)
            if not isinstance(c, int):
                c = ctx.concretize_bv(c, reason, signed=False, limit=64)
            out.append(c)
        return bytes(out)

    def __bytes__(self):
        return self.concrete('bytes')

    def __repr__(self):
        return '<SBytes>'

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __contains__(self, o):
        if isinstance(o, (int, SInt)):
            return any(bool(byte_int(c) == o) for c in self.items())
        return self.find(o) >= 0

    def _aff(self, p, pre):
        if isinstance(p, tuple):
            return any(bool(self._aff(x, pre)) for x in p)
        m = blen(p)
        if self.slen() < m:
            return False
        return (self[:m] if pre else self[self.slen() - m:]) == p

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        return self._aff(p, True)

    def endswith(self, p, *a):
        if a:
            return self[slice(*a)].endswith(p)
        return self._aff(p, False)

    def _match_at(self, items, i, sub):
        return bool(items_eq(items[i:i + len(sub)], sub))

    def find(self, sub, start=0, end=None):
        items = self.items()
        sub = (sub,) if isinstance(sub, int) else (sub.items() if isinstance(sub, SBytes) else tuple(sub))
        end = len(items) if end is None else min(end, len(items))
        for i in range(start, end - len(sub) + 1):
            if self._match_at(items, i, sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        items = self.items()
        sub = (sub,) if isinstance(sub, int) else (sub.items() if isinstance(sub, SBytes) else tuple(sub))
        end = len(items) if end is None else min(end, len(items))
        for i in range(end - len(sub), start - 1, -1):
            if self._match_at(items, i, sub):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.concrete('bytes.split').split()
        items = self.items()
        sp = sep.items() if isinstance(sep, SBytes) else tuple(sep)
        out = []
        i = j = 0
        while i <= len(items) - len(sp):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(items, i, sp):
                out.append(mkbytes([items[j:i]]))
                i += len(sp)
                j = i
            else:
                i += 1
        out.append(mkbytes([items[j:]]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, b'', b'')
        return (self[:i], sep, self[i + len(sep):])

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        return bjoin(new, parts)

    def join(self, it):
        return bjoin(self, it)

    def _strip(self, chars, l, r):
        st = set(b' \t\n\r\x0b\x0c' if chars is None else bytes(chars))
        cs = CS.norm([(c, c) for c in st])
        it = self.items()
        i, j = 0, len(it)
        while l and i < j and bool(ch_in(it[i], cs)):
            i += 1
        while r and j > i and bool(ch_in(it[j - 1], cs)):
            j -= 1
        return mkbytes([it[i:j]])

    def strip(self, chars=None): return self._strip(chars, True, True)
    def lstrip(self, chars=None): return self._strip(chars, True, False)
    def rstrip(self, chars=None): return self._strip(chars, False, True)

    def ljust(self, n, fill=b' '):
        k = n - self.slen()
        if k <= 0:
            return self
        return self + fill * k

    def rjust(self, n, fill=b' '):
        k = n - self.slen()
        if k <= 0:
            return self
        return fill * k + self

    def decode(self, encoding='utf-8', errors='strict'):
        from .codec import decode
        return decode(self, encoding, errors)

    def hex(self):
        return self.concrete('hex').hex()

    def tobytes(self):
        return self


class SByteArray(SBytes):
    """bytearray: a changeable sequence of bytes; the segments are replaced, never changed in place"""
    __slots__ = ()
    __hash__ = None

    def __init__(self, x=b''):
        SBytes.__init__(self, list(byte_segs(x)))

    def put(self, x):
        self.segs = list(byte_segs(x))
        self._len = None
        return self

    def value(self):
        return mkbytes(list(self.segs))

    def __copy__(self): return SByteArray(self)
    def __deepcopy__(self, memo): return SByteArray(self)
    def copy(self): return SByteArray(self)

    def __getitem__(self, i):
        r = SBytes.__getitem__(self, i)
        return SByteArray(r) if isinstance(i, slice) else r

    def __add__(self, o):
        return SByteArray(mkbytes(self.segs + byte_segs(o))) if is_bytes(o) else NotImplemented

    def __mul__(self, n):
        return SByteArray(mkbytes(self.segs * n.__index__()))
    __rmul__ = __mul__

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __imul__(self, n):
        return self.put(self * n)

    def extend(self, it):
        self.put(mkbytes(self.segs + byte_segs(as_bytes(it))))

    def append(self, c):
        self.extend([c])

    def clear(self):
        self.put(b'')

    def insert(self, i, c):
        i = self.clamp(i, self.slen(), 0)
        self[i:i] = [c]

    def pop(self, i=-1):
        n = self.slen()
        if i < 0:
            i = i + n
        r = self[i]
        del self[i:i + 1]
        return r

    def reverse(self):
        self.put(mkbytes([self.items()[::-1]]))

    def __setitem__(self, i, v):
        n = self.slen()
        if isinstance(i, slice):
            if i.step not in (None, 1):
                it = list(self.items())
                v = SBytes(byte_segs(as_bytes(v))).items()
                it[i] = v
                self.put(mkbytes([tuple(it)]))
                return
            a = self.clamp(i.start, n, 0)
            b = self.clamp(i.stop, n, n)
            if b < a:
                b = a
            v = byte_segs(as_bytes(v))
        else:
            if i < 0:
                i = i + n
            if i < 0 or i >= n:
                raise IndexError('bytearray index out of range')
            a, b, v = i, i + 1, byte_segs(as_bytes([v]))
        left, right = self.cut(b)
        self.put(mkbytes(SBytes(left).cut(a)[0] + v + right))

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = b''
        else:
            n = self.slen()
            i = i + n if i < 0 else i
            self[i:i + 1] = b''


class SMemView(SBytes):
    """memoryview over [a:b) of a bytes or bytearray"""
    __slots__ = ('of', 'a', 'b')
    __hash__ = None
    format = 'B'
    itemsize = ndim = 1

    def __init__(self, of, a=0, b=None):
        self.of, self.a = of, a
        self.b = blen(of) if b is None else b

    @property
    def segs(self):
        of = self.of if isinstance(self.of, SBytes) else SBytes(byte_segs(self.of))
        return SBytes(of.cut(self.b)[0]).cut(self.a)[1]

    def slen(self):
        return self.b - self.a
    nbytes = property(slen)
    obj = property(lambda self: self.of)
    readonly = property(lambda self: not isinstance(self.of, SByteArray))

    def value(self):
        return mkbytes(list(self.segs))
    tobytes = value
    def toreadonly(self): return self
    def tolist(self): return list(self)
    def release(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def cast(self, f): return self

    def __getitem__(self, i):
        if isinstance(i, slice) and i.step in (None, 1):
            n = self.slen()
            a = self.clamp(i.start, n, 0)
            b = self.clamp(i.stop, n, n)
            return SMemView(self.of, self.a + a, self.a + (a if b < a else b))
        return SBytes.__getitem__(self, i)

    def __setitem__(self, i, v):
        if not isinstance(self.of, SByteArray):
            raise TypeError('cannot modify read-only memory')
        n = self.slen()
        if isinstance(i, slice):
            a = self.clamp(i.start, n, 0)
            b = self.clamp(i.stop, n, n)
            if blen(v) != b - a:
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
            self.of[self.a + a:self.a + b] = v
        else:
            self.of[self.a + (i + n if i < 0 else i)] = v


def as_bytes(x):
    """the bytes of an argument of bytearray.extend and the like"""
    if is_bytes(x):
        return x
    if isinstance(x, memoryview):
        return bytes(x)
    return bytes_of(list(x))


def bytes_of(ints):
    out = []
    for y in ints:
        if isinstance(y, int):
            if not 0 <= y < 256:
                raise ValueError('byte must be in range(0, 256)')
        else:
            if y < 0 or y > 255:
                raise ValueError('byte must be in range(0, 256)')
            y = z3.simplify(z3.Extract(7, 0, y.ext(9)))
            y = y.as_long() if z3.is_bv_value(y) else y
        out.append(y)
    return mkbytes([tuple(out)])


def byte_int(c):
    if isinstance(c, int):
        return c
    return mkint(z3.ZeroExt(1, c), 0, 255)


def blen(x):
    return x.slen() if isinstance(x, SBytes) else len(x)


def bjoin(sep, it):
    segs = []
    sp = byte_segs(sep)
    first = True
    for x in it:
        if not is_bytes(x):
            raise TypeError('sequence item: expected a bytes-like object, %s found' % type(x).__name__)
        if not first:
            segs.extend(sp)
        first = False
        segs.extend(byte_segs(x))
    return mkbytes(segs)


SYM = (SBool, SInt, SStr, SBytes, SFrac)


def is_sym(x):
    return isinstance(x, SYM)


def has_sym(x, depth=6):
    if isinstance(x, SYM):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False
