"""Run-time operations the rewritten source calls instead of the native ones."""
import builtins
import collections
import functools
import operator
import re
import types
import z3
from .core import C, CS, Control, PathAbort
from .values import (SBool, SInt, SStr, SBytes, SByteArray, SMemView, SFrac, LazyStr, SYM, is_sym, has_sym, is_str, is_bytes, join, bjoin,
                     mkstr, mkbytes, mkint, char_items, ch_in, bv, byte_int, blen, W_CH, Seg, byte_segs, snotb)

MODELS = {}          # id(function) -> (function, model)
CLASS_METHODS = {}   # (class, name) -> model
TYPE_METHODS = {}    # (type, name) -> model(obj, *a, **k)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[id(f)] = (f, g)
        return g
    return deco


# ------------------------------------------------------------------ types
def pytype(x):
    if isinstance(x, SStr):
        return str
    if isinstance(x, SBytes):
        return bytearray if isinstance(x, SByteArray) else memoryview if isinstance(x, SMemView) else bytes
    if isinstance(x, SInt):
        return int
    if isinstance(x, SBool):
        return bool
    if isinstance(x, SFrac):
        return float
    return builtins.type(x)


def do_isinstance(x, t):
    if isinstance(x, SYM):
        ty = pytype(x)
        if isinstance(t, tuple):
            return any(do_isinstance(x, y) for y in t)
        if isinstance(t, types.UnionType):
            return any(do_isinstance(x, y) for y in t.__args__)
        return issubclass(ty, t)
    return isinstance(x, t)


# ------------------------------------------------------------------ dict with symbolic keys
class _HashMode:
    on = 0


def _shash(self):
    if _HashMode.on:
        return id(self)
    return hash(self.concrete('hash'))


SStr.__hash__ = _shash


def symkeys():
    return getattr(C(), 'symkeys', False)


MISSING = object()


def find_key(d, k):
    """the stored key equal to k, or MISSING"""
    if not isinstance(k, SYM) and not (isinstance(k, tuple) and has_sym(k)):
        if not symkeys():
            return k if k in d else MISSING
        if k in d:
            return k
        for kk in list(d):
            if isinstance(kk, SStr) and is_str(k) and bool(kk == k):
                return kk
        return MISSING
    if isinstance(k, SInt):
        k = k.__index__()
        return k if k in d else MISSING
    for kk in list(d):
        if kk is k:
            return kk
        if isinstance(k, tuple):
            if isinstance(kk, tuple) and len(kk) == len(k) and bool(kk == k):
                return kk
            continue
        if pytype(kk) is pytype(k) and bool(kk == k):
            return kk
    return MISSING


class _hm:
    def __enter__(self):
        _HashMode.on += 1

    def __exit__(self, *a):
        _HashMode.on -= 1


def dget(d, k):
    kk = find_key(d, k)
    if kk is MISSING:
        if hasattr(type(d), '__missing__') and not isinstance(k, SYM):
            return d[k]
        if hasattr(type(d), '__missing__'):
            if type(d).__missing__ is not collections.defaultdict.__missing__:
                return type(d).__missing__(d, k)
            if d.default_factory is None:
                raise KeyError(k)
            v = call(d.default_factory)
            dset(d, k, v)
            return v
        raise KeyError(k)
    with _hm():
        return dict.__getitem__(d, kk)


def dset(d, k, v):
    if not isinstance(k, SYM) and not symkeys() and not (isinstance(k, tuple) and has_sym(k)):
        d[k] = v
        return
    kk = find_key(d, k)
    with _hm():
        if kk is MISSING:
            if isinstance(k, SInt):
                k = k.__index__()
            if isinstance(k, SYM) or isinstance(k, tuple):
                C().symkeys = True
            d[k] = v
        else:
            d[kk] = v


def ddel(d, k):
    kk = find_key(d, k)
    if kk is MISSING:
        raise KeyError(k)
    with _hm():
        del d[kk]


class DW:
    """write view of a dict"""
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return dget(self.d, k)

    def __setitem__(self, k, v):
        dset(self.d, k, v)

    def __delitem__(self, k):
        ddel(self.d, k)


def w(x):
    return DW(x) if isinstance(x, dict) else x


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        if k is MISSING:
            for kk in v:
                dset(d, kk, dget(v, kk))
        else:
            dset(d, k, v)
    return d


def mkset(it):
    s = set()
    for x in it:
        sadd(s, x)
    return s


def sfind(s, x):
    if not isinstance(x, SYM) and not symkeys():
        return x if x in s else MISSING
    for y in list(s):
        if y is x or (pytype(y) is pytype(x) and bool(y == x)):
            return y
    return MISSING


def sadd(s, x):
    if not isinstance(x, SYM) and not symkeys():
        s.add(x)
        return
    if sfind(s, x) is MISSING:
        if isinstance(x, SYM):
            C().symkeys = True
        with _hm():
            s.add(x)


def dict_method(d, name, a, k):
    if name == 'update' and a and not isinstance(a[0], dict):
        a = (list(a[0].items() if hasattr(a[0], 'items') else a[0]),)
        slow = True         # keys come with the pairs
    else:
        slow = symkeys() or (a and (isinstance(a[0], SYM) or (isinstance(a[0], tuple) and has_sym(a[0]))))
    if not slow:
        return getattr(d, name)(*a, **k)
    if name == 'get':
        kk = find_key(d, a[0])
        if kk is MISSING:
            return a[1] if len(a) > 1 else k.get('default')
        with _hm():
            return dict.__getitem__(d, kk)
    if name == 'pop':
        kk = find_key(d, a[0])
        if kk is MISSING:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0])
        with _hm():
            return d.pop(kk)
    if name == 'setdefault':
        kk = find_key(d, a[0])
        if kk is MISSING:
            v = a[1] if len(a) > 1 else None
            dset(d, a[0], v)
            return v
        with _hm():
            return dict.__getitem__(d, kk)
    if name == 'update':
        for src in a:
            if isinstance(src, dict):
                for kk in list(src):
                    with _hm():
                        v = dict.__getitem__(src, kk)
                    dset(d, kk, v)
            else:
                for kk, v in src:
                    dset(d, kk, v)
        for kk, v in k.items():
            dset(d, kk, v)
        return None
    if name == '__contains__':
        return find_key(d, a[0]) is not MISSING
    if name in ('copy',):
        return dict(d)
    with _hm():
        return getattr(d, name)(*a, **k)


def set_method(s, name, a, k):
    if name == 'add':
        return sadd(s, a[0])
    if name in ('remove', 'discard'):
        y = sfind(s, a[0])
        if y is MISSING:
            if name == 'remove':
                raise KeyError(a[0])
            return None
        with _hm():
            s.discard(y)
        return None
    if name == '__contains__':
        return sfind(s, a[0]) is not MISSING
    if symkeys() or any(has_sym(list(x) if not isinstance(x, (str, bytes, SStr)) else x) for x in a):
        if name == 'update':
            for x in a:
                for y in x:
                    sadd(s, y)
            return None
        if name == 'union':
            r = mkset(s)
            for x in a:
                for y in x:
                    sadd(r, y)
            return r
        if name == 'intersection':
            o = list(a[0])
            return mkset(x for x in s if in_(x, o))
        if name == 'difference':
            o = [y for x in a for y in x]
            return mkset(x for x in s if not in_(x, o))
        if name == 'issuperset':
            return all(in_(x, s) for x in a[0])
        if name == 'isdisjoint':
            return not any(in_(x, s) for x in a[0])
        if name == 'symmetric_difference':
            return setop('BitXor', s, mkset(a[0]))
        if name in ('difference_update', 'intersection_update'):
            r = set_method(s, name[:-7], a, k)
            with _hm():
                s.clear()
                s.update(r)
            return None
        if name == 'issubset':
            o = list(a[0])
            return all(in_(x, o) for x in s)
    return getattr(s, name)(*a, **k)


SETS = (set, frozenset, type({}.keys()), type({}.items()))
BIN = {'Sub': operator.sub, 'BitAnd': operator.and_, 'BitOr': operator.or_, 'BitXor': operator.xor}
IBIN = {'Sub': operator.isub, 'BitAnd': operator.iand, 'BitOr': operator.ior, 'BitXor': operator.ixor}
CMP = {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}


def _symset(a, b):
    return isinstance(a, SETS) and isinstance(b, SETS) and (symkeys() or has_sym(list(a)) or has_sym(list(b)))


def setop(op, a, b):
    if isinstance(a, SETS) and _symset(a, b):
        a, b = list(a), list(b)
        if op == 'Sub':
            r = mkset(x for x in a if not in_(x, b))
        elif op == 'BitAnd':
            r = mkset(x for x in a if in_(x, b))
        elif op == 'BitOr':
            r = mkset(a + b)
        else:
            r = mkset([x for x in a if not in_(x, b)] + [x for x in b if not in_(x, a)])
        return r
    if op == 'BitOr' and isinstance(a, dict) and isinstance(b, dict) and (symkeys() or has_sym(list(a)) or has_sym(list(b))):
        return mkdict([(MISSING, a), (MISSING, b)])
    return BIN[op](a, b)


def isetop(op, a, b):
    if isinstance(a, SETS) and _symset(a, b):
        r = setop(op, a, b)
        if isinstance(a, set):
            with _hm():
                a.clear()
                a |= r
            return a
        return r
    return IBIN[op](a, b)


def deep_eq(a, b):
    """equality of values that may hold dicts with symbolic keys"""
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in list(a):
            kk = find_key(b, k)
            if kk is MISSING:
                return False
            with _hm():
                x, y = dict.__getitem__(a, k), dict.__getitem__(b, kk)
            if not deep_eq(x, y):
                return False
        return True
    if isinstance(a, list) and isinstance(b, list) or isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(x is y or deep_eq(x, y) for x, y in zip(a, b))
    return bool(compare('Eq', a, b))


def compare(op, a, b):
    if isinstance(a, SETS) and isinstance(b, SETS) and _symset(a, b):
        a, b = list(a), list(b)
        if op in ('Eq', 'NotEq'):
            r = len(a) == len(b) and all(in_(x, b) for x in a)
            return r if op == 'Eq' else not r
        if op[0] == 'G':
            a, b = b, a
        return all(in_(x, b) for x in a) and (op.endswith('E') or len(a) < len(b))
    if op in ('Eq', 'NotEq') and symkeys() and isinstance(a, (list, tuple, dict)) and isinstance(b, (list, tuple, dict)):
        return deep_eq(a, b) is (op == 'Eq')
    return CMP[op](a, b)


# ------------------------------------------------------------------ match
def match_seq(x, n, more):
    return isinstance(x, (list, tuple, collections.deque)) and (len(x) >= n if more else len(x) == n)


def match_star(x, before, after):
    return list(x)[before:len(x) - after]


def match_map(x, *keys):
    return isinstance(x, dict) and all(in_(k, x) for k in keys)


def match_rest(x, *keys):
    return mkdict([(k, dget(x, k)) for k in list(x) if not any(k is y or bool(k == y) for y in keys)])


def match_pos(x, cls, i):
    if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
        return x
    return getattr(x, cls.__match_args__[i])


# ------------------------------------------------------------------ calls
FAULTABLE = {}        # id(function) -> name: calls an injected I/O error can hit


def call(f, /, *a, **k):
    m = MODELS.get(id(f))
    if m is not None and m[0] is f:
        if id(f) in FAULTABLE:
            fault = C().__dict__.get('fault')
            if fault is not None:
                kind = fault.tick(FAULTABLE[id(f)], a, k)
                if kind:
                    r = m[1](*a, **k)
                    r.fault = kind
                    return r
        return m[1](*a, **k)
    t = builtins.type(f)
    if t is types.MethodDescriptorType and a and isinstance(a[0], SYM):
        return callm(a[0], f.__name__, *a[1:], **k)
    if t is types.MethodDescriptorType and a and has_sym(a[1:]):
        return callm(a[0], f.__name__, *a[1:], **k)
    if t is types.BuiltinMethodType and f.__self__ is not None and not isinstance(f.__self__, types.ModuleType):
        o = f.__self__
        if isinstance(o, (str, bytes, dict, set, re.Pattern)) and (has_sym(a) or isinstance(o, (dict, set))
                                                                   or f.__name__ == 'join'):
            return callm(o, f.__name__, *a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    return f(*a, **k)


def callm(o, name, /, *a, **k):
    if isinstance(o, SYM):
        try:
            f = getattr(o, name)
        except AttributeError:
            ty = pytype(o)
            getattr(ty, name)      # raises AttributeError when it should
            if isinstance(o, (SStr, SBytes)):
                f = getattr(o.concrete(name), name)
            elif isinstance(o, SInt):
                if name == 'to_bytes':
                    return int_to_bytes(o, *a, **k)
                f = getattr(o.__index__(), name)
            else:
                f = getattr(bool(o), name)
        return f(*a, **k)
    t = builtins.type(o)
    if t is str:
        if name == 'join':
            items = list(a[0])
            if any(isinstance(x, SYM) for x in items):
                return join(o, items)
            return o.join(items)
        if has_sym(a) or (k and has_sym(k)):
            if name == 'format':
                return format_str(o, a, k)
            if name == 'format_map':
                return format_str(o, (), a[0])
            s = SStr(tuple(map(ord, o)))
            if name in ('rjust', 'ljust', 'zfill', 'center'):
                a = tuple(x.__index__() if isinstance(x, SInt) else x for x in a)
            return callm(s, name, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is bytes or t is bytearray:
        if name == 'join':
            items = list(a[0])
            if any(isinstance(x, SYM) for x in items):
                return bjoin(o, items)
            return o.join(items)
        if has_sym(a):
            return callm(SBytes([tuple(o)]), name, *a, **k)
        return getattr(o, name)(*a, **k)
    if isinstance(o, dict) and name in ('__getitem__', '__setitem__', '__delitem__') and getattr(t, name) is getattr(dict, name):
        return {'__getitem__': dget, '__setitem__': dset, '__delitem__': ddel}[name](o, *a)
    if isinstance(o, dict) and name in ('get', 'pop', 'setdefault', 'update', '__contains__', 'copy', 'items', 'keys',
                                        'values', 'popitem', 'clear'):
        own = getattr(t, name, None)
        if own is getattr(dict, name) or t.__module__ == 'collections':
            return dict_method(o, name, a, k)
    if isinstance(o, (set, frozenset)):
        return set_method(o, name, a, k)
    if t is list:
        if name == 'sort' and k.get('key') is not None:
            k = dict(k)
            kf = k['key']
            k['key'] = lambda x: call(kf, x)
        return getattr(o, name)(*a, **k)
    if t is re.Pattern:
        from . import rx
        if name in rx.OPS and (has_sym(a) or (name in ('sub', 'subn') and not is_str(a[0]))):
            if is_str(a[1] if name in ('sub', 'subn') else a[0]):
                return rx.OPS[name](o, *a, **k)
            if isinstance(o.pattern, bytes):
                return rx.bytes_op(name, o, *a, **k)
        return getattr(o, name)(*a, **k)
    if t is type:
        m = CLASS_METHODS.get((o, name))
        if m is not None:
            return m(*a, **k)
    m = TYPE_METHODS.get((t, name))
    if m is not None:
        r = m(o, *a, **k)
        if r is not NotImplemented:
            return r
    f = getattr(o, name)
    if builtins.type(f) is types.BuiltinMethodType and id(f) not in MODELS:
        return f(*a, **k)
    return call(f, *a, **k)


def getitem(o, i):
    if isinstance(o, dict):
        if isinstance(i, SYM) or symkeys() or (isinstance(i, tuple) and has_sym(i)):
            if type(o).__getitem__ is dict.__getitem__ or type(o).__module__ == 'collections':
                return dget(o, i)
        return o[i]
    return o[i]


def in_(a, c):
    if isinstance(c, SYM):
        if isinstance(c, SStr):
            if not is_str(a):
                raise TypeError("'in <string>' requires string as left operand, not %s" % pytype(a).__name__)
            return c.find(a) >= 0
        return a in c
    if isinstance(c, dict):
        if isinstance(a, SYM) or symkeys() or (isinstance(a, tuple) and has_sym(a)):
            return find_key(c, a) is not MISSING
        return a in c
    if isinstance(c, str) and isinstance(a, SStr):
        if len(a.cs) == 1:
            return bool(ch_in(a.cs[0], CS.chars(c)))
        return SStr(tuple(map(ord, c))).find(a) >= 0
    if isinstance(c, (bytes, bytearray)) and isinstance(a, (SBytes, SInt)):
        return a in SBytes([tuple(c)])
    if isinstance(c, (set, frozenset)):
        if isinstance(a, SYM) or symkeys():
            if isinstance(a, SStr) and len(a.cs) == 1 and all(isinstance(x, str) for x in c):
                return bool(ch_in(a.cs[0], CS.norm([(ord(x), ord(x)) for x in c if len(x) == 1])))
            return sfind(c, a) is not MISSING
        return a in c
    if isinstance(c, range) and isinstance(a, SInt):
        if c.step == 1:
            return bool(a >= c.start) and bool(a < c.stop)
        return a.__index__() in c
    if isinstance(c, (list, tuple)):
        if isinstance(a, SStr) and len(a.cs) == 1 and all(isinstance(x, str) for x in c):
            return bool(ch_in(a.cs[0], CS.norm([(ord(x), ord(x)) for x in c if len(x) == 1])))
        for x in c:
            if x is a or bool(x == a):
                return True
        return False
    if isinstance(c, (type({}.keys()), type({}.values()), type({}.items()))) and (has_sym(a) or symkeys()):
        for x in c:
            if x is a or bool(x == a):
                return True
        return False
    from .models import SRange
    if isinstance(c, SRange):
        return bool(a >= c.a) and bool(a < c.b)
    return a in c


def not_in(a, c):
    return not in_(a, c)


def reraise():
    import sys
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


# ------------------------------------------------------------------ text of values
def to_str(x):
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, SInt):
        return LazyStr(x)
    if isinstance(x, SBool):
        return str(bool(x))
    if isinstance(x, SBytes):
        return str(x.concrete('str(bytes)'))
    f = type(x).__str__
    if isinstance(f, types.FunctionType):       # written in Python: it may answer with a symbolic text
        r = f(x)
        if not isinstance(r, (str, SStr)):
            raise TypeError('__str__ returned non-string (type %s)' % type(r).__name__)
        return r
    if f is BaseException.__str__ and len(x.args) == 1:
        return to_str(x.args[0])
    return str(x)


_spec = re.compile(r'^(?:(.)?([<>^=]))?([+\- ]?)(#?)(0?)(\d*)(,?)(?:\.(\d+))?([a-zA-Z%]?)$', re.S)


def fmt(x, spec):
    if isinstance(spec, SStr):
        spec = spec.concrete('format spec')
    if isinstance(x, SBool):
        x = bool(x)
    if not isinstance(x, SYM):
        if not spec and type(x).__format__ is object.__format__:
            return to_str(x)
        return format(x, spec)
    if not spec:
        return to_str(x)
    m = _spec.match(spec)
    if not m:
        raise ValueError('Invalid format specifier')
    fill, align, sign, alt, zero, width, comma, prec, ty = m.groups()
    width = int(width or 0)
    if isinstance(x, SInt):
        if ty in ('x', 'X'):
            if (fill or ' ') and align in (None, '>', '=') and (zero or fill == '0') and not alt and not sign:
                t = LazyStr(x, 16, 0, ty == 'X')
                r = t._fixed(width) if width else None
                if r is not None:
                    return r
                return LazyStr(x, 16, width, ty == 'X')
            t = LazyStr(x, 16, 0, ty == 'X')
            if alt:
                t = mkstr(tuple(map(ord, '0' + ty)) + t.cs)
        elif ty in ('', 'd'):
            t = LazyStr(x)
        elif ty == 'c':
            return do_chr(x)
        else:
            return format(x.__index__(), spec)
        if comma or sign:
            return format(x.__index__(), spec)
        if not width:
            return t
        if zero and not align:
            return t.zfill(width)
        align = align or '>'
    else:
        if ty not in ('', 's'):
            raise ValueError('Unknown format code')
        t = x
        if prec:
            t = t[:int(prec)]
        align = align or '<'
    fill = fill or ('0' if zero else ' ')
    if align == '<':
        return t.ljust(width, fill)
    if align == '^':
        return t.center(width, fill)
    return t.rjust(width, fill)


def srepr(v):
    """repr() of a symbolic string: escapes are not modelled (only messages use it; a wrong one cannot be confirmed by a replay)"""
    return "'" + v + "'"


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = repr(v) if not isinstance(v, SYM) else v
            if isinstance(v, SStr):
                v = srepr(v)
        elif conv == 115:
            v = to_str(v)
        if isinstance(v, SYM) or isinstance(spec, SStr):
            out.append(fmt(v, spec))
        elif type(v).__format__ is object.__format__ and not spec:
            out.append(to_str(v))
        else:
            out.append(format(v, spec))
    return join('', out) if any(isinstance(x, SStr) for x in out) else ''.join(out)


_pf = re.compile(r'%(?:\((\w*)\))?([#0\- +]*)(\d*|\*)(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def mod_str(f, a):
    if not has_sym(a) and not isinstance(f, SYM):
        return f % a
    if isinstance(f, SStr):
        f = f.concrete('%-format')
    args = list(a) if isinstance(a, tuple) else [a]
    out = []
    last = 0
    i = 0
    for m in _pf.finditer(f):
        out.append(f[last:m.start()])
        last = m.end()
        key, flags, width, prec, ty = m.groups()
        if ty == '%':
            out.append('%')
            continue
        if key is not None:
            v = dget(a, key)
        else:
            v = args[i]
            i += 1
        if not isinstance(v, SYM):
            out.append(('%' + flags + width + ('.' + prec if prec else '') + ty) % (v,))
        elif ty in 'sr':
            s = to_str(v) if ty == 's' else fstr((v, ord('r'), ''))
            if prec:
                s = s[:int(prec)]
            n = int(width or 0)
            out.append(s.ljust(n) if '-' in flags else s.rjust(n) if n else s)
        elif ty in 'dixX':
            t = 'd' if ty in 'di' else ty
            out.append(fmt(v, ('0' if '0' in flags else '') + width + t))
        else:
            raise PathAbort('%-format')
    out.append(f[last:])
    return join('', out)


def mod(a, b):
    if isinstance(a, (str, SStr)):
        return mod_str(a, b)
    return a % b


def format_str(s, a, k):
    import string
    if isinstance(s, SStr):
        s = s.concrete('format')
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r'^([^.\[]*)(.*)$', field, re.S)
        head, rest = m.groups()
        if head == '':
            v = a[auto]
            auto += 1
        elif head.isdigit():
            v = a[int(head)]
        else:
            v = k[head]
        for attr, idx in re.findall(r'\.(\w+)|\[([^\]]+)\]', rest):
            v = getattr(v, attr) if attr else getitem(v, int(idx) if idx.isdigit() else idx)
        if spec and '{' in spec:
            spec = format_str(spec, a[auto:], k)
        out.append(fstr((v, ord(conv) if conv else -1, spec or '')))
    return join('', out)


def do_chr(x):
    if x < 0 or x > 0x10FFFF:
        raise ValueError('chr() arg not in range(0x110000)')
    return mkstr((z3.simplify(x.ext(W_CH)),))


HEX = CS.chars('0123456789abcdefABCDEF')


def _digit(c, base):
    """symbolic char known to be a valid digit -> int expr"""
    if isinstance(c, int):
        return int(chr(c), 36)
    h = C().hexchars.get(c.get_id())
    if h is not None:
        return mkint(z3.ZeroExt(1, h[1]), 0, 15)
    x = c
    w_ = c.size()
    e = z3.If(z3.ULE(x, bv(57, w_)), x - bv(48, w_),
              z3.If(z3.ULE(x, bv(90, w_)), x - bv(55, w_), x - bv(87, w_)))
    return mkint(z3.ZeroExt(1, e), 0, base - 1)


def hex_key(cs):
    """key of a hexadecimal rendering: nibbles without leading zeros"""
    h = C().hexchars
    out = ['hex']
    for c in cs:
        if isinstance(c, int):
            if len(out) == 1 and c == 48:
                continue
            out.append(int(chr(c), 16) if c < 128 and chr(c) in '0123456789abcdefABCDEF' else None)
        else:
            x = h.get(c.get_id())
            out.append(('e', x[1].get_id()) if x else None)
    return tuple(out)


def parse_int(s, base=10):
    ctx = C()
    if isinstance(s, LazyStr) and s._c is None and s.base == base:
        return s.v
    if isinstance(s, SBytes):
        cs = s.items()
    else:
        cs = s.cs
    dec = getattr(ctx, 'decimals', None)
    if dec and base == 10:
        r = dec.get(tuple(x if isinstance(x, int) else x.get_id() for x in cs))
        if r is not None:
            return r[1]
    if base == 16:
        valid = HEX
    elif base == 10:
        valid = CS.chars('0123456789')
    else:
        return int(s.concrete('int base'), base)
    orig = cs
    cs = list(cs)
    while cs and bool(ch_in(cs[0], CS.chars(' \t\n\r\x0b\x0c'))):
        cs.pop(0)
    while cs and bool(ch_in(cs[-1], CS.chars(' \t\n\r\x0b\x0c'))):
        cs.pop()
    neg = False
    if cs and bool(ch_in(cs[0], CS.chars('+-'))):
        neg = bool(ch_in(cs[0], CS.chars('-')))
        cs.pop(0)
    if not cs:
        raise ValueError('invalid literal for int()')
    # fast path: all characters come from hex/decimal rendering or are digits
    vals = []
    for i, c in enumerate(cs):
        if not isinstance(c, int) and c.get_id() in ctx.hexchars and base == 16:
            vals.append(_digit(c, base))
            continue
        if not bool(ch_in(c, valid)):
            if bool(ch_in(c, CS.chars('_'))) or (isinstance(s, SStr) and not bool(ch_in(c, CS(((0, 127),))))) or \
                    (base == 16 and i == 1 and bool(ch_in(c, CS.chars('xX')))):
                # rarely used literal forms: fall back to concrete values
                return int(s.concrete('int literal'), base)
            raise ValueError('invalid literal for int() with base %d' % base)
        vals.append(_digit(c, base))
    if base == 16:
        n = len(vals)
        known = ctx.comp.get(hex_key(cs))
        if known is not None:
            return -known[0] if neg else known[0]
        parts = []
        for v in vals:
            parts.append(z3.Extract(3, 0, SInt.of(v).ext(5)))
        e = z3.Concat(bv(0, 1), *parts)
        r = mkint(e, 0, 16 ** n - 1)
    else:
        r = 0
        for v in vals:
            r = r * 10 + v
    return -r if neg else r


def int_to_bytes(x, length=1, byteorder='big', *, signed=False):
    if signed:
        if x < -(1 << (8 * length - 1)) or x >= 1 << (8 * length - 1):
            raise OverflowError('int too big to convert')
    elif x < 0 or x >= 1 << (8 * length):
        raise OverflowError('int too big to convert')
    return int_bytes(x, length, byteorder)


def item_key(items):
    return tuple(x if isinstance(x, int) else ('e', x.get_id()) for x in items)


def int_bytes(x, length, order):
    e = SInt.of(x).ext(max(8 * length, SInt.of(x).e.size()))
    out = []
    for i in range(length):
        b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, e))
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    if isinstance(x, SInt):
        C().comp[item_key(out)] = (x, out)
    if order == 'big':
        out.reverse()
    return mkbytes([tuple(out)])


def bytes_int(items, order, signed):
    if order == 'big':
        items = tuple(reversed(items))
    known = C().comp.get(item_key(items))
    if known is not None:
        v = known[0]
        lo, hi = v.now()
        n = 8 * len(items) - (1 if signed else 0)
        if hi < 1 << n and lo >= (-(1 << n) if signed else 0):
            return v
    es = [bv(c, 8) if isinstance(c, int) else c for c in items]
    e = z3.Concat(*reversed(es)) if len(es) > 1 else es[0]
    n = 8 * len(es)
    if signed:
        return mkint(e, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    return mkint(z3.ZeroExt(1, e), 0, (1 << n) - 1)


FUNCS = None


def enter(name):
    FUNCS.add(name)
