"""What a harness sees: the same harness runs symbolically (SymT) and concretely on the real code (ConT)."""
import base64
import os
import shutil
import sys
import tempfile


class Violation(Exception):
    pass


class AssumeFailed(BaseException):
    pass


def faultable():
    """operating system calls an injected I/O error can hit"""
    import builtins
    yield 'open', builtins.open
    for m, ns in ((os, ('listdir', 'mkdir', 'makedirs', 'remove', 'unlink', 'rename', 'replace', 'rmdir', 'scandir')),
                  (shutil, ('copy', 'copy2', 'copyfile', 'move', 'copytree')), (tempfile, ('mkdtemp',))):
        for n in ns:
            yield n, getattr(m, n)


class Fault:
    """an I/O error at the n-th operation of the code under test; a file opened by it fails at the call, at its first use or when closed;
    kind 3: permission is denied to it and to the same call after it, so many times"""

    def __init__(self, n, kind, times=1):
        self.n, self.kind, self.count, self.fired = n, kind, 0, None
        self.times, self.denied = times, None

    def off(self):
        self.denied = None
        if self.fired is None:
            self.fired = 'off'
        return self.fired != 'off'

    def tick(self, name, a, k):
        f = sys._getframe(1)
        while f is not None and f.f_globals.get('__name__', '').startswith('symex.'):
            f = f.f_back
        if f is None or not f.f_globals.get('__name__', '').startswith('v8unpack'):
            return None
        if self.denied is not None and self.denied == (name, a[:1]) and self.fired != 'off':
            self.times -= 1
            if self.times >= 0:
                raise PermissionError(13, 'Permission denied')
        if self.fired is not None:
            return None
        self.count += 1
        if not bool(self.n == self.count):
            return None
        self.fired = name
        if bool(self.kind == 3):
            self.denied = name, a[:1]
            self.times -= 1
            raise PermissionError(13, 'Permission denied')
        if name == 'open':
            mode = str(a[1] if len(a) > 1 else k.get('mode', 'r'))
            writes = any(c in mode for c in 'wax+')
            if bool(self.kind == 1):
                return 'use'
            if writes and bool(self.kind == 2):
                return 'close'
        raise OSError(5, 'Input/output error')


class FaultyFile:
    """file of the real system with an I/O error to come"""

    def __init__(self, f, fault):
        self.__dict__.update(_f=f, _fault=fault)

    def __getattr__(self, n):
        if self._fault == 'use' and n in ('read', 'readline', 'readlines', 'readinto', 'write', 'writelines', 'truncate'):
            def bad(*a, **k):
                self.__dict__['_fault'] = None
                raise OSError(5, 'Input/output error')
            return bad
        return getattr(self._f, n)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def close(self):
        self._f.close()
        if self._fault == 'close':
            self.__dict__['_fault'] = None
            raise OSError(28, 'No space left on device')

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class ConT:
    sym = False

    def __init__(self, values, root):
        self.values = values
        self.dir = root
        self.obs = {}
        self.orders = list(values.get('__order__', []))
        self._restore = []

    def _get(self, name):
        if name not in self.values:
            raise AssumeFailed('no value for ' + name)
        return self.values[name]

    def str(self, name, lo, hi, chars=None, exclude=None):
        return ''.join(map(chr, self._get(name)))

    def int(self, name, lo, hi):
        return self._get(name)

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, options):
        return options[self._get(name)]

    def bytes(self, name, lo, hi):
        return base64.b64decode(self._get(name))

    def blob(self, name, lo, hi):
        n, els, ent = self._get(name)
        b = bytearray([els]) * n
        for k, v in ent:
            if 0 <= k < n:
                b[k] = v
        return bytes(b)

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, c, msg):
        if not c:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def check_eq(self, a, b, msg):
        if not (a == b):
            raise Violation('%s: %r != %r' % (msg, short(a), short(b)))

    def same(self, a, b):
        return a == b

    def observe(self, name, v):
        self.obs[name] = v

    def any_listdir_order(self):
        real = os.listdir
        me = self

        def f(p='.'):
            l = sorted(real(p))
            return me._order(l) if 1 < len(l) <= 4 else l
        os.listdir = f
        self._restore.append(lambda: setattr(os, 'listdir', real))

    def _order(self, l, steps=None):
        rest, out = list(l), []
        while len(rest) > 1 and len(out) != steps:
            for i in range(len(rest) - 1):
                if self.orders and self.orders.pop(0):
                    out.append(rest.pop(i))
                    break
            else:
                out.append(rest.pop())
        return out + rest

    def pool(self):
        return ConPool(self)

    def any_schedule(self):
        pass

    def any_order(self, name, n):
        self.usual_order()
        self.at, self.order_n = self._get(name), -1

    def usual_order(self):
        self.at = None
        if not self.listing:
            self.listing, real = True, os.listdir
            os.listdir = lambda p='.': self._hot_order(sorted(real(p)))
            self._restore.append(lambda: setattr(os, 'listdir', real))

    at = None
    listing = False

    def _hot_order(self, l):
        if len(l) < 2 or self.at is None:
            return l
        l = sorted(l)
        if self.at == -1:
            return l[::-1]
        self.order_n += 1
        return self._order(l, None if len(l) <= 3 else 1) if self.at == self.order_n else l

    def deflate_max(self, n):
        pass

    def deflate_fixed(self):
        pass

    def fault(self, n, kind, times=1):
        import builtins
        me = Fault(n, kind, times)
        homes = {'open': builtins}
        for m in (os, shutil, tempfile):
            for name, f in faultable():
                if name != 'open' and getattr(m, name, None) is f:
                    homes[name] = m

        def wrap(name, real):
            def g(*a, **k):
                kind = me.tick(name, a, k)
                r = real(*a, **k)
                return FaultyFile(r, kind) if kind else r
            return g
        for name, f in list(faultable()):
            setattr(homes[name], name, wrap(name, f))
            self._restore.append(lambda name=name, f=f: setattr(homes[name], name, f))
        return me

    def concrete(self, x):
        return x

    def tree(self, path):
        out = {}
        for root, dirs, files in os.walk(path):
            rel = os.path.relpath(root, path)
            for f in files:
                p = f if rel == '.' else rel + '/' + f
                with open(os.path.join(root, f), 'rb') as fh:
                    out[p] = fh.read()
            for d in dirs:
                out.setdefault((d if rel == '.' else rel + '/' + d) + '/', None)
        return out

    def close(self):
        for r in self._restore:
            r()


class ConPool:
    def __init__(self, t):
        self.t, self.closed = t, False

    def imap_unordered(self, f, it, chunksize=1):
        import copy
        args = [copy.deepcopy(a) for a in it]
        idx = list(range(len(args)))
        if self.t.at is not None:
            idx = self.t._hot_order(idx)
        elif self.t.values.get('__sched__') and len(idx) <= 4:
            idx = self.t._order(idx)
        for i in idx:
            yield copy.deepcopy(f(args[i]))

    def imap(self, f, it, chunksize=1):
        return iter([f(a) for a in it])

    def map(self, f, it, chunksize=None): return [f(a) for a in it]
    def starmap(self, f, it, chunksize=None): return [f(*a) for a in it]
    def apply(self, f, args=(), kwds={}): return f(*args, **kwds)

    def apply_async(self, f, args=(), kwds={}, *a):
        r = f(*args, **kwds)

        class R:
            def get(self, t=None): return r
            def wait(self, t=None): pass
            def ready(self): return True
        return R()

    def close(self): self.closed = True
    terminate = close
    def join(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True


def short(x):
    r = repr(x)
    return r if len(r) < 300 else r[:300] + '...'


# ---------------------------------------------------------------------------------------------- symbolic
def make_sym():
    import z3
    from .core import C, CS, Infeasible, PathAbort
    from . import values as V
    from .values import (SInt, SBool, SStr, SBytes, Seg, Opaque, mkstr, mkbytes, bexpr, mkbool, mkint, blen, bv, sand,
                         items_eq, char_items, is_str, is_bytes, W_CH, ALLCH, byte_segs, SYM, snot)
    from . import ops, vfs
    NOSURR = CS([(0, 0xD7FF), (0xE000, 0x10FFFF)])

    def cs_of(chars, exclude):
        if chars is None:
            cs = NOSURR
        elif isinstance(chars, CS):
            cs = chars
        else:
            cs = CS.chars(chars)
        if exclude:
            cs = cs.minus(CS.chars(exclude))
        return cs

    class SymT:
        sym = True
        dir = '/S'

        def __init__(self):
            self.ctx = C()
            self.inputs = {}
            self.obs = {}
            self.ctx.t = self

        def _len(self, name, lo, hi):
            if lo == hi:
                return lo
            v = SInt.var(name + '.len', lo, hi)
            return v.__index__()

        def str(self, name, lo, hi, chars=None, exclude=None):
            cs = cs_of(chars, exclude)
            n = self._len(name, lo, hi)
            items = tuple(self.ctx.char_var('%s[%d]' % (name, i), W_CH, cs) for i in range(n))
            self.inputs[name] = ('str', items)
            return mkstr(items)

        def int(self, name, lo, hi):
            v = SInt.var(name, lo, hi)
            self.inputs[name] = ('int', v)
            return v

        def bool(self, name):
            e = z3.Bool(self.ctx.fresh_name(name))
            self.inputs[name] = ('bool', e)
            return SBool(e)

        def choice(self, name, options):
            v = SInt.var(name, 0, len(options) - 1)
            self.inputs[name] = ('int', v)
            i = v if isinstance(v, int) else v.__index__()
            return options[i]

        def bytes(self, name, lo, hi):
            n = self._len(name, lo, hi)
            items = tuple(self.ctx.char_var('%s[%d]' % (name, i), 8, CS([(0, 255)])) for i in range(n))
            self.inputs[name] = ('bytes', items)
            return mkbytes([items])

        def blob(self, name, lo, hi):
            n = SInt.var(name + '.len', lo, hi)
            o = Opaque(self.ctx.fresh_name(name))
            self.inputs[name] = ('blob', o, n)
            return mkbytes([Seg(o, 0, n)])

        def assume(self, c):
            self.ctx.assume(c if isinstance(c, bool) else bexpr(c))

        def check(self, c, msg):
            if not isinstance(c, SBool):
                c = bool(c)
                if not c:
                    self.ctx.fail(msg)
                self.ctx.must(True, msg)
                return
            self.ctx.must(c.e, msg)

        def fail(self, msg):
            self.ctx.fail(msg)

        def same(self, a, b):
            """equality without forking"""
            if isinstance(a, DictView):
                a = a.d
            if type(a) in (str, bytes) and type(b) is type(a):
                return a == b
            if is_str(a) or is_str(b):
                if not (is_str(a) and is_str(b)):
                    return False
                A, B = char_items(a), char_items(b)
                return len(A) == len(B) and items_eq(A, B)
            if is_bytes(a) or is_bytes(b):
                if not (is_bytes(a) and is_bytes(b)):
                    return False
                return self._same_bytes(a, b)
            if isinstance(a, (SInt, SBool)) or isinstance(b, (SInt, SBool)):
                try:
                    return a == b
                except TypeError:
                    return False
            if isinstance(a, dict) and isinstance(b, dict):
                if len(a) != len(b):
                    return False
                rs = []
                for k in list(a):
                    kk = ops.find_key(b, k)
                    if kk is ops.MISSING:
                        return False
                    with ops._hm():
                        x, y = dict.__getitem__(a, k), dict.__getitem__(b, kk)
                    r = self.same(x, y)
                    if r is False:
                        return False
                    rs.append(r)
                return sand(*rs) if rs else True
            if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
                return len(a) == len(b) and all(ops.in_(x, b) for x in list(a))
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if type(a) is not type(b) or len(a) != len(b):
                    return False
                rs = []
                for x, y in zip(a, b):
                    r = self.same(x, y)
                    if r is False:
                        return False
                    rs.append(r)
                return sand(*rs) if rs else True
            return a == b

        def _same_bytes(self, a, b):
            n, m = blen(a), blen(b)
            le = n == m
            if le is False:
                return False
            if isinstance(n, int) and isinstance(m, int) and n <= 4096 and not any(
                    isinstance(s, Seg) for x in (a, b) for s in byte_segs(x)):
                A = byte_segs(a)
                B = byte_segs(b)
                return items_eq(A[0] if A else (), B[0] if B else ())
            if not (le is True) and not self.ctx.branch(le.e):
                return False
            if isinstance(n, int) and n == 0:
                return True
            # arbitrary index k: equal at k for every k
            hi = n.hi if isinstance(n, SInt) else n
            if not (n > 0):
                return True
            k = SInt.var('k!idx', 0, hi - 1)
            if isinstance(k, SInt):
                self.ctx.assume(bexpr(k < n))
            x = V.SBytes(byte_segs(a)).at(k)
            y = V.SBytes(byte_segs(b)).at(k)
            x = bv(x, 8) if isinstance(x, int) else x
            y = bv(y, 8) if isinstance(y, int) else y
            return mkbool(x == y)

        def check_eq(self, a, b, msg):
            self.check(self.same(a, b), msg)

        def observe(self, name, v):
            self.obs[name] = v

        def any_listdir_order(self):
            self.ctx.fs.shuffle = True

        def any_schedule(self):
            self.ctx.any_schedule = True

        def any_order(self, name, n):
            """from here on one of the first n lists of files or batches of tasks comes in any order"""
            self.ctx.order_at = self.int(name, -1, n)
            self.ctx.order_n = -1

        def usual_order(self):
            self.ctx.order_at = None

        def deflate_max(self, n):
            """bound on the length of a compressed stream"""
            self.ctx.deflate_max = n

        def deflate_fixed(self):
            """the length of a compressed stream is not varied"""
            self.ctx.deflate_fixed = True

        def fault(self, n, kind, times=1):
            """from here on the n-th I/O operation of the code under test fails"""
            self.ctx.fault = Fault(n, kind, times)
            return self.ctx.fault

        def pool(self):
            from .models import FakePool
            return FakePool()

        def concrete(self, x):
            return x.concrete('harness') if isinstance(x, (SStr, SBytes)) else x

        def tree(self, path):
            out = {}
            for p, kind, node in self.ctx.fs.tree(path):
                ops.dset(out, p if kind == 'file' else p + '/', vfs.node_bytes(node) if kind == 'file' else None)
            return out

    class DictView:
        pass

    return SymT


# ---------------------------------------------------------------------------------------------- model -> values
def values_from_model(model, inputs, orders, sched):
    import z3
    from .values import SInt

    def ev(e):
        return model.eval(e, model_completion=True)
    out = {}
    for name, rec in inputs.items():
        kind = rec[0]
        if kind == 'str':
            out[name] = [c if isinstance(c, int) else ev(c).as_long() for c in rec[1]]
        elif kind == 'bytes':
            out[name] = base64.b64encode(bytes(c if isinstance(c, int) else ev(c).as_long() for c in rec[1])).decode()
        elif kind == 'int':
            v = rec[1]
            out[name] = v if isinstance(v, int) else ev(v.e).as_signed_long()
        elif kind == 'bool':
            out[name] = bool(z3.is_true(ev(rec[1])))
        elif kind == 'blob':
            n = rec[2] if isinstance(rec[2], int) else ev(rec[2].e).as_signed_long()
            from collections import Counter
            import z3 as _z
            els, ent = 0x5A, []
            vals = []
            lim = 1 << 14
            for i in range(min(n, lim)):
                r = model.eval(rec[1].f(_z.BitVecVal(i, 64)), model_completion=True)
                vals.append(r.as_long() if _z.is_bv_value(r) else 0)
            if vals:
                els = Counter(vals).most_common(1)[0][0]
                ent = [[i, v] for i, v in enumerate(vals) if v != els]
            out[name] = [n, els, ent]
    if orders:
        out['__order__'] = [int(ev(v).as_long()) for v in orders]
    if sched:
        out['__sched__'] = 1
    return out


def eval_obs(model, v):
    """concrete value of an observation under the model"""
    import z3
    from .values import SInt, SBool, SStr, SBytes, Seg
    from . import ops

    def ev(e):
        return model.eval(e, model_completion=True)
    if isinstance(v, SInt):
        return ev(v.e).as_signed_long()
    if isinstance(v, SBool):
        return bool(z3.is_true(ev(v.e)))
    if isinstance(v, SStr):
        return ''.join(chr(c if isinstance(c, int) else ev(c).as_long()) for c in v.cs)
    if isinstance(v, SBytes):
        out = bytearray()
        for s in v.segs:
            if isinstance(s, Seg):
                n = s.n if isinstance(s.n, int) else ev(s.n.e).as_signed_long()
                if n > 65536:
                    return None
                for j in range(n):
                    e = s.o.at(s.s + j)
                    out.append(ev(e).as_long())
            else:
                out.extend(c if isinstance(c, int) else ev(c).as_long() for c in s)
        return bytes(out)
    if isinstance(v, dict):
        with ops._hm():
            return {eval_obs(model, k): eval_obs(model, dict.__getitem__(v, k)) for k in list(v)}
    if isinstance(v, (list, tuple)):
        return [eval_obs(model, x) for x in v]
    return v
