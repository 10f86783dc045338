"""Path-exploring core: a depth-first symbolic executor by re-execution.

The program under test runs as ordinary Python on proxy values.  Every time a proxy is asked for a
concrete truth value, `Ctx.branch` decides with z3 which outcomes are possible under the current
path condition, takes one, and schedules the other for a later re-execution.  A run over a harness
ends when every feasible path has been executed (exhausted) or a stated cap is reached.
"""
import time
import z3

z3.set_param('smt.random_seed', 0)


class Control(BaseException):
    """Engine control flow; never to be caught by code under test."""


class Infeasible(Control):
    pass


class PathAbort(Control):
    """this path is given up (outside the stated bounds); recorded"""


class Found(Control):
    def __init__(self, msg, model):
        self.msg, self.model = msg, model


class EngineError(Control):
    pass


# ------------------------------------------------------------------ character sets
class CS:
    """set of ints as sorted disjoint inclusive ranges"""
    __slots__ = ('r', '_n')

    def __init__(self, ranges):
        self.r = tuple(ranges)
        self._n = None

    @staticmethod
    def norm(ranges):
        out = []
        for a, b in sorted(ranges):
            if a > b:
                continue
            if out and a <= out[-1][1] + 1:
                if b > out[-1][1]:
                    out[-1] = (out[-1][0], b)
            else:
                out.append((a, b))
        return CS(out)

    @staticmethod
    def of(*chars):
        return CS.norm([(c, c) if isinstance(c, int) else (ord(c), ord(c)) for c in chars])

    @staticmethod
    def chars(s):
        return CS.norm([(ord(c), ord(c)) for c in s])

    def size(self):
        if self._n is None:
            self._n = sum(b - a + 1 for a, b in self.r)
        return self._n

    def __contains__(self, x):
        for a, b in self.r:
            if a <= x <= b:
                return True
            if x < a:
                return False
        return False

    def inter(self, o):
        out = []
        i = j = 0
        A, B = self.r, o.r
        while i < len(A) and j < len(B):
            lo = max(A[i][0], B[j][0])
            hi = min(A[i][1], B[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if A[i][1] < B[j][1]:
                i += 1
            else:
                j += 1
        return CS(out)

    def comp(self, maxv=0x1FFFFF):
        out = []
        p = 0
        for a, b in self.r:
            if p <= a - 1:
                out.append((p, a - 1))
            p = b + 1
        if p <= maxv:
            out.append((p, maxv))
        return CS(out)

    def minus(self, o):
        return self.inter(o.comp())

    def union(self, o):
        return CS.norm(self.r + o.r)

    def first(self):
        return self.r[0][0]

    def __eq__(self, o):
        return isinstance(o, CS) and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __repr__(self):
        return 'CS(%s)' % (self.r,)


_pred_cache = {}


def pred_cs(name, f):
    if name not in _pred_cache:
        r = []
        start = None
        for i in range(0x110000):
            if f(chr(i)):
                if start is None:
                    start = i
            elif start is not None:
                r.append((start, i - 1))
                start = None
        if start is not None:
            r.append((start, 0x10FFFF))
        _pred_cache[name] = CS(r)
    return _pred_cache[name]


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


class Stats:
    FIELDS = ('paths', 'branches', 'solver_checks', 'domain_decisions', 'obligations', 'discharged',
              'infeasible', 'aborted', 'concretized', 'unknown')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.abort_reasons = {}
        self.concretize_reasons = {}
        self.functions = set()
        self.exhausted = False
        self.witness = []
        self.samples = []


class Entry:
    __slots__ = ('expr', 'taken', 'open', 'model')

    def __init__(self, expr, taken, open_, model=None):
        self.expr, self.taken, self.open, self.model = expr, taken, open_, model


class Ctx:
    cur = None

    def __init__(self, query_timeout_ms=20000, max_paths=10 ** 9, deadline=None, seed=1):
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.solver.set('random_seed', 0)
        self.trace = []
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = deadline
        self._vars_cache = {}
        self.max_branches = 200000

    # ---------------------------------------------------------------- variables
    def reset_path(self):
        self.pos = 0
        self.dom = {}       # var id -> CS  (char variables)
        self.varref = {}
        self.tainted = set()
        self.inputs = {}    # name -> recipe
        self.names = {}
        self.model = None
        self.known = {}
        self.keep = []
        self.path_flags = []
        self.hexchars = {}
        self.comp = {}
        self.bnd = {}       # atom id -> interval on this path
        self.nbranch = 0

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    def char_var(self, name, width, cs):
        v = z3.BitVec(self.fresh_name(name), width)
        self.dom[v.get_id()] = cs
        self.varref[v.get_id()] = v
        full = (1 << width) - 1
        if cs.r != ((0, full),):
            self.add_fact(self.in_expr(v, cs), taint=False)
        return v

    def bv_var(self, name, width):
        return z3.BitVec(self.fresh_name(name), width)

    # ---------------------------------------------------------------- helpers
    @staticmethod
    def in_expr(v, cs):
        w = v.size()
        full = (1 << w) - 1
        alts = []
        for a, b in cs.r:
            if a > full:
                break
            b = min(b, full)
            if a == b:
                alts.append(v == z3.BitVecVal(a, w))
            elif a == 0 and b == full:
                return TRUE
            elif a == 0:
                alts.append(z3.ULE(v, z3.BitVecVal(b, w)))
            elif b == full:
                alts.append(z3.UGE(v, z3.BitVecVal(a, w)))
            else:
                alts.append(z3.And(z3.UGE(v, z3.BitVecVal(a, w)), z3.ULE(v, z3.BitVecVal(b, w))))
        if not alts:
            return FALSE
        return alts[0] if len(alts) == 1 else z3.Or(*alts)

    def vars_of(self, e):
        k = e.get_id()
        r = self._vars_cache.get(k)
        if r is not None:
            return r[0]
        out = set()
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self._vars_cache.get(i)
            if c is not None:
                out |= c[0]
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
            else:
                st.extend(x.children())
        if len(self._vars_cache) > 200000:
            self._vars_cache.clear()
        self._vars_cache[k] = (frozenset(out), e)   # keep e alive so that ids stay unique
        return self._vars_cache[k][0]

    def _check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_checks += 1
        self.stats.solver_s += time.time() - t
        return r

    def _budget(self):
        self.nbranch += 1
        if self.nbranch > self.max_branches:
            raise PathAbort('branch-budget')
        if self.deadline is not None and (self.nbranch & 63) == 0 and time.time() > self.deadline:
            raise EngineError('deadline')

    # ---------------------------------------------------------------- decisions
    def add_fact(self, e, taint=True):
        """assert e on the current path (no alternative)"""
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            self.pos += 1
        else:
            self.solver.push()
            self.solver.add(e)
            self.trace.append(Entry(e, True, False))
            self.pos += 1
            if self.model is not None and not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None
        if taint:
            self.tainted |= self.vars_of(e)

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        new = self.pos >= len(self.trace)
        self.add_fact(e)
        if new:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Infeasible()
            else:
                self.stats.unknown += 1
                self.model = None
        return self.model

    def branch(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = e.get_id()
        if k in self.known:
            return self.known[k]
        taken = self._decide(e, None)
        self.tainted |= self.vars_of(e)
        self._remember(e, taken)
        return taken

    def _remember(self, e, taken):
        self.keep.append(e)
        self.known[e.get_id()] = taken
        if z3.is_not(e):
            c = e.children()[0]
            self.known[c.get_id()] = not taken
        else:
            ne = z3.simplify(z3.Not(e))
            self.keep.append(ne)
            self.known[ne.get_id()] = not taken

    def _decide(self, e, dom_choice):
        """dom_choice: None (ask the solver) or 'both' (both sides known feasible)"""
        self._budget()
        self.stats.branches += 1
        if self.pos < len(self.trace):
            ent = self.trace[self.pos]
            self.pos += 1
            if not (ent.expr.eq(e)) and not self._equiv(ent.expr, e):
                raise EngineError('nondeterministic replay:\n %s\n %s' % (ent.expr, e))
            if self.pos == len(self.trace) and ent.model is not None:
                self.model = ent.model
            return ent.taken
        ne = z3.Not(e)
        if dom_choice == 'both':
            m = self.model
            if m is not None:
                v = m.eval(e, model_completion=True)
                taken = bool(z3.is_true(v))
            else:
                taken = False
            self.stats.domain_decisions += 1
            self.solver.push()
            self.solver.add(e if taken else ne)
            self.trace.append(Entry(e, taken, True))
            self.pos += 1
            return taken
        m = self._ensure_model()
        if m is not None:
            taken = bool(z3.is_true(m.eval(e, model_completion=True)))
            r = self._check(ne if taken else e)
            alt_model = None
            if r == z3.sat:
                alt_model = self.solver.model()
                open_ = True
            elif r == z3.unsat:
                open_ = False
            else:
                self.stats.unknown += 1
                open_ = True
        else:
            taken, open_, alt_model = True, True, None
        self.solver.push()
        self.solver.add(e if taken else ne)
        self.trace.append(Entry(e, taken, open_, alt_model))
        self.pos += 1
        return taken

    @staticmethod
    def _equiv(a, b):
        s = z3.Solver()
        s.set('timeout', 5000)
        s.add(z3.Xor(a, b))
        return s.check() == z3.unsat

    def branch_in(self, v, cs):
        """is the char expression v in cs?  v: BitVecRef"""
        k = v.get_id()
        d = self.dom.get(k)
        if d is None:
            return self.branch(self.in_expr(v, cs))
        i = d.inter(cs)
        if not i.r:
            return False
        if i.r == d.r:
            return True
        if k in self.tainted:
            e = self.in_expr(v, i)
            se = z3.simplify(e)
            if z3.is_true(se):
                r = True
            elif z3.is_false(se):
                r = False
            elif se.get_id() in self.known:
                r = self.known[se.get_id()]
            else:
                r = self._decide(se, None)
                self._remember(se, r)
        else:
            r = self._decide(self.in_expr(v, i), 'both')
        self.dom[k] = i if r else d.minus(cs)
        return r

    def fixed(self, v):
        """the concrete value of char expr v if its domain is a singleton, else v"""
        d = self.dom.get(v.get_id())
        if d is not None and len(d.r) == 1 and d.r[0][0] == d.r[0][1]:
            return d.r[0][0]
        return v

    # ---------------------------------------------------------------- obligations
    def must(self, cond, msg):
        """the property: cond holds on this path for every value"""
        e = cond if not isinstance(cond, bool) else z3.BoolVal(cond)
        self.stats.obligations += 1
        r = self._check(z3.Not(e))
        if r == z3.sat:
            raise Found(msg, self.solver.model())
        if r == z3.unknown:
            self.stats.unknown += 1
            self.path_flags.append('unknown:' + msg)
            return
        self.stats.discharged += 1

    def fail(self, msg):
        """the property is broken on this path, for every value of the path"""
        self.stats.obligations += 1
        r = self._check()
        if r == z3.sat:
            raise Found(msg, self.solver.model())
        if r == z3.unsat:
            self.stats.discharged += 1
            raise Infeasible()
        self.stats.unknown += 1
        raise PathAbort('unknown')

    def concretize_bv(self, e, reason, signed=True, limit=4096, exhaustive=True):
        """enumerate the values of e by forking"""
        n = 0
        while True:
            if self.pos < len(self.trace):
                ent = self.trace[self.pos]
                # the entry's expression is (e == val); recover val from it
                val = self._val_of_eq(ent.expr, e)
                if val is None:
                    raise EngineError('nondeterministic replay in concretize')
                eq = ent.expr
            else:
                m = self._ensure_model()
                if m is None:
                    raise PathAbort('unknown')
                val = m.eval(e, model_completion=True).as_long()
                eq = z3.simplify(e == z3.BitVecVal(val, e.size()))
                if z3.is_true(eq):
                    return self._sgn(val, e.size(), signed)
                self._last_vals = getattr(self, '_last_vals', {})
                self._last_vals[eq.get_id(), e.get_id()] = (eq, e, val)
            if self._decide(eq, None):
                self.tainted |= self.vars_of(eq)
                self._remember(eq, True)
                return self._sgn(val, e.size(), signed)
            self.tainted |= self.vars_of(eq)
            n += 1
            if n >= limit:
                self.stats.concretized += 1
                self.stats.concretize_reasons[reason] = self.stats.concretize_reasons.get(reason, 0) + 1
                raise PathAbort('concretization limit: ' + reason)

    def _val_of_eq(self, expr, e):
        d = getattr(self, '_last_vals', {})
        r = d.get((expr.get_id(), e.get_id()))
        return r[2] if r is not None else None

    @staticmethod
    def _sgn(v, w, signed):
        if signed and v >= 1 << (w - 1):
            v -= 1 << w
        return v

    # ---------------------------------------------------------------- exploration
    def next_path(self):
        """backtrack; False when the tree is exhausted"""
        while self.trace:
            ent = self.trace[-1]
            self.solver.pop()
            if ent.open:
                ent.taken = not ent.taken
                ent.open = False
                self.solver.push()
                self.solver.add(ent.expr if ent.taken else z3.Not(ent.expr))
                return True
            self.trace.pop()
        return False


def C():
    return Ctx.cur
