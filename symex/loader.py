"""Rewrites the real source of the code under test so that its operations reach the symbolic proxies.

The rewriting is uniform (calls, subscripts, `in`, f-strings, `%`, dict/set displays, broad except
clauses) and independent of what the code is: any refactoring of the source is rewritten the same way.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
from . import ops

SRC = '/repo/src'


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.cls = []

    def rt(self, name, *args, keywords=()):
        return ast.Call(func=ast.Attribute(value=ast.Name(id='_sx_', ctx=ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=list(keywords))

    # -- structure
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        self.stack.pop()
        return n

    def _func(self, n):
        n.returns = None
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        self.stack.append(n.name)
        self.generic_visit(n)
        name = '%s.%s' % (self.mod, '.'.join(self.stack))
        self.stack.pop()
        call = ast.Expr(self.rt('enter', ast.Constant(name)))
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, call)
        return n
    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_AnnAssign(self, n):
        if n.value is None:
            return n
        n.value = self.visit(n.value)
        n.target = self.visit(n.target)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.body.insert(0, ast.Expr(self.rt('reraise')))
        return n

    # -- match: as tests and assignments, so that patterns see through the proxies
    def visit_Match(self, n):
        self.matches = getattr(self, 'matches', 0) + 1
        subj = '_sx_subject_%d' % self.matches
        head = ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=n.subject)
        chain = None
        for c in reversed(n.cases):
            test = self.pattern(c.pattern, ast.Name(id=subj, ctx=ast.Load()))
            if c.guard is not None:
                test = ast.BoolOp(op=ast.And(), values=[test, c.guard])
            chain = [ast.If(test=test, body=c.body, orelse=chain or [])]
        out = []
        for x in [head] + chain:
            r = self.visit(x)
            out += r if isinstance(r, list) else [r]
        return out

    def temp(self):
        self.temps = getattr(self, 'temps', 0) + 1
        return '_sx_part_%d' % self.temps

    def bind(self, name, value):
        """an assignment that is true"""
        return ast.Compare(left=ast.Tuple(elts=[ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value)], ctx=ast.Load()),
                           ops=[ast.IsNot()], comparators=[ast.Constant(None)])

    def pattern(self, p, x):
        """the test for a pattern on the value of the expression x (a name)"""
        def both(*parts):
            parts = [y for y in parts if y is not None]
            return parts[0] if len(parts) == 1 else ast.BoolOp(op=ast.And(), values=list(parts))

        def part(q, value):
            t = self.temp()
            return both(self.bind(t, value), self.pattern(q, ast.Name(id=t, ctx=ast.Load())))
        const = ast.Constant
        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=x, ops=[ast.Eq()], comparators=[p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=x, ops=[ast.Is()], comparators=[const(p.value)])
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                return const(True) if p.name is None else self.bind(p.name, x)
            return both(self.pattern(p.pattern, x), self.bind(p.name, x))
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[self.pattern(q, x) for q in p.patterns])
        if isinstance(p, ast.MatchSequence):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns) - len(star)
            parts = [self.rt('match_seq', x, const(n), const(bool(star)))]
            for i, q in enumerate(p.patterns):
                after = len(p.patterns) - i - 1
                if star and i == star[0]:
                    if q.name is not None:
                        parts.append(self.bind(q.name, self.rt('match_star', x, const(i), const(after))))
                else:
                    at = i if not star or i < star[0] else -after - 1
                    parts.append(part(q, ast.Subscript(value=x, slice=const(at), ctx=ast.Load())))
            return both(*parts)
        if isinstance(p, ast.MatchMapping):
            parts = [self.rt('match_map', x, *p.keys)]
            parts += [part(q, ast.Subscript(value=x, slice=k, ctx=ast.Load())) for k, q in zip(p.keys, p.patterns)]
            if p.rest is not None:
                parts.append(self.bind(p.rest, self.rt('match_rest', x, *p.keys)))
            return both(*parts)
        if isinstance(p, ast.MatchClass):
            parts = [self.rt('do_isinstance', x, p.cls)]
            parts += [part(q, self.rt('match_pos', x, p.cls, const(i))) for i, q in enumerate(p.patterns)]
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                parts.append(ast.Call(func=ast.Name(id='hasattr', ctx=ast.Load()), args=[x, const(a)], keywords=[]))
                parts.append(part(q, ast.Attribute(value=x, attr=a, ctx=ast.Load())))
            return both(*parts)
        raise NotImplementedError(type(p).__name__)

    # -- expressions
    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec', '__import__'):
            self.generic_visit(n)
            return n
        args = [self.visit(a) for a in n.args]
        kw = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in n.keywords]
        if isinstance(n.func, ast.Attribute):
            attr = n.func.attr
            if self.cls and attr.startswith('__') and not attr.endswith('__'):
                attr = '_' + self.cls[-1].lstrip('_') + attr
            return self.rt('callm', self.visit(n.func.value), ast.Constant(attr), *args, keywords=kw)
        return self.rt('call', self.visit(n.func), *args, keywords=kw)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            v = self.visit(n.value)
            return self.rt('getitem', v, self.sl(n.slice))
        n.value = self.rt('w', self.visit(n.value))
        n.slice = self.visit(n.slice)
        return n

    def sl(self, s):
        if isinstance(s, ast.Slice):
            f = [self.visit(x) if x is not None else ast.Constant(None) for x in (s.lower, s.upper, s.step)]
            return ast.Call(func=ast.Attribute(value=ast.Name(id='_sx_', ctx=ast.Load()), attr='slice', ctx=ast.Load()),
                            args=f, keywords=[])
        return self.visit(s)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            if isinstance(n.ops[0], ast.In):
                return self.rt('in_', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                return self.rt('not_in', n.left, n.comparators[0])
            op = type(n.ops[0]).__name__
            if op in ('Eq', 'NotEq', 'Lt', 'LtE', 'Gt', 'GtE') and not isinstance(n.left, ast.Constant) \
                    and not isinstance(n.comparators[0], ast.Constant):
                return self.rt('compare', ast.Constant(op), n.left, n.comparators[0])
            return n
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
            # a in b in c: evaluate pairwise (operands are simple in practice)
            parts = []
            left = n.left
            for o, r in zip(n.ops, n.comparators):
                if isinstance(o, ast.In):
                    parts.append(self.rt('in_', left, r))
                elif isinstance(o, ast.NotIn):
                    parts.append(self.rt('not_in', left, r))
                else:
                    parts.append(ast.Compare(left=left, ops=[o], comparators=[r]))
                left = r
            return ast.BoolOp(op=ast.And(), values=parts)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.rt('mod', n.left, n.right)
        if isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and not isinstance(n.left, ast.Constant) \
                and not isinstance(n.right, ast.Constant):
            return self.rt('setop', ast.Constant(type(n.op).__name__), n.left, n.right)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(n.target, ast.Name) \
                and not isinstance(n.value, ast.Constant):
            load = ast.Name(id=n.target.id, ctx=ast.Load())
            return ast.Assign(targets=[n.target], value=self.rt('isetop', ast.Constant(type(n.op).__name__), load, n.value))
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self.rt('fstr', *parts)

    def visit_Dict(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.keys):
            return n
        elts = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                k = ast.Attribute(value=ast.Name(id='_sx_', ctx=ast.Load()), attr='MISSING', ctx=ast.Load())
            elts.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
        return self.rt('mkdict', ast.List(elts=elts, ctx=ast.Load()))

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return self.rt('mkdict', ast.ListComp(elt=ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()),
                                              generators=n.generators))

    def visit_Set(self, n):
        self.generic_visit(n)
        if all(isinstance(k, ast.Constant) for k in n.elts):
            return n
        return self.rt('mkset', ast.List(elts=n.elts, ctx=ast.Load()))

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return self.rt('mkset', ast.ListComp(elt=n.elt, generators=n.generators))


def rewrite(source, path, modname):
    tree = ast.parse(source, path)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec', dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots      # {top package: directory}
        self.loaded = []

    def find_spec(self, name, path=None, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isfile(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(name, self, origin=f, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + '.py'):
            f = base + '.py'
            spec = importlib.machinery.ModuleSpec(name, self, origin=f)
        elif os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        else:
            return None
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        f = m.__spec__.origin
        with open(f, 'rb') as fh:
            src = fh.read()
        m.__dict__['_sx_'] = ops
        m.__dict__['__builtins__'] = BUILTINS
        exec(rewrite(src, f, m.__name__), m.__dict__)
        self.loaded.append(m)
        if SNAP is not None:        # imported on the way: as it is now is how every later path finds it
            snapshot_of([m], SNAP)


# pure Python modules of the standard library that the code under test gets in rewritten form
STD = {}


class NoCache(dict):
    def __setitem__(self, k, v):
        pass


def std_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in ('pathlib', 'glob', 'fnmatch', 'textwrap', 'filecmp'):
        if name not in STD:
            import types
            import importlib.util
            m = types.ModuleType(name)
            f = importlib.util.find_spec(name).origin
            with open(f, 'rb') as fh:
                src = fh.read()
            m.__dict__.update(_sx_=ops, __builtins__=BUILTINS, __file__=f)
            exec(rewrite(src, f, name), m.__dict__)
            if name == 'filecmp':        # no modification times here: nothing to recognise a changed file by
                m._cache = NoCache()
            STD[name] = m
        return STD[name]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(vars(builtins), __import__=std_import)


FINDER = None


def install(roots):
    global FINDER
    import types
    tq = types.ModuleType('tqdm')

    class tqdm:
        def __init__(self, it=None, *a, **k):
            self.it = it

        def __iter__(self):
            return iter(self.it)

        def update(self, *a): pass
        def close(self): pass
        def set_description(self, *a): pass
        def __enter__(self): return self
        def __exit__(self, *a): pass
    tq.tqdm = tqdm
    tq.auto = types.ModuleType('tqdm.auto')
    tq.auto.tqdm = tqdm
    sys.modules['tqdm'] = tq
    sys.modules['tqdm.auto'] = tq.auto
    FINDER = Finder(roots)
    sys.meta_path.insert(0, FINDER)
    from . import models      # noqa
    ops.slice = slice


# ------------------------------------------------------------------ module state between paths
def _copyable(v):
    return type(v) in (list, dict, set)


def _functions(holder):
    """the functions a module or class holds, seen through static and class methods, properties and wrappers"""
    for v in list(vars(holder).values()):
        for f in (v, getattr(v, '__func__', None), getattr(v, '__wrapped__', None),
                  getattr(v, 'fget', None), getattr(v, 'fset', None)):
            if type(f) is type(_functions):
                yield f


def _defaults(f):
    d = list(f.__defaults__ or ())
    return [x for x in d + list((f.__kwdefaults__ or {}).values()) if _copyable(x)]


def _put_back(v, c):
    import copy
    if v != c:
        if isinstance(v, list):
            v[:] = copy.deepcopy(c)
        else:
            v.clear()
            v.update(copy.deepcopy(c))


class _Defaults:
    """mutable default values of parameters live as long as the process does: every path starts from fresh ones"""
    def __init__(self):
        self.seen = {}

    def add(self, holder):
        import copy
        for f in _functions(holder):
            for v in _defaults(f):
                self.seen.setdefault(id(v), (v, copy.deepcopy(v)))


SNAP = None


def snapshot_of(modules, snap):
    import copy
    dflt = _Defaults()
    for m in modules:
        if not m.__name__.startswith('v8unpack'):
            continue
        for holder in [m] + [c for c in vars(m).values() if isinstance(c, type) and c.__module__ == m.__name__]:
            st = {}
            for k, v in list(vars(holder).items()):
                if k.startswith('__'):
                    continue
                st[k] = (v, copy.deepcopy(v) if _copyable(v) else None)
            snap.append((holder, st))
            dflt.add(holder)
    snap.append((dflt, None))


def snapshot():
    global SNAP
    SNAP = []
    snapshot_of(FINDER.loaded, SNAP)
    return SNAP


def restore(snap):
    for holder, st in snap:
        if st is None:
            for v, c in holder.seen.values():
                _put_back(v, c)
            continue
        cur = vars(holder)
        for k in [k for k in cur if not k.startswith('__') and k not in st]:
            v = cur[k]
            if isinstance(v, type(sys)):
                continue
            delattr(holder, k)
        for k, (v, c) in st.items():
            if cur.get(k) is not v:
                setattr(holder, k, v)
            clear = getattr(getattr(v, '__func__', v), 'cache_clear', None)
            if callable(clear):
                clear()
            if c is not None:
                _put_back(v, c)
