"""re over symbolic strings: a backtracking matcher on the stdlib's own parse tree."""
import re
import z3
import re._constants as K
import re._parser as P
from .core import C, CS, pred_cs, PathAbort
from .values import SStr, ch_in, ch_eq, char_items, mkstr, mkbytes, is_str, is_bytes, SBytes, W_CH

FULL = CS([(0, 0x10FFFF)])
MAXREPEAT = K.MAXREPEAT


def category(cat, flags):
    asc = bool(flags & re.ASCII)

    def p(name, f):
        cs = pred_cs(name, f)
        return cs.inter(CS([(0, 127)])) if asc else cs
    if cat in (K.CATEGORY_DIGIT, K.CATEGORY_NOT_DIGIT):
        cs = p('isdecimal', str.isdecimal)
    elif cat in (K.CATEGORY_SPACE, K.CATEGORY_NOT_SPACE):
        cs = CS.chars(' \t\n\r\x0b\x0c') if asc else pred_cs('isspace', str.isspace)
    else:
        cs = p('w', lambda c: c.isalnum() or c == '_')
    if cat in (K.CATEGORY_NOT_DIGIT, K.CATEGORY_NOT_SPACE, K.CATEGORY_NOT_WORD):
        cs = cs.comp(0x10FFFF)
    return cs


def casefold_cs(cs, flags):
    if not flags & re.IGNORECASE:
        return cs
    out = list(cs.r)
    if cs.size() < 3000:
        for a, b in cs.r:
            for c in range(a, b + 1):
                for m in (chr(c).lower(), chr(c).upper()):
                    if len(m) == 1:
                        out.append((ord(m), ord(m)))
    else:
        return cs
    return CS.norm(out)


def set_of(av, flags):
    neg = False
    cs = CS([])
    for op, a in av:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            cs = cs.union(CS(((a, a),)))
        elif op is K.RANGE:
            cs = cs.union(CS((tuple(a),)))
        elif op is K.CATEGORY:
            cs = cs.union(category(a, flags))
        else:
            raise PathAbort('regex set %s' % op)
    cs = casefold_cs(cs, flags)
    return cs.comp(0x10FFFF) if neg else cs


class M:
    """match state"""
    def __init__(self, s):
        self.s = s
        self.n = len(s)


def seq(m, items, idx, pos, g, flags, cont):
    """match items[idx:] at pos; cont(pos, groups) -> result or None"""
    if idx == len(items):
        return cont(pos, g)
    op, av = items[idx]

    def nxt(p, gg):
        return seq(m, items, idx + 1, p, gg, flags, cont)
    if op is K.LITERAL:
        if pos < m.n and inset(m.s[pos], casefold_cs(CS(((av, av),)), flags)):
            return nxt(pos + 1, g)
        return None
    if op is K.NOT_LITERAL:
        if pos < m.n and not inset(m.s[pos], casefold_cs(CS(((av, av),)), flags)):
            return nxt(pos + 1, g)
        return None
    if op is K.ANY:
        if pos < m.n and (flags & re.DOTALL or not inset(m.s[pos], CS(((10, 10),)))):
            return nxt(pos + 1, g)
        return None
    if op is K.IN:
        if pos < m.n and inset(m.s[pos], set_of(av, flags)):
            return nxt(pos + 1, g)
        return None
    if op is K.CATEGORY:
        if pos < m.n and inset(m.s[pos], category(av, flags)):
            return nxt(pos + 1, g)
        return None
    if op is K.AT:
        if at(m, av, pos, flags):
            return nxt(pos, g)
        return None
    if op is K.BRANCH:
        for alt in av[1]:
            r = seq(m, list(alt), 0, pos, g, flags, nxt)
            if r is not None:
                return r
        return None
    if op is K.SUBPATTERN:
        group, add, dele, p = av
        fl = (flags | add) & ~dele

        def close(pp, gg):
            if group is not None:
                gg = dict(gg)
                gg[group] = (pos, pp)
            return seq(m, items, idx + 1, pp, gg, flags, cont)
        return seq(m, list(p), 0, pos, g, fl, close)
    if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
        lo, hi, p = av
        p = list(p)
        if op is K.POSSESSIVE_REPEAT:
            pp, gg, c = pos, g, 0
            while c < hi:
                r = seq(m, p, 0, pp, gg, flags, lambda a, b: (a, b))
                if r is None or r[0] == pp:
                    break
                pp, gg = r
                c += 1
            return nxt(pp, gg) if c >= lo else None

        def rep(count, pp, gg):
            if op is K.MAX_REPEAT:
                if count < hi:
                    def again(np, ng):
                        if np == pp and count >= lo:
                            return None
                        return rep(count + 1, np, ng)
                    r = seq(m, p, 0, pp, gg, flags, again)
                    if r is not None:
                        return r
                return nxt(pp, gg) if count >= lo else None
            if count >= lo:
                r = nxt(pp, gg)
                if r is not None:
                    return r
            if count < hi:
                def again2(np, ng):
                    if np == pp and count >= lo:
                        return None
                    return rep(count + 1, np, ng)
                return seq(m, p, 0, pp, gg, flags, again2)
            return None
        return rep(0, pos, g)
    if op is K.GROUPREF:
        if av not in g:
            return None
        a, b = g[av]
        k = b - a
        if pos + k > m.n:
            return None
        for i in range(k):
            r = ch_eq(m.s[a + i], m.s[pos + i])
            if r is False or (r is not True and not C().branch(r)):
                return None
        return nxt(pos + k, g)
    if op in (K.ASSERT, K.ASSERT_NOT):
        direction, p = av
        if direction < 0:
            lo, hi = p.getwidth()
            if lo != hi:
                raise PathAbort('lookbehind')
            start = pos - lo
            r = None if start < 0 else seq(m, list(p), 0, start, g, flags, lambda a, b: (a, b))
        else:
            r = seq(m, list(p), 0, pos, g, flags, lambda a, b: (a, b))
        if op is K.ASSERT:
            return nxt(pos, r[1]) if r is not None else None
        return nxt(pos, g) if r is None else None
    if op is K.ATOMIC_GROUP:
        r = seq(m, list(av), 0, pos, g, flags, lambda a, b: (a, b))
        return nxt(*r) if r is not None else None
    raise PathAbort('regex op %s' % op)


def inset(c, cs):
    return bool(ch_in(c, cs))


def at(m, av, pos, flags):
    ml = flags & re.MULTILINE
    nl = CS(((10, 10),))
    if av is K.AT_BEGINNING or av is K.AT_BEGINNING_STRING:
        if pos == 0:
            return True
        return bool(ml) and av is K.AT_BEGINNING and inset(m.s[pos - 1], nl)
    if av is K.AT_END:
        if pos == m.n:
            return True
        if ml:
            return inset(m.s[pos], nl)
        return pos == m.n - 1 and inset(m.s[pos], nl)
    if av is K.AT_END_STRING:
        return pos == m.n
    if av in (K.AT_BOUNDARY, K.AT_NON_BOUNDARY):
        w = category(K.CATEGORY_WORD, flags)
        a = pos > 0 and inset(m.s[pos - 1], w)
        b = pos < m.n and inset(m.s[pos], w)
        return (a != b) == (av is K.AT_BOUNDARY)
    raise PathAbort('regex at %s' % av)


_parsed = {}


def parsed(pat):
    k = (pat.pattern, pat.flags)
    if k not in _parsed:
        p = P.parse(pat.pattern, pat.flags & ~re.UNICODE if isinstance(pat.pattern, str) else pat.flags)
        _parsed[k] = (list(p), p.state.groups, dict(p.state.groupdict))
    return _parsed[k]


class SMatch:
    def __init__(self, pat, s, span, groups, pos=0, endpos=None):
        self.re, self.string, self._span, self._g = pat, s, span, groups
        self.pos, self.endpos = pos, endpos
        _, self._n, self._names = parsed(pat)

    def _idx(self, i):
        if isinstance(i, str):
            if i not in self._names:
                raise IndexError('no such group')
            i = self._names[i]
        if i < 0 or i >= self._n:
            raise IndexError('no such group')
        return i

    def span(self, i=0):
        i = self._idx(i)
        return self._span if i == 0 else self._g.get(i, (-1, -1))

    def start(self, i=0): return self.span(i)[0]
    def end(self, i=0): return self.span(i)[1]

    def _one(self, i, default=None):
        a, b = self.span(i)
        return default if a < 0 else self.string[a:b]

    def group(self, *ids):
        if not ids:
            return self._one(0)
        if len(ids) == 1:
            return self._one(ids[0])
        return tuple(self._one(i) for i in ids)

    def __getitem__(self, i):
        return self._one(i)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self._n))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self._names.items()}

    @property
    def lastindex(self):
        return max(self._g) if self._g else None

    @property
    def lastgroup(self):
        for k, v in self._names.items():
            if v == self.lastindex:
                return k

    def expand(self, template):
        return expand(self, template)

    def __bool__(self):
        return True


def expand(m, tmpl):
    t = P.parse_template(tmpl, m.re)
    # 3.12: list of literals / group indexes interleaved
    out = []
    if isinstance(t, tuple):
        raise PathAbort('template form')
    for x in t:
        if isinstance(x, int):
            out.extend(char_items(m._one(x, '')))
        else:
            out.extend(char_items(x))
    return mkstr(out)


def match_at(pat, s, pos, end, full=False):
    items, _, _ = parsed(pat)
    cs = char_items(s)[:end]
    m = M(cs)
    r = seq(m, items, 0, pos, {}, pat.flags, lambda p, g: (p, g) if not full or p == m.n else None)
    if r is None:
        return None
    return SMatch(pat, s, (pos, r[0]), r[1])


def op_match(pat, s, pos=0, endpos=None):
    n = len(char_items(s))
    return match_at(pat, s, min(pos, n), n if endpos is None else min(endpos, n))


def op_fullmatch(pat, s, pos=0, endpos=None):
    n = len(char_items(s))
    return match_at(pat, s, min(pos, n), n if endpos is None else min(endpos, n), True)


def op_search(pat, s, pos=0, endpos=None):
    n = len(char_items(s))
    e = n if endpos is None else min(endpos, n)
    for i in range(pos, e + 1):
        r = match_at(pat, s, i, e)
        if r is not None:
            return r
    return None


def op_finditer(pat, s, pos=0, endpos=None):
    n = len(char_items(s))
    e = n if endpos is None else min(endpos, n)
    i = pos
    must_adv = None
    while i <= e:
        r = match_at(pat, s, i, e)
        if r is None or (r.end() == r.start() == must_adv):
            i += 1
            continue
        yield r
        if r.end() == r.start():
            must_adv = None
            i = r.end() + 1
        else:
            i = r.end()
            must_adv = None


def op_findall(pat, s, *a):
    out = []
    for m in op_finditer(pat, s, *a):
        g = m.groups('')
        out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
    return out


def op_subn(pat, repl, s, count=0):
    from .ops import call
    out = []
    last = 0
    n = 0
    for m in op_finditer(pat, s):
        if count and n >= count:
            break
        out.extend(char_items(s[last:m.start()]))
        if is_str(repl):
            if isinstance(repl, SStr):
                # only backslash matters in a template
                if any(bool(ch_in(c, CS.chars('\\'))) for c in repl.cs):
                    raise PathAbort('symbolic template with backslash')
                out.extend(repl.cs)
            else:
                out.extend(char_items(expand(m, repl)))
        else:
            out.extend(char_items(call(repl, m)))
        last = m.end()
        n += 1
    out.extend(char_items(s[last:]))
    return mkstr(out), n


def op_sub(pat, repl, s, count=0):
    return op_subn(pat, repl, s, count)[0]


def op_split(pat, s, maxsplit=0):
    out = []
    last = 0
    n = 0
    for m in op_finditer(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(s[last:m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out


OPS = {'match': op_match, 'fullmatch': op_fullmatch, 'search': op_search, 'finditer': op_finditer,
       'findall': op_findall, 'sub': op_sub, 'subn': op_subn, 'split': op_split}


# ------------------------------------------------------------------ bytes: matched as the latin-1 text of them
_bpat = {}


def _text(b):
    if is_str(b):
        raise TypeError('cannot use a bytes pattern on a string-like object')
    items = b.items() if isinstance(b, SBytes) else tuple(bytes(b))
    return mkstr(tuple(c if isinstance(c, int) else z3.simplify(z3.ZeroExt(W_CH - 8, c)) for c in items))


def _bytes(s):
    if s is None:
        return None
    out = []
    for c in char_items(s):
        if not isinstance(c, int):
            c = z3.simplify(z3.Extract(7, 0, c))
            c = c.as_long() if z3.is_bv_value(c) else c
        out.append(c)
    return mkbytes([tuple(out)])


class SBMatch:
    """match over bytes"""

    def __init__(self, m, pat, b):
        self.m, self.re, self.string = m, pat, b

    def __getattr__(self, n):
        return getattr(self.m, n)

    def group(self, *ids):
        r = self.m.group(*ids)
        return tuple(map(_bytes, r)) if isinstance(r, tuple) else _bytes(r)

    def __getitem__(self, i):
        return _bytes(self.m[i])

    def groups(self, default=None):
        return tuple(default if x is None else _bytes(x) for x in self.m.groups())

    def groupdict(self, default=None):
        return {k: default if v is None else _bytes(v) for k, v in self.m.groupdict().items()}

    def expand(self, tmpl):
        return _bytes(self.m.expand(bytes(tmpl).decode('latin-1')))


def bytes_op(name, pat, *a, **k):
    p = _bpat.get(pat)
    if p is None:
        p = _bpat[pat] = re.compile(pat.pattern.decode('latin-1'), (pat.flags & ~re.LOCALE) | re.ASCII)
    a = list(a)
    if name in ('sub', 'subn'):
        b = a[1]
        if callable(a[0]):
            f = a[0]
            from .ops import call
            a[0] = lambda m: _text(call(f, SBMatch(m, pat, b)))
        else:
            a[0] = bytes(a[0]).decode('latin-1') if not isinstance(a[0], SBytes) else _text(a[0])
        a[1] = _text(b)
        r = OPS[name](p, *a, **k)
        return (_bytes(r[0]), r[1]) if name == 'subn' else _bytes(r)
    b = a[0]
    a[0] = _text(b)
    r = OPS[name](p, *a, **k)
    if name in ('match', 'fullmatch', 'search'):
        return None if r is None else SBMatch(r, pat, b)
    if name == 'finditer':
        return iter([SBMatch(m, pat, b) for m in r])
    return [tuple(map(_bytes, x)) if isinstance(x, tuple) else _bytes(x) for x in r]
