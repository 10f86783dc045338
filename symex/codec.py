"""Text encodings over symbolic characters/bytes (exact; forks on encoding length classes)."""
import codecs
import z3
from .core import C, CS
from .values import (SStr, SBytes, mkstr, mkbytes, ch_in, char_items, bv, W_CH, is_str, byte_segs, pred_cs)

SURR = CS([(0xD800, 0xDFFF)])


def norm_enc(enc):
    if not isinstance(enc, str):
        enc = enc.concrete('encoding')
    n = codecs.lookup(enc).name
    return n


def _reg(key_items, enc, c):
    ctx = C()
    m = ctx.__dict__.setdefault('encmap', {})
    m[(enc,) + tuple(x if isinstance(x, int) else ('e', x.get_id()) for x in key_items)] = (c, key_items)


def _look(enc, items):
    m = C().__dict__.get('encmap')
    if not m:
        return None
    r = m.get((enc,) + tuple(x if isinstance(x, int) else ('e', x.get_id()) for x in items))
    return r[0] if r else None


def _ex(e, hi, lo):
    return z3.simplify(z3.Extract(hi, lo, e))


def _or(v, e):
    """v | e for an 8-bit const v and an expression narrower than 8 bits"""
    return z3.simplify(bv(v, 8) | z3.ZeroExt(8 - e.size(), e))


_single = {}


def single_table(enc):
    if enc not in _single:
        d = {}
        for b in range(256):
            try:
                d[b] = ord(bytes([b]).decode(enc))
            except UnicodeDecodeError:
                pass
        delta = {}
        for b, u in d.items():
            delta.setdefault(u - b, []).append((b, b))
        _single[enc] = (d, {k: CS.norm(v) for k, v in delta.items()}, CS.norm([(u, u) for u in d.values()]))
    return _single[enc]


def encode(s, enc='utf-8', errors='strict'):
    n = norm_enc(enc)
    if not isinstance(s, SStr):
        return s.encode(enc, errors)
    out = []
    if errors not in ('strict', 'surrogatepass'):
        return s.concrete('encode errors').encode(enc, errors)
    bom = b''
    if n == 'utf-8-sig':
        bom, n = codecs.BOM_UTF8, 'utf-8'
    elif n == 'utf-16':
        bom, n = codecs.BOM_UTF16_LE, 'utf-16-le'
    elif n == 'utf-32':
        bom, n = codecs.BOM_UTF32_LE, 'utf-32-le'
    out.extend(bom)
    for pos, c in enumerate(s.cs):
        if isinstance(c, int):
            try:
                out.extend(chr(c).encode(n, errors))
            except UnicodeEncodeError as e:
                raise UnicodeEncodeError(n, chr(c), 0, 1, e.reason)
            continue
        if n == 'utf-8':
            if bool(ch_in(c, CS(((0, 0x7F),)))):
                it = (_ex(c, 7, 0),)
                h = C().hexchars.get(c.get_id())
                if h is not None and not z3.is_bv_value(it[0]):
                    C().hexchars[it[0].get_id()] = (it[0], h[1])
            elif bool(ch_in(c, CS(((0x80, 0x7FF),)))):
                it = (_or(0xC0, _ex(c, 10, 6)), _or(0x80, _ex(c, 5, 0)))
            elif bool(ch_in(c, SURR)):
                raise UnicodeEncodeError('utf-8', '\ud800', 0, 1, 'surrogates not allowed')
            elif bool(ch_in(c, CS(((0x800, 0xFFFF),)))):
                it = (_or(0xE0, _ex(c, 15, 12)), _or(0x80, _ex(c, 11, 6)), _or(0x80, _ex(c, 5, 0)))
            else:
                it = (_or(0xF0, _ex(c, 20, 18)), _or(0x80, _ex(c, 17, 12)), _or(0x80, _ex(c, 11, 6)),
                      _or(0x80, _ex(c, 5, 0)))
        elif n in ('utf-16-le', 'utf-16-be'):
            if bool(ch_in(c, SURR)):
                raise UnicodeEncodeError(n, '\ud800', 0, 1, 'surrogates not allowed')
            if bool(ch_in(c, CS(((0, 0xFFFF),)))):
                it = (_ex(c, 7, 0), _ex(c, 15, 8))
            else:
                x = z3.simplify(c - bv(0x10000, W_CH))
                it = (_ex(x, 17, 10), _or(0xD8, _ex(x, 19, 18)), _ex(x, 7, 0), _or(0xDC, _ex(x, 9, 8)))
            if n.endswith('be'):
                it = tuple(y for i in range(0, len(it), 2) for y in (it[i + 1], it[i]))
        elif n in ('cp1251', 'ascii', 'iso8859-1', 'cp866', 'koi8-r', 'cp1252'):
            d, delta, dom = single_table(n)
            if not bool(ch_in(c, dom)):
                raise UnicodeEncodeError(n, '?', 0, 1, 'character maps to <undefined>')
            e = bv(63, 8)
            for dl, cs in delta.items():
                ucs = CS.norm([(a + dl, b + dl) for a, b in cs.r])
                e = z3.If(C().in_expr(c, ucs), _ex(c - bv(dl % (1 << W_CH), W_CH), 7, 0), e)
            it = (z3.simplify(e),)
        else:
            return s.concrete('encode ' + n).encode(enc, errors)
        it = tuple(x.as_long() if z3.is_bv_value(x) else x for x in it)
        _reg(it, n, c)
        out.extend(it)
    return mkbytes([tuple(out)])


def _w(e, width):
    if isinstance(e, int):
        return bv(e, width)
    return e


def _in8(c, lo, hi):
    return bool(ch_in(c, CS(((lo, hi),))))


def decode(b, enc='utf-8', errors='strict'):
    n = norm_enc(enc)
    if not isinstance(b, SBytes):
        return bytes(b).decode(enc, errors)
    if errors != 'strict':
        return b.concrete('decode errors').decode(enc, errors)
    it = b.items()
    if n == 'utf-8-sig':
        n = 'utf-8'
        if len(it) >= 3 and all(_in8(x, k, k) for x, k in zip(it[:3], codecs.BOM_UTF8)):
            it = it[3:]
    elif n == 'utf-16':
        n = 'utf-16-le'
        if len(it) >= 2:
            if _in8(it[0], 0xFF, 0xFF) and _in8(it[1], 0xFE, 0xFE):
                it = it[2:]
            elif _in8(it[0], 0xFE, 0xFE) and _in8(it[1], 0xFF, 0xFF):
                it = it[2:]
                n = 'utf-16-be'
    out = []
    i = 0
    L = len(it)

    def bad(why='invalid'):
        raise UnicodeDecodeError(n, b'\xff', 0, 1, why)

    def ext(e, hi, lo):
        return z3.Extract(hi, lo, _w(e, 8))

    def cat(*es):
        e = z3.Concat(*es) if len(es) > 1 else es[0]
        if e.size() < W_CH:
            e = z3.ZeroExt(W_CH - e.size(), e)
        e = z3.simplify(e)
        return e.as_long() if z3.is_bv_value(e) else e
    while i < L:
        x = it[i]
        if n == 'utf-8':
            for k in (1, 2, 3, 4):
                c = _look(n, it[i:i + k]) if i + k <= L and any(not isinstance(y, int) for y in it[i:i + k]) else None
                if c is not None:
                    break
            if c is not None:
                out.append(c)
                i += k
                continue
            if _in8(x, 0, 0x7F):
                out.append(x if isinstance(x, int) else cat(x))
                i += 1
                continue
            if _in8(x, 0xC2, 0xDF):
                k = 2
            elif _in8(x, 0xE0, 0xEF):
                k = 3
            elif _in8(x, 0xF0, 0xF4):
                k = 4
            else:
                bad('invalid start byte')
            if i + k > L:
                bad('unexpected end of data')
            for y in it[i + 1:i + k]:
                if not _in8(y, 0x80, 0xBF):
                    bad('invalid continuation byte')
            if k == 3:
                if _in8(x, 0xE0, 0xE0) and not _in8(it[i + 1], 0xA0, 0xBF):
                    bad()
                if _in8(x, 0xED, 0xED) and not _in8(it[i + 1], 0x80, 0x9F):
                    bad()
            if k == 4:
                if _in8(x, 0xF0, 0xF0) and not _in8(it[i + 1], 0x90, 0xBF):
                    bad()
                if _in8(x, 0xF4, 0xF4) and not _in8(it[i + 1], 0x80, 0x8F):
                    bad()
            if k == 2:
                out.append(cat(ext(x, 4, 0), ext(it[i + 1], 5, 0)))
            elif k == 3:
                out.append(cat(ext(x, 3, 0), ext(it[i + 1], 5, 0), ext(it[i + 2], 5, 0)))
            else:
                out.append(cat(ext(x, 2, 0), ext(it[i + 1], 5, 0), ext(it[i + 2], 5, 0), ext(it[i + 3], 5, 0)))
            i += k
        elif n in ('utf-16-le', 'utf-16-be'):
            c = None
            for k in (2, 4):
                if i + k <= L and any(not isinstance(y, int) for y in it[i:i + k]):
                    c = _look(n, it[i:i + k])
                    if c is not None:
                        break
            if c is not None:
                out.append(c)
                i += k
                continue
            if i + 2 > L:
                bad('truncated data')
            lo, hi = (it[i], it[i + 1]) if n.endswith('le') else (it[i + 1], it[i])
            if _in8(hi, 0xD8, 0xDB):
                if i + 4 > L:
                    bad('unexpected end of data')
                lo2, hi2 = (it[i + 2], it[i + 3]) if n.endswith('le') else (it[i + 3], it[i + 2])
                if not _in8(hi2, 0xDC, 0xDF):
                    bad('illegal UTF-16 surrogate')
                v = z3.Concat(z3.BitVecVal(0, 1), ext(hi, 1, 0), ext(lo, 7, 0), ext(hi2, 1, 0), ext(lo2, 7, 0))
                v = z3.simplify(v + bv(0x10000, W_CH))
                out.append(v.as_long() if z3.is_bv_value(v) else v)
                i += 4
            elif _in8(hi, 0xDC, 0xDF):
                bad('illegal encoding')
            else:
                out.append(cat(_w(hi, 8), _w(lo, 8)))
                i += 2
        elif n in ('cp1251', 'ascii', 'iso8859-1', 'cp866', 'koi8-r', 'cp1252'):
            d, delta, dom = single_table(n)
            if isinstance(x, int):
                if x not in d:
                    bad()
                out.append(d[x])
            else:
                c = _look(n, (x,))
                if c is None:
                    if not bool(ch_in(x, CS.norm([(k, k) for k in d]))):
                        bad('character maps to <undefined>')
                    xe = z3.ZeroExt(W_CH - 8, x)
                    e = xe
                    for dl, cs in delta.items():
                        if dl:
                            e = z3.If(C().in_expr(x, cs), xe + bv(dl % (1 << W_CH), W_CH), e)
                    c = z3.simplify(e)
                    c = c.as_long() if z3.is_bv_value(c) else c
                out.append(c)
            i += 1
        else:
            return b.concrete('decode ' + n).decode(enc, errors)
    return mkstr(out)
