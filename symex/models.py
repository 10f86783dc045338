"""Models of builtins and of the standard library over symbolic values and the in-memory file system."""
import base64
import builtins
import codecs
import copy
import datetime
import functools
import hashlib
import io
import itertools
import json
import math
import multiprocessing
import operator
import os
import posixpath
import random
import re
import shutil
import struct
import sys
import tempfile
import time
import types
import uuid
import zlib
import collections
import z3
import binascii
from .core import C, CS, PathAbort, EngineError
from .values import *
from .values import _same
from .values import SFrac, SCharIs
from . import ops, rx
from .ops import (model, MODELS, TYPE_METHODS, call, callm, pytype, do_isinstance, find_key, MISSING, mkdict, mkset,
                  dset, bytes_int, int_bytes, parse_int, to_str, fmt, sfind)
from . import vfs
from .vfs import VFile, VText, VBytesIO, VStringIO, vopen, model_join, Dir, Node, Text, node_bytes, fspath


def F():
    return C().fs


# ================================================================ builtins
@model(builtins.len)
def m_len(x):
    if isinstance(x, SBytes):
        return x.slen()
    if isinstance(x, SRange):
        return x.length()
    return len(x)


model(builtins.isinstance)(do_isinstance)
model(builtins.open, io.open)(vopen)
model(codecs.open)(lambda f, mode='r', encoding=None, errors='strict', buffering=-1: vopen(f, mode, encoding=encoding, newline=''))


@model(io.TextIOWrapper)
def m_textio(buffer, encoding=None, errors=None, newline=None, *a, **k):
    if isinstance(buffer, VFile):
        return VText(buffer.fs, buffer.node, buffer.name, encoding or 'utf-8', newline, buffer._r, buffer._w)
    return io.TextIOWrapper(buffer, encoding, errors, newline, *a, **k)


@model(builtins.issubclass)
def m_issub(a, b):
    return issubclass(a, b)


@model(builtins.type)
def m_type(*a, **k):
    return pytype(a[0]) if len(a) == 1 and not k else type(*a, **k)


@model(builtins.print)
def m_print(*a, sep=' ', end='\n', file=None, flush=False):
    if isinstance(file, (VFile, VText)):
        file.write(join(' ' if sep is None else sep, [to_str(x) for x in a]) + ('\n' if end is None else end))
    return None


@model(builtins.str)
def m_str(x='', *a, **k):
    if a or k:
        if isinstance(x, SBytes):
            return x.decode(*a, **k)
        return str(x, *a, **k)
    return to_str(x)


@model(builtins.repr)
def m_repr(x):
    from .ops import srepr
    return srepr(x) if isinstance(x, SStr) else repr(x.concrete('repr')) if isinstance(x, SBytes) else repr(x)


@model(builtins.float)
def m_float(x=0.0):
    return float(x.concrete('float')) if isinstance(x, (SStr, SBytes)) else float(x)


@model(builtins.int)
def m_int(x=0, *a, **k):
    if isinstance(x, (SStr, SBytes)):
        b = a[0] if a else k.get('base', 10)
        return parse_int(x, b)
    if isinstance(x, SInt):
        return x
    if isinstance(x, SBool):
        return x.toint()
    if isinstance(x, SFrac):
        return x.floor() if x.n >= 0 else x.ceil()
    return int(x, *a, **k)


@model(builtins.bool)
def m_bool(x=False):
    return bool(x)


@model(builtins.bytes)
def m_bytes(x=b'', *a, **k):
    if isinstance(x, SStr):
        return x.encode(*a, **k)
    if isinstance(x, SBytes):
        return x.value() if isinstance(x, (SByteArray, SMemView)) else x
    if isinstance(x, SInt):
        return bytes(x.__index__())
    if isinstance(x, (list, tuple)) and has_sym(x):
        return bytes_of(x)
    return bytes(x, *a, **k)


@model(builtins.bytearray)
def m_bytearray(x=b'', *a, **k):
    if isinstance(x, (bytes, bytearray)) or isinstance(x, SYM):
        return SByteArray(m_bytes(x, *a, **k))
    return SByteArray(m_bytes(list(x) if hasattr(x, '__iter__') and not isinstance(x, str) else x, *a, **k))


model(builtins.memoryview)(lambda x: SMemView(x) if isinstance(x, (SBytes, bytes)) else memoryview(x))


@model(builtins.ord)
def m_ord(x):
    if isinstance(x, SStr):
        if len(x.cs) != 1:
            raise TypeError('ord() expected a character')
        c = C().fixed(x.cs[0])
        return c if isinstance(c, int) else mkint(z3.ZeroExt(1, c), 0, 0x1FFFFF)
    if isinstance(x, SBytes):
        return x[0]
    return ord(x)


@model(builtins.chr)
def m_chr(x):
    return ops.do_chr(x) if isinstance(x, SInt) else chr(x)


@model(builtins.hex)
def m_hex(x):
    return '0x' + LazyStr(x, 16) if isinstance(x, SInt) else hex(x)


@model(builtins.format)
def m_format(x, spec=''):
    return fmt(x, spec)


@model(builtins.dict)
def m_dict(*a, **k):
    if not a:
        return dict(**k)
    if isinstance(a[0], dict):
        d = dict(a[0])
        d.update(k)
        return d
    d = mkdict(a[0])
    d.update(k)
    return d


class ODict(dict):
    """OrderedDict whose iteration never hashes keys again"""
    def move_to_end(self, k, last=True):
        items = [(x, dict.__getitem__(self, x)) for x in self if x != k]
        v = ops.dget(self, k)
        with ops._hm():
            self.clear()
            for x, y in (items + [(k, v)] if last else [(k, v)] + items):
                self[x] = y

    def popitem(self, last=True):
        if last:
            return dict.popitem(self)
        k = next(iter(self))
        with ops._hm():
            return k, self.pop(k)


ODict.__module__ = 'collections'


@model(collections.OrderedDict)
def m_odict(*a, **k):
    d = ODict()
    src = m_dict(*a, **k)
    with ops._hm():
        for x in src:
            dict.__setitem__(d, x, dict.__getitem__(src, x))
    return d


class SCounter(collections.Counter):
    def __init__(self, *a, **k):
        collections.Counter.__init__(self)
        self.update(*a, **k)

    def update(self, src=(), **k):
        src = () if src is None else src
        for x, n in (((y, ops.dget(src, y)) for y in list(src)) if isinstance(src, dict) else ((y, 1) for y in src)):
            ops.dset(self, x, self.count(x) + n)
        for x, n in k.items():
            ops.dset(self, x, self.count(x) + n)

    def count(self, x):
        kk = ops.find_key(self, x)
        if kk is ops.MISSING:
            return 0
        with ops._hm():
            return dict.__getitem__(self, kk)

    def total(self):
        return sum(self.values())


SCounter.__module__ = 'collections'


@model(collections.Counter)
def m_counter(*a, **k):
    return SCounter(*a, **k)


def m_fromkeys(keys, value=None):
    return mkdict([(k, value) for k in keys])


ops.CLASS_METHODS[(dict, 'fromkeys')] = m_fromkeys
ops.CLASS_METHODS[(collections.OrderedDict, 'fromkeys')] = lambda keys, value=None: m_odict(m_fromkeys(keys, value))


@model(builtins.set)
def m_set(x=()):
    return mkset(x)


@model(builtins.frozenset)
def m_fset(x=()):
    return frozenset(x) if not has_sym(x) else mkset(x)


@model(builtins.list)
def m_list(x=()):
    if isinstance(x, SBytes):
        return [byte_int(c) for c in x.items()]
    return list(x)


class SRange:
    def __init__(self, a, b, s=1):
        self.a, self.b, self.s = a, b, s
        if not isinstance(s, int):
            self.s = s.__index__()

    def __iter__(self):
        i = self.a
        if self.s > 0:
            while i < self.b:
                yield i
                i = i + self.s
        else:
            while i > self.b:
                yield i
                i = i + self.s

    def length(self):
        if self.s == 1:
            n = self.b - self.a
            return n if n > 0 else 0
        return len(self)

    def __len__(self):
        return sum(1 for _ in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __contains__(self, x):
        return any(bool(y == x) for y in self)

    def __getitem__(self, i):
        return range(self.a.__index__(), self.b.__index__(), self.s)[i]


@model(builtins.range)
def m_range(*a):
    if has_sym(a):
        if len(a) == 1:
            return SRange(0, a[0])
        return SRange(*a)
    return range(*a)


@model(builtins.map)
def m_map(f, *its):
    return map(lambda *a: call(f, *a), *its)


@model(builtins.filter)
def m_filter(f, it):
    return filter((lambda x: call(f, x)) if f is not None else None, it)


def _fn(f):
    return lambda *a: call(f, *a)


for _n in ('takewhile', 'dropwhile', 'filterfalse', 'starmap'):
    model(getattr(itertools, _n))((lambda g: lambda f, it: g(_fn(f) if f is not None else None, it))(getattr(itertools, _n)))


@model(itertools.groupby)
def m_groupby(it, key=None):
    return itertools.groupby(it, key if key is None else _fn(key))


@model(itertools.accumulate)
def m_accumulate(it, func=None, *, initial=None):
    return itertools.accumulate(it, _fn(func if func is not None else operator.add), initial=initial)


@model(builtins.sorted)
def m_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=(lambda x: call(key, x)) if key else None, reverse=reverse)


def _mm(f):
    def g(*a, key=None, **k):
        if key:
            return f(*a, key=lambda x: call(key, x), **k)
        if key is None and len(a) > 1 and any(isinstance(x, SInt) for x in a) and all(isinstance(x, (int, SInt)) for x in a):
            r = a[0]
            for x in a[1:]:
                c = (x < r) if f is min else (x > r)
                if c:
                    r = x
            return r
        return f(*a, **k)
    return g


model(builtins.min)(_mm(min))
model(builtins.max)(_mm(max))


@model(builtins.input)
def m_input(*a):
    raise PathAbort('input')


@model(builtins.hash)
def m_hash(x):
    return hash(x)


@model(builtins.divmod)
def m_divmod(a, b):
    return SInt._divmod(a, b) if isinstance(a, SInt) or isinstance(b, SInt) else divmod(a, b)


@model(builtins.reversed)
def m_rev(x):
    if isinstance(x, SStr):
        return iter([x[i] for i in range(len(x) - 1, -1, -1)])
    return reversed(x)


@model(builtins.getattr)
def m_getattr(o, name, *d):
    if isinstance(name, SStr):
        name = name.concrete('getattr')
    return getattr(o, name, *d)


@model(functools.reduce)
def m_reduce(f, *a):
    return functools.reduce(lambda x, y: call(f, x, y), *a)


model(operator.contains)(lambda a, b: ops.in_(b, a))
model(operator.getitem)(ops.getitem)
model(sys.intern)(lambda x: x if isinstance(x, SStr) else sys.intern(x))
model(math.ceil)(lambda x: x.ceil() if isinstance(x, SFrac) else (x if isinstance(x, SInt) else math.ceil(x)))
model(math.floor)(lambda x: x.floor() if isinstance(x, SFrac) else (x if isinstance(x, SInt) else math.floor(x)))
model(time.sleep)(lambda *a: None)


@model(copy.deepcopy)
def m_deepcopy(x, memo=None, _nil=[]):
    return deep(x)


def deep(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, SYM):
        return x
    if type(x) is dict or type(x).__module__ == 'collections' and isinstance(x, dict):
        d = x.copy()
        memo[id(x)] = (x, d)
        with ops._hm():
            for k in list(d):
                d[k] = deep(d[k], memo)
        return d
    if type(x) is list:
        l = []
        memo[id(x)] = (x, l)
        l.extend(deep(y, memo) for y in x)
        return l
    if type(x) is tuple:
        t = tuple(deep(y, memo) for y in x)
        return t
    if isinstance(x, (str, bytes, int, float, type(None), types.FunctionType, type)):
        return x
    if has_sym(getattr(x, '__dict__', None) or ()):
        y = x.__class__.__new__(x.__class__)
        memo[id(x)] = (x, y)
        y.__dict__.update(deep(x.__dict__, memo))
        return y
    return copy.deepcopy(x)


# ================================================================ os / paths
def pure(name):
    """os.path function that is pure on concrete args"""
    real = getattr(posixpath, name)

    def deco(g):
        @functools.wraps(g)
        def h(*a, **k):
            if has_sym(a):
                return g(*a, **k)
            return real(*a, **k)
        model(real)(h)
        return g
    return deco


@pure('join')
def p_join(a, *ps):
    return model_join(a, *ps)


@pure('split')
def p_split(p):
    i = p.rfind('/') + 1
    head, tail = p[:i], p[i:]
    if len(head):
        h = head.rstrip('/')
        if len(h):
            head = h
    return head, tail


@pure('basename')
def p_basename(p):
    return p[p.rfind('/') + 1:]


@pure('dirname')
def p_dirname(p):
    return p_split(p)[0] if isinstance(p, SStr) else posixpath.dirname(p)


@pure('splitext')
def p_splitext(p):
    sep = p.rfind('/')
    dot = p.rfind('.')
    if dot > sep:
        i = sep + 1
        while i < dot:
            if bool(p[i:i + 1] != '.'):
                return p[:dot], p[dot:]
            i += 1
    return p, p[:0] if len(p) else ''


@pure('normpath')
def p_normpath(p):
    if len(p) == 0:
        return '.'
    init = 0
    if bool(p.startswith('/')):
        init = 2 if bool(p.startswith('//')) and not bool(p.startswith('///')) else 1
    out = []
    for c in p.split('/'):
        if len(c) == 0 or bool(c == '.'):
            continue
        if not bool(c == '..') or (not init and not out) or (out and bool(out[-1] == '..')):
            out.append(c)
        elif out:
            out.pop()
    r = '/' * init + join('/', out)
    return r if len(r) else '.'


@pure('isabs')
def p_isabs(p):
    return p.startswith('/')


@pure('normcase')
def p_normcase(p):
    return p


@pure('splitroot')
def p_splitroot(p):
    if not bool(p.startswith('/')):
        return '', '', p
    if not bool(p[1:2] == '/') or bool(p[1:3] == '//'):
        return '', '/', p[1:]
    return '', p[:2], p[2:]


@pure('splitdrive')
def p_splitdrive(p):
    return '', p


@pure('commonprefix')
def p_commonprefix(ps):
    return posixpath.commonprefix([p.concrete('commonprefix') if isinstance(p, SStr) else p for p in ps])


@pure('commonpath')
def p_commonpath(ps):
    split = []
    absol = [bool(p.startswith('/')) for p in ps]
    if len(set(absol)) > 1:
        raise ValueError("Can't mix absolute and relative paths")
    for p in ps:
        split.append([c for c in p.split('/') if len(c) and not bool(c == '.')])
    n = min(len(x) for x in split)
    out = []
    for i in range(n):
        if all(bool(x[i] == split[0][i]) for x in split):
            out.append(split[0][i])
        else:
            break
    return ('/' if absol[0] else '') + join('/', out)


def m_abspath(p):
    p = fspath(p)
    if not bool(p.startswith('/')):
        p = model_join(F().cwd, p)
    return p_normpath(p) if isinstance(p, SStr) else posixpath.normpath(p)


model(posixpath.abspath)(m_abspath)
model(posixpath.realpath)(lambda p, strict=False: m_abspath(p))


@model(posixpath.relpath)
def m_relpath(path, start=None):
    if len(path) == 0:
        raise ValueError('no path specified')
    s = [x for x in m_abspath(start if start is not None else F().cwd).split('/') if len(x)]
    p = [x for x in m_abspath(path).split('/') if len(x)]
    i = 0
    while i < min(len(s), len(p)) and bool(s[i] == p[i]):
        i += 1
    r = ['..'] * (len(s) - i) + p[i:]
    return join('/', r) if r else '.'


model(posixpath.exists, posixpath.lexists)(lambda p: F().exists(p))
model(posixpath.isdir)(lambda p: F().isdir(p))
model(posixpath.isfile)(lambda p: F().isfile(p))
model(posixpath.islink)(lambda p: False)


@model(posixpath.getsize)
def m_getsize(p):
    return F().size(F().need(p))


model(posixpath.getmtime)(lambda p: F().need(p).mtime)
model(os.fspath)(fspath)
model(os.listdir)(lambda p='.': F().listdir(p))
model(os.mkdir)(lambda p, mode=0o777, **k: F().mkdir(p))
model(os.makedirs)(lambda name, mode=0o777, exist_ok=False: F().makedirs(name, exist_ok=exist_ok))
model(os.remove, os.unlink)(lambda p, **k: F().remove(p))
model(os.rename, os.replace)(lambda a, b, **k: F().rename(a, b))
model(os.rmdir)(lambda p, **k: F().rmdir(p))
model(os.getcwd)(lambda: F().cwd)
model(os.utime)(lambda *a, **k: None)
model(os.chmod)(lambda *a, **k: None)
model(os.fsync)(lambda *a: None)
model(os.access)(lambda p, *a, **k: F().exists(p))


@model(os.chdir)
def m_chdir(p):
    F().cwd = m_abspath(p)


class StatResult:
    def __init__(self, node):
        self.st_mtime = self.st_ctime = self.st_atime = getattr(node, 'mtime', 1.7e9)
        self.st_size = F().size(node) if isinstance(node, Node) else 4096
        self.st_mode = 0o100644 if isinstance(node, Node) else 0o40755

    def __getitem__(self, i):
        return [self.st_mode, 0, 0, 1, 0, 0, self.st_size, int(self.st_atime), int(self.st_mtime), int(self.st_ctime)][i]


@model(os.stat, os.fstat, os.lstat)
def m_stat(p, **k):
    if isinstance(p, (VFile, VText)):
        return StatResult(p.node)
    return StatResult(F().need(p))


class VEntry:
    def __init__(self, d, name, node):
        self.name, self.path, self._n = name, model_join(d, name), node

    def is_dir(self, **k): return isinstance(self._n, Dir)
    def is_file(self, **k): return isinstance(self._n, Node)
    def is_symlink(self): return False
    def stat(self, **k): return StatResult(self._n)
    def __fspath__(self): return self.path


class ScanDir:
    def __init__(self, p):
        fs = F()
        names = fs.listdir(p, True)
        self.e = iter([VEntry(p, n, fs.find(fs.need(p), n)) for n in names])

    def __iter__(self): return self.e
    def __next__(self): return next(self.e)
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass


model(os.scandir)(lambda p='.': ScanDir(fspath(p)))


@model(os.walk)
def m_walk(top, topdown=True, onerror=None, followlinks=False):
    fs = F()
    n = fs.lookup(top)
    if not isinstance(n, Dir):
        return
    names = fs.listdir(top, True)
    dirs = [x for x in names if isinstance(fs.find(n, x), Dir)]
    files = [x for x in names if isinstance(fs.find(n, x), Node)]
    if topdown:
        yield top, dirs, files
    for d in dirs:
        yield from m_walk(model_join(top, d), topdown)
    if not topdown:
        yield top, dirs, files


model(shutil.rmtree)(lambda p, ignore_errors=False, onerror=None, **k: F().rmtree(p, ignore_errors))
model(shutil.copy, shutil.copy2)(lambda a, b, **k: F().copyfile(a, b))
model(shutil.copyfile)(lambda a, b, **k: F().copyfile(a, b, _file=True))


@model(shutil.copymode, shutil.copystat)
def m_copymode(a, b, **k):
    F().need(a)
    F().need(b)


model(posixpath.samefile)(lambda a, b: F().need(a) is F().need(b))
model(posixpath.getatime, posixpath.getctime)(lambda p: F().need(p).mtime)
model(os.renames)(lambda a, b: (F().makedirs(posixpath.dirname(fspath(b)), exist_ok=True), F().rename(a, b)) and None)
model(shutil.copytree)(lambda a, b, *x, **k: F().copytree(a, b, dirs_exist_ok=k.get('dirs_exist_ok', False)))
model(shutil.move)(lambda a, b, **k: F().move(a, b))


@model(shutil.copyfileobj)
def m_copyfileobj(a, b, length=0):
    while True:
        x = a.read(length or 65536)
        if len(x) == 0 if not isinstance(x, SBytes) else not x:
            return
        b.write(x)


class Archive:
    def __init__(self, entries):
        self.entries = entries


def snapshot(d):
    n = Dir()
    for name, x in d.entries:
        if isinstance(x, Dir):
            n.entries.append([name, snapshot(x)])
        else:
            y = Node()
            c = x.content
            y.content = Text(c.enc, list(c.parts)) if isinstance(c, Text) else c
            n.entries.append([name, y])
    return n


class ArchiveBytes(SBytes):
    """opaque bytes of an archive made by shutil.make_archive"""
    __slots__ = ('tree',)


@model(shutil.make_archive)
def m_make_archive(base_name, format, root_dir=None, base_dir=None, **k):
    fs = F()
    src = root_dir if root_dir is not None else fs.cwd
    if base_dir is not None:
        raise PathAbort('make_archive base_dir')
    n = fs.need(src)
    snap = snapshot(n)
    ext = {'zip': '.zip', 'tar': '.tar', 'gztar': '.tar.gz'}[format]
    p = base_name + ext
    f = vopen(p, 'wb')
    ab = ArchiveBytes([Seg(Opaque('archive'), 0, 100)])
    ab.tree = snap
    f.node.content = ab
    return p


@model(shutil.unpack_archive)
def m_unpack_archive(filename, extract_dir=None, format=None, **k):
    fs = F()
    n = fs.need(filename)
    if not isinstance(n.content, ArchiveBytes):
        raise shutil.ReadError('not an archive')
    d = extract_dir if extract_dir is not None else fs.cwd
    fs.makedirs(d, exist_ok=True)
    dst = fs.need(d)

    def put(src, dst):
        for name, x in src.entries:
            cur = fs.find(dst, name)
            if isinstance(x, Dir):
                if cur is None:
                    cur = Dir()
                    dst.entries.append([name, cur])
                put(x, cur)
            else:
                if cur is None:
                    cur = Node()
                    dst.entries.append([name, cur])
                cur.content = x.content
    put(snapshot(n.content.tree), dst)


@model(tempfile.TemporaryFile)
def m_tmpfile(mode='w+b', *a, **k):
    node = Node()
    if 'b' in mode:
        return VFile(F(), node, 'tmp', True, True)
    return VText(F(), node, 'tmp', k.get('encoding') or 'utf-8', None, True, True)


@model(tempfile.mkdtemp)
def m_mkdtemp(suffix=None, prefix=None, dir=None):
    fs = F()
    fs.counter += 1
    p = (dir or tempfile.tempdir or '/tmp') + '/tmp%d' % fs.counter
    fs.makedirs(p)
    return p


class VTempDir:
    def __init__(self, suffix=None, prefix=None, dir=None, **k):
        self.name = m_mkdtemp(suffix, prefix, dir)

    def __enter__(self): return self.name
    def __exit__(self, *a): self.cleanup()
    def cleanup(self): F().rmtree(self.name, True)


model(tempfile.TemporaryDirectory)(VTempDir)
model(tempfile.gettempdir)(lambda: tempfile.tempdir or '/tmp')


@model(tempfile.NamedTemporaryFile)
def m_ntf(mode='w+b', *a, delete=True, **k):
    fs = F()
    fs.counter += 1
    p = '/tmp/ntf%d' % fs.counter
    return vopen(p, mode, encoding=k.get('encoding'))


@model(tempfile.mkstemp)
def m_mkstemp(*a, **k):
    fs = F()
    fs.counter += 1
    p = '/tmp/ntf%d' % fs.counter
    return vopen(p, 'w+b'), p


model(os.fdopen)(lambda fd, *a, **k: vopen(fd, *a, **k))
model(os.close)(lambda fd: fd.close() if hasattr(fd, 'close') else None)
model(io.BytesIO)(VBytesIO)


@model(io.BufferedReader)
def m_buffered(raw, *a, **k):
    return raw if isinstance(raw, VFile) else io.BufferedReader(raw, *a, **k)


@model(binascii.hexlify)
def m_hexlify(b, *a, **k):
    return b.hex(*a, **k).encode('ascii') if isinstance(b, SBytes) else binascii.hexlify(b, *a, **k)


@model(binascii.unhexlify)
def m_unhexlify(x):
    return ops.callm(bytes, 'fromhex', x if is_str(x) else x.decode('ascii')) if isinstance(x, SYM) else binascii.unhexlify(x)

model(io.StringIO)(VStringIO)


# ================================================================ json
class JsonText(SStr):
    """text of a JSON document; serialized only when looked at as text"""

    def __init__(self, value, indent=None, ensure_ascii=True, separators=None, sort_keys=False):
        self.value_obj = (value,)
        self.opts = dict(indent=indent, ensure_ascii=ensure_ascii, separators=separators, sort_keys=sort_keys)
        self._c = None

    @property
    def cs(self):
        if self._c is None:
            out = []
            seps = self.opts['separators'] or ((', ', ': ') if self.opts['indent'] is None else (',', ': '))
            dump(self.value_obj[0], out, self.opts['indent'], self.opts['ensure_ascii'], seps, 0)
            self._c = char_items(join('', out))
        return self._c

    def __repr__(self):
        return '<JsonText>'


def dump(v, out, indent, asc, seps, lev):
    if isinstance(indent, int):
        indent = ' ' * indent
    nl = '' if indent is None else '\n' + indent * (lev + 1)
    nl0 = '' if indent is None else '\n' + indent * lev
    if isinstance(v, SStr):
        out.append('"')
        for c in v.cs:
            if isinstance(c, int):
                out.append(json.dumps(chr(c), ensure_ascii=asc)[1:-1])
            elif bool(ch_in(c, CS.norm([(0, 31), (34, 34), (92, 92)]))):
                k = C().concretize_bv(c, 'json escape', signed=False, limit=40)
                out.append(json.dumps(chr(k), ensure_ascii=asc)[1:-1])
            elif asc and bool(ch_in(c, CS(((127, 0x10FFFF),)))):
                k = C().concretize_bv(c, 'json ascii', signed=False, limit=40)
                out.append(json.dumps(chr(k))[1:-1])
            else:
                out.append(mkstr((c,)))
        out.append('"')
    elif isinstance(v, SInt):
        out.append(to_str(v))
    elif isinstance(v, SBool):
        out.append('true' if bool(v) else 'false')
    elif isinstance(v, dict):
        if not v:
            out.append('{}')
            return
        out.append('{')
        for i, k in enumerate(v):
            out.append((seps[0] if i else '') + nl)
            dump(jkey(k), out, indent, asc, seps, lev + 1)
            out.append(seps[1])
            with ops._hm():
                x = dict.__getitem__(v, k)
            dump(x, out, indent, asc, seps, lev + 1)
        out.append(nl0 + '}')
    elif isinstance(v, (list, tuple)):
        if not v:
            out.append('[]')
            return
        out.append('[')
        for i, x in enumerate(v):
            out.append((seps[0] if i else '') + nl)
            dump(x, out, indent, asc, seps, lev + 1)
        out.append(nl0 + ']')
    else:
        out.append(json.dumps(v, ensure_ascii=asc))


def jkey(k):
    if isinstance(k, (str, SStr)):
        return k
    if k is True:
        return 'true'
    if k is False:
        return 'false'
    if k is None:
        return 'null'
    if isinstance(k, (int, float)):
        return json.dumps(k)
    if isinstance(k, SInt):
        return to_str(k)
    raise TypeError('keys must be str, int, float, bool or None, not %s' % type(k).__name__)


def jcopy(v):
    if isinstance(v, SYM):
        if isinstance(v, SBytes):
            raise TypeError('Object of type bytes is not JSON serializable')
        return v
    if isinstance(v, dict):
        d = {}
        for k in v:
            with ops._hm():
                x = dict.__getitem__(v, k)
            dset(d, jkey(k), jcopy(x))
        return d
    if isinstance(v, (list, tuple)):
        return [jcopy(x) for x in v]
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    raise TypeError('Object of type %s is not JSON serializable' % type(v).__name__)


def jdumps(obj, **k):
    extra = set(k) - {'ensure_ascii', 'indent', 'separators', 'sort_keys', 'default', 'cls', 'skipkeys', 'check_circular', 'allow_nan'}
    if extra or k.get('default') or k.get('cls'):
        return json.dumps(obj, **k)
    v = jcopy(obj)
    if not deep_sym(v):
        return json.dumps(v, **k)
    return JsonText(v, k.get('indent'), k.get('ensure_ascii', True), k.get('separators'), k.get('sort_keys', False))


def deep_sym(v):
    if isinstance(v, SYM):
        return True
    if isinstance(v, dict):
        return any(isinstance(k, SYM) for k in v) or any(deep_sym(x) for x in v.values())
    if isinstance(v, list):
        return any(deep_sym(x) for x in v)
    return False


model(json.dumps)(jdumps)


@model(json.dump)
def m_jdump(obj, fp, **k):
    fp.write(jdumps(obj, **k))


@model(json.loads)
def m_jloads(s, **k):
    if isinstance(s, JsonText):
        return jcopy(s.value_obj[0])
    if isinstance(s, SStr):
        return JParser(s).parse()
    if isinstance(s, SBytes):
        return m_jloads(s.decode('utf-8'))
    return json.loads(s, **k)


@model(json.load)
def m_jload(fp, **k):
    return m_jloads(fp.read(), **k)


class VJSONEncoder:
    """json.JSONEncoder for symbolic documents"""

    def __init__(self, **k):
        self.k = {n: v for n, v in k.items() if n in ('indent', 'ensure_ascii', 'separators', 'sort_keys')}

    def encode(self, o):
        return jdumps(o, **self.k)

    def iterencode(self, o, _one_shot=False):
        yield jdumps(o, **self.k)


class VJSONDecoder:
    def __init__(self, **k):
        self.k = k

    def decode(self, s):
        return m_jloads(s, **self.k)


model(json.JSONEncoder)(VJSONEncoder)
model(json.JSONDecoder)(VJSONDecoder)


class JParser:
    def __init__(self, s):
        self.s, self.i = s.cs, 0

    def err(self):
        raise json.JSONDecodeError('Expecting value', '', self.i)

    def ws(self):
        while self.i < len(self.s) and bool(ch_in(self.s[self.i], CS.chars(' \t\n\r'))):
            self.i += 1

    def peek(self, ch):
        return self.i < len(self.s) and bool(ch_in(self.s[self.i], CS.chars(ch)))

    def lit(self, t):
        if self.i + len(t) <= len(self.s) and bool(items_eq(self.s[self.i:self.i + len(t)], tuple(map(ord, t)))):
            self.i += len(t)
            return True
        return False

    def parse(self):
        self.ws()
        v = self.value()
        self.ws()
        if self.i != len(self.s):
            self.err()
        return v

    def value(self):
        if self.peek('"'):
            return self.string()
        if self.peek('{'):
            self.i += 1
            d = {}
            self.ws()
            if self.peek('}'):
                self.i += 1
                return d
            while True:
                self.ws()
                if not self.peek('"'):
                    self.err()
                k = self.string()
                self.ws()
                if not self.peek(':'):
                    self.err()
                self.i += 1
                self.ws()
                dset(d, k, self.value())
                self.ws()
                if self.peek(','):
                    self.i += 1
                    continue
                if self.peek('}'):
                    self.i += 1
                    return d
                self.err()
        if self.peek('['):
            self.i += 1
            l = []
            self.ws()
            if self.peek(']'):
                self.i += 1
                return l
            while True:
                self.ws()
                l.append(self.value())
                self.ws()
                if self.peek(','):
                    self.i += 1
                    continue
                if self.peek(']'):
                    self.i += 1
                    return l
                self.err()
        for t, v in (('true', True), ('false', False), ('null', None)):
            if self.lit(t):
                return v
        j = self.i
        while j < len(self.s) and bool(ch_in(self.s[j], CS.chars('0123456789+-.eE'))):
            j += 1
        if j == self.i:
            self.err()
        t = mkstr(self.s[self.i:j])
        self.i = j
        if isinstance(t, str):
            return json.loads(t)
        return parse_int(t)

    def string(self):
        self.i += 1
        out = []
        while True:
            if self.i >= len(self.s):
                self.err()
            c = self.s[self.i]
            if bool(ch_in(c, CS.chars('"'))):
                self.i += 1
                return mkstr(out)
            if bool(ch_in(c, CS.chars('\\'))):
                n = self.s[self.i + 1]
                if not isinstance(n, int):
                    n = C().concretize_bv(n, 'json', signed=False)
                if chr(n) == 'u':
                    h = mkstr(self.s[self.i + 2:self.i + 6])
                    out.append(int(h if isinstance(h, str) else h.concrete('json'), 16))
                    self.i += 6
                    continue
                out.append(ord({'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f'}.get(chr(n), chr(n))))
                self.i += 2
                continue
            if bool(ch_in(c, CS(((0, 31),)))):
                self.err()
            out.append(c)
            self.i += 1


# ================================================================ struct
_SZ = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 8, 'L': 8, 'q': 8, 'Q': 8, 'n': 8, 'N': 8,
       'f': 4, 'd': 8, 's': 1, 'p': 1}


def sfmt(f):
    if isinstance(f, SStr):
        f = f.concrete('struct format')
    if isinstance(f, bytes):
        f = f.decode()
    f = f.replace(' ', '')
    order, native = 'little', True
    if f and f[0] in '@=<>!':
        native = f[0] == '@'
        order = 'big' if f[0] in '>!' else 'little'
        f = f[1:]
    out = []
    pos = 0
    for m in re.finditer(r'(\d*)([a-zA-Z?])', f):
        n = int(m.group(1)) if m.group(1) else None
        c = m.group(2)
        sz = _SZ[c]
        if not native and c in 'lL':
            sz = 4
        if native and c not in 'sp' and pos % sz:
            pad = sz - pos % sz
            out.append(('x', pad, 1))
            pos += pad
        if c in 'sp':
            out.append((c, 1 if n is None else n, 1))
            pos += 1 if n is None else n
        else:
            for _ in range(1 if n is None else n):
                out.append((c, sz, 0))
                pos += sz
    return out, pos, order


@model(struct.calcsize)
def m_calcsize(f):
    if isinstance(f, SStr):
        return struct.calcsize(f.concrete('struct'))
    return struct.calcsize(f)


@model(struct.pack)
def m_pack(f, *vals):
    if not has_sym(vals) and not isinstance(f, SYM):
        return struct.pack(f, *vals)
    items, size, order = sfmt(f)
    out = []
    need = [x for x in items if x[0] != 'x']
    if len(need) != len(vals):
        raise struct.error('pack expected %d items for packing (got %d)' % (len(need), len(vals)))
    it = iter(vals)
    for c, sz, _ in items:
        if c == 'x':
            out.append((0,) * sz)
            continue
        v = next(it)
        if c == 's':
            if not is_bytes(v):
                raise struct.error("argument for 's' must be a bytes object")
            n = blen(v)
            if n >= sz:
                out.extend(byte_segs(v[:sz]))
            else:
                n = n if isinstance(n, int) else n.__index__()
                out.extend(byte_segs(v))
                out.append((0,) * (sz - n))
        elif c in 'bBhHiIlLqQnN':
            if not isinstance(v, (int, SInt, SBool)):
                raise struct.error('required argument is not an integer')
            signed = c in 'bhilqn'
            lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << (8 * sz)) - 1)
            if v < lo or v > hi:
                raise struct.error('argument out of range')
            out.extend(byte_segs(int_bytes(v, sz, order)))
        elif c == '?':
            out.append((1 if v else 0,))
        elif c == 'c':
            out.extend(byte_segs(v))
        else:
            raise PathAbort('struct %s' % c)
    return mkbytes(out)


@model(struct.unpack)
def m_unpack(f, buf):
    if not isinstance(buf, SYM) and not isinstance(f, SYM):
        return struct.unpack(f, buf)
    items, size, order = sfmt(f)
    n = blen(buf)
    if not (n == size):
        raise struct.error('unpack requires a buffer of %d bytes' % size)
    data = buf.items() if isinstance(buf, SBytes) else tuple(buf)
    out = []
    p = 0
    for c, sz, _ in items:
        d = data[p:p + sz]
        p += sz
        if c == 'x':
            continue
        if c in 'sc':
            out.append(mkbytes([d]))
        elif c in 'bBhHiIlLqQnN':
            out.append(bytes_int(d, order, c in 'bhilqn'))
        elif c == '?':
            out.append(byte_int(d[0]) != 0)
        else:
            raise PathAbort('struct %s' % c)
    return tuple(out)


@model(struct.unpack_from)
def m_unpack_from(f, buf, offset=0):
    n = sfmt(f)[1]
    if blen(buf) - offset < n:
        raise struct.error('unpack_from requires a buffer of at least %d bytes' % n)
    return m_unpack(f, buf[offset:offset + n])


@model(struct.pack_into)
def m_pack_into(f, buf, offset, *vals):
    n = sfmt(f)[1]
    if blen(buf) - offset < n:
        raise struct.error('pack_into requires a buffer of at least %d bytes for packing' % n)
    buf[offset:offset + n] = m_pack(f, *vals)


@model(struct.iter_unpack)
def m_iter_unpack(f, buf):
    n = sfmt(f)[1]
    if not (blen(buf) % n == 0):
        raise struct.error('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    p = 0
    while p < blen(buf):
        yield m_unpack(f, buf[p:p + n])
        p += n


for _n, _f in (('pack', m_pack), ('unpack', m_unpack), ('unpack_from', m_unpack_from), ('pack_into', m_pack_into), ('iter_unpack', m_iter_unpack)):
    TYPE_METHODS[(struct.Struct, _n)] = (lambda g: lambda o, *a: g(o.format, *a))(_f)


def m_from_bytes(b, byteorder='big', *, signed=False):
    if isinstance(b, SBytes):
        it = b.items()
        return bytes_int(it, byteorder, signed) if it else 0
    return int.from_bytes(b, byteorder, signed=signed)


ops.CLASS_METHODS[(int, 'from_bytes')] = m_from_bytes


# ================================================================ re
def _compile(p, flags):
    if isinstance(p, re.Pattern):
        return p
    if isinstance(p, SStr):
        p = p.concrete('regex pattern')
    return re.compile(p, flags)


for _n in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
    def _mk(n):
        real = getattr(re, n)

        def g(pattern, string, flags=0):
            return callm(_compile(pattern, flags), n, string)
        model(real)(g)
    _mk(_n)


@model(re.sub)
def m_sub(pattern, repl, string, count=0, flags=0):
    return callm(_compile(pattern, flags), 'sub', repl, string, count)


@model(re.subn)
def m_subn(pattern, repl, string, count=0, flags=0):
    return callm(_compile(pattern, flags), 'subn', repl, string, count)


@model(re.split)
def m_resplit(pattern, string, maxsplit=0, flags=0):
    return callm(_compile(pattern, flags), 'split', string, maxsplit)


@model(re.compile)
def m_compile(pattern, flags=0):
    return _compile(pattern, flags)


@model(re.escape)
def m_escape(s):
    return re.escape(s.concrete('re.escape') if isinstance(s, SStr) else s)


# ================================================================ base64 / uuid / hash / zlib
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64CS = CS.norm([(c, c) for c in B64])


def b64e(six):
    """6-bit expr -> byte item"""
    if z3.is_bv_value(six):
        return B64[six.as_long()]
    x = z3.ZeroExt(2, six)
    e = z3.If(z3.ULT(x, bv(26, 8)), x + bv(65, 8),
              z3.If(z3.ULT(x, bv(52, 8)), x + bv(71, 8),
                    z3.If(z3.ULT(x, bv(62, 8)), x - bv(4, 8), z3.If(x == bv(62, 8), bv(43, 8), bv(47, 8)))))
    e = z3.simplify(e)
    C().__dict__.setdefault('b64map', {})[e.get_id()] = (e, six)
    return e


@model(base64.standard_b64encode)
def m_sb64e(s):
    return call(base64.b64encode, s)


@model(base64.standard_b64decode)
def m_sb64d(s):
    return call(base64.b64decode, s)


@model(base64.b64encode)
def m_b64encode(s, altchars=None):
    if not isinstance(s, SBytes):
        return base64.b64encode(s, altchars)
    it = s.items()
    out = []
    for i in range(0, len(it), 3):
        ch = it[i:i + 3]
        es = [bv(c, 8) if isinstance(c, int) else c for c in ch] + [bv(0, 8)] * (3 - len(ch))
        e = z3.Concat(*es)
        for j in range(len(ch) + 1):
            out.append(b64e(z3.simplify(z3.Extract(23 - 6 * j, 18 - 6 * j, e))))
        out.extend([61] * (3 - len(ch)))
    return mkbytes([tuple(out)])


def b64char(c):
    """item known in alphabet -> 6-bit expr"""
    if isinstance(c, int):
        return bv(B64.index(c), 6)
    m = C().__dict__.get('b64map', {})
    r = m.get(c.get_id())
    if r is not None:
        return r[1]
    x = z3.Extract(7, 0, c) if c.size() > 8 else c
    e = z3.If(x == bv(43, 8), bv(62, 8), z3.If(x == bv(47, 8), bv(63, 8), z3.If(
        z3.ULE(x, bv(57, 8)), x + bv(4, 8), z3.If(z3.ULE(x, bv(90, 8)), x - bv(65, 8), x - bv(71, 8)))))
    return z3.simplify(z3.Extract(5, 0, e))


@model(base64.b64decode)
def m_b64decode(s, altchars=None, validate=False):
    if not isinstance(s, SYM):
        return base64.b64decode(s, altchars, validate)
    if isinstance(s, SStr):
        for c in s.cs:
            if not bool(ch_in(c, CS(((0, 127),)))):
                raise ValueError('string argument should contain only ASCII characters')
    it = s.cs if isinstance(s, SStr) else s.items()
    ctx = C()
    b64m = ctx.__dict__.get('b64map', {})
    enc = ctx.__dict__.get('encmap', {})
    six = []
    out = []
    pads = 0
    for c in it:
        known = not isinstance(c, int) and (c.get_id() in b64m)
        if not known:
            if bool(ch_in(c, CS.chars('='))):
                if len(six) >= 2:
                    pads += 1
                    if len(six) + pads >= 4:
                        break
                continue
            if not bool(ch_in(c, B64CS)):
                if validate:
                    raise binascii.Error('Only base64 data is allowed')
                continue
        pads = 0
        six.append(b64char(c))
        if len(six) == 4:
            e = z3.Concat(*six)
            out.extend(z3.simplify(z3.Extract(h, h - 7, e)) for h in (23, 15, 7))
            six = []
    if six:
        if pads == 0 or len(six) + pads < 4:
            raise binascii.Error('Incorrect padding')
        if len(six) == 1:
            raise binascii.Error('Invalid base64-encoded string')
        e = z3.Concat(*(six + [bv(0, 6)] * (4 - len(six))))
        out.extend(z3.simplify(z3.Extract(h, h - 7, e)) for h in (23, 15, 7)[:len(six) - 1])
    return mkbytes([tuple(x.as_long() if z3.is_bv_value(x) else x for x in out)])


# encode()/decode() of base64 characters must keep the 6-bit knowledge
from . import codec as _codec
_reg0 = _codec._reg


def _reg1(items, enc, c):
    _reg0(items, enc, c)
    m = C().__dict__.get('b64map')
    if m and not isinstance(c, int) and c.get_id() in m and len(items) == 1 and not isinstance(items[0], int):
        m[items[0].get_id()] = (items[0], m[c.get_id()][1])


_codec._reg = _reg1
_decode0 = _codec.decode


def _decode1(b, enc='utf-8', errors='strict'):
    m = C().__dict__.get('b64map')
    if m and isinstance(b, SBytes) and errors == 'strict' and _codec.norm_enc(enc) in ('utf-8', 'utf-8-sig', 'ascii', 'cp1251'):
        it = b.items()
        if all(isinstance(c, int) and c < 128 or (not isinstance(c, int) and c.get_id() in m) for c in it):
            out = []
            for c in it:
                if isinstance(c, int):
                    out.append(c)
                else:
                    e = z3.simplify(z3.ZeroExt(W_CH - 8, c))
                    m[e.get_id()] = (e, m[c.get_id()][1])
                    out.append(e)
            return mkstr(out)
    return _decode0(b, enc, errors)


_codec.decode = _decode1
vfs.decode = _decode1


model(codecs.decode)(lambda o, encoding='utf-8', errors='strict': o.decode(encoding, errors) if isinstance(o, SBytes) else codecs.decode(o, encoding, errors))
model(codecs.encode)(lambda o, encoding='utf-8', errors='strict': o.encode(encoding, errors) if isinstance(o, SStr) else codecs.encode(o, encoding, errors))


class VUUID:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return '<uuid>'


@model(uuid.UUID)
def m_uuid(hex=None, **k):
    if k or not isinstance(hex, SStr):
        return uuid.UUID(hex, **k)
    h = hex.replace('urn:', '').replace('uuid:', '')
    h = h.strip('{}').replace('-', '')
    if len(h) != 32:
        raise ValueError('badly formed hexadecimal UUID string')
    if isinstance(h, str):
        int(h, 16)
    else:
        for i, c in enumerate(h.cs):
            if not bool(ch_in(c, ops.HEX)):
                if bool(ch_in(c, CS.chars('_ \t\n\r\x0b\x0c+-xX'))) or not bool(ch_in(c, CS(((0, 127),)))):
                    int(h.concrete('uuid'), 16)
                    break
                raise ValueError('invalid literal for int() with base 16')
    return VUUID(h)


@model(uuid.uuid4)
def m_uuid4():
    ctx = C()
    ctx.uuidn = getattr(ctx, 'uuidn', 0) + 1
    return uuid.UUID(int=(0x1234567890abcdef1234567800000000 + ctx.uuidn))


class VHash:
    def __init__(self, name, data=b''):
        self.name = name
        self.segs = byte_segs(data)

    def update(self, d):
        self.segs = self.segs + byte_segs(d)

    def digest(self):
        d = mkbytes(self.segs)
        if not isinstance(d, SBytes):
            return getattr(hashlib, self.name)(d).digest()
        n = {'sha1': 20, 'md5': 16, 'sha256': 32}[self.name]
        ctx = C()
        reg = ctx.__dict__.setdefault('hashes', [])
        for nm, old, r in reg:
            if nm == self.name and bool(old == d):
                return r
        r = mkbytes([tuple(ctx.bv_var('%s_%d_%d' % (self.name, len(reg), i), 8) for i in range(n))])
        reg.append((self.name, d, r))
        return r

    def hexdigest(self):
        d = self.digest()
        return d.hex()


model(hashlib.new)(lambda name, data=b'', **k: VHash(name.lower(), data))
for _h in ('sha1', 'md5', 'sha256'):
    model(getattr(hashlib, _h))((lambda n: lambda data=b'', **k: VHash(n, data))(_h))


class VCompress:
    """zlib is trusted: compression is an uninterpreted injective function of the whole input"""
    def __init__(self, *a, **k):
        self.segs = []
        self.args = a, k

    def compress(self, d):
        self.segs.extend(byte_segs(d))
        return b''

    def flush(self, *a):
        d = mkbytes(self.segs)
        if C().__dict__.get('deflate_fixed') and not isinstance(d, SBytes):
            z = zlib.compressobj(*self.args[0], **self.args[1])
            return z.compress(bytes(d)) + z.flush()
        return deflated(d)


class VDecompress:
    """output of a prefix of the stream is some prefix of the data; the whole stream gives everything"""
    def __init__(self, *a, **k):
        self.args = a, k
        self.real = None
        self.fed = 0
        self.o = None
        self.out = 0
        self.unconsumed_tail = b''
        self.unused_data = b''
        self.eof = False

    def decompress(self, buf, max_length=0):
        if blen(buf) == 0:
            if self.real is not None:
                return self.real.decompress(b'', max_length)
            if self.o is None or not (self.fed == stream_len(self.o)) or self.eof:
                return b''
            return self.give(blen(self.o.meta[1]), max_length)
        segs = byte_segs(buf)
        if not isinstance(buf, SBytes) or len(segs) != 1 or not isinstance(segs[0], Seg) or not segs[0].o.meta:
            if not isinstance(buf, SBytes) or all(not isinstance(s, Seg) for s in segs):
                # not a stream made by the model: real zlib decides for concrete bytes
                if self.o is None:
                    if self.real is None:
                        self.real = zlib.decompressobj(*self.args[0], **self.args[1])
                    r = self.real.decompress(bytes(buf) if not isinstance(buf, SBytes) else buf.concrete('inflate'), max_length)
                    self.unconsumed_tail, self.unused_data, self.eof = self.real.unconsumed_tail, self.real.unused_data, self.real.eof
                    return r
            if self.eof:
                return b''
            raise zlib.error('Error -3 while decompressing data')
        s = segs[0]
        if self.o is None:
            self.o = s.o
        if self.o is not s.o or not (s.s == self.fed):
            raise zlib.error('Error -3 while decompressing data: invalid stream')
        self.fed = self.fed + s.n
        self.unconsumed_tail = b''
        d = s.o.meta[1]
        D = blen(d)
        L = stream_len(s.o)
        if self.fed == L:
            return self.give(D, max_length, buf)
        # a proper prefix: at least one byte comes out of a chunk of 512 bytes or more
        if not (D > self.out):
            return b''
        lo = self.out + 1 if s.n >= 512 else self.out
        C().nz2 = getattr(C(), 'nz2', 0) + 1
        k = SInt.var('inflate_cut%d' % C().nz2, 0, SInt.of(D).hi)
        C().assume(z3.And(bexpr(k >= lo), bexpr(k <= D)))
        if not (k > self.out):
            return b''
        return self.give(k, max_length, buf)

    def give(self, k, max_length, buf=None):
        """output up to k, at most max_length bytes of it; then some input may be left over"""
        d = self.o.meta[1]
        D = blen(d)
        if max_length and k - self.out > max_length:
            k = self.out + max_length
            if buf is not None:
                C().nz2 = getattr(C(), 'nz2', 0) + 1
                u = SInt.var('inflate_left%d' % C().nz2, 0, SInt.of(blen(buf)).hi)
                # without input left, less than one match (258 bytes) can be pending
                C().assume(z3.And(bexpr(u < blen(buf)), z3.Or(bexpr(u > 0), bexpr(D - k <= 258))))
                if u > 0:
                    self.unconsumed_tail = buf[blen(buf) - u:]
                    self.fed = self.fed - u
        elif self.fed == stream_len(self.o) and k == D:
            self.eof = True
        r = SBytes(byte_segs(d)).sub(self.out, k) if k > self.out else b''
        self.out = k
        return r

    def flush(self, *a):
        if self.real is not None:
            return self.real.flush(*a)
        if self.o is None or self.eof or not (self.fed == stream_len(self.o)):
            return b''
        return self.give(blen(self.o.meta[1]), 0)


def stream_len(o):
    return o.meta[2]


def deflated(d):
    ctx = C()
    n = ctx.__dict__.get('nz', 0)
    ctx.nz = n + 1
    name = 'deflate%d' % n
    lim = getattr(ctx, 'deflate_max', None)
    D = SInt.of(blen(d))
    if ctx.__dict__.get('deflate_fixed'):
        return mkbytes([Seg(Opaque(name, meta=('deflate', d, 64)), 0, 64)])
    over = (D.hi >> 12) + (D.hi >> 14) + 13
    L = SInt.var('deflate_len%d' % n, 2, min(lim, D.hi + over) if lim else D.hi + over)
    if isinstance(D, SInt) and not (lim and lim < 0):
        ctx.assume(bexpr(L <= D + over))
    o = Opaque(name, meta=('deflate', d, L))
    return mkbytes([Seg(o, 0, L)])


model(zlib.compressobj)(lambda *a, **k: VCompress())
model(zlib.decompressobj)(lambda *a, **k: VDecompress())


@model(zlib.compress)
def m_zcompress(d, *a, **k):
    return deflated(d) if isinstance(d, SBytes) else zlib.compress(d, *a, **k)


@model(zlib.decompress)
def m_zdecompress(d, *a, **k):
    if isinstance(d, SBytes):
        x = VDecompress()
        r = x.decompress(d)
        if not x.eof:
            raise zlib.error('incomplete or truncated stream')
        return r
    return zlib.decompress(d, *a, **k)


# ================================================================ datetime with symbolic tick counts
class VDelta:
    def __init__(self, us):
        self.us = us

    def __add__(self, o):
        if isinstance(o, datetime.timedelta):
            o = VDelta((o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds)
        if isinstance(o, datetime.datetime):
            return VDatetime.make((o - datetime.datetime(1, 1, 1)), self)
        if isinstance(o, VDelta):
            return VDelta(self.us + o.us)
        return NotImplemented
    __radd__ = __add__


MAXUS = (datetime.datetime.max - datetime.datetime.min) // datetime.timedelta(microseconds=1)


class VDatetime:
    def __init__(self, us):
        self.us = us

    @staticmethod
    def make(base, d):
        us = base // datetime.timedelta(microseconds=1) + d.us
        if us < 0 or us > MAXUS:
            raise OverflowError('date value out of range')
        return VDatetime(us)

    def timestamp(self):
        raise PathAbort('timestamp')


@model(datetime.timedelta)
def m_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    a = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
    if not has_sym(a):
        return datetime.timedelta(*a)
    us = 0
    for v, m in zip(a, (86400 * 10 ** 6, 10 ** 6, 1, 1000, 60 * 10 ** 6, 3600 * 10 ** 6, 7 * 86400 * 10 ** 6)):
        if isinstance(v, SFrac):
            v = v.floor()
        us = us + v * m
    lim = 999999999 * 86400 * 10 ** 6
    if us > lim + 86400 * 10 ** 6 - 1 or us < -lim:
        raise OverflowError('days=; must have magnitude <= 999999999')
    return VDelta(us)


# ================================================================ multiprocessing: the calls run in an arbitrary order
class FakePool:
    def __init__(self, processes=None, *a, **k):
        self.closed = False

    def _run(self, f, args, star=False, ordered=True):
        ctx = C()
        args = [deep(a) for a in args]
        idx = list(range(len(args)))
        if getattr(ctx, 'order_at', None) is not None:
            idx = idx if ordered else vfs.hot_order(idx)
        elif getattr(ctx, 'any_schedule', False) and len(idx) <= 4:
            idx = vfs.choose_order(idx, 'pool')
        res = {}
        for i in idx:
            ctx.pool_calls = getattr(ctx, 'pool_calls', 0) + 1
            r = call(f, *args[i]) if star else call(f, args[i])
            res[i] = deep(r)
            if not ordered:
                yield res[i]
        if ordered:
            for i in range(len(args)):
                yield res[i]

    def imap_unordered(self, f, it, chunksize=1): return self._run(f, list(it), ordered=False)
    def imap(self, f, it, chunksize=1): return self._run(f, list(it))
    def map(self, f, it, chunksize=None): return list(self._run(f, list(it)))
    def starmap(self, f, it, chunksize=None): return list(self._run(f, list(it), True))

    def apply(self, f, args=(), kwds={}):
        return call(f, *args, **kwds)

    def apply_async(self, f, args=(), kwds={}, *a):
        r = call(f, *args, **kwds)

        class R:
            def get(self, t=None): return r
            def wait(self, t=None): pass
            def ready(self): return True
        return R()

    def close(self): self.closed = True
    def join(self): pass
    def terminate(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True


model(multiprocessing.Pool)(FakePool)
model(multiprocessing.cpu_count, os.cpu_count)(lambda: 8)
model(multiprocessing.freeze_support)(lambda: None)


# ================================================================ calls an injected I/O error can hit
for _n, _f in list(__import__('symex.api', fromlist=['x']).faultable()):
    ops.FAULTABLE[id(_f)] = _n
