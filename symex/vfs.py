"""In-memory file system with symbolic names and contents."""
import codecs
import io
import os
from .core import C, CS, PathAbort
from .values import (SStr, SBytes, SInt, Seg, is_str, is_bytes, mkbytes, mkstr, byte_segs, blen, char_items, ch_in,
                     join, bjoin)
from .codec import norm_enc, encode, decode, SURR

CR = CS.chars('\r')
NL = CS.chars('\n')


class Node:
    def __init__(self):
        self.content = b''      # bytes | SBytes | Text
        self.mtime = 1700000000.0


class Text:
    """text content that has not been turned into bytes"""
    def __init__(self, enc, parts):
        self.enc, self.parts = enc, parts       # parts: list of str|SStr

    def text(self):
        if len(self.parts) != 1:
            self.parts = [join('', self.parts)]
        return self.parts[0]


class Dir:
    def __init__(self):
        self.entries = []   # [name, node]


class FS:
    def __init__(self):
        self.root = Dir()
        self.log = []
        self.shuffle = False
        self.counter = 0
        self.makedirs('/S')
        self.makedirs('/tmp')
        self.cwd = '/S'
        self.opened = []

    # ---- paths
    def parts(self, path):
        if isinstance(path, int):
            raise PathAbort('fd path')
        path = fspath(path)
        if not is_str(path):
            if is_bytes(path):
                path = path.decode()
            else:
                raise TypeError('expected str, bytes or os.PathLike object, not %s' % type(path).__name__)
        if not path:
            return None
        if isinstance(path, SStr):
            for c in path.cs:
                if bool(ch_in(c, CS(((0, 0),)))):
                    raise ValueError('embedded null byte')
                if bool(ch_in(c, SURR)):
                    raise UnicodeEncodeError('utf-8', '?', 0, 1, 'surrogates not allowed')
        elif '\0' in path:
            raise ValueError('embedded null byte')
        ab = path.startswith('/')
        if not ab:
            path = self.cwd + '/' + path
        out = []
        for p in path.split('/'):
            if len(p) == 0:
                continue
            if bool(p == '.'):
                out.append('.')
                continue
            if bool(p == '..'):
                out.append('..')
                continue
            out.append(p)
        return out

    def walk(self, path):
        """-> (parent Dir, name, node or None); raises FileNotFoundError/NotADirectoryError"""
        ps = self.parts(path)
        if ps is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        stack = [(self.root, '', self.root)]
        for i, p in enumerate(ps):
            cur = stack[-1][2]
            if cur is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
            if not isinstance(cur, Dir):
                raise NotADirectoryError(20, 'Not a directory', path)
            if isinstance(p, str) and p == '.':
                continue
            if isinstance(p, str) and p == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            if len(p) > 255 or (isinstance(p, str) and len(p.encode('utf-8', 'surrogatepass')) > 255):
                raise OSError(36, 'File name too long', path)
            stack.append((cur, p, self.find(cur, p)))
        return stack[-1]

    @staticmethod
    def find(d, name):
        for n, node in d.entries:
            if n is name or bool(n == name):
                return node
        return None

    def get(self, path):
        return self.walk(path)[2]

    def lookup(self, path):
        try:
            return self.get(path)
        except (FileNotFoundError, NotADirectoryError, OSError):
            return None

    def need(self, path):
        n = self.get(path)
        if n is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        return n

    # ---- operations
    def exists(self, path):
        try:
            return self.lookup(path) is not None
        except ValueError:
            return False

    def isdir(self, path):
        try:
            return isinstance(self.lookup(path), Dir)
        except ValueError:
            return False

    def isfile(self, path):
        try:
            return isinstance(self.lookup(path), Node)
        except ValueError:
            return False

    def mkdir(self, path, mode=0o777, **k):
        d, name, node = self.walk(path)
        if node is not None:
            raise FileExistsError(17, 'File exists', path)
        d.entries.append([name, Dir()])

    def makedirs(self, path, mode=0o777, exist_ok=False):
        ps = self.parts(path)
        if ps is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        stack = [self.root]
        created = False
        for p in ps:
            cur = stack[-1]
            if isinstance(p, str) and p == '.':
                continue
            if isinstance(p, str) and p == '..':
                if len(stack) > 1:
                    stack.pop()
                continue
            n = self.find(cur, p)
            if n is None:
                n = Dir()
                cur.entries.append([p, n])
                created = True
            elif not isinstance(n, Dir):
                if p is ps[-1]:
                    raise FileExistsError(17, 'File exists', path)
                raise NotADirectoryError(20, 'Not a directory', path)
            stack.append(n)
        if not created and not exist_ok:
            raise FileExistsError(17, 'File exists', path)

    def listdir(self, path='.', raw=False):
        n = self.need(path)
        if not isinstance(n, Dir):
            raise NotADirectoryError(20, 'Not a directory', path)
        names = [x[0] for x in n.entries]
        if getattr(C(), 'order_at', None) is not None:
            return names if raw else hot_order(names)
        if self.shuffle and 1 < len(names) <= 4:
            names = choose_order(names, 'listdir')
        return names

    def remove(self, path, **k):
        d, name, node = self.walk(path)
        if node is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if isinstance(node, Dir):
            raise IsADirectoryError(21, 'Is a directory', path)
        self._del(d, node)

    @staticmethod
    def _del(d, node):
        for i, (n, x) in enumerate(d.entries):
            if x is node:
                del d.entries[i]
                return

    def rmdir(self, path):
        d, name, node = self.walk(path)
        if node is None:
            raise FileNotFoundError(2, 'No such file or directory', path)
        if not isinstance(node, Dir):
            raise NotADirectoryError(20, 'Not a directory', path)
        if node.entries:
            raise OSError(39, 'Directory not empty', path)
        self._del(d, node)

    def rmtree(self, path, ignore_errors=False, onerror=None, **k):
        try:
            d, name, node = self.walk(path)
            if node is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
            if not isinstance(node, Dir):
                raise NotADirectoryError(20, 'Not a directory', path)
            self._del(d, node)
        except OSError:
            if not ignore_errors:
                raise

    def rename(self, a, b, **k):
        d, name, node = self.walk(a)
        if node is None:
            raise FileNotFoundError(2, 'No such file or directory', a)
        d2, name2, node2 = self.walk(b)
        if node2 is node:
            return
        if isinstance(node2, Dir):
            if not isinstance(node, Dir):
                raise IsADirectoryError(21, 'Is a directory', b)
            if node2.entries:
                raise OSError(39, 'Directory not empty', b)
        elif node2 is not None and isinstance(node, Dir):
            raise NotADirectoryError(20, 'Not a directory', b)
        self._del(d, node)
        if node2 is not None:
            self._del(d2, node2)
        d2.entries.append([name2, node])

    def copyfile(self, a, b, **k):
        n = self.need(a)
        if isinstance(n, Dir):
            raise IsADirectoryError(21, 'Is a directory', a)
        if self.isdir(b) and not k.get('_file'):
            b = model_join(b, self.walk(a)[1])
        d, name, node = self.walk(b)
        if node is n:
            import shutil
            raise shutil.SameFileError('same file')
        if node is None:
            node = Node()
            d.entries.append([name, node])
        elif isinstance(node, Dir):
            raise IsADirectoryError(21, 'Is a directory', b)
        c = n.content
        node.content = Text(c.enc, list(c.parts)) if isinstance(c, Text) else c
        return b

    def copytree(self, a, b, symlinks=False, ignore=None, copy_function=None, ignore_dangling_symlinks=False,
                 dirs_exist_ok=False):
        n = self.need(a)
        if not isinstance(n, Dir):
            raise NotADirectoryError(20, 'Not a directory', a)
        if self.exists(b) and not dirs_exist_ok:
            raise FileExistsError(17, 'File exists', b)
        self.makedirs(b, exist_ok=True)
        for name, x in list(n.entries):
            s, t = model_join(a, name), model_join(b, name)
            if isinstance(x, Dir):
                self.copytree(s, t, dirs_exist_ok=dirs_exist_ok)
            else:
                self.copyfile(s, t)
        return b

    def move(self, a, b, copy_function=None):
        if self.isdir(b):
            b = model_join(b, self.walk(a)[1])
        self.rename(a, b)
        return b

    def size(self, node):
        return blen(node_bytes(node))

    def tree(self, path):
        """[(relative path, 'dir'|'file', node)]"""
        out = []

        def rec(d, pre):
            for name, x in d.entries:
                p = name if pre is None else join('/', [pre, name])
                if isinstance(x, Dir):
                    out.append((p, 'dir', x))
                    rec(x, p)
                else:
                    out.append((p, 'file', x))
        n = self.lookup(path)
        if isinstance(n, Dir):
            rec(n, None)
        return out


def fspath(p):
    if isinstance(p, (str, bytes, SStr, SBytes, int)):
        return p
    if hasattr(p, '__fspath__'):
        return p.__fspath__()
    return p


def hot_order(names):
    """all orders but one are as usual: the one with the number chosen is arbitrary (of a list of more than three: any item first); -1: every list is reversed"""
    ctx = C()
    if len(names) < 2:
        return names
    if all(isinstance(x, str) for x in names):
        names = sorted(names)
    if bool(ctx.order_at == -1):
        return names[::-1]
    ctx.order_n = getattr(ctx, 'order_n', -1) + 1
    if not bool(ctx.order_at == ctx.order_n):
        return names
    return choose_order(names, 'hot', None if len(names) <= 3 else 1)


def choose_order(names, tag, steps=None):
    ctx = C()
    rest = list(names)
    out = []
    while len(rest) > 1 and len(out) != steps:
        picked = None
        for i in range(len(rest) - 1):
            v = ctx.bv_var('order_' + tag, 1)
            ctx.inputs.setdefault('__order__', []).append(v)
            if ctx.branch(v == 1):
                picked = i
                break
        if picked is None:
            picked = len(rest) - 1
        out.append(rest.pop(picked))
    return out + rest


def model_join(a, *ps):
    path = a
    for b in ps:
        if not is_str(b):
            raise TypeError("join() argument must be str, bytes, or os.PathLike object, not %s" % repr(type(b).__name__))
        if bool(b.startswith('/')) if isinstance(b, str) else bool(b.startswith('/')):
            path = b
        elif len(path) == 0 or bool(path.endswith('/')):
            path = path + b
        else:
            path = path + '/' + b
    return path


def node_bytes(node):
    c = node.content
    if isinstance(c, Text):
        t = c.text()
        c = encode(t, c.enc) if isinstance(t, SStr) else t.encode(c.enc)
        # keep the text form: it is what the bytes stand for
        return c
    return c


UTF8 = ('utf-8', 'utf-8-sig')


def node_text(node, enc):
    """content as text in encoding enc before newline translation"""
    n = norm_enc(enc)
    c = node.content
    if isinstance(c, Text):
        m = norm_enc(c.enc)
        t = c.text()
        if m == n:
            return t
        if m in UTF8 and n in UTF8:
            if m == 'utf-8-sig':
                return '\ufeff' + t
            if len(t) and bool(t.startswith('\ufeff')):
                return t[1:]
            return t
        c = node_bytes(node)
    if isinstance(c, SBytes):
        return decode(c, enc)
    return bytes(c).decode(enc)


def universal_newlines(t):
    if isinstance(t, str):
        return t.replace('\r\n', '\n').replace('\r', '\n')
    if getattr(t, 'value_obj', None) is not None:
        return t
    out = []
    cs = t.cs
    i = 0
    changed = False
    while i < len(cs):
        if bool(ch_in(cs[i], CR)):
            changed = True
            out.append(10)
            if i + 1 < len(cs) and bool(ch_in(cs[i + 1], NL)):
                i += 1
        else:
            out.append(cs[i])
        i += 1
    return mkstr(out) if changed else t


class VFile:
    """binary file"""
    mode_text = False

    def __init__(self, fs, node, name, readable, writable, append=False):
        self.fs, self.node, self.name = fs, node, name
        self._r, self._w, self._a = readable, writable, append
        self.pos = 0
        self.closed = False
        self.mode = 'rb+' if writable else 'rb'
        if append:
            self.pos = blen(node_bytes(node))

    fault = None      # an I/O error to come: 'use' or 'close'

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _io(self):
        self._chk()
        if self.fault == 'use':
            self.fault = None
            raise OSError(5, 'Input/output error')

    def _end(self):
        if self.fault == 'close':
            self.fault = None
            raise OSError(28, 'No space left on device')

    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return True
    def fileno(self): return self
    def isatty(self): return False
    def flush(self): self._chk()

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True
        self._end()

    def data(self):
        return node_bytes(self.node)

    def tell(self):
        self._chk()
        return self.pos

    def seek(self, off, whence=0):
        self._chk()
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos + off
        else:
            p = blen(self.data()) + off
        if p < 0:
            raise ValueError('negative seek value') if isinstance(self, VBytesIO) else OSError(22, 'Invalid argument')
        self.pos = p
        return p

    def read(self, n=None):
        self._io()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        d = self.data()
        L = blen(d)
        if self.pos >= L:
            return b''
        if n is None or n < 0:
            end = L
        else:
            end = self.pos + n
            if end > L:
                end = L
        if not (end > self.pos):
            return b''
        if isinstance(d, SBytes):
            r = d.sub(self.pos, end)
        elif isinstance(self.pos, int) and isinstance(end, int):
            r = d[self.pos:end]
        else:
            r = SBytes([tuple(d)]).sub(self.pos, end)
        self.pos = end
        return r
    read1 = read

    def readinto(self, b):
        d = self.read(blen(b))
        n = blen(d)
        b[:n] = d
        return n

    def readline(self, n=-1):
        self._io()
        rest = self.data()[self.pos:]
        i = rest.find(b'\n')
        return self.read(None if i < 0 else i + 1)

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def write(self, b):
        self._io()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        if not is_bytes(b):
            if isinstance(b, memoryview):
                b = bytes(b)
            else:
                raise TypeError("a bytes-like object is required, not '%s'" % type(b).__name__)
        d = self.data()
        L = blen(d)
        n = blen(b)
        pos = L if self._a else self.pos
        if n == 0:
            return 0
        if pos == L:
            nd = mkbytes(byte_segs(d) + byte_segs(b))
        elif pos > L:
            gap = pos - L
            nd = mkbytes(byte_segs(d) + byte_segs(b'\0' * gap) + byte_segs(b))
        else:
            D = d if isinstance(d, SBytes) else SBytes(byte_segs(d))
            left, right = D.cut(pos)
            end = pos + n
            tail = [] if end >= L else D.cut(end)[1]
            nd = mkbytes(left + byte_segs(b) + tail)
        self.node.content = nd
        self.pos = pos + n
        return n

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def truncate(self, n=None):
        self._io()
        n = self.pos if n is None else n
        d = self.data()
        L = blen(d)
        if n < L:
            self.node.content = d[:n]
        elif n > L:
            self.node.content = mkbytes(byte_segs(d) + byte_segs(b'\0' * (n - L)))
        return n


class VBytesIO(VFile):
    def __init__(self, initial=b''):
        node = Node()
        if not is_bytes(initial):
            if initial is None:
                initial = b''
            else:
                raise TypeError('a bytes-like object is required')
        node.content = bytes(initial) if isinstance(initial, (bytearray, bytes)) else mkbytes(list(initial.segs))
        VFile.__init__(self, None, node, None, True, True)

    def getvalue(self):
        return self.data()

    def getbuffer(self):
        return self.data()

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


class VText:
    """text file"""
    mode_text = True

    def __init__(self, fs, node, name, enc, newline, readable, writable, append=False):
        self.fs, self.node, self.name, self.encoding, self.newline = fs, node, name, enc, newline
        self._r, self._w = readable, writable
        self.closed = False
        self.mode = 'r+' if readable and writable else 'w' if writable else 'r'
        self._buf = None      # text being read
        self._pos = 0
        self._wstart = True
        self._whole = True
        self._append = append
        self._rewound = False

    fault = None      # an I/O error to come: 'use' or 'close'

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def _io(self):
        self._chk()
        if self.fault == 'use':
            self.fault = None
            raise OSError(5, 'Input/output error')

    def _end(self):
        if self.fault == 'close':
            self.fault = None
            raise OSError(28, 'No space left on device')

    def fileno(self): return self
    def readable(self): return self._r
    def writable(self): return self._w
    def seekable(self): return True
    def flush(self): pass

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True
        self._end()

    def _load(self):
        if self._buf is None:
            t = node_text(self.node, self.encoding)
            if self.newline is None:
                t = universal_newlines(t)
            self._buf = t

    def read(self, n=None):
        self._io()
        if not self._r:
            raise io.UnsupportedOperation('not readable')
        self._load()
        if n is None or n < 0:
            r = self._buf if self._pos == 0 else self._buf[self._pos:]
            self._pos = len(self._buf)
        else:
            r = self._buf[self._pos:self._pos + n]
            self._pos += len(r)
        return r

    def readline(self, n=-1):
        self._io()
        self._load()
        t = self._buf
        if self._pos >= len(t):
            return ''
        if isinstance(t, str):
            i = t.find('\n', self._pos)
            e = len(t) if i < 0 else i + 1
        else:
            e = self._pos
            while e < len(t):
                e += 1
                if bool(ch_in(t.cs[e - 1], NL)):
                    break
        r = t[self._pos:e]
        self._pos = e
        return r

    def readlines(self):
        return list(self)

    def __iter__(self):
        while True:
            l = self.readline()
            if len(l) == 0:
                return
            yield l

    def __next__(self):
        l = self.readline()
        if len(l) == 0:
            raise StopIteration
        return l

    def write(self, s):
        self._io()
        if not self._w:
            raise io.UnsupportedOperation('not writable')
        if not is_str(s):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        n = norm_enc(self.encoding)
        if isinstance(s, SStr) and getattr(s, 'value_obj', None) is None:
            if n in UTF8 or n.startswith('utf-16') or n.startswith('utf-32'):
                for c in s.cs:
                    if bool(ch_in(c, SURR)):
                        raise UnicodeEncodeError(n, '?', 0, 1, 'surrogates not allowed')
            else:
                encode(s, self.encoding)
        elif isinstance(s, str):
            s.encode(self.encoding)
        if self.newline not in (None, '', '\n'):
            s = s.replace('\n', self.newline)
        c = self.node.content
        if self._rewound == 'partial':
            raise PathAbort('text r+ position')
        if self._rewound or self._buf is not None or self._pos or (self._r and not isinstance(c, Text) and blen(c)):
            # read/write mode: text position semantics restricted to positions 0 and end
            full = node_text(self.node, self.encoding)
            if self._buf is not None and self._pos == len(self._buf) and self._pos:
                new = full + s
            elif self._pos == 0:
                self._rewound = False
                a = encode(full, self.encoding) if isinstance(full, SStr) else full.encode(self.encoding)
                b = encode(s, self.encoding) if isinstance(s, SStr) else s.encode(self.encoding)
                if blen(b) >= blen(a):
                    new = s
                else:
                    self.node.content = mkbytes(byte_segs(b) + SBytes(byte_segs(a)).cut(blen(b))[1])
                    self._buf = None
                    self._rewound = 'partial'
                    self._partial = blen(b)
                    return len(s)
            else:
                raise PathAbort('text r+ position')
            self.node.content = Text(self.encoding, [new])
            self._buf = None
            self._pos = len(new)
            return len(s)
        if isinstance(c, Text) and norm_enc(c.enc) == n:
            c.parts.append(s)
        elif (isinstance(c, bytes) and c == b''):
            self.node.content = Text(self.encoding, [s])
        else:
            self.node.content = Text(self.encoding, [node_text(self.node, self.encoding), s])
        return len(s)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        if whence == 0 and off == 0:
            self._pos = 0
            self._buf = None
            self._rewound = True
            return 0
        if whence == 2 and off == 0:
            self._load()
            self._pos = len(self._buf)
            return self._pos
        raise PathAbort('text seek')

    def tell(self):
        if self._buf is None:
            t = node_text(self.node, self.encoding) if self._w else ''
            return len(t) if self._w else 0
        return self._pos

    def truncate(self, n=None):
        if n is None and self._rewound == 'partial':
            c = node_bytes(self.node)
            self.node.content = mkbytes(SBytes(byte_segs(c)).cut(self._partial)[0])
            return self._partial
        n = self._pos if n is None else n
        t = node_text(self.node, self.encoding)
        self.node.content = Text(self.encoding, [t[:n]])
        return n

    def getvalue(self):
        return node_text(self.node, self.encoding)


class VStringIO(VText):
    def __init__(self, initial='', newline='\n'):
        node = Node()
        node.content = Text('utf-8', [initial if initial is not None else ''])
        VText.__init__(self, None, node, None, 'utf-8', '', True, True)
        self._sp = 0

    def write(self, s):
        c = self.node.content
        t = c.text()
        if self._buf is None and self._pos == 0 and len(t) and not getattr(self, '_wrote', False):
            t = t[len(s):] if len(s) < len(t) else ''
            self.node.content = Text('utf-8', [s + t])
        else:
            c.parts.append(s)
        self._wrote = True
        return len(s)

    def getvalue(self):
        return self.node.content.text()


def vopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = C().fs
    if isinstance(file, (VFile, VText)):
        node, name = file.node, file.name
        created = False
    else:
        path = fspath(file)
        d, name, node = fs.walk(path)
        if isinstance(node, Dir):
            raise IsADirectoryError(21, 'Is a directory', path)
        if len(path) > 1 and bool(fspath(path).endswith('/')):
            if node is not None:
                raise NotADirectoryError(20, 'Not a directory', path)
            if mode[0] != 'r':
                raise IsADirectoryError(21, 'Is a directory', path)
        name = path
        base = mode.replace('b', '').replace('t', '')
        if base[0] == 'r':
            if node is None:
                raise FileNotFoundError(2, 'No such file or directory', path)
        elif base[0] == 'x' and node is not None:
            raise FileExistsError(17, 'File exists', path)
        else:
            if node is None:
                node = Node()
                d.entries.append([fs.walk(path)[1], node])
            elif base[0] == 'w':
                node.content = b''
    base = mode.replace('b', '').replace('t', '')
    r = base[0] == 'r' or '+' in base
    wr = base[0] in 'wax' or '+' in base
    if 'b' in mode:
        return VFile(fs, node, name, r, wr, base[0] == 'a')
    if errors not in (None, 'strict'):
        raise PathAbort('open errors=')
    return VText(fs, node, name, encoding or 'utf-8', newline, r, wr, base[0] == 'a')
