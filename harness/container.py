"""Container format: stages 0 (binary file <-> raw entries) and 1 (raw entries <-> inflated entries)."""
import os


def preload():
    global container, container_reader, container_writer, container_doc, helper
    from v8unpack import container, container_reader, container_writer, container_doc, helper


META = {
    'C01': {'bounds': 'entry count: any of 1..3 with every content of every length up to 1100 bytes (thorough 2000; the '
                      'copy loop works in 512-byte chunks, so up to four iterations), 1..2 entries with arbitrary names of 1..3 characters, '
                      'and the entry counts around the table-of-contents block boundaries (42, 43, 85, 86; thorough up to 130)',
            'assumptions': ['files live in an in-memory file system model; time stamps of entries are those of the model']},
    'C02': {'bounds': 'first container 1..2 entries, second (64-bit) 1..2 entries, every content up to 600 bytes (thorough 1100)',
            'assumptions': ['the first container has at most 42 entries (one table-of-contents block), as in every known 1C file']},
    'C03': {'bounds': 'documents cut into up to 3 blocks (thorough 4) of arbitrary sizes at arbitrary (permuted) positions, payload up to '
                      '900 bytes, any time stamps, any trailing garbage after the entry name; 32-bit and 64-bit',
            'assumptions': ['block headers as documented: three hexadecimal fields, letter case arbitrary']},
    'C04': {'bounds': 'up to 2 plain entries and 1 nested container with 2 entries (thorough: nested twice), contents up to 600 bytes, '
                      'compressed streams of any length up to 1100 bytes; one entry with a stream of up to 17000 bytes (three read chunks)',
            'assumptions': ['zlib is trusted: compression is an arbitrary injective function and inflating a stream chunk by chunk yields '
                            'an arbitrary split of the data', 'plain entries do not start with the container signature']},
    'C05': {'bounds': 'a one-entry and a two-entry container, contents up to 600 bytes, cut at every possible byte position',
            'assumptions': []},
    'C06': {'bounds': 'entry names of 1..8 arbitrary ASCII characters (thorough 12), 1..4 (thorough 8) arbitrary characters, absolute names, and nested containers',
            'assumptions': []},
    'C07': {'bounds': 'two entries beside the digest list, contents up to 600 bytes, names of up to 2 (thorough 3) arbitrary characters, also after configinfo',
            'assumptions': ['SHA-1 and zlib are uninterpreted functions']},
}
CASES = {
    'C01': [
        dict(func='roundtrip', params={'n': 1, 'size': 1100}),
        dict(func='roundtrip', params={'n': 2, 'size': 700}),
        dict(func='roundtrip', params={'n': 3, 'size': 520}),
        dict(func='roundtrip', params={'n': 2, 'size': 2000}, tier='thorough'),
        dict(func='roundtrip', params={'n': 3, 'size': 1100}, tier='thorough'),
        dict(func='names', params={'n': 1, 'length': 3}),
        dict(func='names', params={'n': 2, 'length': 2}),
        dict(func='names', params={'n': 2, 'length': 3}, tier='thorough'),
        dict(func='many', params={'counts': [41, 42, 43, 85, 86], 'size': 600}),
        dict(func='many', params={'counts': list(range(36, 48)) + [84, 85, 86, 87, 127, 128, 129, 130], 'size': 600}, tier='thorough'),
        dict(func='no_leftovers', params={'size': 300}),
    ],
    'C02': [
        dict(func='two_containers', params={'n': 1, 'm': 1, 'size': 600}),
        dict(func='two_containers', params={'n': 2, 'm': 1, 'size': 520}),
        dict(func='two_containers', params={'n': 1, 'm': 2, 'size': 520}),
        dict(func='two_containers', params={'n': 2, 'm': 2, 'size': 520}, tier='thorough'),
        dict(func='two_containers', params={'n': 1, 'm': 1, 'size': 2000}, tier='thorough'),
        dict(func='two_containers', params={'n': 42, 'm': 3, 'size': 10}),
    ],
    'C03': [
        dict(func='read_layout', params={'wide': False, 'blocks': 1, 'size': 900}),
        dict(func='read_layout', params={'wide': False, 'blocks': 2, 'size': 300}),
        dict(func='read_layout', params={'wide': False, 'blocks': 3, 'size': 100}),
        dict(func='read_layout', params={'wide': True, 'blocks': 2, 'size': 300}),
        dict(func='read_layout', params={'wide': True, 'blocks': 3, 'size': 60}),
        dict(func='read_layout', params={'wide': False, 'blocks': 4, 'size': 100}, tier='thorough'),
        dict(func='read_layout', params={'wide': True, 'blocks': 4, 'size': 100}, tier='thorough'),
        dict(func='read_toc', params={'wide': False}),
        dict(func='read_toc', params={'wide': True}),
        dict(func='read_stamps', params={}),
    ],
    'C04': [
        dict(func='stage1', params={'plain': 1, 'nested': 0, 'size': [0, 1600]}),
        dict(func='stage1', params={'plain': 1, 'nested': 0, 'size': [8150, 8400]}, max_s=150),
        dict(func='stage1', params={'plain': 1, 'nested': 0, 'size': [65530, 65800], 'stream': 400}),
        dict(func='stage1', params={'plain': 1, 'nested': 0, 'size': [65530, 65800], 'stream': 9000}, tier='thorough'),
        dict(func='stage1', params={'plain': 1, 'nested': 0, 'size': [0, 9000]}, tier='thorough', max_s=800),
        dict(func='stage1', params={'plain': 2, 'nested': 0, 'size': [0, 520]}),
        dict(func='stage1', params={'plain': 0, 'nested': 1, 'size': [0, 540]}),
        dict(func='stage1', params={'plain': 1, 'nested': 1, 'size': [30, 30]}),
        dict(func='stage1', params={'plain': 0, 'nested': 2, 'size': [0, 60]}),
        dict(func='stage1', params={'plain': 1, 'nested': 1, 'size': [0, 600]}, tier='thorough', max_s=800),
        dict(func='stage01', params={'size': [0, 520], 'inner': None}),
        dict(func='stage01', params={'size': [30, 30], 'inner': [0, 100]}),
        dict(func='stage01', params={'size': [0, 1100], 'inner': [0, 100]}, tier='thorough', max_s=800),
    ],
    'C05': [
        dict(func='cut', params={'n': 1, 'size': 600}),
        dict(func='cut', params={'n': 2, 'size': 10}),
        dict(func='cut', params={'n': 2, 'size': 600}, tier='thorough'),
        dict(func='cut_chain', params={'size': 300}),
    ],
    'C06': [
        dict(func='contained', params={'length': 8, 'deep': False}),
        dict(func='contained', params={'length': 12, 'deep': False}, tier='thorough'),
        dict(func='contained', params={'length': 8, 'deep': True}),
        dict(func='contained', params={'length': 12, 'deep': True}, tier='thorough'),
        dict(func='contained', params={'length': 4, 'deep': False, 'ascii': False}),
        dict(func='contained', params={'length': 2, 'deep': False, 'absolute': True}),
        dict(func='contained', params={'length': 8, 'deep': False, 'ascii': False}, tier='thorough'),
        dict(func='contained_stage1', params={'length': 8}),
    ],
    'C07': [
        dict(func='digest_names', params={'length': 2}),
        dict(func='digest_names', params={'length': 3}, tier='thorough'),
        dict(func='digests', params={'size': 520}),
        dict(func='digests', params={'size': 1100}, tier='thorough'),
    ],
}

NAMES = ['a', 'bb', 'version', 'd0', 'e', 'f']
END32, END64 = 0x7fffffff, 0xffffffffffffffff


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def read(path):
    with open(path, 'rb') as f:
        return f.read()


def check_dir(t, path, data, what):
    t.check_eq(len(os.listdir(path)), len(data), what + ': number of entries')
    for name in data:
        if isinstance(data[name], dict):
            t.check(os.path.isdir(os.path.join(path, name)), what + ': nested container becomes a folder')
            check_dir(t, os.path.join(path, name), data[name], what + ' (nested)')
        else:
            t.check(os.path.isfile(os.path.join(path, name)), what + ': entry exists')
            t.check_eq(read(os.path.join(path, name)), data[name], what + ': content of an entry')


def fill_dir(t, path, data):
    os.makedirs(path)
    for name in data:
        if isinstance(data[name], dict):
            fill_dir(t, os.path.join(path, name), data[name])
        else:
            write(os.path.join(path, name), data[name])


def build_extract(t, containers, what):
    src = os.path.join(t.dir, 'src')
    for i, data in enumerate(containers):
        fill_dir(t, os.path.join(src, str(i)), data)
    file = os.path.join(t.dir, 'out', 'x.bin')
    container_writer.build(src, file, True)
    res = os.path.join(t.dir, 'res')
    container_reader.extract(file, res, False, False)
    t.check_eq(sorted(os.listdir(res)), [str(i) for i in range(len(containers))], what + ': containers that come back')
    for i, data in enumerate(containers):
        check_dir(t, os.path.join(res, str(i)), data, what)


# ------------------------------------------------------------------------------------ C01
def roundtrip(t, n, size):
    build_extract(t, [{NAMES[i]: t.blob('d%d' % i, 0, size) for i in range(n)}], 'round trip')


def any_name(t, name, length):
    s = t.str(name, 1, length, exclude='/\0')
    t.assume(not (s == '.'))
    t.assume(not (s == '..'))
    return s


def names(t, n, length):
    pairs = []
    for i in range(n):
        s = any_name(t, 'name%d' % i, length)
        for o, _ in pairs:
            t.assume(not (o == s))
        pairs.append((s, t.blob('d%d' % i, 0, 40)))
    build_extract(t, [dict(pairs)], 'entry names')


def many(t, counts, size):
    n = t.choice('count', counts)
    k = t.choice('which', [0, 1])
    data = {'f%03d' % i: bytes([i % 251]) * (i % 7) for i in range(n)}
    data['f%03d' % (0 if k == 0 else n - 1)] = t.blob('d', 0, size)
    build_extract(t, [data], 'many entries')


def no_leftovers(t, size):
    """the target folder holds exactly the entries, whatever was there before"""
    old = os.path.join(t.dir, 'res', '0')
    os.makedirs(old)
    write(os.path.join(old, 'stale'), b'1')
    write(os.path.join(old, 'a'), b'longer than the new content')
    build_extract(t, [{'a': t.blob('d0', 0, size)}], 'stale files')


# ------------------------------------------------------------------------------------ C02
def two_containers(t, n, m, size):
    def make(tag, k):
        if k > 6:
            d = {'f%03d' % i: bytes([i % 251]) * (i % 7) for i in range(k)}
            d['f000'] = t.blob(tag, 0, size)
            return d
        return {NAMES[i]: t.blob('%s%d' % (tag, i), 0, size) for i in range(k)}
    build_extract(t, [make('x', n), make('y', m)], 'two containers')


# ------------------------------------------------------------------------------------ independent layout writer
def hexfield(v, wide, upper):
    fmt = ('%016X' if upper else '%016x') if wide else ('%08X' if upper else '%08x')
    return (fmt % v).encode()


def block(doc, cur, nxt, wide, upper=False):
    return b''.join([b'\r\n', hexfield(doc, wide, upper), b' ', hexfield(cur, wide, upper), b' ', hexfield(nxt, wide, upper),
                     b' \r\n'])


def le(v, n):
    return v.to_bytes(n, 'little')


def attr_doc(name, created=0, modified=0, tail=b'\0\0\0\0'):
    return b''.join([le(created, 8), le(modified, 8), b'\0\0\0\0', name.encode('utf-16-le'), tail])


class Layout:
    """places documents, block by block, in a container image"""

    def __init__(self, t, wide, upper=False):
        self.t, self.wide, self.upper = t, wide, upper
        self.end = END64 if wide else END32
        self.hs, self.bh = (20, 55) if wide else (16, 31)
        self.parts = []
        self.pos = None

    def single(self, data, slack=0):
        """a one-block document appended at the end -> offset"""
        off = self.pos
        n = len(data) + slack
        self.put(block(len(data), n, self.end, self.wide, self.upper), data, b'\0' * slack)
        return off

    def put(self, *bs):
        for b in bs:
            self.parts.append(b)
            self.pos = self.pos + len(b)

    def start(self, count, default=512):
        head = b''.join([le(END64, 8), le(default, 4), le(count, 4), le(0, 4)] if self.wide else
                        [le(END32, 4), le(default, 4), le(count, 4), le(0, 4)])
        self.pos = 0
        self.put(head)

    def toc(self, pairs, room):
        w = 8 if self.wide else 4
        b = b''.join(le(x, w) for p in pairs for x in (p[0], p[1], self.end))
        self.put(block(len(b), room, self.end, self.wide, self.upper), b, b'\0' * (room - len(b)))

    def image(self):
        return b''.join(self.parts)


# ------------------------------------------------------------------------------------ C03
def read_layout(t, wide, blocks, size):
    """one entry whose data is cut into blocks of arbitrary sizes placed in arbitrary order"""
    L = Layout(t, wide, t.choice('upper', [False, True]))
    L.start(1)
    room = 64
    data_first = L.pos + L.bh + room
    # sizes of the pieces: all but the last block are full; the last may have slack
    sizes = [t.int('s%d' % i, 1, size) for i in range(blocks)]
    slack = t.int('slack', 0, 40)
    pieces = [t.blob('p%d' % i, 0, size) for i in range(blocks)]
    for p, s in zip(pieces, sizes):
        t.assume(len(p) == s)
    total = sum(sizes)
    attr = attr_doc('entry')
    perm = list(range(blocks))
    if blocks > 1:
        perm = t.choice('perm', [list(p) for p in perms(blocks)] if blocks < 4 else [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]])
    offs = {}
    pos = data_first + L.bh + len(attr)
    for i in perm:
        offs[i] = pos
        pos = pos + L.bh + sizes[i] + (slack if i == blocks - 1 else 0)
    L.toc([(data_first, offs[0])], room)
    L.single(attr)
    for i in perm:
        last = i == blocks - 1
        doc = total if i == 0 else t.choice('cont_doc_size', [0, 7]) if i == 1 else 0
        nxt = L.end if last else offs[i + 1]
        L.put(block(doc, sizes[i] + (slack if last else 0), nxt, wide, L.upper), pieces[i])
        if last:
            L.put(b'\0' * slack)
    file = os.path.join(t.dir, 'x.bin')
    write(file, L.image())
    res = os.path.join(t.dir, 'res')
    container_reader.extract(file, res, False, False)
    check_dir(t, os.path.join(res, '0'), {'entry': b''.join(pieces)}, 'reading a fragmented document')
    with open(file, 'rb') as f:
        c = container_reader.detect_format(f, 0)
        c.read(f, 0)
        t.check_eq(list(c.files), ['entry'], 'names listed')
        t.check_eq(c.files['entry'].size, total, 'size reported for an entry')


def perms(n):
    if n == 1:
        return [[0]]
    return [p[:i] + [n - 1] + p[i:] for p in perms(n - 1) for i in range(n)]


def read_toc(t, wide):
    """two entries, table of contents cut into two blocks at any position, documents in any order, garbage after names"""
    L = Layout(t, wide)
    L.start(2)
    a, b = t.blob('a', 1, 20), t.blob('b', 1, 20)
    garbage = t.bytes('garbage', 4, 4)
    attrs = [attr_doc('one', tail=b'\0\0' + garbage), attr_doc('two', tail=b'\0\0')]
    order = t.choice('order', perms(4)[::5])
    docs = [attrs[0], a, attrs[1], b]
    w = 8 if wide else 4
    n = 6 * w
    cutpos = t.choice('cut', [1, 5, w, w + 3, 2 * w, 3 * w, 3 * w + 1, n - 1])
    first = L.pos
    base = first + L.bh + cutpos + L.bh + (n - cutpos)
    offs = {}
    pos = base
    for i in order:
        offs[i] = pos
        pos = pos + L.bh + len(docs[i])
    toc = b''.join(le(x, w) for p in [(offs[0], offs[1]), (offs[2], offs[3])] for x in (p[0], p[1], L.end))
    L.put(block(n, cutpos, first + L.bh + cutpos, wide), toc[:cutpos])
    L.put(block(0, n - cutpos, L.end, wide), toc[cutpos:])
    for i in order:
        L.put(block(len(docs[i]), len(docs[i]), L.end, wide), docs[i])
    file = os.path.join(t.dir, 'x.bin')
    write(file, L.image())
    # the bytes after the name need not be text: only a complete UTF-16 sequence is promised
    try:
        garbage.decode('utf-16-le')
    except UnicodeDecodeError:
        t.assume(False)
    with open(file, 'rb') as f:
        c = container_reader.detect_format(f, 0)
        c.read(f, 0)
        c.extract(os.path.join(t.dir, 'res'))
    check_dir(t, os.path.join(t.dir, 'res'), {'one': a, 'two': b}, 'table of contents')


def read_stamps(t):
    L = Layout(t, False)
    L.start(1)
    created, modified = t.int('created', 0, 2 ** 64 - 1), t.int('modified', 0, 2 ** 64 - 1)
    attr = attr_doc('entry', created, modified)
    off = L.pos + 31 + 64
    L.toc([(off, off + 31 + len(attr))], 64)
    L.single(attr)
    L.single(b'payload')
    file = os.path.join(t.dir, 'x.bin')
    write(file, L.image())
    container_reader.extract(file, os.path.join(t.dir, 'res'), False, False)
    check_dir(t, os.path.join(t.dir, 'res', '0'), {'entry': b'payload'}, 'any time stamp')


# ------------------------------------------------------------------------------------ C04
def plain(t, name, size, lo=0):
    b = t.blob(name, lo, size)
    t.assume(not (b[:4] == b'\xff\xff\xff\x7f'))
    return b


def nested_data(t, tag, depth, size):
    d = {'text': plain(t, tag + 't', size[1], size[0]), 'info': plain(t, tag + 'i', 3, 3)}
    if depth > 1:
        d['sub'] = nested_data(t, tag + 's', depth - 1, size)
    return d


def stage1_data(t, n, nested, size):
    data = {NAMES[i]: plain(t, 'd%d' % i, size[1] if i == 0 and not nested else 20, size[0] if i == 0 and not nested else 20) for i in range(n)}
    if nested:
        data['form.0'] = nested_data(t, 'n', nested, size)
    return data


def stage1(t, plain, nested, size, stream=None):
    if stream:
        t.deflate_max(stream)
    data = stage1_data(t, plain, nested, size)
    src, mid, res = (os.path.join(t.dir, x) for x in ('src', 'mid', 'res'))
    fill_dir(t, os.path.join(src, '0'), data)
    container_writer.compress_and_build(src, mid)
    container_reader.decompress_and_extract(mid, res)
    t.check_eq(os.listdir(res), ['0'], 'containers')
    check_dir(t, os.path.join(res, '0'), data, 'compress and inflate')


def stage01(t, size, inner):
    """both stages in a row, as build and extract use them"""
    data = {'a': plain(t, 'a', size[1], size[0])}
    if inner:
        data['form.0'] = {'text': plain(t, 'b', inner[1], inner[0])}
    src, mid, mid2, res = (os.path.join(t.dir, x) for x in ('src', 'mid', 'mid2', 'res'))
    file = os.path.join(t.dir, 'x.bin')
    fill_dir(t, os.path.join(src, '0'), data)
    container_writer.compress_and_build(src, mid)
    container_writer.build(mid, file, True)
    container_reader.extract(file, mid2, False, False)
    container_reader.decompress_and_extract(mid2, res)
    check_dir(t, os.path.join(res, '0'), data, 'both container stages')


# ------------------------------------------------------------------------------------ C05
def cut_and_check(t, image, data):
    n = t.int('cut', 1, 4000)
    t.assume(n < len(image))
    file = os.path.join(t.dir, 'x.bin')
    write(file, image[:n])
    res = os.path.join(t.dir, 'res')
    try:
        container_reader.extract(file, res, False, False)
    except Exception:
        return
    check_dir(t, os.path.join(res, '0'), data, 'a truncated file was accepted')


def cut(t, n, size):
    data = {NAMES[i]: t.blob('d%d' % i, 0, size) for i in range(n)}
    fill_dir(t, os.path.join(t.dir, 'src', '0'), data)
    file = os.path.join(t.dir, 'full.bin')
    container_writer.build(os.path.join(t.dir, 'src'), file, True)
    cut_and_check(t, read(file), data)


def cut_chain(t, size):
    """a document of two blocks: losing the tail of either is noticed"""
    L = Layout(t, False)
    L.start(1)
    a, b = t.blob('a', 1, size), t.blob('b', 1, size)
    attr = attr_doc('entry')
    off = L.pos + 31 + 64
    d = off + 31 + len(attr)
    L.toc([(off, d)], 64)
    L.single(attr)
    L.put(block(len(a) + len(b), len(a), d + 31 + len(a), False), a)
    L.put(block(0, len(b), END32, False), b)
    cut_and_check(t, L.image(), {'entry': b''.join([a, b])})


# ------------------------------------------------------------------------------------ C06
def outside(t, folder):
    """everything in the scratch area that is not below the folder the container is unpacked to"""
    return [p for p in t.tree(os.path.join(t.dir, 'area')) if not p.startswith(folder)]


def prepare(t):
    os.makedirs(os.path.join(t.dir, 'area', 'res'))
    write(os.path.join(t.dir, 'area', 'k'), b'keep')


def nothing_outside(t, folder):
    """the unpacking creates no files but those of the container itself"""
    after = outside(t, folder)
    t.check_eq([p for p in after if not (p.endswith('/') and folder.startswith(p))], EXPECTED, 'files outside the folder of the container')
    t.check_eq(read(os.path.join(t.dir, 'area', 'k')), b'keep', 'content of a file outside the target folder')


EXPECTED = ['k']


def evil_image(t, name, payload):
    L = Layout(t, False)
    L.start(1)
    attr = attr_doc(name)
    off = L.pos + 31 + 64
    L.toc([(off, off + 31 + len(attr))], 64)
    L.single(attr)
    L.single(payload)
    return L.image()


def evil_name(t, length, ascii):
    """any name but an absolute one, which would leave the scratch area of the check itself"""
    s = t.str('name', 1, length, chars=ASCII if ascii else None, exclude='\0')
    t.assume(not s.startswith('/'))
    return s


ASCII = ''.join(map(chr, range(128)))


def contained(t, length, deep, ascii=True, absolute=False):
    prepare(t)
    name = evil_name(t, length, ascii)
    if absolute:
        name = os.path.join(t.dir, 'area') + '/' + name
    image = evil_image(t, name, b'evil')
    if deep:
        image = evil_image(t, 'inner', image)
    file = os.path.join(t.dir, 'x.bin')
    write(file, image)
    try:
        container_reader.extract(file, os.path.join(t.dir, 'area', 'res'), False, deep)
    except Exception:
        pass
    # a failed unpacking of the nested container may leave its image behind
    nothing_outside(t, 'res/0/inner' if deep else 'res/0/')


def contained_stage1(t, length):
    """the nested container reached while inflating"""
    prepare(t)
    os.makedirs(os.path.join(t.dir, 'raw', '0'))
    os.makedirs(os.path.join(t.dir, 'mid', '0'))
    name = evil_name(t, length, True)
    write(os.path.join(t.dir, 'raw', '0', 'form'), evil_image(t, name, b'evil'))
    container_writer.compress_and_build_simple_file(os.path.join(t.dir, 'raw', '0', 'form'), os.path.join(t.dir, 'mid', '0', 'form'))
    try:
        container_reader.decompress_and_extract(os.path.join(t.dir, 'mid'), os.path.join(t.dir, 'area', 'res'))
    except Exception:
        pass
    nothing_outside(t, 'res/0/form')


# ------------------------------------------------------------------------------------ C07
def digest_names(t, length):
    """any name, also one that resembles the name of the digest entry"""
    import base64
    import hashlib
    a = t.str('a', 0, length, chars='0aAzc._-')
    name = t.choice('name', ['', 'configinfo', 'version', 'Configinfo']) + a
    t.assume(len(name) > 0)
    t.assume(not (name == 'configinfo') and not (name == '.') and not (name == '..') and not (name == 'b1'))
    data = {name: b'one', 'b1': b'two'}
    src, mid, res = (os.path.join(t.dir, x) for x in ('src', 'mid', 'res'))
    fill_dir(t, os.path.join(src, '0'), data)
    with open(os.path.join(src, '0', 'configinfo'), 'w', encoding='utf-8') as f:
        f.write('{1,{____versions____},"x"}')
    container_writer.compress_and_build(src, mid)
    container_reader.decompress_and_extract(mid, res)
    with open(os.path.join(res, '0', 'configinfo'), 'r', encoding='utf-8') as f:
        text = f.read()
    want = []
    for n in (name, 'b1') if name < 'b1' else ('b1', name):
        want.append('"' + n + '"')
        want.append(base64.b64encode(hashlib.sha1(read(os.path.join(mid, '0', n))).digest()).decode())
    t.check_eq(text, '{1,{2,' + ','.join(want) + '},"x"}', 'digest list of the configuration')


def digests(t, size):
    import base64
    import hashlib
    data = {'root': plain(t, 'r', size), 'b1': plain(t, 'b', 12, 12)}
    src, mid, res = (os.path.join(t.dir, x) for x in ('src', 'mid', 'res'))
    fill_dir(t, os.path.join(src, '0'), data)
    with open(os.path.join(src, '0', 'configinfo'), 'w', encoding='utf-8') as f:
        f.write('{1,{____versions____},"x"}')
    container_writer.compress_and_build(src, mid)
    container_reader.decompress_and_extract(mid, res)
    check_dir(t, os.path.join(res, '0'), dict(data, configinfo=read(os.path.join(res, '0', 'configinfo'))), 'digest stage')
    with open(os.path.join(res, '0', 'configinfo'), 'r', encoding='utf-8') as f:
        text = f.read()
    want = []
    for name in sorted(data):
        want.append('"%s"' % name)
        want.append(base64.b64encode(hashlib.sha1(read(os.path.join(mid, '0', name))).digest()).decode())
    flat = ''.join(text.split())
    t.check_eq(flat, '{1,{2,' + ','.join(want) + '},"x"}', 'digest list of the configuration')
