"""Whole runs: index files, batch files, the command line, extraction and building from file to file."""
import json
import os
import sys

META = {}
CASES = {}
LINE = ' \t#&/aЯ;"|{'


def preload():
    global helper, index_mod, app, M, O, MetaDataTypes, ExtException, container_writer, container_reader, tool, version
    import v8unpack as tool
    from harness import meta as M, organizer as O
    M.preload()
    O.preload()
    from v8unpack import helper, index as index_mod, v8unpack as app, container_writer, container_reader, version
    from v8unpack.metadata_types import MetaDataTypes
    from v8unpack.ext_exception import ExtException


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def put_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(data, f, ensure_ascii=False)


def get_json(path):
    with open(path, encoding='utf-8') as f:
        return json.load(f)


def found(index, path):
    """value at a path of the index, None if there is none"""
    for p in path.split('/'):
        if not isinstance(index, dict) or p not in index:
            return None
        index = index[p]
    return index


def leaves(index, path=''):
    out = []
    for k in index:
        p = k if path == '' else path + '/' + k
        out.extend(leaves(index[k], p) if isinstance(index[k], dict) else [p])
    return out


# ------------------------------------------------------------------------------------------ C25
META['C25'] = {
    'bounds': 'source trees of up to 5 files at depth 0..2, one file or folder name of up to 6 arbitrary characters of %r, versions of files, any order of '
              'listing, index files with, without or with other entries, with and without a common folder; one to three index files with '
              'values overlapping at every level, arbitrary texts of up to 3 characters' % 'a.1-',
    'assumptions': ['an index entry of a folder is an object, of a file a text, as documented']}
CASES['C25'] = [
    dict(func='generated', params={'core': None}),
    dict(func='generated', params={'core': 'core'}),
    dict(func='file_names', params={'length': 5}),
    dict(func='file_names', params={'length': 6}, tier='thorough'),
    dict(func='folder_names', params={'length': 4}),
    dict(func='folder_names', params={'length': 5}, tier='thorough'),
    dict(func='again', params={}),
    dict(func='used', params={'descent': None}),
    dict(func='used', params={'descent': 5}),
    dict(func='merged', params={'n': 1}),
    dict(func='merged', params={'n': 2}),
    dict(func='merged_levels', params={}),
    dict(func='bad_index', params={}),
]


def generated(t, core):
    """every file gets an entry, entries that are there stay"""
    t.any_listdir_order()
    src = os.path.join(t.dir, 'src')
    names = ['a.bin', 'F/b.1.json', 'F/b.2.json', 'F/x/m.bsl', 'F/x/k.json']
    for n in names:
        put(os.path.join(src, n), b'1')
    ind = os.path.join(t.dir, 'index.json')
    v = t.str('v', 1, 1, chars='a/"Я')
    old = t.choice('old', [None, {}, {'a.bin': v}, {'F': {'b.json': v}}, {'F': {'x': {'m.bsl': v}, 'gone.bin': 'q'}},
                           {'index.json': ['x/index.json'], 'Области include': {'core_a': v}, 'F': {'y': {'*': v}}},
                           {'a.bin': None, 'F': {'x': {}}}])
    before = t.tree(src)
    if old is not None:
        put_json(ind, old)
    if core is None and t.bool('short'):
        tool.update_index(src, ind)      # as the documentation calls it
    else:
        tool.update_index(src, ind, core)
    got = get_json(ind)
    want = {}
    for n in ['a.bin', 'F/b.json', 'F/x/m.bsl', 'F/x/k.json']:
        was = old is not None and n in leaves(old)
        t.check_eq(found(got, n), found(old, n) if was else '' if core is None else core + '/' + n, 'entry of ' + n)
    for n in leaves(old or {}):
        t.check_eq(found(got, n), found(old, n), 'old entry ' + n)
    t.check_eq(sorted(leaves(got)), sorted(set(leaves(old or {}) + ['a.bin', 'F/b.json', 'F/x/m.bsl', 'F/x/k.json'])), 'entries')
    t.check_eq(t.tree(src), before, 'sources')


def without_version(name):
    p = name.split('.')
    if len(p) >= 3 and p[-2] != '' and all(c in '0123456789' for c in p[-2]) and (p[-2] == '0' or not p[-2][0] == '0'):
        return '.'.join(p[:-2] + p[-1:])
    return name


def file_names(t, length):
    """the version is not part of the name in the index"""
    src, ind = os.path.join(t.dir, 'src'), os.path.join(t.dir, 'index.json')
    n = t.str('n', 1, length, chars='a.1')
    t.assume(not (n == '.') and not (n == '..'))
    put(os.path.join(src, 'F', n), b'1')
    tool.update_index(src, ind, 'core')
    base = without_version(n)
    t.check_eq(get_json(ind), {'F': {base: 'core/F/' + base}}, 'index')


def folder_names(t, length):
    """a folder has no version"""
    src, ind = os.path.join(t.dir, 'src'), os.path.join(t.dir, 'index.json')
    n = t.str('n', 1, length, chars='a.1')
    t.assume(not (n == '.') and not (n == '..'))
    put(os.path.join(src, n, 'm.bsl'), b'1')
    tool.update_index(src, ind, 'core')
    t.check_eq(get_json(ind), {n: {'m.bsl': 'core/' + n + '/m.bsl'}}, 'index')


def again(t):
    """a second run changes nothing; edited entries stay; a new file is added"""
    src, ind = os.path.join(t.dir, 'src'), os.path.join(t.dir, 'index.json')
    names = ['a.bin', 'F/b.bin', 'F/x/c.bin']
    new = t.choice('new', names)
    for n in names:
        if n != new:
            put(os.path.join(src, n), b'1')
    tool.update_index(src, ind, 'core')
    one = get_json(ind)
    tool.update_index(src, ind, t.choice('core', ['core', 'other', None]))
    t.check_eq(get_json(ind), one, 'index after a second run')
    edit = t.choice('edit', [n for n in names if n != new])
    d = one
    for p in edit.split('/')[:-1]:
        d = d[p]
    d[edit.split('/')[-1]] = t.str('e', 0, 2, chars='a/')
    put_json(ind, one)
    put(os.path.join(src, new), b'1')
    tool.update_index(src, ind, 'core')
    got = get_json(ind)
    for n in names:
        t.check_eq(found(got, n), 'core/' + n if n == new else found(one, n), 'entry of ' + n)
    t.check_eq(sorted(leaves(got)), sorted(names), 'entries')


def used(t, descent):
    """with the generated index everything is kept in the common folder, what is set to an empty value stays; packing returns it"""
    root, s3, src, out = O.places(t, descent)
    b = t.bytes('b', 0, 2)
    names = {'T.bin': b, 'F/q.json': b'2', 'F/x/m.bsl': b'm\n', 'F/x/id.json': b'3'}
    for n in names:
        put(os.path.join(s3, n), names[n])
    O.unpack(t, s3, src, None, descent)
    ind = os.path.join(root, 'index.json')
    tool.update_index(src, ind, 'core')
    index = get_json(ind)
    t.check_eq(sorted(leaves(index)), sorted(names), 'entries of the index')
    own = t.choice('own', list(names))
    d = index
    for p in own.split('/')[:-1]:
        d = d[p]
    d[own.split('/')[-1]] = ''
    put_json(ind, index)
    index = helper.check_index(ind)
    import shutil
    shutil.rmtree(src)
    O.unpack(t, s3, src, index, descent)
    base = 'src/' if descent is None else 'src/ut/'
    want = {'core/' + n: v for n, v in names.items() if n != own}
    want[base + (own if descent is None else O.versioned(own, descent))] = names[own]
    got = {k: v for k, v in t.tree(root).items() if v is not None and k != 'index.json'}
    t.check_eq(got, want, 'where the files are')
    O.pack(t, src, out, index, descent)
    t.check_eq({k: v for k, v in t.tree(out).items() if v is not None}, names, 'files after unpacking and packing')


def merged(t, n):
    """an index made of several files: later files win over earlier ones, the file itself wins over all"""
    root = os.path.join(t.dir, 'p')
    v = [t.str('v%d' % i, 1, 2, chars='a/') for i in range(n + 1)]
    have = [t.choice('have%d' % i, ['none', 'top', 'deep', 'both', 'more']) for i in range(n + 1)]

    def part(i):
        d = {}
        if have[i] in ('top', 'both'):
            d['a.bin'] = v[i]
        if have[i] in ('deep', 'both'):
            d['F'] = {'x': {'m.bsl': v[i]}}
        if have[i] == 'more':
            d['F'] = {'x': {'k%d.bsl' % i: v[i]}, 'n.bin': v[i]}
        return d
    want = {}
    paths = []
    for i in range(n):
        p = os.path.join(root, 'sub%d' % i, 'index.json')
        put_json(p, part(i))
        paths.append(p)
    put_json(os.path.join(root, 'index.json'), {'index.json': paths, **part(n)})
    for i in range(n + 1):
        if have[i] in ('top', 'both'):
            want['a.bin'] = v[i]
        if have[i] in ('deep', 'both'):
            want['F/x/m.bsl'] = v[i]
        if have[i] == 'more':
            want['F/x/k%d.bsl' % i] = v[i]
            want['F/n.bin'] = v[i]
    before = t.tree(root)
    got = helper.check_index(os.path.join(root, 'index.json')) or {}
    t.check_eq(sorted(leaves(got)), sorted(want), 'entries')
    for k in want:
        t.check_eq(found(got, k), want[k], 'entry ' + k)
    t.check_eq(t.tree(root), before, 'index files')


def merged_levels(t):
    """values of every kind over values of every kind; an entry is never lost"""
    root = os.path.join(t.dir, 'p')
    a = t.choice('a', ['', None, 'x', 'absent'])
    b = t.choice('b', ['', None, 'y', 'absent'])
    put_json(os.path.join(root, 's.json'), {'F': {} if a == 'absent' else {'q': a}, 'z': 'z'})
    put_json(os.path.join(root, 'index.json'), {'index.json': [os.path.join(root, 's.json')], 'F': {} if b == 'absent' else {'q': b}})
    got = helper.check_index(os.path.join(root, 'index.json'))
    t.check_eq(got['z'], 'z', 'entry of the nested file')
    if a == 'absent' and b == 'absent':
        t.check_eq(got['F'], {}, 'folder')
    else:
        t.check_eq(got['F'], {'q': a if b == 'absent' else b}, 'folder')
    put_json(os.path.join(root, 'one.json'), {'index.json': [], 'a': 'b'})
    t.check_eq(helper.check_index(os.path.join(root, 'one.json')), {'a': 'b'}, 'index without nested files')
    t.check(helper.check_index(None) is None, 'no index')


def bad_index(t):
    """a wrong index file is an error that names the file, nothing is done"""
    root = os.path.join(t.dir, 'p')
    text = t.choice('text', [None, '', '{', '[]', '"a"', 'null', '1'])
    where = t.choice('where', ['main', 'nested', 'update'])
    bad = os.path.join(root, 'bad.json')
    if text is not None:
        put(bad, text.encode())
    put(os.path.join(root, 'src', 'a.bin'), b'1')
    put_json(os.path.join(root, 'index.json'), {'index.json': [bad], 'a': 'b'})
    before = t.tree(root)
    try:
        if where == 'update':
            t.assume(text in ('', '{'))
            tool.update_index(os.path.join(root, 'src'), bad, 'core')
        else:
            helper.check_index(bad if where == 'main' else os.path.join(root, 'index.json'))
    except ExtException as err:
        t.check('bad.json' in str(err), 'the error names the file')
    except ValueError:
        t.check(where == 'update', 'kind of error')
    else:
        t.fail('a wrong index file is accepted')
    t.check_eq(t.tree(root), before, 'files')


# ------------------------------------------------------------------------------------------ whole runs
PROC = 'ExternalDataProcessor'


class Run:
    """a place for whole runs: pools of this process, a temporary folder of its own"""

    def __init__(self, t):
        self.t = t
        self.sizes, self.pools = [], []

    def __enter__(self):
        import tempfile
        self.t.deflate_fixed()
        self.tmp = os.path.join(self.t.dir, 'tmp')
        os.makedirs(self.tmp, exist_ok=True)
        self.old = getattr(helper, 'Pool', None), tempfile.tempdir
        me = self

        class Recorder:
            def __new__(cls, processes=None, *a, **k):
                me.sizes.append(processes)
                p = me.t.pool()
                me.pools.append(p)
                return p
        if self.old[0] is not None:
            helper.Pool = Recorder
        tempfile.tempdir = self.tmp
        return self

    def released(self):
        self.t.check(all(p.closed for p in self.pools), 'worker processes left')
        self.t.check_eq(sorted(os.listdir(self.tmp)), [], 'temporary files left')

    def __exit__(self, *a):
        import tempfile
        if self.old[0] is not None:
            helper.Pool = self.old[0]
        tempfile.tempdir = self.old[1]


def content(t, code, name='Обработка', where='s1', kind=PROC, comment=''):
    """files of a small processor: module, form file"""
    s = M.Src.__new__(M.Src)
    s.t, s.brace, s.bytes = t, {}, {}
    s.dir = os.path.join(t.dir, where, '0')
    os.makedirs(s.dir)
    M.processor(s, [], hdr=M.header(M.U % 1, name, comment), kind=kind)
    s.module(M.U % 1 + '.0', code.encode('utf-8'))
    return s


def pack_product(t, s, path):
    """the product file of the files"""
    base = os.path.dirname(s.dir)
    container_writer.compress_and_build(base, base + '_packed', pool=t.pool())
    container_writer.build(base + '_packed', path, True)


def look_into(t, path, where):
    """files of a product"""
    d = os.path.join(t.dir, where)
    container_reader.extract(path, d + '_packed', False, False)
    container_reader.decompress_and_extract(d + '_packed', d, pool=t.pool())
    return os.path.join(d, '0')


def text_of(path):
    with open(path, 'r', encoding='utf-8-sig', newline='') as f:
        return f.read()


def module_of(t, path, where):
    return M.get(os.path.join(look_into(t, path, where), M.U % 1 + '.0', 'text'))


META['C42'] = {
    'bounds': 'external processors, configurations and extensions of one to three objects, from file to file: module texts of up to 3 arbitrary '
              'characters of %r and line feeds, an include area with or without an index, with and without version mode, temporary folder given or not, '
              'products of one and two containers built one after another, options used for several products; worker processes and temporary files released' % LINE,
    'assumptions': ['zlib is an arbitrary injective function', 'module texts without carriage returns', 'work items run one after another in a fixed order']}
CASES['C42'] = [
    dict(func='whole', params={'length': 2}),
    dict(func='whole', params={'length': 3}, tier='thorough'),
    dict(func='whole_places', params={}),
    dict(func='whole_area', params={'descent': None}),
    dict(func='whole_area', params={'descent': 3}),
    dict(func='whole_objects', params={'kind': 'configuration'}),
    dict(func='whole_objects', params={'kind': 'extension'}),
    dict(func='whole_versions', params={}),
    dict(func='whole_options', params={}),
    dict(func='whole_edit', params={}),
    dict(func='same_options', params={}),
    dict(func='whole_sequence', params={}),
]


def whole(t, length):
    """the product built from the extracted sources has the same files with the same contents"""
    with Run(t) as r:
        code = t.str('code', 0, length, chars=' #Я"\n')
        s = content(t, code)
        bin1, src, bin2 = [os.path.join(t.dir, x) for x in ('a.epf', 'src', 'b.epf')]
        pack_product(t, s, bin1)
        tool.extract(bin1, src)
        tool.build(src, bin2)
        s.compare(look_into(t, bin2, 's2'))
        r.released()


def whole_places(t):
    """whatever folders are given and whatever lies in them"""
    with Run(t) as r:
        code = t.str('code', 1, 1, chars=' Я')
        s = content(t, code)
        here = os.path.join(t.dir, 'here')
        os.makedirs(here)
        cwd = os.getcwd()
        os.chdir(here)
        try:
            rel = t.bool('relative')
            pre = '' if rel else here + os.sep
            dirty = t.choice('dirty', ['src', 'temp', 'no'])
            src = pre + t.choice('src', ['src', 'src/', 'x/src', './src'])
            bin1, bin2 = pre + 'a.epf', pre + t.choice('bin', ['b.epf', 'out/b.epf'])
            kw = {'temp_dir': pre + 'stages'} if dirty == 'temp' or t.bool('temp') else {}
            pack_product(t, s, os.path.join(here, 'a.epf'))
            if dirty == 'temp':
                for n in ('encode_stage_0', 'encode_stage_1', 'encode_stage_3', 'decode_stage_0', 'decode_stage_1', 'decode_stage_3'):
                    put(os.path.join(here, 'stages', n, '0', 'old.bin'), b'old')
                    put(os.path.join(here, 'stages', n, 'old.bin'), b'old')
            if dirty == 'src':
                put(os.path.join(src, 'Form', 'old', 'old.bin'), b'old')
                put(os.path.join(src, 'old.bin'), b'old')
            tool.extract(bin1, src, **kw)
            t.check_eq([x for x in O.files(src) if x.endswith('old.bin')], [], 'old files in the sources')
            tool.build(src, bin2, **kw)
            s.compare(look_into(t, os.path.join(here, bin2), 's2'))
            r.released()
        finally:
            os.chdir(cwd)


def whole_area(t, descent):
    """areas and files kept outside of the sources come back into the product; the shared file is the one that counts"""
    with Run(t):
        line = t.str('line', 0, 1, chars='aЯ "')
        code = 'x;\n#Область include_core_m\n%s;\n#КонецОбласти\ny;\n' % line
        s = content(t, code)
        root = os.path.join(t.dir, 'p')
        bin1, src, bin2 = os.path.join(root, 'a.epf'), os.path.join(root, 'src'), os.path.join(root, 'b.epf')
        if descent is not None:
            src = os.path.join(src, 'ut')
        os.makedirs(root)
        pack_product(t, s, bin1)
        how = t.choice('index', ['none', 'empty', 'area', 'file'])
        index = {'empty': {}, 'area': {'Области include': {'core_m': 'core_other'}},
                 'file': {PROC + '.json': 'base/p.json', PROC + '.obj.bsl': 'base/m.bsl'}}.get(how)
        kw = {'options': {} if descent is None else {'descent': descent}}
        if index is not None:
            kw['index'] = os.path.join(root, 'index.json')
            put_json(kw['index'], index)
        tool.extract(bin1, src, **kw)
        have = sorted(x for x in O.files(root) if not x.startswith('src/'))
        shared = 'src/core/%s.bsl' % ('other' if how == 'area' else 'm')
        every = O.files(root)
        area = [x for x in every if x.endswith('core/%s.bsl' % ('other' if how == 'area' else 'm'))]
        t.check_eq(len(area), 1, 'files of the area')
        if how == 'file':
            t.check(os.path.isfile(os.path.join(root, 'base', 'p.json')), 'file moved by the index')
        tool.build(src, bin2, **kw)
        s.compare(look_into(t, bin2, 's2'))
        new = 'z' + line + '\n'
        with open(os.path.join(root, area[0]), 'w', encoding='utf-8') as f:
            f.write(new)
        tool.build(src, bin2, **kw)
        t.check_eq(module_of(t, bin2, 's3'), ('x;\n#Область include_core_m\n%s#КонецОбласти\ny;\n' % new).encode(), 'module with the edited area')


def whole_objects(t, kind):
    """configurations and extensions with several objects; the digests of an extension are those of its files"""
    with Run(t):
        s = M.Src.__new__(M.Src)
        s.t, s.brace, s.bytes = t, {}, {}
        s.dir = os.path.join(t.dir, 's1', '0')
        os.makedirs(s.dir)
        a, b, c = M.U % 0x10, M.U % 0x20, M.U % 0x30
        types = [(MetaDataTypes.CommonModule.value, t.choice('order', [[a, b], [b, a]])), (MetaDataTypes.Role.value, [c])]
        if kind == 'configuration':
            M.configuration(s, types)
        else:
            M.extension(s, types)
        for u, n in ((a, 'Один'), (b, 'Два')):
            s.lists(u, M.obj_lists(M.S, M.TYPES['CommonModule'][1], M.header(u, n)))
            s.module(u + '.0', (t.str('code', 0, 1, chars='aЯ\n') if u == a else 'x;').encode('utf-8'))
        s.lists(c, M.obj_lists(M.S, M.TYPES['Role'][1], M.header(c, 'Роль')))
        s.raw(c + '.0', b'role')
        ext = '.cf' if kind == 'configuration' else '.cfe'
        bin1, src, bin2 = [os.path.join(t.dir, x) for x in ('a' + ext, 'src', 'b' + ext)]
        pack_product(t, s, bin1)
        auto = {'auto_include': True} if t.bool('auto') else {}
        tool.extract(bin1, src, options=dict(auto))
        t.check_eq(text_of(os.path.join(src, 'CommonModule', 'Два', 'CommonModule.obj.bsl')), 'x;', 'source of a module')
        tool.build(src, bin2, options=dict(auto))
        res = look_into(t, bin2, 's2')
        if kind == 'extension':
            info = helper.brace_file_read(res, 'configinfo')
            t.check_eq(info[2][1::2], ['"' + x + '"' for x in sorted(os.listdir(res)) if x != 'configinfo'], 'files in the list of digests')
            del s.brace['configinfo']
            os.remove(os.path.join(res, 'configinfo'))
        if auto:
            t.check_eq(sorted(x for x in O.files(res) if x != 'versions'), sorted(list(s.brace) + list(s.bytes)), 'files')
            for n in s.bytes:
                t.check_eq(M.get(os.path.join(res, n)), s.bytes[n], 'contents of ' + n)
        else:
            if kind == 'extension':
                s.brace['configinfo'] = None
                put(os.path.join(res, 'configinfo'), b'{1}')
                s.brace['configinfo'] = helper.brace_file_read(res, 'configinfo')
            s.compare(res)


def whole_versions(t):
    """products of two versions extracted one after another: each version is built as it was"""
    with Run(t):
        root = os.path.join(t.dir, 'p')
        src = os.path.join(root, 'src', 'ut')
        os.makedirs(root)
        v1, v2 = t.choice('versions', [(1, 2), (2, 1), (2, 10), (10, 2)])
        codes = {v1: t.str('one', 0, 1, chars='aЯ'), v2: t.str('two', 0, 1, chars='aЯ')}
        prods = {}
        for v in codes:
            s = content(t, codes[v] + ';', where='s%d' % v, comment='c%d' % v)
            pack_product(t, s, os.path.join(root, 'v%d.epf' % v))
            prods[v] = s
            tool.extract(os.path.join(root, 'v%d.epf' % v), src, options={'descent': v})
        for v in codes:
            out = os.path.join(root, 'out%d.epf' % v)
            tool.build(src, out, options={'descent': v})
            prods[v].compare(look_into(t, out, 'o%d' % v))
        later = os.path.join(root, 'later.epf')
        tool.build(src, later, options={'descent': 99})
        prods[max(codes)].compare(look_into(t, later, 'later'))


def whole_options(t):
    """prefix and version given for one run do not change what another run makes of the same sources"""
    with Run(t):
        s = content(t, 'x;', name='px_Имя')
        bin1, src, bin2, bin3 = [os.path.join(t.dir, x) for x in ('a.epf', 'src', 'b.epf', 'c.epf')]
        pack_product(t, s, bin1)
        options = t.choice('options', [None, {}, {'auto_include': True}, {'version': '803'}, {'prefix': 'px_'}])
        tool.extract(bin1, src, options=options)
        before = t.tree(src)
        tool.build(src, bin3, options=t.choice('other', [{'prefix': 'q_'}, {'version': '801'}, {'auto_include': True}]))
        t.check_eq(t.tree(src), before, 'sources after building')
        tool.build(src, bin2, options=options)
        if options != {'auto_include': True}:
            s.compare(look_into(t, bin2, 's2'))
        else:
            t.check_eq(module_of(t, bin2, 's2'), b'x;', 'module')


def same_options(t):
    """options that are used for one product and then for another stay as they were given, and no product gets anything of the other"""
    with Run(t):
        options = t.choice('options', [{}, {'auto_include': True}, {'version': '803'}, {'prefix': 'px_'}, {'descent': 4}])
        given = dict(options)
        bins, srcs, code = {}, {}, {}
        order = t.choice('order', [('conf', 'proc'), ('proc', 'conf')])
        for n in order:
            bins[n], srcs[n] = os.path.join(t.dir, n + '.bin'), os.path.join(t.dir, 'src', n)
        # a configuration has a version, the processor has a comment with a place for one
        code['conf'], code['proc'] = t.str('conf', 0, 1, chars='aЯ') + ';', t.str('proc', 0, 1, chars='aЯ') + ';'
        s = {'conf': small_configuration(t, 'sconf', code['conf']), 'proc': content(t, code['proc'], where='sproc', comment='ver:1.2')}
        for n in order:
            pack_product(t, s[n], bins[n])
            tool.extract(bins[n], srcs[n], options=options)
            t.check_eq(options, given, 'options after extracting')
        both = t.choice('version', ['none', 'first', 'both'])
        if both != 'none':
            put(os.path.join(srcs[order[0]], 'version.bin'), b'1.0.1')
        if both == 'both':
            put(os.path.join(srcs[order[1]], 'version.bin'), b'2.0.2')
        for n in order:
            tool.build(srcs[n], os.path.join(t.dir, n + '1.bin'), options=options)
            t.check_eq(options, given, 'options after building')
            tool.build(srcs[n], os.path.join(t.dir, 'x', n + '1.bin'), options=dict(given))
            a, b = look_into(t, os.path.join(t.dir, n + '1.bin'), 'a' + n), look_into(t, os.path.join(t.dir, 'x', n + '1.bin'), 'b' + n)
            skip = lambda tree: {k: v for k, v in tree.items() if k != 'versions'}      # made anew
            t.check_eq(skip(t.tree(a)), skip(t.tree(b)), 'product built with options that were used before')


def whole_sequence(t):
    """products of one and of two containers, one after another in the same temporary folder: each is built as it was"""
    with Run(t) as r:
        order = t.choice('order', [(2, 1), (1, 2), (2, 2), (1, 2, 1)])
        hot = t.int('hot', 0, 2)
        t.assume(hot < len(order))
        kw = {'temp_dir': os.path.join(t.dir, 'stages')} if t.bool('temp') else {}
        src = {}
        prods = []
        for i, n in enumerate(order):
            code = t.str('code', 0, 1, chars='aЯ') if hot == i else 'x%d;' % i
            s = content(t, code, where='s%d' % i, comment='c%d' % i)
            data = None
            if n == 2:
                base = os.path.dirname(s.dir)
                os.rename(s.dir, os.path.join(base, '1'))
                s.dir = os.path.join(base, '1')
                data = t.bytes('data', 1, 1) if hot == i else b'd%d' % i
                put(os.path.join(base, '0', 'first'), data)
                put(os.path.join(base, '0', 'root'), b'{2,1}')
            b = os.path.join(t.dir, 'a%d.epf' % i)
            pack_product(t, s, b)
            tool.extract(b, os.path.join(t.dir, 'src%d' % i), **kw)
            prods.append((s, data))
        for i, n in enumerate(order):
            out = os.path.join(t.dir, 'out', 'b%d.epf' % i)
            tool.build(os.path.join(t.dir, 'src%d' % i), out, **kw)
            s, data = prods[i]
            got = os.path.dirname(look_into(t, out, 'l%d' % i))
            t.check_eq(sorted(os.listdir(got)), ['0', '1'][:n], 'containers')
            s.compare(os.path.join(got, '%d' % (n - 1)))
            if n == 2:
                t.check_eq(sorted(os.listdir(os.path.join(got, '0'))), ['first', 'root'], 'files of the first container')
                t.check_eq(M.get(os.path.join(got, '0', 'first')), data, 'first container')


def whole_edit(t):
    """an edited module is built, everything else stays; a second extraction gives the edited sources"""
    with Run(t):
        s = content(t, 'x;')
        bin1, src, bin2, src2 = [os.path.join(t.dir, x) for x in ('a.epf', 'src', 'b.epf', 'src2')]
        pack_product(t, s, bin1)
        tool.extract(bin1, src)
        mod = [x for x in O.files(src) if x.endswith('.bsl')]
        t.check_eq(len(mod), 1, 'modules in the sources')
        new = t.str('new', 0, 2, chars='aЯ "')
        with open(os.path.join(src, mod[0]), 'w', encoding='utf-8') as f:
            f.write(new)
        tool.build(src, bin2)
        got = look_into(t, bin2, 's2')
        t.check_eq(M.get(os.path.join(got, M.U % 1 + '.0', 'text')), new.encode('utf-8'), 'edited module')
        for n in s.brace:
            t.check_eq(helper.brace_file_read(*os.path.split(os.path.join(got, n))), s.brace[n], 'lists of ' + n)
        tool.extract(bin2, src2)
        if new == '':      # an empty module is the same as none
            os.remove(os.path.join(src, mod[0]))
        a, b = t.tree(src), t.tree(src2)
        t.check_eq(b, a, 'sources extracted again')


# ------------------------------------------------------------------------------------------ C41
META['C41'] = {
    'bounds': 'batch files of two products, each with every value of disable, every product code given or not, for extraction, building and index; command '
              'lines of every mode with each option and every combination of two, batches compared with runs for each product alone with every option, with right and wrong files; module texts of up to 1 character',
    'assumptions': ['the work itself is what C20 to C42 say']}
CASES['C41'] = [
    dict(func='batch', params={'op': 'extract'}),
    dict(func='batch', params={'op': 'build'}),
    dict(func='batch', params={'op': 'index'}),
    dict(func='batch_options', params={}),
    dict(func='batch_alone', params={}),
    dict(func='batch_error', params={}),
    dict(func='cli', params={'mode': 'E'}),
    dict(func='cli', params={'mode': 'B'}),
    dict(func='cli_index', params={}),
    dict(func='cli_batch', params={}),
    dict(func='cli_errors', params={}),
    dict(func='cli_usage', params={}),
]


def command_line(args):
    """what main() returns: exit status"""
    old = sys.argv
    sys.argv = ['v8unpack'] + args
    try:
        try:
            return tool.main() or 0
        except SystemExit as err:
            return err.code or 0
    finally:
        sys.argv = old


def two_products(t, codes, prepare):
    root = os.path.join(t.dir, 'p')
    os.makedirs(root)
    products = {}
    for i, n in enumerate(('p1', 'p2')):
        products[n] = {'src': os.path.join(root, 'src' + n), 'bin': os.path.join(root, 'out' + n, n + '.epf')}
        if prepare == 'bin':
            pack_product_dir(t, content(t, codes[i], where='s' + n), products[n]['bin'])
        elif prepare == 'src':
            b = os.path.join(t.dir, 'made', n + '.epf')
            pack_product_dir(t, content(t, codes[i], where='s' + n), b)
            tool.extract(b, products[n]['src'])
    return root, products


def pack_product_dir(t, s, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    pack_product(t, s, path)


def module_source(src):
    m = [x for x in O.files(src) if x.endswith('.bsl')]
    return text_of(os.path.join(src, m[0])) if m else None


def batch(t, op):
    """exactly the products asked for are processed, each with its own files"""
    with Run(t):
        codes = ['a;', 'b;']
        root, products = two_products(t, codes, {'extract': 'bin', 'build': 'src', 'index': 'no'}[op])
        for n in products:
            d = t.choice('disable_' + n, ['absent', True, False])
            if d != 'absent':
                products[n]['disable'] = d
            products[n]['index'] = os.path.join(root, n + '.json')
            put_json(products[n]['index'], {})
            products[n]['temp'] = os.path.join(root, 'temp' + n)
            if op == 'index':
                put(os.path.join(products[n]['src'], 'F', n + '.bin'), b'1')
        code = t.choice('product', [None, 'p1', 'p2', 'p3'])
        file = os.path.join(root, 'products.json')
        put_json(file, products)
        before = t.tree(root)
        chosen = [n for n in products if code == n or code is None and products[n].get('disable') is not True]
        args = (file,) if code is None else (file, code)
        try:
            if op == 'extract':
                tool.extract_all(*args)
            elif op == 'build':
                tool.build_all(*args)
            else:
                tool.update_index_all(*args, dest_dir='core')
        except ExtException:
            t.check(code == 'p3', 'unexpected error')
            t.check_eq(t.tree(root), before, 'files after an error')
            return
        t.check(not code == 'p3', 'an unknown product is not an error')
        after = t.tree(root)
        for i, n in enumerate(products):
            if n not in chosen:
                own = lambda tree: {k: v for k, v in tree.items() if n in k}
                t.check_eq(own(after), own(before), 'files of a product that was not asked for')
                continue
            if op == 'extract':
                t.check_eq(module_source(products[n]['src']), codes[i], 'module')
            elif op == 'build':
                t.check_eq(module_of(t, products[n]['bin'], 'l' + n), codes[i].encode(), 'module')
            else:
                t.check_eq(get_json(products[n]['index']), {'F': {n + '.bin': 'core/F/' + n + '.bin'}}, 'index')
        t.check_eq(get_json(file), products, 'batch file')


def batch_options(t):
    """options of one product are not those of the other"""
    with Run(t):
        root, products = two_products(t, ['a;', 'b;'], 'bin')
        which = t.choice('which', ['p1', 'p2'])
        n = t.int('descent', 1, 3)
        d = 1 if n == 1 else 2 if n == 2 else 3
        products[which]['options'] = {'descent': d, 'auto_include': True}
        other = 'p2' if which == 'p1' else 'p1'
        if t.bool('empty'):
            products[other]['options'] = {'descent': None}
        for q in products:
            products[q]['src'] = os.path.join(root, 'src', q)
        file = os.path.join(root, 'products.json')
        put_json(file, products)
        tool.extract_all(file)
        t.check_eq([x for x in O.files(products[which]['src']) if '.%d.' % d not in x], [], 'files without a version')
        t.check_eq([x for x in O.files(products[other]['src']) if '.%d.' % d in x], [], 'files with the version of the other product')
        for q in products:
            os.remove(products[q]['bin'])
        tool.build_all(file)
        for q, code in (('p1', b'a;'), ('p2', b'b;')):
            t.check_eq(module_of(t, products[q]['bin'], 'l' + q), code, 'module')


def batch_alone(t):
    """a batch makes of every product what a run for it alone makes"""
    with Run(t):
        root = os.path.join(t.dir, 'p')
        kinds = [None, {}, {'prefix': 'px_'}, {'auto_include': True}, {'version': '80306'}, {'descent': 3}]
        hot = t.choice('hot', ['p1', 'p2'])
        given = {'p1': t.choice('one', kinds), 'p2': t.choice('two', kinds)}
        products = {}
        for n in given:
            s = small_configuration(t, 's' + n, (t.str('code', 0, 1, chars='aЯ') if n == hot else 'b') + ';')
            products[n] = {'src': os.path.join(root, n, 'src', 'ut'), 'bin': os.path.join(t.dir, n + '.cf')}
            if given[n] is not None:
                products[n]['options'] = given[n]
            pack_product(t, s, products[n]['bin'])
        file = os.path.join(t.dir, 'products.json')
        put_json(file, products)
        before = M.get(file)
        tool.extract_all(file)
        t.check_eq(M.get(file), before, 'batch file')
        for n in products:
            tool.extract(products[n]['bin'], os.path.join(t.dir, 'alone', n, 'src', 'ut'), options=given[n])
            t.check_eq(t.tree(os.path.join(root, n)), t.tree(os.path.join(t.dir, 'alone', n)), 'sources of ' + n)
            os.remove(products[n]['bin'])
        tool.build_all(file)
        for n in products:
            alone = os.path.join(t.dir, 'alone', n + '.cf')
            tool.build(products[n]['src'], alone, options=dict(given[n] or {}, product=n))
            one, two = look_into(t, products[n]['bin'], 'l1' + n), look_into(t, alone, 'l2' + n)
            skip = lambda tree: {k: v for k, v in tree.items() if k != 'versions'}      # made anew
            t.check_eq(skip(t.tree(one)), skip(t.tree(two)), 'product ' + n)


def batch_error(t):
    """a product that fails makes the batch fail"""
    with Run(t):
        root, products = two_products(t, ['a;', 'b;'], 'bin')
        bad = t.choice('bad', ['p1', 'p2'])
        how = t.choice('how', ['bin', 'index', 'no bin'])
        if how == 'bin':
            put(products[bad]['bin'], t.bytes('data', 1, 2))
        elif how == 'index':
            products[bad]['index'] = os.path.join(root, 'none.json')
        else:
            del products[bad]['bin']
        file = os.path.join(root, 'products.json')
        put_json(file, products)
        direct = t.bool('direct')
        if direct:
            try:
                tool.extract_all(file)
            except ExtException:
                pass
            else:
                t.fail('the error is lost')
        else:
            t.check_eq(command_line(['-EA', file]), 1, 'exit status')
        t.check_eq(module_source(products['p1']['src']), None if bad == 'p1' else 'a;', 'first product')


OPTIONS = [{}, {'prefix': 'px_'}, {'version': '80306'}, {'auto_include': True}, {'descent': 7}, {'prefix': 'px_', 'descent': 12},
           {'auto_include': True, 'version': '80310'}, {'prefix': 'q', 'auto_include': True}]


def as_arguments(t, options):
    out = []
    for k, v in options.items():
        if v is True:
            out.append('--' + k)
        elif t.bool('equals_' + k):
            out.append('--%s=%s' % (k, v))
        else:
            out.extend(['--' + k, str(v)])
    return out


def small_configuration(t, where, code):
    s = M.Src.__new__(M.Src)
    s.t, s.brace, s.bytes = t, {}, {}
    s.dir = os.path.join(t.dir, where, '0')
    os.makedirs(s.dir)
    a = M.U % 0x10
    M.configuration(s, [(MetaDataTypes.CommonModule.value, [a])])
    s.lists(a, M.obj_lists(M.S, M.TYPES['CommonModule'][1], M.header(a, 'px_М')))
    s.module(a + '.0', code.encode('utf-8'))
    return s


def cli(t, mode):
    """the command line does what a call with the same options does, with the number of processes asked for"""
    with Run(t) as r:
        s = small_configuration(t, 's1', t.str('code', 1, 1, chars='aЯ'))
        options = t.choice('options', OPTIONS)
        root1, root2 = os.path.join(t.dir, 'one'), os.path.join(t.dir, 'two')
        put(os.path.join(root1, 'x'), b'')
        put(os.path.join(root2, 'x'), b'')
        bin1 = os.path.join(t.dir, 'a.cf')
        pack_product(t, s, bin1)
        extra = {}
        args = as_arguments(t, options)
        index = t.choice('index', [None, {}, {'CommonModule': {'М' if 'prefix' in options else 'px_М': {'CommonModule.json': 'core/m.json'}}}]) if mode == 'E' else None
        if index is not None:
            put_json(os.path.join(t.dir, 'index.json'), index)
            args += ['--index', os.path.join(t.dir, 'index.json')]
            extra['index'] = os.path.join(t.dir, 'index.json')
        proc = t.choice('processes', [None, 3])
        if proc is not None:
            args += ['--processes', str(proc)]
        temp = t.bool('temp')
        if temp:
            args += ['--temp', os.path.join(t.dir, 'stages')]
        src = 'src/ut' if 'descent' in options else 'src'
        if mode == 'E':
            call = lambda root: tool.extract(bin1, os.path.join(root, src), options=dict(options), **extra)
            line = ['-E', bin1, os.path.join(root1, src)]
        else:
            tool.extract(bin1, os.path.join(t.dir, src), options=dict(options))
            call = lambda root: tool.build(os.path.join(t.dir, src), os.path.join(root, 'b.cf'), options=dict(options))
            line = ['-B', os.path.join(t.dir, src), os.path.join(root1, 'b.cf')]
        call(root2)
        del r.sizes[:]
        t.check_eq(command_line(line + args if t.bool('last') else args + line), 0, 'exit status')
        if r.sizes:
            t.check_eq([x for x in r.sizes if x != (proc if proc is not None else r.sizes[0])], [], 'number of processes')
        t.check_eq(os.path.isdir(os.path.join(t.dir, 'stages', 'decode_stage_3' if mode == 'E' else 'encode_stage_3')), temp, 'temporary folder')
        if mode == 'E':
            t.check_eq(t.tree(root1), t.tree(root2), 'result of the command line')
        else:
            one, two = look_into(t, os.path.join(root1, 'b.cf'), 'l1'), look_into(t, os.path.join(root2, 'b.cf'), 'l2')
            skip = lambda tree: {k: v for k, v in tree.items() if k != 'versions'}      # made anew
            t.check_eq(skip(t.tree(one)), skip(t.tree(two)), 'result of the command line')


def cli_index(t):
    with Run(t):
        src, ind = os.path.join(t.dir, 'src'), os.path.join(t.dir, 'index.json')
        put(os.path.join(src, 'F', 'a.3.bin'), b'1')
        if t.bool('old'):
            put_json(ind, {'z': t.str('v', 0, 1, chars='aЯ')})
        ind2 = os.path.join(t.dir, 'index2.json')
        if os.path.isfile(ind):
            put(ind2, M.get(ind))
        core = t.choice('core', [None, 'core', '../core'])
        args = ['-I', src, '--index', ind] + ([] if core is None else ['--core', core])
        t.check_eq(command_line(args), 0, 'exit status')
        tool.update_index(src, ind2, core)
        t.check_eq(get_json(ind), get_json(ind2), 'index')
        t.check_eq(found(get_json(ind), 'F/a.bin'), '' if core is None else core + '/F/a.bin', 'entry')


def cli_batch(t):
    """batch commands take the product from --index"""
    with Run(t):
        op = t.choice('op', ['EA', 'BA', 'IA'])
        code = t.choice('product', [None, 'p1', 'p2'])
        root, products = two_products(t, ['a;', 'b;'], {'EA': 'bin', 'BA': 'src', 'IA': 'no'}[op])
        for n in products:
            products[n]['index'] = os.path.join(root, n + '.json')
            put_json(products[n]['index'], {})
            if op == 'IA':
                put(os.path.join(products[n]['src'], n + '.bin'), b'1')
        products['p2']['disable'] = True
        file = os.path.join(root, 'products.json')
        put_json(file, products)
        core = t.bool('core') if op == 'IA' else False
        t.check_eq(command_line(['-' + op, file] + ([] if code is None else ['--index', code]) + (['--core', 'core'] if core else [])), 0, 'exit status')
        for n in products:
            chosen = n == (code or 'p1')
            if op == 'EA':
                t.check_eq(os.path.isdir(products[n]['src']), chosen, 'sources of ' + n)
            elif op == 'BA':
                t.check_eq(os.path.isfile(products[n]['bin']), chosen, 'product ' + n)
            else:
                t.check_eq(get_json(products[n]['index']), {n + '.bin': 'core/' + n + '.bin' if core else ''} if chosen else {}, 'index of ' + n)


def cli_errors(t):
    """whatever fails, the exit status says so"""
    with Run(t):
        mode = t.choice('mode', ['E', 'B', 'I', 'EA', 'BA', 'IA'])
        src, bin1 = os.path.join(t.dir, 'src'), os.path.join(t.dir, 'a.epf')
        bad = os.path.join(t.dir, 'bad.json')
        kind = t.choice('kind', ['missing', 'garbage', 'index'])
        put(bad, t.str('text', 0, 2, chars='{[1').encode())
        none = os.path.join(t.dir, 'none')
        t.assume(not (text_of(bad) == '1'))
        if mode in ('E', 'B'):
            s = content(t, 'x;')
            pack_product(t, s, bin1)
            if mode == 'B':
                tool.extract(bin1, src)
            if kind == 'index':
                args = ['-' + mode] + ([bin1, src] if mode == 'E' else [src, bin1]) + ['--index', bad]
            elif mode == 'E':
                args = ['-E', bad if kind == 'garbage' else none, src]
            else:
                if kind == 'garbage':
                    os.makedirs(none)
                args = ['-B', none, bin1]
        elif mode == 'I':
            put(os.path.join(src, 'a.bin'), b'1')
            args = ['-I', none if kind == 'missing' else src] + (['--index', bad] if kind == 'index' else [])
            if kind == 'index':
                t.assume(not text_of(bad) == '11')
        else:
            args = ['-' + mode, none if kind == 'missing' else bad]
        t.check_eq(command_line(args), 1, 'exit status')


def cli_usage(t):
    """command lines that say nothing or too much do nothing and fail"""
    with Run(t):
        src = os.path.join(t.dir, 'src')
        put(os.path.join(src, 'a.bin'), b'1')
        n = t.int('n', 0, 4)
        lines = [[], ['-E', src], ['-B', src, 'x', 'y'], ['-I', src, '-E', src, src], ['--prefix', 'a']]
        i = 0
        while i < 4 and not n == i:
            i += 1
        before = t.tree(t.dir)
        t.check(command_line(lines[i]) != 0, 'exit status')
        t.check_eq(t.tree(t.dir), before, 'files')


# ------------------------------------------------------------------------------------------ C40
META['C40'] = {
    'bounds': 'one input/output error, or permission denied one to three times, at every single operation (opening, first use and closing of a file, listing, creating, copying, removing) of extraction, '
              'building and indexing of products with a module with an include area and a file, with and without version mode and an index, through the '
              'calls and the command line; every product file of up to 40 arbitrary bytes and a product cut at any place; every error class with arbitrary texts; a broken object named in the error',
    'assumptions': ['errors are OSError with EIO or ENOSPC; they hit calls of the tool itself, in any process', 'removal of a folder with all its contents does not fail',
                    'the pools of processes pass errors on as pickled objects']}
PART, ALL = 24, 10 ** 6
FAULTS = {'extract': 4, 'extract_version': 4, 'extract_index': 4, 'build': 6, 'build_version': 6, 'build_index': 6, 'index': 1}


def parts(op, n, size):
    """all operations in n parts"""
    return [{'op': op, 'lo': i * size + 1, 'hi': (i + 1) * size if i + 1 < n else ALL} for i in range(n)]


CASES['C40'] = [dict(func='fault', params=p) for op, n in FAULTS.items() for p in parts(op, n, PART)] + [
    dict(func='fault', params={**p, 'denied': True}) for op, n in FAULTS.items() for p in parts(op, (n + 1) // 2, PART * 2)] + [
    *[dict(func='fault_cli', params={'lo': p['lo'], 'hi': p['hi'], 'op': p['op']}) for p in parts('E', 1, 40) + parts('B', 2, 40)],
    dict(func='not_a_product', params={'length': 40}),
    dict(func='cut_product', params={'lo': 0, 'hi': 40}),
    dict(func='cut_product', params={'part': 8}),
    dict(func='bad_sources', params={}),
    dict(func='transport', params={'what': 'class'}),
    dict(func='transport', params={'what': 'parent'}),
    dict(func='chain', params={}),
    dict(func='task_error', params={}),
    dict(func='names_broken', params={'op': 'E'}),
    dict(func='names_broken', params={'op': 'B'}),
] + [dict(func='cut_product', params={'lo': i, 'hi': i + 459}, tier='thorough') for i in range(41, 4100, 460)]
CACHE = {}


def fault_product(t, op):
    """sources and product of a configuration"""
    s = M.Src.__new__(M.Src)
    s.t, s.brace, s.bytes = t, {}, {}
    s.dir = os.path.join(t.dir, 's1', '0')
    os.makedirs(s.dir)
    a, b = M.U % 0x10, M.U % 0x20
    M.configuration(s, [(MetaDataTypes.CommonModule.value, [a]), (MetaDataTypes.Role.value, [b])])
    s.lists(a, M.obj_lists(M.S, M.TYPES['CommonModule'][1], M.header(a, 'М')))
    s.module(a + '.0', 'x;\n#Область include_core_m\na;\n#КонецОбласти\n'.encode())
    s.lists(b, M.obj_lists(M.S, M.TYPES['Role'][1], M.header(b, 'Р')))
    s.raw(b + '.0', b'role')
    return s


def fault(t, op, lo, hi, denied=False):
    """an operation that fails makes the run fail, or the result is complete all the same"""
    with Run(t):
        root = os.path.join(t.dir, 'p')
        bin1, src, out = os.path.join(t.dir, 'a.cf'), os.path.join(root, 'src', 'ut'), os.path.join(root, 'out.cf')
        s = fault_product(t, op)
        options = {'descent': 5} if op.endswith('version') else {}
        kw = {}
        if op.endswith('_index'):      # files kept outside of the sources
            kw['index'] = os.path.join(root, 'i.json')
            put_json(kw['index'], {'Role': {'Р': {'*': 'base', 'Role.json': ''}}, 'CommonModule': {'М': {'CommonModule.obj.bsl': 'base/m.bsl', 'CommonModule.json': 'b2/m.json'}},
                                   'Области include': {'core_m': 'other_m'}})
        old = {}
        if op != 'index':
            pack_product(t, s, bin1)
        if op.startswith('build'):
            tool.extract(bin1, src, options=dict(options), **kw)
        elif op == 'index':
            for n in ('a.bin', 'F/b.2.bin', 'F/x/c.bin'):
                put(os.path.join(src, n), b'1')
            put_json(os.path.join(root, 'index.json'), {'a.bin': 'q'})
        elif op == 'extract_version':
            # another version is there
            old = {'Role/Р/Role.4.bin': b'old', 'other.3.bin': b'3'}
            for n in old:
                put(os.path.join(src, n), old[n])
        if op.startswith('extract') and op not in CACHE:
            if kw:
                put(os.path.join(t.dir, 'q', 'i.json'), M.get(kw['index']))
            tool.extract(bin1, os.path.join(t.dir, 'q', 'src', 'ut'), options=dict(options), **kw)
            CACHE[op] = {k: v for k, v in t.tree(os.path.join(t.dir, 'q')).items()}
        if denied:
            f = t.fault(t.int('n', lo, hi), 3, t.choice('times', [1, 2, 3]))
        else:
            f = t.fault(t.int('n', lo, hi), t.int('kind', 0, 2))
        try:
            if op.startswith('extract'):
                tool.extract(bin1, src, options=dict(options), **kw)
            elif op == 'index':
                tool.update_index(src, os.path.join(root, 'index.json'), 'core')
            else:
                tool.build(src, out, options=dict(options), **kw)
        except ExtException:
            t.check(f.off(), 'an error without a cause')
            failed = True
        except OSError:
            t.check(f.off() and op == 'index', 'kind of error')
            failed = True
        else:
            f.off()
            failed = False
        got = t.tree(src)
        for n in old:
            t.check_eq(got.get(n), old[n], 'file of another version')
        if failed:
            return
        if op.startswith('extract'):
            got = t.tree(root)
            for n in old:
                del got['src/ut/' + n]
            t.check_eq(got, CACHE[op], 'extracted files')
        elif op == 'index':
            t.check_eq(get_json(os.path.join(root, 'index.json')), {'a.bin': 'q', 'F': {'b.bin': 'core/F/b.bin', 'x': {'c.bin': 'core/F/x/c.bin'}}}, 'index')
        else:
            s.compare(look_into(t, out, 's2'))


def fault_cli(t, op, lo, hi):
    """the exit status tells of every failure"""
    with Run(t):
        bin1, src, out = os.path.join(t.dir, 'a.cf'), os.path.join(t.dir, 'src'), os.path.join(t.dir, 'out.cf')
        s = content(t, 'x;')
        pack_product(t, s, bin1)
        if op == 'B' or 'cli' not in CACHE:
            tool.extract(bin1, src)
            CACHE['cli'] = t.tree(src)
        f = t.fault(t.int('n', lo, hi), 0)
        status = command_line(['-E', bin1, src] if op == 'E' else ['-B', src, out])
        hit = f.off()
        if status != 0:
            t.check(status == 1 and hit, 'exit status %s' % status)
            return
        if op == 'E':
            t.check_eq(t.tree(src), CACHE['cli'], 'extracted files')
        else:
            s.compare(look_into(t, out, 's2'))


def with_sources(t):
    src = os.path.join(t.dir, 'src')
    put(os.path.join(src, 'F', 'm.bsl'), b'work')
    put(os.path.join(src, 'a.json'), b'{}')
    return src


def fails_and_keeps(t, path, src, options=None):
    before = t.tree(src)
    try:
        tool.extract(path, src, options=options)
    except ExtException:
        t.check_eq(t.tree(src), before, 'sources after a failed extraction')
    else:
        t.fail('a wrong file is accepted')


def not_a_product(t, length):
    """a file that is no product is an error and the sources stay"""
    with Run(t):
        src = with_sources(t)
        path = os.path.join(t.dir, 'a.cf')
        if t.bool('exists'):
            put(path, t.bytes('data', 0, 0) + t.blob('blob', 0, length))
        fails_and_keeps(t, path, src, t.choice('options', [None, {'descent': 1}]))


def cut_product(t, lo=None, hi=None, part=None):
    """a product cut anywhere is an error and the sources stay"""
    with Run(t):
        src = with_sources(t)
        path = os.path.join(t.dir, 'a.epf')
        pack_product(t, content(t, 'x;'), path)
        data = M.get(path)
        t.check(1000 < len(data) <= 4640, 'size of the product: %d' % len(data))
        if part is None:
            n = t.int('cut', lo, min(hi, len(data) - 1))
            n = n if isinstance(n, int) else n.__index__()
        else:
            n = len(data) * t.choice('part', list(range(part))) // part
        # the last page is filled up
        t.assume(not data[n:] == b'\0' * (len(data) - n))
        put(path, data[:n])
        fails_and_keeps(t, path, src)


def bad_sources(t):
    """sources that lack a description, or have a broken one, are an error"""
    with Run(t):
        s = fault_product(t, 'build')
        bin1, src, out = [os.path.join(t.dir, x) for x in ('a.cf', 'src', 'b.cf')]
        pack_product(t, s, bin1)
        tool.extract(bin1, src)
        names = [x for x in O.files(src) if x.endswith('.json')]
        t.check(len(names) >= 3, 'descriptions')
        name = t.choice('name', names)
        how = t.choice('how', ['empty', 'cut', 'list', 'not text'])
        data = M.get(os.path.join(src, name))
        put(os.path.join(src, name), {'empty': b'', 'cut': data[:-2], 'list': b'[]', 'not text': b'\xff' + data}[how])
        try:
            tool.build(src, out)
        except ExtException as err:
            return
        t.fail('broken sources are accepted: ' + name)


def every_error():
    import v8unpack.ext_exception as mod
    out = [ExtException]
    for n in sorted(vars(mod)):
        c = getattr(mod, n)
        if isinstance(c, type) and issubclass(c, ExtException) and c not in out:
            out.append(c)
    return out


def transport(t, what):
    """an error comes out of another process as it went in"""
    classes = every_error()
    if what == 'class':
        cls = classes[t.choice('class', list(range(len(classes))))]
        how = t.choice('parent', [None, 'ext'])
        dump = {'k': 'v'}
    else:
        cls = t.choice('class', [0, 1])
        cls = ExtException if cls == 0 else classes[-1]
        how = t.choice('parent', [None, 'error', 'ext', 'both'])
        dump = t.choice('dump', [None, {}, {'k': 'v'}])
    msg, det = t.choice('message', [None, 'm']), t.str('detail', 0, 1, chars='aЯ"')
    parent = None
    try:
        if how is not None:
            try:
                if how != 'error':
                    raise ExtException(message='inner ' + det, detail='d', action='a1', dump={'in': det})
                raise ValueError(det)
            except Exception as err:
                if how == 'both':
                    parent = ExtException(parent=err, action='a2')
                else:
                    parent = err
                raise cls(parent=err, message=msg, detail=det, action='a', dump=dump)
        raise cls(message=msg, detail=det, action='a', dump=dump)
    except ExtException as err:
        e = err
    import copyreg
    red = e.__reduce_ex__(4)
    new = red[0](*red[1])
    if len(red) > 2 and red[2]:
        if hasattr(new, '__setstate__'):
            new.__setstate__(red[2])
        else:
            new.__dict__.update(red[2])
    t.check(type(new) is type(e), 'class of the error')
    for n in ('message', 'detail', 'code', 'action', 'dump', 'stack'):
        t.check_eq(getattr(new, n), getattr(e, n), n)
    t.check_eq(str(new), str(e), 'text')


def chain(t):
    """what an error says first is what went wrong, however often it is wrapped"""
    det = t.str('detail', 1, 3, chars='aЯ"')
    depth = t.int('depth', 1, 3)
    plain = t.bool('plain')
    try:
        try:
            if plain:
                raise ValueError(det)
            raise ExtException(message='first', detail=det, dump={'d': det})
        except Exception as err:
            e = ExtException(parent=err, action='a0')
        i = 0
        while i < 3 and depth > i:
            i += 1
            try:
                raise e
            except Exception as err:
                e = ExtException(parent=err, action='a%d' % i, dump={'n%d' % i: i})
        raise e
    except ExtException as err:
        t.check_eq(err.detail, det, 'detail')
        t.check(det in str(err), 'text')
        for j in range(i + 1):
            t.check('a%d' % j in str(err), 'every action is named')
        if plain:
            t.check('ValueError' in str(err), 'class of the cause')
        for j in range(1, i + 1):
            t.check_eq(err.dump.get('n%d' % j), j, 'dump of every step')
        if not plain:
            t.check_eq(err.message, 'first', 'message')
            t.check_eq(err.dump.get('d'), det, 'dump')
        back = ExtException(parent=json.loads(err.dumps()))
        t.check_eq(back.detail, det, 'detail after serialisation')
        t.check_eq(back.message, err.message, 'message after serialisation')


def names_broken(t, op):
    """the error says which object could not be read or built, and no other one"""
    with Run(t):
        if op == 'E':
            t.any_schedule()
        s = M.Src.__new__(M.Src)
        s.t, s.brace, s.bytes = t, {}, {}
        s.dir = os.path.join(t.dir, 's1', '0')
        os.makedirs(s.dir)
        kinds = ['CommonModule', 'Role', 'Bot']
        ids = [M.U % (0x10 * (i + 1)) for i in range(3)]
        M.configuration(s, [(MetaDataTypes[k].value, [i]) for k, i in zip(kinds, ids)])
        for k, i in zip(kinds, ids):
            s.lists(i, M.obj_lists(M.S, M.TYPES[k][1], M.header(i, 'Объект' + k)))
        bad = t.choice('bad', [0, 1, 2])
        bin1, src, out = [os.path.join(t.dir, x) for x in ('a.cf', 'src', 'b.cf')]
        if op == 'E':
            how = t.choice('how', ['missing', 'empty', 'no list', 'no header', 'cut'])
            path = os.path.join(s.dir, ids[bad])
            if how == 'missing':
                os.remove(path)
            else:
                put(path, {'empty': b'', 'no list': b'x', 'no header': b'{1,{0}}', 'cut': M.get(path)[:20]}[how])
        pack_product(t, s, bin1)
        try:
            tool.extract(bin1, src)
            if op == 'E':
                t.fail('a broken object is accepted')
            folder = os.path.join(src, kinds[bad], 'Объект' + kinds[bad])
            name = kinds[bad] + t.choice('file', ['.json', '.id.json'])
            how = t.choice('how', ['empty', 'cut', 'list', 'not text'])
            data = M.get(os.path.join(folder, name))
            put(os.path.join(folder, name), {'empty': b'', 'cut': data[:-2], 'list': b'[]', 'not text': b'\xff' + data}[how])
            tool.build(src, out)
        except ExtException as err:
            text = str(err)
        else:
            t.fail('broken sources are accepted')
        for n in range(3):
            named = (ids[n] if op == 'E' else 'Объект' + kinds[n]) in text
            t.check(named if n == bad else not named, 'the error says what is broken')


def failing(arg):
    if arg[0] == arg[1]:
        if arg[2] == 'ext':
            raise ExtException(message='no', detail=arg[3])
        raise ValueError(arg[3])
    return [arg[0]]


def failing_object(arg):
    failing(arg)
    return None, []


def task_error(t):
    """one task of many that fails makes the step fail, whatever the order of the tasks"""
    t.any_schedule()
    n = t.choice('tasks', [1, 2, 3])
    bad = t.int('bad', 0, 3)
    kind = t.choice('kind', ['ext', 'value'])
    det = t.str('detail', 1, 1, chars='aЯ')
    include = t.bool('include')
    args = [[i, bad, kind, det] for i in range(n)]
    try:
        if include:
            helper.run_in_pool_encode_include(failing_object, args, pool=t.pool())
        else:
            res = helper.run_in_pool(failing, args, pool=t.pool(), need_result=True)
    except Exception as err:
        t.check(bad < n, 'an error without a cause')
        t.check(det in str(err), 'text of the error')
    else:
        t.check(bad >= n, 'the error of a task is lost')
        if not include:
            t.check_eq(sorted(res), list(range(n)), 'results of the tasks')
