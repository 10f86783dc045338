"""Sources and products depend on nothing but what they are made of: repeated runs, other orders of files and tasks, whole rounds."""
import os

META = {}
CASES = {}


def preload():
    global P, Fm, M, O, tool, helper, version, MetaDataTypes
    from harness import pipeline as P, forms as Fm, meta as M, organizer as O
    P.preload()
    Fm.preload()
    O.preload()
    from v8unpack import helper, version
    from v8unpack.metadata_types import MetaDataTypes
    tool = P.tool
    for n in ('Role', 'CommonModule', 'Subsystem', 'CommonTemplate', 'CommonPicture', 'Catalog', 'CatalogCommand', 'CatalogForm', 'Form', 'Template',
              'WSReference', 'CommonForm'):
        helper.get_class_metadata_object(n)


META['C43'] = {
    'bounds': 'configurations, extensions and processors of three to nine objects with modules, areas, nested subsystems, commands, templates, pictures, help, '
              'managed and ordinary forms; with and without auto_include, version mode and an index; module texts of up to 1 arbitrary character; any one list of files '
              'or batch of tasks in any order (of more than three: any item first), or all of them reversed; extraction and building repeated once into the same place '
              'and once from the result',
    'assumptions': ['areas of the same name that are to be shared (include_) have the same text', 'names of objects of one type and owner are unique',
                    'module texts without carriage returns', 'zlib is an arbitrary injective function']}
WHAT = ['configuration', 'extension', 'processor', 'managed', 'ordinary', 'areas']
CASES['C43'] = [dict(func='round_trip', params={'what': w}) for w in WHAT] + \
               [dict(func='orders', params={'what': w, 'op': op, 'auto': a}, tier='thorough' if (w, op, a) == ('configuration', 'build', False) else 'quick')
                for w in WHAT for op in ('extract', 'build') for a in (False, True)] + \
               [dict(func='again', params={'what': w}) for w in WHAT]

AREA = 'x;\n#Область include_core_m\n%s;\n#КонецОбласти\n'


def item_of(types, name, uuid):
    return (MetaDataTypes[name].value, [uuid])


def source(t, what, c=None):
    """a product of many parts; one module has an arbitrary character"""
    c = c or t.str('code', 1, 1, chars='aЯ' if what == 'areas' else 'aЯ"')
    U = M.U
    a, b, d, e, f, g, h, k, m, n = [U % i for i in range(0x10, 0x1A)]
    tv = lambda x: MetaDataTypes[x].value
    if what == 'configuration':
        s = M.Src(t)
        M.configuration(s, [(tv('CommonModule'), [b, a]), (tv('Subsystem'), [d]), (tv('Role'), [f]), (tv('CommonTemplate'), [g]),
                            (tv('CommonPicture'), [h])], group2=[(tv('Catalog'), [k])])
        for u, name in ((a, 'Б'), (b, 'А')):
            s.lists(u, M.obj_lists(M.S, M.TYPES['CommonModule'][1], M.header(u, name)))
            s.module(u + '.0', (c + ';' if u == a else 'y;').encode())
        s.lists(d, M.obj_lists(M.C, M.TYPES['Subsystem'][1], M.header(d, 'Верх'), [[tv('Subsystem'), '2', e, n]]))
        for u, name in ((e, 'В'), (n, 'Верх')):
            s.lists(u, M.obj_lists(M.C, M.TYPES['Subsystem'][1], M.header(u, name), [[tv('Subsystem'), '0']]))
            s.lists(u + '.1', [['1', '"' + name + '"']])
        s.lists(f, M.obj_lists(M.S, M.TYPES['Role'][1], M.header(f, 'Р')))
        s.raw(f + '.0', b'role')
        s.lists(g, [['1', ['4', M.header(g, 'Макет'), M.TMPL['table'][0]]]])
        s.raw(g + '.0', b'MOXCEL')
        s.lists(h, M.obj_lists(M.S, M.TYPES['CommonPicture'][1], M.header(h, 'К', 'png')))
        s.lists(h + '.0', M.picture(b'pic'))
        s.lists(k, M.obj_lists(M.C, M.TYPES['Catalog'][1], M.header(k, 'С'),
                               [[tv('CatalogCommand'), '1', M.command_lists('CatalogCommand', m, 'Команда')]]))
        s.module(k + '.0', b'o;')
        s.module(k + '.3', b'm;')
        s.lists(k + '.1', M.html(b'help'))
        s.module(m + '.2', b'k;')
        return s
    if what == 'extension':
        s = M.Src(t)
        M.extension(s, [(tv('CommonModule'), [b, a]), (tv('Role'), [f])])
        s.module(U % 1 + '.5', b'app;')
        for u, name, borrowed in ((a, 'Б', '1'), (b, 'А', '0')):
            s.lists(u, M.obj_lists(M.S, M.TYPES['CommonModule'][1], M.header(u, name, borrowed=borrowed)))
            s.module(u + '.0', (c + ';' if u == a else 'y;').encode())
        s.lists(f, M.obj_lists(M.S, M.TYPES['Role'][1], M.header(f, 'Р')))
        s.raw(f + '.0', b'role')
        return s
    if what == 'processor':
        s = M.Src(t)
        M.processor(s, [(tv('Form'), [b, a]), (tv('Template'), [g])])
        s.module(U % 1 + '.0', (c + ';').encode())
        s.lists(U % 1 + '.1', [['1', '"f"']])
        for u, name in ((a, 'Б'), (b, 'А')):
            s.lists(u, Fm.description(u, name, 'v1', '13', '1'))
            s.lists(u + '.0', Fm.managed([('Field', Fm.item('Field', 'Поле'))], code='x;'))
        s.lists(g, [['1', ['2', M.TMPL['table'][0], M.header(g, 'Макет')]]])
        s.raw(g + '.0', b'MOXCEL')
        return s
    if what == 'managed':
        s, us = Fm.processor_forms(t, {
            'А': Fm.managed([('Group', Fm.item('Group', 'include_core_g', child=[('Field', Fm.item('Field', 'П'))])), ('Button', Fm.item('Button', 'К'))],
                            code=c.replace('"', '""') + ';', attrs=[Fm.attr(1, 'Р'), Fm.attr(2, 'С')], commands=[Fm.command(1, 'К')], params=[Fm.param('П')]),
            'Б': Fm.managed([('Table', Fm.item('Table', 'Т', child=[('Field', Fm.item('Field', 'П'))]))], code='y;')})
        return s
    if what == 'ordinary':
        Pn, El = Fm.Pn, Fm.El
        x = El('Э', eid='3')
        s, us = Fm.processor_forms(t, {
            'А': Fm.ordinary(Pn(['С1', 'С2'], [x, El('К' + c.replace('"', '_'), 'Button', '5', page=1, to={0: (x, 0)}),
                                                El('П', 'Panel', '7', panel=Pn(['С1'], [El('В', eid='8')]))]), [('1', 'Р')], [('3', '1')]),
            'Б': Fm.ordinary(Pn(['С1'], [El('Н', 'Label', '2')]))}, '0')
        return s
    s = M.Src(t)
    M.configuration(s, [(tv('CommonModule'), [a, b, d])])
    for u, name, text in ((a, 'А', AREA % c), (b, 'Б', AREA % c), (d, 'В', 'z;\n#Область include_core_n\n' + c + ';\n#КонецОбласти\n')):
        s.lists(u, M.obj_lists(M.S, M.TYPES['CommonModule'][1], M.header(u, name)))
        s.module(u + '.0', text.encode())
    return s


def options_of(t, what):
    o = {}
    if t.bool('auto_include'):
        o['auto_include'] = True
    if t.bool('version mode'):
        o['descent'] = 3
    return o


def where(t, root, o):
    os.makedirs(root, exist_ok=True)
    return os.path.join(root, 'src', 'ut') if 'descent' in o else os.path.join(root, 'src')


def index_of(t, root, what):
    """an index that moves a module and an area"""
    if not t.bool('index'):
        return {}
    path = os.path.join(root, 'index.json')
    P.put_json(path, {'processor': {'Form': {'Б': {'Form.obj.bsl': 'base/f.bsl'}}}, 'managed': {'Form': {'Б': {'Form.obj.bsl': 'base/f.bsl'}}},
                      'areas': {'Области include': {'core_m': 'core_other'}}, 'ordinary': {'Form': {'Б': {'Form.json': 'base/f.json'}}}}.get(
        what, {'CommonModule': {'Б': {'CommonModule.obj.bsl': 'base/m.bsl', 'CommonModule.json': 'base/j/m.json'}}}))
    return {'index': path}


def same(t, a, b, what):
    t.check_eq(sorted(a), sorted(b), what + ': files')
    for n in b:
        t.check_eq(a[n], b[n], what + ': ' + n)


def sources(t, root):
    """the files; the list of versions of the parts is made anew by every build"""
    r = t.tree(root)
    for n in sorted(r):
        d, b = os.path.split(n)
        if d in ('src', 'src/ut') and b.endswith('.json'):
            r[n] = M.read_json(os.path.join(root, n))
            r[n].pop('versions', None)
            if r[n].get('configinfo'):
                r[n]['configinfo'][2] = 'digests'
    return r


def rest(tree):
    """what is not made anew by every build"""
    return {k: v for k, v in tree.items() if k not in ('versions', 'configinfo')}


def round_trip(t, what):
    """sources of a product built from sources are these sources; a product built from them is that product"""
    with P.Run(t) as r:
        s = source(t, what)
        o = options_of(t, what)
        root1, root2 = os.path.join(t.dir, 'p'), os.path.join(t.dir, 'q')
        src1, src2 = where(t, root1, o), where(t, root2, o)
        bin1, bin2, bin3 = [os.path.join(t.dir, x) for x in ('a.bin', 'b.bin', 'c.bin')]
        P.pack_product(t, s, bin1)
        i1 = index_of(t, root1, what)
        i2 = {'index': os.path.join(root2, 'index.json')} if i1 else {}
        if i1:
            P.put(i2['index'], M.get(i1['index']))
        if what == 'ordinary' and 'auto_include' in o:      # elements get their numbers anew, once
            tool.extract(bin1, os.path.join(t.dir, 'first', 'src'), options={'auto_include': True})
            tool.build(os.path.join(t.dir, 'first', 'src'), bin1, options={'auto_include': True})
        tool.extract(bin1, src1, options=dict(o), **i1)
        before = t.tree(root1)
        tool.build(src1, bin2, options=dict(o), **i1)
        same(t, t.tree(root1), before, 'sources after building')
        tool.extract(bin2, src2, options=dict(o), **i2)
        same(t, sources(t, root2), sources(t, root1), 'sources of the product built')
        tool.build(src2, bin3, options=dict(o), **i2)
        a, b = P.look_into(t, bin2, 's2'), P.look_into(t, bin3, 's3')
        same(t, rest(t.tree(b)), rest(t.tree(a)), 'product of the sources of the product')
        r.released()


def orders(t, what, op, auto):
    """whatever order files are listed in and tasks are done in"""
    with P.Run(t):
        t.usual_order()
        s = source(t, what, 'a')
        o = {'auto_include': True, 'descent': 3} if auto else {}
        root1, root2 = os.path.join(t.dir, 'p'), os.path.join(t.dir, 'q')
        src1, src2 = where(t, root1, o), where(t, root2, o)
        bin1, bin2, bin3 = [os.path.join(t.dir, x) for x in ('a.bin', 'b.bin', 'c.bin')]
        P.pack_product(t, s, bin1)
        tool.extract(bin1, src1, options=dict(o))
        if op == 'extract':
            t.any_order('at', 60)
            tool.extract(bin1, src2, options=dict(o))
            t.usual_order()
            same(t, t.tree(root2), t.tree(root1), 'sources extracted in another order')
            return
        tool.build(src1, bin2, options=dict(o))
        t.any_order('at', 60)
        tool.build(src1, bin3, options=dict(o))
        t.usual_order()
        a, b = P.look_into(t, bin2, 's2'), P.look_into(t, bin3, 's3')
        same(t, rest(t.tree(b)), rest(t.tree(a)), 'product built in another order')


def again(t, what):
    """once more into the same place, and over what another product left there"""
    with P.Run(t) as r:
        s = source(t, what)
        o = options_of(t, what)
        root = os.path.join(t.dir, 'p')
        src = where(t, root, o)
        bin1, bin2 = os.path.join(t.dir, 'a.bin'), os.path.join(t.dir, 'b.bin')
        P.pack_product(t, s, bin1)
        i = index_of(t, root, what)
        tool.extract(bin1, src, options=dict(o), **i)
        first = t.tree(root)
        tool.extract(bin1, src, options=dict(o), **i)
        same(t, t.tree(root), first, 'sources extracted again')
        tool.build(src, bin2, options=dict(o), **i)
        a = t.tree(P.look_into(t, bin2, 's2'))
        tool.build(src, bin2, options=dict(o), **i)
        same(t, rest(t.tree(P.look_into(t, bin2, 's3'))), rest(a), 'product built again')
        same(t, t.tree(root), first, 'sources after building')
        r.released()
