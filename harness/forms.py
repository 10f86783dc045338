"""Forms: managed and ordinary ones, taken apart into elements, attributes, commands, parameters and the module, and put together again."""
import json
import os

META = {}
CASES = {}
UUID = {'Field': '77ffcc29-7f2d-4223-b22f-19666e7250ba', 'Button': 'a9f3b1ac-f51b-431e-b102-55a69acdecad',
        'Decoration': '3d3cb80c-508b-41fa-8a18-680cdf5f1712', 'Group': 'cd5394d0-7dda-4b56-8927-93ccbe967a01',
        'Table': '143c00f7-a42d-4cd7-9189-88e4467dc768', 'ItemAddition': 'c5259a1d-518a-4afd-b98d-0176027e4feb'}
NEW = 'ffffffff-0000-4000-8000-000000000001'
LINE = ' \t#&/aЯ;"|{\n'
NAME = 'aЯ_1'


def preload():
    global helper, decoder, MetaDataTypes, MetaDataGroup, ExtException, M, organizer_file
    from harness import meta as M
    M.preload()
    from v8unpack import helper, decoder, organizer_file
    from v8unpack.metadata_types import MetaDataTypes, MetaDataGroup
    from v8unpack.ext_exception import ExtException
    for n in OWNERS:
        helper.get_class_metadata_object(n)
    for n in UUID:
        helper.get_class('v8unpack.MetaDataObject.Form.FormElements4.%s.%s' % (n, n))


# form type: where it is found and the nesting of its description
OWNERS = {'Form': 'v1', 'CommonForm': 'common', 'CatalogForm': 'one', 'AccountingRegisterForm': 'zero', 'ReportForm': 'v0'}


def q(s):
    return '"' + s + '"'


def description(u, name, kind, version, ftype):
    """lists of the file of a form; old ones have no type of form"""
    row = [version, M.header(u, name), '0'] + ([ftype] if ftype is not None else [])
    if kind == 'v1':
        return [['1', ['1', ['0', row, ['0']], '0'], '0']]
    if kind == 'v0':
        return [['1', ['0', row, ['0']], '0']]
    if kind == 'zero':
        return [['0', row, ['0']]]
    return [['1', ['0', row, ['0']], '0']]


# ------------------------------------------------------------------------------------------ managed forms
def item(kind, name, v=0, w=0, ver='22', link=None, child=None):
    """an element; v and w: sizes of the two lists of variable length before the name"""
    head = [ver, ['7', NEW], '0']
    if kind in ('Field', 'Decoration', 'Group'):
        raw = head + [str(v)] + ['x'] * v + [str(w)] + ['y'] * w + ['2', q(name)]
        if kind == 'Field':
            raw += ['1', '0', ['1', '0'], '0', link or ['0'], '5']
        elif kind == 'Group':
            raw += ['g%d' % i for i in range(14)]
            raw += [str(len(child or []))]
            for k, c in child or []:
                raw += [UUID.get(k, k), c]
            raw += ['end', '0']
        return raw
    if kind == 'Button':
        return head + [str(v)] + ['x'] * v + ['1', q(name), '0', '0', link or ['0'], '5']
    if kind == 'ItemAddition':
        return head + [str(v)] + ['x'] * v + ['1', '2', q(name), '0']
    if kind == 'Table':
        raw = ['55', ['7', NEW], '0', '0', str(v)] + ['x'] * v + [q(name)] + ['t%d' % i for i in range(5)] + [link or ['0']]
        raw += ['t%d' % i for i in range(42)]                                # up to the first counter of the columns
        raw += [str(w)] + ['a', 'b'] * w
        raw += ['u%d' % i for i in range(6)] + [str(len(child or []))]
        for k, c in child or []:
            raw += [UUID.get(k, k), c]
        return raw + ['e%d' % i for i in range(99 - 5 - 1 - 6 - 42 - 1 - 6 - 1)]
    raise KeyError(kind)


def attr(n, name, pattern=None, child=()):
    return ['9', [str(n)], '0', q(name), ['1', '0'], pattern or ['"Pattern"', ['"S"']], '0', '0', ['0', '0'], ['0', '0'], '1', '0', '0',
            str(len(child))] + [['8', c[0], '0', q(c[1]), '0'] for c in child] + [['0', '0'], ['0', '0']]


def command(n, name):
    return ['9', [str(n), NEW], q(name), ['1', '0'], '0']


def param(name):
    return ['0', q(name), ['"Pattern"', ['"S"']], '0']


def managed(items, code='', attrs=(), params=(), commands=(), panels=0, bars=1, ver='4', root='49'):
    r = [root] + ['0'] * 17 + [str(panels)] + ['p', 'q'] * panels + [['0', '1', '0'], ['0'], str(bars)] + [['22', 'bar']] * bars
    r += [str(len(items))]
    for k, c in items:
        r += [UUID.get(k, k), c]
    r += ['""', '""', '1', ['22', ['0']], '0']
    return [[ver, r, q(code.replace('"', '""')), ['4', str(len(attrs))] + list(attrs) + ['0', '0'], ['0', str(len(params))] + list(params),
             ['0', str(len(commands))] + list(commands), ['0', '0'], '0']]


def product(t, kind='Form', name='Форма', version='13', ftype='1', s=None, options=None):
    """a product with one form, its description only"""
    s = s or M.Src(t)
    u = M.U % 0x10
    how = OWNERS[kind]
    typ = MetaDataTypes[kind].value
    if kind == 'Form':
        M.processor(s, [(typ, [u])])
    elif kind == 'CommonForm':
        M.configuration(s, [(typ, [u])])
    else:
        owner = kind[:-4]
        o = M.U % 0x20
        if owner == 'Catalog':
            M.configuration(s, [], group2=[(MetaDataTypes[owner].value, [o])])
        else:
            M.configuration(s, [(MetaDataTypes[owner].value, [o])])
        s.lists(o, M.obj_lists(M.C, M.TYPES[owner][1], M.header(o, 'Владелец'), [[typ, '1', u]]))
    s.lists(u, description(u, name, how, version, ftype))
    return s, u


def folder(kind, name='Форма'):
    if kind in ('Form', 'CommonForm'):
        return os.path.join(kind, name)
    return os.path.join(kind[:-4], 'Владелец', kind, name)


def parts(t, mid, kind):
    return M.read_json(os.path.join(mid, folder(kind), kind + '.elem.json'))


# ------------------------------------------------------------------------------------------ C37
META['C37'] = {
    'bounds': 'one form per product (two in several_forms), of five kinds of owners and every version of its description. Managed: modules of up to 4 arbitrary characters, every kind of '
              'element with 0..2 entries in each list of variable length, 0..2 attributes, columns, commands, parameters and command bars, groups and tables nested to '
              'depth 3, eight kinds of unknown parts, a reference to the owner, edits of the sources (order, removal, addition, moves). Ordinary: both element versions, all 25 kinds of elements, '
              'panels nested to depth 3, up to 3 pages and 3 elements, extra page records, elements anchored to the panel, themselves or each other on any border, '
              'links to attributes, module forms, a commented directive of seven in three formats of products, edits of the sources (elements and pages added, removed, reordered), two forms of one product, with and without auto_include; names and the hot texts arbitrary within the given alphabet',
    'assumptions': ['names of elements of a form are unique', 'elements of an ordinary form are anchored to elements of the same panel', 'with auto_include an element '
                    'of an ordinary form is linked to an attribute, not to a part of it (not supported, as documented in the tool)', 'one module per form']}
CASES['C37'] = [
    dict(func='managed_place', params={'kind': k}) for k in OWNERS] + [
    dict(func='managed_module', params={})] + [
    dict(func='managed_element', params={'kind': k}) for k in sorted(UUID)] + [
    dict(func='managed_nested', params={}),
    dict(func='managed_lists', params={}),
    dict(func='managed_unknown', params={}),
    dict(func='managed_no_elements', params={}),
]


def managed_place(t, kind):
    """a managed form of every kind of owner, of every version, the module edited or not"""
    version = t.choice('version', ['9', '12', '13', '14', '5'])
    name = t.str('name', 1, 2, chars=NAME)
    s, u = product(t, kind, name=name, version=version)
    s.lists(u + '.0', managed([('Field', item('Field', 'Поле'))], code='x;'))
    if t.bool('second file'):
        s.lists(u + '.1', [['1', q('д')]])
    mid = M.decode(t, s)
    p = os.path.join(mid, folder(kind, name), kind + '.obj.bsl')
    t.check_eq(M.get(p), b'x;', 'module in the sources')
    if t.bool('edit'):
        new = t.str('new', 0, 1, chars='a"\nЯ')
        M.put(p, new.encode('utf-8'))
        s.brace[u + '.0'][0][2] = q(new.replace('"', '""'))
    s.compare(M.encode(t, mid))


def managed_module(t):
    """the module comes back whatever it contains"""
    s, u = product(t)
    code = t.str('code', 0, 4, chars=LINE)
    s.lists(u + '.0', managed([], code=code))
    s.as_read(u + '.0')
    mid = M.decode(t, s)
    if code:
        t.check_eq(M.get(os.path.join(mid, folder('Form'), 'Form.obj.bsl')).decode('utf-8'), code, 'module in the sources')
    s.compare(M.encode(t, mid))


def managed_element(t, kind):
    """an element of every kind with lists of any length in it"""
    s, u = product(t)
    v, w = t.choice('v', [0, 1, 2]), t.choice('w', [0, 1, 2])
    name = t.str('name', 1, 2, chars=NAME + '/')
    ver = t.choice('ver', ['22', '35', '5'])
    child = [('Field', item('Field', 'Внутри'))] if kind in ('Group', 'Table') and t.bool('child') else None
    s.lists(u + '.0', managed([(kind, item(kind, name, v, w, ver, child=child)), ('Button', item('Button', 'Zz'))], panels=t.choice('panels', [0, 1]),
                              bars=t.choice('bars', [0, 1, 2])))
    mid, res = M.there_and_back(t, s)
    e = parts(t, mid, 'Form')
    t.check_eq([[x['name'], x['type']] for x in e['tree']], [[name, kind], ['Zz', 'Button']], 'elements in the sources')
    t.check_eq(sorted(e['data']), sorted([name, 'Zz'] + ([name + '/Внутри'] if child else [])), 'data of elements in the sources')


def managed_nested(t):
    """groups and tables in groups"""
    s, u = product(t)
    a, b, c = t.str('a', 1, 1, chars=NAME), t.str('b', 1, 1, chars=NAME), 'D'
    shape = t.choice('shape', [0, 1, 2, 3])
    leaf = ('Field', item('Field', c))
    two = ('Decoration', item('Decoration', c + 'd'))
    if shape == 0:
        items = [('Group', item('Group', a, child=[('Group', item('Group', b + 'g', child=[leaf, two]))]))]
    elif shape == 1:
        items = [('Group', item('Group', a, child=[('Table', item('Table', b + 'g', child=[leaf])), two]))]
    elif shape == 2:
        items = [two, ('Table', item('Table', a, child=[('Group', item('Group', b + 'g', child=[leaf]))]))]
    else:
        items = [('Group', item('Group', a, child=[leaf])), ('Group', item('Group', b + 'g', child=[two]))]
    s.lists(u + '.0', managed(items))
    M.there_and_back(t, s)


def managed_lists(t):
    """attributes with columns, parameters and commands, any number of them"""
    s, u = product(t)
    name = t.str('name', 1, 2, chars=NAME)
    na, nc, np, nk = [t.choice(x, [0, 1, 2]) for x in ('attrs', 'commands', 'params', 'columns')]
    own = t.bool('own')
    pattern = ['"Pattern"', ['"#"', M.U % (0xF3 if own else 0x77)]]
    attrs = [attr(i + 1, name if not i else 'R', pattern if not i else None, [(str(k + 1), 'К%d' % k) for k in range(nk)] if i == na - 1 else ())
             for i in range(na)]
    s.lists(u + '.0', managed([('Field', item('Field', 'Поле'))], attrs=attrs, params=[param(name if not i else 'P') for i in range(np)],
                              commands=[command(i + 1, name if not i else 'C') for i in range(nc)]))
    mid, res = M.there_and_back(t, s)
    e = parts(t, mid, 'Form')
    t.check_eq([x['name'] for x in e['props'] or []], [name, 'R'][:na], 'attributes in the sources')
    t.check_eq([x['name'] for x in e['params'] or []], [name, 'P'][:np], 'parameters in the sources')
    t.check_eq([x['name'] for x in e['commands'] or []], [name, 'C'][:nc], 'commands in the sources')


def managed_unknown(t):
    """a form with parts the tool does not know is kept as it is"""
    s, u = product(t)
    what = t.choice('what', ['element', 'column', 'attribute', 'attribute after', 'form version', 'command', 'parameter', 'short element'])
    items = [('Group', item('Group', 'Г', child=[('Field', item('Field', 'П'))]))]
    attrs = [attr(1, 'А', ['"Pattern"', ['"#"', M.U % 0xF3]], [('1', 'К')]), attr(2, 'Б')]
    commands, params, ver = [command(1, 'К')], [param('П')], '4'
    x = t.str('x', 0, 1, chars='1aЯ')
    if what == 'element':
        items.append((NEW, ['1', q(x)]))
    elif what == 'column':
        items.append(('Table', item('Table', 'Т', child=[(NEW, ['1', q(x)])])))
    elif what == 'attribute':
        attrs.insert(0, ['9', [x], '0'])
    elif what == 'attribute after':
        attrs.append(['9', ['5'], '0', q(x)])
    elif what == 'form version':
        ver = t.choice('ver', ['2', '3', '5', '12'])
    elif what == 'command':
        commands.append(['1'])
    elif what == 'parameter':
        params.append(['1'])
    elif what == 'short element':
        items.append(('Field', ['1', x]))
    s.lists(u + '.0', managed(items, code='x;', attrs=attrs, commands=commands, params=params, ver=ver))
    M.there_and_back(t, s)


def managed_no_elements(t):
    """a form without a file of its own, or with little in it"""
    kind = t.choice('kind', ['Form', 'CatalogForm'])
    s, u = product(t, kind, ftype=t.choice('type', ['0', '1']))
    what = t.choice('what', ['none', 'none but second', 'empty'])
    if what == 'none but second':
        s.lists(u + '.1', [['1', q('д')]])
    if what == 'empty':
        s.lists(u + '.0', managed([]))
    M.there_and_back(t, s)


# ------------------------------------------------------------------------------------------ ordinary forms
PANEL = '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'
OLD = {'Field': '381ed624-9217-4e63-85db-c4c3cb87daae', 'CheckBox': '35af3d93-d7c7-4a2e-a8eb-bac87a1a3f26',
       'RadioBtn': '782e569a-79a7-4a4f-a936-b48d013936ec', 'SelectField': '64483e7f-3833-48e2-8c75-2c31aac49f6e',
       'CommandPanel': 'e69bf21d-97b2-4f37-86db-675aea9ec2cb', 'Button': '6ff79819-710e-4145-97cd-1618da79e3e2',
       'Image': '151ef23e-6bb2-4681-83d0-35bc2217230c', 'Group': '90db814a-c75f-4b54-bc96-df62e554d67d',
       'Table': 'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1', 'TableField': '236a17b3-7f44-46d9-a907-75f9cdc61ab5',
       'Panel': PANEL, 'Label': '0fc7e20d-f241-460c-bdf4-5ad88e5474a5', 'ListField': '19f8b798-314e-4b4e-8121-905b2a7a03f5',
       'Separator': '36e52348-5d60-4770-8e89-a16ed50a2006', 'FieldHtml': 'd92a805c-98ae-4750-9158-d9ce7cec2f20',
       'Indicator': 'b1db1f86-abbb-4cf0-8852-fe6ae21650c2', 'CalendarBox': 'e3c063d8-ef92-41be-9c89-b70290b5368b',
       'TrackBar': '6c06cd5d-8481-4b6f-a90a-7a97a8bb8bef', 'TextDocumentField': '14c4a229-bfc3-42fe-9ce1-2da049fd0109',
       'GraphicalSchemaField': '42248403-7748-49da-b782-e4438fd7bff3', 'GeographicalSchemaField': 'ad37194e-555e-4305-b718-5dca84baf145',
       'Chart': 'a8b97779-1a4b-4059-b09c-807f86d2a461', 'GanttChart': 'e5fdc112-5c84-4a16-9728-72b85692b6e2',
       'PivotChart': 'a26da99e-184a-4823-b0d6-62816d38dc4e', 'Dendrogram': '984981b1-622d-4ebc-94f7-885f0cdfb59a'}
FREE = ['2', '-1', '6', '0']


class El:
    """an element of an ordinary form; to: border of the element -> (element, 'panel' or nothing, border of it)"""

    def __init__(self, name, kind='Field', eid='2', page=0, to=None, panel=None, extra=0):
        self.name, self.kind, self.id, self.page, self.to, self.panel, self.extra = name, kind, eid, page, to or {}, panel, extra


class Pn:
    """a panel: pages and elements"""

    def __init__(self, pages, elems=(), more=0):
        self.pages, self.elems, self.more = pages, list(elems), more

    def index(self):
        """what is anchored to what: (target, border of it) -> [(element, its border)]"""
        r = {}
        for e in self.elems:
            for b, (target, tb) in e.to.items():
                r.setdefault((target if isinstance(target, str) else target.id, tb), []).append((e.id, 1 if b > 3 else b))
        return r

    def head(self):
        r = [['10', '1', '0'], '21']
        idx = self.index()
        for b in range(4):
            x = idx.get(('panel', b), [])
            r += [str(len(x))] + [['0', i, str(own)] for i, own in x]
        r += ['0', '0', ['3', '1'], '1', '1']
        r += [['1', str(len(self.pages))] + [['3', ['1', '0'], ['3', '0'], '-1', '1', '1', q(p), '1'] for p in self.pages]]
        r += ['1', '1', '0', str(4 * len(self.pages) + self.more)]
        r += [['2', str(i), '1', '0'] for i in range(4 * len(self.pages) + self.more)] + ['0', '5', '0']
        return r

    def body(self):
        idx = self.index()
        r = [str(len(self.elems))]
        for e in self.elems:
            pos = ['8', '1', '2', '30', '40', '1']
            for b in range(6):
                target, tb = e.to.get(b, (None, 0))
                pos.append(['0', FREE if target is None else ['2', '0' if target == 'panel' else target.id, str(tb), '7'], FREE])
            for b in range(4):
                x = idx.get((e.id, b), [])
                pos += [str(len(x))] + [['0', i, str(own)] for i, own in x]
            pos += ['0', '0', str(e.page), '0', '1', '0', '0']
            p = e.panel
            row = [OLD.get(e.kind, e.kind), e.id, ['1', p.head() if p else ['x'], '0'], pos, ['14', q(e.name), '0'], p.body() if p else ['0']]
            if e.extra:
                row.insert(3, '0')
            r.append(row)
        return r


def props_of(ver, props):
    return [str(len(props))] + [[[str(n)], '0', '0'] + (['1'] if ver == '27' else []) + [q(name), ['"Pattern"', ['"S"']]] for n, name in props]


def ordinary(panel, props=(), source=(), ver='27'):
    return [[ver, ['16', [['1', '1', ['"ru"', '"Т"']], '8'], [PANEL, ['1', panel.head(), '0'], panel.body()]],
             [['1'], '8', props_of(ver, props), [str(len(source))] + [[e, ['1', [p]]] for e, p in source]], ['59', '1'], ['0'], '1']]


def offset_of_pages(head):
    i = 2
    for k in range(6):
        i += 1 + int(head[i])
    return i + 3


def names_of(elems, names):
    for e in elems[1:]:
        names[e[1]] = e[-2][1]
        if e[0] == PANEL:
            names_of(e[-1], names)


def no_ids(head, elems, names):
    """a panel with names in place of the numbers of elements, which a build with auto_include assigns anew"""
    i, index = 2, []
    for b in range(4):
        n = int(head[i])
        index.append(sorted([x[0], names[x[1]], x[2]] for x in head[i + 1:i + 1 + n]))
        i += n + 1
    out = []
    for n, e in enumerate(elems[1:]):
        e = M.copy(e)
        pos, o = e[-3], 6
        for b in range(6):
            for j in (1, 2):
                if int(pos[o][j][1]) > 0:
                    pos[o][j][1] = names[pos[o][j][1]]
            o += 1
        for b in range(4):
            c = int(pos[o])
            for j in range(c):
                o += 1
                pos[o][1] = names[pos[o][1]]
            o += 1
        if e[0] == PANEL:
            e[2][1] = no_ids(e[2][1], e[-1], names)
            e[-1] = None
        e[1] = names[e[1]]
        out.append((int(pos[-5]), n, e))
    return [index, head[:2] + head[i:], [x[2] for x in sorted(out, key=lambda x: x[:2])]]


def without_ids(t, form):
    form = M.copy(form)[0]
    names = {}
    names_of(form[1][2][2], names)
    t.check_eq(len(set(names)), len(set(names.values())), 'numbers of elements are different')
    form[1][2] = [form[1][2][0], no_ids(form[1][2][1][1], form[1][2][2], names)]
    form[2][3] = [form[2][3][0], sorted([names[x[0]], x[1]] for x in form[2][3][1:])]
    return form


def ordinary_source(t, form, kind='Form', name='Форма', version='13', ftype='0', module=b'x;'):
    s, u = product(t, kind, name, version, ftype)
    s.lists(u + '.0/form', form)
    s.raw(u + '.0/module', module)
    return s, u


def back(t, s, u, auto):
    """there and back; with auto_include the numbers of elements may change"""
    options = {'auto_include': True} if auto else None
    mid = M.decode(t, s, options)
    res = M.encode(t, mid, options)
    if auto:
        was = s.brace.pop(u + '.0/form')
        now = helper.brace_file_read(os.path.join(res, u + '.0'), 'form')
        t.check_eq(without_ids(t, now), without_ids(t, was), 'form without numbers of elements')
        s.brace[u + '.0/form'] = now
    s.compare(res)
    return mid


CASES['C37'] += [dict(func='ordinary_place', params={'kind': k}) for k in OWNERS] + [
    dict(func='ordinary_module', params={}),
] + [dict(func=f, params={'auto': a}) for f in ('ordinary_element', 'ordinary_panels', 'ordinary_pages', 'ordinary_source_links',
                                               'ordinary_unknown') for a in (False, True)] + [
    dict(func='ordinary_anchors', params={'auto': a, 'first': f, 'deep': d}) for a in (False, True) for f in (0, 1, 3, 5) for d in (False, True)] + [
    dict(func='ordinary_file', params={}),
    dict(func='ordinary_module_forms', params={}),
]


def ordinary_place(t, kind):
    """an ordinary form of every kind of owner, of every version"""
    version = t.choice('version', ['9', '12', '13', '14', '5', '7'])
    name = t.str('name', 1, 2, chars=NAME)
    s, u = ordinary_source(t, ordinary(Pn(['С1'], [El('Поле')]), ver=t.choice('ver', ['26', '27'])), kind, name, version,
                           t.choice('type', ['0', None]))
    if t.bool('second file'):
        s.lists(u + '.1', [['1', q('д')]])
    mid = M.decode(t, s)
    p = os.path.join(mid, folder(kind, name), kind + '.obj.bsl')
    t.check_eq(M.get(p), b'x;', 'module in the sources')
    if t.bool('edit'):
        new = t.str('new', 0, 1, chars='a"\nЯ').encode('utf-8')
        M.put(p, new)
        s.bytes[u + '.0/module'] = new
    s.compare(M.encode(t, mid))


def ordinary_module(t):
    """the module comes back whatever it contains"""
    code = t.str('code', 0, 4, chars=LINE)
    bom = t.choice('bom', [b'', b'\xef\xbb\xbf'])
    s, u = ordinary_source(t, ordinary(Pn(['С1'])), module=bom + code.encode('utf-8'))
    mid, res = M.there_and_back(t, s)


def ordinary_element(t, auto):
    """an element of every kind"""
    kind = t.choice('kind', sorted(OLD))
    name = t.str('name', 1, 2, chars=NAME + '-"'.replace('"', ''))
    eid = t.choice('id', ['2', '17'])
    panel = Pn(['С1'], [El('Вн', eid='5')]) if kind == 'Panel' else None
    ver = t.choice('ver', ['26', '27'])
    s, u = ordinary_source(t, ordinary(Pn(['С1'], [El(name, kind, eid, panel=panel, extra=t.choice('extra', [0, 1])), El('Zz', 'Label', '3')]), ver=ver))
    mid = back(t, s, u, auto)
    e = parts(t, mid, 'Form')
    tree = e['tree'][0]['child'] if auto else e['tree']
    t.check_eq([[x['name'], x['type']] for x in tree], [[name, kind], ['Zz', 'Label']], 'elements in the sources')
    t.check_eq(e['data']['С1/' + name]['id'], eid, 'data of the element in the sources')


def ordinary_panels(t, auto):
    """panels in panels"""
    a, b = t.str('a', 1, 1, chars=NAME), t.str('b', 1, 1, chars=NAME)
    x = t.choice('x', [0, 1, 2])
    inner = Pn(['С1'] + ['С2'] * (x > 1), [El('L', eid='6')] * (x > 0))
    order = t.choice('order', [('2', '3', '4', '5'), ('5', '4', '3', '2'), ('9', '2', '8', '3')])
    outer = Pn(['С1'], [El(a, 'Panel', order[0], panel=inner), El('M' + b, eid=order[1])])
    second = Pn([b], [El('N', eid='7')])
    s, u = ordinary_source(t, ordinary(Pn(['С1'], [El('P' + a, 'Panel', order[2], panel=outer), El('Q' + b, 'Panel', order[3], panel=second)])))
    back(t, s, u, auto)


def ordinary_pages(t, auto):
    """any number of pages, elements on each"""
    n = t.choice('pages', [1, 2, 3])
    name = t.str('name', 1, 1, chars=NAME)
    pages = [name] + ['С%d' % i for i in range(1, n)]
    elems = [El('Э%d' % i, eid=str(3 + i), page=t.choice('page %d' % i, list(range(n)))) for i in range(t.choice('elements', [0, 1, 2, 3]))]
    more = t.choice('more', [0, 1, 2])
    p = Pn(pages, elems, more)
    if t.bool('in a panel'):
        p = Pn(['С1'], [El('П', 'Panel', '2', panel=p)])
    s, u = ordinary_source(t, ordinary(p))
    back(t, s, u, auto)


def ordinary_anchors(t, auto, first, deep):
    """elements anchored to the panel, to themselves and to each other"""
    a, b = El('А', eid=t.choice('id', ['2', '5'])), El('Б', eid='3')
    a.page = b.page = t.choice('page', [0, 1])
    for e, me, other, borders in ((a, a, b, [first]), (b, b, a, [2, 4])):
        what = t.choice('to ' + e.name, ['free', 'panel', 'self', 'other'])
        if what != 'free':
            border = t.choice('border ' + e.name, borders)
            e.to[border] = ({'panel': 'panel', 'self': me, 'other': other}[what], t.choice('where ' + e.name, [0, 3]))
    p = Pn(['С1', 'С2'], [a, b])
    if deep:
        p = Pn(['С1'], [El('П', 'Panel', '9', panel=p)])
    s, u = ordinary_source(t, ordinary(p))
    back(t, s, u, auto)


def ordinary_source_links(t, auto):
    """attributes and elements linked to them"""
    ver = t.choice('ver', ['26', '27'])
    name = t.str('name', 1, 2, chars=NAME)
    n = t.choice('attributes', [0, 1, 2])
    props = [('8', name), ('3', 'Рек')][:n]
    elems = [El('Э1', eid='6'), El('П', 'Panel', '4', panel=Pn(['С1'], [El('Э2', eid='2')]))]
    links = []
    for e in ('6', '2'):
        k = t.choice('link of ' + e, [None] + [p[0] for p in props])
        if k is not None:
            links.append((e, k))
    s, u = ordinary_source(t, ordinary(Pn(['С1'], elems), props, links, ver))
    mid = back(t, s, u, auto)
    e = parts(t, mid, 'Form')
    t.check_eq([x['name'] for x in e['props'] or []], [p[1] for p in props], 'attributes in the sources')


def ordinary_unknown(t, auto):
    """a form with parts the tool does not know is kept as it is"""
    what = t.choice('what', ['element', 'element in a panel', 'form version', 'main element', 'attribute', 'more pages'])
    x = t.str('x', 1, 1, chars='5aЯ')
    elems = [El('А', eid='2', to={0: ('panel', 0)}), El('П', 'Panel', '5', panel=Pn(['С1'], [El('Б', eid='6')]))]
    form = ordinary(Pn(['С1', 'С2'], elems), [('1', 'Р')], [('2', '1')])
    f = form[0]
    if what == 'element':
        f[1][2][2][1][0] = NEW
    elif what == 'element in a panel':
        f[1][2][2][2][-1][1][0] = NEW
    elif what == 'form version':
        f[0] = t.choice('ver', ['25', '28', '2'])
    elif what == 'main element':
        f[1][2][0] = NEW
    elif what == 'attribute':
        f[2][2][1] = [x]
    elif what == 'more pages':
        f[1][2][2][1][-3][-5] = x
    s, u = ordinary_source(t, form)
    back(t, s, u, False) if not auto else s.compare(M.encode(t, M.decode(t, s, {'auto_include': True}), {'auto_include': True}))


def ordinary_file(t):
    """an ordinary form stored as a file, as some old ones are"""
    s, u = product(t, ftype=t.choice('type', ['0', None]))
    code = t.str('code', 0, 2, chars='a"\nЯ')
    s.lists(u + '.0', [[t.choice('ver', ['2', '3']), ['1', '0'], q(code.replace('"', '""')), '0']])
    s.as_read(u + '.0')
    if t.bool('second file'):
        s.lists(u + '.1', [['1', q('д')]])
    M.there_and_back(t, s)


def ordinary_module_forms(t):
    """the module of an ordinary form: not there, encrypted or in another encoding"""
    s, u = product(t, ftype='0')
    s.lists(u + '.0/form', ordinary(Pn(['С1'], [El('А', eid='2')])))
    what = t.choice('what', ['image', 'binary', 'cp1251', 'empty'])
    if what == 'image':
        s.raw(u + '.0/image', b'\x00\x01\xfe')
    elif what == 'binary':
        s.raw(u + '.0/module', b'\xff\xfe\x98\x00')
    elif what == 'cp1251':
        s.raw(u + '.0/module', 'Тест;'.encode('cp1251'))
    elif what == 'empty':
        s.raw(u + '.0/module', b'')
    M.there_and_back(t, s)


CASES['C37'] += [dict(func='ordinary_directives', params={})]


def ordinary_directives(t):
    """ordinary forms of any platform: directives are comments in the built module and real in the sources"""
    s, u = product(t, ftype='0')
    version = t.choice('version', [('216', '0', ['80306', '0']), ('216', '0'), ('106', '0')])
    M.processor(s, [(MetaDataTypes['Form'].value, [u])], version=version)
    s.lists(u + '.0/form', ordinary(Pn(['С1'], [El('А', eid='2')])))
    d = t.choice('directive', M.DIRECTIVES)
    a = t.str('a', 0, 1, chars='x\n/')
    enc = t.choice('enc', ['utf-8', 'utf-8-sig'])
    s.raw(u + '.0/module', (a + '\n// v8unpack ' + d + '\ny;').encode(enc))
    mid = M.decode(t, s)
    p = os.path.join(mid, folder('Form'), 'Form.obj.bsl')
    t.check_eq(M.get(p).decode('utf-8-sig'), a + '\n' + d + '\ny;', 'module in the sources')
    if t.bool('edit'):
        M.put(p, ('y;\n' + d + '\n' + a).encode('utf-8'))
        s.bytes[u + '.0/module'] = ('y;\n// v8unpack ' + d + '\n' + a).encode(enc)
    s.compare(M.encode(t, mid, file_name='x.epf'))


CASES['C37'] += [dict(func='managed_edited', params={'what': w}) for w in ('order', 'removed', 'emptied', 'columns', 'moved', 'added')] + [
    dict(func='ordinary_edited', params={'auto': a}) for a in (False, True)]


def managed_edited(t, what):
    """elements, attributes, parameters and commands changed in the sources are changed in the product"""
    s, u = product(t)
    a = t.str('a', 1, 1, chars='aЯ')
    fa, fb = ('Field', item('Field', a + '1', t.choice('v', [0, 1]))), ('Table', item('Table', 'Т'))
    g = ('Group', item('Group', 'Г'))
    at, pr, cm = [attr(1, a), attr(2, 'Р2')], [param(a), param('П2')], [command(1, a), command(2, 'К2')]
    path = os.path.join(folder('Form'), 'Form.elem.json')
    if what == 'order':
        s.lists(u + '.0', managed([fa, fb], attrs=at, params=pr, commands=cm))
        mid = M.decode(t, s)
        e = M.read_json(os.path.join(mid, path))
        which = t.choice('which', ['tree', 'props', 'params', 'commands'])
        e[which].reverse()
        new = {'tree': [fa, fb], 'props': at, 'params': pr, 'commands': cm}
        new[which] = new[which][::-1]
    elif what == 'removed':
        s.lists(u + '.0', managed([fa, fb], attrs=at, params=pr, commands=cm))
        mid = M.decode(t, s)
        e = M.read_json(os.path.join(mid, path))
        which = t.choice('which', ['tree', 'props', 'params', 'commands'])
        left = t.choice('left', [[], [0], [1]])
        new = {'tree': [fa, fb], 'props': at, 'params': pr, 'commands': cm}
        new[which] = [new[which][i] for i in left]
        e[which] = [e[which][i] for i in left]
    elif what == 'emptied':
        kind = t.choice('kind', ['Group', 'Table'])
        leaf = ('Field', item('Field', a + '2'))
        deep = t.bool('deep')
        full, empty = (kind, item(kind, 'К', child=[leaf])), (kind, item(kind, 'К'))
        if deep:
            full, empty = ('Group', item('Group', 'Г', child=[full, fa])), ('Group', item('Group', 'Г', child=[empty, fa]))
        s.lists(u + '.0', managed([full, fb], attrs=at, params=pr, commands=cm))
        mid = M.decode(t, s)
        e = M.read_json(os.path.join(mid, path))
        (e['tree'][0]['child'][0] if deep else e['tree'][0])['child'] = t.choice('as', [[], None])
        new = {'tree': [empty, fb], 'props': at, 'params': pr, 'commands': cm}
    elif what == 'columns':
        cols = [('1', a), ('2', 'К2')]
        at = [attr(1, 'Р1'), attr(2, 'Р2', None, cols)]
        s.lists(u + '.0', managed([fa, fb], attrs=at, params=pr, commands=cm))
        mid = M.decode(t, s)
        e = M.read_json(os.path.join(mid, path))
        left = t.choice('left', [[], [0], [1], [1, 0]])
        e['props'][1]['child'] = [e['props'][1]['child'][i] for i in left]
        new = {'tree': [fa, fb], 'props': [at[0], attr(2, 'Р2', None, [cols[i] for i in left])], 'params': pr, 'commands': cm}
    elif what == 'moved':
        gg = ('Group', item('Group', 'Г', child=[('Button', item('Button', 'Кн'))]))
        s.lists(u + '.0', managed([fa, gg], attrs=at, params=pr, commands=cm))
        mid = M.decode(t, s)
        e = M.read_json(os.path.join(mid, path))
        e['tree'][1]['child'].append(e['tree'].pop(0))
        e['data']['Г/' + a + '1'] = e['data'].pop(a + '1')
        new = {'tree': [('Group', item('Group', 'Г', child=[('Button', item('Button', 'Кн')), fa]))], 'props': at, 'params': pr, 'commands': cm}
    else:
        s.lists(u + '.0', managed([fa], attrs=at, params=pr, commands=cm))
        mid = M.decode(t, s)
        e = M.read_json(os.path.join(mid, path))
        place = t.choice('place', [0, 1])
        e['tree'].insert(place, {'name': 'Новое', 'type': 'Field'})
        e['data']['Новое'] = {'raw': item('Field', 'Новое'), 'ver': 4}
        e['props'].insert(place, {'name': 'Н', 'id': '7', 'raw': attr(7, 'Н')})
        new = {'tree': [fa], 'props': [attr(7, 'Н')] + at if not place else [at[0], attr(7, 'Н'), at[1]], 'params': pr, 'commands': cm}
        new['tree'].insert(place, ('Field', item('Field', 'Новое')))
    M.write_json(os.path.join(mid, path), e)
    s.brace[u + '.0'] = managed(new['tree'], attrs=new['props'], params=new['params'], commands=new['commands'])
    s.compare(M.encode(t, mid))


def ordinary_edited(t, auto):
    """elements and attributes of an ordinary form changed in the sources are changed in the product"""
    a = t.str('a', 1, 1, chars='aЯ')
    one, two = El(a + '1', eid='4'), El('Э2', 'Button', eid='3')
    props = [('8', a), ('3', 'Рек')]
    s, u = ordinary_source(t, ordinary(Pn(['С1'], [one, two]), props))
    options = {'auto_include': True} if auto else None
    mid = M.decode(t, s, options)
    path = os.path.join(mid, folder('Form'), 'Form.elem.json')
    e = M.read_json(path)
    tree = e['tree'][0]['child'] if auto else e['tree']
    what = t.choice('what', ['order', 'removed', 'attributes order', 'attribute removed', 'attributes removed'])
    elems = [one, two]
    if what == 'order':
        tree.reverse()
        elems.reverse()
    elif what == 'removed':
        k = t.choice('which', [0, 1])
        del tree[k], elems[k]
    elif what == 'attributes order':
        e['props'].reverse()
        props.reverse()
    elif what == 'attribute removed':
        k = t.choice('which', [0, 1])
        del e['props'][k], props[k]
    elif what == 'attributes removed':
        e['props'], props = [], []
    M.write_json(path, e)
    s.brace[u + '.0/form'] = ordinary(Pn(['С1'], elems), props)
    res = M.encode(t, mid, options)
    if auto:
        now = helper.brace_file_read(os.path.join(res, u + '.0'), 'form')
        t.check_eq(without_ids(t, now), without_ids(t, s.brace[u + '.0/form']), 'form without numbers of elements')
        s.brace[u + '.0/form'] = now
    s.compare(res)


CASES['C37'] += [dict(func='ordinary_pages_edited', params={'auto': a}) for a in (False, True)]


def ordinary_pages_edited(t, auto):
    """a page added to an ordinary form, or to a panel in it, or the last one taken away"""
    x = t.str('x', 1, 1, chars='aЯ')
    deep = t.bool('in a panel')
    what = t.choice('what', ['added', 'last removed', 'added with an element'])
    one, two = El('Э1', eid='3'), El('Э2', 'Button', eid='4', page=1)

    def form_with(pages, elems, more=0):
        p = Pn(pages, elems, more)
        return ordinary(Pn(['С1'], [El('П', 'Panel', '2', panel=p)]) if deep else p)
    s, u = ordinary_source(t, form_with(['С1', 'С' + x], [one, two]))
    options = {'auto_include': True} if auto else None
    mid = M.decode(t, s, options)
    path = os.path.join(mid, folder('Form'), 'Form.elem.json')
    e = M.read_json(path)
    tree = e['tree']
    pre = ''
    if deep:
        tree = tree[0]['child'][0]['child'] if auto else tree[0]['child']
        pre = 'С1/П/'
    pages = e['data'][pre + '-pages-']
    data = e['data']
    if what == 'last removed':
        new, elems = ['С1'], [one]
        if auto:
            del tree[1]
        else:
            tree[:] = [y for y in tree if y['page'] == 'С1']
        data[pre + '-pages-'] = pages[:1]
    else:
        new, elems = ['С1', 'С' + x, 'Новая'], [one, two]
        page = json.loads(json.dumps(data[pre + 'С' + x]))
        page['raw'][6] = q('Новая')
        page['info'] = [['2', str(i), '1', '0'] for i in range(8, 12)]
        data[pre + 'Новая'] = page
        data[pre + '-pages-'] = pages + ['Новая']
        child = []
        if what == 'added with an element':
            three = El('Э3', 'Button', eid='9', page=2)
            elems.append(three)
            d = json.loads(json.dumps(data[pre + 'С' + x + '/Э2']))
            d['id'] = d['raw'][1] = '9'
            d['raw'][-3][-5] = '2'
            d['raw'][-2][1] = q('Э3')
            data[pre + 'Новая/Э3'] = d
            child = [{'name': 'Э3', 'type': 'Button'}]
            if not auto:
                tree.append({'name': 'Э3', 'type': 'Button', 'page': 'Новая'})
        if auto:
            tree.append({'name': 'Новая', 'type': 'Page', 'child': child})
    if auto and t.bool('list of pages as it was'):      # the tree is what counts
        data[pre + '-pages-'] = pages
    M.write_json(path, e)
    s.brace[u + '.0/form'] = form_with(new, elems)
    res = M.encode(t, mid, options)
    if auto:
        now = helper.brace_file_read(os.path.join(res, u + '.0'), 'form')
        t.check_eq(without_ids(t, now), without_ids(t, s.brace[u + '.0/form']), 'form without numbers of elements')
        s.brace[u + '.0/form'] = now
    s.compare(res)


# ------------------------------------------------------------------------------------------ C24: areas of form elements
META['C24'] = {
    'bounds': 'one or two forms, managed and ordinary (with and without auto_include): areas that are groups, groups in groups, tables or panels with pages, single '
              'elements or empty, at depth 0..2, with one- to three-part paths, with and without version mode; every order of processing the forms; four kinds of '
              'edits of the file of the area; links to attributes and columns and commands with any numbers; the index renaming areas or moving the form',
    'assumptions': ['areas are not nested in areas (documented as not supported)', 'an ordinary form built without auto_include has the same numbers of elements '
                    'as the form its area comes from', 'a task of the pool runs without interference of others']}
WAYS = [('managed', False), ('ordinary', False), ('ordinary', True)]
CASES['C24'] = [dict(func='area_back', params={'kind': k, 'auto': a, 'descent': d}) for k, a in WAYS for d in (None, 5)] + [
    dict(func=f, params={'kind': k, 'auto': a}) for f in ('area_read_only', 'area_edited') for k, a in WAYS] + [
    dict(func='area_links', params={'word': w}) for w in ('include_', 'includr_')] + [
    dict(func='area_links_missing', params={}),
    dict(func='area_links_ordinary', params={}),
] + [dict(func='area_index', params={'kind': k, 'auto': a, 'what': w}) for k, a in WAYS for w in ('renamed', 'moved', 'moved, no path', 'star')] + [
    dict(func='area_word_inside', params={}),
    dict(func='area_any_form', params={}),
]


def processor_forms(t, forms, ftype='1'):
    """a processor with forms: names -> lists"""
    s = M.Src(t)
    us = {}
    for i, n in enumerate(sorted(forms)):
        us[n] = M.U % (0x10 + i)
    M.processor(s, [(MetaDataTypes['Form'].value, list(us.values()))])
    for n, u in us.items():
        s.lists(u, description(u, n, 'v1', '13', ftype))
        if ftype == '1':
            s.lists(u + '.0', forms[n])
        else:
            s.lists(u + '.0/form', forms[n])
            s.raw(u + '.0/module', b'x;')
    return s, us


def organize(t, mid, index=None, descent=None):
    """sources laid out in folders; returns the folder of the project and of the sources"""
    from harness import organizer as O
    O.preload()
    root, s3, src, out = O.places(t, descent)
    O.unpack(t, mid, src, index=index, descent=descent)
    return root, src


def collect(t, src, index=None, descent=None):
    from harness import organizer as O
    out = os.path.join(t.dir, 'o3')
    O.pack(t, src, out, index=index, descent=descent)
    return out


CASES['C37'] += [dict(func='several_forms', params={'kind': k, 'auto': a}) for k in ('managed', 'ordinary') for a in (False, True)]


def several_forms(t, kind, auto):
    """forms of one product do not get into each other, whichever comes first"""
    a = t.choice('name', ['a', 'Я'])
    n = t.choice('elements of the second', [0, 1, 2])
    extra = [] if t.bool('less in the second') else [1]
    if kind == 'managed':
        one = managed([('Field', item('Field', a)), ('Group', item('Group', 'Г', child=[('Table', item('Table', 'Т'))]))], code='x;',
                      attrs=[attr(1, 'Р', child=[('2', 'К')]), attr(2, 'Р2')], params=[param('П')], commands=[command(1, 'К')], panels=1)
        two = managed([('Button', item('Button', a + str(i))) for i in range(n)], code='y;',
                      attrs=[attr(1, 'С') for x in extra], params=[param('П2') for x in extra], commands=[command(2, 'К2') for x in extra])
        ftype = '1'
    else:
        x = El(a, eid='3')
        one = ordinary(Pn(['С1', 'С2'], [x, El('К', 'Button', '5', page=1, to={0: (x, 0)}),
                                         El('П', 'Panel', '7', panel=Pn(['С1'], [El('В', eid='8')]))]), [('1', 'Р'), ('4', 'Р2')], [('3', '1'), ('8', '4')])
        two = ordinary(Pn(['С1'], [El(a + str(i), 'Label', str(3 + i)) for i in range(n)]), [('1', 'С') for x in extra],
                       [('3', '1') for x in extra if n], t.choice('ver', ['26', '27']))
        ftype = '0'
    forms = {'А': one, 'Б': two}
    if t.bool('the other first'):
        forms = {'А': two, 'Б': one}
    s, us = processor_forms(t, forms, ftype)
    options = {'auto_include': True} if auto else None
    mid = M.decode(t, s, options)
    for i, f in enumerate(sorted(forms)):
        t.dir = os.path.join(t.dir, 'alone%d' % i)
        os.makedirs(t.dir)
        s1, us1 = processor_forms(t, {f: forms[f]}, ftype)
        m1 = M.decode(t, s1, options)
        t.dir = os.path.dirname(t.dir)
        for n in sorted(k for k in t.tree(m1) if k.startswith('Form/') and not k.endswith('/')):
            if os.path.basename(n) != 'Form.id.json' and not n.endswith('Form.json'):
                t.check_eq(M.get(os.path.join(mid, n)), M.get(os.path.join(m1, n)), 'sources of one form of two: ' + n)
    built(t, s, mid, auto)


def area_of(kind, name, shape, tail='', v=0, ids=('21', '22', '23', '24')):
    """an element holding an area; returns it and the names of what is inside"""
    if kind == 'managed':
        leaf, leaf2 = ('Field', item('Field', 'Поле' + tail, v)), ('Decoration', item('Decoration', 'Декор' + tail))
        if shape == 'group':
            return ('Group', item('Group', name, child=[leaf, leaf2])), ['Поле' + tail, 'Декор' + tail]
        if shape == 'nested':
            return ('Group', item('Group', name, child=[('Group', item('Group', 'Вл', child=[leaf])), leaf2])), ['Вл', 'Декор' + tail]
        if shape == 'table':
            return ('Table', item('Table', name, child=[leaf, leaf2])), ['Поле' + tail, 'Декор' + tail]
        if shape == 'single':
            return ('Button', item('Button', name, v)), []
        return ('Group', item('Group', name, v)), []
    leaf, leaf2 = El('Поле' + tail, eid=ids[1], extra=v), El('Декор' + tail, 'Label', ids[2])
    if shape == 'group':
        return El(name, 'Panel', ids[0], panel=Pn(['С1'], [leaf, leaf2])), ['Поле' + tail, 'Декор' + tail]
    if shape == 'nested':
        return El(name, 'Panel', ids[0], panel=Pn(['С1'], [El('Вл', 'Panel', ids[3], panel=Pn(['С2'], [leaf])), leaf2])), ['Вл', 'Декор' + tail]
    if shape == 'table':
        return El(name, 'Panel', ids[0], panel=Pn(['С1', 'С2'], [leaf, El('Декор' + tail, 'Label', ids[2], page=1)])), ['Поле' + tail, 'Декор' + tail]
    if shape == 'single':
        return El(name, 'Button', ids[0], extra=v), []
    return El(name, 'Panel', ids[0], panel=Pn(['С1'])), []


def form_of(kind, elems, auto=False, props=(), source=(), ver='27', **kw):
    return managed(elems, **kw) if kind == 'managed' else ordinary(Pn(['С1', 'С2'], elems), props, source, ver)


def plain(kind, name, eid='11'):
    return ('Button', item('Button', name)) if kind == 'managed' else El(name, 'Button', eid)


def inside(kind, name, elems, eid='12'):
    return ('Group', item('Group', name, child=elems)) if kind == 'managed' else El(name, 'Panel', eid, panel=Pn(['С1'], elems))


def built(t, s, out, auto, lost=()):
    """the product built from the folder must hold what the second stage had"""
    res = M.encode(t, out, {'auto_include': True} if auto else None)
    if auto:
        for n in [n for n in s.brace if n.endswith('/form')]:
            was = s.brace.pop(n)
            now = helper.brace_file_read(os.path.join(res, os.path.dirname(n)), 'form')
            t.check_eq(without_ids(t, now), without_ids(t, was), 'form without numbers of elements ' + n)
            s.brace[n] = now
    s.compare(res)


def taken(t, s, auto):
    return M.decode(t, s, {'auto_include': True} if auto else None)


def top(tree, auto):
    """elements of the first level (of the first page)"""
    return tree[0]['child'] if auto else tree


def area_back(t, kind, auto, descent):
    """the elements of an area are in a file of their own, where its name says; with it the form is as it was"""
    shape = t.choice('shape', ['group', 'nested', 'table', 'single', 'empty'])
    hot = t.str('area', 1, 1, chars='aЯ-')
    path = t.choice('path', ['core_', 'core_deep_', '_up_'] + ([''] if descent is None else []))
    deep = t.choice('deep', [0, 1, 2])
    a, names = area_of(kind, 'include_' + path + hot, shape)
    elems = [plain(kind, 'До', '2'), a, plain(kind, 'После', '3')]
    for d in range(deep):
        elems = [inside(kind, 'Гр%d' % d, elems, str(14 + d))]
    s, us = processor_forms(t, {'Форма': form_of(kind, elems, ver=t.choice('ver', ['26', '27']) if kind == 'ordinary' else '27')}, '1' if kind == 'managed' else '0')
    mid = taken(t, s, auto)
    root, src = organize(t, mid, descent=descent)
    f = {'': os.path.join(src, 'Form', 'Форма', hot), 'core_': os.path.join(root, 'core', hot), 'core_deep_': os.path.join(root, 'core', 'deep', hot),
         '_up_': os.path.join(os.path.dirname(root), 'up', hot)}[path] + '.elem.json'
    e = M.read_json(f)
    t.check_eq([x['name'] for x in (e['tree'] or [])] if kind == 'managed' or not auto else [y['name'] for x in e['tree'] or [] for y in x['child']], names,
               'elements in the file of the area')
    own = M.read_json(os.path.join(src, 'Form', 'Форма', 'Form.elem.json' if descent is None else 'Form.elem.5.json'))
    t.check_eq(sorted(k for k in own['data'] if 'Поле' in k or 'Декор' in k or 'Вл' in k), [], 'data of the area left in the form')
    out = collect(t, src, descent=descent)
    built(t, s, out, auto)


def area_read_only(t, kind, auto):
    """a form that only reads an area does not change its file and gets its contents"""
    shape = t.choice('shape', ['group', 'nested', 'table', 'empty'])
    n1, n2 = t.choice('names', [('А', 'Б'), ('Б', 'А')])
    x = t.choice('differs', [0, 1])
    deep = t.bool('deep') if kind == 'managed' else False
    one, names = area_of(kind, 'include_core_x', shape)
    other, _ = area_of(kind, 'includr_core_x', shape, tail='2' if x and kind == 'managed' else '', v=x)
    want, _ = area_of(kind, 'includr_core_x', shape)

    def wrap(e):
        elems = [plain(kind, 'До', '2'), e]
        return form_of(kind, [inside(kind, 'Гр', elems)] if deep else elems)
    ft = '1' if kind == 'managed' else '0'
    s, us = processor_forms(t, {n1: wrap(one), n2: wrap(other)}, ft)
    mid = taken(t, s, auto)
    t.any_schedule()
    root, src = organize(t, mid)
    e = M.read_json(os.path.join(root, 'core', 'x.elem.json'))
    t.check_eq([y['name'] for y in (e['tree'] or [])] if not auto else [y['name'] for z in e['tree'] or [] for y in z['child']], names,
               'elements in the file of the area')
    out = collect(t, src)
    if shape != 'empty':
        s.brace[us[n2] + ('.0' if kind == 'managed' else '.0/form')] = M.copy(wrap(want))
    built(t, s, out, auto)


def area_edited(t, kind, auto):
    """a change in the file of an area is in every form that has the area"""
    word = t.choice('word', ['include_', 'includr_'])
    one, names = area_of(kind, 'include_core_x', 'group')
    two, _ = area_of(kind, word + 'core_x', 'group')
    ft = '1' if kind == 'managed' else '0'
    s, us = processor_forms(t, {'А': form_of(kind, [one]), 'Б': form_of(kind, [plain(kind, 'До', '2'), two])}, ft)
    mid = taken(t, s, auto)
    root, src = organize(t, mid)
    f = os.path.join(root, 'core', 'x.elem.json')
    e = M.read_json(f)
    what = t.choice('what', ['order', 'removed', 'all removed', 'data'])
    tree = e['tree'][0]['child'] if auto else e['tree']
    n = t.str('n', 1, 1, chars='aЯ')
    key = 'include_core_x/' + ('С1/' if kind == 'ordinary' else '') + 'Поле'
    if what == 'order':
        tree.reverse()
    elif what == 'removed':
        del tree[t.choice('which', [0, 1])]
    elif what == 'all removed':
        del tree[:]
    else:
        if kind == 'managed':
            e['data'][key]['raw'][2] = n
        else:
            e['data'][key]['raw'][2][2] = n
    M.write_json(f, e)

    def changed(x):
        """the same change in the lists of the second stage"""
        if kind == 'managed':
            c = [('Field', item('Field', 'Поле')), ('Decoration', item('Decoration', 'Декор'))]
        else:
            c = x.panel.elems
        if what == 'order':
            c.reverse()
        elif what == 'removed':
            del c[0 if tree and tree[0]['name'] == 'Декор' else 1]
        elif what == 'all removed':
            del c[:]
        elif kind == 'managed':
            c[0][1][2] = n
        return ('Group', item('Group', x[1][6][1:-1] if len(x[1]) > 6 else '', child=c)) if kind == 'managed' else x
    suffix = '.0' if kind == 'managed' else '.0/form'
    a2, b2 = changed(one), changed(two)
    s.brace[us['А'] + suffix] = form_of(kind, [a2])
    s.brace[us['Б'] + suffix] = form_of(kind, [plain(kind, 'До', '2'), b2])
    if what == 'data' and kind == 'ordinary':
        s.brace[us['А'] + suffix][0][1][2][2][1][-1][1][2][2] = n
        s.brace[us['Б'] + suffix][0][1][2][2][2][-1][1][2][2] = n
    out = collect(t, src)
    built(t, s, out, auto)


def area_links(t, word):
    """an element of an area is linked to the attribute and the command of the form it is put on, by their names"""
    depth = t.choice('depth', [1, 2])
    name = t.str('name', 1, 2, chars='aЯ_')
    ids = [t.choice('id of ' + f, ['1', '4']) for f in 'АБ']
    cid = [t.choice('command of ' + f, ['1', '4']) for f in 'АБ']
    table = t.bool('table')

    def form(k, w):
        link = [str(depth), [ids[k]]] + ([[str(k + 2)]] if depth == 2 else [])
        f = ('Table' if table else 'Field', item('Table' if table else 'Field', 'Поле', link=link))
        b = ('Button', item('Button', 'Кн', link=[cid[k], NEW]))
        attrs = [attr(7, 'Р7'), attr(ids[k], name, None, [(str(k + 2), 'К')])]
        return managed([('Group', item('Group', w + 'core_x', child=[f, b]))], attrs=attrs[::-1] if k else attrs, commands=[command(cid[k], name), command(8, 'К8')])
    s, us = processor_forms(t, {'А': form(0, 'include_'), 'Б': form(1, word)})
    mid = M.decode(t, s)
    root, src = organize(t, mid)
    out = collect(t, src)
    s.compare(M.encode(t, out))


def area_links_missing(t):
    """a form without the attribute or the command an area needs is not built silently"""
    what = t.choice('what', ['attribute', 'column', 'command'])
    name = t.str('name', 1, 1, chars='aЯ')

    def form(k, w):
        f = ('Field', item('Field', 'Поле', link=['2', ['1'], ['2']]))
        b = ('Button', item('Button', 'Кн', link=['1', NEW]))
        miss = what if k else ''
        attrs = [attr(7, 'Р7')] + ([] if miss == 'attribute' else [attr(1, name, None, [] if miss == 'column' else [('2', 'К')])])
        return managed([('Group', item('Group', w + 'core_x', child=[f, b] if not k else []))], attrs=attrs, commands=[] if miss == 'command' else [command(1, name)])
    s, us = processor_forms(t, {'А': form(0, 'include_'), 'Б': form(1, 'includr_')})
    mid = M.decode(t, s)
    root, src = organize(t, mid)
    out = collect(t, src)
    try:
        M.encode(t, out)
    except ExtException:
        return
    t.fail('built without the ' + what)


def area_links_ordinary(t):
    """with auto_include an element of an area is linked to the attribute of the form it is put on, by its name"""
    name = t.str('name', 1, 2, chars='aЯ_')
    ids = [t.choice('id of ' + f, ['1', '4']) for f in 'АБ']

    def form(k, w):
        a = El(w + 'core_x', 'Panel', '5', panel=Pn(['С1'], [El('Поле', eid='6')]))
        props = [('7', 'Р7'), (ids[k], name)]
        return ordinary(Pn(['С1'], [El('До', eid='2'), a]), props[::-1] if k else props, [('2', '7'), ('6', ids[k])])
    s, us = processor_forms(t, {'А': form(0, 'include_'), 'Б': form(1, t.choice('word', ['include_', 'includr_']))}, '0')
    mid = taken(t, s, True)
    root, src = organize(t, mid)
    out = collect(t, src)
    built(t, s, out, True)


def area_index(t, kind, auto, what):
    """the index renames an area or moves the file of the form"""
    name = t.str('name', 1, 1, chars='aЯ')
    area = '' if what == 'moved, no path' else 'core_'
    word = t.choice('word', ['include_', 'includr_'])
    one, names = area_of(kind, 'include_' + area + 'x', 'group')
    two, _ = area_of(kind, word + area + 'x', 'group')
    forms = {'А': form_of(kind, [one])}
    if area:
        forms['Б'] = form_of(kind, [plain(kind, 'До', '2'), two])
    s, us = processor_forms(t, forms, '1' if kind == 'managed' else '0')
    mid = taken(t, s, auto)
    if what == 'renamed':
        index = {'Области include': {'core_x': 'common_' + name}}
    elif what == 'star':
        index = {'Form': {'А': {'*': 'shared/' + name}}}
    else:
        index = {'Form': {'А': {'Form.elem.json': 'shared/' + name + '.elem.json'}}}
    root, src = organize(t, mid, index=index)
    if what == 'renamed':
        t.check(os.path.isfile(os.path.join(root, 'common', name + '.elem.json')), 'area renamed by the index')
    elif what == 'star':
        t.check(os.path.isfile(os.path.join(root, 'shared', name, 'Form.elem.json')), 'form moved by the index')
    else:
        t.check(os.path.isfile(os.path.join(root, 'shared', name + '.elem.json')), 'form moved by the index')
    out = collect(t, src, index=index)
    built(t, s, out, auto)


def area_word_inside(t):
    """the words include_ and includr_ inside a name do not make an area"""
    word = t.choice('word', ['include_', 'includr_', 'includ', 'Include_'])
    before = t.choice('before', ['a', 'Гр_', '1_include_']) if not word.startswith('Inc') and word != 'includ' else t.choice('pre', ['', 'a'])
    name = before + word + t.str('name', 0, 1, chars='aЯ_')
    kind = t.choice('kind', ['Group', 'Table', 'Field'])
    child = [('Field', item('Field', 'Поле'))] if kind != 'Field' else None
    e = (kind, item(kind, name, child=child))
    if t.bool('area in it') and kind == 'Group':
        e = (kind, item(kind, name, child=[area_of('managed', 'include_core_x', 'group')[0]]))
    s, us = processor_forms(t, {'А': managed([e, plain('managed', 'После')])})
    mid = M.decode(t, s)
    root, src = organize(t, mid)
    out = collect(t, src)
    s.compare(M.encode(t, out))


def area_any_form(t):
    """forms without elements or not understood by the tool pass through the layout"""
    what = t.choice('what', ['no elements', 'unknown', 'ordinary unknown'])
    if what == 'no elements':
        s, us = processor_forms(t, {'А': managed([])})
    elif what == 'unknown':
        s, us = processor_forms(t, {'А': managed([('Group', item('Group', 'include_core_x', child=[(NEW, ['1'])]))])})
    else:
        f = ordinary(Pn(['С1'], [El('include_core_x', 'Panel', '2', panel=Pn(['С1'], [El('А', NEW, '3')]))]))
        s, us = processor_forms(t, {'А': f}, '0')
    mid = M.decode(t, s)
    root, src = organize(t, mid)
    out = collect(t, src)
    s.compare(M.encode(t, out))


CASES['C37'] += [dict(func='last_level_module', params={})]


def last_level_module(t):
    """a form stored as a file whose module is in the last of its nested lists, or that has none"""
    s, u = product(t, ftype='0')
    code = t.str('code', 0, 2, chars='a"')
    tag = t.choice('tag', ['22', '1', '49', '4', '7'])
    size = t.choice('size', [10, 11, 13] if tag in ('22', '1') else [11])
    end = t.choice('end', [['0', '0'], ['0', '1'], ['1', '0']] if tag == '22' else [['0', '0']])
    last = [tag] + ['5'] * (size - 9) + [q(code.replace('"', '""'))] + ['8'] * 5 + end
    if t.bool('deep'):
        last = ['6', last]
    head = t.choice('head', [['5', '1', '0'], ['1'] + ['0'] * 10])
    s.lists(u + '.0', [head + [last]])
    s.as_read(u + '.0')
    mid = M.decode(t, s)
    if tag in ('22', '1') and size > 10 and end == ['0', '0']:
        p = os.path.join(mid, folder('Form'), 'Form.obj.bsl')
        if code:
            t.check_eq(M.get(p).decode('utf-8'), code, 'module in the sources')
        if t.bool('edit'):
            M.put(p, b'y="1";')
            last = s.brace[u + '.0'][0][-1]
            if last[0] == '6':
                last = last[1]
            last[-8] = q('y=""1"";')
    s.compare(M.encode(t, mid))


CASES['C37'] += [dict(func='managed_parent', params={'kind': k}) for k in ('Form', 'CatalogForm', 'ReportForm')]


def managed_parent(t, kind):
    """an attribute whose type is the owner of the form: kept without the id of the owner, built with the one the owner has then"""
    s, u = product(t, kind)
    mine = M.U % 0xC0
    owner = M.U % 0x20 if kind != 'Form' else None
    root = M.U % 0xF0
    if owner:
        s.brace[owner][0][1][1] = mine
        s.lists(owner, s.brace[owner])
    end = t.choice('end', [mine, u, 'other'])
    tag = t.choice('tag', ['"#"', '"S"'])
    form = t.choice('form', ['pair', 'alone', 'three', 'two types'])
    pattern = ['"Pattern"', [tag, end]]
    if form == 'alone':
        pattern = ['"Pattern"']
    elif form == 'three':
        pattern = ['"Pattern"', [tag, end, '1']]
    elif form == 'two types':
        pattern = ['"Pattern"', [tag, end], ['"S"', '5', '1']]
    second = t.choice('second', ['same', 'string', 'none'])
    attrs = [attr(1, 'Объект', pattern=pattern)]
    if second != 'none':
        attrs.append(attr(2, 'Имя', pattern=['"Pattern"', ['"#"', mine]] if second == 'same' else None))
    s.lists(u + '.0', managed([('Field', item('Field', 'Поле'))], attrs=attrs))
    mid = M.decode(t, s)
    own = kind != 'ReportForm'
    for n, a in enumerate(parts(t, mid, kind)['props']):
        want = [pattern, None if second == 'none' else attrs[1][5]][n]
        if own and len(want) > 1 and want[1][0] == '"#"' and want[1][1] == mine:
            want = [want[0], ['"#"', 'Родитель'] + want[1][2:]] + want[2:]
        t.check_eq(a['raw'][5], want, 'type of attribute %d' % n)
    if own and t.bool('another owner'):
        p = os.path.join(mid, os.path.join(kind[:-4], 'Владелец', kind[:-4] + '.json') if owner else 'ExternalDataProcessor.json')
        new = M.U % 0xC1
        text = M.get(p).decode('utf-8')
        M.put(p, text.replace(mine, new).encode('utf-8'))
        if owner:
            s.brace[owner][0][1][1] = new
        else:
            s.brace[root][0][3][1][1][1] = new
        for a in attrs:
            if len(a[5]) > 1 and a[5][1][0] == '"#"' and a[5][1][1] == mine:
                a[5][1][1] = new
        s.lists(u + '.0', managed([('Field', item('Field', 'Поле'))], attrs=attrs))
    s.compare(M.encode(t, mid))
