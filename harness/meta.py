"""Stage 3: decoding of the metadata objects of a configuration, an extension or an external processor and building them back."""
import os

FILL = '0'
LINE = ' \t#&/aЯ;"|{'
U = '%08x-0000-4000-8000-000000000000'
SHAPE = 'every metadata type in the table, each with every file it can have; '
META = {'C30': {'bounds': '48 metadata types, each object with all its files, one file (any) with arbitrary contents: modules of 0 to 3 characters '
                           '(line ends, blanks, # & / " ; { Cyrillic), binary data of 0 to 3 bytes, help and pictures of 1 to 3 bytes; '
                           'commands of 19 types, one or two; subsystems nested in two levels with 1 or 2 children in either order and '
                           'common modules, work items in any order; one or two groups of types; files of configuration, extension and '
                           'processor, each arbitrary in turn (0 to 2 characters), alone, the only one missing, or among all the others; two containers listed in any order',
                'assumptions': ['module texts without carriage returns (universal newlines turn CRLF into LF on reading)',
                                'file numbers and places of the headers are the ones the type table of the harness lists',
                                'files other than the arbitrary one have fixed short contents; names of objects are fixed']}}
CASES = {}


def preload():
    global helper, decoder, MetaDataTypes, MetaDataGroup, ExtException, version
    from v8unpack import helper, decoder
    from v8unpack import version
    from v8unpack.metadata_types import MetaDataTypes, MetaDataGroup
    from v8unpack.ext_exception import ExtException
    for name in TYPES:
        helper.get_class_metadata_object(name)
    import v8unpack.MetaDataObject.Form


# name: place of the header in the lists, modules, other files (number: what it is)
# 'help' html document, 'bin' any bytes, 'brace' lists, 'dir' folder, 'pic' picture
C, S = 'container', 'simple'
TYPES = {
    'AccountingRegister': (C, [0, 1, 15, 1], {'obj': 6, 'mgr': 7}, {'5': 'help'}),
    'AccumulationRegister': (C, [0, 1, 13, 1], {'obj': 1, 'mgr': 2}, {'0': 'help', '3': 'bin'}),
    'Bot': (S, [0, 1, 1], {'obj': 1}, {}),
    'BusinessProcess': (C, [0, 1, 1], {'obj': 6, 'mgr': 8}, {'5': 'help', '7': 'bin'}),
    'CalculationRegister': (C, [0, 1, 15, 1], {'obj': 1, 'mgr': 2}, {'0': 'help'}),
    'CalculationRegisterRecalculations': (C, [0, 1, 7, 1], {'obj': 0}, {}),
    'Catalog': (C, [0, 1, 9, 1], {'obj': 0, 'mgr': 3}, {'1': 'help', '1c': 'bin'}),
    'ChartOfAccounts': (C, [0, 1, 15, 1], {'obj': 14, 'mgr': 15}, {'5': 'help', '9': 'bin'}),
    'ChartOfCalculationTypes': (C, [0, 1, 1, 1], {'obj': 0, 'mgr': 3}, {'1': 'help', '2': 'bin'}),
    'ChartOfCharacteristicType': (C, [0, 1, 13, 1], {'obj': 15, 'mgr': 16}, {'5': 'help', '7': 'bin'}),
    'CommandGroup': (S, [0, 1, 6], {'obj': 0}, {}),
    'CommonAttribute': (S, [0, 1, 1, 1, 1], {'obj': 0}, {}),
    'CommonCommand': (S, [0, 1, 1, 2, 9], {'obj': 2}, {'1': 'help'}),
    'CommonModule': (S, [0, 1, 1], {'obj': 0}, {}),
    'CommonPicture': (S, [0, 1, 1], {}, {'0': 'pic'}),
    'Constant': (S, [0, 1, 1, 1, 1], {'obj': 0, 'mgr': 1}, {}),
    'DataProcessor': (C, [0, 1, 3, 1], {'obj': 0, 'mgr': 2}, {'1': 'help'}),
    'DefinedType': (S, [0, 1, 3], {'obj': 0}, {}),
    'Document': (C, [0, 1, 9, 1], {'obj': 0, 'mgr': 2}, {'1': 'help'}),
    'DocumentJournal': (C, [0, 1, 3, 1], {'mgr': 1}, {'0': 'help'}),
    'DocumentNumerators': (S, [0, 1, 1], {'obj': 0}, {}),
    'Enum': (C, [0, 1, 5, 1], {'obj': 0}, {}),
    'EventSubscription': (S, [0, 1, 1], {}, {'0': 'bin'}),
    'ExchangePlan': (C, [0, 1, 12], {'obj': 2, 'mgr': 3}, {'0': 'help', '1': 'brace'}),
    'ExternalDataSource': (C, [0, 1, 1, 1], {'obj': 0}, {}),
    'ExternalDataSourceCube': (C, [0, 1, 1, 1], {'obj': 2, 'mgr': 1}, {}),
    'ExternalDataSourceTable': (C, [0, 1, 1, 1], {'obj': 0}, {}),
    'FilterCriterion': (C, [0, 1, 5, 1], {'obj': 0}, {}),
    'FunctionalOption': (S, [0, 1, 1], {'obj': 0}, {}),
    'FunctionalOptionsParameter': (S, [0, 1, 1], {'obj': 0}, {}),
    'HTTPService': (C, [0, 1, 2], {'obj': 0}, {}),
    'InformationRegister': (C, [0, 1, 15, 1], {'obj': 1, 'mgr': 2}, {'0': 'help'}),
    'IntegrationService': (C, [0, 1, 1], {'obj': 0}, {}),
    'Interface': (S, [0, 1, 2], {}, {'0': 'bin'}),
    'Language': (S, [0, 1, 1], {'obj': 0}, {}),
    'Report': (C, [0, 1, 3, 1], {'obj': 0, 'mgr': 2}, {'1': 'help'}),
    'Role': (S, [0, 1, 1], {}, {'0': 'bin'}),
    'ScheduledJob': (S, [0, 1, 1], {}, {'0': 'bin'}),
    'Sequences': (C, [0, 1, 7, 1], {'obj': 0}, {}),
    'SessionParameter': (S, [0, 1, 1, 1], {'obj': 0}, {}),
    'SettingsStorage': (C, [0, 1, 1, 1], {'mgr': 8}, {}),
    'Style': (S, [0, 1, 1], {}, {'0': 'bin'}),
    'StyleItem': (S, [0, 1, 3], {'obj': 0}, {}),
    'Subsystem': (C, [0, 1, 1], {}, {'0': 'help', '1': 'brace'}),
    'Task': (C, [0, 1, 1], {'obj': 6, 'mgr': 7}, {'5': 'help'}),
    'WSReference': (S, [0, 1, 2], {}, {'0': 'dir'}),
    'WebService': (C, [0, 1, 2], {'obj': 0}, {}),
    'XDTOPackage': (S, [0, 1, 1], {}, {'0': 'bin'}),
}
# commands described inside the object they belong to
COMMANDS = {'AccountingRegisterCommand': [0, 1, 2, 9], 'AccumulationRegisterCommand': [0, 1, 2, 9], 'BusinessProcessCommand': [0, 1, 3, 2, 9],
            'CalculationRegisterCommand': [0, 1, 2, 9], 'CatalogCommand': [0, 1, 3, 2, 9], 'ChartOfAccountsCommand': [0, 1, 3, 2, 9],
            'ChartOfCalculationTypesCommand': [0, 1, 3, 2, 9], 'ChartOfCharacteristicTypeCommand': [0, 1, 3, 2, 9],
            'DataProcessorCommand': [0, 1, 2, 9], 'DocumentCommand': [0, 1, 3, 2, 9], 'DocumentJournalCommand': [0, 1, 2, 9],
            'EnumCommand': [0, 1, 3, 2, 9], 'ExchangePlanCommand': [0, 1, 3, 2, 9], 'ExternalDataSourceCubeCommand': [0, 1, 3, 2, 9],
            'ExternalDataSourceTableCommand': [0, 1, 3, 2, 9], 'FilterCriterionCommand': [0, 1, 3, 2, 9], 'InformationRegisterCommand': [0, 1, 2, 9],
            'ReportCommand': [0, 1, 2, 9], 'TaskCommand': [0, 1, 3, 2, 9]}


def nest(path, leaf):
    """lists with leaf at the given place"""
    out = leaf
    for i in reversed(path[1:]):
        row = [FILL] * (i + 2)
        row[i] = out
        out = row
    return [out]


def header(uuid, name, comment='', borrowed='0'):
    return ['0', ['3', '1', uuid], '"' + name + '"', ['1', '"ru"', '"Имя"'], '"' + comment + '"', borrowed, '0']


def obj_lists(kind, path, hdr, includes=()):
    """lists of the file of an object; containers also list what they include"""
    data = nest(path, hdr)
    data[0][1] += ['m%d' % i for i in range(12 - len(data[0][1]))]
    if kind == C:
        data[0] = [data[0][0], data[0][1], str(len(includes))] + list(includes)
    return data


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


class Src:
    """folder of the second stage: what is put in must come out"""

    def __init__(self, t):
        self.t = t
        self.dir = os.path.join(t.dir, 's1', '0')
        self.brace = {}
        self.bytes = {}
        os.makedirs(self.dir)

    def lists(self, name, data):
        helper.brace_file_write(data, os.path.dirname(os.path.join(self.dir, name)), os.path.basename(name))
        self.brace[name] = copy(data)

    def as_read(self, name):
        """the lists as the parser reads them"""
        self.brace[name] = helper.brace_file_read(self.dir, name)

    def raw(self, name, data):
        put(os.path.join(self.dir, name), data)
        self.bytes[name] = data

    def module(self, name, data, info='dir'):
        if info == 'dir':
            self.lists(name + '/info', [['3', '1', '0']])
            self.raw(name + '/text', data)
        else:
            self.raw(name, data)

    def compare(self, res, skip=('versions',)):
        t = self.t
        out = []
        for r, d, fs in os.walk(res):
            for f in fs:
                out.append(os.path.relpath(os.path.join(r, f), res))
        t.check_eq(sorted(x for x in out if x not in skip), sorted(list(self.brace) + list(self.bytes)), 'files after decoding and building')
        if 'configinfo' not in self.brace:
            ver = helper.brace_file_read(res, 'versions')[0]
            t.check_eq([ver[0], ver[1], ver[2]], ['1', str(len(ver) // 2 - 1), '""'], 'head of the list of files')
            t.check_eq(sorted(x[1:-1] for x in ver[4::2]), sorted({x.split('/')[0] for x in out}), 'list of files')
        for n, v in self.brace.items():
            d, b = os.path.split(n)
            t.check_eq(helper.brace_file_read(os.path.join(res, d), b), v, 'lists of ' + n)
        for n, v in self.bytes.items():
            t.check_eq(get(os.path.join(res, n)), v, 'contents of ' + n)


def copy(x):
    return [copy(y) for y in x] if isinstance(x, list) else x


def root_lists(hdr, types, compat='"80306"', product='""', group2=()):
    """lists of the root file of a configuration; types: (type uuid, objects)"""
    props = [FILL] * 60
    props[1] = ['0', hdr]
    props[15] = product
    props[26] = compat
    props[43] = compat
    props[42] = '"px"'
    main = ['1', props, str(len(types))] + [[u, str(len(o))] + list(o) for u, o in types]
    groups = [[MetaDataGroup.General.value, main]]
    if group2:
        groups.append([MetaDataGroup.Main.value, ['1', [FILL], str(len(group2))] + [[u, str(len(o))] + list(o) for u, o in group2]])
    return [['2', [U % 1], str(len(groups))] + groups]


def configuration(s, types, hdr=None, compat='"80306"', group2=(), platform='80306'):
    """a configuration that includes the objects"""
    s.lists('root', [['2', U % 0xF0, '']])
    s.lists('version', [[['216', '0', [platform, '0']]]])
    s.lists('versions', [['1', '0']])
    s.lists(U % 0xF0, root_lists(hdr or header(U % 1, 'Конфигурация'), types, compat=compat, group2=group2))
    del s.brace['versions']


def decode(t, s, options=None):
    out = os.path.join(t.dir, 's3')
    decoder.decode(os.path.join(t.dir, 's1'), out, pool=t.pool(), options={} if options is None else options)
    return out


def encode(t, src, options=None, file_name='x.cf'):
    out = os.path.join(t.dir, 'res')
    decoder.encode(src, out, pool=t.pool(), options={} if options is None else options, file_name=file_name)
    return os.path.join(out, '0')


def there_and_back(t, s, options=None):
    mid = decode(t, s, options)
    res = encode(t, mid, dict(options) if options else None)
    s.compare(res)
    return mid, res


def html(data):
    """help document: data in base64"""
    import base64
    return [['1', '0', '0', ['##base64:' + base64.b64encode(data).decode()]]]


def picture(data):
    import base64
    return [['1', '0', [['##base64:' + base64.b64encode(data).decode()]]]]


def fill(t, s, uuid, spec, hot, chars=3):
    """files of one object; the one numbered hot holds arbitrary data"""
    kind, path, mods, extra = spec
    n = 0
    for m, num in mods.items():
        arb = n == hot
        n += 1
        text = t.str('code', 0, chars, chars=LINE + '\n') if arb else 'x%s;\n' % num
        s.module(uuid + '.' + str(num), text.encode('utf-8'), 'dir')
    for num, what in extra.items():
        arb = n == hot
        n += 1
        data = t.bytes('data', 0 if what == 'bin' else 1, chars) if arb else b'd' + num.encode()
        name = uuid + '.' + num
        if what == 'help':
            s.lists(name, html(data))
        elif what == 'pic':
            s.lists(name, picture(data))
        elif what == 'bin':
            s.raw(name, data)
        elif what == 'brace':
            s.lists(name, [['1', ['"' + t.str('q', 0, chars, chars='aЯ ;{') + '"' if arb else '"b"'], '2']])
        elif what == 'dir':
            s.raw(name + '/info', data)
            s.raw(name + '/wsdl', b'w')
            s.raw(name + '/schemas/xsd', b's')
    return n


def parts_of(name):
    kind, path, mods, extra = TYPES[name]
    return len(mods) + len(extra)



# ------------------------------------------------------------------------------------------ C30
CASES['C30'] = [dict(func='object_type', params={'name': n}) for n in TYPES] + [
    dict(func='command', params={'group': g}) for g in range(4)] + [
    dict(func='tree', params={}),
    dict(func='deep', params={'names': True}), dict(func='deep', params={'names': False}),
    dict(func='deep_sources', params={}),
    dict(func='groups', params={}),
    dict(func='configuration_files', params={}),
    dict(func='extension_files', params={}),
    dict(func='processor_files', params={}),
    dict(func='older_processor', params={}),
    dict(func='two_containers', params={}),
]


def object_type(t, name):
    """every file of an object of the type comes back"""
    spec = TYPES[name]
    s = Src(t)
    u = U % 0x10
    n = parts_of(name)
    hot = t.choice('hot', list(range(n))) if n > 1 else 0
    configuration(s, [(MetaDataTypes[name].value, [u])])
    s.lists(u, obj_lists(spec[0], spec[1], header(u, 'Имя')))
    fill(t, s, u, spec, hot)
    there_and_back(t, s)


def command_lists(name, uuid, title):
    return nest(COMMANDS[name], header(uuid, title))


def owner_of(name):
    return name[:-len('Command')]


def command(t, group):
    """a command is described inside its object, its module is a file"""
    names = sorted(COMMANDS)[group::4]
    name = t.choice('type', names)
    owner = owner_of(name)
    spec = TYPES[owner]
    s = Src(t)
    u, c1, c2 = U % 0x10, U % 0x21, U % 0x22
    two = t.bool('two')
    cmds = [(c1, 'Бета')] + ([(c2, 'Альфа')] if two else [])
    inc = [[MetaDataTypes[name].value, str(len(cmds))] + [command_lists(name, a, b) for a, b in cmds]]
    configuration(s, [(MetaDataTypes[owner].value, [u])])
    s.lists(u, obj_lists(spec[0], spec[1], header(u, 'Имя'), inc))
    for i, (a, b) in enumerate(cmds):
        s.module(a + '.2', (t.str('code', 0, 2, chars=LINE + '\n') if i == 0 else 'x;').encode('utf-8'))
    there_and_back(t, s, {'auto_include': t.bool('auto')} if not two else None)


def tree(t):
    """objects inside objects, several of a type, in the order of the list; any order of the work items"""
    t.any_schedule()
    s = Src(t)
    a, b, c, d, e = [U % i for i in (0x10, 0x20, 0x30, 0x40, 0x50)]
    sub, mod = MetaDataTypes.Subsystem.value, MetaDataTypes.CommonModule.value
    order = t.choice('order', [[d, e], [e, d]])
    configuration(s, [(sub, [a]), (mod, order)])
    spec = TYPES['Subsystem']
    inner = t.choice('inner', [[b, c], [c, b], [c]])
    s.lists(a, obj_lists(C, spec[1], header(a, 'Верх'), [[sub, str(len(inner))] + inner]))
    for u, n in ((b, 'Бета'), (c, 'Верх')):
        if u in inner:
            s.lists(u, obj_lists(C, spec[1], header(u, n), [[sub, '0']]))
            s.lists(u + '.1', [['1', '"' + n + '"']])
    for u, n in ((d, 'Модуль'), (e, 'Верх')):
        s.lists(u, obj_lists(S, TYPES['CommonModule'][1], header(u, n, comment=t.str('com', 0, 1, chars='a;Я') if u == e else '')))
        s.module(u + '.0', n.encode('utf-8'))
    there_and_back(t, s)


def subsystem(s, u, name, inner=()):
    s.lists(u, obj_lists(C, TYPES['Subsystem'][1], header(u, name), [[MetaDataTypes.Subsystem.value, str(len(inner)), *inner]]))
    s.lists(u + '.1', [['1', '"' + u[6:8] + '"']])


def deep(t, names):
    """objects inside objects inside objects, with the same names in other branches and on other levels"""
    if not names:
        t.any_schedule()
    s = Src(t)
    a, b, c, d, e, f = [U % i for i in (0x10, 0x20, 0x30, 0x40, 0x50, 0x60)]
    names = [t.choice('n' + str(i), ['А', 'Б']) for i in range(4)] if names else ['А'] * 4
    configuration(s, [(MetaDataTypes.Subsystem.value, [a, e])])
    four = t.bool('four')
    subsystem(s, a, 'А', [b])
    subsystem(s, b, names[0], [c])
    subsystem(s, c, names[1], [d] if four else [])
    if four:
        subsystem(s, d, names[2])
    subsystem(s, e, 'Б', [f])
    subsystem(s, f, names[3])
    there_and_back(t, s, {'auto_include': t.bool('auto')})


def deep_sources(t):
    """tables and cubes of an external source, each with commands described inside it"""
    s = Src(t)
    src, t1, t2, q = [U % i for i in (0x10, 0x20, 0x30, 0x40)]
    cmds = {u: [U % (int(u[6:8], 16) + 1 + i) for i in range(n)] for u, n in ((t1, t.choice('n1', [0, 1, 2])), (t2, 1), (q, t.choice('nq', [0, 1])))}
    configuration(s, [(MetaDataTypes.ExternalDataSource.value, [src])])
    spec = TYPES['ExternalDataSource']
    inc = [[MetaDataTypes.ExternalDataSourceCube.value, '1', q], [MetaDataTypes.ExternalDataSourceTable.value, '2', t1, t2]]
    s.lists(src, obj_lists(spec[0], spec[1], header(src, 'Источник'), inc))
    for u, name, kind in ((t1, 'Альфа', 'Table'), (t2, 'Бета', 'Table'), (q, 'Альфа', 'Cube')):
        kind = 'ExternalDataSource' + kind
        spec = TYPES[kind]
        own = [[MetaDataTypes[kind + 'Command'].value, str(len(cmds[u]))] +
               [command_lists(kind + 'Command', c, 'К' + str(i)) for i, c in enumerate(cmds[u])]]
        s.lists(u, obj_lists(spec[0], spec[1], header(u, name), own))
        for c in cmds[u]:
            s.module(c + '.2', c[6:8].encode())
    there_and_back(t, s, {'auto_include': t.bool('auto')})


def groups(t):
    """several groups of types, types the tool does not know, empty types"""
    s = Src(t)
    a, b = U % 0x10, U % 0x20
    unknown = U % 0x77
    x = t.str('x', 0, 2, chars='aЯ ;')
    other = t.choice('other', [[unknown, '0'], [unknown, '1', [['1', '"' + x + '"']]], [MetaDataTypes.CommonForm.value, '0']])
    s.lists('root', [['2', U % 0xF0, '']])
    s.lists('version', [[['216', '0', ['80306', '0']]]])
    s.lists('versions', [['1', '0']])
    del s.brace['versions']
    root = root_lists(header(U % 1, 'К'), [(MetaDataTypes.CommonModule.value, [a])], group2=[(MetaDataTypes.Catalog.value, [b])])
    root[0][3][1].append(other)
    root[0][3][1][2] = '2'
    if t.bool('six'):
        root[0][4][1] = ['6', root[0][4][1]]
    s.lists(U % 0xF0, root)
    s.lists(a, obj_lists(S, TYPES['CommonModule'][1], header(a, 'Имя')))
    s.module(a + '.0', b'x;')
    s.lists(b, obj_lists(C, TYPES['Catalog'][1], header(b, 'Имя'), [[U % 0x78, '1', [['"' + x + '"']]]]))
    s.module(b + '.0', b'y;')
    there_and_back(t, s)


def configuration_files(t):
    """modules, help, splash and the service files of the configuration itself"""
    s = Src(t)
    u = U % 1
    mods = {'7': 'seance', '6': 'app', '0': '802', '5': 'con'}
    infos = ['4', '9', '8', '10', 'a', 'b', 'c', 'd', 'e', 'f']
    names = sorted(mods) + ['3', '2'] + infos
    hot = t.choice('hot', names)
    configuration(s, [])
    there = t.choice('there', ['all', 'only', 'others'])
    for n in names:
        if there == 'only' and n != hot or there == 'others' and n == hot:
            continue
        v = t.str('v', 0, 2, chars='aЯ ;\n') if n == hot else n
        if n in mods:
            s.module(u + '.' + n, v.encode('utf-8'))
        elif n == '3':
            s.lists(u + '.3', html(v.encode('utf-8')))
        elif n == '2':
            s.lists(u + '.2', picture(v.encode('utf-8')))
        else:
            s.lists(u + '.' + n, [['1', '"' + v + '"']])
    there_and_back(t, s)


def extension(s, types, hdr=None, compat='"80306"', product='""', versions='____versions____'):
    s.lists('configinfo', [['0', ['216', '0', ['80306', '0']]], ['4', U % 0xF0, '1'], [versions]])
    root = root_lists(hdr or header(U % 1, 'Расширение'), types, compat=compat, product=product)
    s.lists(U % 0xF0, root)


def extension_files(t):
    s = Src(t)
    u = U % 1
    mods = ['5', '6', '7']
    names = mods + ['8', '9', 'a', 'module']
    hot = t.choice('hot', names)
    there = t.choice('there', ['all', 'only', 'others'])
    m = U % 0x10
    extension(s, [(MetaDataTypes.CommonModule.value, [m])], product='"' + t.str('pv', 0, 2, chars='1.') + '"')
    for n in names:
        if n != 'module' and (there == 'only' and n != hot or there == 'others' and n == hot):
            continue
        v = t.str('v', 0, 2, chars='aЯ ;') if n == hot else n
        if n in mods:
            s.module(u + '.' + n, v.encode('utf-8'))
        elif n == 'module':
            s.lists(m, obj_lists(S, TYPES['CommonModule'][1], header(m, 'Имя')))
            s.module(m + '.0', v.encode('utf-8'))
        else:
            s.lists(u + '.' + n, [['1', '"' + v + '"']])
    there_and_back(t, s)


def processor(s, types, hdr=None, kind='ExternalDataProcessor', version=('216', '0', ['80306', '0'])):
    s.lists('root', [['2', U % 0xF0, '']])
    s.lists('version', [[list(version)]])
    s.lists('copyinfo', [['4', ['0'], ['0'], ['0'], ['0', '0'], ['0']]])
    s.lists('versions', [['1', '0']])
    del s.brace['versions']
    props = ['0', U % 0xC0, '0', ['0', hdr or header(U % 1, 'Обработка')], '0']
    main = ['1', props, str(len(types))] + [[u, str(len(o))] + list(o) for u, o in types]
    s.lists(U % 0xF0, [['2', ['0'], '1', [MetaDataTypes[kind].value, main]]])


def processor_files(t):
    """external processors and external reports"""
    s = Src(t)
    kind = t.choice('kind', ['ExternalDataProcessor', 'ExternalReport'])
    v = t.str('v', 0, 2, chars='aЯ ;\n')
    hot = t.choice('hot', ['form', 'module', 'none'])
    ver = t.choice('version', [('216', '0', ['80306', '0']), ('216', '0'), ('216', '0', ['2', '0'])])
    processor(s, [], kind=kind, version=ver)
    if hot != 'none':
        s.lists(U % 1 + '.1', [['1', '"' + (v if hot == 'form' else 'f') + '"']])
        s.module(U % 1 + '.0', (v if hot == 'module' else 'x;').encode('utf-8'))
    there_and_back(t, s)


def older_processor(t):
    """format 106: the module is a file of its own"""
    s = Src(t)
    processor(s, [], version=('106', '0'))
    s.module(U % 1 + '.0', (t.str('v', 0, 2, chars='aЯ ;') + ';').encode('utf-8'), info=t.choice('place', ['dir', 'file']))
    there_and_back(t, s)


def two_containers(t):
    """a file of two containers: the second one is the product, the first is kept aside, whatever order the folders are listed in"""
    t.any_listdir_order()
    s = Src(t)
    first = s.dir
    data = t.bytes('first', 1, 2)
    put(os.path.join(first, 'dummy', 'text'), data)
    put(os.path.join(first, 'info'), b'i')
    s.dir = os.path.join(t.dir, 's1', '1')
    os.makedirs(s.dir)
    m = U % 0x10
    configuration(s, [(MetaDataTypes.CommonModule.value, [m])])
    s.lists(m, obj_lists(S, TYPES['CommonModule'][1], header(m, 'Имя')))
    s.module(m + '.0', b'x;')
    mid = decode(t, s)
    out = os.path.join(t.dir, 'res')
    decoder.encode(mid, out, pool=t.pool(), options={}, file_name='x.cf')
    t.check_eq(sorted(os.listdir(out)), ['0', '1'], 'containers')
    t.check_eq(get(os.path.join(out, '0', 'dummy', 'text')), data, 'first container')
    t.check_eq(get(os.path.join(out, '0', 'info')), b'i', 'first container')
    s.compare(os.path.join(out, '1'))

# ------------------------------------------------------------------------------------------ C31
META['C31'] = {'bounds': 'modules of 0 to 2 arbitrary bytes, with or without byte order mark, as folder or file; encrypted modules of 0 to 3 bytes; '
                         'edited text of 0 to 2 characters over three encodings; source files removed of modules with text, with bytes, closed; 7 directive lines with 0 to 2 characters before them '
                         '(including the first line), four continuations, three old formats, both places; up to 12 (thorough 40) lines with directives in one module',
               'assumptions': ['no carriage returns in module bytes (universal newlines)']}
CASES['C31'] = [
    dict(func='module_bytes', params={'place': 'dir', 'bom': False}),
    dict(func='module_bytes', params={'place': 'dir', 'bom': True}),
    dict(func='module_bytes', params={'place': 'file', 'bom': False}),
    dict(func='module_bytes', params={'place': 'file', 'bom': True}),
    dict(func='module_encrypted', params={}),
    dict(func='module_edited', params={}),
    dict(func='module_removed', params={}),
    dict(func='directives', params={'place': 'file'}),
    dict(func='directives', params={'place': 'dir'}),
    dict(func='directives_many', params={'n': 12}),
    dict(func='directives_many', params={'n': 40}, tier='thorough'),
    dict(func='directives_edited', params={}),
]
BOM = b'\xef\xbb\xbf'


def one_module(t, data, place='dir', typ='CommonModule'):
    s = Src(t)
    u = U % 0x10
    configuration(s, [(MetaDataTypes[typ].value, [u])])
    spec = TYPES[typ]
    s.lists(u, obj_lists(spec[0], spec[1], header(u, 'Имя')))
    s.module(u + '.0', data, place)
    return s, u


def module_bytes(t, place, bom):
    """whatever the bytes of the module are"""
    data = t.bytes('b', 0, 2)
    for i in range(len(data)):
        t.assume(data[i] != 13)
    s, u = one_module(t, (BOM if bom else b'') + data, place)
    there_and_back(t, s)


def module_encrypted(t):
    """an encrypted module has no text, its contents are kept as they are"""
    data = t.bytes('b', 0, 3)
    s = Src(t)
    u, v = U % 0x10, U % 0x11
    configuration(s, [(MetaDataTypes.CommonModule.value, [u, v])])
    for i, n in ((u, 'Закрытый'), (v, 'Открытый')):
        s.lists(i, obj_lists(S, TYPES['CommonModule'][1], header(i, n)))
    s.lists(u + '.0/info', [['3', '1', '1']])
    s.raw(u + '.0/image', data)
    s.module(v + '.0', b'x;')
    there_and_back(t, s)


def module_edited(t):
    """the text of the source file becomes the module, in the encoding it had"""
    enc, old = t.choice('enc', [('utf-8', 'Старый;'.encode()), ('utf-8-sig', BOM + b'x;'), ('windows-1251', 'Старый;'.encode('windows-1251'))])
    s, u = one_module(t, old)
    mid = decode(t, s)
    path = os.path.join(mid, 'CommonModule', 'Имя', 'CommonModule.obj.bsl')
    t.check_eq(get(path).decode('utf-8-sig'), old.decode(enc), 'the source file is readable text')
    new = t.str('new', 0, 2, chars=LINE + '\n')
    bom = t.bool('bom')
    put(path, (BOM if bom else b'') + new.encode('utf-8'))
    s.bytes[u + '.0/text'] = new.encode(enc)
    s.compare(encode(t, mid))


def module_removed(t):
    """a module whose source file is not there any more is empty, nothing else changes"""
    kind, place = t.choice('kind', ['text', 'bytes', 'closed']), t.choice('place', ['dir', 'file'])
    t.assume(kind != 'closed' or place == 'dir')
    data = t.str('a', 0, 1, chars='aЯ').encode('utf-8') + (b'x;' if kind == 'text' else b'\x98\xff')
    s, u = one_module(t, data, place)
    if kind == 'closed':
        s.raw(u + '.0/image', data)
        del s.bytes[u + '.0/text']
        os.remove(os.path.join(s.dir, u + '.0', 'text'))
    mid = decode(t, s)
    where = os.path.join(mid, 'CommonModule', 'Имя')
    files = [f for f in os.listdir(where) if f.startswith('CommonModule.obj.')]
    t.check_eq(len(files), 1, 'one source file of the module')
    os.remove(os.path.join(where, files[0]))
    s.bytes[u + '.0' + {'dir': '/image' if kind == 'closed' else '/text', 'file': ''}[place]] = b''
    s.compare(encode(t, mid))


DIRECTIVES = ['#Область А', '#КонецОбласти', '&НаСервере', '&НаКлиенте', '&НаСервереБезКонтекста', '&НаКлиентеНаСервереБезКонтекста', '#Область']


def older(t, s, u, data, place):
    processor(s, [], version=t.choice('version', [('216', '0'), ('216', '0', ['2', '0']), ('106', '0')]))
    s.module(u + '.0', data, place)


def directives(t, place):
    """8.1 and 8.2: directives are comments in the built module and real in the sources"""
    s = Src(t)
    d = t.choice('directive', DIRECTIVES)
    bom = t.bool('bom')
    a = t.str('a', 0, 2, chars='x\n#&/')
    t.assume(len(a) == 0 or a[-1] == '\n')
    b = t.choice('b', ['', '\nx;\n// v8unpack &НаСервере\ny;', '\n// #Область', '(1)'])
    for x in DIRECTIVES[:4]:
        t.assume(not a.startswith(x[:2]))
    inside = a + '// v8unpack ' + d + b
    older(t, s, U % 1, (BOM if bom else b'') + inside.encode('utf-8'), place)
    mid = decode(t, s)
    src = get(os.path.join(mid, 'ExternalDataProcessor.obj.bsl')).decode('utf-8-sig')
    t.check_eq(src, a + d + b.replace('// v8unpack ', ''), 'module in the sources')
    s.compare(encode(t, mid, file_name='x.epf'))


def directives_many(t, n):
    """however many directives a module has"""
    s = Src(t)
    where = t.int('where', 0, n - 1)
    d = t.choice('directive', DIRECTIVES[:4])
    lines, source = [], []
    for i in range(n):
        x = d if where == i else DIRECTIVES[i % 4]
        lines.append('// v8unpack ' + x + '\n')
        source.append(x + '\n')
    a = t.str('a', 0, 1, chars='x\n/')
    older(t, s, U % 1, (a + '\n' + ''.join(lines)).encode('utf-8'), t.choice('place', ['dir', 'file']))
    mid = decode(t, s)
    t.check_eq(get(os.path.join(mid, 'ExternalDataProcessor.obj.bsl')).decode('utf-8-sig'), a + '\n' + ''.join(source), 'module in the sources')
    s.compare(encode(t, mid, file_name='x.epf'))


def directives_edited(t):
    """no directive at the start of a line is left in the built module"""
    s = Src(t)
    d = t.choice('directive', DIRECTIVES)
    a = t.str('a', 0, 2, chars='x\n \t')
    older(t, s, U % 1, b'x;', 'dir')
    mid = decode(t, s)
    start = len(a) == 0 or a[-1] == '\n'
    put(os.path.join(mid, 'ExternalDataProcessor.obj.bsl'), (a + d + '\nx;').encode('utf-8'))
    s.bytes[U % 1 + '.0/text'] = (a + ('// v8unpack ' if start else '') + d + '\nx;').encode('utf-8')
    s.compare(encode(t, mid, file_name='x.epf'))


# ------------------------------------------------------------------------------------------ C32
META['C32'] = {'bounds': 'ten kinds of templates, in an object and common ones, data of 0 to 3 arbitrary bytes (text: 0 to 3 characters with and without '
                         'byte order mark); comments of 0 to 2 arbitrary characters or ending in one of eight words; pictures and help documents '
                         'of 0 to 2 bytes in every form, and of about 130 bytes; edited data of 0 to 3 bytes; documents of 1000001 to 3000000 '
                         'arbitrary bytes',
               'assumptions': ['binary data of templates is stored the way the platform does it, as one base64 value on lines of its own',
                               'text templates without carriage returns']}
TMPL = {'table': ('0', 'raw'), 'base64': ('1', 'data'), 'active_doc': ('2', 'raw'), 'html': ('3', 'html'), 'text': ('4', 'text'),
        'geographic': ('5', 'raw'), 'scheme': ('6', 'raw'), 'design': ('7', 'raw'), 'graphic_scheme': ('8', 'raw'), 'extension': ('9', 'data')}
CASES['C32'] = [dict(func='template', params={'kind': k, 'common': c}) for k in TMPL for c in (False, True)] + [
    dict(func='template_comment', params={}),
    dict(func='template_edited', params={}),
    dict(func='template_no_file', params={}),
    dict(func='picture_comment', params={}),
    dict(func='picture_forms', params={}),
    dict(func='picture_edited', params={}),
    dict(func='help_forms', params={}),
    dict(func='help_edited', params={}),
    dict(func='big_document', params={'what': 'help'}),
    dict(func='big_document', params={'what': 'template'}),
]
NAMED = {'jpg': 'jpg', 'docx': 'docx', 'xml': 'xml', 'JSON': 'JSON'}


def b64(data):
    import base64
    return base64.b64encode(data).decode()


def binary_template(data):
    return ('\ufeff{1,\n{#base64:' + b64(data) + '}\n}').encode('utf-8')


def template_source(t, kind, common, comment='', data=None):
    """a product with one template; returns source, its identifier and the folder of its sources"""
    s = Src(t)
    u, d = U % 0x10, U % 0x20
    code, what = TMPL[kind]
    if common:
        configuration(s, [(MetaDataTypes.CommonTemplate.value, [u])])
        s.lists(u, [['1', ['4', header(u, 'Макет', comment), code]]])
        place = ['CommonTemplate', 'Макет', 'CommonTemplate']
    else:
        configuration(s, [(MetaDataTypes.DataProcessor.value, [d])])
        spec = TYPES['DataProcessor']
        s.lists(d, obj_lists(spec[0], spec[1], header(d, 'Обработка'), [[MetaDataTypes.Template.value, '1', u]]))
        s.lists(u, [['1', ['2', code, header(u, 'Макет', comment)]]])
        place = ['DataProcessor', 'Обработка', 'Template', 'Макет', 'Template']
    return s, u, os.path.join(t.dir, 's3', *place)


def template_data(t, s, u, kind, data=None):
    """the file of the template; returns the data"""
    what = TMPL[kind][1]
    name = u + '.0'
    if what == 'raw':
        data = t.bytes('data', 0, 3) if data is None else data
        s.raw(name, data)
    elif what == 'text':
        data = ((BOM if t.bool('bom') else b'') + t.str('text', 0, 3, chars=LINE + '\n').encode('utf-8')) if data is None else data
        s.raw(name, data)
    elif what == 'html':
        data = t.bytes('data', 0, 3) if data is None else data
        s.lists(name, html(data))
    else:
        data = t.bytes('data', 0, 3) if data is None else data
        s.raw(name, binary_template(data))
    return data


def template(t, kind, common):
    """the data of a template of any kind come back"""
    s, u, folder = template_source(t, kind, common)
    template_data(t, s, u, kind)
    there_and_back(t, s)


def ends_with(comment):
    return comment.strip().split(' ')[-1]


def template_comment(t):
    """whatever the last word of the comment is"""
    word = t.choice('word', [None, 'json', 'c1b64', 'JSON', 'bin', 'jpg', 'bsl', 'id', 'txt'])
    comment = t.str('comment', 0, 2, chars='a. /;Я') if word is None else 'Файл ' + word
    s, u, folder = template_source(t, 'base64', t.bool('common'), comment)
    template_data(t, s, u, 'base64')
    there_and_back(t, s)


def template_edited(t):
    """what is put into the source file is what is built"""
    kind, ext = t.choice('kind', [('table', 'mxl'), ('scheme', 'bin'), ('text', 'txt'), ('html', 'html'), ('base64', 'jpg')])
    s, u, folder = template_source(t, kind, False, comment='Логотип jpg' if kind == 'base64' else '')
    template_data(t, s, u, kind, data=b'old')
    mid = decode(t, s)
    path = folder + '.' + ext
    if kind == 'base64':
        os.remove(folder + '.c1b64')
    else:
        t.check_eq(get(path), b'old', 'data of the template in the sources')
    new = t.str('new', 0, 2, chars='aЯ;').encode('utf-8')
    put(path, new)
    if kind == 'html':
        s.brace[u + '.0'] = html(new)
    elif kind == 'base64':
        s.bytes[u + '.0'] = binary_template(new)
    else:
        s.bytes[u + '.0'] = new
    s.compare(encode(t, mid))


def template_no_file(t):
    """an empty template has no file"""
    kind = t.choice('kind', sorted(TMPL))
    s, u, folder = template_source(t, kind, t.bool('common'))
    there_and_back(t, s)


def picture_source(t, comment, lists):
    s = Src(t)
    u = U % 0x10
    configuration(s, [(MetaDataTypes.CommonPicture.value, [u])])
    spec = TYPES['CommonPicture']
    s.lists(u, obj_lists(spec[0], spec[1], header(u, 'Картинка', comment)))
    if lists is not None:
        s.lists(u + '.0', lists)
    return s, u


def picture_comment(t):
    word = t.choice('word', [None, 'json', 'c1b64', 'JSON', 'bin', 'png', 'bsl', 'id'])
    comment = t.str('comment', 0, 2, chars='a. /;Я') if word is None else 'Файл ' + word
    s, u = picture_source(t, comment, picture(t.bytes('data', 1, 2)))
    there_and_back(t, s)


LONG = bytes(range(3, 255, 2))


def picture_forms(t):
    """with and without data"""
    form = t.choice('form', ['none', '##base64:', '#data:', 'empty', 'no data', 'long'])
    data = t.bytes('data', 0, 2)
    if form == 'long':
        form, data = '##base64:', data + LONG
    x = t.str('x', 0, 1, chars='aЯ')
    lists = None if form == 'none' else [['1', '"' + x + '"', [['']]]] if form == 'empty' else [['1', '"' + x + '"', '']] if form == 'no data' else \
        [['1', '"' + x + '"', [[form + b64(data)]]]]
    s, u = picture_source(t, 'a png', lists)
    if lists:
        s.as_read(u + '.0')
    there_and_back(t, s)


def picture_edited(t):
    s, u = picture_source(t, 'Логотип png', picture(b'old'))
    mid = decode(t, s)
    path = os.path.join(mid, 'CommonPicture', 'Картинка', 'CommonPicture.png')
    t.check_eq(get(path), b'old', 'picture in the sources')
    new = t.bytes('new', 0, 3)
    put(path, new)
    s.brace[u + '.0'] = picture(new)
    s.compare(encode(t, mid))


HELP_OWNERS = ['Catalog', 'CommonCommand', 'Subsystem', 'ExchangePlan', None]


def help_source(t, lists):
    """an object (or the configuration itself) with a help document"""
    owner = t.choice('owner', HELP_OWNERS)
    s = Src(t)
    u = U % 0x10
    if owner is None:
        configuration(s, [])
        name, path = U % 1 + '.3', ['help.html']
    else:
        configuration(s, [(MetaDataTypes[owner].value, [u])])
        spec = TYPES[owner]
        s.lists(u, obj_lists(spec[0], spec[1], header(u, 'Имя')))
        name = u + '.' + [n for n, w in spec[3].items() if w == 'help'][0]
        path = [owner, 'Имя', owner + '.html']
    if isinstance(lists, list):
        s.lists(name, lists)
    else:
        s.raw(name, lists)
    return s, name, os.path.join(t.dir, 's3', *path)


def help_forms(t):
    form = t.choice('form', ['##base64:', '#data:', 'empty', 'short', 'long'])
    data = t.bytes('data', 0, 2)
    if form == 'long':
        form, data = '##base64:', data + LONG
    x = t.str('x', 0, 1, chars='aЯ')
    head = ['1', '"' + x + '"', '0']
    lists = [head + [['']]] if form == 'empty' else [head] if form == 'short' else [head + [[form + b64(data)], '7']]
    s, name, path = help_source(t, lists)
    s.as_read(name)
    there_and_back(t, s)


def help_edited(t):
    s, name, path = help_source(t, html(b'old'))
    mid = decode(t, s)
    t.check_eq(get(path), b'old', 'help in the sources')
    new = t.bytes('new', 0, 3)
    put(path, new)
    s.brace[name] = html(new)
    s.compare(encode(t, mid))


def big_document(t, what):
    """documents of more than a megabyte are kept as they are"""
    data = t.blob('data', 1000001, 3000000)
    if what == 'help':
        s, name, path = help_source(t, data)
    else:
        s, u, folder = template_source(t, 'html', t.bool('common'))
        s.raw(u + '.0', data)
        path = folder + '.html'
    mid, res = there_and_back(t, s)
    t.check_eq(get(path[:-4] + 'bin'), data, 'document in the sources')


# ------------------------------------------------------------------------------------------ C33
META['C33'] = {'bounds': 'three prefixes, names of 2 to 4 characters over the letters of the prefixes in one of seven places at a time, three '
                         'prefixes (or none) on build; every supported type of the top level with its identifier replaced, nested objects, '
                         'commands, templates, the four identifiers of an 8.3 processor',
               'assumptions': ['replaced identifiers are uuids no other part of the product contains']}
CASES['C33'] = [dict(func='prefix', params={'hot': h}) for h in ('own', 'borrowed', 'nested', 'command', 'product', 'template', 'short')] + [
    dict(func='prefix_extension', params={}),
    dict(func='prefix_processor', params={}),
] + [dict(func='new_identity', params={'group': g}) for g in range(6)] + [
    dict(func='new_identity_nested', params={}),
    dict(func='new_manager', params={}),
]
NAMES = {'own': (True, 'CommonModule'), 'short': (True, 'CommonModule'), 'borrowed': (False, 'CommonModule'), 'nested': (False, None),
         'command': (False, None), 'template': (True, 'CommonTemplate'), 'product': (False, None)}


def read_json(path):
    import json
    with open(path, 'r', encoding='utf-8') as f:
        return json.load(f)


def write_json(path, data):
    import json
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(data, f, ensure_ascii=False)


def name_in(lists, place):
    for i in place:
        lists = lists[i]
    return lists[2][1:-1]


def prefix(t, hot):
    """objects of the top level that are not borrowed lose the prefix on extract and get one on build, all others keep their names"""
    pre = t.choice('prefix', ['px', 'п_', 'p'])
    name = t.str('name', 1, 3, chars='pxп_') + 'Z'
    put_back = t.choice('back', ['same', 'q_', None])
    n = {k: 'px' + k.capitalize() for k in NAMES}
    n[hot] = name
    u = {k: U % (0x10 + i) for i, k in enumerate(sorted(NAMES))}
    s = Src(t)
    cat, sub = U % 0x30, U % 0x31
    configuration(s, [(MetaDataTypes.CommonModule.value, [u['own'], u['short'], u['borrowed']]), (MetaDataTypes.CommonTemplate.value, [u['template']])],
                  hdr=header(U % 1, n['product']), group2=[(MetaDataTypes.Catalog.value, [cat]), (MetaDataTypes.Subsystem.value, [sub])])
    for k in ('own', 'borrowed', 'short'):
        h = header(u[k], n[k], borrowed='1' if k == 'borrowed' else '0')
        if k == 'short':
            h = h[:5]
        s.lists(u[k], obj_lists(S, TYPES['CommonModule'][1], h))
        s.module(u[k] + '.0', k.encode())
    s.lists(u['template'], [['1', ['4', header(u['template'], n['template']), '4']]])
    cmds = [[MetaDataTypes.CatalogCommand.value, '1', command_lists('CatalogCommand', u['command'], n['command'])]]
    s.lists(cat, obj_lists(C, TYPES['Catalog'][1], header(cat, 'ZКаталог'), cmds))
    s.module(u['command'] + '.2', b'c')
    s.lists(sub, obj_lists(C, TYPES['Subsystem'][1], header(sub, 'ZСистема'), [[MetaDataTypes.Subsystem.value, '1', u['nested']]]))
    s.lists(u['nested'], obj_lists(C, TYPES['Subsystem'][1], header(u['nested'], n['nested']), [[MetaDataTypes.Subsystem.value, '0']]))
    mid = decode(t, s, {'prefix': pre})
    top, typ = NAMES[hot]
    inner = name[len(pre):] if top and name.startswith(pre) else name
    if typ:
        t.check(os.path.isfile(os.path.join(mid, typ, inner, typ + '.json')), 'folder of the object is named without the prefix')
    back = pre if put_back == 'same' else put_back
    res = encode(t, mid, {} if back is None else {'prefix': back})
    add = back or ''
    places = {'own': (u['own'], [0, 1, 1]), 'short': (u['short'], [0, 1, 1]), 'borrowed': (u['borrowed'], [0, 1, 1]), 'nested': (u['nested'], [0, 1, 1]),
              'template': (u['template'], [0, 1, 1]), 'product': (U % 0xF0, [0, 3, 1, 1, 1, 1]), 'command': (cat, [0, 3, 2] + COMMANDS['CatalogCommand'])}
    for k, (f, place) in places.items():
        lists = helper.brace_file_read(res, f)
        got = name_in(lists, place)
        if NAMES[k][0]:
            want = add + (n[k][len(pre):] if n[k].startswith(pre) else n[k])
        else:
            want = n[k]
        t.check_eq(got, want, 'name of the object: ' + k)
    for f in s.bytes:
        t.check_eq(get(os.path.join(res, f)), s.bytes[f], 'contents of ' + f)


def prefix_extension(t):
    """the prefix of an extension is set on build, its own name stays"""
    s = Src(t)
    m = U % 0x10
    name = t.str('name', 1, 3, chars='px_')
    extension(s, [(MetaDataTypes.CommonModule.value, [m])], hdr=header(U % 1, name))
    s.lists(m, obj_lists(S, TYPES['CommonModule'][1], header(m, 'px_Имя')))
    s.module(m + '.0', b'x;')
    mid = decode(t, s, {'prefix': 'px_'})
    back = t.choice('back', ['px_', 'q', '', None])
    res = encode(t, mid, {} if back is None else {'prefix': back})
    want = copy(s.brace[U % 0xF0])
    if back is not None:
        want[0][3][1][1][42] = '"' + back + '"'
    t.check_eq(helper.brace_file_read(res, U % 0xF0), want, 'description of the extension')
    t.check_eq(name_in(helper.brace_file_read(res, m), [0, 1, 1]), (back or '') + 'Имя', 'name of the module')


def prefix_processor(t):
    """objects of an external processor are its top level, the processor itself keeps its name"""
    s = Src(t)
    m = U % 0x10
    name = t.str('name', 1, 3, chars='px_') + 'Z'
    place = t.choice('place', ['processor', 'template'])
    processor(s, [(MetaDataTypes.Template.value, [m])], hdr=header(U % 1, name if place == 'processor' else 'px_Обработка'))
    s.lists(m, [['1', ['2', '4', header(m, name if place == 'template' else 'px_Макет')]]])
    s.raw(m + '.0', b'text')
    mid = decode(t, s, {'prefix': 'px_'})
    res = encode(t, mid, {'prefix': 'px_'})
    got = helper.brace_file_read(res, U % 0xF0)
    t.check_eq(got, s.brace[U % 0xF0], 'description of the processor')
    n = name_in(s.brace[m], [0, 1, 2])
    t.check_eq(name_in(helper.brace_file_read(res, m), [0, 1, 2]), n if n.startswith('px_') else 'px_' + n, 'name of the template')


NEW = '0000beef-0000-4000-8000-%012x'


def rename(s, old, new):
    """the same product with another identifier"""
    def f(x):
        return [f(y) for y in x] if isinstance(x, list) else x.replace(old, new)
    s.brace = {k.replace(old, new): f(v) for k, v in s.brace.items()}
    s.bytes = {k.replace(old, new): v for k, v in s.bytes.items()}


def new_id(mid, path, key, new):
    p = os.path.join(mid, path + '.id.json')
    d = read_json(p)
    d[key] = new
    write_json(p, d)


def new_identity(t, group):
    """changing the identifier in the id file changes it everywhere in the product"""
    name = t.choice('type', sorted(TYPES)[group::6])
    spec = TYPES[name]
    s = Src(t)
    u = U % 0x10
    configuration(s, [(MetaDataTypes[name].value, [u])])
    s.lists(u, obj_lists(spec[0], spec[1], header(u, 'Имя')))
    fill(t, s, u, spec, None)
    mid = decode(t, s, {'auto_include': True})
    new = NEW % 1
    new_id(mid, os.path.join(name, 'Имя', name), 'uuid', new)
    text = t.str('text', 0, 2, chars='aЯ')
    if spec[2]:
        m, num = sorted(spec[2].items())[0]
        if (u + '.' + str(num) + '/text') in s.bytes:
            put(os.path.join(mid, name, 'Имя', name + '.' + m + '.bsl'), text.encode('utf-8'))
            s.bytes[u + '.' + str(num) + '/text'] = text.encode('utf-8')
    rename(s, u, new)
    s.compare(encode(t, mid, {'auto_include': True}))


def new_identity_nested(t):
    """so does the identifier of a command, a template or a nested object; the owner lists the new one"""
    s = Src(t)
    cat, c1, c2, tm, sub, inner = [U % (0x10 + i) for i in range(6)]
    configuration(s, [(MetaDataTypes.Catalog.value, [cat])], group2=[(MetaDataTypes.Subsystem.value, [sub])])
    if t.bool('six'):       # the second group in the form a newer platform gives it
        root = copy(s.brace[U % 0xF0])
        root[0][4][1] = ['6', root[0][4][1]]
        s.lists(U % 0xF0, root)
    inc = [[MetaDataTypes.CatalogCommand.value, '2', command_lists('CatalogCommand', c1, 'Альфа'), command_lists('CatalogCommand', c2, 'Бета')],
           [MetaDataTypes.Template.value, '1', tm]]
    s.lists(cat, obj_lists(C, TYPES['Catalog'][1], header(cat, 'Имя'), inc))
    s.module(c1 + '.2', b'1')
    s.module(c2 + '.2', b'2')
    s.lists(tm, [['1', ['2', '4', header(tm, 'Макет')]]])
    s.raw(tm + '.0', b'text')
    s.lists(sub, obj_lists(C, TYPES['Subsystem'][1], header(sub, 'Имя'), [[MetaDataTypes.Subsystem.value, '1', inner]]))
    s.lists(inner, obj_lists(C, TYPES['Subsystem'][1], header(inner, 'Внутри'), [[MetaDataTypes.Subsystem.value, '0']]))
    mid = decode(t, s, {'auto_include': True})
    which, path = t.choice('which', [(cat, 'Catalog/Имя/Catalog'), (c1, 'Catalog/Имя/CatalogCommand/Альфа/CatalogCommand'),
                                     (c2, 'Catalog/Имя/CatalogCommand/Бета/CatalogCommand'), (tm, 'Catalog/Имя/Template/Макет/Template'),
                                     (sub, 'Subsystem/Имя/Subsystem'), (inner, 'Subsystem/Имя/Subsystem/Внутри/Subsystem')])
    new_id(mid, path, 'uuid', NEW % 1)
    rename(s, which, NEW % 1)
    s.compare(encode(t, mid, {'auto_include': True}))


def new_manager(t):
    """a processor of 8.3 has four more identifiers in the id file"""
    s = Src(t)
    u = U % 0x10
    configuration(s, [(MetaDataTypes.DataProcessor.value, [u])])
    data = obj_lists(C, TYPES['DataProcessor'][1], header(u, 'Имя'))
    ids = [NEW % (0x100 + i) for i in range(4)]
    for i, n in zip(ids, (1, 2, 7, 8)):
        data[0][1][n] = i
    s.lists(u, data)
    auto = t.bool('auto')
    mid = decode(t, s, {'auto_include': True} if auto else {})
    for i in ids:
        t.check(i not in get(os.path.join(mid, 'DataProcessor', 'Имя', 'DataProcessor.json')).decode(), 'the description has no identifiers')
    n = t.int('n', 0, 3).__index__()
    new_id(mid, 'DataProcessor/Имя/DataProcessor', 'manager_uuid%d' % (n + 1), NEW % 1)
    rename(s, ids[n], NEW % 1)
    s.compare(encode(t, mid, {'auto_include': True} if auto else {}))


# ------------------------------------------------------------------------------------------ C34
META['C34'] = {'bounds': 'compatibility modes 8030x, two values of the option (or none) on each side; edited modes 803 plus 1 or 2 digits; versions '
                         'of 0 to 2 characters, edited with or without a byte order mark; comments of 0 to 2 characters over the letters of the mark before one of six endings; tool '
                         'versions with components of 1 or 2 digits (0 to 20 for the comparison)',
               'assumptions': []}
CASES['C34'] = [dict(func='compatibility', params={'ext': e}) for e in (False, True)] + [
    dict(func='compatibility_edited', params={}),
    dict(func='product_version', params={}),
] + [dict(func="version_comment", params={"what": w}) for w in ("processor", "inside")
] + [
    dict(func='version_gate', params={}),
    dict(func='version_gate_numbers', params={}),
]


def compatibility(t, ext):
    """the version option replaces the compatibility mode on extract and on build; nothing else changes"""
    s = Src(t)
    old = '8030' + t.str('old', 1, 1, chars='0123456789')
    m = U % 0x10
    (extension if ext else configuration)(s, [(MetaDataTypes.CommonModule.value, [m])], compat=old)
    s.lists(m, obj_lists(S, TYPES['CommonModule'][1], header(m, 'Имя')))
    s.module(m + '.0', b'x;')
    a = t.choice('extract', [None, '80314', '80327'])
    b = t.choice('build', [None, '80316', '80327'])
    mid = decode(t, s, {} if a is None else {'version': a})
    main = 'ConfigurationExtension' if ext else 'Configuration'
    t.check_eq(read_json(os.path.join(mid, main + '.json'))['compatibility_version'], a or old, 'compatibility version in the sources')
    s.brace[U % 0xF0][0][3][1][1][43 if ext else 26] = b or a or old
    s.compare(encode(t, mid, {} if b is None else {'version': b}))


def compatibility_edited(t):
    """the value in the sources is what is built"""
    s = Src(t)
    ext = t.bool('ext')
    (extension if ext else configuration)(s, [], compat='80306')
    mid = decode(t, s)
    p = os.path.join(mid, ('ConfigurationExtension' if ext else 'Configuration') + '.json')
    d = read_json(p)
    new = '803' + t.str('new', 1, 2, chars='0123456789')
    d['compatibility_version'] = new
    write_json(p, d)
    s.brace[U % 0xF0][0][3][1][1][43 if ext else 26] = new
    s.compare(encode(t, mid))


def product_version(t):
    """the version of an extension is a file of the sources, what is in it is built, with the product in batch builds"""
    s = Src(t)
    old = t.str('old', 0, 2, chars='1._')
    extension(s, [], product='"' + old + '"')
    mid = decode(t, s)
    p = os.path.join(mid, 'version.bin')
    t.check_eq(get(p).decode('utf-8'), old, 'version in the sources')
    edit = t.bool('edit')
    new = t.str('new', 0, 2, chars='1._') if edit else old
    if edit:
        put(p, new.encode(t.choice('enc', ['utf-8', 'utf-8-sig'])))
    product = t.choice('product', [None, 'П1'])
    s.brace[U % 0xF0][0][3][1][1][15] = '"' + (product + '_' if product else '') + new + '"'
    s.compare(encode(t, mid, {'product': product} if product else {}))


def version_comment(t, what):
    """a comment with ver: receives the version on build, any other stays"""
    s = Src(t)
    comment = t.str('comment', 0, 2, chars='ver:a ') + t.choice('mark', ['', 'ver:', 'ver:1', 'ver', 'vers: ver:x', 'ver:1 ver:2'])
    version = t.choice('version', [None, '1.2'])
    d = U % 0x10
    if what == 'processor':
        processor(s, [], hdr=header(U % 1, 'Обработка', comment))
    else:
        configuration(s, [(MetaDataTypes.DataProcessor.value, [d])])
        s.lists(d, obj_lists(C, TYPES['DataProcessor'][1], header(d, 'Обработка', comment)))
    mid = decode(t, s)
    if version:
        put(os.path.join(mid, 'version.bin'), version.encode('utf-8'))
    res = encode(t, mid, {}, 'имя.epf')
    want = comment
    if version and 'ver:' in comment:
        want = comment[:comment.find('ver:') + 4] + ('имя.epf:' if what == 'processor' else '') + version
    s.brace[U % 0xF0 if what == 'processor' else d] = None
    f = U % 0xF0 if what == 'processor' else d
    lists = helper.brace_file_read(res, f)
    h = lists[0][3][1][1][3][1] if what == 'processor' else lists[0][1][3][1]
    t.check_eq(h[4], '"' + want + '"', 'comment')
    h[4] = '"' + comment + '"'
    src = helper.brace_file_read(s.dir, f)
    t.check_eq(lists, src, 'description but for the comment')


def version_gate(t):
    """sources of another minor version of the tool are refused, of the same one accepted, for every kind of product"""
    s = Src(t)
    kind = t.choice('kind', ['configuration', 'extension', 'processor'])
    {'configuration': configuration, 'extension': extension, 'processor': processor}[kind](s, [])
    mid = decode(t, s)
    main = {'configuration': 'Configuration', 'extension': 'ConfigurationExtension', 'processor': 'ExternalDataProcessor'}[kind]
    p = os.path.join(mid, main + '.json')
    d = read_json(p)
    have = version.__version__
    t.check_eq(d['v8unpack'], have, 'version in the sources')
    a = t.choice('change', ['none', 'patch', 'minor', 'major', 'missing', 'short', 'minor up'])
    v = have.split('.')
    if a == 'patch':
        v[2] = t.str('patch', 1, 2, chars='0123456789')
    elif a == 'minor':
        v[1] = t.str('minor', 1, 2, chars='0123456789')
        t.assume(int(v[1]) != int(have.split('.')[1]))
    elif a == 'minor up':
        v[1] += '0'
    elif a == 'major':
        v[0] = t.str('major', 1, 2, chars='0123456789')
        t.assume(int(v[0]) != int(have.split('.')[0]))
    elif a == 'short':
        v = v[:2]
    d['v8unpack'] = '.'.join(v)
    if a == 'missing':
        del d['v8unpack']
    write_json(p, d)
    try:
        res = encode(t, mid)
    except (ExtException, AssertionError):
        t.check(a not in ('none', 'patch'), 'sources of the same version are built')
        return
    t.check(a in ('none', 'patch'), 'sources of another version are refused')
    s.compare(res)


def version_gate_numbers(t):
    """versions are compared as numbers, major and minor"""
    a = [t.int('a%d' % i, 0, 20) for i in range(3)]
    b = [t.int('b%d' % i, 0, 20) for i in range(3)]
    ok = True
    try:
        helper.check_version('.'.join(str(x) for x in a), '.'.join(str(x) for x in b))
    except AssertionError:
        ok = False
    t.check_eq(ok, bool(a[0] == b[0] and a[1] == b[1]), 'verdict of check_version')


# ------------------------------------------------------------------------------------------ C35
META['C35'] = {'bounds': '1 to 3 objects with names of 1 or 2 characters over seven letters, in the product, inside an object, described inside an '
                         'object, in a processor; every processing order where sorting is decided; any subset removed, one added, the first added',
               'assumptions': ['sources of auto_include are built with auto_include']}
CASES['C35'] = [
    dict(func='auto_sorted', params={'where': w}) for w in ('product', 'nested', 'commands', 'deep')] + [
    dict(func='order_kept', params={'where': w}) for w in ('product', 'nested', 'commands', 'deep')] + [
    dict(func='auto_added', params={'where': w}) for w in ('product', 'nested', 'commands', 'deep')] + [
    dict(func='auto_removed', params={'where': w}) for w in ('product', 'nested', 'commands', 'deep')] + [
    dict(func='auto_added_removed_in_processor', params={}),
] + [dict(func='auto_first', params={'where': w}) for w in ('product', 'nested', 'commands', 'deep')] + [
]


def several(t, where, names):
    """a product with several objects of a type on the top level, inside an object, or described inside it"""
    s = Src(t)
    us = [U % (0x10 + i) for i in range(len(names))]
    cat = U % 0x30
    mod = MetaDataTypes.CommonModule.value
    if where == 'product':
        configuration(s, [(mod, us)])
        for u, n in zip(us, names):
            s.lists(u, obj_lists(S, TYPES['CommonModule'][1], header(u, n)))
            s.module(u + '.0', u[6:8].encode())
        return s, us, 'CommonModule', U % 0xF0, [0, 3, 1, 3]
    if where == 'deep':
        configuration(s, [(MetaDataTypes.Subsystem.value, [cat])])
        subsystem(s, cat, 'Верх', [U % 0x32])
        subsystem(s, U % 0x32, 'Внутри', us)
        for u, n in zip(us, names):
            subsystem(s, u, n)
        return s, us, os.path.join('Subsystem', 'Верх', 'Subsystem', 'Внутри', 'Subsystem'), U % 0x32, [0, 3]
    typ = 'Template' if where == 'nested' else 'CatalogCommand'
    keep = U % 0x31
    configuration(s, [(MetaDataTypes.Catalog.value, [cat]), (mod, [keep])])
    s.lists(keep, obj_lists(S, TYPES['CommonModule'][1], header(keep, 'Модуль')))
    s.module(keep + '.0', b'k')
    if where == 'nested':
        inc = [[MetaDataTypes.Template.value, str(len(us))] + us]
        for u, n in zip(us, names):
            s.lists(u, [['1', ['2', '4', header(u, n)]]])
            s.raw(u + '.0', u[6:8].encode())
    else:
        inc = [[MetaDataTypes.CatalogCommand.value, str(len(us))] + [command_lists(typ, u, n) for u, n in zip(us, names)]]
        for u, n in zip(us, names):
            s.module(u + '.2', u[6:8].encode())
    s.lists(cat, obj_lists(C, TYPES['Catalog'][1], header(cat, 'Каталог'), inc))
    return s, us, os.path.join('Catalog', 'Каталог', typ), cat, [0, 3]


def listed(s, name, place, change):
    x = s.brace[name]
    for i in place:
        x = x[i]
    items = change(x[2:])
    x[1:] = [str(len(items))] + items


NAME_CHARS = 'AZaЁя_1'


def auto_sorted(t, where):
    """with auto_include the objects of a type are listed by name, in whatever order they were and are processed"""
    t.any_schedule()
    a, b = t.str('a', 1, 2, chars=NAME_CHARS), 'Z'
    t.assume(a != b)
    names = t.choice('order', [[a, b], [b, a]])
    if where == 'product':
        t.assume(a != 'M')
        names.append('M')
    s, us, folder, f, place = several(t, where, names)
    mid = decode(t, s, {'auto_include': True})
    res = encode(t, mid, {'auto_include': True})
    order = sorted(range(len(names)), key=lambda i: names[i])
    listed(s, f, place, lambda items: [items[i] for i in order])
    s.compare(res)


def order_kept(t, where):
    """without it they stay in the order they were"""
    t.any_schedule()
    names = t.choice('order', [['A', 'B'], ['B', 'A']])
    s, us, folder, f, place = several(t, where, names)
    there_and_back(t, s)


def auto_added(t, where):
    """a folder put beside the others - taken from another product - is part of the product"""
    import shutil
    name = t.str('name', 1, 1, chars=NAME_CHARS)
    t.assume(name != 'M')
    t.assume(name != 'T')
    three, us, folder, f, place = several(t, where, ['M', 'T', name])
    two, _, _, _, _ = several_again(t, where, ['M', 'T'])
    mid = decode(t, three, {'auto_include': True})
    other = os.path.join(t.dir, 'two3')
    decoder.decode(os.path.join(t.dir, 'two1'), other, pool=t.pool(), options={'auto_include': True})
    shutil.copytree(os.path.join(mid, folder, name), os.path.join(other, folder, name))
    res = encode(t, other, {'auto_include': True})
    order = sorted(range(3), key=lambda i: ['M', 'T', name][i])
    listed(three, f, place, lambda items: [items[i] for i in order])
    three.compare(res)


def auto_first(t, where):
    """the first object of a type the product had none of"""
    import shutil
    name = t.str('name', 1, 2, chars=NAME_CHARS)
    one, us, folder, f, place = several(t, where, [name])
    several_again(t, where, [])
    mid = decode(t, one, {'auto_include': True})
    other = os.path.join(t.dir, 'two3')
    decoder.decode(os.path.join(t.dir, 'two1'), other, pool=t.pool(), options={'auto_include': True})
    shutil.copytree(os.path.join(mid, folder), os.path.join(other, folder))
    one.compare(encode(t, other, {'auto_include': True}))


def several_again(t, where, names):
    class Dir:
        dir = os.path.join(t.dir, 'second')
    t2 = Dir()
    out = several(t2, where, names)
    os.rename(os.path.join(t2.dir, 's1'), os.path.join(t.dir, 'two1'))
    return out


def auto_removed(t, where):
    """a folder taken away is not, even if it was the last one"""
    import shutil
    k = t.choice('left', [0, 1, 2])
    folder_stays = t.bool('folder')
    name = t.str('name', 1, 1, chars='AzЯ')
    names = ['M', 'T', name]
    s, us, folder, f, place = several(t, where, names)
    mid = decode(t, s, {'auto_include': True})
    left = names[:k]
    for n in names[k:]:
        shutil.rmtree(os.path.join(mid, folder, n))
    if not k and not folder_stays:
        os.rmdir(os.path.join(mid, folder))
    res = encode(t, mid, {'auto_include': True})
    listed(s, f, place, lambda items: items[:k])
    for u in us[k:]:
        for d in (s.brace, s.bytes):
            for n in [x for x in d if x.startswith(u)]:
                del d[n]
    s.compare(res)


def auto_added_removed_in_processor(t):
    """the same for the objects of an external processor"""
    import shutil
    a, b = U % 0x10, U % 0x11
    k = t.choice('removed', [(), (a,), (b,), (a, b)])
    s = Src(t)
    processor(s, [(MetaDataTypes.Template.value, [b, a])])
    text = t.str('text', 0, 2, chars='aЯ')
    for u, n in ((a, 'А'), (b, 'Б')):
        s.lists(u, [['1', ['2', '4', header(u, n)]]])
        s.raw(u + '.0', text.encode('utf-8'))
    mid = decode(t, s, {'auto_include': True})
    for u, n in ((a, 'А'), (b, 'Б')):
        if u in k:
            shutil.rmtree(os.path.join(mid, 'Template', n))
            del s.brace[u], s.bytes[u + '.0']
    res = encode(t, mid, {'auto_include': True})
    listed(s, U % 0xF0, [0, 3, 1, 3], lambda items: [u for u in (a, b) if u not in k])
    s.compare(res)
