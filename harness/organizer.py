"""Stage 4: code areas, shared folders, index, versions of files, form element areas."""
import json
import os


def preload():
    global helper, OrganizerFile, OrganizerFileCE, index_mod
    from v8unpack import helper, index as index_mod
    from v8unpack.organizer_file import OrganizerFile
    from v8unpack.organizer_file_ce import OrganizerFileCE


LINE = ' \t#&/aЯ;"|{'
META = {
    'C20': {'bounds': 'modules of up to 9 lines: every nesting of ordinary areas, include and includr areas listed in SHAPES, one ordinary line '
                      '(any of them) up to 3 (thorough 4) arbitrary characters of %r; every nesting of up to 4 (thorough 5) areas with a line in every gap; any text of up to 6 of those characters without areas' % LINE,
            'assumptions': ['areas are closed, an area name occurs once for editing in a module', 'line ends are line feeds']},
    'C21': {'bounds': 'one- to four-part area paths with empty parts, modules at depth 0..2, areas nested in areas, renamed by the index, with '
                      'and without version mode; code lines up to 3 arbitrary characters', 'assumptions': []},
    'C26': {'bounds': 'areas nested up to two levels with own, inherited or no directive, every directive of the language, code lines of up to 3 '
                      'arbitrary characters', 'assumptions': []},
}
# L line, P( plain area, I( include area, R( includr area
SHAPES = ['L', 'I(L)', 'LI(L)L', 'P(L)', 'LP(I(L)L)L', 'I(P(L)L)L', 'I(I(L)L)L', 'I(LI(L))I(L)', 'I()L', 'P(P(I(L)))L', 'I(L)P()I(L)', 'I(I(I(L)))L',
          'LI(LP(LI(L)L)L)L']
CASES = {
    'C20': [dict(func='areas', params={'shape': s, 'chars': 3}) for s in SHAPES] +
           [dict(func='areas', params={'shape': s, 'chars': 4}, tier='thorough') for s in SHAPES] + [
        dict(func='all_nestings', params={'areas': 4}),
        dict(func='all_nestings', params={'areas': 5}, tier='thorough'),
        dict(func='any_module', params={'length': 5}),
        dict(func='any_module', params={'length': 6}, tier='thorough'),
        dict(func='spelling', params={}),
        dict(func='read_only', params={}),
        dict(func='read_only_same_name', params={}),
        dict(func='area_called', params={}),
        dict(func='two_modules', params={}),
    ],
    'C21': [
        dict(func='placement', params={'descent': None}),
        dict(func='placement', params={'descent': 5}),
        dict(func='placement_single_descent', params={}),
        dict(func='nested_placement', params={}),
        dict(func='renamed', params={'descent': None}),
        dict(func='renamed', params={'descent': 7}),
        dict(func='edited', params={}),
        dict(func='saved_with_mark', params={}),
    ],
    'C26': [
        dict(func='directive', params={}),
        dict(func='directive_nested', params={}),
        dict(func='directive_shared', params={}),
        dict(func='directive_plain', params={}),
    ],
}


def put(path, text, enc='utf-8'):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write(text)


def put_bytes(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


def get_bytes(path):
    with open(path, 'rb') as f:
        return f.read()


def text(path):
    with open(path, 'r', encoding='utf-8-sig', newline='') as f:
        return f.read()


def org(descent):
    return OrganizerFile if descent is None else OrganizerFileCE


def places(t, descent=None):
    root = os.path.join(t.dir, 'p')
    src = os.path.join(root, 'src') if descent is None else os.path.join(root, 'src', 'ut')
    return root, os.path.join(t.dir, 's3'), src, os.path.join(t.dir, 'o3')


def unpack(t, s3, src, index=None, descent=None):
    os.makedirs(s3, exist_ok=True)
    org(descent).unpack(s3, src, pool=t.pool(), index=index, descent=descent)


def pack(t, src, out, index=None, descent=None):
    org(descent).pack(src, out, pool=t.pool(), index=index, descent=descent)


def files(path):
    out = []
    for r, d, fs in os.walk(path):
        for f in fs:
            out.append(os.path.relpath(os.path.join(r, f), path))
    return sorted(out)


def code_line(t, name, chars):
    return t.str(name, 0, chars, chars=LINE) + '\n'


def build(t, shape, chars):
    """text of the module and what every include area holds; one line is arbitrary, at any place"""
    n = 0
    hot = -1 if chars is None else t.choice('hot', list(range(shape.count('L')))) if shape.count('L') > 1 else 0
    seen = 0
    stack = [['root', '']]
    done = []
    for c in shape:
        if c == 'L':
            stack[-1][1] = stack[-1][1] + (code_line(t, 'l', chars) if seen == hot else 'x%d;\n' % seen)
            seen += 1
        elif c in 'PI':
            kind = c
            n += 1
            stack.append([c + str(n), ''])
        elif c == '(':
            pass
        elif c == ')':
            name, body = stack.pop()
            if name[0] == 'P':
                stack[-1][1] = stack[-1][1] + '#Область ' + name + '\n' + body + '#КонецОбласти\n'
            else:
                inner = '#Область include_core_' + name + '\n' + body + '#КонецОбласти\n'
                done.append((name, body))
                stack[-1][1] = stack[-1][1] + inner
    return stack[0][1], done


def areas(t, shape, chars):
    root, s3, src, out = places(t)
    code, inc = build(t, shape, chars)
    put(os.path.join(s3, 'Form', 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(files(os.path.join(root, 'core')) if inc else [], sorted(n + '.bsl' for n, b in inc), 'one file per include area')
    pack(t, src, out)
    t.check_eq(files(out), ['Form/m.bsl'], 'modules after unpacking and packing')
    t.check_eq(text(os.path.join(out, 'Form', 'm.bsl')), code, 'code after unpacking and packing')
    if inc:
        kept = text(os.path.join(src, 'Form', 'm.bsl'))
        t.check(len(kept) < len(code) or shape == 'I()L', 'the area is moved out of the module')
    else:
        t.check_eq(text(os.path.join(src, 'Form', 'm.bsl')), code, 'a module without areas stays as it is')


def all_nestings(t, areas):
    """every nesting of ordinary and include areas, a line in every gap"""
    left, depth, shape, kinds = areas, 0, 'L', []
    while True:
        c = t.choice('at%d' % len(shape), ['end'] * (depth == 0) + ['P', 'I'] * (left > 0) + [')'] * (depth > 0))
        if c == 'end':
            break
        if c == ')':
            depth -= 1
            shape += ')L'
        else:
            left -= 1
            depth += 1
            shape += c + '(L'
        if not left and not depth:
            break
    root, s3, src, out = places(t)
    code, inc = build(t, shape, None)
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(files(os.path.join(root, 'core')) if inc else [], sorted(n + '.bsl' for n, b in inc), 'one file per include area')
    moved = {n: b for n, b in inc}
    for n in moved:
        t.check_eq(text(os.path.join(root, 'core', n + '.bsl')), own(moved[n]), 'code of an area')
    t.check_eq(text(os.path.join(src, 'm.bsl')), own(code), 'code left in the module')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def own(code):
    """the text without what lies in include areas"""
    res, open_ = [], []
    for line in code.splitlines(True):
        if line.startswith('#КонецОбласти'):
            open_.pop()
        if True not in open_:
            res.append(line)
        if line.startswith('#Область'):
            open_.append('include_' in line)
    return ''.join(res)


def saved_with_mark(t):
    """editors save sources with a byte order mark: it is no part of the text, wherever the file goes"""
    root, s3, src, out = places(t)
    marks = {n: t.choice('enc_' + n, ['utf-8', 'utf-8-sig']) for n in ('m', 'x', 'y')}
    a = code_line(t, 'a', 2)
    first = t.choice('first', ['', 'top\n'])
    inner = t.choice('inner', ['#Область include_core_y\n', 'x\n#Область include_core_y\n', '//DynamicDirective\n#Область include_core_y\n'])
    put(os.path.join(src, 'm.bsl'), first + '#Область include_core_x //&НаСервере\n#КонецОбласти\n', marks['m'])
    put(os.path.join(root, 'core', 'x.bsl'), inner + '#КонецОбласти\n', marks['x'])
    put(os.path.join(root, 'core', 'y.bsl'), a, marks['y'])
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), first + '#Область include_core_x //&НаСервере\n' + inner.replace('//Dyn', '&НаСервере //Dyn')
               + a + '#КонецОбласти\n#КонецОбласти\n', 'the module with its areas')


def any_module(t, length):
    root, s3, src, out = places(t)
    code = t.str('c', 0, length, chars=' \t#&/Я"\n')
    put(os.path.join(s3, 'm.bsl'), code, t.choice('enc', ['utf-8', 'utf-8-sig']))
    unpack(t, s3, src)
    t.check_eq(text(os.path.join(src, 'm.bsl')), code, 'unpacked module')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'packed module')


def spelling(t):
    """blanks around the directive, a comment after the closing one, no line end after the last line"""
    root, s3, src, out = places(t)
    a = t.str('a', 0, 2, chars=' \t')
    b = t.str('b', 0, 2, chars=' \t')
    body = code_line(t, 'x', 2)
    tail = t.choice('tail', ['', ' // core_x', '\t'])
    last = t.choice('last', ['', '\n', '\nend', '\n\n'])
    code = 'top\n' + a + '#Область include_core_x' + b + '\n' + body + a + '#КонецОбласти' + tail + last
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(text(os.path.join(root, 'core', 'x.bsl')), body, 'code of the area')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def read_only(t):
    """an includr area is taken from its file and never written to it"""
    root, s3, src, out = places(t)
    mine, theirs = code_line(t, 'mine', 2), code_line(t, 'theirs', 2)
    shared = os.path.join(root, 'core', 'x.bsl')
    put(shared, theirs)
    put(os.path.join(s3, 'm.bsl'), 'a\n#Область includr_core_x\n' + mine + '#КонецОбласти\nb\n')
    unpack(t, s3, src)
    t.check_eq(text(shared), theirs, 'a read-only area does not change its file')
    t.check_eq(text(os.path.join(src, 'm.bsl')), 'a\n#Область includr_core_x\n#КонецОбласти\nb\n', 'the module keeps the directive only')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), 'a\n#Область includr_core_x\n' + theirs + '#КонецОбласти\nb\n', 'the build takes the file')


def read_only_same_name(t):
    """one place edits the area, other places in the same module only read it"""
    root, s3, src, out = places(t)
    body = code_line(t, 'x', 2)
    edit = '#Область include_core_x\n' + body + '#КонецОбласти\n'
    read = '#Область includr_core_x\n' + body + '#КонецОбласти\n'
    code = t.choice('order', [edit + read, read + edit, read + edit + read, edit + 'z\n' + read + read])
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def area_called(t):
    """any area name"""
    root, s3, src, out = places(t)
    name = t.choice('name', ['root', 'data', 'path', 'core', 'm', 'Модуль', 'core_root', 'include', '__root'])
    a, b = code_line(t, 'a', 2), code_line(t, 'b', 2)
    code = a + '#Область include_' + name + '\n' + b + '#КонецОбласти\n' + a
    if name == 'm':
        t.assume(False)     # its file would be the module itself
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def two_modules(t):
    """several modules in any order, one editing the area, the other reading it"""
    t.any_schedule()
    root, s3, src, out = places(t)
    body = code_line(t, 'x', 1)
    one = 'a\n#Область include_core_x\n' + body + '#КонецОбласти\n'
    two = 'b\n#Область includr_core_x\n' + body + '#КонецОбласти\nc\n'
    put(os.path.join(s3, 'A', 'm.bsl'), one)
    put(os.path.join(s3, 'B', 'm.bsl'), two)
    unpack(t, s3, src)
    pack(t, src, out)
    t.check_eq(files(out), ['A/m.bsl', 'B/m.bsl'], 'modules')
    t.check_eq(text(os.path.join(out, 'A', 'm.bsl')), one, 'first module')
    t.check_eq(text(os.path.join(out, 'B', 'm.bsl')), two, 'second module')


# ------------------------------------------------------------------------------------ C21
def placement(t, descent):
    """path of the area: parts joined by _, an empty part means one level up, relative to the folder above the sources"""
    root, s3, src, out = places(t, descent)
    at = t.choice('at', ['', 'Form', 'Form/F1'])
    name, where = t.choice('name', [('core_x', 'p/core/x.bsl'), ('core_form_x', 'p/core/form/x.bsl'), ('_x', 'x.bsl'), ('_core_x', 'core/x.bsl'),
                                    ('core_a_b_x', 'p/core/a/b/x.bsl'), ('core__x', 'p/x.bsl'), ('x', None)])
    if where is None:
        if descent is not None:
            t.assume(False)
        where = os.path.join('p/src', at, 'x.bsl')
    a, b = code_line(t, 'a', 2), code_line(t, 'b', 2)
    code = a + '#Область include_' + name + '\n' + b + '#КонецОбласти\n' + a
    put(os.path.join(s3, at, 'm.bsl'), code)
    unpack(t, s3, src, None, descent)
    mod = os.path.join(src, at, 'm.bsl' if descent is None else 'm.5.bsl')
    t.check_eq(files(t.dir), sorted([os.path.relpath(os.path.join(s3, at, 'm.bsl'), t.dir), os.path.relpath(mod, t.dir), where]), 'where the files are')
    t.check_eq(text(os.path.join(t.dir, where)), b, 'the area is in its file')
    t.check_eq(text(mod), a + '#Область include_' + name + '\n#КонецОбласти\n' + a, 'the module keeps the directive')
    pack(t, src, out, None, descent)
    t.check_eq(text(os.path.join(out, at, 'm.bsl')), code, 'code after unpacking and packing')


def placement_single_descent(t):
    """in version mode too, an area with a single name belongs to its module"""
    root, s3, src, out = places(t, 5)
    body = {m: code_line(t, m, 1) for m in ('A', 'B')}
    for m in body:
        put(os.path.join(s3, m, 'm.bsl'), '#Область include_x\n' + body[m] + '#КонецОбласти\n')
    unpack(t, s3, src, None, 5)
    pack(t, src, out, None, 5)
    for m in body:
        t.check_eq(text(os.path.join(out, m, 'm.bsl')), '#Область include_x\n' + body[m] + '#КонецОбласти\n', 'an area without a path in version mode')


def nested_placement(t):
    """an area inside an area is placed by the same rule as one on the top level"""
    root, s3, src, out = places(t)
    at = t.choice('at', ['', 'Form', 'Form/F1'])
    outer = t.choice('outer', ['core_x', 'x', 'core_f_x', '_x'])
    inner, where = t.choice('inner', [('core_y', 'p/core/y.bsl'), ('y', None), ('lib_q_y', 'p/lib/q/y.bsl')])
    if where is None:
        where = os.path.join('p/src', at, 'y.bsl')
    a, b = code_line(t, 'a', 2), code_line(t, 'b', 2)
    code = 'q\n#Область include_' + outer + '\n' + a + '#Область include_' + inner + '\n' + b + '#КонецОбласти\n' + a + '#КонецОбласти\nz\n'
    put(os.path.join(s3, at, 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(text(os.path.join(t.dir, where)), b, 'the inner area is in its file')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, at, 'm.bsl')), code, 'code after unpacking and packing')


def renamed(t, descent):
    """the index sends an area to another file, both ways"""
    root, s3, src, out = places(t, descent)
    a, b, c = code_line(t, 'a', 1), code_line(t, 'b', 2), code_line(t, 'c', 2)
    index = {'Области include': {'core_x': 'other_dir_y'}}
    code = a + '#Область include_core_x\n' + b + '#КонецОбласти\n#Область include_core_z\n' + c + '#КонецОбласти\n'
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src, index, descent)
    t.check_eq(text(os.path.join(root, 'other', 'dir', 'y.bsl')), b, 'the renamed area')
    t.check_eq(text(os.path.join(root, 'core', 'z.bsl')), c, 'the other area')
    t.check(not os.path.exists(os.path.join(root, 'core', 'x.bsl')), 'nothing at the original place')
    pack(t, src, out, index, descent)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def edited(t):
    """whatever the area file holds at build time is what goes into the module"""
    root, s3, src, out = places(t)
    a, b = code_line(t, 'a', 2), code_line(t, 'b', 3)
    b = t.choice('end', [b, b + b])
    code = 'q\n#Область include_core_x\n' + a + '#КонецОбласти\nz\n'
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    put(os.path.join(root, 'core', 'x.bsl'), b)
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), 'q\n#Область include_core_x\n' + b + '#КонецОбласти\nz\n', 'the edited area is built in')


# ------------------------------------------------------------------------------------ C26
DIRECTIVES = ['&НаКлиенте', '&НаСервере', '&НаСервереБезКонтекста', '&НаКлиентеНаСервереБезКонтекста']


def directive(t):
    root, s3, src, out = places(t)
    d = t.choice('d', DIRECTIVES)
    a = code_line(t, 'a', 3)
    pre = t.choice('pre', ['', '\n', 'x\n'])
    end = t.choice('end', ['//DynamicDirective\n', '//DynamicDirective more\n'])
    code = 'q\n#Область include_core_x //' + d + t.choice('note', ['', ' //пояснение', ' ']) + '\n' + pre + d + ' ' + end + a + '#КонецОбласти\nz\n'
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(text(os.path.join(root, 'core', 'x.bsl')), pre + end + a, 'the area is kept without the directive')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def directive_nested(t):
    """inherited by inner areas, replaced by their own, not passed on to the areas that follow"""
    root, s3, src, out = places(t)
    d1, d2 = t.choice('d1', DIRECTIVES[:2]), t.choice('d2', [None] + DIRECTIVES[:2])
    a = code_line(t, 'a', 2)
    mark = '//DynamicDirective\n'
    dn = d2 or d1
    inner = '#Область include_core_y' + (' //' + d2 if d2 else '') + '\n' + dn + ' ' + mark + a + '#КонецОбласти\n'
    third = '#Область include_core_w\n' + mark + 'w\n#КонецОбласти\n'
    code = 'q\n#Область include_core_x //' + d1 + '\n' + d1 + ' ' + mark + inner + d1 + ' ' + mark + 'e\n#КонецОбласти\n' + third + 'z\n'
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(text(os.path.join(root, 'core', 'y.bsl')), mark + a, 'the inner area is kept without the directive')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


def directive_shared(t):
    """one file, two areas with different directives"""
    root, s3, src, out = places(t)
    a = code_line(t, 'a', 3)
    d = t.choice('d', DIRECTIVES)
    put(os.path.join(root, 'core', 'x.bsl'), '//DynamicDirective\n' + a + '  //DynamicDirective\n')
    put(os.path.join(src, 'm.bsl'), '#Область includr_core_x //' + d + '\n#КонецОбласти\n#Область includr_core_x\n#КонецОбласти\n'
                                    '#Область includr_core_x //&НаСервере\n#КонецОбласти\n')
    pack(t, src, out)

    def filled(x):
        return x + '//DynamicDirective\n' + a + x + '  //DynamicDirective\n'
    t.check_eq(text(os.path.join(out, 'm.bsl')),
               '#Область includr_core_x //' + d + '\n' + filled(d + ' ') + '#КонецОбласти\n#Область includr_core_x\n' + filled('') +
               '#КонецОбласти\n#Область includr_core_x //&НаСервере\n' + filled('&НаСервере ') + '#КонецОбласти\n', 'each area has its own directive')


def directive_plain(t):
    """lines that are not dynamic directives are never touched"""
    root, s3, src, out = places(t)
    a = t.str('a', 0, 3, chars='&/ aD')
    b = t.choice('b', ['&НаКлиенте', '&НаСервере // Directive', '// DynamicDirective', 'х = "//DynamicDirectiv";', '//'])
    code = '#Область include_core_x //&НаКлиенте\n' + a + '\n' + b + '\n' + b + a + '\n#КонецОбласти\n'
    t.assume(not (b == '// DynamicDirective' and False))
    put(os.path.join(s3, 'm.bsl'), code)
    unpack(t, s3, src)
    t.check_eq(text(os.path.join(root, 'core', 'x.bsl')), a + '\n' + b + '\n' + b + a + '\n', 'area')
    pack(t, src, out)
    t.check_eq(text(os.path.join(out, 'm.bsl')), code, 'code after unpacking and packing')


# ------------------------------------------------------------------------------------ C22
META['C22'] = {
    'bounds': 'up to three extractions at versions from {1, 5, 9, 10, 100} in any order, each file kind (module, form elements, any other file, '
              'area inside the source folder), contents of one arbitrary character each (equal or different), two versions '
              'of up to 2 arbitrary characters (blanks, line breaks, letter case included) or bytes, an unversioned file present or not, '
              'one more file with an arbitrary name of up to 5 characters beside it',
    'assumptions': ['version numbers are positive, as described in docs/usage.md', 'file names are those of the decoder: no numeric last part']}
KINDS = ['F.obj.bsl', 'F.bsl', 'Template.json', 'Template.bin', 'F.id.json', 'F.elem.json', 'Шаблон.a.txt']
CASES['C22'] = [dict(func='history', params={'kind': k, 'n': 2}) for k in KINDS] + \
               [dict(func='history', params={'kind': k, 'n': 3}, tier='thorough') for k in KINDS] + [
    dict(func='selection', params={'name': 'M.bsl'}),
    dict(func='selection', params={'name': 'M.obj.bsl'}),
    dict(func='selection', params={'name': 'T.bin'}),
    dict(func='siblings', params={'length': 4}),
    dict(func='siblings', params={'length': 5}, tier='thorough'),
    dict(func='local_area', params={}),
    dict(func='shared_unversioned', params={}),
    dict(func='several_files', params={}),
    dict(func='any_change', params={'kind': 'F.obj.bsl', 'length': 2}),
    dict(func='any_change', params={'kind': 'F.elem.json', 'length': 1}),
    dict(func='any_change', params={'kind': 'F.bin', 'length': 3}),
    dict(func='any_change', params={'kind': 'F.obj.bsl', 'length': 3}, tier='thorough'),
    dict(func='any_change', params={'kind': 'F.elem.json', 'length': 2}, tier='thorough'),
    dict(func='any_change', params={'kind': 'F.bin', 'length': 8}, tier='thorough'),
]
VERSIONS = [1, 5, 9, 10, 100]


def body_of(kind, c):
    if kind.endswith('.elem.json'):
        return {'tree': [], 'data': {}, 'x': c}
    return c


def put_kind(path, kind, c):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if kind.endswith('.elem.json'):
        helper.json_write(body_of(kind, c), os.path.dirname(path), os.path.basename(path))
    else:
        put(path, c)


def get_kind(path, kind):
    if kind.endswith('.elem.json'):
        return helper.json_read(os.path.dirname(path), os.path.basename(path))['x']
    return text(path)


def versioned(name, d):
    p = name.split('.')
    return '.'.join(p[:-1] + [str(d)] + p[-1:])


def near(state, d):
    """which stored version a build at d takes"""
    got = [v for v in state if v is not None and v <= d]
    if got:
        return max(got)
    return None if None in state else -1


def history(t, kind, n):
    """extractions at several versions of the configuration, one after another"""
    root, s3, src, out = places(t, 0)
    state = {}
    if t.bool('plain'):
        state[None] = t.str('c', 1, 1, chars='abc')
        put_kind(os.path.join(src, 'D', kind), kind, state[None])
    for i in range(n):
        d = t.choice('d%d' % i, VERSIONS)
        c = t.str('c%d' % i, 1, 1, chars='abc')
        put_kind(os.path.join(s3, 'D', kind), kind, c)
        lower = {e: state[near(state, e)] for e in VERSIONS if e < d and near(state, e) != -1}
        unpack(t, s3, src, None, d)
        if d in state or near(state, d) == -1 or not (state[near(state, d)] == c):
            state[d] = c
        want = sorted(kind if v is None else versioned(kind, v) for v in state)
        t.check_eq(files(os.path.join(src, 'D')), want, 'versions kept after an extraction')
        for v in state:
            t.check_eq(get_kind(os.path.join(src, 'D', kind if v is None else versioned(kind, v)), kind), state[v], 'content of a version')
        for e in VERSIONS:
            if e in lower:
                t.check_eq(near(state, e) != -1 and state[near(state, e)], lower[e], 'older builds are not affected')
    e = t.choice('e', VERSIONS)
    if near(state, e) == -1:
        return
    pack(t, src, out, None, e)
    t.check_eq(files(out), ['D/' + kind], 'built files')
    t.check_eq(get_kind(os.path.join(out, 'D', kind), kind), state[near(state, e)], 'the build takes the nearest version not above its own')


def selection(t, name):
    """any set of stored versions, built at any version"""
    root, s3, src, out = places(t, 0)
    state = {}
    for v in [None] + VERSIONS:
        if t.bool('has%s' % v):
            state[v] = 'v%s' % v
            put(os.path.join(src, name if v is None else versioned(name, v)), state[v])
    d = t.choice('d', [1, 2, 5, 6, 9, 10, 11, 99, 100, 101])
    if near(state, d) == -1:
        t.assume(False)
    pack(t, src, out, None, d)
    t.check_eq(files(out), [name], 'built files')
    t.check_eq(text(os.path.join(out, name)), state[near(state, d)], 'nearest version not above the given one')


def siblings(t, length):
    """files whose names merely look similar are not versions of the file"""
    root, s3, src, out = places(t, 0)
    name = 'M.obj.bsl' if t.bool('long') else 'M.bsl'
    put(os.path.join(src, versioned(name, 5)), 'mine')
    s = t.str('s', 1, length, chars='Mo.15-_ ')
    t.assume(not (s[0] == '.') and not (s[-1] == '.'))
    ext = t.choice('ext', ['.bsl', '.obj.bsl', '.10.bsl', 'x.10.bsl', 'x.10.json'])
    other = s + ext
    t.assume(not ('.' in s and '10' in ext))    # no file name ends in a number
    if os.path.exists(os.path.join(src, other)):
        t.assume(False)
    put(os.path.join(src, other), 'other')
    parts = other.split('.')
    v = parts[-2]
    # a legitimate version of the file
    legit = len(parts) == len(name.split('.')) + 1 and '.'.join(parts[:-2] + parts[-1:]) == name and (v == '1' or v == '5' or v == '10' or v == '11'
                                                                                                       or v == '15' or v == '51' or v == '55')
    d = 20
    t.assume(not legit)
    t.assume(not (other == name))
    try:
        pack(t, src, out, None, d)
    except Exception:
        # the other file may have no version to take; the file itself must not be the reason
        os.remove(os.path.join(src, other))
        pack(t, src, out, None, d)
    t.check_eq(text(os.path.join(out, name)), 'mine', 'a similar name is not a version')


def local_area(t):
    """an area that lies inside the source folder has versions too"""
    root, s3, src, out = places(t, 0)
    c = [t.str('c%d' % i, 1, 1, chars='ab') for i in range(2)]
    d = [5, t.choice('d', [5, 10, 3])]
    for i in range(2):
        put(os.path.join(s3, 'F', 'm.bsl'), '#Область include_src_ut_F_x\n' + c[i] + '\n#КонецОбласти\n')
        unpack(t, s3, src, None, d[i])
    pack(t, src, out, None, d[1])
    t.check_eq(text(os.path.join(out, 'F', 'm.bsl')), '#Область include_src_ut_F_x\n' + c[1] + '\n#КонецОбласти\n', 'build at the last version')
    if d[1] > 5:
        pack(t, src, out, None, 5)
        t.check_eq(text(os.path.join(out, 'F', 'm.bsl')), '#Область include_src_ut_F_x\n' + c[0] + '\n#КонецОбласти\n', 'build at the first version')


def shared_unversioned(t):
    """files outside the source folder, and those placed by the index, get no version"""
    root, s3, src, out = places(t, 0)
    c = t.str('c', 1, 2, chars='ab\n')
    folder = t.choice('folder', ['base', 'src/utils', 'src/u'])
    put(os.path.join(s3, 'F', 'm.bsl'), '#Область include_' + folder.replace('/', '_') + '_x\n' + c + '\n#КонецОбласти\n')
    put(os.path.join(s3, 'F', 't.bin'), c)
    put(os.path.join(s3, 'F', 'n.bsl'), c)
    put(os.path.join(s3, 'F', 'e.elem.json'), '{"tree": [], "data": {}}')
    index = {'F': {'t.bin': folder + '/t2.bin', 'n.bsl': folder + '/n.bsl', 'e.elem.json': folder + '/e.elem.json'}}
    unpack(t, s3, src, index, 5)
    t.check_eq(files(os.path.join(root, folder)), ['e.elem.json', 'n.bsl', 't2.bin', 'x.bsl'], 'shared files have no version')
    t.check_eq(files(src), ['F/m.5.bsl'], 'own files have one')
    pack(t, src, out, index, 7)
    t.check_eq(files(out), ['F/e.elem.json', 'F/m.bsl', 'F/n.bsl', 'F/t.bin'], 'built files')
    t.check_eq(text(os.path.join(out, 'F', 't.bin')), c, 'binary file')
    t.check_eq(text(os.path.join(out, 'F', 'n.bsl')), c, 'code file')
    t.check_eq(text(os.path.join(out, 'F', 'm.bsl')), '#Область include_' + folder.replace('/', '_') + '_x\n' + c + '\n#КонецОбласти\n', 'module')


def any_change(t, kind, length):
    """whatever two versions differ in, both are built as they were"""
    root, s3, src, out = places(t, 0)
    if kind.endswith('.bin'):
        c = [t.bytes('one', 0, length), t.bytes('two', 0, length)]
    else:
        c = [t.str(n, 0, length, chars=' \n\t#aAЯя;"0.\u00a0\u200b') for n in ('one', 'two')]
    v = t.choice('versions', [(1, 2), (2, 1), (9, 10)])
    for i in range(2):
        if kind.endswith('.bin'):
            put_bytes(os.path.join(s3, 'D', kind), c[i])
        else:
            put_kind(os.path.join(s3, 'D', kind), kind, c[i])
        unpack(t, s3, src, None, v[i])
    for i in range(2):
        pack(t, src, out, None, v[i])
        got = get_bytes(os.path.join(out, 'D', kind)) if kind.endswith('.bin') else get_kind(os.path.join(out, 'D', kind), kind)
        t.check_eq(got, c[i], 'version %d as it was extracted' % v[i])


def several_files(t):
    """files are versioned one by one"""
    root, s3, src, out = places(t, 0)
    names = ['A.bsl', 'A2.bsl', 'A.obj.bsl', 'A.json']
    x = t.str('x', 1, 1, chars='ab')
    hot = t.choice('hot', names)
    c = [x if n == hot or n == names[0] else 'a' for n in names]
    for n, x in zip(names, c):
        put(os.path.join(s3, n), 'a')
    unpack(t, s3, src, None, 5)
    for n, x in zip(names, c):
        put(os.path.join(s3, n), x)
    unpack(t, s3, src, None, 10)
    want = []
    for n, x in zip(names, c):
        want.append(versioned(n, 5))
        if not (x == 'a'):
            want.append(versioned(n, 10))
    t.check_eq(files(src), sorted(want), 'only changed files get the new version')
    pack(t, src, out, None, 10)
    for n, x in zip(names, c):
        t.check_eq(text(os.path.join(out, n)), x, 'built at the new version')
    pack(t, src, out, None, 9)
    for n, x in zip(names, c):
        t.check_eq(text(os.path.join(out, n)), 'a', 'built at the old version')


# ------------------------------------------------------------------------------------ C23
META['C23'] = {
    'bounds': 'trees of up to 4 files at depth 0..2 with arbitrary bytes (up to 4) in one file, arbitrary names of up to 3 characters, any order of '
              'directory listings; index entries of every kind: path, nested folder, renamed file, *, exceptions (null) and excluded names',
    'assumptions': ['paths in the index lead outside the source folder, as the documentation requires', 'the working directory is arbitrary']}
CASES['C23'] = [
    dict(func='tree', params={}),
    dict(func='names', params={'length': 3}),
    dict(func='by_index', params={'descent': None}),
    dict(func='by_index', params={'descent': 5}),
    dict(func='star', params={'descent': None}),
    dict(func='star', params={'descent': 5}),
    dict(func='star_taken', params={}),
    dict(func='star_exceptions', params={}),
    dict(func='index_wins', params={'kind': 'T.bin'}),
    dict(func='index_wins', params={'kind': 'm.bsl'}),
    dict(func='index_wins', params={'kind': 'e.elem.json'}),
    dict(func='stale', params={}),
]


def tree(t):
    t.any_listdir_order()
    root, s3, src, out = places(t)
    b = t.bytes('b', 0, 4)
    names = {'a.bin': b'1', 'F/x/b.json': b'{}', 'F/x/m.bsl': 'к\n'.encode(), 'version.bin': b'1.2'}
    names[t.choice('hot', ['a.bin', 'F/x/b.json'])] = b
    for n in names:
        put_bytes(os.path.join(s3, n), names[n])
    unpack(t, s3, src)
    t.check_eq(t.tree(src), {**names, 'F/': None, 'F/x/': None}, 'source tree')
    pack(t, src, out)
    t.check_eq(t.tree(out), {**names, 'F/': None, 'F/x/': None}, 'tree after unpacking and packing')


def names(t, length):
    root, s3, src, out = places(t)
    n = t.str('n', 1, length, chars='aЯ.-5_ ')
    t.assume(not (n == '.') and not (n == '..'))
    ext = t.choice('ext', ['.bin', '.json', '.bsl', '.id.json', ''])
    put(os.path.join(s3, 'F', n + ext), 'x')
    unpack(t, s3, src)
    t.check_eq(t.tree(src), {'F/': None, 'F/' + n + ext: b'x'}, 'source tree')
    pack(t, src, out)
    t.check_eq(t.tree(out), {'F/': None, 'F/' + n + ext: b'x'}, 'tree after unpacking and packing')


def suffix(name, d):
    return name if d is None else versioned(name, d)


def by_index(t, descent):
    """files named in the index are kept at the given place and come back from it"""
    root, s3, src, out = places(t, descent)
    b = t.bytes('b', 0, 3)
    code = code_line(t, 'c', 2)
    names = {'T.bin': b, 'F/T.bin': b'2', 'F/x/T.bin': b'3', 'F/x/m.bsl': code.encode(), 'F/x/k.bsl': b'k\n', 'F/e.elem.json': b'{"tree": [], "data": {}}'}
    for n in names:
        put_bytes(os.path.join(s3, n), names[n])
    index = {'T.bin': 'core/T.bin', 'F': {'T.bin': t.choice('to', ['core/F/other.bin', 'x.bin', '../far/T.bin']),
                                         'x': {'m.bsl': 'core/F/mod.bsl', 'T.bin': ''},
                                         'e.elem.json': 'core/F/form.elem.json'}}
    unpack(t, s3, src, index, descent)
    moved = os.path.normpath(os.path.join('p', index['F']['T.bin']))
    base = 'p/src/' if descent is None else 'p/src/ut/'
    want = {'p/core/T.bin': b, moved: b'2', 'p/core/F/mod.bsl': code.encode(), base + 'F/x/' + suffix('T.bin', descent): b'3',
            base + 'F/x/' + suffix('k.bsl', descent): b'k\n'}
    got = {k: v for k, v in t.tree(t.dir).items() if v is not None and not k.startswith('s3/') and not k.endswith('elem.json')}
    t.check_eq(got, want, 'where the files are')
    t.check(os.path.isfile(os.path.join(root, 'core', 'F', 'form.elem.json')), 'form elements')
    pack(t, src, out, index, descent)
    got = {k: v for k, v in t.tree(out).items() if v is not None and not k.endswith('elem.json')}
    del names['F/e.elem.json']
    t.check_eq(got, names, 'files after unpacking and packing')
    t.check_eq(helper.json_read(os.path.join(out, 'F'), 'e.elem.json'), {'tree': [], 'data': {}}, 'form elements')


def star(t, descent):
    """a folder as a whole is kept elsewhere, with exceptions"""
    root, s3, src, out = places(t, descent)
    b = t.bytes('b', 1, 2)
    names = {'F/A/T.bin': b, 'F/A/id.json': b'2', 'F/A/m.bsl': b'm\n', 'F/A/q.json': b'4', 'F/B/T.bin': b'5'}
    for n in names:
        put_bytes(os.path.join(s3, n), names[n])
    exc = t.choice('exc', [{}, {'id.json': None}, {'id.json': ''}, {'q.json': 'base/B/q2.json'}, {'id.json': None, 'q.json': 'base/B/q2.json'}])
    index = {'F': {'A': {**exc, '*': 'base/A'}}}
    unpack(t, s3, src, index, descent)
    base = 'p/src/' if descent is None else 'p/src/ut/'
    want = {'p/base/A/T.bin': b, 'p/base/A/m.bsl': b'm\n', base + 'F/B/' + suffix('T.bin', descent): b'5'}
    want[base + 'F/A/' + suffix('id.json', descent) if 'id.json' in exc else 'p/base/A/id.json'] = b'2'
    want['p/base/B/q2.json' if 'q.json' in exc else 'p/base/A/q.json'] = b'4'
    got = {k: v for k, v in t.tree(t.dir).items() if v is not None and not k.startswith('s3/')}
    t.check_eq(got, want, 'where the files are')
    pack(t, src, out, index, descent)
    t.check_eq({k: v for k, v in t.tree(out).items() if v is not None}, names, 'files after unpacking and packing')


def star_taken(t):
    """files added to the shared folder by hand are built in, folders are not"""
    root, s3, src, out = places(t)
    b = t.bytes('b', 1, 2)
    put_bytes(os.path.join(root, 'base', 'A', 'new.bin'), b)
    put_bytes(os.path.join(root, 'base', 'A', 'sub', 'x.bin'), b'1')
    put_bytes(os.path.join(root, 'base', 'A', 'm.bsl'), b'm\n')
    put_bytes(os.path.join(src, 'v.bin'), b'v')
    pack(t, src, out, {'F': {'A': {'*': 'base/A'}}})
    t.check_eq({k: v for k, v in t.tree(out).items() if v is not None}, {'F/A/new.bin': b, 'F/A/m.bsl': b'm\n', 'v.bin': b'v'}, 'built files')


def star_exceptions(t):
    """what is excepted is taken from the sources even if the shared folder has a file of that name"""
    root, s3, src, out = places(t)
    b = t.bytes('b', 1, 2)
    put_bytes(os.path.join(root, 'base', 'A', 'id.json'), b'theirs')
    put_bytes(os.path.join(root, 'base', 'A', 'T.bin'), b'1')
    put_bytes(os.path.join(root, 'base', 'A', 'q.json'), b'2')
    put_bytes(os.path.join(src, 'F', 'A', 'id.json'), b)
    how = t.choice('how', ['null', 'empty', 'minus', 'two', 'two_last'])
    two = how in ('two', 'two_last')
    if two:
        put_bytes(os.path.join(src, 'F', 'A', 'q.json'), b'own')
    index = {'*-id.json-q.json' if how == 'two' else '*-q.json-id.json': 'base/A'} if two else {'*-id.json': 'base/A'} if how == 'minus' else {'id.json': None if how == 'null' else '', '*': 'base/A'}
    pack(t, src, out, {'F': {'A': index}})
    t.check_eq({k: v for k, v in t.tree(out).items() if v is not None}, {'F/A/id.json': b, 'F/A/T.bin': b'1', 'F/A/q.json': b'own' if two else b'2'}, 'built files')


def index_wins(t, kind):
    """a file named in the index is taken from there, whatever lies in the source folder"""
    t.any_schedule()
    root, s3, src, out = places(t)
    one, two = ('{"tree": [], "data": {"a": 1}}', '{"tree": [], "data": {"b": 1}}') if kind.endswith('elem.json') else ('one\n', 'two\n')
    put(os.path.join(root, 'core', kind), one)
    put(os.path.join(src, 'F', kind), two)
    pack(t, src, out, {'F': {kind: 'core/' + kind}})
    got = text(os.path.join(out, 'F', kind))
    if kind.endswith('elem.json'):
        got, one = json.loads(got), json.loads(one)
    t.check_eq(got, one, 'the file named in the index')


def stale(t):
    """what was in the source folder before does not stay (no version mode), nor what was in the build folder"""
    root, s3, src, out = places(t)
    put(os.path.join(src, 'F', 'old.bin'), 'old')
    put(os.path.join(src, 'old', 'm.bsl'), 'old')
    put(os.path.join(out, 'F', 'old.bin'), 'old')
    b = t.bytes('b', 0, 2)
    put_bytes(os.path.join(s3, 'F', 'a.bin'), b)
    unpack(t, s3, src)
    t.check_eq(t.tree(src), {'F/': None, 'F/a.bin': b}, 'source folder')
    pack(t, src, out)
    t.check_eq(t.tree(out), {'F/': None, 'F/a.bin': b}, 'build folder')
