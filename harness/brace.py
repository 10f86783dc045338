"""Brace files (the 1C serialisation of nested lists) and the stage that converts them to JSON and back."""
import os


def preload():
    global helper, jcd
    from v8unpack import helper, json_container_decoder as jcd


META = {
    'C10': {'bounds': 'every nested list of 19 shapes (up to 3 levels, up to 5 leaves), each leaf an unquoted atom of up to 2 characters or a '
                      'quoted string of up to 3 (thorough 4) arbitrary characters with embedded quotes, commas, braces and line breaks; every '
                      'allowed placement of line breaks; byte order mark present or not; line ends LF or CR LF',
            'assumptions': ['a nested list starts on a new line, as the platform writes it', 'no lone carriage return inside values']},
    'C11': {'bounds': 'lists as in C10 written out and read again; strings of up to 5 characters (thorough 7); values longer than one base64 '
                      'line: 60..200 characters of arbitrary base64 text or arbitrary quoted ASCII text',
            'assumptions': ['values are serialised atoms or quoted strings, as the reader produces them']},
    'C12': {'bounds': 'files of up to 5 arbitrary characters or bytes (thorough 6) in a folder and a nested folder, several files at once',
            'assumptions': ['text is compared modulo byte order mark and line-end convention']},
}
SHAPES = ['A', 'S', 'AA', 'AS', 'SA', 'SS', '(A)', 'A(A)', '(A)A', '(S)(A)', 'A(S)A', '(A)(A)S', '((A))', 'A((S)A)A', '(A)A(A)', 'S(S)',
          '(S)S', 'A(A(S))', 'AAA']
CASES = {
    'C10': [dict(func='parse', params={'shapes': [s], 'atom': 2, 'string': 3}, tier='quick') for s in SHAPES] +
           [dict(func='parse_root', params={}), dict(func='parse_b64', params={}),
            dict(func='parse_lines', params={'length': 2}), dict(func='parse_lines', params={'length': 3}, tier='thorough')] +
           [dict(func='parse', params={'shapes': [s], 'atom': 2, 'string': 4}, tier='thorough') for s in SHAPES],
    'C11': [dict(func='rewrite', params={'shapes': [s], 'atom': 2, 'string': 3}) for s in SHAPES] + [
        dict(func='rewrite', params={'shapes': ['AS', 'SA', '(S)'], 'atom': 1, 'string': 5}),
        dict(func='rewrite', params={'shapes': ['AS', 'SA', '(S)'], 'atom': 1, 'string': 7}, tier='thorough'),
        dict(func='long_b64', params={'sizes': [60, 63, 64, 65, 68, 127, 128, 129, 132, 192, 200]}),
        dict(func='marked_b64', params={'sizes': [0, 1, 55, 56, 63, 64, 65, 100, 127, 128, 129, 192]}),
        dict(func='long_string', params={'sizes': [62, 63, 64, 65, 66, 128, 130]}),
        dict(func='long_string', params={'sizes': list(range(60, 70)) + list(range(126, 134))}, tier='thorough'),
        dict(func='edited_file', params={'string': 3}),
    ],
    'C12': [
        dict(func='any_file', params={'length': 4, 'lead': ''}),
        dict(func='any_file', params={'length': 4, 'lead': '{'}),
        dict(func='any_file', params={'length': 3, 'lead': '{1,'}),
        dict(func='any_file', params={'length': 3, 'lead': '{"a'}),
        dict(func='any_file', params={'length': 6, 'lead': '{'}, tier='thorough'),
        dict(func='any_bytes', params={'length': 3}),
        dict(func='any_name', params={}),
        dict(func='any_bytes', params={'length': 5}, tier='thorough'),
        dict(func='code_pages', params={}),
        dict(func='whole_tree', params={}),
        dict(func='big_b64', params={}),
        dict(func='encode_kinds', params={}),
    ],
}

ATOM_BAD = ',{}"\n\r'


def leaf(t, kind, tag, atom, string):
    if kind == 'A':
        return t.str(tag, 0, atom, exclude=ATOM_BAD)
    return quote(t.str(tag, 0, string, exclude='\r'))


def quote(s):
    return '"' + s.replace('"', '""') + '"'


def make(t, shape, atom, string):
    """'A(S)A' -> ['..', ['".."'], '..']"""
    stack = [[]]
    n = 0
    for c in shape:
        if c == '(':
            stack.append([])
        elif c == ')':
            x = stack.pop()
            stack[-1].append(x)
        else:
            stack[-1].append(leaf(t, c, 'v%d' % n, atom, string))
            n += 1
    return stack[0]


def render(t, data, nl, tag='r'):
    """every placement of line breaks the format allows"""
    out = ['{']
    for i, x in enumerate(data):
        if i:
            out.append(',')
        if isinstance(x, list):
            out.append(nl)
            out.append(render(t, x, nl, tag + str(i)))
        else:
            out.append(x)
    if data and isinstance(data[-1], list) and t.bool(tag + 'nl'):
        out.append(nl)
    out.append('}')
    return ''.join(out)


def norm(x):
    """an empty value is '' or nothing"""
    if isinstance(x, list):
        return [norm(i) for i in x]
    return '' if x is None else x


def put(path, text, enc='utf-8'):
    with open(path, 'w', encoding=enc, newline='') as f:
        f.write(text)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def parse(t, shapes, atom, string):
    shape = shapes[0]
    data = make(t, shape, atom, string)
    # a lone atom in a one-element list is the empty or base64 form; the first atom must not look like the base64 mark (too short to)
    nl = t.choice('nl', ['\n', '\r\n'])
    text = render(t, data, nl)
    if t.bool('end'):
        text = text + nl
    if nl == '\n':
        put(os.path.join(t.dir, 'f'), text)
    else:
        put(os.path.join(t.dir, 'f'), text, 'utf-8-sig')
    got = helper.brace_file_read(t.dir, 'f')
    t.check_eq(norm(got), [data], 'lists read from a brace file')


def parse_lines(t, length):
    """several text values that begin with a line break, one after another or nested"""
    x, y = (quote('\n' + t.str(n, 0, length, chars='",}\na')) for n in 'xy')
    shape = t.choice('shape', ['flat', 'nested', 'apart'])
    data = {'flat': ['1', x, y, '2'], 'nested': ['1', ['0', x], ['0', y], '2'], 'apart': ['1', x, 'z', y]}[shape]
    put(os.path.join(t.dir, 'f'), render(t, data, '\n'))
    t.check_eq(norm(helper.brace_file_read(t.dir, 'f')), [data], 'lists read from a brace file')


def parse_root(t):
    """several root lists in a file"""
    a, b = quote(t.str('a', 0, 2, exclude='\r')), t.str('b', 1, 2, exclude=ATOM_BAD)
    text = '{' + a + ',1},\n{' + b + ',\n{0}\n}'
    put(os.path.join(t.dir, 'f'), text)
    t.check_eq(norm(helper.brace_file_read(t.dir, 'f')), [[a, '1'], [b, ['0']]], 'two root lists')


def parse_b64(t):
    """a base64 value wrapped at 64 characters, alone or after the mark"""
    B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
    n = t.choice('n', [65, 100, 128, 140])
    v = t.str('v', n, n, chars=B64)
    mark = t.bool('mark')
    own_line = t.bool('own_line')
    cut = [v[i:i + 64] for i in range(0, n, 64)]
    body = '\r\n'.join(cut)
    more, rest = t.choice('more', [('', []), (',5', ['5']), (',"a,}"', ['"a,}"']), (',\r\n{8}\r\n', [['8']])])
    if mark:
        text = '{2,\r\n{#base64:' + body + more + '}\r\n}'
        want = ['2', ['#base64:' + v, *rest]]
    else:
        text = '{1,\r\n{' + body + more + '}\r\n}' if own_line else '{1,\r\n{7,' + body + more + '}\r\n}'
        want = ['1', [v, *rest]] if own_line else ['1', ['7', v, *rest]]
    put(os.path.join(t.dir, 'f'), text)
    t.check_eq(norm(helper.brace_file_read(t.dir, 'f')), [want], 'wrapped base64 value')


def write_read(t, data, what):
    helper.brace_file_write(data, os.path.join(t.dir, 'o'), 'f')
    t.check_eq(norm(helper.brace_file_read(os.path.join(t.dir, 'o'), 'f')), norm(data), what)


def rewrite(t, shapes, atom, string):
    shape = shapes[0] if len(shapes) == 1 else t.choice('shape', shapes)
    write_read(t, [make(t, shape, atom, string)], 'written and read again')


B64CHARS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def long_b64(t, sizes):
    n = t.choice('n', sizes)
    pad = t.choice('pad', ['', '=', '=='])
    v = t.str('v', n - len(pad), n - len(pad), chars=B64CHARS) + pad
    if n % 4:
        t.assume(pad == '')
    forms = {'last': ['1', ['2', v]], 'alone': ['1', [v], '3'], 'middle': ['1', v, '3'], 'first': [v, ['3'], 'x'], 'twice': ['1', v, v, ['2', v, '']]}
    write_read(t, [forms[t.choice('place', list(forms))]], 'long base64 value')


def marked_b64(t, sizes):
    n = t.choice('n', sizes)
    v = t.str('v', n, n, chars=B64CHARS)
    lines = '\n'.join([v[i:i + 64] for i in range(0, n, 64)] or [''])
    put(os.path.join(t.dir, 'f'), '{2,\n{#base64:' + lines + (t.choice('end', ['', '\n']) if n and n % 64 == 0 else '') + '}\n}')
    data = helper.brace_file_read(t.dir, 'f')
    t.check(v in data[0][1][0], 'payload of a marked base64 value')
    write_read(t, data, 'marked base64 value')


def long_string(t, sizes):
    """a long quoted string is never mistaken for wrapped base64"""
    n = t.choice('n', sizes)
    s = t.str('s', 2, 2, chars='a "')
    v = quote('a' * (n - 4) + s)
    write_read(t, [['1', v]] if t.bool('last') else [['1', v, '0']], 'long quoted string')


def edited_file(t, string):
    """a file read, one value replaced, written and read: only that value changes"""
    a = quote(t.str('a', 0, string, exclude='\r'))
    put(os.path.join(t.dir, 'f'), '{1,\n{2,"x",\n{3}\n},"y"}')
    d = helper.brace_file_read(t.dir, 'f')
    d[0][1][1] = a
    helper.brace_file_write(d, t.dir, 'f')
    t.check_eq(norm(helper.brace_file_read(t.dir, 'f')), [['1', ['2', a, ['3']], '"y"']], 'one value replaced')


# ------------------------------------------------------------------------------------ C12
def stage2(t):
    src, mid, res = (os.path.join(t.dir, x) for x in ('src', 'mid', 'res'))
    jcd.json_decode(src, mid, pool=t.pool())
    jcd.json_encode(mid, res, pool=t.pool())
    return mid, res


def same_text(t, got, want, what):
    """equal as text modulo byte order mark and line ends"""
    a, b = got.decode('utf-8-sig'), want.decode('utf-8-sig')
    t.check_eq(a.replace('\r\n', '\n').replace('\r', '\n'), b.replace('\r\n', '\n').replace('\r', '\n'), what)


def check_file(t, src, mid, res, name, content):
    t.check_eq(os.listdir(res), [name], 'file names after conversion and back')
    m = os.listdir(mid)
    t.check_eq(len(m), 1, 'one converted file')
    if m[0] == name + '.bin' or m[0] == name + '.c1b64':
        t.check_eq(get(os.path.join(res, name)), content, 'a file kept as it is')
    elif m[0] == name + '.txt':
        same_text(t, get(os.path.join(res, name)), content, 'a text file')
    else:
        t.check_eq(m[0], name + '.json', 'kind of converted file')
        if well_formed(content.decode('utf-8-sig')):
            t.check_eq(norm(helper.brace_file_read(res, name)), norm(helper.brace_file_read(src, name)), 'lists after conversion and back')


def well_formed(text):
    """is it a brace file as the platform writes them?"""
    depth, prev, quoted, started = 0, '', False, False
    for c in text:
        if quoted:
            if c == '"':
                quoted = False
                prev = 'q'
            continue
        if c == '"':
            if prev == 'q':
                quoted = True
            elif prev == '{' or prev == ',':
                quoted = True
            else:
                return False
        elif c == '{':
            if started and not (prev == 'n'):
                return False
            depth += 1
            started = True
            prev = '{'
        elif c == '}':
            depth -= 1
            if depth < 0:
                return False
            prev = '}'
        elif c == ',':
            if depth == 0:
                return False
            prev = ','
        elif c == '\n':
            if prev == '{' or prev == ',':
                prev = 'n'
            elif prev == '}':
                prev = '}'
            else:
                return False
        else:
            if prev == '{' or prev == ',' or prev == 'a':
                prev = 'a'
            else:
                return False
    return depth == 0 and not quoted


def any_file(t, length, lead):
    """any text at all: kept or the conversion refuses it"""
    s = t.str('s', 0, length, chars='{},"\n\r#1 \ufeffя\\')
    content = (lead + s).encode('utf-8')
    src = os.path.join(t.dir, 'src')
    os.makedirs(src)
    with open(os.path.join(src, 'f'), 'wb') as f:
        f.write(content)
    try:
        mid, res = stage2(t)
    except Exception:
        return
    check_file(t, src, mid, res, 'f', content)


def any_bytes(t, length):
    content = t.bytes('b', 0, length)
    t.assume(not (content[:1] == b'{'))
    t.assume(not (content[:4] == b'\xef\xbb\xbf{'))
    src = os.path.join(t.dir, 'src')
    os.makedirs(src)
    with open(os.path.join(src, 'f'), 'wb') as f:
        f.write(content)
    mid, res = stage2(t)
    t.check_eq(os.listdir(res), ['f'], 'file names after conversion and back')
    t.check_eq(get(os.path.join(res, 'f')), content, 'a binary file is kept byte for byte')


def code_pages(t):
    """brace files in UTF-8 and in windows-1251 give the same lists"""
    s = t.str('s', 1, 3, chars='abЯёa"№ ')
    text = '{1,\n{' + quote(s) + ',7}\n}'
    enc = t.choice('enc', ['utf-8', 'utf-8-sig', 'windows-1251'])
    if enc == 'windows-1251':
        data = text.encode(enc)
        try:
            data.decode('utf-8')
            t.assume(s == 'a')          # text that is valid in both code pages is the same in both only when it is ASCII
        except UnicodeDecodeError:
            pass
    else:
        data = text.encode(enc)
    src = os.path.join(t.dir, 'src')
    os.makedirs(src)
    with open(os.path.join(src, 'f'), 'wb') as f:
        f.write(data)
    mid, res = stage2(t)
    t.check_eq(helper.json_read(mid, 'f.json'), [['1', [quote(s), '7']]], 'lists whatever the code page')
    t.check_eq(helper.brace_file_read(res, 'f'), [['1', [quote(s), '7']]], 'lists after conversion and back')


def whole_tree(t):
    """folders, several files of several kinds, any order of the work items"""
    t.any_schedule()
    src = os.path.join(t.dir, 'src')
    os.makedirs(os.path.join(src, 'sub.0', 'deep'))
    a, b = b'\xff{', t.str('b', 0, 1, exclude='\r')
    files = {'root': '{1,\n{' + quote(b) + '}\n}', 'sub.0/text': None, 'sub.0/deep/info.x': '{0}', 'versions': '{1,0}'}
    for n in files:
        with open(os.path.join(src, n), 'wb') as f:
            f.write(a if files[n] is None else files[n].encode())
    mid, res = stage2(t)
    t.check_eq(sorted(os.listdir(res)), ['root', 'sub.0', 'versions'], 'top level')
    t.check_eq(os.listdir(os.path.join(res, 'sub.0', 'deep')), ['info.x'], 'nested folder')
    t.check_eq(sorted(os.listdir(os.path.join(res, 'sub.0'))), ['deep', 'text'], 'folder')
    t.check_eq(get(os.path.join(res, 'sub.0', 'text')), a, 'binary file in a folder')
    t.check_eq(helper.brace_file_read(res, 'root'), [['1', [quote(b)]]], 'brace file')
    t.check_eq(helper.brace_file_read(os.path.join(res, 'sub.0', 'deep'), 'info.x'), [['0']], 'brace file in a folder')
    t.check_eq(helper.brace_file_read(res, 'versions'), [['1', '0']], 'brace file with small content')


def any_name(t):
    """names with dots, also such that look like the files of the JSON stage"""
    name = t.str('pre', 0, 2, chars='a.t') + t.choice('ext', ['', '.bin', '.txt', '.json', '.c1b64', '.BIN', '.0']) + t.str('post', 0, 2, chars='a.1')
    t.assume(len(name.strip('.')) > 0)
    content = t.choice('kind', [b'\xff\x00', b'{1,\n{"a"}\n}', b'{1,\n{#base64:AAAA}\n}'])
    src = os.path.join(t.dir, 'src')
    os.makedirs(src)
    with open(os.path.join(src, name), 'wb') as f:
        f.write(content)
    mid, res = stage2(t)
    t.check_eq(os.listdir(res), [name], 'name of the file')
    if content[:1] == b'{' and b'#' not in content:
        t.check_eq(helper.brace_file_read(res, name), [['1', ['"a"']]], 'brace file')
    else:
        t.check_eq(get(os.path.join(res, name)), content, 'content of the file')


def big_b64(t):
    """a file that is one base64 document is kept byte for byte"""
    v = t.str('v', 1, 5, chars='ABab09+/=\r\n')
    content = ('{1,\r\n{#base64:' + v + '}\r\n}').encode()
    src = os.path.join(t.dir, 'src')
    os.makedirs(src)
    with open(os.path.join(src, 'f'), 'wb') as f:
        f.write(content)
    mid, res = stage2(t)
    t.check_eq(get(os.path.join(res, 'f')), content, 'a base64 document is kept')


def encode_kinds(t):
    """what each kind of converted file becomes again"""
    mid, res = os.path.join(t.dir, 'mid'), os.path.join(t.dir, 'res')
    os.makedirs(mid)
    text = t.str('text', 0, 3, chars='aЯ{"\n')
    enc = t.choice('enc', ['utf-8', 'utf-8-sig', 'windows-1251'])
    data = text.encode(enc)
    if enc == 'windows-1251':
        try:
            data.decode('utf-8')
            t.assume(data == text.encode('utf-8'))
        except UnicodeDecodeError:
            pass
    for n, b in (('a.b.txt', data), ('form.bin', b'\x00\r\n{'), ('big.c1b64', b'{1,'), ('root.json', b'[["1", "2"]]')):
        with open(os.path.join(mid, n), 'wb') as f:
            f.write(b)
    jcd.json_encode(mid, res, pool=t.pool())
    t.check_eq(sorted(os.listdir(res)), ['a.b', 'big', 'form', 'root'], 'file names')
    t.check_eq(get(os.path.join(res, 'a.b')), data, 'text file')
    t.check_eq(get(os.path.join(res, 'form')), b'\x00\r\n{', 'binary file')
    t.check_eq(get(os.path.join(res, 'big')), b'{1,', 'base64 document')
    t.check_eq(helper.brace_file_read(res, 'root'), [['1', '2']], 'lists')
