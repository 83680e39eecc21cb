"""Edits a developer makes in extracted sources; applied to a tree {relative path: bytes}."""
import base64
import json
import re

from hypothesis import strategies as st

from harness import gen, synth

ELSEWHERE = 'в отдельном файле'
DATA_EXT = ('.c1b64', '.bin', '.mxl', '.html', '.c1brace', '.png', '.jpg', '.gif', '.bmp', '.c1res', '.zip')


def dump(obj):
    """As the tool writes it."""
    return json.dumps(obj, ensure_ascii=False, indent=2).encode('utf-8')


def records(obj):
    """Header records {n,{1,0,elsewhere},"name",{synonyms},"comment",...} of a source json, outermost first."""
    if isinstance(obj, list):
        if len(obj) >= 5 and isinstance(obj[1], list) and len(obj[1]) == 3 and obj[1][2] == ELSEWHERE \
                and isinstance(obj[2], str) and obj[2][:1] == '"' and isinstance(obj[3], list):
            yield obj
            return
        for x in obj:
            yield from records(x)
    elif isinstance(obj, dict):
        for x in obj.values():
            yield from records(x)


def own_files(tree):
    """Object files: <Kind>/<name>/<Kind>.json"""
    res = []
    for n in sorted(tree):
        parts = n.split('/')
        if len(parts) >= 3 and parts[-1] == parts[-3] + '.json':
            res.append(n)
    return res


def header_file(tree, i):
    n = synth._pick(own_files(tree), i)
    return (n, json.loads(tree[n].decode('utf-8-sig'))) if n else (None, None)


def edit_bsl(tree, i, text):
    names = [n for n in sorted(tree) if n.endswith('.bsl')]
    n = synth._pick(names, i)
    if n is None or not text:
        return
    folder = n.rsplit('/', 1)[0] + '/' if '/' in n else ''
    if any(b'": "windows-1251"' in d for m, d in tree.items() if m.startswith(folder) and m.endswith('.json')):
        text = text.encode('windows-1251', 'replace').decode('windows-1251')
    if tree[n][:3] == b'\xef\xbb\xbf':
        tree[n] = text.encode('utf-8-sig')
    else:
        tree[n] = text.encode()
    return 'bsl'


def edit_data(tree, i, spec):
    names = [n for n in sorted(tree) if n.endswith(DATA_EXT) and 'dummy' not in n and n.rsplit('/', 1)[-1] != 'version.bin']
    n = synth._pick(names, i)
    if n is None:
        return
    data = gen.expand(spec) or b'x'
    if data[:4] == b'\xff\xff\xff\x7f':
        data = b'x' + data
    if n.endswith('.c1b64'):  # a bracket file with the data as base64 text
        body = base64.b64encode(data).decode()
        data = ('\ufeff{1,\r\n{#base64:' + '\r\n'.join(body[k:k + 64] for k in range(0, len(body), 64)) + '}\r\n}').encode()
    part = n.split('.')[-2]
    if n.endswith('.bin') and any(f'"code_encoding_{part}": "bin"'.encode() in d for m, d in tree.items()
                                  if m.rpartition('/')[0] == n.rpartition('/')[0] and m.endswith('.json')):
        data = b'\x98\xff\n' + data  # a module in no known encoding stays one
    tree[n] = data
    return 'data ' + n.rsplit('.', 1)[1]


def edit_txt(tree, i, text):
    names = [n for n in sorted(tree) if n.endswith('.txt')]
    n = synth._pick(names, i)
    if n is None:
        return
    tree[n] = (b'\xef\xbb\xbf' if tree[n][:3] == b'\xef\xbb\xbf' else b'') + text.encode()
    return 'txt'


def edit_comment(tree, i, text):
    n, obj = header_file(tree, i)
    if n is None:
        return
    if n.rsplit('/', 1)[1] in ('Template.json', 'CommonTemplate.json', 'CommonPicture.json'):
        return  # the comment of these names the extension of the data file
    rec = next(records(obj.get('header', [])), None)
    if rec is None:
        return
    rec[4] = synth.quote(text)
    obj['comment'] = synth.quote(text)[1:-1]
    tree[n] = dump(obj)
    return 'comment'


def edit_synonym(tree, i, pairs):
    n, obj = header_file(tree, i)
    if n is None:
        return
    rec = next(records(obj.get('header', [])), None)
    if rec is None:
        return
    rec[3] = [str(len(pairs))] + [synth.quote(x) for pair in pairs for x in pair]
    obj['name2'] = {a: synth.quote(b)[1:-1] for a, b in pairs}
    tree[n] = dump(obj)
    return 'synonym'


def edit_property(tree, i, k, text):
    n, obj = header_file(tree, i)
    if n is None or 'Form' in n.rsplit('/', 1)[1]:
        return
    rec = next(records(obj.get('header', [])), None)
    cells = list(synth.leaves(obj.get('header', []), rec))
    if not cells:
        return
    lst, j = synth._pick(cells, k)
    lst[j] = synth.quote(text)
    tree[n] = dump(obj)
    return 'property'


def edit_element(tree, i, k, text):
    """A title in the description of a form element."""
    names = [n for n in sorted(tree) if n.endswith('.elem.json') and b'include_' not in tree[n] and b'includr_' not in tree[n]]
    n = synth._pick(names, i)
    if n is None:
        return
    obj = json.loads(tree[n].decode('utf-8-sig'))
    cells = []

    def walk(x):
        if isinstance(x, dict):
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for j, y in enumerate(x):
                if y == '"ru"' and j + 1 < len(x) and isinstance(x[j + 1], str) and x[j + 1][:1] == '"':
                    cells.append((x, j + 1))
                else:
                    walk(y)
    walk(obj)
    c = synth._pick(cells, k)
    if c is None:
        return
    c[0][c[1]] = synth.quote(text)
    tree[n] = dump(obj)
    return 'element'


def apply(tree, edits):
    log = []
    for e in edits:
        what = globals()['edit_' + e[0]](tree, *e[1:])
        if what:
            log.append(what)
    return log


def lf_texts():
    return synth.module_texts().map(lambda t: t.replace('\r\n', '\n'))


def strategy(contents=None):
    contents = contents or gen.content_specs(4000)
    i = synth.INT
    texts = synth.any_texts().map(lambda t: t.replace('\n', ' '))
    return st.one_of(
        st.tuples(st.just('bsl'), i, lf_texts()), st.tuples(st.just('bsl'), i, lf_texts()),
        st.tuples(st.just('data'), i, contents), st.tuples(st.just('data'), i, contents),
        st.tuples(st.just('txt'), i, lf_texts()),
        st.tuples(st.just('comment'), i, texts),
        st.tuples(st.just('synonym'), i, st.lists(st.tuples(st.sampled_from(['ru', 'en', 'de']), texts), max_size=3,
                                                  unique_by=lambda t: t[0])),
        st.tuples(st.just('property'), i, i, texts),
        st.tuples(st.just('element'), i, i, texts))
