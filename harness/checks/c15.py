"""C15: template, picture and other payloads come out as their own bytes and go back."""
import base64
import copy
import re

from hypothesis import strategies as st

from harness import gen, internal, products, refbrace as rb, synth
from harness.core import cut, read_tree, require, run_cases, run_property, short_diff, workdir, write_tree

LEVEL = 'exploration'
RULE = ('products cut out of the samples, with an XDTO package and an interface made from nothing, whose payload carriers (templates of all ten types, common pictures, schedules, '
        'XDTO packages, predefined data, roles, route maps, help pages, start page of a configuration, its splash and its '
        'settings files) get generated payloads (texts also in UTF-16 and UTF-32), and whose templates and pictures get comments naming extensions; the '
        'file in the sources must hold the payload, after an optional replacement of the files the built product must '
        'hold the new payload and nothing else may change; non-trivial: at least one carrier with a payload')
ASSUMPTIONS = ['binary data in the layout of the platform (a bracket file with nothing but base64 data) stays whole in a '
               '.c1b64 file, help pages over 1 MB stay whole in a .bin file (documented)',
               'a payload that begins like a container is left out: such a file is unpacked as one by design',
               'line ends of text templates are normalised']
QUICK_SECONDS = 40
EXTENSIONS = ['', 'png', 'Логотип png', 'файл xml', 'данные json', 'JSON', 'x id', 'a b c d', 'слово', 'отчет 2019', 'bin', 'txt',
              'mxl', 'html', 'c1b64', 'zip ', 'очень_длинное', 'a.b', 'не, расширение.', 'x bsl', 'bat7', '80306', 'Макет 7z', 'a/b', 'png"',
              '1', 'json,', 'id.json']
B64 = '#base64:'


def wrap(text):
    return '\r\n'.join(text[k:k + 64] for k in range(0, len(text), 64))


def b64_file(data, layout):
    b = base64.b64encode(data).decode()
    text = ['{1,\r\n{#base64:%s}\r\n}' % wrap(b), '{1,\r\n{#base64:%s}\r\n}' % b][layout % 2]
    return ('\ufeff' + text).encode()


def first_b64(tree):
    for x in tree:
        if isinstance(x, list):
            r = first_b64(x)
            if r is not None:
                return r
        elif x.startswith('#data:') or x.lstrip('#').startswith('base64:'):
            return base64.b64decode(x.split(':', 1)[1])
    return None


def help_file(data, layout):
    b = base64.b64encode(data).decode()
    extra = [',0', ',"en",\r\n{#base64:QUJD},0', '\r\n'][layout % 3]
    mark, b = ('#data:', b) if layout // 6 % 4 == 3 else ('#base64:', wrap(b))
    return ('\ufeff{%d,1,"ru",\r\n{%s%s}%s}' % (2 if layout % 3 else 1, mark, b, extra)).encode()


def picture_file(data, layout):
    b = base64.b64encode(data).decode()
    tail = ['\r\n', ',\r\n{0}\r\n', ',1,"ru"'][layout % 3]
    mark, b = ('#data:', b) if layout // 6 % 4 == 3 else ('#base64:', wrap(b))
    return ('\ufeff{1,\r\n{0,0,-1,-1},\r\n{\r\n{%s%s}%s}\r\n}' % (mark, b, tail)).encode()


# a mark and the encoding it stands for
ENCODINGS = [('utf-8-sig', 'utf-8-sig', ''), ('utf-8', 'utf-8', ''), ('utf-16', 'utf-16-le', '\ufeff'),
             ('utf-16', 'utf-16-be', '\ufeff'), ('utf-32', 'utf-32-le', '\ufeff'), ('utf-32', 'utf-32-be', '\ufeff')]


def coded(text, layout):
    name, codec, mark = ENCODINGS[layout % 6]
    return (mark + text).encode(codec)


def text_of(data):
    return data.decode('utf-8', 'ignore').replace('\0', ' ').replace('\ufeff', '')


def carriers(p):
    """[(kind of carrier, object or None)], in a fixed order."""
    res = []
    for o in p.objects():
        if o.kind in ('Template', 'CommonTemplate'):
            res += [('template', o)] * 1
        if o.kind == 'CommonPicture':
            res.append(('picture', o))
        if o.kind in synth.PAYLOAD:
            res.append(('payload', o))
        if o.kind in synth.HELP:
            res.append(('help', o))
    if p.type == 'Configuration':
        res += [('tophelp', None), ('splash', None), ('topinfo', None)]
    if p.type == 'ConfigurationExtension':
        res += [('topinfo', None)]
    return res


_carriers = {}


def sample(base):
    """The sample with one object of each kind that carries a payload and is not in it."""
    p = synth.Product(base)
    for kind in ('XDTOPackage', 'Interface'):
        synth.craft(p, kind, 1, 'Новый')
    return p


def pick(base, i, what=None):
    if base not in _carriers:
        p = sample(base)
        rows = {}
        for c, o in carriers(p):
            chain, x = [], o
            while x is not None:
                chain.append(x.uid)
                x = x.owner
            key = c if c in ('topinfo', 'splash', 'tophelp') else c if c != 'payload' else 'payload ' + o.kind
            rows.setdefault(key, []).append((c, o.uid if o else None, chain[-1] if chain else None))
        _carriers[base] = rows
    rows = _carriers[base]
    if not rows:
        return None
    keys = sorted(rows)
    group = rows[keys[i % len(keys)]]
    return group[i // len(keys) % len(group)]


def folder(p, o):
    parts = []
    while o is not None:
        parts[:0] = [o.kind, p.record(o)[2][1:-1].replace('""', '"')]
        o = o.owner
    return '/'.join(parts)


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def put(p, c, o, spec, layout, ttype):
        """Stores the payload in the product. -> (internal name, codec, payload)"""
        data = gen.expand(spec)
        if data[:4] == b'\xff\xff\xff\x7f':
            data = b'x' + data
        if c == 'template':
            name = f'{o.uid}.0'
            t = synth.TEMPLATE_TYPES[ttype]
            if t in ('base64', 'extension'):
                raw, codec = b64_file(data, layout), 'b64'
            elif t == 'html':
                raw, codec = help_file(data, layout), 'page'
            elif t == 'text':
                text = text_of(data)
                if layout // 6 % 2 == 0:  # line ends as the platform writes them
                    text = text.replace('\r\n', '\n').replace('\r', '\n').replace('\n', '\r\n')
                raw, codec = coded(text, layout), 'text'
            else:
                raw, codec = data, 'raw'
        elif c == 'picture':
            name, raw, codec = f'{o.uid}.0', picture_file(data, layout), 'page'
        elif c == 'payload':
            name, raw, codec = f'{o.uid}.{synth.PAYLOAD[o.kind][0]}', data, 'raw'
        elif c == 'help':
            name, raw, codec = f'{o.uid}.{synth.HELP[o.kind]}', help_file(data, layout), 'page'
        elif c == 'tophelp':
            name, raw, codec = f'{p.top_uid}.3', help_file(data, layout), 'page'
        elif c == 'splash':
            name, raw, codec = f'{p.top_uid}.2', picture_file(data, layout), 'page'
        else:
            number = (['4', '8', '9', '10', 'a', 'b', 'c', 'd', 'e', 'f'] if p.type == 'Configuration' else ['8', '9', 'a'])
            name = f'{p.top_uid}.{number[layout % len(number)]}'
            raw, codec = rb.serialise([['1', synth.quote(text_of(data)), ['2', base64.b64encode(data).decode()]]]).encode('utf-8-sig'), 'json'
        p.main[name] = raw
        p.trees.pop(name, None)
        return name, codec, data

    def source_file(p, tree, c, o, ttype, comment):
        """The data file in the sources. -> name or None"""
        if o is None:
            return {'tophelp': 'help.html', 'splash': 'Заставка'}.get(c)
        d = folder(p, o)
        if c == 'payload':
            return f'{d}/{synth.PAYLOAD[o.kind][1]}'
        if c == 'help':
            return f'{d}/{o.kind}.html'
        kind = 'binary' if c == 'picture' or synth.TEMPLATE_TYPES[ttype] in ('base64', 'extension') else synth.TEMPLATE_TYPES[ttype]
        fixed = {'table': 'mxl', 'html': 'html', 'text': 'txt', 'binary': None}.get(kind, 'bin')
        if fixed:
            return f'{d}/{o.kind}.{fixed}'
        own = {f'{d}/{o.kind}.json', f'{d}/{o.kind}.id.json'}
        found = [n for n in tree if n.startswith(f'{d}/{o.kind}.') and n not in own]
        require(len(found) == 1, lambda: f'{d}: data files {found}')
        ext = found[0][len(f'{d}/{o.kind}.'):]
        if ext != 'c1b64':
            word = comment.split()[-1] if comment.split() else 'bin'
            if re.fullmatch('[A-Za-z0-9]{1,5}', word) and word.lower() not in ('json', 'c1b64', 'bsl'):
                require(ext == word, f'extension {ext!r}, comment {comment!r}')
        return found[0]

    def payload(case):
        p = sample(case['base'])
        items, seen = [], set()
        for it in case['items']:
            c = pick(case['base'], it['i'])
            if c and (c[0], c[1]) not in seen:
                seen.add((c[0], c[1]))
                items.append((c, it))
        if not items:
            return
        tops = {c[2] for c, _ in items}
        objs = p.objects()
        for o in objs:
            if o.owner is None and o.uid not in tops:
                p.remove(o, objs)
        by_uid = {o.uid: o for o in p.objects()}
        rows = []
        for (c, uid, _), it in items:
            o = by_uid.get(uid)
            ttype = '0'
            if c == 'template':
                cell = p.tree(o.file)[0][1]
                ttype = str(it['ttype'])
                cell[2 if o.kind == 'CommonTemplate' else 1] = ttype
            comment = EXTENSIONS[it['ext'] % len(EXTENSIONS)]
            if c in ('template', 'picture'):
                p.record(o)[4] = synth.quote(comment)
            name, codec, data = put(p, c, o, it['a'], it['layout'], ttype)
            rows.append((c, o, ttype, comment, name, codec, data, it))
        with workdir() as w:
            p.finish()
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(products.pack(p.containers))
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/x', temp_dir=f'{w}/t', processes=1)
            tree = read_tree(f'{w}/x')
            q = copy.deepcopy(p)
            checks, tags = [], []
            for c, o, ttype, comment, name, codec, data, it in rows:
                src = source_file(p, tree, c, o, ttype, comment)
                what = f'{c} {o.kind if o else ""} {synth.TEMPLATE_TYPES[ttype] if c == "template" else ""} {comment!r}'
                new = gen.expand(it['b']) if it['b'] is not None else None
                if new is not None and new[:4] == b'\xff\xff\xff\x7f':
                    new = b'x' + new
                tags.append(f'{c} {synth.TEMPLATE_TYPES[ttype]}' if c == 'template' else c if c != 'payload' else f'payload {o.kind}')
                want = data
                if codec == 'json':
                    pass
                elif src.endswith('.c1b64') and codec == 'b64':
                    require(src in tree, lambda: f'{what}: no {src}')
                    got = first_b64(rb.parse(rb.decode_text(tree[src])[0]))
                    require(got == data, lambda: f'{what}: {src} holds other data: {short_diff(data, got)}')
                    if new is not None:
                        want = new
                        if it['plain'] and re.fullmatch('[a-z]{2,4}', comment) and comment != 'json':
                            del tree[src]  # a plain file under the extension the comment names
                            tree[src[:-5] + comment] = new
                            tags.append('plain file instead of c1b64')
                        else:
                            tree[src] = b64_file(new, it['layout'])
                elif c in ('help', 'tophelp') and codec == 'page' and len(p.main[name]) > 1000000:
                    src = src[:-5] + '.bin'
                    require(tree.get(src) == p.main[name], lambda: f'{what}: {src} is not the stored file')
                    tags.append('page over 1 MB')
                else:
                    require(src in tree, lambda: f'{what}: no {src}, there are {sorted(n for n in tree if n.startswith(src.rsplit("/", 1)[0]))[:6]}')
                    got = tree[src]
                    if codec == 'text':
                        enc = ENCODINGS[it['layout'] % 6][0]
                        ref, got = text_of(data).replace('\r\n', '\n').replace('\r', '\n'), got.decode(enc)
                        require(got == ref, lambda: f'{what}: text {src} differs: {short_diff(ref, got)}')
                        want = ref
                        if new is not None:
                            want = text_of(new).replace('\r\n', '\n').replace('\r', '\n')
                            tree[src] = coded(want, it['layout'])
                    else:
                        require(got == data, lambda: f'{what}: {src} differs from the payload: {short_diff(data, got)}')
                        if new is not None:
                            want = tree[src] = new
                checks.append((what, name, codec, want, it))
                if new is not None:
                    tags.append('replaced')
            write_tree(f'{w}/y', tree)
            with cut('build'):
                build(f'{w}/y', f'{w}/out.bin', temp_dir=f'{w}/t', processes=1)
            with open(f'{w}/out.bin', 'rb') as f:
                after = products.unpack(f.read())
        main = after[-1]
        skip = set()
        for what, name, codec, want, it in checks:
            require(name in main, lambda: f'{what}: internal file {name[36:]} lost by the build')
            raw = main[name]
            require(isinstance(raw, bytes), f'{what}: became a folder')
            if codec == 'raw':
                require(raw == want, lambda: f'{what}: built payload differs: {short_diff(want, raw)}')
            elif codec == 'text':
                enc = ENCODINGS[it['layout'] % 6][0]
                require(raw.decode(enc).replace('\r\n', '\n') == want, lambda: f'{what}: built text differs: {short_diff(want, raw.decode(enc))}')
            elif codec in ('b64', 'page'):
                t = rb.parse(rb.decode_text(raw)[0])
                got = first_b64(t)
                require(got == want, lambda: f'{what}: built payload differs: {short_diff(want, got)}')
                ref = rb.parse(rb.decode_text(p.main[name])[0])
                require(hide(t) == hide(ref), lambda: f'{what}: the file around the payload changed: {hide(ref)} {hide(t)}')
            if codec != 'json':
                skip.add(name)
        problems = internal.compare(p, after, skip=skip)
        require(not problems, lambda: f'other files changed: ' + '; '.join(problems[:4]))
        rec.case(case, True, f'{case["base"]}: {[c[0] for c in checks]}', tags=tags)

    def hide(t):
        done = []

        def walk(x):
            if isinstance(x, list):
                return [walk(y) for y in x]
            if not done and (x.startswith('#data:') or x.lstrip('#').startswith('base64:')):
                done.append(1)
                return 'data' if x.startswith('#data:') else 'payload'
            return x
        return walk(rb.norm(t))

    def empty(case):
        """A picture, page or binary template whose internal file has no data stays as it is."""
        p = synth.Product(case['base'])
        c = pick(case['base'], case['i'])
        if not c or c[0] not in ('picture', 'help', 'tophelp', 'splash', 'template'):
            return
        objs = p.objects()
        for o in objs:
            if o.owner is None and o.uid != c[2]:
                p.remove(o, objs)
        o = {o.uid: o for o in p.objects()}.get(c[1])
        number = {'picture': '0', 'template': '0', 'tophelp': '3', 'splash': '2'}.get(c[0]) or synth.HELP[o.kind]
        ttype = '1'
        if c[0] == 'template':
            cell = p.tree(o.file)[0][1]
            cell[2 if o.kind == 'CommonTemplate' else 1] = ttype
        name = f'{o.uid if o else p.top_uid}.{number}'
        forms = {'picture': ['{1,\r\n{0,0,-1,-1},\r\n{}\r\n}', '{1,\r\n{0,0,-1,-1},\r\n{\r\n{}\r\n}\r\n}', '{1,\r\n{0,0,-1,-1},\r\n{\r\n{#base64:}\r\n}\r\n}'],
                 'template': ['{1,\r\n{#base64:}\r\n}', '{1,\r\n{#base64:}\r\n}', '{1,\r\n{#base64:}\r\n}']}
        forms['splash'] = forms['picture']
        page = ['{1,0}', '{1,1,"ru",\r\n{#base64:}\r\n}', '{1,1,"ru",\r\n{}\r\n}']
        p.main[name] = ('\ufeff' + forms.get(c[0], page)[case['form'] % 3]).encode()
        p.trees.pop(name, None)
        with workdir() as w:
            p.finish()
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(products.pack(p.containers))
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/x', temp_dir=f'{w}/t', processes=1)
            with cut('build'):
                build(f'{w}/x', f'{w}/out.bin', temp_dir=f'{w}/t', processes=1)
            with open(f'{w}/out.bin', 'rb') as f:
                after = products.unpack(f.read())
        problems = internal.compare(p, after)
        require(not problems, lambda: f'{c[0]} without data ({p.main[name]!r}): ' + '; '.join(problems[:4]))
        rec.case(case, True, f'{case["base"]} {c[0]} {case["form"]}', tags=[f'empty {c[0]}'])

    return dict(payload=payload, empty=empty)


BASES = ['C803', 'C803', 'C803-16', 'CE803', 'P803', 'R803', 'C803', 'apam']


def named():
    """Every extension a comment can name, every template type, every kind of carrier, pages over 1 MB."""
    base = 'C803'
    pick(base, 0)
    rows = _carriers[base]
    keys = sorted(rows)
    index = {k: n for n, k in enumerate(keys)}
    a, b = ('cyr', 300, 1), ('random', 200, 2)
    one = lambda **kw: dict(base=base, items=[dict(dict(i=0, a=a, b=b, layout=0, ttype=1, ext=0, plain=False), **kw)])
    res = []
    for ext in range(len(EXTENSIONS)):
        for key in ('picture', 'template'):
            res.append(one(i=index[key], ext=ext))
            if key == 'template':
                res.append(one(i=index[key], ext=ext, layout=1, plain=True))
    for t in range(10):
        for n in range(len(rows['template'])):
            res.append(one(i=index['template'] + n * len(keys), ttype=t, layout=n % 6))
    for key in keys:
        for n in range(min(len(rows[key]), 24)):
            res.append(one(i=index[key] + n * len(keys), layout=n, a=('random', 300, n)))
    for layout in range(12):  # texts with all kinds of ends
        for k in range(len(gen.ENDS)):
            res.append(one(i=index['template'], ttype=4, layout=layout, a=('ends', k % 3, k), b=('ends', k % 2, k + 3)))
    for layout in range(3):
        for size in (0, 1, 40, 300):
            res.append(one(i=index['template'], ttype=1, layout=layout, ext=1, a=('random', size, 1)))
    for key in ('help', 'tophelp'):
        res.append(one(i=index[key], a=('random', 760000, 1), b=None))
    for key in keys:  # large payloads
        if key not in ('help', 'tophelp'):
            for t in range(10) if key == 'template' else (1,):
                res.append(one(i=index[key], ttype=t, a=('random', 200000, 1), b=('random', 170000, 2)))
        else:
            res.append(one(i=index[key], a=('random', 700000, 1), b=('random', 650000, 2)))
    return res


def run(rec):
    parts = PARTS(rec)
    small = gen.content_specs(3000)
    item = st.fixed_dictionaries(dict(i=st.integers(0, 400), a=small, b=st.one_of(st.none(), small), layout=st.integers(0, 23), ttype=st.integers(0, 9),
                                      ext=st.integers(0, len(EXTENSIONS) - 1), plain=st.booleans()))
    run_cases(rec, 'empty', [dict(base=b, i=i, form=f) for b in ('C803', 'CE803') for i in range(45) for f in range(3)], parts['empty'])
    run_cases(rec, 'payload', named(), parts['payload'])
    case = st.fixed_dictionaries(dict(base=st.sampled_from(BASES), items=st.lists(item, min_size=1, max_size=5)))
    run_property(rec, 'payload', case, parts['payload'], 3600, 60000)
