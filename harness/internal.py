"""Comparing the internal files of two products."""
from harness import products, refbrace as rb, synth
from harness.core import diff_obj, short_diff


def file_classes(p):
    """name -> how the file is compared: 'tree', 'module', 'text', 'exact', 'form'"""
    res = {}
    for o in p.objects():
        res[o.file] = 'tree'
        k = o.kind
        for n in synth.MODULES.get(k, {}).values():
            res[f'{o.uid}.{n}'] = 'module'
        if k in synth.HELP:
            res[f'{o.uid}.{synth.HELP[k]}'] = 'tree'
        if k in synth.PAYLOAD:
            res[f'{o.uid}.{synth.PAYLOAD[k][0]}'] = 'exact'
        if k in synth.INFO:
            res[f'{o.uid}.{synth.INFO[k]}'] = 'tree'
        if k in ('Template', 'CommonTemplate'):
            t = synth.template_type(p, o)
            res[f'{o.uid}.0'] = 'tree' if t in ('base64', 'extension', 'html') else 'text' if t == 'text' else 'exact'
        if k.endswith('Form'):
            res[f'{o.uid}.0'] = 'form'
    for n in synth.TOP_MODULES[p.type].values():
        res[f'{p.top_uid}.{n}'] = 'module'
    return res


def has_shared(data):
    """A form with read-only shared areas takes their content from the form that owns the area."""
    for x in data.values() if isinstance(data, dict) else [data]:
        if b'includr_' in x:
            return True
    return False


def same_tree(a, b):
    if a == b:
        return None
    try:
        ta = rb.parse_lenient(rb.decode_text(a)[0])
    except (rb.BraceError, UnicodeDecodeError):
        return short_diff(a, b)
    try:
        tb = rb.parse_lenient(rb.decode_text(b)[0])
    except (rb.BraceError, UnicodeDecodeError) as err:
        return f'not a bracket text any more ({err}): {b[:60]!r}'
    return diff_obj(rb.norm(ta), rb.norm(tb))


def same_text(a, b):
    if a == b:
        return None
    try:
        ta, tb = rb.decode_text(a)[0], rb.decode_text(b)[0]
    except UnicodeDecodeError:
        return short_diff(a, b)
    return None if ta == tb else short_diff(ta, tb)


def same_file(a, b, kind):
    if isinstance(a, dict) != isinstance(b, dict):
        return f'{"folder" if isinstance(a, dict) else "file"} became {"folder" if isinstance(b, dict) else "file"}'
    if isinstance(a, dict):
        if set(a) != set(b):
            return f'members {sorted(a)} became {sorted(b)}'
        for n in sorted(a):
            if n in ('info', 'form'):
                d = same_tree(a[n], b[n])
            elif n in ('text', 'module'):
                d = same_text(a[n], b[n])
            else:
                d = None if a[n] == b[n] else short_diff(a[n], b[n])
            if d:
                return f'{n}: {d}'
        return None
    if kind == 'exact':
        return None if a == b else short_diff(a, b)
    if kind in ('module', 'text'):
        return same_text(a, b)
    return same_tree(a, b)


def version_names(main):
    t = rb.parse(rb.decode_text(main['versions'])[0])[0]
    return t[1], t[2::2]


def compare(p, after, skip=()):
    """p: the Product built from; after: containers of the rebuilt product. -> list of differences"""
    res = []
    before = p.containers
    if len(before) != len(after):
        return [f'{len(before)} containers became {len(after)}']
    for a, b in zip(before[:-1], after[:-1]):
        for n in sorted(set(a) | set(b)):
            if a.get(n) != b.get(n):
                res.append(f'first container, {n}: changed or missing')
    a, b = before[-1], after[-1]
    kinds = file_classes(p)
    owner = {o.uid: o for o in p.objects()}
    for n in sorted(set(a) | set(b)):
        what = repr(owner[n[:36]]) if n[:36] in owner else 'top' if n[:36] in (p.top_uid, p.top) else ''
        if n not in b:
            res.append(f'{n} ({what}): lost')
        elif n not in a:
            if n != 'versions':
                res.append(f'{n} ({what}): invented')
        elif n == 'versions':
            continue
        elif n == 'configinfo':
            ta, tb = (rb.parse(rb.decode_text(x[n])[0]) for x in (a, b))
            d = diff_obj(ta[:2], tb[:2]) or diff_obj([ta[2][0], sorted(ta[2][1::2])], [tb[2][0], sorted(tb[2][1::2])])
            if d:
                res.append(f'{n}: {d}')
        elif n not in skip and not (kinds.get(n) == 'form' and has_shared(a[n])):
            d = same_file(a[n], b[n], kinds.get(n, 'tree'))
            if d:
                res.append(f'{n} ({what}, {kinds.get(n, "tree")}): {d}')
    if 'versions' in b:
        count, names = version_names(b)
        if count != str(len(names)):
            res.append(f'versions: count {count} but {len(names)} names')
        if sorted(names) != sorted(['""'] + [synth.quote(n) for n in b]):
            res.append('versions: names differ from the files present: '
                       f'{sorted(set(names) ^ set([chr(34) * 2] + [synth.quote(n) for n in b]))[:4]}')
    return res
