"""C30: a change of one object changes the sources of that object only, and the other way round."""
import json

from hypothesis import strategies as st

from harness import edits, products, synth
from harness.core import cut, read_tree, require, run_cases, run_property, short_diff, workdir, write_tree

LEVEL = 'exploration'
RULE = ('two products that differ by one to three operations are extracted and their sources compared object by object (an '
        'object is known by its identifier, wherever its folder is): only objects whose internal files differ may differ in '
        'their sources; sources of a product and the same with one to three files edited '
        'are built and the internal files compared: only those of the edited objects may differ; non-trivial: at least '
        'three objects, an object that changed and one that did not')
ASSUMPTIONS = ['forms that share areas inside the sources are changed together, by documentation: cases where a changed form or '
               'module marks an include area are left out',
               'the list of versions, the hash list of an extension and time stamps in nested containers differ anyway']
QUICK_SECONDS = 50
IGNORED = ('versions', 'configinfo')


def by_object(tree):
    """Sources by object: {identifier of the object: {path below its folder: bytes}}; the top object is ''."""
    home = {}
    for n, data in tree.items():
        folder, _, base = n.rpartition('/')
        if base.endswith('.id.json') and folder:
            try:
                uid = json.loads(data.decode('utf-8-sig')).get('uuid')
            except (ValueError, AttributeError):
                uid = None
            if uid:
                home[folder] = uid
    res, owner = {}, {}
    for n, data in tree.items():
        folder = n.rpartition('/')[0]
        while folder and folder not in home:
            folder = folder.rpartition('/')[0]
        uid = home.get(folder, '')
        res.setdefault(uid, {})[n[len(folder) + 1:] if folder else n] = data
        owner[n] = uid
    return res, owner


def main_source(files):
    """Files of the top object without what differs anyway."""
    res = dict(files)
    for n in products.TOP:
        if n in res:
            obj = json.loads(res[n].decode('utf-8-sig'))
            for k in IGNORED:
                obj.pop(k, None)
            res[n] = json.dumps(obj, ensure_ascii=False).encode()
    return res


def groups(main):
    res = {}
    for n, d in main.items():
        if n not in IGNORED:
            res.setdefault(n[:36], {})[n] = d
    return res


def marks_area(files):
    for d in files.values():
        for x in (d.values() if isinstance(d, dict) else [d]):
            if b'include_' in x or b'includr_' in x:
                return True
    return False


def PARTS(rec):
    def sources(p, w, name):
        from v8unpack.v8unpack import extract
        with open(f'{w}/{name}.bin', 'wb') as f:
            f.write(p.bytes())
        with cut('extract'):
            extract(f'{w}/{name}.bin', f'{w}/{name}', temp_dir=f'{w}/t', processes=1)
        return products.comparable_tree(read_tree(f'{w}/{name}'))

    def out(case):
        p = synth.apply(case)
        q = synth.apply(dict(case, ops=case['ops'] + case['change']))
        log = q.log[len(p.log):]
        with workdir() as w:
            a, b = by_object(sources(p, w, 'a'))[0], by_object(sources(q, w, 'b'))[0]
        ga, gb = groups(p.main), groups(q.main)
        changed = {u for u in set(ga) | set(gb) if ga.get(u) != gb.get(u)}
        if any(marks_area(g.get(u, {})) for u in changed for g in (ga, gb)):
            return rec.case(case, False, 'a changed object marks an include area')
        if p.top in changed or p.top_uid in changed or any(len(u) < 36 for u in changed):
            changed.add('')
        uids = set()
        for x in (p, q):
            for o in x.objects():
                uids.add(o.uid)
                if o.internal and o.file in changed:  # the header of a command lies in the file of its owner
                    changed.add(o.uid)
                    if o.file == x.top:
                        changed.add('')
        if p.containers[:-1] != q.containers[:-1]:
            changed.add('')
        for u in sorted(set(a) | set(b)):
            x, y = a.get(u, {}), b.get(u, {})
            if not u:
                x, y = main_source(x), main_source(y)
            if u in changed or x == y:
                continue
            n = next(n for n in sorted(set(x) | set(y)) if x.get(n) != y.get(n))
            how = short_diff(x[n], y[n]) if n in x and n in y else 'there in one of the two only'
            require(False, lambda: f'{log} changed the internal files of {sorted(changed)[:3]} only, but the source {n} of '
                    f'the object {u or "at the top"} differs: {how}')
        same = [u for u in uids if u not in changed]
        rec.case(case, len(uids) >= 3 and bool(changed) and bool(same),
                 f'{case["base"]}: {log} changed {len(changed)} of {len(uids)} objects', tags=['out ' + t for t in log])

    def back(case):
        from v8unpack.v8unpack import build
        p = synth.apply(case)
        with workdir() as w:
            sources(p, w, 'a')
            first = read_tree(f'{w}/a')
            tree = dict(first)
            log = edits.apply(tree, case['edits'])
            objects, owner = by_object(first)
            touched = [n for n in sorted(set(first) | set(tree)) if first.get(n) != tree.get(n)]
            if marks_area({n: t[n] for n in touched for t in (first, tree) if n in t}):
                return rec.case(case, False, 'an edited file marks an include area')
            changed = {owner[n] for n in touched}
            if '' in changed:
                changed |= {p.top, p.top_uid}
            write_tree(f'{w}/b', tree)
            main = []
            for name in 'ab':
                with cut('build'):
                    build(f'{w}/{name}', f'{w}/{name}.out', temp_dir=f'{w}/t', processes=1)
                with open(f'{w}/{name}.out', 'rb') as f:
                    main.append(products.unpack(f.read()))
        commands = {}
        for o in p.objects():
            if o.internal:
                commands.setdefault(o.file, set()).add(o.uid)
        for f, inner in commands.items():
            if inner & changed:
                changed.add(f)
        x, y = main[0][-1], main[1][-1]
        if '' not in changed:
            require(main[0][:-1] == main[1][:-1], lambda: f'the edit of {touched[:3]} changed the first container')
        for n in sorted(set(x) | set(y)):
            if x.get(n) == y.get(n) or n in IGNORED or n[:36] in changed or len(n) < 36 and '' in changed:
                continue
            require(False, lambda: f'the edit of {touched[:3]} changed the internal file {n} of another object: '
                    + (f'{"there" if n in y else "not there"} afterwards' if (n in x) != (n in y) else
                       f'{short_diff(x[n], y[n]) if isinstance(x[n], bytes) and isinstance(y[n], bytes) else "its parts differ"}'))
        if touched and all(n.endswith('.bsl') for n in touched):
            require(any(x.get(n) != y.get(n) for n in set(x) | set(y) if n not in IGNORED),
                    lambda: f'the edit of {touched} did not change the product')
        rec.case(case, len(objects) >= 3 and bool(touched), f'{case["base"]}: {log} in {touched[:2]}', tags=['in ' + t for t in log])

    return dict(out=out, back=back)


def run(rec):
    parts = PARTS(rec)
    wide = st.lists(synth.INT, min_size=3, max_size=6)
    base = st.fixed_dictionaries(dict(base=st.sampled_from(synth.BASES), keep=st.one_of(wide, wide, wide, st.none()),
                                      ops=st.lists(synth.ops(), max_size=3)))
    shape = st.tuples(st.just('form_shape'), synth.INT, st.integers(0, 9))
    change = st.lists(synth.ops(extra=[shape]), min_size=1, max_size=3)
    run_cases(rec, 'out', [dict(base=b, keep=None, ops=[], change=[op]) for b in ('C803', 'CE803', 'P803', 'apam', 'R803', 'P802') for op in (
        ('comment', 3, 'другой комментарий'), ('module', 1, 0, '// иначе\n', 0), ('clone', 5, 'Ещё'), ('remove', 7),
        ('leaf', 2, 3, 'Ы'), ('form_text', 0, 1, 'Подпись'), ('rename', 4, 'Инач'))], parts['out'])
    run_cases(rec, 'back', [dict(base=b, keep=None, ops=[], edits=[]) for b in ('C803',)], parts['back'])
    run_property(rec, 'out', st.builds(lambda c, x: dict(c, change=x), base, change), parts['out'], 400, 8000, share=QUICK_SECONDS * 0.5)
    run_property(rec, 'back', st.builds(lambda c, e: dict(c, edits=e), base, st.lists(edits.strategy(), min_size=1, max_size=3)),
                 parts['back'], 400, 8000)
