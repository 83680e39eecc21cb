"""C12: form elements moved to shared areas return to the form unchanged."""
import copy
import json
import posixpath
import random

from hypothesis import strategies as st

from harness import areas, forms, oforms as of, products, refbrace as rb
from harness.checks.c13 import actual_tree, expected_data, expected_tree, form_of, without_count
from harness.core import cut, diff_obj, diff_trees, read_tree, require, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('managed forms as for C13 with one to three groups marked as shared areas (names with folders, parent folders and '
        'without, renamed by an index or not), and pairs of forms that share areas and number their attributes and commands '
        'differently; the area file must be where the name says and hold exactly the elements of the group, the build must '
        'return every form with its own bindings, and an edit of the area file must reach every form that uses it; panels: the '
        'same for panels of ordinary forms (as for C14), in both modes, also with read-only panels whose contents are outdated; '
        'non-trivial: the areas hold at least two elements')
ASSUMPTIONS = ['areas are not nested, as the documentation says', 'forms that write one area have the same elements in it']
QUICK_SECONDS = 40

NAMES = ['core_{}', 'lib_формы_{}', '_{}', '__{}', '{}', 'core__{}', '_lib_{}', 'core_includr_{}', 'include_{}']


def area_name(i, k):
    return NAMES[i % len(NAMES)].format(['лента', 'панель', 'низ', 'кнопки'][k % 4] + str(i % 3))


def area_groups(e):
    """[(parent, raw, path)] of the marked groups."""
    return [(parent, r, path) for parent, k, r, path in e.all() if path[-1][:8] in forms.PREFIX]


def add_areas(e, marks):
    for k, (i, n) in enumerate(marks):
        e.op_include(i, area_name(n, k), False)


def place(name, folder, table):
    path = areas.file_of((table or {}).get(name, name), folder)
    return posixpath.normpath(posixpath.join('d/e/src', path[:-4] + '.elem.json'))


def make_index(names, seed):
    if seed is None:
        return None
    rnd = random.Random(seed)
    table = {n: f'общие_ф{k}_{rnd.randrange(9)}' if rnd.random() < 0.5 else f'ф{k}x' for k, n in enumerate(sorted(names))
             if rnd.random() < 0.7}
    return {'Области include': table}


def run_extract(p, w, index, options=None):
    from v8unpack.v8unpack import extract
    with open(f'{w}/in.bin', 'wb') as f:
        f.write(p.bytes())
    if index is not None:
        with open(f'{w}/i.json', 'w', encoding='utf-8') as f:
            json.dump(index, f, ensure_ascii=False)
    with cut('extract'):
        extract(f'{w}/in.bin', f'{w}/x/d/e/src', temp_dir=f'{w}/t1', processes=1, index=f'{w}/i.json' if index is not None else None,
                options=dict(options) if options else None)
    return read_tree(f'{w}/x')


def run_build(w, index, options=None):
    from v8unpack.v8unpack import build
    with cut('build'):
        build(f'{w}/x/d/e/src', f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1, index=f'{w}/i.json' if index is not None else None,
                options=dict(options) if options else None)
    with open(f'{w}/out.bin', 'rb') as f:
        return products.unpack(f.read())


def renumber(t, seed):
    """Other numbers for attributes and commands, with everything that is bound to them by one or two steps."""
    rnd = random.Random(seed)
    rows = forms.section(t, 3)
    fixed = set()
    links = []
    for _, kind, r, path in forms.walk(t[0][1]):
        if kind in forms.LINK:
            link = r[forms.name_pos(r) + forms.LINK[kind]]
            if link and link[0] != '0':
                if forms.link_names(t, kind, r)[0] is None:
                    fixed.add(link[1][0])
                else:
                    links.append(link)
    free = [r for r in rows if r[1][0] not in fixed and len(r[1]) == 1]
    new = {}
    for r in free:
        new[r[1][0]] = str(500 + rnd.randrange(400))
        while list(new.values()).count(new[r[1][0]]) > 1:
            new[r[1][0]] = str(500 + rnd.randrange(400))
    parts = {}
    for r in free:
        old = r[1][0]
        r[1][0] = new[old]
        n = int(r[13])
        for c in r[14:14 + n]:
            if isinstance(c[1], str) and c[1].isdigit() and rnd.random() < 0.7:
                parts[old, c[1]] = str(1000 + len(parts))
                c[1] = parts[old, c[1]]
    for link in links:
        old = link[1][0]
        if old in new:
            link[1] = [new[old]]
            if len(link) > 2 and link[0] == '2' and (old, link[2][0]) in parts:
                link[2] = [parts[old, link[2][0]]]
    numbers = {}
    for r in forms.section(t, 5):
        old = list(r[1])
        r[1][0] = str(300 + rnd.randrange(100))
        while tuple(r[1]) in numbers.values():
            r[1][0] = str(300 + rnd.randrange(100))
        numbers[tuple(old)] = tuple(r[1])
    for _, kind, r, path in forms.walk(t[0][1]):
        if kind in forms.COMMAND:
            link = r[forms.name_pos(r) + forms.COMMAND[kind]]
            if link and tuple(link) in numbers:
                link[0] = numbers[tuple(link)][0]


def thin(t, seed):
    """Removes and reorders elements outside of the areas."""
    rnd = random.Random(seed)

    def go(raw):
        items = forms.children(raw)
        if not items:
            return
        keep = [x for x in items if rnd.random() < 0.7 or marked(x[1])] or items[:1]
        rnd.shuffle(keep)
        forms.set_children(raw, keep)
        for k, r in keep:
            if forms.name_of(r)[:8] not in forms.PREFIX and k == 'Group':
                go(r)

    def marked(raw):
        return forms.name_of(raw)[:8] in forms.PREFIX or any(q[-1][:8] in forms.PREFIX for _, _, _, q in forms.walk(raw))
    go(t[0][1])


def edit_area(area, raws, edits):
    """The same edits on the decoded area file and on the raw groups (with the same elements) of several forms."""
    log = []
    for what, i, j in edits:
        groups = []

        def collect(nodes, rr, path):
            if nodes:
                groups.append((nodes, rr, path))
                for k, node in enumerate(nodes):
                    if node.get('child'):
                        collect(node['child'], [forms.children(r)[k][1] for r in rr], f'{path}/{node["name"]}')
        collect(area['tree'], raws, '')
        if not groups:
            return log
        nodes, rr, path = groups[i % len(groups)]
        size = len(nodes)
        if what == 'text':  # a text of an element, not its name
            k = j % size
            key = next((n for n in area['data'] if n.endswith(f'{path}/{nodes[k]["name"]}')), None)
            cells = [(x, y) for x, y in zip(_texts(area['data'][key]['raw'], nodes[k]['type']),
                                            zip(*[_texts(forms.children(r)[k][1], nodes[k]['type']) for r in rr]))]
            if cells:
                (cell, at), others = cells[j % len(cells)]
                for c, a in [(cell, at)] + list(others):
                    c[a] = f'"правка {j}"'
                log.append(what)
            continue
        if what == 'order':
            order = list(range(size))
            random.Random(j).shuffle(order)
        else:
            order = [k for k in range(size) if k != j % size]
        if order == list(range(size)):
            continue
        nodes[:] = [nodes[k] for k in order]
        for r in rr:
            items = forms.children(r)
            forms.set_children(r, [items[k] for k in order])
        log.append(what)
    return log


def _texts(raw, kind):
    """Cells with localised texts, in order, without those of child elements."""
    res = []
    skip = [id(r) for _, r in forms.children(raw)] if kind in ('Group', 'Table') else []

    def walk(x):
        for j, y in enumerate(x):
            if isinstance(y, list):
                if id(y) not in skip:
                    walk(y)
            elif y == '"ru"' and j + 1 < len(x) and isinstance(x[j + 1], str) and x[j + 1][:1] == '"':
                res.append((x, j + 1))
    walk(raw)
    return res


def check_area_file(name, got, raw):
    d = diff_obj(expected_tree(raw), actual_tree(got['tree']), 'tree')
    require(not d, lambda: f'area {name}: element tree (form / area file): {d}')
    full = 'include_' + name
    want = {f'{full}/{n}': v for n, v in expected_data(raw).items()}
    require(set(want) == set(got['data']), lambda: f'area {name}: data of elements: '
            f'{sorted(set(want) ^ set(got["data"]))[:6]} not in both')
    for n, (kind, r) in want.items():
        d = diff_obj(r, without_count(got['data'][n]['raw']), n)
        require(not d, lambda: f'area {name}: data of an element (form / area file): {d}')


# ------------------------------------------------------------------------------------------ panels of ordinary forms
def area_panels(t):
    """[(path, panel)] of the marked panels."""
    return [(path, p) for path, p in of.panels(of.root(t)) if path and path[-1][:8] in forms.PREFIX]


def mark_panels(t, marks):
    for k, (i, n) in enumerate(marks):
        taken = [path for path, _ in area_panels(t)]
        free = [(path, p) for path, p in of.panels(of.root(t)) if path
                and not any(path[:len(q)] == q or q[:len(path)] == path for q in taken)]
        if free:
            of.set_name(free[i % len(free)][1], 'include_' + area_name(n, k))


def _walk_panel(panel):
    for path, p in of.panels(panel):
        for x in of.elements(p):
            yield p, x, path + (of.name_of(x),)


def inside(path, areas_):
    return any(path[:len(q)] == q and len(path) > len(q) for q in areas_)


def other_form(t, seed, auto, reader):
    """A form with the same marked panels: other elements around them, other numbers of attributes (and elements)."""
    rnd = random.Random(seed)
    e = of.Edit(copy.deepcopy(t))
    for _ in range(rnd.randrange(4)):
        marked = [path for path, _ in area_panels(e.t)]
        free = [i for i, (_, _, path) in enumerate(of.walk(e.t))
                if not any(path[:len(q)] == q or q[:len(path)] == path for q in marked)]
        if free:
            e.apply(('remove', rnd.choice(free)))
    t = e.t
    rows = of.props(t)
    order = list(range(len(rows)))
    rnd.shuffle(order)
    new = {r[0][0]: str(100 + order[k]) for k, r in enumerate(rows)}
    for r in rows:
        r[0][0] = new[r[0][0]]
    for link in of.links(t):
        link[1][1][0] = new.get(link[1][1][0], link[1][1][0])
    if auto:
        up = 50 + rnd.randrange(50)
        ids = {x[1] for _, x, _ in of.walk(t)}
        for _, p in of.panels(of.root(t)):
            for x in of.elements(p):
                for r in of.targets(x) + [r for lst in of.back(x) for r in lst]:
                    if r[1] in ids:
                        r[1] = str(int(r[1]) + up)
        for _, x, _ in list(of.walk(t)):
            x[1] = str(int(x[1]) + up)
        for link in of.links(t):
            link[0] = str(int(link[0]) + up)
        if of.default_id(t) in ids:
            t[0][1][1][2] = str(int(of.default_id(t)) + up)
        for _, p in of.panels(of.root(t)):
            of.put_borders(p, of.fresh_borders(p))
    if reader:
        for path, p in area_panels(t):
            of.set_name(p, 'includr_' + path[-1][8:])
    return t


def outdated(t, seed, auto):
    """Other contents of the read-only panels."""
    rnd = random.Random(seed)
    e = of.Edit(copy.deepcopy(t))
    for k in range(2):
        marked = [path for path, _ in area_panels(e.t) if path[-1][:8] == 'includr_']
        c = [i for i, (_, x, path) in enumerate(of.walk(e.t)) if inside(path, marked)
             and not any(y[1] == of.default_id(e.t) for y in [x] + [y for _, y, _ in (_walk_panel(x) if x[0] == of.PANEL else ())])]
        if c:
            e.apply(('remove', rnd.choice(c)) if auto and rnd.random() < 0.5 else ('text', rnd.choice(c), f'устарело {k}'))
    return e.t


def check_panel_file(name, got, panel, auto):
    want = of.expected_tree(panel, auto)
    require(got['tree'] == want, lambda: f'area {name}: elements (form / area file): {diff_obj(want, got["tree"])}')
    count = sum(len(of.elements(p)) + len(of.pages(p)) + 1 for _, p in of.panels(panel))
    require(len(got['data']) == count, lambda: f'area {name}: {len(got["data"])} records of {count} elements and pages')
    for n in got['data']:
        require(n.startswith(f'include_{name}/'), f'area {name}: record {n}')


def PARTS(rec):
    def panels(case):
        auto = case['auto']
        t, e = of.make(case)
        mark_panels(t, case['marks'])
        marked = area_panels(t)
        if not marked:
            return
        names = [path[-1][8:] for path, _ in marked]
        trees, given = [t], [t]
        if not any('_' not in n for n in names):  # an area without a folder belongs to one form
            for how in case['others']:
                u = other_form(t, how['seed'], auto, how['reader'])
                trees.append(u)
                given.append(outdated(u, how['seed'], auto) if how['reader'] else u)
        titles = [f'Форма{"АБВ"[k]}' for k in range(len(trees))]
        index = make_index(names, case['index'])
        if index and len(trees) > 1:
            index['Области include'] = {k: v for k, v in index['Области include'].items() if '_' in v}
        table = (index or {}).get('Области include')
        files = {place(n, f'Form/{titles[0]}', table): (n, p) for n, (_, p) in zip(names, marked)}
        if len(files) < len(marked):
            return
        p, uids = of.product([(copy.deepcopy(u), b'\xef\xbb\xbf') for u in given], titles)
        options = dict(auto_include=True) if auto else None
        same = (lambda a: of.canonical(a)) if auto else (lambda a: a)

        def check_forms(after, when):
            for k, (u, uid) in enumerate(zip(trees, uids)):
                a, b = same(u), same(of.form_of(after[-1], uid)[0])
                require(a == b, lambda: f'{when} form {k} of {len(trees)} differs: {diff_obj(a, b)}')
        with workdir() as w:
            tree = run_extract(p, w, index, options)
            own = {f'd/e/src/Form/{x}/Form.elem.json' for x in titles}
            found = {n for n in tree if n.endswith('.elem.json')} - own
            require(found == set(files), lambda: f'area files {sorted(found)}, by their names {sorted(files)}')
            for n, (name, panel) in files.items():
                check_panel_file(name, json.loads(tree[n]), panel, auto)
            for x, u in zip(titles, given):
                root = json.loads(tree[f'd/e/src/Form/{x}/Form.elem.json'])
                q = [path for path, _ in area_panels(u)]
                count = sum(1 for _, _, path in of.walk(u) if not inside(path, q)) \
                    + sum(len(of.pages(pp)) + 1 for path, pp in of.panels(of.root(u)) if not any(path[:len(y)] == y for y in q))
                require(len(root['data']) == count, lambda: f'{x}: {len(root["data"])} records, {count} elements and pages outside of areas')
            check_forms(run_build(w, index, options), 'rebuilt')
            log = []
            for what, i, j in case['edits']:
                n = sorted(files)[i % len(files)]
                name = files[n][0]
                area = json.loads(read_tree(f'{w}/x')[n])
                cells = [(path, x) for path, pp in area_panels(t) if path[-1][8:] == name for path, x in
                         [(path[-1:] + q, x) for _, x, q in _walk_panel(pp)]]
                if not cells:
                    continue
                path, _ = cells[j % len(cells)]
                key = [k for k in area['data'] if k.split('/')[-1] == path[-1] and 'id' in area['data'][k]]
                if len(key) != 1:
                    continue
                raw = area['data'][key[0]]['raw']
                if not isinstance(raw[-2], list):
                    continue
                raw[-2].append(f'"правка {j}"')
                for u in trees:
                    for q, pp in area_panels(u):
                        if q[-1][8:] == name:
                            for _, x, r in _walk_panel(pp):
                                if r == path[1:]:
                                    x[-2].append(f'"правка {j}"')
                write_tree(f'{w}/x', {n: json.dumps(area, ensure_ascii=False).encode()})
                log.append('text')
            if log:
                check_forms(run_build(w, index, options), 'after edits of the area files')
        rec.case(case, any(of.elements(p) for _, p in marked),
                 f'{"auto" if auto else "plain"} ordinary form {of.corpus()[case["form"]][0]}: panels {names}, {len(trees)} forms, {e.done}',
                 tags=[f'{len(trees)} forms', 'auto' if auto else 'plain'] + ['reader'] * any(o['reader'] for o in case['others'])
                 + ['panel in panel'] * any(len(path) > 1 for path, _ in marked))

    def split(case):
        t, e = forms.make(case)
        add_areas(e, case['marks'])
        groups = area_groups(e)
        p, (uid,) = forms.product([copy.deepcopy(t)], names=[case['name']])
        index = make_index([path[-1][8:] for _, _, path in groups], case['index'])
        table = (index or {}).get('Области include')
        with workdir() as w:
            tree = run_extract(p, w, index)
            folder = f'Form/{case["name"]}'
            elem = json.loads(tree[f'd/e/src/{folder}/Form.elem.json'])
            files = {place(path[-1][8:], folder, table): (path[-1][8:], r) for _, r, path in groups}
            if len(files) < len(groups):
                return
            found = {n for n in tree if n.endswith('.elem.json')} - {f'd/e/src/{folder}/Form.elem.json'}
            require(found == set(files), lambda: f'area files {sorted(found)}, by their names {sorted(files)}')
            inside = 0
            for n, (name, r) in files.items():
                check_area_file(name, json.loads(tree[n]), r)
                inside += len(list(forms.walk(r)))
            outside = {}
            inner = [path for _, _, path in groups]
            want = {'/'.join(path): None for _, _, _, path in e.all()
                    if not any(path[:len(q)] == q and len(path) > len(q) for q in inner)}
            require(set(elem['data']) == set(want), lambda: 'elements in the file of the form: '
                    f'{sorted(set(elem["data"]) ^ set(want))[:6]} not in both')
            after = form_of(run_build(w, index), uid)
            d = diff_obj(rb.norm(t), rb.norm(after), 'form')
            require(not d, lambda: f'the form is not rebuilt from its file and the area files: {d}')
        rec.case(case, inside > 1, f'form {forms.corpus()[case["form"]][0]}: areas {list(files)}, {inside} elements in them',
                 tags=[f'{len(groups)} areas'] + ['index'] * bool(table) + ['no folder'] * any('_' not in x[0] for x in files.values()))

    def shared(case):
        t, e = forms.make(case)
        add_areas(e, case['marks'])
        if not area_groups(e):
            return
        trees = [t]
        for k, how in enumerate(case['others']):
            u = copy.deepcopy(t)
            renumber(u, how['seed'])
            thin(u, how['seed'])
            if how['reader']:
                for _, r, path in area_groups(forms.Edit(u)):
                    forms.set_name(r, 'includr_' + path[-1][8:])
            trees.append(u)
        names = [path[-1][8:] for _, _, path in area_groups(e)]
        if len(set(place(n, 'Form/A', None) for n in names)) < len(names):
            return
        if any('_' not in n for n in names):
            return  # such an area belongs to one form
        p, uids = forms.product(copy.deepcopy(trees), names=[f'Форма{"БАВГ"[k]}' for k in range(len(trees))])
        index = make_index(names, case['index'])
        if index:
            index['Области include'] = {k: v for k, v in index['Области include'].items() if '_' in v}
        table = (index or {}).get('Области include')
        with workdir() as w:
            tree = run_extract(p, w, index)
            after = run_build(w, index)
            for k, uid in enumerate(uids):
                d = diff_obj(rb.norm(trees[k]), rb.norm(form_of(after, uid)), 'form')
                require(not d, lambda: f'form {k} of {len(trees)} that share areas is not rebuilt: {d}')
            log = []
            for name in names:
                n = place(name, 'Form/A', table)
                area = json.loads(tree[n])
                raws = []
                for u in trees:
                    raws += [r for _, r, path in area_groups(forms.Edit(u)) if path[-1][8:] == name]
                log += edit_area(area, raws, case['edits'])
                write_tree(f'{w}/x', {n: json.dumps(area, ensure_ascii=False).encode()})
            after = run_build(w, index)
            for k, uid in enumerate(uids):
                d = diff_obj(rb.norm(trees[k]), rb.norm(form_of(after, uid)), 'form')
                require(not d, lambda: f'after the edits {log} of the area files form {k} of {len(trees)} is not the one edited so: {d}')
        rec.case(case, True, f'form {forms.corpus()[case["form"]][0]}: {len(trees)} forms, areas {names}, edits {log}',
                 tags=log + [f'{len(trees)} forms'] + ['reader'] * any(o['reader'] for o in case['others']))

    return dict(split=split, shared=shared, panels=panels)


def run(rec):
    from harness import gen
    parts = PARTS(rec)
    n = len(forms.corpus())
    grouped = [i for i, (_, t) in enumerate(forms.corpus()) if any(k == 'Group' and forms.children(r) for _, k, r, _ in forms.walk(t[0][1]))]
    form = st.builds(lambda c, i, more: dict(c, form=grouped[i % (len(grouped) - 5 + c['form'] % 5)], **more),
                     forms.strategy(4, include=False), st.integers(0, 100), st.fixed_dictionaries(dict(
                         marks=st.lists(st.tuples(st.integers(0, 50), st.integers(0, 50)), min_size=1, max_size=3),
                         index=st.one_of(st.none(), st.integers(0, 100)))))
    run_property(rec, 'split', st.builds(lambda c, name: dict(c, name=name), form, gen.identifiers(10)), parts['split'],
                 1200, 30000, share=rec.budget * 0.35)
    edit = st.tuples(st.sampled_from(['order', 'drop', 'text', 'text']), st.integers(0, 50), st.integers(0, 50))
    more = st.fixed_dictionaries(dict(
        others=st.lists(st.fixed_dictionaries(dict(seed=st.integers(0, 1000), reader=st.booleans())), min_size=1, max_size=2),
        edits=st.lists(edit, max_size=4)))
    run_property(rec, 'shared', st.builds(lambda c, m: dict(c, **m), form, more), parts['shared'], 1000, 25000,
                 share=rec.budget * 0.35)
    with_panels = [i for i in range(len(of.corpus())) if len(list(of.panels(of.root(of.form(i))))) > 1]
    ordinary = st.builds(lambda c, i, more: dict(c, form=with_panels[i % len(with_panels)], **more), of.strategy(5), st.integers(0, 100),
                         st.fixed_dictionaries(dict(
                             auto=st.booleans(), index=st.one_of(st.none(), st.integers(0, 100)),
                             marks=st.lists(st.tuples(st.integers(0, 50), st.integers(0, 50)), min_size=1, max_size=2),
                             others=st.lists(st.fixed_dictionaries(dict(seed=st.integers(0, 1000), reader=st.booleans())), max_size=2),
                             edits=st.lists(edit, max_size=2))))
    run_property(rec, 'panels', ordinary, parts['panels'], 800, 20000, share=rec.budget * 0.3)
