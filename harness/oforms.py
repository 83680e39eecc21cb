"""Ordinary forms: corpus, structure, edits, products. Independent of the code under test."""
import copy
import json
import os

from harness import products, refbrace as rb

PANEL = '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'
TYPES = {
    '381ed624-9217-4e63-85db-c4c3cb87daae': 'Field', '35af3d93-d7c7-4a2e-a8eb-bac87a1a3f26': 'CheckBox',
    '782e569a-79a7-4a4f-a936-b48d013936ec': 'RadioBtn', '64483e7f-3833-48e2-8c75-2c31aac49f6e': 'SelectField',
    'e69bf21d-97b2-4f37-86db-675aea9ec2cb': 'CommandPanel', '6ff79819-710e-4145-97cd-1618da79e3e2': 'Button',
    '151ef23e-6bb2-4681-83d0-35bc2217230c': 'Image', '90db814a-c75f-4b54-bc96-df62e554d67d': 'Group',
    'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1': 'Table', '236a17b3-7f44-46d9-a907-75f9cdc61ab5': 'TableField', PANEL: 'Panel',
    '0fc7e20d-f241-460c-bdf4-5ad88e5474a5': 'Label', '19f8b798-314e-4b4e-8121-905b2a7a03f5': 'ListField',
    '36e52348-5d60-4770-8e89-a16ed50a2006': 'Separator', 'd92a805c-98ae-4750-9158-d9ce7cec2f20': 'FieldHtml',
    'b1db1f86-abbb-4cf0-8852-fe6ae21650c2': 'Indicator', 'e3c063d8-ef92-41be-9c89-b70290b5368b': 'CalendarBox',
    '6c06cd5d-8481-4b6f-a90a-7a97a8bb8bef': 'TrackBar', '14c4a229-bfc3-42fe-9ce1-2da049fd0109': 'TextDocumentField',
    '42248403-7748-49da-b782-e4438fd7bff3': 'GraphicalSchemaField', 'ad37194e-555e-4305-b718-5dca84baf145': 'GeographicalSchemaField',
    'a8b97779-1a4b-4059-b09c-807f86d2a461': 'Chart', 'e5fdc112-5c84-4a16-9728-72b85692b6e2': 'GanttChart',
    'a26da99e-184a-4823-b0d6-62816d38dc4e': 'PivotChart', '984981b1-622d-4ebc-94f7-885f0cdfb59a': 'Dendrogram'}
NO_ELEMENT = '4294967295'


# ----------------------------------------------------------------------------------------------- structure
def root(t):
    return t[0][1][2]


def nested(panel):
    return isinstance(panel[1], str)


def items_of(panel):
    """The list of elements: [count, elements...]"""
    return panel[-1] if nested(panel) else panel[2]


def elements(panel):
    return items_of(panel)[1:]


def put_elements(panel, items):
    lst = items_of(panel)
    lst[:] = [str(len(items))] + items


def data_of(panel):
    return (panel[2] if nested(panel) else panel[1])[1]


def after_lists(data, at, n):
    for _ in range(n):
        at += 1 + int(data[at])
    return at


def pages_at(panel):
    data = data_of(panel)
    at = after_lists(data, 2, 6) + 3
    assert isinstance(data[at], list) and data[at][0] == '1', data[at]
    return at


def pages(panel):
    """Page records."""
    p = data_of(panel)[pages_at(panel)]
    return p[2:2 + int(p[1])]


def page_names(panel):
    return [x[6][1:-1] for x in pages(panel)]


def borders(panel):
    """The four lists of elements bound to a border of the panel."""
    data = data_of(panel)
    at, res = 2, []
    for _ in range(4):
        n = int(data[at])
        res.append(data[at + 1:at + 1 + n])
        at += 1 + n
    return res


def put_borders(panel, lists):
    data = data_of(panel)
    end = after_lists(data, 2, 4)
    flat = []
    for x in lists:
        flat += [str(len(x))] + x
    data[2:end] = flat


def name_of(e):
    return e[-2][1][1:-1]


def set_name(e, name):
    e[-2][1] = f'"{name}"'


def page_of(e):
    return int(e[-3][-5])


def panels(panel, path=()):
    """-> (path of names, panel) of every panel, the given one first."""
    yield path, panel
    for e in elements(panel):
        if e[0] == PANEL:
            yield from panels(e, path + (name_of(e),))


def walk(t):
    """-> (owner panel, element, path)"""
    for path, p in panels(root(t)):
        for e in elements(p):
            yield p, e, path + (name_of(e),)


def targets(e):
    """The 12 records ['2', id, border, offset] that say to what the element is bound."""
    return [e[-3][6 + k][j] for k in range(6) for j in (1, 2)]


def back(e):
    """Four lists of records [x, id, border]: which elements are bound to this one. -> list of lists"""
    pos, at, res = e[-3], 12, []
    for _ in range(4):
        n = int(pos[at])
        res.append(pos[at + 1:at + 1 + n])
        at += 1 + n
    return res


def put_back(e, lists):
    pos = e[-3]
    end = after_lists(pos, 12, 4)
    flat = []
    for x in lists:
        flat += [str(len(x))] + x
    pos[12:end] = flat


def props(t):
    lst = t[0][2][2]
    return lst[1:1 + int(lst[0])]


def put_props(t, rows):
    lst = t[0][2][2]
    lst[0:1 + int(lst[0])] = [str(len(rows))] + rows


def links(t):
    return t[0][2][3][1:]


def put_links(t, rows):
    t[0][2][3][:] = [str(len(rows))] + rows


def default_id(t):
    return t[0][1][1][2]


def free(e):
    """The element is bound to borders of its panel only."""
    for r in targets(e):
        if r[1] not in ('-1', '0'):
            r[1], r[2] = '0', '1'
    put_back(e, [[], [], [], []])


def fresh_borders(panel):
    """The lists of the panel as its elements say."""
    lists = [[], [], [], []]
    for e in elements(panel):
        for k in range(6):
            for j in (1, 2):
                r = e[-3][6 + k][j]
                if r[1] == '0':
                    to = int(r[2])
                    lists[1 if to > 3 else to].append([e[-3][6 + k][0], e[1], str(1 if k > 3 else k)])
    return lists


def tidy(t):
    """Takes stale element numbers out of the records that bind elements."""
    for _, p in panels(root(t)):
        ids = {e[1] for e in elements(p)}
        for e in elements(p):
            for r in targets(e):
                if r[1] not in ids and r[1] not in ('-1', '0'):
                    r[1] = e[1]
            put_back(e, [[r for r in lst if r[1] in ids] for lst in back(e)])
        put_borders(p, fresh_borders(p))
    own = {e[1] for _, e, _ in walk(t)}
    put_links(t, [x for x in links(t) if x[0] in own])


# -------------------------------------------------------------------------------------------------- corpus
_corpus = None


def corpus():
    """[(name, tree)]; panels have no include marks."""
    global _corpus
    if _corpus is None:
        from harness import synth
        res = []
        p = synth.Product('P802')
        for n, v in sorted(p.main.items()):
            if isinstance(v, dict) and set(v) == {'form', 'module'}:
                res.append((n[:8], rb.parse(rb.decode_text(v['form'])[0])))
        with open(os.path.join(products.T, 'data/form82/СтраницыИПанели'), 'rb') as f:
            res.append(('data82', rb.parse(rb.decode_text(f.read())[0])))
        for n, t in res:
            for _, e, _ in walk(t):
                name = name_of(e)
                if name[:8] in ('include_', 'includr_'):
                    set_name(e, name[8:])
        _corpus = sorted(res, key=lambda x: len(str(x[1])))
    return _corpus


def form(i, stale=False):
    t = copy.deepcopy(corpus()[i % len(corpus())][1])
    if not stale:
        tidy(t)
    return t


def max_id(t):
    return max([int(e[1]) for _, e, _ in walk(t)] + [1])


# -------------------------------------------------------------------------------------------------- edits
class Edit:
    def __init__(self, t):
        self.t = t
        self.done = []

    def pick(self, i):
        c = list(walk(self.t))
        return c[i % len(c)] if c else None

    def panel(self, i):
        c = list(panels(root(self.t)))
        return c[i % len(c)][1]

    def unique(self, name):
        used = {name_of(e).lower() for _, e, _ in walk(self.t)}
        base, n = name, 0
        while name.lower() in used:
            n += 1
            name = f'{base}{n}'
        return name

    def apply(self, op):
        if getattr(self, 'op_' + op[0])(*op[1:]):
            self.done.append(op[0])
        for _, p in panels(root(self.t)):
            put_borders(p, fresh_borders(p))

    def op_rename(self, i, name):
        x = self.pick(i)
        if x:
            set_name(x[1], self.unique(name))
            return True

    def op_rename_page(self, i, j, name):
        p = self.panel(i)
        rows = pages(p)
        others = {n.lower() for k, n in enumerate(page_names(p)) if k != j % len(rows)}
        if name.lower() not in others:
            rows[j % len(rows)][6] = f'"{name}"'
            return True

    def insert(self, panel, e, pos, page, link=None):
        n = max_id(self.t)
        new = {}
        for k, x in enumerate([e] + [x for _, q in (panels(e) if e[0] == PANEL else ()) for x in elements(q)]):
            new[x[1]] = str(n + 1 + k)
            x[1] = new[x[1]]
            set_name(x, self.unique(name_of(x)) if k == 0 else self.unique(name_of(x) + '_'))
        if e[0] == PANEL:
            for _, q in panels(e):
                for x in elements(q):
                    for r in targets(x):
                        r[1] = new.get(r[1], r[1])
                    for lst in back(x):
                        for r in lst:
                            r[1] = new.get(r[1], r[1])
        free(e)
        e[-3][-5] = str(page % len(pages(panel)))
        items = elements(panel)
        items.insert(pos % (len(items) + 1), e)
        put_elements(panel, items)
        return new

    def op_clone(self, i, pos):
        x = self.pick(i)
        if not x or x[0] is None or len(str(self.t)) > 400000:
            return
        old = {l[0]: l[1] for l in links(self.t)}
        new = self.insert(x[0], copy.deepcopy(x[1]), pos, page_of(x[1]))
        put_links(self.t, links(self.t) + [[new[k], copy.deepcopy(v)] for k, v in old.items() if k in new])
        return True

    def op_graft(self, f, i, at, pos, page):
        src = form(f)
        c = list(walk(src))
        if not c or len(str(self.t)) > 400000:
            return
        self.insert(self.panel(at), copy.deepcopy(c[i % len(c)][1]), pos, page)
        return True

    def op_remove(self, i):
        x = self.pick(i)
        if not x:
            return
        panel, e, _ = x
        gone = {e[1]} | {y[1] for _, q in (panels(e) if e[0] == PANEL else ()) for y in elements(q)}
        put_elements(panel, [y for y in elements(panel) if y is not e])
        for y in elements(panel):
            for r in targets(y):
                if r[1] in gone:
                    r[1], r[2] = '0', '0'
            put_back(y, [[r for r in lst if r[1] not in gone] for lst in back(y)])
        put_links(self.t, [l for l in links(self.t) if l[0] not in gone])
        if default_id(self.t) in gone:
            self.t[0][1][1][2] = NO_ELEMENT
        return True

    def op_reorder(self, i, seed):
        p = self.panel(i)
        items = elements(p)
        put_elements(p, [items[k] for k in sorted(range(len(items)), key=lambda k: ((k + 1) * (seed * 2 + 1)) % 97)])
        return True

    def op_page(self, i, page):
        x = self.pick(i)
        if x:
            x[1][-3][-5] = str(page % len(pages(x[0])))
            return True

    def op_bind(self, i, slot, j):
        """Binds an element to another one of the same panel."""
        x = self.pick(i)
        if not x:
            return
        others = elements(x[0])
        o = others[j % len(others)]
        r = targets(x[1])[slot % 12]
        r[1], r[2], r[3] = o[1], str(slot % 4), str(j - 50)
        lists = back(o)
        lists[slot % 4].append([str(slot % 2), x[1][1], str(slot // 2 % 4)])
        put_back(o, lists)
        return True

    def op_border(self, i, slot, border):
        x = self.pick(i)
        if x:
            r = targets(x[1])[slot % 12]
            r[1], r[2], r[3] = ['0', '0', '-1'][border % 3], str(border % 6), str(border - 50)
            return True

    def op_prop(self, name, pid):
        rows = props(self.t)
        if name.lower() in {r[4][1:-1].lower() for r in rows} or str(pid) in {r[0][0] for r in rows}:
            return
        put_props(self.t, rows + [[[str(pid)], '0', '0', '1', f'"{name}"', ['"Pattern"', ['"S"', str(pid), '1']]]])
        return True

    def op_drop_prop(self, i):
        rows = props(self.t)
        if rows:
            gone = rows[i % len(rows)][0][0]
            put_props(self.t, [r for r in rows if r[0][0] != gone])
            put_links(self.t, [l for l in links(self.t) if l[1][1][0] != gone])
            return True

    def op_link(self, i, j, rest):
        """The data of an element: a form attribute, or a part of one."""
        x, rows = self.pick(i), props(self.t)
        if x and rows:
            step = [[str(rows[j % len(rows)][0][0])]]
            extra = [[], [['7']], [['0', 'f5358cc8-2cac-416e-a875-c7580b39515c']], [['3'], ['4']]][rest % 4]
            put_links(self.t, [l for l in links(self.t) if l[0] != x[1][1]]
                      + [[x[1][1], [str(1 + len(extra))] + step + extra]])
            return True

    def op_page_info(self, i, n):
        """More records about pages than four for each."""
        p = self.panel(i)
        data = data_of(p)
        at = pages_at(p) + 4
        count = int(data[at])
        if count > 40:
            return
        new = [copy.deepcopy(x) for x in (data[at + 1:at + 1 + count] or ['0'])[:1 + n % 4]]
        data[at + 1 + count:at + 1 + count] = new
        data[at] = str(count + len(new))
        return True

    def op_default(self, i):
        x = self.pick(i)
        if x:
            self.t[0][1][1][2] = x[1][1]
            return True

    def op_text(self, i, text):
        """Other content of an element."""
        x = self.pick(i)
        if x and isinstance(x[1][-2], list):
            x[1][-2].append('"' + text.replace('"', '""').replace('\r', '') + '"')
            return True

    def op_type(self, i, j):
        x = self.pick(i)
        if x and x[1][0] != PANEL:
            x[1][0] = sorted(set(TYPES) - {PANEL})[j % (len(TYPES) - 1)]
            return True


def make(case):
    t = form(case['form'], case.get('stale', False))
    e = Edit(t)
    for op in case['ops']:
        e.apply(op)
    return t, e


def strategy(max_ops=8):
    from hypothesis import strategies as st
    from harness import gen, synth
    I = st.integers(0, 100)
    name = st.one_of(gen.identifiers(12), st.sampled_from(['Страница1', 'Панель1', 'pages', 'Моя_includr_1', 'includr', 'Моя_include_1', 'include', '1', 'Page']))
    page = st.one_of(name, st.sampled_from(['ПолеВвода1', 'Основная', 'Страница2']))
    ops = [st.tuples(st.just('rename'), I, name), st.tuples(st.just('rename_page'), I, I, page),
           st.tuples(st.just('clone'), I, I), st.tuples(st.just('graft'), I, I, I, I, I),
           st.tuples(st.just('graft'), I, I, I, I, I), st.tuples(st.just('remove'), I), st.tuples(st.just('reorder'), I, I),
           st.tuples(st.just('page'), I, I), st.tuples(st.just('page'), I, I), st.tuples(st.just('bind'), I, I, I),
           st.tuples(st.just('border'), I, I, I), st.tuples(st.just('prop'), name, st.integers(1, 60)),
           st.tuples(st.just('drop_prop'), I), st.tuples(st.just('link'), I, I, I), st.tuples(st.just('default'), I), st.tuples(st.just('page_info'), I, I),
           st.tuples(st.just('text'), I, synth.any_texts()), st.tuples(st.just('type'), I, I)]
    return st.fixed_dictionaries(dict(form=st.integers(0, len(corpus()) - 1), ops=st.lists(st.one_of(*ops), max_size=max_ops)))


# ------------------------------------------------------------------------------------------------ reference
def expected_tree(panel, auto):
    """What the list of elements in the sources says."""
    names = page_names(panel)
    rows = []
    for e in elements(panel):
        row = dict(name=name_of(e), type=TYPES[e[0]])
        if not auto:
            row['page'] = names[page_of(e)]
        if e[0] == PANEL:
            row['child'] = expected_tree(e, auto)
        rows.append((page_of(e), row))
    if not auto:
        return [r for _, r in rows]
    return [dict(name=n, type='Page', child=[r for p, r in rows if p == k]) for k, n in enumerate(names)]


def canonical(t):
    """The form with elements named by their path, grouped by page, lists in a fixed order: what a renumbering keeps."""
    t = copy.deepcopy(t)
    ids = {e[1]: '/'.join(path) for _, e, path in walk(t)}
    assert len(ids) == len(list(walk(t))), 'numbers of elements are not unique'
    for _, p in panels(root(t)):
        own = {e[1] for e in elements(p)}
        put_borders(p, [sorted([x, ids.get(i, '?' + i), b] for x, i, b in lst) for lst in borders(p)])
        for e in elements(p):
            for r in targets(e):
                if r[1] not in ('-1', '0'):
                    r[1] = ids[r[1]] if r[1] in own else '?' + r[1]
            put_back(e, [[[r[0], ids[r[1]] if r[1] in own else '?' + r[1]] + r[2:] for r in lst] for lst in back(e)])
        put_elements(p, sorted(elements(p), key=page_of))
    for lst in [t]:
        put_links(t, sorted([ids.get(i, '?' + i), x] for i, x in links(t)))
    t[0][1][1][2] = ids.get(t[0][1][1][2], t[0][1][1][2])
    for _, e, path in list(walk(t)):
        e[1] = '/'.join(path)
    return t


def product(forms, names=None):
    """A data processor with the given ordinary forms: [(tree, module)]. -> (Product, [uids])"""
    from harness import synth
    p = synth.Product('P802')
    objs = p.objects()
    found = [o for o in objs if o.kind.endswith('Form') and isinstance(p.main.get(f'{o.uid}.0'), dict)]
    keep = found[0]
    for o in objs:
        if o.uid != keep.uid and (o.kind.endswith('Form') or 'Template' in o.kind):
            p.remove(o)
    p.rename(keep, names[0] if names else 'Форма')
    uids = [keep.uid] + [p.clone(keep, names[i] if names else 'Форма') for i in range(1, len(forms))]
    for uid, (t, module) in zip(uids, forms):
        p.main[f'{uid}.0'] = dict(form=b'\xef\xbb\xbf' + rb.serialise(t, nl='\r\n').encode(), module=module)
    return p, uids


def form_of(product_files, uid):
    v = product_files[f'{uid}.0']
    return rb.parse(rb.decode_text(v['form'])[0]), v['module']


def elem_files(tree):
    return {n.split('/')[-2]: json.loads(d) for n, d in tree.items() if n.endswith('Form.elem.json')}
