"""Managed forms (raw trees) for the checks: an independent view of the element tree and operations on it."""
import copy
import glob
import json
import os

from harness import products, refbrace as rb

UUIDS = {'77ffcc29-7f2d-4223-b22f-19666e7250ba': 'Field', 'a9f3b1ac-f51b-431e-b102-55a69acdecad': 'Button',
         '3d3cb80c-508b-41fa-8a18-680cdf5f1712': 'Decoration', 'cd5394d0-7dda-4b56-8927-93ccbe967a01': 'Group',
         '143c00f7-a42d-4cd7-9189-88e4467dc768': 'Table', 'c5259a1d-518a-4afd-b98d-0176027e4feb': 'ItemAddition'}
UUID_OF = {v: k for k, v in UUIDS.items()}


def element_list(x):
    """Position of the count of the last list of elements that stands directly in x, or None."""
    found = None
    for i, y in enumerate(x):
        if isinstance(y, str) and y.isdigit() and y != '0' and i + 2 * int(y) < len(x):
            n = int(y)
            if all(isinstance(x[i + 1 + 2 * k], str) and x[i + 1 + 2 * k] in UUIDS and isinstance(x[i + 2 + 2 * k], list)
                   for k in range(n)):
                found = i
    return found


def name_pos(raw):
    """Position of the name: the first text that stands directly in the record of an element."""
    return next((i for i, y in enumerate(raw) if isinstance(y, str) and y[:1] == '"'), None)


def name_of(raw):
    i = name_pos(raw)
    return None if i is None else raw[i][1:-1].replace('""', '"')


def set_name(raw, name):
    raw[name_pos(raw)] = '"' + name.replace('"', '""') + '"'


def children(raw):
    """[(kind, raw)] of the elements that stand directly in raw."""
    i = element_list(raw)
    if i is None:
        return []
    return [(UUIDS[raw[i + 1 + 2 * k]], raw[i + 2 + 2 * k]) for k in range(int(raw[i]))]


def set_children(raw, items):
    i = element_list(raw)
    n = int(raw[i])
    raw[i:i + 1 + 2 * n] = [str(len(items))] + [y for kind, r in items for y in (UUID_OF[kind], r)]


def walk(raw, path=()):
    """Yields (parent raw, kind, raw, path of names) of all elements."""
    for kind, r in children(raw):
        p = path + (name_of(r),)
        yield raw, kind, r, p
        if kind in ('Group', 'Table'):
            yield from walk(r, p)


_corpus = None


def well_formed(t):
    """One form among the test data has texts with single quotes in them, which no platform file can have."""
    if isinstance(t, list):
        return all(well_formed(x) for x in t)
    return t[:1] != '"' or len(t) > 1 and t[-1] == '"' and '"' not in t[1:-1].replace('""', '')


def corpus():
    """[(name, tree)]: the forms of the samples and the ones among the test data."""
    global _corpus
    if _corpus is None:
        res = []
        for f in sorted(glob.glob(os.path.join(products.T, 'data/form_elem_803/*.json'))):
            with open(f, encoding='utf-8-sig') as h:
                res.append((os.path.basename(f)[:8], json.load(h)))
        from harness import synth
        for s in ('C803', 'P803', 'CE803'):
            p = synth.Product(s)
            for o in p.objects():
                data = p.main.get(f'{o.uid}.0')
                if o.kind.endswith('Form') and isinstance(data, bytes):
                    try:
                        res.append((f'{s}-{o.uid[:4]}', p.tree(f'{o.uid}.0')))
                    except rb.BraceError:
                        pass
        res = [(n, t) for n, t in res if well_formed(t) and len(t[0]) > 5 and t[0][0] in ('3', '4') and isinstance(t[0][1], list)]
        for n, t in res:  # a module that only reads an area needs another that owns it
            t[0][2] = t[0][2].replace('#Область includr_', '#Область include_')
            for _, _, r, path in walk(t[0][1]):
                if path[-1][:8] == 'includr_':
                    set_name(r, 'include_' + path[-1][8:])
        _corpus = sorted(res, key=lambda x: len(str(x[1])))
    return _corpus


def form(i):
    c = corpus()
    return copy.deepcopy(c[i % len(c)][1])


# ----------------------------------------------------------------------------------------------- operations
LINK = {'Field': 5, 'Table': 6}  # position of the link to an attribute, from the name
COMMAND = {'Button': 3}
PREFIX = ('include_', 'includr_')


def plain(raw):
    """The record without its child elements (their count is kept as None)."""
    i = element_list(raw)
    if i is None:
        return raw
    n = int(raw[i])
    return raw[:i] + [None] + raw[i + 1 + 2 * n:]


def section(t, at):
    """Rows of the attributes (3), parameters (4) or commands (5)."""
    x = t[0][at]
    return x[2:2 + int(x[1])]


def set_section(t, at, rows):
    x = t[0][at]
    x[1:2 + int(x[1])] = [str(len(rows))] + rows


def text(x):
    return x[1:-1].replace('""', '"')


def attributes(t):
    """[(id, name, [(id, name)])]"""
    res = []
    for r in section(t, 3):
        n = int(r[13])
        res.append((r[1][0], text(r[3]), [(c[1], text(c[3])) for c in r[14:14 + n]]))
    return res


def commands(t):
    return [(r[1], text(r[2])) for r in section(t, 5)]


def link_names(t, kind, raw):
    """What the element is bound to, by names: (attribute path or None, command or None)."""
    attr = cmd = None
    if kind in LINK:
        link = raw[name_pos(raw) + LINK[kind]]
        if link and link[0] != '0':
            rows, names = attributes(t), []
            for x in link[1:1 + int(link[0])]:
                found = next((r for r in rows if [r[0]] == x), None)
                if found is None:
                    names = None
                    break
                names.append(found[1])
                rows = [c + ([],) for c in found[2]] if len(found) > 2 else []
            attr = '.'.join(names) if names else None
    if kind in COMMAND:
        link = raw[name_pos(raw) + COMMAND[kind]]
        if link and link[0] != '0':
            cmd = next((n for i, n in commands(t) if i == link), None)
    return attr, cmd


class Edit:
    """Applies operations to a form tree; names stay unique in the form."""

    def __init__(self, t):
        self.t = t
        self.root = t[0][1]
        self.log = []

    def all(self):
        return list(walk(self.root))

    def names(self):
        return {name_of(r).lower() for _, _, r, _ in self.all()}

    def unique(self, name):
        used = self.names()
        cand, i = name, 1
        while cand.lower() in used:
            i += 1
            cand = f'{name}{i}'
        return cand

    def pick(self, i, kinds=None):
        found = [x for x in self.all() if kinds is None or x[1] in kinds]
        return found[i % len(found)] if found else None

    def containers(self):
        """Raw records that have a child list now (an absent list cannot be told from other zero counts)."""
        return [r for r in [self.root] + [x[2] for x in self.all() if x[1] == 'Group'] if children(r)]

    def insert(self, raw, kind, at, pos):
        cs = self.containers()
        if not cs:
            return False
        c = cs[at % len(cs)]
        raw = copy.deepcopy(raw)
        seen = set()
        for parent, k, r, path in [(None, kind, raw, ())] + (list(walk(raw)) if kind in ('Group', 'Table') else []):
            name = name_of(r)
            if name[:8] in PREFIX:
                name = 'Г' + name[8:]
            base, i = name, 1
            used = self.names() | seen
            while name.lower() in used:
                i += 1
                name = f'{base}{i}'
            seen.add(name.lower())
            set_name(r, name)
        items = children(c)
        items.insert(pos % (len(items) + 1), (kind, raw))
        set_children(c, items)
        return True

    def apply(self, op):
        what, args = op[0], op[1:]
        done = getattr(self, 'op_' + what)(*args)
        if done:
            self.log.append(what)

    def op_rename(self, i, name, kinds=None):
        x = self.pick(i, kinds)
        if x is None:
            return
        set_name(x[2], self.unique(name))
        return True

    def op_clone(self, i, at, pos):
        x = self.pick(i)
        return x and len(str(x[2])) < 60000 and self.insert(x[2], x[1], at, pos)

    def op_graft(self, f, i, at, pos):
        other = [(k, r) for _, k, r, _ in walk(form(f)[0][1]) if len(str(r)) < 60000]
        if not other:
            return
        k, r = other[i % len(other)]
        return self.insert(r, k, at, pos)

    def op_remove(self, i):
        x = self.pick(i)
        if x is None or len(children(x[0])) < 2:
            return
        set_children(x[0], [c for c in children(x[0]) if c[1] is not x[2]])
        return True

    def op_reorder(self, at, seed):
        import random
        cs = [c for c in self.containers() if len(children(c)) > 1]
        if not cs:
            return
        c = cs[at % len(cs)]
        items = children(c)
        random.Random(seed).shuffle(items)
        set_children(c, items)
        return True

    def op_move(self, i, at, pos):
        x = self.pick(i)
        if x is None or len(children(x[0])) < 2:
            return
        inside = [id(x[2])] + [id(r) for _, _, r, _ in walk(x[2])]
        cs = [c for c in self.containers() if id(c) not in inside]
        c = cs[at % len(cs)]
        set_children(x[0], [y for y in children(x[0]) if y[1] is not x[2]])
        items = children(c)
        items.insert(pos % (len(items) + 1), (x[1], x[2]))
        set_children(c, items)
        return True

    def op_attribute(self, i, name, new_id):
        rows = section(self.t, 3)
        if not rows:
            return
        r = copy.deepcopy(rows[i % len(rows)])
        used = {text(x[3]) for x in rows}
        while name in used:
            name += '1'
        ids = {x[1][0] for x in rows}
        while str(new_id) in ids:
            new_id += 1
        r[3], r[1][0] = '"' + name + '"', str(new_id)
        rows.insert(new_id % (len(rows) + 1), r)
        set_section(self.t, 3, rows)
        return True

    def op_bind(self, i, j):
        """Binds a field to an attribute of the form, or to a part of it."""
        fields = [x for x in self.all() if x[1] in LINK and x[2][name_pos(x[2]) + LINK[x[1]]]]
        rows = attributes(self.t)
        if not fields or not rows:
            return
        x = fields[i % len(fields)]
        targets = [([r[0]],) for r in rows] + [([r[0]], [c[0]]) for r in rows for c in r[2]]
        if j % 5 == 0:  # of something else with the same number
            targets = [([r[0], '02023637-7868-4a5f-8576-835a76e0c9ba'],) for r in rows] + \
                      [([r[0]], [c[0], '02023637-7868-4a5f-8576-835a76e0c9ba']) for r in rows for c in r[2]]
        target = targets[j % len(targets)]
        x[2][name_pos(x[2]) + LINK[x[1]]] = [str(len(target))] + [list(y) for y in target]
        return True

    def op_command(self, i, j, foreign):
        """Binds a button to a command of the form, or to one of something else with the same number."""
        buttons = [x for x in self.all() if x[1] in COMMAND and x[2][name_pos(x[2]) + COMMAND[x[1]]]]
        rows = commands(self.t)
        if not buttons or not rows:
            return
        x = buttons[i % len(buttons)]
        link = list(rows[j % len(rows)][0])
        if foreign:
            link[1] = 'c0519548-2a9a-44de-a25e-faf01e089d4d'
        x[2][name_pos(x[2]) + COMMAND[x[1]]] = link
        return True

    def op_reuuid(self, i):
        """Gives the element a new number."""
        x = self.pick(i)
        if x is None or not isinstance(x[2][1], list):
            return
        x[2][1][0] = str(1000 + i)
        return True

    def op_include(self, i, name, reader):
        """Makes a group (outside of and without other areas) a shared area."""
        found = [x for x in self.all() if x[1] == 'Group' and not any(n[:8] in PREFIX for n in x[3][:-1])
                 and not any(p[-1][:8] in PREFIX for _, _, _, p in walk(x[2]))]
        if not found:
            return
        x = found[i % len(found)]
        full = PREFIX[bool(reader)] + name
        if full.lower() in self.names() or PREFIX[not reader] + name.lower() in self.names():
            return
        set_name(x[2], full)
        return True


# ------------------------------------------------------------------------------------------------- products
def product(trees, names=None, base='P803'):
    """A small data processor that has the given managed forms only. -> (Product, [uid of each form])"""
    from harness import synth
    p = synth.Product(base)
    objs = p.objects()
    found = [o for o in objs if o.kind.endswith('Form') and isinstance(p.main.get(f'{o.uid}.0'), bytes)]
    for o in found[1:] + [o for o in objs if 'Template' in o.kind]:
        p.remove(o)
    o = found[0]
    p.rename(o, names[0] if names else 'Форма')
    uids = [o.uid]
    for i in range(1, len(trees)):
        uids.append(p.clone(o, names[i] if names else 'Форма'))
    for uid, t in zip(uids, trees):
        p.trees[f'{uid}.0'] = t
    return p, uids


def elem_files(tree):
    """{form name: decoded elem.json} of extracted sources {path: bytes}."""
    return {n.split('/')[-2]: json.loads(d) for n, d in tree.items() if n.endswith('Form.elem.json')}


def strategy(max_ops=8, include=True, big=True):
    from hypothesis import strategies as st
    from harness import gen
    I = st.integers(0, 200)
    name = st.one_of(gen.identifiers(12), st.sampled_from(['Моя_includr_1', 'Новыйinclude_x', 'include', 'includr', 'Include_А']))
    ops = [st.tuples(st.just('rename'), I, name), st.tuples(st.just('rename'), I, name, st.just(('Group', 'Table'))), st.tuples(st.just('clone'), I, I, I),
           st.tuples(st.just('graft'), I, I, I, I), st.tuples(st.just('graft'), I, I, I, I), st.tuples(st.just('remove'), I),
           st.tuples(st.just('reorder'), I, I), st.tuples(st.just('move'), I, I, I), st.tuples(st.just('attribute'), I, name, I),
           st.tuples(st.just('bind'), I, I), st.tuples(st.just('command'), I, I, st.booleans()), st.tuples(st.just('reuuid'), I)]
    if include:
        ops.append(st.tuples(st.just('include'), I, st.builds('{}_{}'.format, st.sampled_from(['core', 'lib_форма', '_x', 'ф']),
                                                              gen.identifiers(6).map(lambda s: s.replace('_', ''))
                                                              .filter(bool)), st.just(False)))
    n = len(corpus())
    which = st.one_of(st.integers(8, n - 8), st.integers(8, n - 8), st.integers(0, n - 1) if big else st.integers(8, n - 6))
    return st.fixed_dictionaries(dict(form=which, ops=st.lists(st.one_of(*ops), max_size=max_ops)))


def make(case):
    t = form(case['form'])
    e = Edit(t)
    for op in case['ops']:
        e.apply(op)
    return t, e
