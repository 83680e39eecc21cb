"""C14: ordinary forms are split into pages and elements, losslessly."""
import copy
import json
import random
import uuid

from hypothesis import strategies as st

from harness import oforms as of, products, refbrace as rb, synth
from harness.checks import c17
from harness.core import cut, diff_obj, read_tree, require, run_property, workdir

LEVEL = 'exploration'
RULE = ('ordinary forms of the samples after random sequences of edits (elements renamed, cloned, grafted from another '
        'form, removed, reordered, moved to another page, bound to each other and to borders, of another type, pages '
        'renamed, attributes added, dropped and linked, also by several steps, another default element, any module): '
        'extract, compare the list of elements with a reference, build, compare the forms: (plain) exactly, (auto) '
        'in automatic mode up to a consistent renumbering of elements; (edited) the list of elements is edited before the build '
        '(elements of a page reordered, dropped, copied under another name, attributes reordered, added, dropped, bound to '
        'other elements, contents of an element and the module changed) and the form must be the one edited directly; (unknown) forms with an element of unknown type; '
        'non-trivial: at least one edit took effect')
ASSUMPTIONS = ['in automatic mode elements may be renumbered and grouped by page (the tool documents it as generated)',
               'names of elements are unique in a form, names of pages in a panel']
QUICK_SECONDS = 40


def edit_elem(data, t, auto, edits):
    """The same edits of the decoded list of elements and of the form. -> kinds of the edits that took effect"""
    done = []

    def places():
        """[(panel, its list, page or None, key of the list)]"""
        res = []

        def walk(nodes, panel, path):
            names = of.page_names(panel)
            if auto:
                lists = [(n['child'], n['name'], path + [n['name']]) for n in nodes]
            else:
                lists = [(nodes, None, path)]
            for lst, page, key in lists:
                if lst:
                    res.append((panel, lst, page, key))
            for lst, page, key in lists:
                for n in lst:
                    if n['type'] == 'Panel':
                        sub, = [x for x in of.elements(panel) if x[0] == of.PANEL and of.name_of(x) == n['name']]
                        walk(n['child'], sub, key + ([n['name']] if auto else [names[of.page_of(sub)], n['name']]))
        walk(data['tree'], of.root(t), [])
        return res

    def raw_of(panel, node):
        x, = [x for x in of.elements(panel) if of.name_of(x) == node['name']]
        return x

    def key_of(key, node):
        return '/'.join(key + ([] if auto else [node['page']]) + [node['name']])

    def bound(panel, x):
        if any(r[1] not in ('-1', '0') for r in of.targets(x)) or any(of.back(x)):
            return True
        return any(r[1] == x[1] for y in of.elements(panel) if y is not x
                   for r in of.targets(y) + [r for lst in of.back(y) for r in lst])

    def forget(x):
        gone = {x[1]} | {y[1] for _, q in (of.panels(x) if x[0] == of.PANEL else ()) for y in of.elements(q)}
        of.put_links(t, [l for l in of.links(t) if l[0] not in gone])
        if of.default_id(t) in gone:
            t[0][1][1][2] = of.NO_ELEMENT

    def arrange(panel, lst, page):
        """The elements of the list stand in its order."""
        at = {n['name']: k for k, n in enumerate(lst)}
        items = of.elements(panel)
        slots = [k for k, x in enumerate(items) if of.name_of(x) in at
                 and (page is None or of.page_names(panel)[of.page_of(x)] == page)]
        for k, x in zip(slots, sorted([items[k] for k in slots], key=lambda x: at[of.name_of(x)])):
            items[k] = x
        of.put_elements(panel, items)

    for what, i, j in edits:
        found = places()
        rows = data['props'] or []
        if what in ('order', 'drop', 'copy', 'text', 'bind', 'unbind') and not found:
            continue
        if found:
            panel, lst, page, key = found[i % len(found)]
            node = lst[j % len(lst)]
            x = raw_of(panel, node)
            rec_ = data['data'][key_of(key, node)]
        if what == 'order':
            if len(lst) < 2:
                continue
            random.Random(j).shuffle(lst)
            arrange(panel, lst, page)
        elif what == 'drop':
            if not auto or bound(panel, x):
                continue
            forget(x)
            lst.remove(node)
            if i % 2:
                del data['data'][key_of(key, node)]
            of.put_elements(panel, [y for y in of.elements(panel) if y is not x])
        elif what == 'copy':
            if not auto or x[0] == of.PANEL or bound(panel, x):
                continue
            used = {of.name_of(y).lower() for _, y, _ in of.walk(t)} | {p.lower() for _, q in of.panels(of.root(t)) for p in of.page_names(q)}
            name = next(n for n in (f'Копия{k}' for k in range(99)) if n.lower() not in used)
            new = copy.deepcopy(node)
            new['name'] = name
            lst.insert(i % (len(lst) + 1), new)
            data['data'][key_of(key, new)] = y = copy.deepcopy(rec_)
            of.set_name(y['raw'], name)
            z = copy.deepcopy(x)
            z[1] = str(of.max_id(t) + 1)
            of.set_name(z, name)
            of.put_elements(panel, of.elements(panel) + [z])
            of.put_links(t, of.links(t) + [[z[1], copy.deepcopy(l[1])] for l in of.links(t) if l[0] == x[1]])
            arrange(panel, lst, page)
        elif what == 'text':
            for r in (rec_['raw'], x):
                r[-2].append(f'"правка {j}"')
        elif what == 'bind':
            if not auto or not rows:
                continue
            p = rows[j % len(rows)]
            rec_['prop'] = p['name']
            rec_.pop('prop_path', None)
            of.put_links(t, [l for l in of.links(t) if l[0] != x[1]] + [[x[1], ['1', [p['id']]]]])
        elif what == 'unbind':
            if not auto or not rec_.pop('prop', None):
                continue
            rec_.pop('prop_path', None)
            of.put_links(t, [l for l in of.links(t) if l[0] != x[1]])
        elif what == 'prop order':
            if len(rows) < 2:
                continue
            random.Random(j).shuffle(rows)
            of.put_props(t, copy.deepcopy([r['raw'] for r in rows]))
        elif what == 'prop drop':
            free = [r for r in rows if not any(isinstance(d, dict) and d.get('prop') == r['name'] for d in data['data'].values())]
            if not free:
                continue
            rows.remove(free[j % len(free)])
            of.put_props(t, copy.deepcopy([r['raw'] for r in rows]))
        elif what == 'prop add':
            if not rows:
                continue
            new = copy.deepcopy(rows[j % len(rows)])
            number = str(max(int(r['id']) for r in rows) + 1)
            name = f'Новый{number}'
            if name in [r['name'] for r in rows]:
                continue
            new.update(name=name, id=number)
            new['raw'][0][0] = number
            new['raw'][4] = f'"{name}"'
            rows.insert(i % (len(rows) + 1), new)
            of.put_props(t, copy.deepcopy([r['raw'] for r in rows]))
        else:
            continue
        done.append(what)
    if auto:
        for _, p in of.panels(of.root(t)):
            of.put_borders(p, of.fresh_borders(p))
    return done


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def cycle(forms, auto, w, edit=None):
        p, uids = of.product(forms, [f'Форма{i}' for i in range(len(forms))])
        with open(f'{w}/in', 'wb') as f:
            f.write(p.bytes())
        options = dict(auto_include=True) if auto else None
        with cut('extract'):
            extract(f'{w}/in', f'{w}/l/out', temp_dir=f'{w}/t1', processes=1, options=dict(options) if options else None)
        files = of.elem_files(read_tree(f'{w}/l/out'))
        if edit:
            edit(f'{w}/l/out')
        with cut('build'):
            build(f'{w}/l/out', f'{w}/out', temp_dir=f'{w}/t2', processes=1, options=dict(options) if options else None)
        with open(f'{w}/out', 'rb') as f:
            after = products.unpack(f.read())[-1]
        return [files.get(f'Форма{i}') for i in range(len(forms))], [of.form_of(after, u) for u in uids]

    def text(raw):
        return rb.decode_text(raw)[0].replace('\r\n', '\n')

    def check(case, auto):
        made = [of.make(x) for x in case['forms']]
        modules = [x['module'] for x in case['forms']]
        forms = [(t, b'\xef\xbb\xbf' + m.replace('\n', '\r\n').encode()) for (t, e), m in zip(made, modules)]
        with workdir() as w:
            elems, back = cycle(forms, auto, w)
        for k, ((t, e), elem, (t2, m2)) in enumerate(zip(made, elems, back)):
            require(elem is not None, f'form {k} has no file of elements')
            want = of.expected_tree(of.root(t), auto)
            require(elem['tree'] == want, lambda: f'list of elements of form {k}: {diff_obj(want, elem["tree"])}')
            all_panels = list(of.panels(of.root(t)))
            count = sum(len(of.elements(p)) + len(of.pages(p)) + 1 for _, p in all_panels)
            require(len(elem['data']) == count, lambda: f'{len(elem["data"])} records of {count} elements and pages')
            names = [r[4][1:-1] for r in of.props(t)]
            got = [r['name'] for r in elem['props'] or []]
            require(got == names, lambda: f'attributes: {diff_obj(names, got)}')
            a, b = (of.canonical(t), of.canonical(t2)) if auto else (t, t2)
            require(a == b, lambda: f'form {k} differs: {diff_obj(a, b)}')
            want = modules[k]
            require(text(m2) == want, lambda: f'module of form {k}: {want!r} became {text(m2)!r}')
            if auto:
                ids = [int(x[1]) for _, x, _ in of.walk(t2)]
                require(sorted(ids) == list(range(2, 2 + len(ids))), f'numbers of elements: {ids}')
        effect = [x for t, e in made for x in e.done]
        rec.case((auto, case['forms']), bool(effect),
                 f'{"auto" if auto else "plain"}: {[(of.corpus()[x["form"]][0], e.done) for x, (t, e) in zip(case["forms"], made)]}',
                 tags=sorted(set(effect)) + ['nested panels'] * any(len(list(of.panels(of.root(t)))) > 1 for t, e in made)
                 + ['several pages'] * any(len(of.pages(p)) > 1 for t, e in made for _, p in of.panels(of.root(t))))

    def plain(case):
        check(case, False)

    def auto(case):
        check(case, True)

    def edited(case):
        t, e = of.make(case)
        auto = case['auto']
        done = []
        modules = [b'\xef\xbb\xbf' + '// до'.encode(), '// после']

        def edit(src):
            tree = read_tree(src)
            file, = [n for n in tree if n.endswith('Form.elem.json')]
            data = json.loads(tree[file])
            done.extend(edit_elem(data, t, auto, case['edits']))
            with open(f'{src}/{file}', 'w', encoding='utf-8') as f:
                json.dump(data, f, ensure_ascii=False, indent=2)
            if case['code']:
                code, = [n for n in tree if n.endswith('Form.obj.bsl')]
                with open(f'{src}/{code}', 'w', encoding='utf-8') as f:
                    f.write(modules[1])
                done.append('module')

        with workdir() as w:
            elems, back = cycle([(copy.deepcopy(t), modules[0])], auto, w, edit)
        t2, m2 = back[0]
        a, b = (of.canonical(t), of.canonical(t2)) if auto else (t, t2)
        require(a == b, lambda: f'after {done} the form differs: {diff_obj(a, b)}')
        want = modules[1] if case['code'] else '// до'
        require(text(m2) == want, lambda: f'module: {want!r} became {text(m2)!r}')
        rec.case(case, bool(done), f'{"auto" if auto else "plain"}: {of.corpus()[case["form"]][0]}, {e.done}, edits {done}',
                 tags=['edited ' + x for x in sorted(set(done))])

    def unknown(case):
        t, e = of.make(case)
        x = e.pick(case['at'])
        if not x:
            return
        if case['how'] == 0:
            x[1][0] = str(uuid.UUID(int=case['at'] + 12345))
        elif case['how'] == 1:
            t[0][0] = '29'
        else:
            of.root(t)[0] = str(uuid.UUID(int=case['at'] + 54321))
        with workdir() as w:
            elems, back = cycle([(t, b'\xef\xbb\xbf' + '// модуль'.encode())], case['auto'], w)
        require(back[0][0] == t, lambda: f'form of unknown layout differs: {diff_obj(t, back[0][0])}')
        require(text(back[0][1]) == '// модуль', f'module {back[0][1]!r}')
        rec.case(case, True, f'unknown {["element type", "form version", "root element"][case["how"]]}',
                 tags=[f'unknown {case["how"]}'])

    return dict(plain=plain, auto=auto, edited=edited, unknown=unknown)


def run(rec):
    parts = PARTS(rec)
    one = st.builds(lambda f, m: dict(f, module=c17.comment(c17.comment(m).replace('\r\n', '\n')) if m else m),
                    of.strategy(9), synth.module_texts().map(lambda t: '// начало\n' + t.replace('\r\n', '\n')))
    many = st.fixed_dictionaries(dict(forms=st.lists(one, min_size=1, max_size=2)))
    stale = st.fixed_dictionaries(dict(forms=st.lists(one.map(lambda f: dict(f, stale=True, ops=[])), min_size=1, max_size=1)))
    run_property(rec, 'plain', st.one_of(many, many, stale), parts['plain'], 1500, 30000, share=rec.budget * 0.3)
    run_property(rec, 'auto', many, parts['auto'], 1500, 30000, share=rec.budget * 0.3)
    edit = st.tuples(st.sampled_from(['order', 'order', 'drop', 'drop', 'copy', 'text', 'bind', 'unbind', 'prop order', 'prop drop',
                                      'prop add']), st.integers(0, 99), st.integers(0, 99))
    edits = st.builds(lambda f, x, auto, code: dict(f, edits=x, auto=auto, code=code), of.strategy(4),
                      st.lists(edit, min_size=1, max_size=8), st.sampled_from([True, True, True, False]), st.booleans())
    run_property(rec, 'edited', edits, parts['edited'], 800, 16000, share=rec.budget * 0.25)
    bad = st.builds(lambda f, at, how, auto: dict(f, at=at, how=how, auto=auto), of.strategy(3), st.integers(0, 100),
                    st.integers(0, 2), st.booleans())
    run_property(rec, 'unknown', bad, parts['unknown'], 500, 8000, share=rec.budget * 0.15)
