"""C13: managed forms are split into elements, attributes and module, losslessly."""
import copy
import json
import random

from hypothesis import strategies as st

from harness import forms, internal, products, refbrace as rb, synth
from harness.checks.c07 import rebuild
from harness.core import cut, diff_obj, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('forms made from the real managed forms of the samples and test data (elements grafted between forms, cloned, '
        'removed, moved, renamed, rebound to attributes and commands, groups turned into shared areas, attributes added); '
        'the extracted element tree, the data of every element, attributes, commands, parameters and module must be those '
        'an independent reader finds in the raw form, the build must return the form, and edits of the extracted tree must '
        'give the form edited the same way, down to groups, tables and attributes that lose all children; forms of layouts '
        'the tool does not know must come back as they were; non-trivial: at least two elements')
ASSUMPTIONS = ['element names are unique in a form, as the platform demands']
QUICK_SECONDS = 45

MARK = 'Дочерние элементы отдельно'


def expected_tree(raw):
    return [dict(name=forms.name_of(r), type=k, child=expected_tree(r) if k in ('Group', 'Table') else [])
            for k, r in forms.children(raw)]


def actual_tree(nodes):
    return [dict(name=x['name'], type=x['type'], child=actual_tree(x.get('child') or [])) for x in nodes or []]


def expected_data(raw, path=''):
    """{path: raw record without its elements}; in the path of children a read-only area is written include_."""
    res = {}
    for k, r in forms.children(raw):
        name = forms.name_of(r)
        res[f'{path}{name}'] = (k, forms.plain(r) if k in ('Group', 'Table') else r)
        if k in ('Group', 'Table'):
            inner = 'include_' + name[8:] if name[:8] == 'includr_' else name
            res.update(expected_data(r, f'{path}{inner}/'))
    return res


def without_count(raw):
    """A record of the sources with the count of elements that were taken out as None."""
    return [None if x == MARK else x for x in raw]


def sources(p, w):
    from v8unpack.v8unpack import extract
    with open(f'{w}/in.bin', 'wb') as f:
        f.write(p.bytes())
    with cut('extract'):
        extract(f'{w}/in.bin', f'{w}/x/src', temp_dir=f'{w}/t1', processes=1)
    return read_tree(f'{w}/x')


def built(w):
    from v8unpack.v8unpack import build
    with cut('build'):
        build(f'{w}/x/src', f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1)
    with open(f'{w}/out.bin', 'rb') as f:
        return products.unpack(f.read())


def form_of(containers, uid):
    return rb.parse(rb.decode_text(containers[-1][f'{uid}.0'])[0])


def PARTS(rec):
    def split(case):
        t, e = forms.make(case)
        if case['module'] is not None:
            t[0][2] = '"' + case['module'].replace('"', '""') + '"'
        p, (uid,) = forms.product([copy.deepcopy(t)], names=[case['name']])
        with workdir() as w:
            tree = sources(p, w)
            elem = forms.elem_files(tree)
            require(list(elem) == [case['name']], lambda: f'form files: {list(elem)}')
            elem = elem[case['name']]
            areas = [n for _, _, _, path in e.all() for n in path[-1:] if n[:8] == 'include_']
            if not areas:
                d = diff_obj(expected_tree(t[0][1]), actual_tree(elem['tree']), 'tree')
                require(not d, lambda: f'element tree (form / sources): {d}')
                want = expected_data(t[0][1])
                require(set(want) == set(elem['data']), lambda: 'elements with data: '
                        f'{sorted(set(want) ^ set(elem["data"]))[:6]} not in both')
                for name, (kind, raw) in want.items():
                    got = elem['data'][name]
                    d = diff_obj(raw, without_count(got['raw']), name)
                    require(not d, lambda: f'data of an element (form / sources): {d}')
                    attr, cmd = forms.link_names(t, kind, raw)
                    require((got.get('ПутьКДанным') or None, got.get('ИмяКоманды') or None) == (attr, cmd),
                            lambda: f'{name}: bound to {(attr, cmd)}, in the sources '
                                    f'{(got.get("ПутьКДанным"), got.get("ИмяКоманды"))}')
            want = forms.attributes(t)
            got = [(x['id'], x['name'], [(c['id'], c['name']) for c in x.get('child', [])]) for x in elem['props'] or []]
            require(want == got, lambda: f'attributes: {want} in the sources {got}')
            want = [n for i, n in forms.commands(t)]
            got = [x['name'] for x in elem['commands'] or []]
            require(want == got, lambda: f'commands: {want} in the sources {got}')
            want = [forms.text(r[1]) for r in forms.section(t, 4)]
            got = [x['name'] for x in elem['params'] or []]
            require(want == got, lambda: f'parameters: {want} in the sources {got}')
            after = built(w)
            problems = internal.compare(p, after)
            require(not problems, lambda: f'rebuilt: ' + '; '.join(problems[:3]))
        n = len(e.all())
        rec.case(case, n > 1, f'form {forms.corpus()[case["form"]][0]}: {n} elements, {e.log}',
                 tags=e.log + ['areas'] * bool(areas))

    def emptied(nodes, child, how):
        for x in nodes:
            if x.get('child') is child:
                if how % 3 == 1:
                    x['child'] = None
                elif how % 3 == 2:
                    del x['child']
            elif isinstance(x.get('child'), list):
                emptied(x['child'], child, how)

    def edited(case):
        t, e = forms.make(case)
        p, (uid,) = forms.product([copy.deepcopy(t)])
        log = []
        with workdir() as w:
            tree = sources(p, w)
            path = next(n for n in tree if n.endswith('Form.elem.json'))
            elem = json.loads(tree[path])
            groups = []
            areas = any(n[:8] in forms.PREFIX for _, _, _, q in e.all() for n in q)  # they need what they are bound to

            def collect(nodes, raw):
                groups.append((nodes, raw))
                for node, (k, r) in zip(nodes, forms.children(raw)):
                    if isinstance(node.get('child'), list) and node['child']:
                        collect(node['child'], r)
            if elem['tree']:
                collect(elem['tree'], t[0][1])
            for what, i, j in case['edits']:
                if what in ('attribute', 'command', 'parameter'):
                    key, at = dict(attribute=('props', 3), command=('commands', 5), parameter=('params', 4))[what]
                    rows = forms.section(t, at)
                    if len(rows) > 1:
                        order = random.Random(j).sample(range(len(rows)), max(1, len(rows) - (0 if areas else i % 2)))
                        elem[key][:] = [elem[key][k] for k in order]
                        forms.set_section(t, at, [rows[k] for k in order])
                        log.append(what)
                    continue
                if what == 'column':
                    rows = [(x, r) for x, r in zip(elem.get('props') or [], forms.section(t, 3)) if x.get('child')]
                    if not rows or areas:
                        continue
                    x, r = rows[i % len(rows)]
                    n = len(x['child'])
                    order = [k for k in range(n) if k != j % n] if j % 5 else [] if j % 2 else list(range(n))[::-1]
                    x['child'] = [x['child'][k] for k in order]
                    r[13:14 + n] = [str(len(order))] + [r[14 + k] for k in order]
                    if not order and i % 2:
                        del x['child']
                    log.append(what if order else 'last column')
                    continue
                if not groups:
                    continue
                nodes, raw = groups[i % len(groups)]
                items = forms.children(raw)
                if what == 'order':
                    order = list(range(len(items)))
                    random.Random(j).shuffle(order)
                else:
                    order = [k for k in range(len(items)) if k != j % len(items)]
                if order == list(range(len(items))) or not order and areas:
                    continue
                nodes[:] = [nodes[k] for k in order]
                forms.set_children(raw, [items[k] for k in order])
                if not order:  # an element without children may say so in other ways
                    emptied(elem['tree'], nodes, j)
                    log.append('last')
                groups[:] = []
                collect(elem['tree'], t[0][1])
                log.append(what)
            write_tree(f'{w}/x', {path: json.dumps(elem, ensure_ascii=False).encode()})
            after = form_of(built(w), uid)
            d = diff_obj(rb.norm(t), rb.norm(after), 'form')
            require(not d, lambda: f'after the edits {log} of the sources the form is not the form edited so: {d}')
        rec.case(case, len(log) > 0, f'form {forms.corpus()[case["form"]][0]}: {e.log} edits {log}', tags=log)

    def unknown(case):
        """Parts in an unknown layout are kept as they are."""
        t, e = forms.make(case)
        rnd = random.Random(case['seed'])
        what = case['what']
        if what in ('attribute', 'command', 'parameter'):
            rows = forms.section(t, dict(attribute=3, command=5, parameter=4)[what])
            if not rows:
                return
            r = rows[case['i'] % len(rows)]
            k = case['k'] % 4
            if k == 0:
                del r[rnd.randrange(1, len(r)):]
            elif k == 1:
                r.insert(rnd.randrange(1, len(r)), ['9', '"новое"'])
            elif k == 2:
                r.insert(rnd.randrange(1, len(r)), '7')
            else:
                r[rnd.randrange(1, len(r))] = rnd.choice(['', '"x"', ['0'], ['']])
        elif what == 'layout':
            k = case['k'] % 6
            r = t[0][1]
            if k == 0:
                t[0][0] = rnd.choice(['5', '10', '49'])
            elif k == 1:
                r.insert(rnd.randrange(1, min(len(r), 40)), rnd.choice(['7', '0', ['9', '"новое"'], '"x"']))
            elif k == 2:
                del r[rnd.randrange(1, min(len(r), 40))]
            elif k == 3:
                del r[rnd.randrange(1, len(r)):]
            elif k == 4:
                t[0][rnd.choice([3, 4, 5])] = rnd.choice([['0'], ['7', ['1']], ['"x"'], ['1', '1', '0'], ['']])
            else:
                del t[0][rnd.randrange(3, len(t[0])):]
        else:
            x = e.pick(case['i'])
            if x is None:
                return
            r = x[2]
            k = case['k'] % 5
            if k == 0:
                del r[rnd.randrange(1, len(r)):]
            elif k == 1:
                r.insert(rnd.randrange(1, len(r)), ['9', '"новое"'])
            elif k == 2:
                r.insert(rnd.randrange(1, len(r)), '7')
            elif k == 3:
                r[rnd.randrange(0, len(r))] = rnd.choice(['', '"x"', ['0'], '7'])
            else:
                parent = x[0]
                j = next(n for n, y in enumerate(parent) if y is r)
                parent[j - 1] = '11111111-2222-4333-8444-555555555555'
        p, (uid,) = forms.product([copy.deepcopy(t)])
        with workdir() as w:
            sources(p, w)
            after = form_of(built(w), uid)
            d = diff_obj(rb.norm(t), rb.norm(after), 'form')
            require(not d, lambda: f'a form with a part in an unknown layout ({what} {case["k"]}) is not rebuilt: {d}')
        rec.case(case, True, f'form {forms.corpus()[case["form"]][0]}: {what} {case["k"]}', tags=[f'unknown {what}'])

    return dict(split=split, edited=edited, unknown=unknown)


def run(rec):
    parts = PARTS(rec)
    n = len(forms.corpus())
    from harness import gen
    run_cases(rec, 'split', [dict(form=i, ops=[], module=None, name='Форма') for i in range(n)], parts['split'])
    more = st.fixed_dictionaries(dict(module=st.one_of(st.none(), synth.module_texts()), name=gen.identifiers(10)))
    third = rec.budget / 3
    run_property(rec, 'split', st.builds(lambda c, m: dict(c, **m), forms.strategy(), more), parts['split'], 1600, 40000, share=third)
    edits = st.lists(st.tuples(st.sampled_from(['order', 'drop', 'drop', 'column', 'attribute', 'command', 'parameter']), st.integers(0, 50),
                               st.integers(0, 50)), min_size=1, max_size=4)
    run_property(rec, 'edited', st.builds(lambda c, m: dict(c, edits=m), forms.strategy(4, include=False), edits), parts['edited'],
                 1000, 25000, share=third)
    odd = st.fixed_dictionaries(dict(what=st.sampled_from(['attribute', 'attribute', 'command', 'parameter', 'element', 'element', 'layout']),
                                     i=st.integers(0, 50), k=st.integers(0, 9), seed=st.integers(0, 10000)))
    run_property(rec, 'unknown', st.builds(lambda c, m: dict(c, **m), forms.strategy(3, include=False), odd), parts['unknown'],
                 1000, 25000, share=third)
