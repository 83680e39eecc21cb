"""C18: generating an index keeps existing entries and covers all new files."""
import copy
import json
import os
import posixpath
import re
import sys

from hypothesis import strategies as st

from harness import products, refbrace as rb, synth
from harness.checks.c08 import same_product
from harness.checks.c10 import make_index, unzip
from harness.core import Violation, cut, diff_obj, diff_trees, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('update: generated folder trees (with versions of files in inheritance mode) and generated indexes that cover a part '
        'of them by entries, empty entries, wildcards with exceptions, folders, nested index files; the result must equal '
        'that of an independent model, for all three ways to run it, and a second run must leave the file as it is; '
        'non-trivial: a file to add and an entry to keep. '
        'usable: the sources of a generated product are indexed, the product is extracted and built with that index; '
        'non-trivial: two or more files relocated')
ASSUMPTIONS = ['a number before the extension is a version (inheritance mode), except in the names that the tool itself gives '
               '(one name that this misreads is a known finding)',
               'an entry for a folder is a folder', 'empty folder entries in the index mean nothing',
               'an area without a folder lies beside its module, so an entry for its file is no announcement when the module is '
               'moved elsewhere']
QUICK_SECONDS = 35


def base_name(name):
    parts = name.split('.')
    if len(parts) > 2 and parts[-2].isdigit() and parts[-2][0] != '0' and not OWN.fullmatch(name):
        return '.'.join(parts[:-2] + parts[-1:])
    return name


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = copy.deepcopy(v)
    return a


def covered(node, name):
    if name in node:
        return True
    return any(k.startswith('*') and name not in k.split('-')[1:] for k in node)


def model(tree, index, nested, dest, path=''):
    """tree: {name: subtree or None}"""
    res = copy.deepcopy(index)
    for name, sub in tree.items():
        full = posixpath.join(path, name)
        if sub is not None:
            node = index.get(name, {})
            new = model(sub, node, nested.get(name, {}) if isinstance(nested.get(name), dict) else {}, dest, full)
            res[name] = new
        else:
            name = base_name(name)
            if not covered(index, name) and not covered(nested, name):
                res[name] = posixpath.join(dest, path, name) if dest else ''
    return res


def prune(index):
    if not isinstance(index, dict):
        return index
    res = {k: prune(v) for k, v in index.items()}
    return {k: v for k, v in res.items() if v != {}}


def count(tree):
    return sum(1 if v is None else count(v) for v in tree.values())


NAMES = ['Form', 'Форма1', 'Catalog', 'a b', 'Области', 'Module', 'Ы', 'имя-с']
FILES = ['Form.json', 'Form.id.json', 'Form.obj.bsl', 'Form.elem.json', 'версия', 'Role.0.c1brace', 'x-y.bsl', 'Ё.mxl', 'Template.bin', 'а.bsl', 'Configuration.9.json', 'Configuration.802.bsl']
OWN = re.compile(r'Configuration\.(4|8|9|10|802)\.(json|bsl)')


def build_tree(marks, depth=0, at=None):
    at = at if at is not None else [0]

    def take():
        at[0] += 1
        return marks[at[0] % len(marks)] + at[0]
    tree = {}
    for k in range(take() % 4):
        name = FILES[take() % len(FILES)]
        m = take()
        version = m % 5
        if version < 3 or name == 'версия':
            tree[name] = None
        if version > 1 and name != 'версия':
            for n in range(m % 3 + (version > 2)):
                parts = name.split('.')
                parts.insert(-1, ['4100200', '3000057001', '4102', '803012'][(m + n) % 4])
                tree['.'.join(parts)] = None
    if depth < 3:
        for k in range(take() % (3 if depth else 4)):
            tree[NAMES[take() % len(NAMES)]] = build_tree(marks, depth + 1, at)
    return tree


def build_index(tree, marks, at=None, depth=0):
    at = at if at is not None else [0]

    def take():
        at[0] += 1
        return marks[at[0] % len(marks)] + at[0] * 7
    node = {}
    if take() % 6 == 0:
        # an exclusion names whole files: the beginning of a name is not one
        node['*' if take() % 3 else ['*-Form.json-x', '*-Form-x', '*-Модуль-Form.id', '*-Form.json'][take() % 4]] = f'lib/{depth}'
    for name, sub in tree.items():
        m = take()
        if sub is not None:
            if m % 3:
                node[name] = build_index(sub, marks, at, depth + 1)
        elif m % 3 == 0:
            node[base_name(name)] = ['lib/' + name, '', None, 'core/x.bsl'][m // 3 % 4]
    if take() % 5 == 0:
        node['Лишний.json'] = 'core/Лишний.json'
    if take() % 7 == 0:
        node['НетТакой'] = {'Form.json': 'a/b'}
    if take() % 9 == 0:
        node['*'] = f'lib/late{depth}'
    return node


def PARTS(rec):
    from v8unpack.v8unpack import extract, build
    from v8unpack import v8unpack as mod

    def generate(how, w, src, index, dest):
        """Runs the generator in one of the three ways."""
        with cut('index generation'):
            if how == 'direct':
                mod.update_index(src, index, dest)
                return
            if how == 'all':
                with open(f'{w}/products.json', 'w', encoding='utf-8') as f:
                    json.dump({'один': dict(src=src, index=index, bin='x', disable=False),
                               'выключен': dict(src='/nonexistent', index='/nonexistent', bin='x', disable=True)}, f)
                mod.update_index_all(f'{w}/products.json', None, dest)
                return
            argv = sys.argv
            sys.argv = ['v8unpack', '-I', src, '--index', index] + (['--core', dest] if dest else [])
            try:
                code = mod.main()
            finally:
                sys.argv = argv
            require(not code, lambda: f'the command line returned {code}')

    def update(case):
        tree = build_tree(case['tree'])
        index = build_index(tree, case['index'], None) if case['index'] else {}
        nested_list = [build_index(tree, m) for m in case['nested']]
        nested = {}
        for x in nested_list:
            nested = merge(nested, x)
        if case['areas']:
            index['Области include'] = {'core_a': 'core_б'}
        dest = [None, 'core', 'a/b'][case['dest']]
        with workdir() as w:
            os.makedirs(f'{w}/src')

            def put(path, node):
                for n, sub in node.items():
                    if sub is None:
                        write_tree(path, {n: b'x'})
                    else:
                        os.makedirs(f'{path}/{n}')
                        put(f'{path}/{n}', sub)
            put(f'{w}/src', tree)
            full = dict(index)
            if nested_list:
                full['index.json'] = [f'{w}/n{k}.json' for k in range(len(nested_list))]
                for k, x in enumerate(nested_list):
                    with open(f'{w}/n{k}.json', 'w', encoding='utf-8') as f:
                        json.dump(x, f, ensure_ascii=False)
            if case['exists'] or full:
                with open(f'{w}/i.json', 'w', encoding='utf-8') as f:
                    json.dump(full, f, ensure_ascii=case['ascii'], indent=[None, 2, 4][case['dest']])
            before = read_tree(w)
            generate(case['how'], w, f'{w}/src', f'{w}/i.json', dest)
            after = read_tree(w)
            with open(f'{w}/i.json', encoding='utf-8') as f:
                got = json.load(f)
            want = model(tree, full, nested, dest)
            d = diff_obj(prune(want), prune(got))
            require(not d, lambda: f'index {json.dumps(full, ensure_ascii=False)[:500]} of {tree}, dest {dest}: {d}')

            def keys(a, b):
                for k, v in a.items():
                    require(k in b and (isinstance(v, dict) or b[k] == v), lambda: f'entry {k} changed')
                    if isinstance(v, dict):
                        keys(v, b[k])
            keys(full, got)
            rest = {n for n in set(before) | set(after) if before.get(n) != after.get(n)} - {'i.json', 'products.json'}
            require(not rest, lambda: f'other files changed: {sorted(rest)}')
            raw = after['i.json']
            generate(case['how2'], w, f'{w}/src', f'{w}/i.json', dest)
            again = read_tree(w)['i.json']
            require(again == raw, lambda: 'the second run changed the index')
        added = json.dumps(want) != json.dumps(full)
        rec.case((tree, full and json.dumps(index), json.dumps(nested), dest, case['how']), added and bool(prune(index)),
                 f'{count(tree)} files, index {json.dumps(index, ensure_ascii=False)[:150]}',
                 tags=[case['how'], 'added' if added else 'nothing to add', f'{len(nested_list)} nested']
                 + ['wildcard'] * ('"*' in json.dumps(full)))

    def usable(case):
        p = synth.apply(case)
        dest = case['dest']
        key = None
        if case.get('member'):
            # a file of a web service reference whose name is like a file of a version without a name of its own
            uid = next(n for n in p.main if n.endswith('.0') and isinstance(p.main[n], dict) and 'types.xsd' in p.main[n])
            p.main[uid][case['member']] = p.main[uid].pop('types.xsd')
            key = f'file {case["member"]} in the folder of a web service reference'
        if case['numbers']:
            p.main[f'{p.top_uid}.{case["numbers"]}'] = rb.serialise([['1', '"настройка"']]).encode('utf-8-sig')
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/a/out', temp_dir=f'{w}/t1', processes=1)
            src = {n[4:]: d for n, d in read_tree(f'{w}/a').items() if n.startswith('out/')}
            outside = {n: d for n, d in read_tree(f'{w}/a').items() if not n.startswith('out/')}
            beside = [n for n in src if n.endswith('.bsl') and n.rsplit('/', 1)[-1].count('.') == 1
                      or n.endswith('.elem.json') and not n.endswith('Form.elem.json')]
            prior = {}
            if case['marks'] and not beside and not case['numbers']:
                some = [n for k, n in enumerate(sorted(src)) if case['marks'][k % len(case['marks'])] % 3]
                prior, _, _ = make_index(some, case['marks'], None)
            if prior or case['numbers']:
                with open(f'{w}/i.json', 'w', encoding='utf-8') as f:
                    json.dump(prior, f)
            generate('direct', w, f'{w}/a/out', f'{w}/i.json', dest)
            with open(f'{w}/i.json', encoding='utf-8') as f:
                index = json.load(f)
            expected, moved = {}, 0
            for n, d in src.items():
                node = index
                for part in posixpath.dirname(n).split('/') if '/' in n else []:
                    node = node.get(part, {})
                name = posixpath.basename(n)
                if name in node:
                    place = node[name]
                elif '*' in node:
                    place = posixpath.join(node['*'], name)
                else:
                    raise Violation(f'{n} is not covered by the generated index', key)
                moved += bool(place)
                where = posixpath.normpath(place) if place else f'out/{n}'
                if expected.get(where, d) != d:
                    return  # a place given twice by hand
                expected[where] = d
            expected.update(outside)
            with cut('extract with the index'):
                extract(f'{w}/in.bin', f'{w}/b/out', temp_dir=f'{w}/t1', processes=1, index=f'{w}/i.json')
            d = diff_trees(unzip(expected), unzip(read_tree(f'{w}/b')), names=('announced', 'extracted'))
            require(not d, lambda: f'index {json.dumps(index, ensure_ascii=False)[:600]}: {d}')
            with cut('build'):
                build(f'{w}/a/out', f'{w}/a.bin', temp_dir=f'{w}/t2', processes=1)
            with cut('build with the index'):
                build(f'{w}/b/out', f'{w}/b.bin', temp_dir=f'{w}/t2', processes=1, index=f'{w}/i.json')
            with open(f'{w}/a.bin', 'rb') as f:
                x = products.unpack(f.read())
            with open(f'{w}/b.bin', 'rb') as f:
                y = products.unpack(f.read())
            d = same_product(x, y)
            require(not d, lambda: f'the build with the generated index differs: {d}')
        rec.case(case, moved > 1, f'{case["base"]}: {len(src)} files, {moved} relocated by the generated index, prior {json.dumps(prior)[:80]}',
                 tags=['over a prior index' if prior else 'from nothing', f'core {dest}'])

    return dict(update=update, usable=usable)


def run(rec):
    parts = PARTS(rec)
    marks = st.lists(st.integers(0, 500), min_size=3, max_size=30)
    one = st.fixed_dictionaries(dict(tree=marks, index=st.one_of(st.none(), marks, marks, marks), nested=st.lists(marks, max_size=2),
                                     areas=st.booleans(), dest=st.integers(0, 2), exists=st.booleans(), ascii=st.booleans(),
                                     how=st.sampled_from(['direct', 'direct', 'all', 'cli']), how2=st.sampled_from(['direct', 'all', 'cli'])))
    run_property(rec, 'update', one, parts['update'], 4000, 100000, share=rec.budget * 0.4)
    numbers = [dict(base='C803', keep=[1], ops=[], dest='core', marks=None, numbers='9'),
               dict(base='CE803', keep=[1], ops=[], dest='core', marks=None, numbers='8')]
    member = dict(base='apam', keep=[0], ops=[('craft', 1, 2, 'А', ('zeros', 0, 0))], dest=None, numbers='', marks=None)
    run_cases(rec, 'usable', numbers + [member, dict(member, member='1.xsd')], parts['usable'])
    area = st.tuples(st.just('area_module'), synth.INT, synth.INT, st.lists(st.integers(0, 11), min_size=1, max_size=3))
    case = st.builds(lambda c, e, more: dict(c, ops=list(c['ops']) + e, **more),
                     synth.cases(max_ops=3, bases=['P803', 'P803', 'R803', 'apam', 'P802', 'CE803', 'C803']), st.lists(area, max_size=2),
                     st.fixed_dictionaries(dict(dest=st.sampled_from([None, 'core', 'lib/core']), numbers=st.just(''),
                                                marks=st.one_of(st.none(), marks, marks))))
    run_property(rec, 'usable', case, parts['usable'], 900, 15000)
