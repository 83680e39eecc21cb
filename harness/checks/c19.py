"""C19: incompatible sources are refused and version overrides touch only the version."""
import copy
import json
import os
import re
import sys

from hypothesis import strategies as st

from harness import internal, products, synth
from harness.checks.c08 import same_product
from harness.core import Violation, cut, diff_obj, diff_trees, quiet, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('refuse: the sources of each sample with generated tool version numbers (equal, other patch, other minor or major, '
        'look-alikes, malformed, missing); the build must raise and leave the target file alone exactly when the number is '
        'malformed or differs in major or minor, and otherwise give the same product; non-trivial: another number than written. '
        'override: generated configurations and extensions, extracted and built with and without a compatibility version, by '
        'call, command line or product list: one cell of the product and of the sources changes and nothing else; '
        'non-trivial: the version differs from the stored one. product: generated version files, product names and comments '
        'with and without "ver:", compared with a product edited independently; non-trivial: something is set. history: '
        'several products built after one another with the same options object must equal those built alone')
ASSUMPTIONS = ['a version is what a user would write: no quotes or line ends',
               'the number of the patch is there and consists of digits (the tool does not look at it)',
               'comments with "ver:" are updated by design (documented in the history of changes)']
QUICK_SECONDS = 35

CELL = dict(Configuration=26, ConfigurationExtension=43)


def compatible(src, own):
    if not isinstance(src, str) or not re.fullmatch(r'\d+\.\d+\.\d+', src):
        return False
    return [int(x) for x in src.split('.')[:2]] == [int(x) for x in own.split('.')[:2]]


def PARTS(rec):
    from v8unpack import v8unpack as mod
    from v8unpack.v8unpack import extract, build
    from v8unpack.version import __version__ as own
    cache = {}

    def plain(base):
        """-> (sources, containers of the plain build, name of the top file)"""
        if base not in cache:
            p = synth.Product(base)
            for o in p.objects():
                if o.owner is None:
                    p.remove(o)
            with workdir() as w:
                with open(f'{w}/in.bin', 'wb') as f:
                    f.write(p.bytes())
                with cut('extract'):
                    extract(f'{w}/in.bin', f'{w}/x/out', temp_dir=f'{w}/t', processes=1)
                tree = read_tree(f'{w}/x')
                with cut('build'):
                    build(f'{w}/x/out', f'{w}/o.bin', temp_dir=f'{w}/t', processes=1)
                with open(f'{w}/o.bin', 'rb') as f:
                    data = products.unpack(f.read())
            top = next(f'out/{n}' for n in products.TOP if f'out/{n}' in tree)
            cache[base] = tree, data, top
        return cache[base]

    def refuse(case):
        tree, data, top = plain(case['base'])
        version = case['version']
        if isinstance(version, (list, tuple)):
            m = own.split('.')
            version = '.'.join(m[min(k, 2)] if isinstance(x, str) and x == '=' else str(x) for k, x in enumerate(version))
        elif isinstance(version, str):
            version = version.replace('{own}', own)
        header = json.loads(tree[top].decode())
        require(header.get('v8unpack') == own, lambda: f'the sources name the version {header.get("v8unpack")!r}, the tool is {own}')
        if version is None:
            del header['v8unpack']
        else:
            header['v8unpack'] = version
        ok = compatible(version, own)
        with workdir() as w:
            write_tree(f'{w}/x', dict(tree, **{top: json.dumps(header, ensure_ascii=False, indent=2).encode()}))
            if case['old']:
                write_tree(w, {'o.bin': b'former product'})
            failed = None
            try:
                with quiet():
                    build(f'{w}/x/out', f'{w}/o.bin', temp_dir=f'{w}/t', processes=1, options=dict(case['options']))
            except Exception as err:
                failed = err
            if ok:
                require(failed is None, lambda: f'sources of version {version!r} refused by {own}: {str(failed)[:300]}')
                if not case['options']:
                    with open(f'{w}/o.bin', 'rb') as f:
                        d = same_product(data, products.unpack(f.read()))
                    require(not d, lambda: f'version {version!r} changed the product: {d}')
            else:
                require(failed is not None, lambda: f'sources of version {version!r} accepted by {own}')
                left = read_tree(w).get('o.bin')
                require(left == (b'former product' if case['old'] else None), lambda: 'a refused build wrote the product')
        rec.case((case['base'], repr(version), sorted(case['options'])), version != own, f'{case["base"]}: {version!r} -> {"built" if ok else "refused"}',
                 tags=['accepted' if ok else 'refused'])

    def call(w, how, what, src, binary, options):
        if how == 'call':
            with cut(what):
                (extract if what == 'extract' else build)(*((binary, src) if what == 'extract' else (src, binary)),
                                                          temp_dir=f'{w}/t', processes=1, options=dict(options))
        elif how == 'list':
            with open(f'{w}/p.json', 'w', encoding='utf-8') as f:
                json.dump({'x': dict(src=src, bin=binary, temp=f'{w}/t', options=options)}, f)
            with cut(what):
                (mod.extract_all if what == 'extract' else mod.build_all)(f'{w}/p.json', processes=1)
        else:
            argv = sys.argv
            sys.argv = ['v8unpack'] + (['-E', binary, src] if what == 'extract' else ['-B', src, binary]) + ['--temp', f'{w}/t']
            for k, v in options.items():
                sys.argv += [f'--{k}', v]
            try:
                with cut(what):
                    code = mod.main()
            finally:
                sys.argv = argv
            require(not code, lambda: f'{what} on the command line returned {code}')

    def override(case):
        p = synth.apply(case)
        cell = CELL[p.type]
        top = f'{p.type}.json'
        stored = p.tree(p.top)[0][3][1][1][cell]
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            call(w, case['how'], 'extract', f'{w}/a', f'{w}/in.bin', {})
            plain_src = products.comparable_sources(f'{w}/a')
            e, b, s = case['extract'], case['build'], case['source']
            opt = dict(version=e) if e else {}
            call(w, case['how'], 'extract', f'{w}/b', f'{w}/in.bin', opt)
            want = dict(plain_src)
            header = json.loads(want[top].decode())
            require(header.get('compatibility_version') == stored and header['header'][0][3][1][1][cell] == stored,
                    lambda: f'compatibility version {stored} stored as {header.get("compatibility_version")!r}')
            if e:
                header['compatibility_version'] = header['header'][0][3][1][1][cell] = e
                want[top] = json.dumps(header, ensure_ascii=False, indent=1).encode()
            d = diff_trees(want, products.comparable_sources(f'{w}/b'), names=('plain', 'extracted'))
            require(not d, lambda: f'extraction with the version {e}: {d}')
            final = e or stored
            if s is not None:
                with open(f'{w}/b/{top}', encoding='utf-8') as f:
                    header = json.load(f)
                if s:
                    header['compatibility_version'] = final = s
                else:
                    del header['compatibility_version']
                with open(f'{w}/b/{top}', 'w', encoding='utf-8') as f:
                    json.dump(header, f, ensure_ascii=False)
            if b:
                final = b
            call(w, case['how'], 'build', f'{w}/b', f'{w}/o.bin', dict(version=b) if b else {})
            with open(f'{w}/o.bin', 'rb') as f:
                after = products.unpack(f.read())
            p.tree(p.top)[0][3][1][1][cell] = final
            if case['how'] == 'list' and p.type == 'ConfigurationExtension':  # a product list puts the name of the product first
                row = p.tree(p.top)[0][3][1][1]
                row[15] = f'"x_{row[15][1:-1]}"'
            p.finish()
            d = internal.compare(p, after)
            require(not d, lambda: f'extracted with {e}, edited {s}, built with {b}: {d[:4]}')
        rec.case(case, final != stored, f'{case["base"]}: {stored} -> {final} (extract {e}, source {s}, build {b}, {case["how"]})',
                 tags=[p.type, case['how'], 'extract' if e else '', 'build' if b else ''])

    def set_versions(p, text, product, file_name):
        """Edits the product the way the documentation says."""
        def comment(record, value):
            old = record[4][1:-1]
            k = old.find('ver:')
            if k >= 0 and text:
                record[4] = f'"{old[:k]}ver:{value}"'
                return 1
            return 0
        n = 0
        if p.type == 'ConfigurationExtension':
            p.tree(p.top)[0][3][1][1][15] = f'"{product}_{text}"' if product else f'"{text}"'
            n += 1
        if p.type != 'Configuration':
            n += comment(p.top_record, f'{file_name}:{text}')
        for o in p.objects():
            if o.kind == 'DataProcessor':
                n += comment(p.record(o), text)
        return n

    def prepare(case):
        p = synth.apply(case)
        objs = [o for o in p.objects() if o.kind == 'DataProcessor'] + [o for o in p.objects() if o.kind != 'DataProcessor']
        for k, text in enumerate(case['comments']):
            record = p.top_record if k == 0 else p.record(objs[(k - 1) % len(objs)]) if objs else None
            if record is not None and text is not None:
                record[4] = synth.quote(text)
        return p

    def extracted(w, p, name, text):
        with open(f'{w}/in.bin', 'wb') as f:
            f.write(p.bytes())
        with cut('extract'):
            extract(f'{w}/in.bin', f'{w}/{name}', temp_dir=f'{w}/t', processes=1)
        if text is not None:
            write_tree(f'{w}/{name}', {'version.bin': text.encode()})

    def product(case):
        p = prepare(case)
        text = case['text']
        if text is None and p.type == 'ConfigurationExtension':
            stored = p.tree(p.top)[0][3][1][1][15][1:-1]
        else:
            stored = text
        with workdir() as w:
            extracted(w, p, 'src', text)
            if p.type == 'ConfigurationExtension' and text is None:
                with open(f'{w}/src/version.bin', encoding='utf-8', newline='') as f:
                    got = f.read()
                require(got == stored, lambda: f'product version {stored!r} extracted as {got!r}')
            options = dict(product=case['product']) if case['product'] else {}
            name = case['name']
            with cut('build'):
                build(f'{w}/src', f'{w}/{name}', temp_dir=f'{w}/t', processes=1, options=options)
            with open(f'{w}/{name}', 'rb') as f:
                after = products.unpack(f.read())
            n = set_versions(p, stored, case['product'], name) if stored is not None else 0
            p.finish()
            d = internal.compare(p, after)
            require(not d, lambda: f'version file {text!r}, product {case["product"]!r}, comments {case["comments"]}: {d[:4]}')
        rec.case(case, n > 0, f'{case["base"]}: {text!r} {case["product"]!r} {case["comments"]} -> {n} places set', tags=[p.type])

    def history(case):
        with workdir() as w:
            shared = dict(case['options'])
            for k, one in enumerate(case['products']):
                p = prepare(dict(one, ops=[], keep=[1]))
                extracted(w, p, f's{k}', one['text'] if p.type != 'ConfigurationExtension' else one['text'] or '1.0')
                with cut('build alone'):
                    build(f'{w}/s{k}', f'{w}/a/o.bin', temp_dir=f'{w}/t', processes=1, options=dict(case['options']))
                with cut('build in a row'):
                    build(f'{w}/s{k}', f'{w}/b/o.bin', temp_dir=f'{w}/t', processes=1, options=shared)
                with open(f'{w}/a/o.bin', 'rb') as f:
                    x = products.unpack(f.read())
                with open(f'{w}/b/o.bin', 'rb') as f:
                    y = products.unpack(f.read())
                d = same_product(x, y)
                require(not d, lambda: f'{one["base"]} built after {[x["base"] for x in case["products"][:k]]} with the same options: {d}')
        rec.case(case, len({one['text'] for one in case['products']}) > 1,
                 f'{[(one["base"], one["text"]) for one in case["products"]]} in a row')

    return dict(refuse=refuse, override=override, product=product, history=history)


def run(rec):
    parts = PARTS(rec)
    num = st.one_of(st.integers(0, 30), st.sampled_from(['=', '=', '=']))
    version = st.one_of(
        st.tuples(num, num, num), st.tuples(st.just('='), st.just('='), st.integers(0, 10 ** 6)), st.tuples(st.just('='), num, num),
        st.tuples(num, num), st.tuples(num, num, num, num), st.tuples(num),
        st.sampled_from([None, '', '.', '..', '{own}.0', '{own}.', '.{own}', 'v{own}', 'a.b.c', '1,2,11', '-{own}', '1..11', '1.2', '.2.11',
                         '12.11', '1.x.11', 'x.2.11', 12, 1.2, [1, 2, 11], True, {}, '1.20.11', '1.12.1', '11.2.11', '10.2.11', '2.1.11', '1.1.99']))
    bases = ['CE803', 'P803', 'C803', 'R803', 'P802', 'apam']
    one = st.fixed_dictionaries(dict(base=st.sampled_from(bases), version=version, old=st.booleans(),
                                     options=st.sampled_from([{}, {}, {}, dict(version='80306'), dict(auto_include=True), dict(prefix='п')])))
    run_property(rec, 'refuse', one, parts['refuse'], 1500, 30000, share=rec.budget * 0.3)
    number = st.one_of(st.sampled_from(['80306', '80310', '80327', '80201', '0', '1', '80316']), st.integers(80301, 80399).map(str))
    case = st.builds(lambda c, m: dict(c, **m), synth.cases(max_ops=2, bases=['CE803', 'CE803', 'C803', 'C803-16', 'apam', 'apam_old']),
                     st.fixed_dictionaries(dict(extract=st.one_of(st.none(), number), build=st.one_of(st.none(), number),
                                                source=st.one_of(st.none(), st.none(), number, st.just('')),
                                                how=st.sampled_from(['call', 'call', 'cli', 'list']))))
    run_property(rec, 'override', case, parts['override'], 600, 12000, share=rec.budget * 0.35)
    text = st.one_of(st.sampled_from(['1.2.3', '23.0000', '', '7', 'ver:1', '1.2.3 beta', 'версия', ' ', '1_2']),
                     st.text(st.sampled_from('0123456789._-абv: {},;%'), min_size=1, max_size=12).filter(lambda s: s.strip() == s))
    comment = st.sampled_from([None, '', 'ver:', 'Расчёт; ver:1.2', 'ver:файл.epf:1.1', 'aver:1 б', 'over', 'вер:1', 'ver', 'Ver:2', 'ver:1 ver:2', 'а "ver:" б'])
    case = st.builds(lambda c, m: dict(c, **m), synth.cases(max_ops=2, bases=['CE803', 'CE803', 'P803', 'R803', 'P802', 'C803', 'apam']),
                     st.fixed_dictionaries(dict(text=st.one_of(st.none(), text, text), product=st.sampled_from([None, None, 'Ext', 'про_дукт']),
                                                name=st.sampled_from(['o.bin', 'Имя файла.epf', 'v1.cfe']), comments=st.lists(comment, max_size=4))))
    run_property(rec, 'product', case, parts['product'], 800, 15000, share=rec.budget * 0.25)
    item = st.fixed_dictionaries(dict(base=st.sampled_from(['CE803', 'P803', 'R803', 'P802', 'C803']), text=st.one_of(st.none(), st.sampled_from(['1.5', '2.0'])),
                                      comments=st.lists(st.sampled_from([None, 'ver:', 'а ver:0.1']), max_size=2)))
    case = st.fixed_dictionaries(dict(products=st.lists(item, min_size=2, max_size=3),
                                      options=st.sampled_from([{}, {}, dict(product='П'), dict(version='80310'), dict(auto_include=False)])))
    run_property(rec, 'history', case, parts['history'], 300, 5000)
