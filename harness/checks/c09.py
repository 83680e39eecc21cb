"""C09: module text cut into shared areas is put back together exactly."""
import posixpath

from hypothesis import strategies as st

from harness import areas, products, refbrace as rb, synth
from harness.core import cut, read_tree, require, run_cases, run_property, short_diff, workdir, write_tree

LEVEL = 'exploration'
RULE = ('a product with up to three modules whose texts are random sequences of lines, ordinary areas, include areas, '
        'read-only areas and area ends (balanced or not, indented, with a directive after the name, names that lead to '
        'other folders, the same area in two modules); extract, compare the root and area files with a reference '
        'splitter, build, compare the module texts; then edit an area file and build again; non-trivial: at least one '
        'include area with text')
ASSUMPTIONS = ['the texts of areas of the same name are equal (else see C08)',
               'an area file that is edited so that other text follows ends with a line break']
QUICK_SECONDS = 45

# the modules of the small product: object kind -> (source folder kind, numbers)
SLOTS = [('CommonModule', 'obj'), ('Catalog', 'obj'), ('Catalog', 'mgr')]
_names = ['а', 'core_б', 'lib_mod_в', '_г', 'x_y_z_д', 'Core_Е', 'a__ж', 'src2_з', 'core_и', 'к1', 'lib_л', 'общий_модуль_м']
_lines = ['', 'А = 1;', '\tПроцедура Б()', '// комментарий', '#Если Сервер Тогда', '#КонецЕсли', 'Х = "#Область include_ы";',
          '&НаКлиенте', ' ', '"{,}"', '//#Область include_э', '|#Область include_ю', 'КонецПроцедуры  ', '№ €']


def text_of(tokens, nl, tail, taken, readers):
    """tokens: ints; -> text. taken: list of used area names (grows); readers: names that may be read."""
    out = []
    opened = []
    for t in tokens:
        kind, arg = t % 8, t // 8
        indent = ['', '', '\t', '  '][arg % 4]
        if kind <= 1:
            out.append(indent * (arg % 3 == 0) + _lines[arg % len(_lines)])
        elif kind == 3:
            out.append(indent + ['#Область Обычная', '#Область  include_q', '#Область Имя // include_'][arg % 3])
            opened.append(None)
        elif kind in (2, 4, 5):
            base = _names[arg % len(_names)]
            name = base if base not in taken else f'{base}{len(taken)}'
            taken.append(name)
            out.append(f'{indent}#Область include_{name}' + ['', '', ' //&НаКлиенте', ' //&НаСервере', '  '][arg // 4 % 5])
            opened.append(name)
        elif kind == 6 and readers:
            name = readers[arg % len(readers)]
            if '_' not in name and any(opened):
                name = next((r for r in readers if '_' in r), None)
                if name is None:
                    continue
            out.append(f'{indent}#Область includr_{name}')
            out.append('старый текст')
            out.append('#КонецОбласти')
        else:
            out.append(indent + '#КонецОбласти' + ['', '', ' // конец'][arg % 3])
            if opened:
                opened.pop()
    text = '\n'.join(out) + ('\n' if tail else '')
    return text


def texts_of(case):
    """-> texts of the modules, or None when two areas with different texts would lead to one file."""
    taken = []
    res = []
    files = {}  # shared area files so far: path -> text
    owned = []
    for k, m in enumerate(case['modules']):
        folder = f'{SLOTS[k][0]}/x'
        # an area without a folder is shared by the modules of one object
        known = [n for n, f in owned if '_' in n or f == folder]
        text = text_of(m['tokens'], '\n', m['tail'], taken, known)
        if m['repeat'] is not None and known:
            # an area of an earlier module once more, with the same text
            deep = [n for n in known if '#Область include_' in files[areas.file_of(n, folder)]]
            some = deep if deep and m['repeat'] % 3 == 0 else known
            name = some[m['repeat'] // 6 % len(some)]
            kind = 'include_' if m['repeat'] % 2 else 'includr_'
            path = areas.file_of(name, folder)
            inner = areas.join(files[path], files.__getitem__, posixpath.dirname(path))
            text = text + ('' if text.endswith('\n') or not text else '\n') + close_all(text) + \
                f'#Область {kind}{name}\n{inner}#КонецОбласти\n'
        res.append(text)
        if areas.files_of(text, folder) is None:
            return None
        for path, (body, reader) in areas.files_of(text, folder)[1].items():
            if not reader:
                if files.setdefault(path, body) != body:
                    return None
        had = [n for n, f in owned]
        owned += [(n, folder) for n, (b, reader, o) in areas.split(text)[1].items()
                  if not reader and ('_' in n or o is None) and n not in had and balanced(b)]
    return res


def balanced(body):
    """The text ends with a line break and opens as many areas as it closes."""
    depth = 0
    for line in areas.lines_of(body):
        m = areas.mark(line)
        if m:
            depth += 1 if m[0] == 'start' else -1
            if depth < 0:
                return False
    # the root of an include area has marks of nested areas in it, with their ends
    return depth == 0 and (not body or body.endswith('\n'))


def close_all(text):
    n = 0
    for line in areas.lines_of(text):
        m = areas.mark(line)
        if m:
            n = n + 1 if m[0] == 'start' else max(0, n - 1)
    return '#КонецОбласти\n' * n


def product_with(texts):
    p = synth.Product('C803')
    objs = p.objects()
    stay = {}
    for kind, code in SLOTS:
        stay.setdefault(kind, next(o for o in objs if o.kind == kind))
    keep = {o.uid for o in stay.values()}
    for o in objs:
        if o.owner is None and o.uid not in keep or o.owner is not None and o.owner.uid in keep:
            p.remove(o, objs)
    slots = []
    for (kind, code), text in zip(SLOTS, texts):
        o = stay[kind]
        number = synth.MODULES[kind][code]
        p.put_module(o.uid, number, text.replace('\n', '\r\n'))
        name = p.record(o)[2].strip('"')
        slots.append((f'{o.uid}.{number}', f'{kind}/{name}', f'{kind}.{code}.bsl'))
    return p, slots


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def module_text(product, name):
        return rb.decode_text(product[-1][name]['text'])[0].replace('\r\n', '\n')

    def cycle(case):
        texts = texts_of(case)
        if texts is None:
            return
        texts += [''] * (len(SLOTS) - len(texts))
        p, slots = product_with(texts)
        expected = {}  # file relative to the sources -> text
        for text, (uid, folder, file) in zip(texts, slots):
            try:
                root, ar = areas.files_of(text, folder)
            except KeyError:
                return  # an area stands in a later area of the same name
            expected[f'{folder}/{file}'] = root
            expected.update({path: body for path, (body, reader) in ar.items() if not reader})
        with workdir() as w:
            src = f'{w}/l1/l2/src'
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', src, temp_dir=f'{w}/t1', processes=1)
            got = {n: d for n, d in read_tree(f'{w}/l1').items() if n.endswith('.bsl')}
            want = {posixpath.normpath(posixpath.join('l2/src', n)): t for n, t in expected.items()}
            for n in sorted(set(got) | set(want)):
                if n not in want:
                    require(n.startswith('l2/src/Configuration.'), f'{n}: not expected')
                    continue
                if n not in got:
                    require(want[n] == '', f'{n}: area or module file was not written')
                    continue
                have = rb.decode_text(got[n])[0].replace('\r\n', '\n')
                require(have == want[n], lambda: f'{n}: {short_diff(want[n], have)}')

            def check_build(files, tag):
                def assemble(folder, text):
                    return areas.join(text, files.__getitem__, folder)
                with cut(f'build {tag}'):
                    build(src, f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1)
                with open(f'{w}/out.bin', 'rb') as f:
                    after = products.unpack(f.read())
                for (name, folder, file) in slots[:len(texts)]:
                    want_text = assemble(folder, files[f'{folder}/{file}'])
                    have_text = module_text(after, name)
                    require(have_text == want_text,
                            lambda: f'module {folder}/{file} {tag}: {short_diff(want_text, have_text)}')
                return [assemble(folder, files[f'{folder}/{file}']) for (name, folder, file) in slots[:len(texts)]]

            built = check_build(expected, 'unchanged')
            for text, back in zip(texts, built):  # the reference itself: without readers the text is what it was
                if 'includr_' not in text:
                    require(back == text, 'reference splitter is not reversible')
            names = sorted(n for n in expected if n not in {f'{f}/{x}' for u, f, x in slots})
            edited = None
            if names and case['edit'] is not None:
                edited = names[case['edit'][0] % len(names)]
                files = dict(expected)
                files[edited] = case['edit'][1] + '\n'
                write_tree(src, {edited: files[edited].encode('utf-8')})
                check_build(files, f'after an edit of {edited}')
        rec.case(texts, any(b for t in texts for b, r, o in areas.split(t)[1].values()),
                 f'modules {[len(t) for t in texts]}, area files {names[:5]}, edited {edited}',
                 tags=[f'{min(len(names), 6)} area files'] + ['edited'] * bool(edited)
                 + ['read-only area'] * any('includr_' in t for t in texts)
                 + ['area within a read-only area'] * any(o and a[o][1] for a in (areas.split(t)[1] for t in texts)
                                                          for b, r, o in a.values())
                 + ['area within a read-only area without a folder'] * any(
                     o and '_' not in o and a[o][1] for a in (areas.split(t)[1] for t in texts) for b, r, o in a.values()))

    from harness.checks import c17
    return dict(cycle=cycle, dynamic=c17.PARTS(rec)['dynamic'])


def run(rec):
    parts = PARTS(rec)
    module = st.fixed_dictionaries(dict(tokens=st.lists(st.integers(0, 500), max_size=14), tail=st.booleans(),
                                        repeat=st.one_of(st.none(), st.integers(0, 60))))
    edit = st.one_of(st.none(), st.tuples(st.integers(0, 30), st.lists(st.sampled_from(_lines), max_size=4).map('\n'.join)))
    strategy = st.fixed_dictionaries(dict(modules=st.lists(module, min_size=1, max_size=3), edit=edit))
    from harness.checks import c17
    run_property(rec, 'cycle', strategy, parts['cycle'], 4500, 100000, share=rec.budget * 0.75)
    run_property(rec, 'dynamic', c17.dynamic_cases(), parts['dynamic'], 1200, 25000, share=rec.budget * 0.25)
