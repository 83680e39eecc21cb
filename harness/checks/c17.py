"""C17: compile-time directives are commented and restored reversibly."""
import posixpath
import re

from hypothesis import strategies as st

from harness import areas, products, refbrace as rb, synth
from harness.checks import c09
from harness.core import cut, read_tree, require, run_cases, run_property, short_diff, workdir, write_tree

LEVEL = 'exploration'
RULE = ('(dynamic) modules whose include areas, nested and not, have a directive after the name and hold marked '
        'directive lines, together with lines that only resemble them: extract, compare every file with a reference, '
        'build, compare the modules, then change the directive of an area and build again; (escaped) modules of ordinary '
        'forms, of configurations and data processors of platforms 8.1, 8.2 and 8.3 and of other objects with area and '
        'placement directives in commented form and look-alikes: the same comparison, then edited sources with live '
        'directives; non-trivial: at least one directive line was turned')
ASSUMPTIONS = ['the first line of a module is not a directive (documented)',
               'a marked directive line stands inside an include area that has this directive (documented)',
               'products hold the area and placement directives of old modules in the commented form only']
QUICK_SECONDS = 40

ESCAPED = ('#Область', '#КонецОбласти', '&НаСервере', '&НаКлиенте')
MARK = '// v8unpack '

_look = ['// v8unpack #Если Сервер Тогда', '// v8unpack &Перед("А")', '// v8unpack текст', '// v8unpack |а', '// v8unpack',
         '//v8unpack #Область А', '\t// v8unpack &НаКлиенте', 'А = 1; // v8unpack #Область Б', '#Если Сервер Тогда',
         '#КонецЕсли', '&Перед("Б")', '\t#Область В', ' &НаСервере', '//// v8unpack #Область', '// v8unpack  #Область',
         '"#Область', '|#КонецОбласти', '#область г', '&насервере', '// &НаКлиенте //DynamicDirective',
         'А = "&Имя //DynamicDirective";', 'Сообщить("//DynamicDirective");', 'А = Б; //DynamicDirective', '']
_live = ['#Область Код', '#КонецОбласти', '&НаСервере', '&НаКлиенте', '&НаСервереБезКонтекста',
         '&НаКлиентеНаСервереБезКонтекста', '#КонецОбласти // Код', '#ОбластьБезПробела', '&НаКлиенте // пояснение']


def uncomment(text):
    lines = text.split('\n')
    return '\n'.join(lines[:1] + [x[len(MARK):] if x.startswith(MARK) and x[len(MARK):].startswith(ESCAPED) else x
                                  for x in lines[1:]])


def comment(text):
    lines = text.split('\n')
    return '\n'.join(lines[:1] + [MARK + x if x.startswith(ESCAPED) else x for x in lines[1:]])


# ---------------------------------------------------------------------------------------------- dynamic directives
_names = ['а', 'core_б', 'lib_mod_в', '_г', 'core_и', 'к1']
_dirs = ['&НаКлиенте', '&НаСервере', '&НаСервереБезКонтекста']


def dynamic_text(tokens):
    """-> text of a module; every area name once."""
    out = ['// начало']
    stack = []  # directive in force, per open area
    used = 0
    marked = 0
    for t in tokens:
        kind, arg = t % 7, t // 7
        indent = ['', '', '\t', '    '][arg % 4]
        force = next((d for k, d in reversed(stack) if k), None)
        if kind == 0:
            out.append(_look[arg % len(_look)])
            if out[-1].strip().startswith('#Область'):
                stack.append((False, None))
        elif kind in (1, 2):
            if force:
                out.append(f'{indent}{force} //DynamicDirective' + ['', '', ' ', ' // ещё'][arg // 4 % 4])
                marked += 1
            elif not any(k for k, d in stack):
                out.append(['//DynamicDirective', '\t//DynamicDirective', 'Б = 2;'][arg % 3])
        elif kind in (3, 4):
            own = [None, _dirs[arg % 3], _dirs[(arg + 1) % 3]][arg // 3 % 3]
            name = _names[used % len(_names)] + (str(used) if used >= len(_names) else '')
            used += 1
            out.append(f'{indent}#Область include_{name}' + (f' //{own}' if own else ''))
            stack.append((True, own or force))
        elif kind == 5:
            out.append(f'{indent}#Область Обычная')
            stack.append((False, None))
        elif stack:
            out.append(f'{indent}#КонецОбласти')
            stack.pop()
    out += ['#КонецОбласти'] * len(stack) + ['// конец']
    return '\n'.join(out) + '\n', marked


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def module_text(product, name):
        return rb.decode_text(product[-1][name]['text'])[0].replace('\r\n', '\n')

    def dynamic(case):
        texts = [dynamic_text(t) for t in case['modules']][:1] + \
                [(t.replace('include_', 'include_m2_'), n) for t, n in (dynamic_text(t) for t in case['modules'][1:2])]
        marked = sum(n for t, n in texts)
        texts = [t for t, n in texts] + [''] * (len(c09.SLOTS) - len(texts))
        p, slots = c09.product_with(texts)
        files = {}
        for text, (uid, folder, file) in zip(texts, slots):
            root, ar = areas.files_of(text, folder)
            files[f'{folder}/{file}'] = root
            files.update({path: body for path, (body, reader) in ar.items()})
        with workdir() as w:
            src = f'{w}/l1/l2/src'
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', src, temp_dir=f'{w}/t1', processes=1)
            for n, want in files.items():
                got = _read(src, n)
                require(got == want, lambda: f'{n}: {short_diff(want, got)}')

            def check(tag):
                with cut(f'build {tag}'):
                    build(src, f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1)
                with open(f'{w}/out.bin', 'rb') as f:
                    after = products.unpack(f.read())
                res = []
                for name, folder, file in slots:
                    want = areas.join(files[f'{folder}/{file}'], files.__getitem__, folder)
                    got = module_text(after, name)
                    require(got == want, lambda: f'module {folder}/{file} {tag}: {short_diff(want, got)}')
                    res.append(got)
                return res

            back = check('unchanged')
            for a, b in zip(texts, back):
                require(a == b, lambda: f'module differs after extract and build: {short_diff(a, b)}')
            # another directive for one area
            holders = [(n, i) for n in sorted(files) for i, x in enumerate(areas.lines_of(files[n]))
                       if (areas.mark(x) or (0, None))[1:2] == (False,)]
            if holders:
                n, i = holders[case['pick'] % len(holders)]
                lines = areas.lines_of(files[n])
                head = lines[i].rstrip('\n').split(' //')[0].rstrip()
                lines[i] = head + ['', ' //&НаКлиенте', ' //&НаСервере'][case['new']] + '\n'
                files[n] = ''.join(lines)
                write_tree(src, {n: files[n].encode('utf-8')})
                check(f'after another directive in {n}')
        rec.case(texts, marked > 0, f'{marked} marked lines, {len(files)} files: {texts[0]!r}',
                 tags=[f'{min(marked, 4)} marked lines'])

    def _read(src, n):
        import os
        path = os.path.join(src, n)
        if not os.path.exists(path):
            return ''
        with open(path, 'rb') as f:
            return rb.decode_text(f.read())[0].replace('\r\n', '\n')

    def escaped(case):
        p = synth.Product(case['base'])
        version = p.tree('version') if 'version' in p.main else [[['217', '0', ['80306']]]]  # an extension has none
        if case['platform'] and 'version' in p.main:
            if len(version[0][0]) < 3:
                version[0][0].append([case['platform'], '0'])
            version[0][0][2][0] = case['platform']
        old = len(version[0][0]) < 3 or version[0][0][2][0][:3] in ('801', '802')
        objs = p.objects()
        slots = []  # (escaped?, container key, inner name or None)
        top = synth.TOP_MODULES[p.type]
        for code in sorted(top):
            if code != '802':
                slots.append((old, f'{p.top_uid}.{top[code]}', 'text'))
        forms = [n for n, v in sorted(p.main.items()) if isinstance(v, dict) and set(v) == {'form', 'module'}]
        slots += [(True, n, 'module') for n in forms]
        for o in objs:
            if o.kind in synth.MODULES and len(slots) < 14:
                slots.append((False, f'{o.uid}.{sorted(synth.MODULES[o.kind].values())[0]}', 'text'))
        order = sorted(range(len(slots)), key=lambda i: (case['seed'] % 4 and not slots[i][0],
                                                       (case['seed'] * (i + 3)) % 101))
        chosen = [slots[i] for i in order[:len(case['texts'])]]
        texts = []
        turned = 0
        for k, ((esc, name, inner), spec) in enumerate(zip(chosen, case['texts'])):
            lines = []
            for t in spec['lines'] * spec.get('repeat', 1):
                if t % 2:
                    line = _look[t // 2 % len(_look)]
                else:
                    line = _live[t // 2 % len(_live)]
                    if t // 40 % 2 or esc:
                        line = MARK + line
                        turned += esc
                lines.append(line)
            if spec['area'] and spec['lines']:
                m = MARK if esc else ''
                lines += [f'{m}#Область include_q{k}', 'А = 1;', f'{m}#Область Внутри', f'{m}#КонецОбласти',
                          f'{m}#КонецОбласти']
            lines.insert(0 if spec['first'] or not lines or lines[0].startswith(('#', '&')) else len(lines),
                         f'// слот {k}')
            text = '\n'.join(lines) + ('\n' if spec['tail'] else '')
            texts.append(text)
            raw = text.replace('\n', '\r\n').encode(spec['enc'], 'replace')
            if inner == 'module':
                p.main[name] = dict(p.main[name], module=raw)
            else:
                p.put_module(*name.rsplit('.', 1), raw, as_file=bool(spec.get('file')))
        expect = {}
        with workdir() as w:
            src = f'{w}/out'
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', src, temp_dir=f'{w}/t1', processes=1)
            tree = {n: rb.decode_text(d)[0].replace('\r\n', '\n') for n, d in read_tree(src).items() if n.endswith('.bsl')}
            place = {}
            for k, ((esc, name, inner), text) in enumerate(zip(chosen, texts)):
                want = uncomment(text) if esc else text
                root, inner_areas = areas.split(want)
                has = re.compile(rf'// слот {k}(\n|$)')
                found = [n for n, t in tree.items() if has.search(t)]
                require(len(found) == 1, lambda: f'module {name}: found in {found}')
                place[k] = found[0]
                require(tree[found[0]] == root, lambda: f'{found[0]}: {short_diff(root, tree[found[0]])}')
                for a, (body, r, o) in inner_areas.items():
                    n = posixpath.join(posixpath.dirname(found[0]), f'{a}.bsl')
                    require(tree.get(n) == body, lambda: f'{n}: {short_diff(body, tree.get(n))}')

            def check(wanted, tag):
                with cut(f'build {tag}'):
                    build(src, f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1)
                with open(f'{w}/out.bin', 'rb') as f:
                    after = products.unpack(f.read())
                for (esc, name, inner), want in zip(chosen, wanted):
                    got = after[-1 if len(after) == 1 else 0 if name in after[0] else 1][name]
                    got = rb.decode_text(got if isinstance(got, bytes) else got[inner])[0]
                    got = got.replace('\r\n', '\n')
                    require(got == want, lambda: f'{tag}: module {name} (commented: {esc}): {short_diff(want, got)}')

            check(texts, 'unchanged')
            edited = list(texts)
            for k, (esc, name, inner) in enumerate(chosen):
                lines = [f'// слот {k}'] + [_live[t % len(_live)] if t % 3 else _look[t % len(_look)]
                                            for t in case['texts'][k]['lines'] * case['texts'][k].get('repeat', 1)]
                new = '\n'.join(lines) + '\n'
                encodable = case['texts'][k]['enc'] != 'windows-1251'
                new = new if encodable else new.encode('windows-1251', 'replace').decode('windows-1251')
                write_tree(src, {place[k]: new.encode('utf-8')})
                edited[k] = comment(new) if esc else new
            check(edited, 'edited')
        rec.case((case['base'], case['platform'], texts), turned > 0,
                 f'{case["base"]} {case["platform"]} {[c[:2] for c in chosen]}: {texts[0]!r}',
                 tags=[f'{case["base"]} platform {case["platform"]}']
                 + sorted({('commented ' if e else 'plain ') + ('form' if i == 'module' else 'module') for e, n, i in chosen}))

    return dict(dynamic=dynamic, escaped=escaped)


def dynamic_cases():
    tokens = st.lists(st.integers(0, 400), min_size=1, max_size=16)
    return st.fixed_dictionaries(dict(modules=st.lists(tokens, min_size=1, max_size=2), pick=st.integers(0, 20),
                                      new=st.integers(0, 2)))


def run(rec):
    parts = PARTS(rec)
    spec = st.fixed_dictionaries(dict(lines=st.lists(st.integers(0, 400), max_size=9), area=st.booleans(),
                                      first=st.booleans(), tail=st.booleans(), file=st.booleans(),
                                      enc=st.sampled_from(['utf-8-sig', 'utf-8-sig', 'utf-8', 'windows-1251'])))
    esc = st.fixed_dictionaries(dict(
        base=st.sampled_from(['P802', 'P802', 'P803', 'C803', 'CE803', 'R803']),
        platform=st.sampled_from([None, None, '80216', '80102', '80315']), seed=st.integers(0, 100),
        texts=st.lists(spec, min_size=1, max_size=4)))
    long = dict(lines=list(range(2, 60, 2)), area=False, first=True, tail=True, enc='utf-8-sig', repeat=150)
    run_cases(rec, 'escaped', [dict(base=b, platform=None, seed=4, texts=[long]) for b in ('P802', 'C803', 'CE803')]
              + [dict(base=b, platform=v, seed=4, texts=[dict(long, repeat=1, file=f), dict(long, repeat=1, file=not f)])
                 for b in ('P802', 'C803', 'P803') for v in (None, '80216') for f in (False, True)], parts['escaped'])
    run_property(rec, 'escaped', esc, parts['escaped'], 1600, 40000, share=rec.budget * 0.6)
    run_property(rec, 'dynamic', dynamic_cases(), parts['dynamic'], 3000, 60000, share=rec.budget * 0.4)
