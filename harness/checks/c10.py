"""C10: relocating files with an index loses nothing and is undone by the build."""
import io
import json
import os
import posixpath
import zipfile

from hypothesis import strategies as st

from harness import areas, products, synth
from harness.checks.c08 import any_order, same_product
from harness.core import cut, diff_trees, read_tree, require, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('products made as for C08, extracted without an index and with a generated one: explicit entries, empty entries, '
        'wildcards with exceptions, renamed include areas, at any depth; every file '
        'must be where the index says with the bytes it has without an index, and the build with the index, run from '
        'another directory as well, after edits as well, must give the product that the build without index gives; '
        'non-trivial: two or more files relocated')
ASSUMPTIONS = ['the index sends different files to different places']
QUICK_SECONDS = 45


def make_index(files, marks, seed_names):
    """files: sorted paths inside the sources; marks: ints. -> (index, {file: place relative to the parent of src})"""
    index, place, nulls = {}, {}, []
    folders = {}
    for f in files:
        folders.setdefault(posixpath.dirname(f), []).append(f)
    k = 0
    for folder in sorted(folders):
        m = marks[k % len(marks)]
        k += 1
        node = index
        if folder:
            for part in folder.split('/'):
                node = node.setdefault(part, {})
        star = m % 5 == 0
        star_dir = f'{["lib", "core/общее", "a/b/c", "lib2"][m // 5 % 4]}/w{k}'
        order_star_first = m // 20 % 2
        if star and order_star_first:
            node['*'] = star_dir
        for f in folders[folder]:
            m = marks[k % len(marks)]
            k += 1
            name = posixpath.basename(f)
            kind = m % (6 if star else 4)
            if kind == 0:
                folder_to = ['core', 'core/x', 'lib', 'дело', star_dir if star else 'lib'][m // 8 % 5]
                ext = '.' + name.split('.', 1)[1] if '.' in name else ''
                node[name] = place[f] = f'{folder_to}/п{k}{["", "." + str(k), "_x"][m // 40 % 3]}{ext}'
            elif kind == 1 and (star or m // 8 % 2):
                node[name] = [None, ''][m // 16 % 2]
                if star:
                    nulls.append((f, f'{star_dir}/{name}'))
            elif star:
                place[f] = f'{star_dir}/{name}'
        if star and not order_star_first:
            node['*'] = star_dir
    return index, place, nulls


def with_exceptions(node):
    """The same index for a build: names that stay in place are written behind the star, '*-a.json-b.bsl'."""
    res, out = {}, []
    star = node.get('*')
    for name, v in node.items():
        if isinstance(v, dict) and name != 'Области include':
            res[name] = with_exceptions(v)
        elif isinstance(star, str) and not v and '-' not in name and not name.startswith('*'):
            out.append(name)
        else:
            res[name] = v
    if out:
        key = '*-' + '-'.join(out)
        res = {key if n == '*' else n: v for n, v in res.items()}
    return res


def unzip(tree):
    """The members of archives instead of the archives, which hold time stamps."""
    res = {}
    for n, d in tree.items():
        if n.endswith('.zip'):
            z = zipfile.ZipFile(io.BytesIO(d))
            res.update({f'{n}!{m}': z.read(m) for m in z.namelist() if not m.endswith('/')})
        else:
            res[n] = d
    return res


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def relocated(case):
        p = synth.apply(case)
        auto = case['auto'] and not case['base'].startswith('apam')
        options = dict(auto_include=True) if auto else {}
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/a/out', temp_dir=f'{w}/t1', processes=1, options=dict(options))
            plain = unzip(read_tree(f'{w}/a'))
            src = {n[4:]: d for n, d in read_tree(f'{w}/a').items() if n.startswith('out/')}
            area_files = {n: d for n, d in plain.items() if not n.startswith('out/')}
            beside = {n: src.pop(n) for n in list(src) if n.endswith('.bsl') and n.rsplit('/', 1)[-1].count('.') == 1
                      or n.endswith('.elem.json') and not n.endswith('Form.elem.json')}
            index, place, nulls = make_index(sorted(src), case['marks'], None)
            expected = unzip(src)
            expected = {posixpath.normpath(place[n.split('!')[0]]) + n[len(n.split('!')[0]):]
                        if n.split('!')[0] in place else f'out/{n}': d for n, d in expected.items()}
            require(len(expected) == len(plain) - len(area_files) - len(beside), 'two files lead to one place (check)')
            for n, d in beside.items():  # areas without a folder stand beside the module, wherever that is
                stem, ext = n.rsplit('/', 1)[-1].split('.', 1)
                mark = f'"include_{stem}"' if ext == 'elem.json' else f'#Область include_{stem}\n'
                for m, text in src.items():
                    if posixpath.dirname(m) == posixpath.dirname(n) and m.endswith(ext) \
                            and mark.encode() in text.replace(b'\r\n', b'\n'):
                        where = posixpath.join(posixpath.dirname(place.get(m, f'out/{m}')), f'{stem}.{ext}')
                        require(expected.get(where, d) == d, 'two files lead to one place (check)')
                        expected[where] = d
            renamed = {}
            table = index.setdefault('Области include', {})
            for k, n in enumerate(sorted(area_files)):
                name = n.rsplit('.', 1)[0].replace('/', '_') if n.endswith('.bsl') else None
                if name and case['marks'][k % len(case['marks'])] % 3 == 0:
                    table[name] = f'area{k}_{["x", "общая", "q_z"][k % 3]}'
                    renamed[n] = posixpath.normpath(posixpath.join('out', areas.file_of(table[name], '')))
            for n, d in area_files.items():
                n = renamed.get(n, n)
                require(expected.get(n, d) == d, 'two files lead to one place (check)')
                expected[n] = d
            with open(f'{w}/i.json', 'w', encoding='utf-8') as f:
                json.dump(index, f, ensure_ascii=False)
            os.makedirs(f'{w}/b')
            os.makedirs(f'{w}/elsewhere')
            os.chdir(f'{w}/b' if case['home'] else f'{w}/elsewhere')
            with cut('extract with an index'):
                extract(f'{w}/in.bin', f'{w}/b/out', temp_dir=f'{w}/t1', processes=1, options=dict(options),
                        index=f'{w}/i.json')
            got = unzip(read_tree(f'{w}/b'))
            d = diff_trees(expected, got, names=('expected', 'extracted'))
            require(not d, lambda: f'extraction with an index {json.dumps(index, ensure_ascii=False)[:600]}: {d}')
            # edits of module texts, in both trees
            bsl = [n for n in sorted(src) if n.endswith('.bsl')]
            edited = None
            if bsl and case['edit'] is not None:
                edited = bsl[case['edit'] % len(bsl)]
                text = src[edited] + '\n// правка\n'.encode()
                write_tree(f'{w}/a/out', {edited: text})
                write_tree(f'{w}/b', {place.get(edited, f'out/{edited}'): text})
            if case['foreign']:
                for n, where in nulls:
                    write_tree(f'{w}/b', {where: b'{"uuid": "foreign"}' if n.endswith('.json') else b'foreign'})
            stale = 0
            for k in case['leftover']:  # files relocated by hand leave a copy behind; the index decides
                n = sorted(place)[k % len(place)] if place else None
                if n:
                    stale += 1
                    write_tree(f'{w}/b/out', {n: b'{"tree": [], "data": {}}' if n.endswith('.elem.json') else b'{"uuid": "stale"}' if n.endswith('.json')
                                              else b'// stale\n'})
            with cut('build'):
                build(f'{w}/a/out', f'{w}/a.bin', temp_dir=f'{w}/t2', processes=1, options=dict(options))
            used = index
            if case['exceptions']:
                used = with_exceptions(index)
                with open(f'{w}/i.json', 'w', encoding='utf-8') as f:
                    json.dump(used, f, ensure_ascii=False)
            with any_order(case['leftover'][0] if case['leftover'] else None), cut('build with an index'):
                build(f'{w}/b/out', f'{w}/b.bin', temp_dir=f'{w}/t2', processes=1, options=dict(options),
                      index=f'{w}/i.json')
            with open(f'{w}/a.bin', 'rb') as f:
                x = products.unpack(f.read())
            with open(f'{w}/b.bin', 'rb') as f:
                y = products.unpack(f.read())
            d = same_product(x, y)
            require(not d, lambda: f'the build with an index {json.dumps(used, ensure_ascii=False)[:600]} differs: {d}')
        rec.case(case, len(place) + len(renamed) > 1,
                 f'{case["base"]}: {len(src)} files, {len(place)} relocated, {len(renamed)} areas renamed, edited {edited}',
                 tags=['wildcard'] * ('"*"' in json.dumps(index)) + ['renamed area'] * bool(renamed) + ['auto'] * auto
                 + ['names behind a star'] * ('"*-' in json.dumps(used)) + ['copies left behind'] * bool(stale) + ['run elsewhere'] * (not case['home']) + ['foreign file'] * bool(case['foreign'] and nulls))

    return dict(relocated=relocated)


def run(rec):
    parts = PARTS(rec)
    area = st.tuples(st.just('area_module'), synth.INT, synth.INT, st.lists(st.integers(0, 11), min_size=1, max_size=4))
    strategy = st.builds(lambda c, e, more: dict(c, ops=list(c['ops']) + e, **more),
                         synth.cases(max_ops=3), st.lists(area, max_size=3),
                         st.fixed_dictionaries(dict(marks=st.lists(st.integers(0, 1000), min_size=1, max_size=40),
                                                    leftover=st.one_of(st.just([]), st.lists(st.integers(0, 1000), min_size=1, max_size=5)), auto=st.booleans(), home=st.booleans(), foreign=st.booleans(), exceptions=st.booleans(),
                                                    edit=st.one_of(st.none(), st.integers(0, 100)))))
    run_property(rec, 'relocated', strategy, parts['relocated'], 1000, 25000)
