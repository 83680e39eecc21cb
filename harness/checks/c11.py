"""C11: versioned extraction adds only changed files and each version rebuilds as it was."""
import json
import os
import posixpath

from hypothesis import strategies as st

from harness import edits, products, synth
from harness.checks.c08 import any_order, same_product
from harness.checks.c10 import unzip
from harness.core import Violation, cut, diff_trees, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('a chain of one to four products, each made from the one before by operations, is extracted into one folder with '
        'rising version numbers; after each extraction the folder must be exactly what the reference model says (a '
        'versioned copy only of what differs from the nearest version not later); then every version, numbers in between '
        'and edited files are built and compared with a build of the files the model selects; non-trivial: at least two '
        'versions that differ in two or more files and share two or more')
ASSUMPTIONS = ['versions are extracted in rising order', 'a file removed in a later version stays selectable (no removal marks); versions in which that leaves one '
               'object under two names are not built']
QUICK_SECONDS = 45


def versioned(name, number):
    """The documented name of a file: the number before the extension; the base version 0 has none."""
    folder, base = posixpath.split(name)
    parts = base.split('.')
    if number:
        parts.insert(len(parts) - 1, str(number))
    return posixpath.join(folder, '.'.join(parts))


class Model:
    def __init__(self):
        self.files = {}   # name -> {number: bytes}
        self.outside = {}  # areas and relocated files, not versioned

    def nearest(self, name, number):
        numbers = [n for n in self.files.get(name, {}) if n <= number]
        return max(numbers) if numbers else None

    def extract(self, inside, outside, number):
        changed = []
        for name, data in inside.items():
            have = self.files.setdefault(name, {})
            near = self.nearest(name, number)
            if near is None or near == number or have[near] != data:
                if near is not None:
                    changed.append(name)
                have[number] = data
        self.outside.update(outside)
        return changed

    def tree(self):
        res = {versioned(name, n): data for name, have in self.files.items() for n, data in have.items()}
        return res

    def select(self, number):
        return {name: have[self.nearest(name, number)] for name, have in self.files.items()
                if self.nearest(name, number) is not None}


def numbers_of(spec, zero, base):
    """Rising four-part numbers."""
    res = set()
    for a, b, c, d in spec:
        res.add(a * 10**9 + b * 10**6 + c * 10**3 + d)
    res = sorted(res)
    if zero:
        res = [0] + res
    return res


def index_of(inside, marks, areas):
    """Explicit entries for some files; areas that stand beside a module follow it, so modules stay where a version may
    have areas."""
    index, place = {}, {}
    beside = {}
    k = 0
    for name in sorted(inside):
        base = posixpath.basename(name)
        m = marks[k % len(marks)]
        k += 1
        if m % 4 or base.endswith(('.bsl', '.elem.json')) and (areas or b'include_' in inside[name] or b'includr_' in inside[name]):
            continue
        folder, ext = ['core', 'lib/общее', 'q'][m // 4 % 3], base.split('.', 1)[-1]
        place[name] = f'{folder}/п{k}.{ext}'
        if (folder, ext) in beside and m // 12 % 3 == 1:  # looks like a version of a file taken out before
            parts = beside[folder, ext].split('.')
            place[name] = '.'.join(parts[:-1] + [['7', '2005006'][m // 36 % 2], parts[-1]])
        beside[folder, ext] = f'{folder}/п{k}.{ext}'
        node = index
        for part in [x for x in posixpath.dirname(name).split('/') if x]:
            node = node.setdefault(part, {})
        node[base] = place[name]
    return index, place


OWN_NUMBERS = (4, 8, 9, 10)
KNOWN = 'main file of a configuration in version 4, 8, 9 or 10'


def known(check):
    """Configuration.4.json and the like are names of files of their own, so these four numbers do not work as versions of Configuration.json."""
    def wrapped(case):
        try:
            check(case)
        except Violation as v:
            small = set(numbers_of(case['numbers'], case['zero'], case['base'])) & set(OWN_NUMBERS)
            if v.key is None and small and any(t in str(v) for n in small for t in ('Не найдены файлы для сборки', f'Configuration.{n}.json', 'l2/src/БУХ/Configuration.json')):
                v.key = KNOWN
            raise
    return wrapped


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def versions(case):
        numbers = numbers_of(case['numbers'], case['zero'], case['base'])
        chain = [list(case['ops'])] + [list(x) for x in case['more']]
        numbers = numbers[:len(chain)] if len(numbers) >= len(chain) else numbers
        chain = chain[:len(numbers)]
        model = Model()
        changed = []
        shared = 0
        with workdir() as w:
            # <w>/d/l2 is what the documentation calls the parent of the parent of the sources
            dest, plain = f'{w}/d/l2/src/БУХ', f'{w}/p/l2/out'
            index = None
            place = {}
            trees = {}
            for i, number in enumerate(numbers):
                p = synth.apply(dict(base=case['base'], keep=case['keep'], ops=[o for ops in chain[:i + 1] for o in ops]))
                with open(f'{w}/in{i}.bin', 'wb') as f:
                    f.write(p.bytes())
                with cut('extract'):
                    extract(f'{w}/in{i}.bin', plain, temp_dir=f'{w}/t1', processes=1)
                tree = read_tree(f'{w}/p')
                inside = {n[7:]: d for n, d in tree.items() if n.startswith('l2/out/')}
                outside = {n: d for n, d in tree.items() if not n.startswith('l2/out/')}
                if i == 0 and case['marks']:
                    areas = any(op[0].startswith('area') for ops in chain for op in ops)
                    index, place = index_of(inside, case['marks'], areas)
                    with open(f'{w}/i.json', 'w', encoding='utf-8') as f:
                        json.dump(index, f, ensure_ascii=False)
                for n in [n for n in inside if n in place]:
                    outside[f'l2/{place[n]}'] = inside.pop(n)
                trees[number] = dict(inside)
                was = set(model.files)
                diff = model.extract(inside, outside, number)
                if i:
                    changed.append(len(diff) + len(set(inside) - was))
                    shared = max(shared, len(set(inside) & was) - len(diff))
                again = 2 if case['again'] and i == len(numbers) - 1 else 1
                for k in range(again):
                    with any_order(case['seed']), cut(f'extract version {number}'):
                        extract(f'{w}/in{i}.bin', dest, temp_dir=f'{w}/t1', processes=1, options=dict(descent=number),
                                index=f'{w}/i.json' if index else None)
                want = {f'l2/src/БУХ/{n}': d for n, d in model.tree().items()}
                want.update(model.outside)
                have = read_tree(f'{w}/d')
                # the archive of the first container holds time stamps, so each version may have one of its own
                extra = f'l2/src/БУХ/{versioned("dummy.zip", number)}'
                if 'dummy.zip' in inside and i:
                    want.pop(extra, None)
                    model.files['dummy.zip'].pop(number, None)
                    if extra in have:
                        model.files['dummy.zip'][number] = want[extra] = have[extra]
                d = diff_trees(unzip_all(want), unzip_all(have), names=('model', 'folder'))
                require(not d, lambda: f'after extraction of {numbers[:i + 1]}, index {index}: {d}')
            # an edit in one of the versioned files
            edited = None
            if case['edit'] is not None:
                names = sorted(n for n in model.tree() if n.endswith('.bsl'))
                if names:
                    edited = names[case['edit'] % len(names)]
                    for n, have in model.files.items():
                        for number in have:
                            if versioned(n, number) == edited:
                                have[number] += '// правка\n'.encode()
                                write_tree(dest, {edited: have[number]})
            # builds: the extracted versions and numbers next to them
            asked = set(numbers)
            for n in numbers:
                asked |= {n + 1, n + 10**6}
            asked = sorted(asked)
            pick = [numbers[0], numbers[-1]] + [asked[k % len(asked)] for k in case['asked']]
            relocated = {n: model.outside[f'l2/{place[n]}'] for n in place if f'l2/{place[n]}' in model.outside}
            for number in dict.fromkeys(pick):
                sel = dict(model.select(number))
                ids = [d for n, d in list(sel.items()) + list(relocated.items()) if n.endswith('.id.json')]
                if len(ids) != len(set(ids)):
                    continue  # a renamed object is present under both names (no removal marks)
                sel.update(relocated)
                ref = f'{w}/r{number}'
                write_tree(ref, {f'l2/out/{n}': d for n, d in sel.items()})
                write_tree(ref, model.outside)
                try:
                    with cut(f'plain build of the files selected for {number}'):
                        build(f'{ref}/l2/out', f'{w}/a.bin', temp_dir=f'{w}/t2', processes=1)
                except Violation:
                    # files of several versions in one place (relocated, removed) need not fit together
                    if place or sel != trees.get(number):
                        continue
                    raise
                with any_order(case['seed'] + 1), cut(f'build version {number} of {numbers}'):
                    build(dest, f'{w}/b.bin', temp_dir=f'{w}/t2', processes=1, options=dict(descent=number),
                          index=f'{w}/i.json' if index else None)
                with open(f'{w}/a.bin', 'rb') as f:
                    x = products.unpack(f.read())
                with open(f'{w}/b.bin', 'rb') as f:
                    y = products.unpack(f.read())
                d = same_product(x, y)
                require(not d, lambda: f'version {number} of {numbers}, edited {edited}: {d}')
        rec.case(case, len(numbers) > 1 and max(changed) > 1 and shared > 1,
                 f'{case["base"]}: versions {numbers}, changed files {changed}, edited {edited}, {len(place)} relocated',
                 tags=[f'{len(numbers)} versions'] + ['base version'] * (numbers[0] == 0) + ['index'] * bool(index)
                 + ['edited'] * bool(edited))

    def info(case):
        """Files whose own name has a number in it, with the base version that has no suffix."""
        with workdir() as w:
            p = synth.apply(case)
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/a/l2/src', temp_dir=f'{w}/t1', processes=1)
                extract(f'{w}/in.bin', f'{w}/b/l2/src/x', temp_dir=f'{w}/t1', processes=1, options=dict(descent=0))
            with cut('build'):
                build(f'{w}/a/l2/src', f'{w}/a.bin', temp_dir=f'{w}/t2', processes=1)
            with cut('build of the base version'):
                build(f'{w}/b/l2/src/x', f'{w}/b.bin', temp_dir=f'{w}/t2', processes=1, options=dict(descent=0))
            with open(f'{w}/a.bin', 'rb') as f:
                x = products.unpack(f.read())
            with open(f'{w}/b.bin', 'rb') as f:
                y = products.unpack(f.read())
            d = same_product(x, y)
            require(not d, lambda: f'base version: {d}')
        rec.case(case, True, f'base version of {case["base"]}')

    return dict(versions=known(versions), info=info)


def unzip_all(tree):
    """Archives are compared by their members."""
    import io
    import zipfile
    res = {}
    for n, d in tree.items():
        if n.endswith('.zip'):
            z = zipfile.ZipFile(io.BytesIO(d))
            res.update({f'{n}!{m}': z.read(m) for m in z.namelist() if not m.endswith('/')})
        else:
            res[n] = d
    return res


def run(rec):
    parts = PARTS(rec)
    area = st.tuples(st.just('area_module'), synth.INT, synth.INT, st.lists(st.integers(0, 11), min_size=1, max_size=4))
    part = st.integers(0, 999)
    number = st.tuples(st.one_of(st.integers(0, 12), part), st.one_of(st.integers(0, 2), part), part, part)
    touch = st.tuples(st.just('touch'), synth.INT, synth.INT, st.integers(0, 7))
    more = st.lists(st.lists(synth.ops(extra=(area, touch, touch, touch, touch)), min_size=1, max_size=3), max_size=3)
    strategy = st.builds(lambda c, **more: dict(c, **more),
                         synth.cases(bases=['CE803', 'CE803', 'P803', 'C803', 'R803', 'C803-16', 'P802', 'apam'], max_ops=3, extra=(area,)),
                         numbers=st.lists(number, min_size=1, max_size=4), zero=st.booleans(), more=more,
                         marks=st.one_of(st.just([]), st.lists(st.integers(0, 1000), min_size=1, max_size=20)),
                         again=st.booleans(), seed=st.integers(1, 1 << 30),
                         edit=st.one_of(st.none(), st.integers(0, 100)), asked=st.lists(st.integers(0, 30), max_size=2))
    run_cases(rec, 'info', [dict(base=b, keep=[], ops=[]) for b in ('C803', 'CE803', 'P803', 'P802', 'apam')]
              + [dict(base='CE803', keep=None, ops=[]), dict(base='C803', keep=[], ops=[('top_module', 0, 'А = 1;')]),
                 dict(base='C803', keep=None, ops=[])], parts['info'])
    run_cases(rec, 'versions', [dict(base='C803', keep=[0], ops=[], numbers=[(0, 0, 0, n)], zero=False, more=[], marks=[], again=False, seed=1, edit=None, asked=[])
                                for n in OWN_NUMBERS], parts['versions'])
    run_property(rec, 'versions', strategy, parts['versions'], 600, 15000)
