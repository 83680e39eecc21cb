"""C21: index files are merged by a fixed rule, with later entries winning."""
import copy
import json
import os

from hypothesis import strategies as st

from harness import products, synth
from harness.checks.c08 import same_product
from harness.checks.c10 import make_index, unzip
from harness.core import cut, diff_obj, diff_trees, quiet, read_tree, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('merge: generated sets of index files (nested folders, file entries, empty entries, lists, areas) with up to four nested '
        'files; the loaded index must equal that of an independent model, and a folder in one file that is a file in another '
        'must be reported by name; the files on disk stay as they are; non-trivial: an entry of one file meets one of another. '
        'inputs: the same by direct call; all arguments after the first stay as they were, also after the result is changed. '
        'broken: an index file that is missing, no JSON or no object is reported by name. effect: an index split over several '
        'files, with entries that the main file overrides, must act in extraction and build, alone and in a list of products, '
        'like the flat index; non-trivial: three or more relocated files and two or more files of the index')
ASSUMPTIONS = ['nested index files are listed in alphabetical order, so that both readings of the documentation agree',
               'an entry without a value (null) conflicts with nothing', 'nested index files have no nested index files of their own']
QUICK_SECONDS = 30


class Clash(Exception):
    pass


def merged(parts, path=''):
    res = {}
    for part in parts:
        for k, v in part.items():
            old = res.get(k)
            if isinstance(old, dict) and isinstance(v, dict):
                res[k] = merged([old, v], f'{path}.{k}')
            elif old is not None and v is not None and isinstance(old, dict) != isinstance(v, dict):
                raise Clash(k)
            elif isinstance(old, list) and isinstance(v, list):
                res[k] = old + v
            else:
                res[k] = copy.deepcopy(v)
    return res


def meets(parts):
    """An entry present in two parts."""
    seen = set()

    def walk(x, path):
        for k, v in x.items():
            if isinstance(v, dict):
                if walk(v, path + (k,)):
                    return True
            elif path + (k,) in mine or path + (k,) not in seen:
                mine.add(path + (k,))
                seen.add(path + (k,))
            else:
                return True
        return False
    for part in parts:
        mine = set()
        if walk(part, ()):
            return True
    return False


FOLDERS = ['Form', 'Форма1', 'Catalog', 'Области include']
FILES = ['Form.json', 'Form.id.json', 'Модуль.obj.bsl', '*', '*-Form.json', 'x']
LISTS = ['список', 'перечень']


def _node(depth):
    leaf = st.one_of(st.sampled_from(['core/a', 'core/b', '', 'lib']), st.none())
    parts = [st.dictionaries(st.sampled_from(FILES), leaf, max_size=4),
             st.dictionaries(st.sampled_from(LISTS), st.lists(st.sampled_from(['p', 'q', 'r']), max_size=3), max_size=1)]
    if depth:
        parts.append(st.dictionaries(st.sampled_from(FOLDERS), _node(depth - 1), max_size=3))
    # seldom a folder with the name of a file and the other way round
    parts.append(st.one_of(*[st.just({})] * 12, st.sampled_from([{'x': {}}, {'x': {'Form.json': 'y'}}, {'Form': 'core/z'}, {'Form': ''}, {'Форма1': 'a'}])))
    return st.tuples(*parts).map(lambda xs: {k: v for x in xs for k, v in x.items()})


def PARTS(rec):
    from v8unpack import helper, v8unpack as mod
    from v8unpack.v8unpack import extract, build

    def load(path):
        err = None
        with quiet():
            try:
                return mod.check_index(path), None
            except Exception as e:
                err = e
        return None, err

    def write(w, name, index, ascii=False):
        with open(f'{w}/{name}', 'w', encoding='utf-8') as f:
            json.dump(index, f, ensure_ascii=ascii)

    def expectation(parts):
        try:
            return merged(parts), None
        except Clash as err:
            return None, str(err)

    def merge(case):
        parts = case['parts']
        want, clash = expectation(parts)
        with workdir() as w:
            names = []
            for k, part in enumerate(parts[:-1]):
                os.makedirs(f'{w}/s{k}', exist_ok=True)
                write(w, f's{k}/index.json', part, case['ascii'])
                names.append(f'{w}/s{k}/index.json')
            main = dict(parts[-1])
            if names or case['empty']:
                main = {'index.json': names, **main} if case['ascii'] else {**main, 'index.json': names}
            write(w, 'index.json', main, case['ascii'])
            before = read_tree(w)
            got, err = load(f'{w}/index.json')
            require(read_tree(w) == before, lambda: 'loading an index changed a file')
            if clash:
                require(err is not None, lambda: f'{clash!r} is a folder and a file in {parts}: merged to {got}')
                require(clash in str(err), lambda: f'the conflict of {clash!r} is reported as {str(err)[:300]}')
            else:
                require(err is None, lambda: f'{parts} not merged: {str(err)[:300]}')
                d = diff_obj(want, got)
                require(not d, lambda: f'{parts} merged to {got}: {d}')
                again, err = load(f'{w}/index.json')
                require(again == want and err is None, lambda: f'the second load gives {again}')
        rec.case(repr(parts), meets(parts) or bool(clash), f'{parts} -> {"conflict of " + clash if clash else want}'[:300],
                 tags=['conflict'] if clash else [f'{len(parts)} files'])

    def spoil(x):
        for k in list(x):
            v = x[k]
            if isinstance(v, dict):
                spoil(v)
                v['лишнее'] = 'x'
            elif isinstance(v, list):
                v.append('лишнее')
            else:
                x[k] = 'испорчено'

    def inputs(case):
        parts = case['parts']
        want, clash = expectation(parts)
        args = [json.loads(json.dumps(x)) for x in parts]
        with quiet():
            try:
                got = helper.update_dict(*args)
            except Exception as err:
                require(clash, lambda: f'{parts}: {err}')
                rec.case(repr(parts), False, 'conflict', tags=['conflict'])
                return
        require(not clash, lambda: f'{clash!r} is a folder and a file in {parts}: merged to {got}')
        require(got == want, lambda: f'{parts}: {diff_obj(want, got)}')
        require(args[1:] == parts[1:], lambda: f'merging {parts} changed an argument: {args}')
        spoil(got)
        require(args[1:] == parts[1:] and (len(args) > 1 or args == parts), lambda: f'the result shares a part with an argument: {parts} -> {args}')
        rec.case(repr(parts), meets(parts), f'{parts}'[:300])

    def broken(case):
        with workdir() as w:
            raw = case['raw']
            ok = {'a': {'b': 'c'}}
            for k in range(3):
                write(w, f'n{k}.json', ok)
            names = [f'{w}/n{k}.json' for k in range(3)]
            write(w, 'index.json', dict({'index.json': names}, x='y'))
            bad = 'index.json' if case['which'] == 3 else f'n{case["which"]}.json'
            if raw is None:
                os.remove(f'{w}/{bad}')
            else:
                with open(f'{w}/{bad}', 'wb') as f:
                    f.write(raw)
            got, err = load(f'{w}/index.json')
            require(err is not None, lambda: f'{bad} holding {raw!r} accepted: {got}')
            require(bad in str(err), lambda: f'{bad} holding {raw!r} not named: {str(err)[:300]}')
        rec.case((case['which'], raw), True, f'{bad} holding {raw!r} is reported')

    def effect(case):
        p = synth.apply(case)
        n = case['files']
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/a/out', temp_dir=f'{w}/t1', processes=1)
            src = sorted(x[4:] for x in read_tree(f'{w}/a') if x.startswith('out/'))
            if any(x.endswith('.bsl') and x.rsplit('/', 1)[-1].count('.') == 1
                   or x.endswith('.elem.json') and not x.endswith('Form.elem.json') for x in src):
                return  # the files of areas follow their modules
            flat, place, nulls = make_index(src, case['marks'], None)
            parts = [{} for k in range(n)]
            at = [0]

            def take():
                at[0] += 1
                return case['marks'][at[0] % len(case['marks'])] + at[0]

            def split(node, outs):
                for key, v in node.items():
                    m = take()
                    if isinstance(v, dict):
                        subs = [o.setdefault(key, {}) for o in outs]
                        split(v, subs)
                    else:
                        k = m % n
                        outs[k][key] = v
                        if v and not key.startswith('*'):
                            for j in range(k):
                                if m // 7 % 3 == 0:
                                    outs[j][key] = f'нет/{m}/{key}'
            split(flat, parts)
            names = []
            for k in range(n - 1):
                write(w, f'n{k}.json', parts[k])
                names.append(f'{w}/n{k}.json')
            write(w, 'many.json', {**parts[-1], 'index.json': names} if case['last'] else {'index.json': names, **parts[-1]})
            write(w, 'flat.json', flat)
            for tag in ('many', 'flat'):
                with cut(f'extract ({tag})'):
                    extract(f'{w}/in.bin', f'{w}/{tag}/out', temp_dir=f'{w}/t1', processes=1, index=f'{w}/{tag}.json')
            d = diff_trees(unzip(read_tree(f'{w}/flat')), unzip(read_tree(f'{w}/many')), names=('flat', 'split'))
            require(not d, lambda: f'index {parts}: {d}'[:1500])
            built = {}
            for tag in ('many', 'flat'):
                with cut(f'build ({tag})'):
                    build(f'{w}/flat/out', f'{w}/{tag}.bin', temp_dir=f'{w}/t2', processes=1, index=f'{w}/{tag}.json')
                with open(f'{w}/{tag}.bin', 'rb') as f:
                    built[tag] = products.unpack(f.read())
            d = same_product(built['flat'], built['many'])
            require(not d, lambda: f'build with the index {parts}: {d}'[:1500])
            if case['list']:  # two products share nested files; the first must not change the second
                other = {x: ({'Configuration.json': 'иное'} if isinstance(y, dict) else 'иное/x') for x, y in parts[-1].items() if not x.startswith('*')}
                conflict = expectation([*parts[:-1], other])[1]
                if not conflict:
                    write(w, 'other.json', {**other, 'index.json': names})
                    write(w, 'p.json', {k: dict(src=f'{w}/{d}/out', bin=f'{w}/in.bin', temp=f'{w}/t1', index=f'{w}/{i}.json', disable=False)
                                        for k, d, i in (('а', 'list0', 'other'), ('б', 'list1', 'many'))})
                    with cut('extract of a list'):
                        mod.extract_all(f'{w}/p.json', processes=1)
                    d = diff_trees(unzip(read_tree(f'{w}/flat')), unzip(read_tree(f'{w}/list1')), names=('alone', 'in a list'))
                    require(not d, lambda: f'second of a list, index {parts}: {d}'[:1500])
        rec.case(case, len(place) > 2 and sum(bool(x) for x in parts) > 1, f'{case["base"]}: {len(place)} files relocated by {n} index files',
                 tags=[f'{n} files'])

    return dict(merge=merge, inputs=inputs, broken=broken, effect=effect)


def run(rec):
    parts = PARTS(rec)
    one = st.fixed_dictionaries(dict(parts=st.lists(_node(2), min_size=1, max_size=4), ascii=st.booleans(), empty=st.booleans()))
    run_property(rec, 'merge', one, parts['merge'], 4000, 100000, share=rec.budget * 0.35)
    run_property(rec, 'inputs', one, parts['inputs'], 3000, 100000, share=rec.budget * 0.2)
    raws = [None, b'', b'[]', b'[{}]', b'{', b'{"a": }', b'"x"', b'null', b'{"a": 1}}', b'{"a" "b"}', b'\xff\xfe{}', b'12', b"{'a': 1}", b'true', b'{"a": "b",}']
    run_cases(rec, 'broken', [dict(which=k, raw=raw) for k in range(4) for raw in raws], parts['broken'])
    marks = st.lists(st.integers(0, 500), min_size=3, max_size=30)
    case = st.builds(lambda c, m: dict(c, **m), synth.cases(max_ops=2, bases=['P803', 'R803', 'apam', 'P802', 'CE803', 'C803']),
                     st.fixed_dictionaries(dict(files=st.integers(2, 4), marks=marks, last=st.booleans(), list=st.booleans())))
    run_property(rec, 'effect', case, parts['effect'], 500, 8000)
