"""C26: the command line, product lists and calls do the same."""
import contextlib
import json
import os
import shutil
import subprocess
import sys

from hypothesis import strategies as st

from harness import core, products, synth
from harness.checks.c08 import same_product
from harness.checks.c10 import make_index, unzip
from harness.checks.c25 import is_area
from harness.core import SCHEDULE, cut, diff_obj, diff_trees, quiet, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('one to three generated products with generated parameters (prefix, automatic mode, descent number, compatibility version, index, temporary '
        'folder, number of processes, disabled or not, a missing input) are extracted, built or indexed through the command line, a '
        'product list (by call and by command line, with and without a product code) with relative and absolute paths of several '
        'spellings, and by plain calls with absolute paths; the folders (complete, with former content), the outcome and the number of processes asked for must be those of the plain calls '
        'made for the selected products only, in order, up to the first failure; non-trivial: an option is set or several products are listed')
ASSUMPTIONS = ['an option given on the command line has a value that is not empty', 'a product list names its products by distinct codes']
QUICK_SECONDS = 40

BASES = ['C803', 'CE803', 'CE803', 'P802', 'P803', 'apam', 'R803']


def outcome(func):
    """-> None or the error text"""
    try:
        with quiet():
            res = func()
    except (Exception, SystemExit) as err:
        return f'{type(err).__name__}: {str(err)[:300]}'
    return f'code {res}' if res else None


def cli(args):
    from v8unpack import v8unpack as mod
    old = sys.argv
    sys.argv = ['v8unpack'] + [str(x) for x in args]
    try:
        return mod.main()
    finally:
        sys.argv = old


@contextlib.contextmanager
def folder(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def spell(name, how, w):
    """A way to write the path of a file or folder below the working folder."""
    return [name, f'./{name}', f'{w}/{name}', f'bin/../{name}', f'{w}/./{name}'][how % 5]


def PARTS(rec):
    from v8unpack.v8unpack import extract, build, extract_all, build_all, update_index, update_index_all

    def options_of(o):
        res = {}
        if o['prefix']:
            res['prefix'] = o['prefix']
        if o['auto']:
            res['auto_include'] = True
        if o['descent'] is not None:
            res['descent'] = o['descent']
        if o['version']:
            res['version'] = o['version']
        return res

    def prepare(w, what, case):
        """The state before: the same in the folders of both runs. -> parameters of each product"""
        res = []
        for i, o in enumerate(case['products']):
            p = synth.apply(o['case'])
            data = p.bytes()
            opts = options_of(o)
            params = dict(src=f'src{i}', bin=f'bin/p{i}.{"cfe" if p.type == "ConfigurationExtension" else "epf"}')
            index = None
            with cut('extract the original'):
                write_tree(w, {'in.bin': data})
                extract(f'{w}/in.bin', f'{w}/first/src', temp_dir=f'{w}/t', processes=1, options=opts)
            first = read_tree(f'{w}/first')
            shutil.rmtree(f'{w}/first')
            inside = {n[4:]: d for n, d in first.items() if n.startswith('src/')}
            if o['index'] and o['descent'] is None:
                index = make_index([f for f in sorted(inside) if f != 'version.bin' and not is_area(f)], o['index'], None)[0]
                # index entries of several products would meet: each has a folder of its own
                index = json.loads(json.dumps(index).replace('"core', f'"core{i}').replace('"lib', f'"lib{i}').replace('"дело', f'"дело{i}'))
            for side in 'got', 'ref':
                d = f'{w}/{side}'
                tree = {'bin/readme.txt': b'x'}
                if index is not None:
                    tree[f'index{i}.json'] = json.dumps(index, ensure_ascii=False).encode()
                if what == 'extract':
                    if not o['missing']:
                        tree[params['bin']] = data
                    tree[f'src{i}/former.json'] = b'{}'
                elif what == 'build':
                    if not o['missing']:
                        write_tree(w, {'in.bin': data})
                        os.makedirs(d, exist_ok=True)
                        write_tree(d, tree)
                        with cut('extract the original'):
                            extract(f'{w}/in.bin', f'{d}/src{i}', temp_dir=f'{w}/t', processes=1, options=opts,
                                    index=f'{d}/index{i}.json' if index is not None else None)
                    if o['old']:
                        tree[params['bin']] = b'former'
                else:
                    tree.update({f'src{i}/{n}': b for n, b in inside.items() if not o['missing']})
                    if o['old'] and index is None:
                        tree[f'index{i}.json'] = json.dumps({'*': 'q', 'a.json': 'b'}).encode()
                write_tree(d, tree)
            params['index'] = f'index{i}.json' if index is not None or what == 'index' else None
            params['temp'] = f'temp{i}' if o['temp'] else None
            params['options'] = opts
            res.append(params)
        return res

    def plain(what, p, w, processes, code, dest):
        """The reference: one call with absolute paths."""
        full = lambda n: n and f'{w}/{n}'
        if what == 'extract':
            return extract(full(p['bin']), full(p['src']), temp_dir=full(p['temp']), index=full(p['index']), processes=processes,
                           options=dict(p['options']))
        if what == 'build':
            opts = dict(p['options'])
            if code is not None:
                opts['product'] = code
            return build(full(p['src']), full(p['bin']), temp_dir=full(p['temp']), index=full(p['index']), processes=processes, options=opts)
        return update_index(full(p['src']), full(p['index']), dest)

    def compare(w, what, label):
        got, ref = unzip(read_tree(f'{w}/got')), unzip(read_tree(f'{w}/ref'))
        got.pop('list.json', None)
        for n in sorted(set(got) | set(ref)):
            if n.startswith('temp'):
                # steps on the way; only the presence of the folder is compared
                for t in got, ref:
                    if n in t:
                        t[n] = b''
                continue
            if n in got and n in ref and got[n] != ref[n]:
                if what == 'build' and n.split('/')[-1].startswith('p') and not n.startswith('src'):
                    d = same_product(*[products.unpack(t[n]) for t in (ref, got)]) if b'former' not in (got[n], ref[n]) else 'one of them is the former one'
                    require(not d, lambda: f'{label}: {n}: {d}')
                    got[n] = ref[n]
                elif n.startswith('index'):
                    d = diff_obj(json.loads(ref[n]), json.loads(got[n]))
                    require(not d, lambda: f'{label}: {n}: {d}')
                    got[n] = ref[n]
        if what == 'build':
            # which stages are left in a given folder depends on random identifiers
            got, ref = [{n: d for n, d in t.items() if not n.startswith('temp')} | {x: b'' for x in {n.split('/')[0] for n in t if n.startswith('temp')}}
                        for t in (got, ref)]
        d = diff_trees(ref, got, names=('plain calls', label))
        require(not d, lambda: f'{label}: {d}')

    def run_one(case):
        """-E, -B, -I against the calls."""
        what = case['what']
        o = case['products'][0]
        with workdir() as w:
            p = prepare(w, what, dict(case, products=[o]))[0]
            g = f'{w}/got'
            processes = case['processes']
            s = case['spell']
            paths = [spell(p['bin'], s, g), spell(p['src'], s // 5, g)]
            flat = p['bin'][4:]
            if what == 'build' and s % 7 == 0 and f'{w}/got/{p["bin"]}':
                paths[0] = flat  # a bare name in the working folder
            args = {'extract': ['-E'] + paths, 'build': ['-B'] + paths[::-1], 'index': ['-I', paths[1]]}[what]
            if what != 'index':
                for k, v in p['options'].items():
                    args += [f'--{k}'] if v is True else [f'--{k}', v]
                if processes is not None:
                    args += ['--processes', processes]
                if p['temp']:
                    args += ['--temp', spell(p['temp'], s // 11, g)]
            elif case['dest']:
                args += ['--core', case['dest']]
            if p['index']:
                args += ['--index', spell(p['index'], s // 3, g)]
            if s % 2:
                # options first
                k = 2 if what == 'index' else 3
                args = args[k:] + args[:k]
            SCHEDULE.pools.clear()
            if case['proc']:
                env = dict(os.environ, PYTHONPATH=core.SRC + os.pathsep + os.pathsep.join(x for x in sys.path if 'site-packages' in x),
                           PYTHONIOENCODING='utf-8', PYTHONDONTWRITEBYTECODE='1')
                r = subprocess.run([sys.executable, '-m', 'v8unpack'] + [str(x) for x in args], cwd=g, env=env,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                a = f'code {r.returncode}: {r.stdout.decode('utf-8', 'replace')[-300:]}' if r.returncode else None
            else:
                with folder(g):
                    a = outcome(lambda: cli(args))
            asked = set(SCHEDULE.pools)
            SCHEDULE.pools.clear()
            if paths[0] == flat:
                p['bin'] = flat
            b = outcome(lambda: plain(what, p, f'{w}/ref', processes, None, case['dest']))
            require(bool(a) == bool(b), lambda: f'v8unpack {args}: {a or "succeeds"}, the call: {b or "succeeds"}')
            if not case['proc']:
                require(asked == set(SCHEDULE.pools), lambda: f'v8unpack {args} asks for {asked} processes, the call with the same number for {set(SCHEDULE.pools)}')
            if not a:
                compare(w, what, f'v8unpack {args}')
        rec.case(case, bool(p['options']) or processes is not None or bool(p['index']), f'v8unpack {args}: {"fails" if a else "as the call"}',
                 tags=[what, 'fails' if a else 'works'] + ['process'] * bool(case['proc']) + list(p['options']))

    def run_list(case):
        """-EA, -BA, -IA and extract_all, build_all, update_index_all against calls in order."""
        what = case['what']
        with workdir() as w:
            ps = prepare(w, what, case)
            g = f'{w}/got'
            s = case['spell']
            codes = [f'{["код", "p", "x y", "saby_vo3"][(s + i) % 4]}{i}' for i in range(len(ps))]
            listed = {}
            for i, (p, o) in enumerate(zip(ps, case['products'])):
                x = {k: v if k == 'options' else spell(v, s // (i + 1), g) for k, v in p.items() if v is not None}
                if not x['options'] and o['case'].get('keep'):
                    del x['options']
                if o['disable'] is not None:
                    x['disable'] = o['disable']
                if what == 'index' and o['temp']:
                    x['options'] = dict(descent=None)
                listed[codes[i]] = x
            write_tree(g, {'list.json': json.dumps(listed, ensure_ascii=False, indent=2).encode()})
            before = read_tree(g)
            code = None if case['code'] is None else 'нет такого' if case['code'] == 9 else codes[case['code'] % len(codes)]
            file = spell('list.json', s // 2, g)
            dest, processes = case['dest'], case['processes']
            SCHEDULE.pools.clear()
            with folder(g):
                if case['cli']:
                    args = [{'extract': '-EA', 'build': '-BA', 'index': '-IA'}[what], file]
                    if code is not None:
                        args += ['--index', code]
                    if what == 'index' and dest:
                        args += ['--core', dest]
                    if what != 'index' and processes is not None:
                        args += ['--processes', processes]
                    label = f'v8unpack {args}'
                    a = outcome(lambda: cli(args))
                else:
                    label = f'{what}_all({file!r}, {code!r})'
                    a = outcome(lambda: update_index_all(file, code, dest) if what == 'index' else
                                (extract_all if what == 'extract' else build_all)(file, code, processes=processes))
            asked = set(SCHEDULE.pools)
            SCHEDULE.pools.clear()
            if code == 'нет такого':
                require(a, lambda: f'{label}: an unknown product is no error')
                d = diff_trees(before, read_tree(g), names=('before', 'after'))
                require(not d, lambda: f'{label}: an unknown product changes files: {d}')
                rec.case(case, True, f'{label}: refused', tags=[what, 'unknown'])
                return
            b = None
            done = 0
            for c, p, o in zip(codes, ps, case['products']):
                if code is not None and c != code or code is None and o['disable']:
                    continue
                b = outcome(lambda: plain(what, p, f'{w}/ref', processes, c, dest))
                if b:
                    break
                done += 1
            require(bool(a) == bool(b), lambda: f'{label} {json.dumps(listed, ensure_ascii=False)}: {a or "succeeds"}, the calls: {b or "succeed"}')
            require(asked == set(SCHEDULE.pools), lambda: f'{label} asks for {asked} processes, the calls with the same number for {set(SCHEDULE.pools)}')
            if not a:
                compare(w, what, label)
            else:
                # what was done before the failure
                for x, o, c in zip(ps, case['products'], codes):
                    if o['missing'] and (code in (None, c)):
                        break
                    if code in (None, c) and not (code is None and o['disable']) and what == 'extract':
                        t = [{n: d for n, d in unzip(read_tree(f'{w}/{side}/{x["src"]}')).items()} for side in ('ref', 'got')]
                        d = diff_trees(*t, names=('plain calls', label))
                        require(not d, lambda: f'{label}, before the failure: {d}')
        rec.case(case, len(ps) > 1 or bool(ps[0]['options']), f'{label}: {done} of {len(ps)} products, {"fails" if a else "as the calls"}',
                 tags=[what, 'fails' if a else 'works', 'command line' if case['cli'] else 'call'] + ['code'] * (code is not None) +
                      ['disabled'] * any(o['disable'] for o in case['products']))

    return {'one': run_one, 'list': run_list}


def run(rec):
    parts = PARTS(rec)
    small = synth.cases(max_ops=2, max_keep=2, bases=BASES)
    product = st.fixed_dictionaries(dict(
        case=small, prefix=st.sampled_from([None, None, 'Пр_', 'Р']), auto=st.booleans(),
        descent=st.sampled_from([None, None, None, 0, 3000075100, 1]), version=st.sampled_from([None, None, '80306', '80316', '803']),
        index=st.one_of(st.none(), st.none(), st.lists(st.integers(0, 10**6), min_size=3, max_size=8)),
        temp=st.booleans(), disable=st.sampled_from([None, None, False, True]), missing=st.sampled_from([False] * 8 + [True]), old=st.booleans()))
    def cases(low, high):
        return st.fixed_dictionaries(dict(
            what=st.sampled_from(['extract', 'extract', 'build', 'build', 'index']), products=st.lists(product, min_size=low, max_size=high),
            processes=st.sampled_from([None, 1, 2, 3, 7]), spell=st.integers(0, 10**4), dest=st.sampled_from([None, 'core', '../общее', 'a/b']),
            proc=st.just(False), cli=st.booleans(), code=st.sampled_from([None, None, None, 0, 1, 2, 9])))
    run_property(rec, 'one', cases(1, 1), parts['one'], 600, 8000, share=rec.budget * 0.45)
    run_property(rec, 'list', cases(1, 3), parts['list'], 400, 6000, share=rec.budget * 0.45)
    plain = dict(case=dict(base='P802', keep=[0], ops=[]), prefix=None, auto=False, descent=None, version=None, index=None, temp=False,
                 disable=None, missing=False, old=False)
    procs = []
    for k, (what, change) in enumerate([('extract', {}), ('build', {}), ('index', {}), ('extract', dict(missing=True)), ('build', dict(missing=True)),
                                        ('extract', dict(descent=0, auto=True)), ('build', dict(prefix='Р', temp=True)),
                                        ('extract', dict(case=dict(base='CE803', keep=None, ops=[]), prefix='Р', version='80306'))]):
        procs.append(dict(what=what, products=[dict(plain, **change)], processes=[None, 2][k % 2], spell=k, dest='core', proc=True, cli=True, code=None))
    run_cases(rec, 'one', procs, parts['one'], limit=60)
