"""C23: the automatic table of contents reflects exactly the folders present."""
import json
import re
import uuid as _uuid

from hypothesis import strategies as st

from harness import internal, products, refbrace as rb, synth
from harness.core import SCHEDULE, cut, read_tree, require, run_cases, run_property, workdir, write_tree
from harness.checks.c08 import any_order

LEVEL = 'exploration'
RULE = ('products made as for C07 are extracted in automatic mode: no identifier of a listed object may be left in the json of '
        'its owner; the tree, unchanged and after sequences of changes (object folders, folders of a kind and everything below '
        'an object deleted, objects copied under a new name and identifiers, brought from another owner and from another '
        'product, renamed, kinds that were empty before filled) is built in automatic mode in natural and random orders of '
        'tasks and listings; the tables of contents of the product, read independently, must list for each owner and kind '
        'the folders present sorted by name, and the container the files of these objects; the unchanged tree must give the '
        'objects of a build without the mode; non-trivial: four or more objects and a change')
ASSUMPTIONS = ['a folder of an object is complete: it holds the files that were extracted', 'names of a kind are unique within an owner',
               'an empty folder of a kind means no objects of it']
QUICK_SECONDS = 45

UUID = re.compile(r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')
NO_ID = '00000000-0000-0000-0000-000000000000'
BASES = ['C803', 'C803', 'C803', 'CE803', 'CE803', 'apam', 'R803', 'P803', 'P802']


def folders(tree):
    """Object folders (paths inside the sources) with all four names present."""
    res = []
    for n in sorted(tree):
        parts = n.split('/')
        if len(parts) >= 3 and parts[-1] == parts[-3] + '.json' and n[:-5] + '.id.json' in tree:
            res.append('/'.join(parts[:-1]))
    return res


def owner_of(path):
    return '/'.join(path.split('/')[:-2])


def kind_of(path):
    return path.split('/')[-2]


def ids(tree, path):
    return json.loads(tree[f'{path}/{kind_of(path)}.id.json'].decode('utf-8-sig'))


def head(tree, path):
    return json.loads(tree[f'{path}/{kind_of(path)}.json'].decode('utf-8-sig'))


def below(tree, path):
    return {n: d for n, d in tree.items() if n.startswith(path + '/')}


def expected(tree):
    """{(uuid of the owner or None, kind): [(name, uuid) sorted]}"""
    res = {}
    all_folders = folders(tree)
    known = set(all_folders)
    for f in all_folders:
        owner = owner_of(f)
        if owner and owner not in known:
            continue
        key = (ids(tree, owner)['uuid'] if owner else None, kind_of(f))
        res.setdefault(key, []).append((head(tree, f)['name'], ids(tree, f)['uuid']))
    return {k: sorted(v) for k, v in res.items()}


def listed(p):
    res = {}
    for o in p.objects():
        res.setdefault((o.owner.uid if o.owner else None, o.kind), []).append(o.uid)
    return res


def bare_names(tree, names, path=()):
    for i, x in enumerate(tree):
        if isinstance(x, list):
            yield from bare_names(x, names, path + (i,))
        elif x in names:
            yield path + (i,), x


def PARTS(rec):
    from v8unpack.v8unpack import extract, build
    AUTO = dict(auto_include=True)
    donors = {}

    def sources(p, w, tag, options):
        with open(f'{w}/in.bin', 'wb') as f:
            f.write(p.bytes())
        with cut('extract'):
            extract(f'{w}/in.bin', f'{w}/{tag}/out', temp_dir=f'{w}/t1', processes=1, options=dict(options))
        return read_tree(f'{w}/{tag}')

    def donor(base):
        if base not in donors:
            p = synth.Product(base)
            with workdir() as w:
                donors[base] = {n[4:]: d for n, d in sources(p, w, 'd', AUTO).items() if n.startswith('out/')}
        return donors[base]

    def change(tree, changes, product_type, serial):
        """Applies the changes to the tree; -> what was done"""
        log = []

        def fresh(files, path):
            """New identifiers for all objects of a copied folder."""
            new = {}
            known = set()
            for n, d in files.items():
                if n.endswith('.id.json'):
                    known.update(UUID.findall(d.decode('utf-8-sig')))
            known.discard(NO_ID)
            for u in sorted(known):
                serial[0] += 1
                new[u] = str(_uuid.UUID(int=0xc23c23c2_0000_4000_8000_000000000000 + serial[0] * 0x1234567))

            def sub(m):
                return new.get(m.group(), m.group())
            return {n: (UUID.sub(sub, d.decode('utf-8')).encode() if n.endswith('.json') else d) for n, d in files.items()}

        def put(files, src, dest_owner, name):
            kind = kind_of(src)
            dest = f'{dest_owner}/{kind}/' if dest_owner else f'{kind}/'
            used = {f.rsplit('/', 1)[1].lower() for f in folders(tree) if owner_of(f) == dest_owner and kind_of(f) == kind}
            cand, i = name, 1
            while cand.lower() in used:
                i += 1
                cand = f'{name}{i}'
            dest += cand
            for n, d in fresh(files, src).items():
                tree[dest + n[len(src):]] = d
            rename(dest, cand)
            return dest

        def rename(path, name):
            n = f'{path}/{kind_of(path)}.json'
            x = json.loads(tree[n].decode('utf-8-sig'))
            x['name'] = name
            tree[n] = json.dumps(x, ensure_ascii=False, indent=2).encode()

        for what, i, name, j in changes:
            all_folders = folders(tree)
            if what in ('delete', 'copy', 'rename', 'empty', 'kind') and not all_folders:
                continue
            f = all_folders[i % len(all_folders)] if all_folders else None
            if what == 'delete':
                for n in below(tree, f):
                    del tree[n]
                log.append(f'delete {kind_of(f)}')
            elif what == 'kind':
                k = f.rsplit('/', 1)[0]
                for n in below(tree, k):
                    del tree[n]
                log.append(f'delete all of {kind_of(f)}')
            elif what == 'empty':
                inner = {n: d for n, d in below(tree, f).items() if n.count('/') > f.count('/') + 1}
                for n in inner:
                    del tree[n]
                if inner:
                    log.append(f'delete all below a {kind_of(f)}')
            elif what == 'copy':
                put(below(tree, f), f, owner_of(f), name)
                log.append(f'copy {kind_of(f)}')
            elif what == 'rename':
                used = {x.rsplit('/', 1)[1].lower() for x in all_folders if owner_of(x) == owner_of(f) and kind_of(x) == kind_of(f)}
                if name.lower() in used:
                    continue
                moved = below(tree, f)
                to = f'{f.rsplit("/", 1)[0]}/{name}'
                for n, d in moved.items():
                    del tree[n]
                for n, d in moved.items():
                    tree[to + n[len(f):]] = d
                rename(to, name)
                log.append(f'rename {kind_of(f)}')
            elif what == 'move':
                # under another object of the same kind as its owner
                inner = [x for x in all_folders if owner_of(x)]
                if not inner:
                    continue
                f = inner[i % len(inner)]
                hosts = [x for x in all_folders if kind_of(x) == kind_of(owner_of(f)) and x != owner_of(f)]
                if not hosts:
                    continue
                put(below(tree, f), f, hosts[j % len(hosts)], name)
                log.append(f'copy {kind_of(f)} to another owner')
            elif what == 'import':
                base = 'C803' if product_type == 'Configuration' else None
                if base is None:
                    continue
                src = donor(base)
                cands = [x for x in folders(src) if not owner_of(x) or owner_of(x) and kind_of(owner_of(x)) in {kind_of(y) for y in all_folders}]
                x = cands[i % len(cands)]
                owner = ''
                if owner_of(x):
                    hosts = [y for y in all_folders if kind_of(y) == kind_of(owner_of(x))]
                    owner = hosts[j % len(hosts)]
                put(below(src, x), x, owner, name)
                log.append(f'import {kind_of(x)}')
        return log

    def check_product(data, tree, what):
        p = synth.Product('?', products.unpack(data))
        want = expected(tree)
        got = listed(p)
        for key in sorted(set(want) | set(got), key=str):
            w_, g = [u for n, u in want.get(key, [])], got.get(key, [])
            if w_ == g:
                continue
            names = {u: n for n, u in want.get(key, [])}
            text = f'{key[1]} of {key[0] or "the product"}'
            require(set(w_) == set(g) and len(w_) == len(g),
                    lambda: f'{what}: {text}: folders {[names[u] for u in w_]}, listed {[names.get(u, u) for u in g]}')
            require([names[u] for u in w_] == [names[u] for u in g],
                    lambda: f'{what}: {text}: not sorted by name: {[names[u] for u in g]}')
        kinds = set(synth.KINDS.values())
        for name in [p.top] + [o.file for o in p.objects() if o.file in p.main and isinstance(p.main[o.file], bytes)]:
            left = list(bare_names(p.tree(name), kinds))
            require(not left, lambda: f'{what}: placeholder left in {name}: {left[:3]}')
        have = {u for v in got.values() for u in v}
        missing = [u for (owner, kind), v in got.items() for u in v if not kind.endswith('Command') and u not in p.main]
        require(not missing, lambda: f'{what}: listed but absent: {missing[:4]}')
        extra = [n for n in p.main if UUID.match(n) and n[:36] not in have and n[:36] not in (p.top, p.top_uid)]
        require(not extra, lambda: f'{what}: files of no listed object: {extra[:4]}')
        if 'versions' in p.main:
            cnt, names = internal.version_names(p.main)
            require(sorted(names) == sorted(['""'] + [synth.quote(n) for n in p.main]) and cnt == str(len(names)),
                    lambda: f'{what}: versions differ from the files present')
        return p

    def auto(case):
        p = synth.apply(case)
        with workdir() as w:
            with any_order(case['seed']):
                tree = sources(p, w, 'a', AUTO)
            rest = {n: d for n, d in tree.items() if not n.startswith('out/')}
            tree = {n[4:]: d for n, d in tree.items() if n.startswith('out/')}
            objs = p.objects()
            want = expected(tree)
            got = {k: sorted(v) for k, v in listed(p).items()}
            require({k: sorted(u for n, u in v) for k, v in want.items()} == got,
                    lambda: f'objects of the product and folders differ: {str(sorted(set(map(str, want.items())) ^ set(map(str, got.items()))))[:400]}')
            for f in [''] + folders(tree):
                name = f'{f}/{kind_of(f)}.json' if f else f'{p.type}.json' if f'{p.type}.json' in tree else 'ExternalDataProcessor.json'
                text = tree[name].decode()
                owner = ids(tree, f)['uuid'] if f else None
                toc = [t for t in synth.tocs(json.loads(text)['header']) if t[2:] and (f or True)]
                mine = {u for (o, k), v in got.items() if o == owner for u in v}
                for t in toc:
                    require(not mine & {x for x in t[2:] if isinstance(x, str)}, lambda: f'{name}: table of contents stored: {t}'[:400])
            build_args = dict(temp_dir=f'{w}/t2', processes=1)
            with any_order(case['seed2']), cut('build'):
                build(f'{w}/a/out', f'{w}/o.bin', options=dict(AUTO), **build_args)
            with open(f'{w}/o.bin', 'rb') as f:
                q = check_product(f.read(), tree, 'unchanged tree')
            # without the mode
            sources(p, w, 'p', {})
            with cut('build without the mode'):
                build(f'{w}/p/out', f'{w}/p.bin', **build_args)
            with open(f'{w}/p.bin', 'rb') as f:
                plain = synth.Product('?', products.unpack(f.read()))
            require(set(plain.main) == set(q.main), lambda: f'files differ from a build without the mode: {sorted(set(plain.main) ^ set(q.main))[:4]}')
            tops = {q.top} | {o.file for o in q.objects()}
            for n in sorted(plain.main):
                if n in ('versions', 'configinfo'):
                    continue
                if n in tops:
                    a, b = plain.tree(n), q.tree(n)
                    require(sorted_tocs(a) == sorted_tocs(b), lambda: f'{n} differs from a build without the mode')
            log = []
            if case['changes']:
                serial = [0]
                log = change(tree, case['changes'], p.type, serial)
                write_tree(f'{w}/c', {**rest, **{f'out/{n}': d for n, d in tree.items()}})
                if f'{w}/c/out':
                    with any_order(case['seed2']), cut(f'build after {log}'):
                        build(f'{w}/c/out', f'{w}/c.bin', options=dict(AUTO), **build_args)
                    with open(f'{w}/c.bin', 'rb') as f:
                        check_product(f.read(), tree, f'after {log}')
        rec.case(case, len(objs) > 3 and bool(log), f'{case["base"]}: {len(objs)} objects, {log}', tags=log or ['unchanged'])

    return dict(auto=auto)


def sorted_tocs(t):
    res = []
    for x in t:
        if isinstance(x, list):
            res.append([*x[:2], *sorted((sorted_tocs(y) if isinstance(y, list) else y for y in x[2:]), key=repr)] if synth.is_toc(x) else sorted_tocs(x))
        else:
            res.append(x)
    return res


def run(rec):
    parts = PARTS(rec)
    what = st.sampled_from(['delete', 'delete', 'copy', 'copy', 'rename', 'empty', 'kind', 'move', 'import', 'import'])
    name = st.sampled_from(['Аа', 'Яя', 'Новый', 'abc', 'Zed', '_б', 'Б', 'а', 'Объект1', 'Объект10', 'Объект2', 'Ёж'])
    changes = st.lists(st.tuples(what, st.integers(0, 1000), name, st.integers(0, 50)), max_size=6)
    seed = st.one_of(st.none(), st.integers(0, 10 ** 6))
    case = st.builds(lambda c, m: dict(c, **m), synth.cases(max_ops=4, max_keep=5, bases=BASES),
                     st.fixed_dictionaries(dict(changes=changes, seed=seed, seed2=seed)))
    run_property(rec, 'auto', case, parts['auto'], 700, 12000)
