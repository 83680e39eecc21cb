"""C08: results do not depend on worker count, scheduling or directory order."""
import contextlib
import os
import random

from hypothesis import strategies as st

from harness import core, internal, products, synth
from harness.core import SCHEDULE, Violation, cut, diff_trees, read_tree, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('products made as for C07, with modules that share include areas; extract and build run in the natural order and in '
        'random orders of the tasks of every phase, of the delivery of their results and of every directory listing '
        '(inline pool), and with 1 to 6 real worker processes; sources and internal files must be equal; non-trivial: at '
        'least two objects and a phase with two or more tasks')
ASSUMPTIONS = ['areas of the same name hold the same text in all modules: the documentation leaves the other case to the order of the workers',
               'the file versions pairs names with random identifiers: the order of the pairs is not part of the result']
QUICK_SECONDS = 60


@contextlib.contextmanager
def any_order(seed):
    """Random order of tasks, of results and of directory listings."""
    if seed is None:
        yield
        return
    rng = random.Random(seed)
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path='.'):
        names = sorted(real_listdir(path))
        rng.shuffle(names)
        return names

    class Scan:
        def __init__(self, path):
            with real_scandir(path) as it:
                self.items = sorted(it, key=lambda e: e.name)
            rng.shuffle(self.items)

        def __enter__(self):
            return iter(self.items)

        def __exit__(self, *a):
            pass

        def __iter__(self):
            return iter(self.items)

        def __next__(self):
            if not self.items:
                raise StopIteration
            return self.items.pop()

        def close(self):
            pass

    def scandir(path='.'):
        return real_scandir(path) if isinstance(path, int) else Scan(path)

    SCHEDULE.rng = rng
    os.listdir, os.scandir = listdir, scandir
    try:
        yield
    finally:
        SCHEDULE.rng = None
        os.listdir, os.scandir = real_listdir, real_scandir


@contextlib.contextmanager
def real_pool():
    import multiprocessing
    import v8unpack.helper as helper
    multiprocessing.Pool = helper.Pool = core.REAL_POOL
    try:
        yield
    finally:
        multiprocessing.Pool = helper.Pool = core.InlinePool


def same_product(a, b):
    """Difference of two builds of the same sources, or None; version identifiers are random."""
    if len(a) != len(b):
        return f'{len(a)} containers and {len(b)}'
    for i, (x, y) in enumerate(zip(a, b)):
        for where, u, v in [('container', x, y)] + [(n, x[n], y[n]) for n in x if isinstance(x[n], dict) and isinstance(y.get(n), dict)]:
            if set(u) == set(v) and list(u) != list(v):
                k = next(k for k, (s, t) in enumerate(zip(u, v)) if s != t)
                return f'container {i}: other order of the files in {where}: at {k} {list(u)[k]} and {list(v)[k]}'
        flat = []
        for files in (x, y):
            t = {}
            for n, d in files.items():
                if isinstance(d, dict):
                    t.update({f'{n}/{m}': e for m, e in d.items()})
                elif n == 'versions':
                    t[n] = repr(sorted(internal.version_names(files)[1])).encode()
                elif n == 'configinfo':
                    v = core_configinfo(files)
                    t[n] = repr(v).encode()
                else:
                    t[n] = d
            flat.append(t)
        d = diff_trees(*flat)
        if d:
            return f'container {i}: {d}'
    return None


def core_configinfo(files):
    """The hash list without the files that hold time stamps (nested containers) or random identifiers."""
    from harness import refbrace as rb
    t = rb.parse(rb.decode_text(files['configinfo'])[0])
    rows = t[2][1:]
    pairs = [(n, h if isinstance(files.get(n.strip('"')), bytes) and n != '"versions"' else '')
             for n, h in zip(rows[::2], rows[1::2])]
    return [t[:2], t[2][0], pairs]


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def once(w, tag, options, seed, processes=1):
        opts = dict(auto_include=True) if options else {}
        with any_order(seed), cut(f'extract ({tag})'):
            extract(f'{w}/in.bin', f'{w}/{tag}/src', temp_dir=f'{w}/t1', processes=processes, options=dict(opts))
        sources = products.comparable_sources(f'{w}/{tag}')
        return sources

    def built(w, src, tag, options, seed, processes=1):
        opts = dict(auto_include=True) if options else {}
        with any_order(seed), cut(f'build ({tag})'):
            build(f'{w}/{src}/src', f'{w}/{tag}.bin', temp_dir=f'{w}/t2', processes=processes, options=dict(opts))
        with open(f'{w}/{tag}.bin', 'rb') as f:
            return products.unpack(f.read())

    def orders(case):
        p = synth.apply(case)
        phases = SCHEDULE.phases
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            a = once(w, 'a', case['auto'], None)
            b = once(w, 'b', case['auto'], case['seed'])
            d = diff_trees(a, b, names=('natural order', 'other order'))
            require(not d, lambda: f'sources depend on the order: {d}')
            x = built(w, 'a', 'x', case['auto'], None)
            y = built(w, 'a', 'y', case['auto'], case['seed'] + 1)
            d = same_product(x, y)
            require(not d, lambda: f'the product depends on the order: {d}')
        objs = p.objects()
        rec.case(case, len(objs) > 1 and SCHEDULE.phases - phases > 4,
                 f'{case["base"]}: {len(objs)} objects, auto {case["auto"]}, {p.log}, order {case["seed"]}',
                 tags=[t for t in p.log if t.startswith('areas')] + ['auto'] * case['auto'])

    def workers(case):
        """A whole sample with real worker processes."""
        n = case['processes']
        with workdir() as w:
            data = products.pack(products.sample_containers(case['base']))
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(data)
            a = once(w, 'a', case['auto'], None)
            with real_pool():
                b = once(w, 'b', case['auto'], None, n)
            d = diff_trees(a, b, names=('inline', f'{n} processes'))
            require(not d, lambda: f'sources with {n} processes differ: {d}')
            x = built(w, 'a', 'x', case['auto'], None)
            with real_pool():
                y = built(w, 'a', 'y', case['auto'], None, n)
            d = same_product(x, y)
            require(not d, lambda: f'the product built with {n} processes differs: {d}')
        rec.case(case, n > 1, f'{case["base"]} with {n} processes', tags=[f'{n} processes'])

    def shared(case):
        """Several modules that write the same area file."""
        p = synth.Product('C803')
        p.log = []
        mods = [o for o in synth.with_modules(p) if o.owner is None][:case['modules']]
        for k, o in enumerate(mods):
            text = '#Область include_core_общая\r\nТекст\r\n#КонецОбласти\r\n'
            p.put_module(o.uid, sorted(synth.MODULES[o.kind].values())[0], text)
        keep = {o.uid for o in mods}
        objs = p.objects()
        for o in objs:
            if o.owner is None and o.uid not in keep:
                p.remove(o, objs)
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            first = once(w, 'a', False, None)
            for seed in range(case['seeds']):
                d = diff_trees(first, once(w, f'b{seed}', False, seed), names=('natural order', 'other order'))
                require(not d, lambda: f'the file of a shared area depends on the order: {d}')
        rec.case(case, True, f'{case["modules"]} modules with one area')

    return dict(orders=orders, workers=workers, shared=shared)


def run(rec):
    parts = PARTS(rec)
    grid = [dict(base=b, processes=n, auto=a) for b, n, a in [
        ('C803', 4, False), ('C803-16', 2, False), ('CE803', 3, False), ('P802', 2, False), ('P803', 6, False),
        ('R803', 1, False), ('C803', 3, True), ('apam', 2, False)]]
    if rec.thorough:
        grid += [dict(base=b, processes=n, auto=a) for b in products.SAMPLES for n in (1, 2, 5, 8) for a in (False, True)
                 if not (a and b.startswith('apam'))]
    run_cases(rec, 'workers', grid, parts['workers'], limit=None if rec.thorough else 60)
    run_cases(rec, 'shared', [dict(modules=2, seeds=6), dict(modules=4, seeds=6)], parts['shared'])
    area = st.tuples(st.just('area_module'), synth.INT, synth.INT, st.lists(st.integers(0, 11), min_size=1, max_size=4))
    strategy = st.builds(lambda c, e, a, s: dict(c, ops=list(c['ops']) + e, auto=a and not c['base'].startswith('apam'), seed=s),
                         synth.cases(max_ops=4), st.lists(area, max_size=4), st.booleans(), st.integers(1, 1 << 30))
    run_property(rec, 'orders', strategy, parts['orders'], 800, 20000)
