"""C22: a name prefix is put only on own top-level objects and removed on extraction."""
import json
import os
import sys

from hypothesis import strategies as st

from harness import internal, products, synth
from harness.core import cut, diff_trees, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('products made as for C07 in which some objects are marked as borrowed and some objects of every level and the product '
        'itself have names that start with the prefix; (build) extracted without it, built with it, by call, command line or '
        'product list: the internal files must be those of the product with just the names of own top-level objects (and the '
        'prefix property of an extension) changed; then extracted with it: the sources must be the first ones, and built again; '
        '(extract) extracted with the prefix and built with and without it: the sources and internal files must be those of '
        'the product with just these names stripped; non-trivial: a name to change and one to leave alone')
ASSUMPTIONS = ['an object whose whole name is the prefix keeps its name', 'stripping the prefix does not give two objects of a kind one name',
               'an extension has a prefix property of its own, which a build with a prefix sets']
QUICK_SECONDS = 40

PREFIXES = ['Рас_', 'Abc', 'п', 'Ф', 'С', 'Общ', 'Форма', 'Cat', '_', 'Команда', 'Расш1_', 'ДляВсех1']


def PARTS(rec):
    from v8unpack import v8unpack as mod
    from v8unpack.v8unpack import extract, build

    def call(w, how, what, src, binary, options):
        if how == 'cli' and all(isinstance(v, str) for v in options.values()):
            argv = sys.argv
            sys.argv = ['v8unpack'] + (['-E', binary, src] if what == 'extract' else ['-B', src, binary]) + ['--temp', f'{w}/t']
            for k, v in options.items():
                sys.argv += [f'--{k}', v]
            try:
                with cut(what):
                    code = mod.main()
            finally:
                sys.argv = argv
            require(not code, lambda: f'{what} on the command line returned {code}')
        elif how == 'list' and what == 'extract':
            with open(f'{w}/p.json', 'w', encoding='utf-8') as f:
                json.dump({'x': dict(src=src, bin=binary, temp=f'{w}/t', options=options)}, f)
            with cut(what):
                mod.extract_all(f'{w}/p.json', processes=1)
        else:
            with cut(what):
                (extract if what == 'extract' else build)(*((binary, src) if what == 'extract' else (src, binary)),
                                                          temp_dir=f'{w}/t', processes=1, options=dict(options))

    def prepare(case):
        p = synth.apply(case)
        objs = p.objects()
        if p.type == 'ConfigurationExtension' or case['force']:
            for k in case['borrowed']:
                o = objs[k % len(objs)] if objs else None
                if o is not None and len(p.record(o)) > 5:
                    p.record(o)[5] = '1'
        prefix = case['prefix'] or ''
        for k, name in case['named']:
            o = objs[k % len(objs)] if objs else None
            if o is not None:
                p.rename(o, prefix + name)
        if p.type == 'ConfigurationExtension' and case.get('cell') is not None:
            set_cell(p, case['cell'])  # its own prefix property
        if case['top_named']:
            p.top_record[2] = synth.quote(prefix + p.top_record[2][1:-1])
        return p

    def own_top(p):
        res = []
        for o in p.objects():
            r = p.record(o)
            if o.owner is None and (len(r) < 6 or r[5] == '0'):
                res.append(r)
        return res

    def load(path):
        with open(path, 'rb') as f:
            return products.unpack(f.read())

    def write(p, path):
        with open(path, 'wb') as f:
            f.write(p.bytes())

    def sources(path, drop_cell):
        t = products.comparable_sources(path)
        name = 'ConfigurationExtension.json'
        if drop_cell and name in t:
            x = json.loads(t[name].decode())
            x['header'][0][3][1][1][42] = ''
            t[name] = json.dumps(x, ensure_ascii=False).encode()
        return t

    def set_cell(p, prefix):
        if p.type == 'ConfigurationExtension' and prefix is not None:
            p.tree(p.top)[0][3][1][1][42] = synth.quote(prefix)

    def count(p):
        own = len(own_top(p))
        return own, len(p.objects()) - own

    def on_build(case):
        p = prepare(case)
        prefix = case['prefix']
        if case['how'] == 'cli':
            prefix = prefix or None  # an empty option is no option on the command line
        with workdir() as w:
            write(p, f'{w}/in.bin')
            options = dict(auto_include=True) if case['auto'] else {}
            more = dict(options, prefix=prefix)
            call(w, case['how'], 'extract', f'{w}/a', f'{w}/in.bin', options)
            call(w, case['how'], 'build', f'{w}/a', f'{w}/o.bin', more)
            got = load(f'{w}/o.bin')
            own = own_top(p)
            for r in own:
                r[2] = synth.quote((prefix or '') + r[2][1:-1])
            set_cell(p, prefix)
            p.finish()
            if not case['auto']:
                d = internal.compare(p, got)
                require(not d, lambda: f'built with the prefix {prefix!r}: {d[:4]}')
            if prefix:
                call(w, case['how'], 'extract', f'{w}/b', f'{w}/o.bin', more)
                first = f'{w}/a'
                if case['auto'] or case['base'] == 'P802':
                    # the first build renumbers ordinary forms in automatic mode, and unifies shared areas, prefix or not
                    call(w, 'call', 'build', f'{w}/a', f'{w}/q.bin', options)
                    call(w, 'call', 'extract', f'{w}/c', f'{w}/q.bin', options)
                    first = f'{w}/c'
                d = diff_trees(sources(first, True), sources(f'{w}/b', True), names=('first sources', 'sources after build and extraction'))
                require(not d, lambda: f'prefix {prefix!r}: {d}')
                call(w, case['how'], 'build', f'{w}/b', f'{w}/p.bin', more)
                if not case['auto']:
                    d = internal.compare(p, load(f'{w}/p.bin'))
                    require(not d, lambda: f'built again with the prefix {prefix!r}: {d[:4]}')
        a, b = count(p)
        rec.case(case, bool(prefix and a and b), f'{case["base"]}, {prefix!r}: {a} names changed, {b} left', tags=['auto'] * case['auto'] + [case['how']])

    def on_extract(case):
        p = prepare(case)
        prefix = case['prefix'] or ''
        changed = 0
        stripped = []
        seen = set()
        for o in p.objects():
            r = p.record(o)
            name = r[2][1:-1]
            own = o.owner is None and (len(r) < 6 or r[5] == '0')
            new = name[len(prefix):] if own and name.startswith(prefix) and name != prefix else name
            if not new[:1].isalpha() and new[:1] != '_' or (o.kind, id(o.toc), new) in seen:
                return
            seen.add((o.kind, id(o.toc), new))
            stripped.append((r, new, own, name))
        with workdir() as w:
            write(p, f'{w}/in.bin')
            options = dict(auto_include=True) if case['auto'] else {}
            call(w, case['how'], 'extract', f'{w}/a', f'{w}/in.bin', dict(options, prefix=case['prefix']))
            for r, new, own, name in stripped:
                changed += new != name
                r[2] = synth.quote(new)
            write(p, f'{w}/s.bin')
            call(w, 'call', 'extract', f'{w}/b', f'{w}/s.bin', options)
            d = diff_trees(sources(f'{w}/b', False), sources(f'{w}/a', False), names=('of the stripped product', 'extracted with the prefix'))
            require(not d, lambda: f'extracted with the prefix {prefix!r}: {d}')
            if not case['auto']:
                call(w, case['how'], 'build', f'{w}/a', f'{w}/o.bin', {})
                d = internal.compare(p, load(f'{w}/o.bin'))
                require(not d, lambda: f'extracted with the prefix {prefix!r} and built without: {d[:4]}')
                call(w, case['how'], 'build', f'{w}/a', f'{w}/p.bin', dict(prefix=case['prefix']))
                for r, new, own, name in stripped:
                    if own:
                        r[2] = synth.quote(prefix + new)
                set_cell(p, case['prefix'])
                p.finish()
                d = internal.compare(p, load(f'{w}/p.bin'))
                require(not d, lambda: f'extracted and built with the prefix {prefix!r}: {d[:4]}')
        rec.case(case, 0 < changed < len(stripped), f'{case["base"]}, {prefix!r}: {changed} of {len(stripped)} names stripped',
                 tags=['auto'] * case['auto'] + [case['how']])

    return {'build': on_build, 'extract': on_extract}


def run(rec):
    parts = PARTS(rec)
    more = st.fixed_dictionaries(dict(
        prefix=st.one_of(st.sampled_from(PREFIXES), st.sampled_from(PREFIXES), st.sampled_from(PREFIXES), st.sampled_from(PREFIXES + [None, ''])),
        borrowed=st.lists(st.integers(0, 1000), max_size=4), force=st.booleans(),
        named=st.lists(st.tuples(st.integers(0, 1000), st.sampled_from(['Имя', 'а', 'Name', '', 'Форма', 'Б1'])), max_size=6),
        top_named=st.booleans(), cell=st.sampled_from([None, '', '', 'Иное_']), auto=st.sampled_from([False, False, True]), how=st.sampled_from(['call', 'call', 'cli', 'list'])))
    def make(max_keep):
        return st.builds(lambda c, m: dict(c, **m), synth.cases(max_ops=3, max_keep=max_keep,
                         bases=['CE803', 'CE803', 'C803', 'C803-16', 'apam', 'P803', 'P802', 'R803']), more)
    def ok(case):
        return all((case['prefix'] or '') + n for k, n in case['named'])
    run_property(rec, 'build', make(4).filter(ok), parts['build'], 500, 8000, share=rec.budget * 0.5)
    run_property(rec, 'extract', make(4).filter(ok), parts['extract'], 700, 8000)
