"""C06: building extracted sources and extracting again gives the same sources."""
from hypothesis import strategies as st

from harness import edits, products, synth
from harness.core import cut, diff_trees, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('sources are extracted from whole samples or from products cut out of them and changed by up to 5 operations '
        '(with objects of kinds that no sample has, and forms of unusual layouts), then '
        'edited in up to 5 places (module text, payload bytes, template text, comment, synonyms, property, element title); '
        'build and extract again and compare every file; non-trivial: at least one object and an operation or an edit took '
        'effect, or a whole sample')
ASSUMPTIONS = ['edited module texts do not mark include areas (C09) and comments of templates and pictures, which name the '
               'file extension, are not edited (C15)']
QUICK_SECONDS = 40


def one_layout(tree):
    """The json keeps how a base64 value was laid out, on its own lines or not; that follows the length of the data."""
    return {n: d.replace(b'"##base64:"', b'"#base64:"') if n.endswith('.json') else d for n, d in tree.items()}


def one_encoding(tree):
    """A module in windows-1251 that is edited to hold nothing but ascii is utf-8 just as well."""
    return {n: d.replace(b'": "windows-1251"', b'": "utf-8"') if n.endswith('.json') else d for n, d in tree.items()}


def PARTS(rec):
    def again(case):
        from v8unpack.v8unpack import extract, build
        p = synth.apply(case)
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/x', temp_dir=f'{w}/t1', processes=1)
            tree = read_tree(f'{w}/x')
            if any(b'includr_' in d for n, d in tree.items() if n.endswith('.elem.json')):
                # forms take the content of a read-only shared area from its owner: let that settle first
                with cut('build that settles the read-only areas'):
                    build(f'{w}/x', f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1)
                    extract(f'{w}/out.bin', f'{w}/x', temp_dir=f'{w}/t1', processes=1)
                tree = read_tree(f'{w}/x')
            log = edits.apply(tree, case['edits'])
            write_tree(f'{w}/y', tree)
            with cut('build of the sources'):
                build(f'{w}/y', f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1)
            with cut('second extract'):
                extract(f'{w}/out.bin', f'{w}/z', temp_dir=f'{w}/t1', processes=1)
            a, b = products.comparable_tree(tree), products.comparable_sources(f'{w}/z')
            a, b = one_layout(a), one_layout(b)
            if 'bsl' in log:
                a, b = one_encoding(a), one_encoding(b)
            d = diff_trees(a, b)
            require(not d, lambda: f'sources after build and extract differ: {d}')
        objs = p.objects()
        rec.case(case, bool(objs) and (bool(p.log) or bool(log) or case['keep'] is None),
                 f'{case["base"]}: {len(tree)} files, {p.log} edits {log}', tags=p.log + log)

    return dict(again=again)


def run(rec):
    parts = PARTS(rec)
    run_cases(rec, 'again', [dict(base=s, keep=None, ops=[], edits=[]) for s in products.SAMPLES], parts['again'])
    strategy = st.builds(lambda c, e: dict(c, edits=e), synth.cases(max_ops=5, extra=[st.tuples(st.just('form_shape'), synth.INT, st.integers(0, 9))]), st.lists(edits.strategy(), max_size=5))
    run_cases(rec, 'again', [dict(base='P802', keep=None, ops=[('form_old', i)], edits=[]) for i in range(5)], parts['again'])
    # help pages of more than 1 MB
    run_cases(rec, 'again', [dict(base='C803', keep=None, ops=[('help', 1, ('random', 760000, 1))], edits=[])], parts['again'])
    run_cases(rec, 'again', [dict(c, edits=[]) for c in synth.crafted_cases()], parts['again'])
    run_property(rec, 'again', strategy, parts['again'], 1200, 30000)
