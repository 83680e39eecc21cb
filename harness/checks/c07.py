"""C07: a rebuilt product holds the same internal files and data as the original."""
from hypothesis import strategies as st

from harness import internal, products, synth
from harness.core import cut, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('products are cut out of the eight real samples (one or more objects of 70 kinds with their nested objects, or '
        'the whole sample) and changed by up to 8 operations (clone, remove, reorder, rename, synonyms, comments, '
        'modules, help, payloads, templates, pictures, properties, form titles and modules, objects of kinds that no '
        'sample has, forms of unusual layouts, help over 1 MB, product comments like the tool\'s own); extract and build them and '
        'compare every internal file with independent readers; non-trivial: at least one object and one operation took '
        'effect, or a whole sample')
ASSUMPTIONS = ['forms with read-only shared areas (includr_) are left out: they take the content of the shared file by '
               'design', 'object names are unique per kind and owner, as the platform demands']
QUICK_SECONDS = 45


def rebuild(p, w, options=None, index=None):
    from v8unpack.v8unpack import extract, build
    with open(f'{w}/in.bin', 'wb') as f:
        f.write(p.bytes())
    with cut('extract'):
        extract(f'{w}/in.bin', f'{w}/x/src', temp_dir=f'{w}/t1', processes=1, options=dict(options or {}), index=index)
    with cut('build'):
        build(f'{w}/x/src', f'{w}/out.bin', temp_dir=f'{w}/t2', processes=1, options=dict(options or {}), index=index)
    with open(f'{w}/out.bin', 'rb') as f:
        return products.unpack(f.read())


def PARTS(rec):
    def rebuilt(case):
        p = synth.apply(case)
        with workdir() as w:
            after = rebuild(p, w)
            problems = internal.compare(p, after)
            require(not problems, lambda: f'{len(problems)} internal files differ: ' + '; '.join(problems[:4]))
        objs = p.objects()
        rec.case(case, bool(objs) and (bool(p.log) or case['keep'] is None),
                 f'{case["base"]}: {len(objs)} objects {sorted({o.kind for o in objs})[:6]}, {p.log}',
                 tags=[x for x in p.log] + [f'kind {o.kind}' for o in objs])

    return dict(rebuilt=rebuilt)


def run(rec):
    parts = PARTS(rec)
    run_cases(rec, 'rebuilt', [dict(base=s, keep=None, ops=[]) for s in products.SAMPLES], parts['rebuilt'])
    top = len([o for o in synth.Product('C803').objects() if o.owner is None])
    run_cases(rec, 'rebuilt', [dict(base='C803', keep=[i], ops=[]) for i in range(top)], parts['rebuilt'])
    run_cases(rec, 'rebuilt', [dict(base='P802', keep=None, ops=[('form_old', i)]) for i in range(5)], parts['rebuilt'])
    # help pages of more than 1 MB
    run_cases(rec, 'rebuilt', [dict(base='C803', keep=None, ops=[('help', 1, ('random', 760000, 1))])], parts['rebuilt'])
    run_cases(rec, 'rebuilt', synth.crafted_cases(), parts['rebuilt'])
    # every part of the files beside an object is left out
    run_cases(rec, 'rebuilt', synth.drop_cases() + synth.slot_cases() + synth.top_slot_cases(), parts['rebuilt'])
    run_property(rec, 'rebuilt', synth.cases(extra=[st.tuples(st.just('drop'), synth.INT, st.integers(1, 255)), st.tuples(st.just('form_shape'), synth.INT, st.integers(0, 9))]), parts['rebuilt'], 1600, 40000)
