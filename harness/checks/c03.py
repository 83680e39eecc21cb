"""C03: products made of two concatenated containers survive extract and build."""
import os
import zlib

from hypothesis import strategies as st

from harness import gen, refcontainer as rc
from harness.checks import c01, c02
from harness.core import (REPO, Violation, cut, diff_trees, read_tree, require, run_cases, run_property, workdir,
                          write_tree)

LEVEL = 'exploration'
RULE = ('pairs of a 32-bit container and a 64-bit container (any file sets, leading container from 1 to 140 files) are '
        '(a) concatenated by an independent writer in any legal layout and extracted, (b) written by the builder and '
        'read by an independent reader and by the extractor, (c) real two-container products run through extract, '
        'build, extract, (d) an extension whose first container is replaced by generated files (empty and nested ones too) is extracted to sources and built, the first container read back by the independent reader; non-trivial: both containers hold a non-empty file, or a real product')
ASSUMPTIONS = ['no unreferenced free blocks follow the last block of the leading container']
QUICK_SECONDS = 40


def split(data):
    """-> (files of container 0, files of container 1) by the independent reader."""
    first, end, head = rc.read(data, rc.L32)
    require(end < len(data), 'the second container is missing')
    require(data[end:end + 8] == b'\xff' * 8, f'the second container does not start at {end}: {data[end:end + 8]!r}')
    second, end2, head2 = rc.read(data[end:], rc.L64)
    require(end + end2 == len(data), f'{len(data) - end - end2} bytes after the last block')
    require(head[2] == len(first) and head2[2] == len(second),
            f'headers count {head[2]}, {head2[2]} files of {len(first)}, {len(second)}')
    return first, second


def PARTS(rec):
    from v8unpack import container_reader, container_writer

    def read_pair(case):
        files0, files1 = c02.files_of(case['first']), c02.files_of(case['second'])
        d0 = c02.layout_of(dict(case['first'], bits=32), [(n, zlib_raw(d)) for n, d in files0])
        d1 = c02.layout_of(dict(case['second'], bits=64), [(n, zlib_raw(d)) for n, d in files1])
        with workdir() as w:
            with open(f'{w}/c', 'wb') as f:
                f.write(d0 + d1)
            with cut('extract'):
                container_reader.extract(f'{w}/c', f'{w}/e0', False, False)
                container_reader.decompress_and_extract(f'{w}/e0', f'{w}/e1')
            expect = {f'0/{n}': v for n, v in files0}
            expect.update({f'1/{n}': v for n, v in files1})
            d = diff_trees(expect, read_tree(f'{w}/e1'), names=('stored', 'extracted'))
            require(d is None, f'two containers: {d}')
        rec.case((case['first']['files'], case['first'].get('extra'), case['first']['layout'], case['second']['files']),
                 any(d for n, d in files0) and any(d for n, d in files1),
                 f'first {len(files0)} files layout {case["first"]["layout"]}, second {len(files1)} files',
                 tags=['first>42 files'] * (len(files0) > 42))

    def write_pair(case):
        t0, t1 = c01.tree_of(case['first']), c01.tree_of(case['second'])
        with workdir() as w:
            write_tree(f'{w}/s1/0', t0)
            write_tree(f'{w}/s1/1', t1)
            with cut('pack'):
                container_writer.compress_and_build(f'{w}/s1', f'{w}/s0')
                container_writer.build(f'{w}/s0', f'{w}/c.cf', True)
            with open(f'{w}/c.cf', 'rb') as f:
                data = f.read()
            try:
                first, second = split(data)
                for name, tree, files in (('first', t0, first), ('second', t1, second)):
                    raw = c01.ref_expand([(n, zlib.decompressobj(-15).decompress(v)) for n, v in files])
                    d = diff_trees(tree, raw, names=('packed', 'independent reader'))
                    require(d is None, f'{name} container: {d}')
            except (rc.FormatError, zlib.error) as err:
                raise Violation(f'the packed file is malformed: {err}')
            with cut('extract'):
                container_reader.extract(f'{w}/c.cf', f'{w}/e0', False, False)
                container_reader.decompress_and_extract(f'{w}/e0', f'{w}/e1')
            d = diff_trees(read_tree(f'{w}/s1'), read_tree(f'{w}/e1'), names=('packed', 'extracted'))
            require(d is None, f'round trip: {d}')
        rec.case((case['first'], case['second']), any(t0.values()) and any(t1.values()),
                 f'first {len(t0)} files, second {len(t1)} files: {case["second"]["files"][:2]}',
                 tags=['first>42 files'] * (len(t0) > 42))

    def real(case):
        import v8unpack
        from v8unpack.v8unpack import extract, build
        from harness import products
        with workdir() as w:
            path = products.materialise(case, f'{w}/in.cf')
            with open(path, 'rb') as f:
                before = split(f.read())
            with cut('extract'):
                extract(path, f'{w}/src', temp_dir=f'{w}/t1', processes=1)
            with cut('build'):
                build(f'{w}/src', f'{w}/out.cf', temp_dir=f'{w}/t2', processes=1)
            with open(f'{w}/out.cf', 'rb') as f:
                data = f.read()
            try:
                after = split(data)
            except rc.FormatError as err:
                raise Violation(f'the built file is malformed: {err}')
            unz = lambda files: {n: zlib.decompressobj(-15).decompress(v) for n, v in files}
            d = diff_trees(unz(before[0]), unz(after[0]), names=('original', 'rebuilt'))
            require(d is None, f'first container: {d}')
            n0, n1 = {n for n, v in before[1]}, {n for n, v in after[1]}
            require(n0 == n1, f'second container: files differ: {sorted(n0 ^ n1)[:5]}')
            with cut('extract again'):
                extract(f'{w}/out.cf', f'{w}/src2', temp_dir=f'{w}/t3', processes=1)
            t1, t2 = products.comparable_sources(f'{w}/src'), products.comparable_sources(f'{w}/src2')
            d = diff_trees(t1, t2, names=('sources', 'sources of the rebuilt product'))
            require(d is None, f'sources: {d}')
        rec.case(case, True, f'real product {case}', tags=['real product'])

    def whole(case):
        from v8unpack.v8unpack import extract, build
        from harness import products
        t0 = c01.tree_of(case['first'])
        def inner(spec):
            return rc.write([(n, inner(v)) if isinstance(v, list) else (n, gen.expand(v)) for n, v in spec], rc.L32)
        flat = {n: inner(v) if isinstance(v, list) else gen.expand(v) for n, v in case['first']['files']}
        flat.update({n: v for n, v in t0.items() if '/' not in n})
        second = products.sample_containers(case['sample'])[-1]
        with workdir() as w:
            with open(f'{w}/in.cf', 'wb') as f:
                f.write(products.pack([flat, second]))
            with cut('extract'):
                extract(f'{w}/in.cf', f'{w}/src', temp_dir=f'{w}/t1', processes=1)
            with cut('build'):
                build(f'{w}/src', f'{w}/out.cf', temp_dir=f'{w}/t2', processes=1)
            with open(f'{w}/out.cf', 'rb') as f:
                data = f.read()
            try:
                after = split(data)
                raw = c01.ref_expand([(n, zlib.decompressobj(-15).decompress(v)) for n, v in after[0]])
            except (rc.FormatError, zlib.error) as err:
                raise Violation(f'the built file is malformed: {err}')
            d = diff_trees(t0, raw, names=('original', 'rebuilt'))
            require(d is None, f'first container: {d}')
            n0, n1 = set(second), {n for n, v in after[1]}
            require(n0 == n1, f'second container: files differ: {sorted(n0 ^ n1)[:5]}')
        rec.case(case, any(t0.values()), f'whole product with a first container of {len(t0)} files',
                 tags=['whole product', 'an empty file in the first container'] if not all(t0.values()) else ['whole product'])

    return dict(read_pair=read_pair, write_pair=write_pair, real=real, whole=whole)


def zlib_raw(data):
    c = zlib.compressobj(wbits=-15)
    return c.compress(data) + c.flush()


def run(rec):
    parts = PARTS(rec)
    run_cases(rec, 'real', [dict(sample='C803-16'), dict(sample='apam')], parts['real'])
    # the table of contents of the second container fills its block of 64 KB with 2730 files
    none = dict(files=[], extra=1)
    run_cases(rec, 'write_pair', [dict(first=none, second=dict(files=[], extra=n)) for n in (2729, 2730, 2731, 5462)],
              parts['write_pair'])
    one_big = dict(files=[('b', ('random', (1 << 20) + 1, 1)), ('c', ('text', 100, 1))], extra=60)
    huge = dict(files=[('b', ('random', (1 << 24) + 17, 1)), ('c', ('text', 100, 1))], extra=2)
    run_cases(rec, 'write_pair', [dict(first=x, second=y) for x, y in ((one_big, one_big), (none, one_big), (huge, one_big), (one_big, huge))],
              parts['write_pair'])
    b = c02.base(8, 20000)
    one = st.fixed_dictionaries(b)
    small = st.fixed_dictionaries(dict(files=c01.file_lists(5), extra=st.sampled_from([0, 0, 3, 45])))
    run_property(rec, 'whole', st.fixed_dictionaries(dict(first=small, sample=st.just('C803-16'))), parts['whole'], 200, 8000,
                 share=rec.budget / 3)
    run_property(rec, 'read_pair', st.fixed_dictionaries(dict(first=one, second=one)), parts['read_pair'], 1600, 30000,
                 share=rec.budget / 2)
    extra = st.one_of(st.just(0), st.just(0), st.integers(38, 46), st.integers(80, 90), st.integers(1, 140))
    side = st.fixed_dictionaries(dict(files=c01.file_lists(6), extra=extra))
    run_property(rec, 'write_pair', st.fixed_dictionaries(dict(first=side, second=side)), parts['write_pair'], 1600,
                 30000, share=rec.budget / 2)
