"""C02: the extractor reads every legal block layout."""
import random
import zlib

from hypothesis import strategies as st

from harness import gen, refcontainer as rc
from harness.core import SCHEDULE, Violation, cut, diff_trees, read_tree, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('file sets are laid out by an independent writer: every document (directory, descriptors, data) is cut into a '
        'random chain of blocks, blocks are put in a random order with slack, garbage after names, upper or lower '
        'case numbers, empty files with or without a data block, names like those of working files, at any start offset and in both layouts; '
        'non-trivial: at least one document is cut or moved, and one file is not empty')
ASSUMPTIONS = ['the first four bytes of a plain file are not the container mark']
QUICK_SECONDS = 40


def layout_of(case, files):
    lay = rc.L64 if case['bits'] == 64 else rc.L32
    toc_block = case.get('toc_block')
    return rc.write(files, lay, gen.RngChooser(case['layout']), default_block=case.get('default', 512),
                    toc_block=toc_block, empty_as_end=case.get('empty_as_end', True))


def deflate(data, level, chunk):
    c = zlib.compressobj(level, zlib.DEFLATED, -15)
    if chunk and data:
        out = b''
        for i in range(0, len(data), chunk):
            out += c.compress(data[i:i + chunk])
            out += c.flush(zlib.Z_SYNC_FLUSH) if len(data) < chunk * 40 else b''
        return out + c.flush()
    return c.compress(data) + c.flush()


def files_of(case):
    files = [(name, gen.expand(spec)) for name, spec in case['files']]
    names = {n for n, d in files}
    for suffix in case.get('near', []):  # neighbours with names like those of working files
        if f'{files[0][0]}{suffix}' not in names:
            files.insert(0, (f'{files[0][0]}{suffix}', b'near' + suffix.encode()))
            names.add(files[0][0])
    for i in range(case.get('extra', 0)):
        if f'x{i:04d}' not in names:
            files.append((f'x{i:04d}', b'%d' % i * (i % 4)))
    return files


def PARTS(rec):
    from v8unpack import container_reader

    def nontrivial(case, files):
        return case['layout'] != 0 and any(d for n, d in files)

    def plain(case):
        files = files_of(case)
        data = layout_of(case, files)
        check_layout(data, files, case['bits'])
        with workdir() as w:
            with open(f'{w}/c', 'wb') as f:
                f.write(data)
            with cut('extract'):
                container_reader.extract(f'{w}/c', f'{w}/e', False, False)
            d = diff_trees({f'0/{n}': v for n, v in files}, read_tree(f'{w}/e'), names=('stored', 'extracted'))
            require(d is None, f'{case["bits"]}-bit layout {case["layout"]}: {d}')
        rec.case((case['bits'], case['layout'], case['files'], case.get('extra')), nontrivial(case, files),
                 f'{case["bits"]}-bit layout seed {case["layout"]}, {len(files)} files: {case["files"][:3]}',
                 tags=[f'{case["bits"]}-bit'] + (['directory>1 block'] if len(files) > 42 else [])
                 + (['empty file'] if any(not d for n, d in files) else []))

    def product(case):
        """compressed files, some of them nested containers in any layout"""
        files = files_of(case)
        expect, raw = {}, []
        for i, (name, data) in enumerate(files):
            kind = case['nest'][i % len(case['nest'])]
            if kind:
                inner = [(f'{"info text module form".split()[j % 4]}{j // 4 or ""}',
                          (data[j * 100:(j + 1) * 100 + 600]) if data[j * 100:][:4] != b'\xff\xff\xff\x7f' else b'')
                         for j in range(kind)]
                for suffix in case.get('near', []):
                    inner.insert(i % 2 and len(inner), (f'{inner[-1][0]}{suffix}', suffix.encode()))
                for n, v in inner:
                    expect[f'0/{name}/{n}'] = v
                data = rc.write(inner, rc.L32, gen.RngChooser(case['layout'] and case['layout'] + i))
            else:
                expect[f'0/{name}'] = data
            raw.append((name, deflate(data, case['level'], case['chunk'])))
        data = layout_of(case, raw)
        check_layout(data, raw, case['bits'])
        with workdir() as w:
            with open(f'{w}/c', 'wb') as f:
                f.write(data)
            with cut('extract'):
                container_reader.extract(f'{w}/c', f'{w}/e0', False, False)
                SCHEDULE.rng = random.Random(case['layout']) if case['layout'] else None
                try:
                    container_reader.decompress_and_extract(f'{w}/e0', f'{w}/e1')
                finally:
                    SCHEDULE.rng = None
            d = diff_trees(expect, read_tree(f'{w}/e1'), names=('stored', 'extracted'))
            require(d is None, f'{case["bits"]}-bit layout {case["layout"]}: {d}')
            if case['one_step']:
                with cut('extract in one step'):
                    container_reader.extract(f'{w}/c', f'{w}/e2', True, True)
                d = diff_trees(expect, read_tree(f'{w}/e2'), names=('stored', 'extracted in one step'))
                require(d is None, f'{case["bits"]}-bit layout {case["layout"]}: {d}')
        rec.case((case['bits'], case['layout'], case['files'], case['nest'], case.get('extra')),
                 nontrivial(case, files),
                 f'compressed, {case["bits"]}-bit layout seed {case["layout"]}, nested {case["nest"]}, '
                 f'{len(files)} files: {case["files"][:3]}', tags=['compressed'])

    return dict(plain=plain, product=product)


def check_layout(data, files, bits):
    """The independent writer and reader agree; otherwise the harness is wrong."""
    got, end, head = rc.read(data, rc.L64 if bits == 64 else rc.L32)
    assert got == files, 'reference layout does not read back'


NEAR = st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(['.temp', '.tmp', '.bak', '~', '.0', '.part']), max_size=3,
                                                  unique=True))


def base(max_files=10, max_size=100000):
    return dict(
        files=st.lists(st.tuples(gen.file_names(), gen.content_specs(max_size)), min_size=1, max_size=max_files,
                       unique_by=lambda t: t[0]),
        extra=st.one_of(st.just(0), st.just(0), st.integers(0, 100)),
        bits=st.sampled_from([32, 32, 64]),
        layout=st.one_of(st.just(0), st.integers(1, 1 << 20), st.integers(1, 1 << 20)),
        default=st.sampled_from([512, 512, 1024, 2048, 65536]),
        empty_as_end=st.booleans(),
    )


def run(rec):
    parts = PARTS(rec)
    big = [dict(files=[('a', ('text', 10, 1)), ('b', (kind, size, 1)), ('c', ('cyr', 700, 2))], extra=n, bits=bits, layout=lay, default=512, empty_as_end=True)
           for bits in (32, 64) for lay in (0, 5) for kind, size, n in (('random', (1 << 20) + 1, 50), ('random', (1 << 24) + 17, 3))]
    run_cases(rec, 'plain', big, parts['plain'])
    run_cases(rec, 'product', [dict(c, nest=[0], level=6, chunk=0, one_step=True) for c in big], parts['product'])
    run_property(rec, 'plain', st.fixed_dictionaries(base()), parts['plain'], 3000, 60000, share=rec.budget / 2)
    run_property(rec, 'product', st.fixed_dictionaries(dict(
        base(8, 20000), nest=st.lists(st.sampled_from([0, 0, 1, 2, 4, 50]), min_size=1, max_size=4),
        near=NEAR, level=st.sampled_from([0, 1, 6, 9]), chunk=st.sampled_from([0, 0, 300, 5000]), one_step=st.booleans())),
                 parts['product'], 2400, 40000, share=rec.budget / 2)
