"""C01: packing files into a container and reading it back returns the same files."""
import random

from hypothesis import strategies as st

from harness import gen, refcontainer as rc
from harness.core import (SCHEDULE, Violation, cut, diff_trees, read_tree, require, run_property, workdir, write_tree, run_cases)

LEVEL = 'exploration'
RULE = ('file sets (names over unicode, sizes drawn from block-boundary values, seven content kinds, nested '
        'directories with neighbours named like working files, up to 140 files / 2800 in the 64-bit layout) are packed with the builder and read with the '
        'extractor and with an independent reader; non-trivial: at least two files of which one is not empty, or a '
        'nested directory, or more files than one directory block holds')
ASSUMPTIONS = ['a file whose content starts with the container mark FF FF FF 7F is by design treated as a nested '
               'container, so such contents are only generated as real nested containers']
QUICK_SECONDS = 40


def tree_of(case):
    """case['files']: {name: spec | {name: spec}}"""
    tree = {}
    for name, spec in case['files']:
        if isinstance(spec, list):
            for sub, s in spec:
                if isinstance(s, list):
                    for sub2, s2 in s:
                        tree[f'{name}/{sub}/{sub2}'] = gen.expand(s2)
                else:
                    tree[f'{name}/{sub}'] = gen.expand(s)
        else:
            tree[name] = gen.expand(spec)
    for path in [f'{p}{suffix}' for name, spec in case['files'] if isinstance(spec, list)
                 for suffix in case.get('near', []) for p in (name, f'{name}/{spec[0][0]}')]:
        if not any(k.startswith(f'{path}/') for k in tree):  # neighbours with names like those of working files
            tree.setdefault(path, b'near ' + path.encode())
    for i in range(case.get('extra', 0)):
        tree.setdefault(f'x{i:05d}', b'' if i % 3 == 0 else b'%d' % i * (i % 5))
    return tree


def ref_expand(files, path='', nested_plain=True):
    """List of (name, raw) of a container -> flat tree; values that are containers are expanded."""
    res = {}
    for name, raw in files:
        if raw[:4] == b'\xff\xff\xff\x7f':
            inner, end, head = rc.read(raw, rc.L32)
            require(end == len(raw), lambda: f'nested container {name}: {len(raw) - end} bytes after the last block')
            require(head[2] in (0, len(inner)), f'nested container {name}: header counts {head[2]} files')
            res.update(ref_expand(inner, f'{path}{name}/'))
        else:
            res[f'{path}{name}'] = raw
    return res


def PARTS(rec):
    import zlib
    from v8unpack import container_reader, container_writer
    from v8unpack.container import Container, Container64

    def inflate(raw):
        d = zlib.decompressobj(-15)
        out = d.decompress(raw) + d.flush()
        require(d.eof and not d.unused_data, 'compressed stream is not complete')
        return out

    def nontrivial(tree, case):
        return (len(tree) >= 2 and any(tree.values())) or any('/' in k for k in tree)

    def product(case):
        """the way extract() and build() use the container: compressed files in container 0"""
        tree = tree_of(case)
        with workdir() as w:
            write_tree(f'{w}/s1/0', tree)
            with cut('pack'):
                container_writer.compress_and_build(f'{w}/s1', f'{w}/s0')
                container_writer.build(f'{w}/s0', f'{w}/out/file.cf', True)
            with open(f'{w}/out/file.cf', 'rb') as f:
                data = f.read()
            try:
                files, end, head = rc.read(data, rc.L32)
                require(end == len(data), f'{len(data) - end} bytes after the last block')
                require(head[2] == len(files), f'header counts {head[2]} files of {len(files)}')
                raw = ref_expand([(n, inflate(d)) for n, d in files])
            except (rc.FormatError, zlib.error) as err:
                raise Violation(f'the packed file is malformed: {err}')
            d = diff_trees(tree, raw, names=('packed', 'independent reader'))
            require(d is None, f'independent reader: {d}')
            with cut('extract'):
                container_reader.extract(f'{w}/out/file.cf', f'{w}/e0', False, False)
                SCHEDULE.rng = random.Random(len(data))
                try:
                    container_reader.decompress_and_extract(f'{w}/e0', f'{w}/e1')
                finally:
                    SCHEDULE.rng = None
            got = read_tree(f'{w}/e1')
            d = diff_trees({f'0/{k}': v for k, v in tree.items()}, got, names=('packed', 'extracted'))
            require(d is None, f'round trip: {d}')
            if case.get('direct'):
                with cut('extract in one step'):
                    container_reader.extract(f'{w}/out/file.cf', f'{w}/e2', True, True)
                d = diff_trees({f'0/{k}': v for k, v in tree.items()}, read_tree(f'{w}/e2'))
                require(d is None, f'one-step round trip: {d}')
        rec.case((case['files'], case.get('extra', 0)), nontrivial(tree, case), f'{len(tree)} files: {case["files"][:3]}',
                 tags=[f'files>{b}' for b in (42, 85, 127) if len(tree) > b]
                 + (['nested'] if any('/' in k for k in tree) else [])
                 + (['empty file'] if any(not v for v in tree.values()) else []))

    def stored(case):
        """stored files in a 32- or 64-bit container at any offset of a file"""
        tree = tree_of(case)
        lay = rc.L64 if case['bits'] == 64 else rc.L32
        cls = Container64 if case['bits'] == 64 else Container
        with workdir() as w:
            write_tree(f'{w}/src', tree)
            with cut('pack'):
                with open(f'{w}/c', 'w+b') as f:
                    cls().build(f, f'{w}/src', True)
            with open(f'{w}/c', 'rb') as f:
                data = f.read()
            try:
                files, end, head = rc.read(data, lay)
                require(end == len(data), f'{len(data) - end} bytes after the last block')
                raw = ref_expand(files)
            except rc.FormatError as err:
                raise Violation(f'the packed container is malformed: {err}')
            d = diff_trees(tree, raw, names=('packed', 'independent reader'))
            require(d is None, f'independent reader: {d}')
            with cut('extract'):
                container_reader.extract(f'{w}/c', f'{w}/e', False, True)
            d = diff_trees({f'0/{k}': v for k, v in tree.items()}, read_tree(f'{w}/e'), names=('packed', 'extracted'))
            require(d is None, f'round trip: {d}')
        rec.case((case['bits'], case['files'], case.get('extra', 0)), nontrivial(tree, case),
                 f'{case["bits"]}-bit, {len(tree)} files: {case["files"][:3]}', tags=[f'{case["bits"]}-bit'])

    return dict(product=product, stored=stored, many64=stored)


NEAR = st.one_of(st.just([]), st.just([]), st.lists(st.sampled_from(['.temp', '.tmp', '.bak', '~', '.0', '.part']), max_size=3,
                                                  unique=True))


def file_lists(max_files=12):
    spec = gen.content_specs()
    nested2 = st.lists(st.tuples(gen.file_names(), gen.content_specs(3000)), min_size=1, max_size=3,
                       unique_by=lambda t: t[0]).map(list)
    nested = st.lists(st.tuples(gen.file_names(), st.one_of(gen.content_specs(9000), gen.content_specs(9000), nested2)),
                      min_size=1, max_size=5, unique_by=lambda t: t[0]).map(list)
    return st.lists(st.tuples(gen.file_names(), st.one_of(spec, spec, spec, nested)), min_size=1, max_size=max_files,
                    unique_by=lambda t: t[0])


def run(rec):
    parts = PARTS(rec)
    extra = st.one_of(st.just(0), st.just(0), st.integers(38, 46), st.integers(80, 90), st.integers(1, 140))
    # documents of more than 64 KB, 1 MB and 16 MB
    big = [dict(files=[('a', ('text', 10, 1)), ('b', (kind, size, 1)), ('d', [('e', ('random', size // 7, 2))])], extra=n, bits=bits)
           for bits in (32, 64) for kind, size, n in (('random', (1 << 20) + 1, 50), ('text', (1 << 20), 0), ('random', (1 << 24) + 17, 3))]
    run_cases(rec, 'product', big[:3], parts['product'])
    run_cases(rec, 'stored', big, parts['stored'])
    run_property(rec, 'product', st.fixed_dictionaries(
        dict(files=file_lists(), near=NEAR, extra=extra, direct=st.booleans())), parts['product'], 2400, 40000, share=rec.budget * 0.4)
    run_property(rec, 'stored', st.fixed_dictionaries(
        dict(files=file_lists(), near=NEAR, extra=extra, bits=st.sampled_from([32, 64]))), parts['stored'], 2400, 40000, share=rec.budget * 0.4)
    run_cases(rec, 'many64', [dict(files=[('a', ('text', 700, 1))], extra=n, bits=64) for n in
                              ((2729, 2730) if not rec.thorough else (2729, 2730, 2731, 5460, 5461))], parts['many64'])
