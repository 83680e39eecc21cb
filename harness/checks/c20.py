"""C20: a built extension carries a correct hash list of its files."""
import base64
import hashlib
import os
import random
import zipfile
import io

from hypothesis import strategies as st

from harness import products, refbrace as rb, refcontainer as rc, synth
from harness.core import REAL_POOL, cut, read_tree, require, run_cases, run_property, workdir, write_tree
from harness.checks.c08 import real_pool

LEVEL = 'exploration'
RULE = ('extensions generated from the sample by sequences of operations (objects cloned, removed and renamed, modules, '
        'include areas, templates and pictures with modules up to 0.7 MB of incompressible text, helps), extracted and built several times over '
        'with options, edited or deleted module files, a first container, a kept temporary folder and one or more workers; '
        'the list in configinfo is compared with the SHA-1 of every stored file, read by an independent container reader; '
        'non-trivial: six or more files in the container')
ASSUMPTIONS = ['the list covers every internal file of the container of the extension but the list itself, as in the real sample']
QUICK_SECONDS = 30


def check_list(data, what, lay=None):
    """-> number of files"""
    files, end, head = rc.read(data, lay or rc.detect(data[:8]))
    names = [n for n, d in files]
    require(len(set(names)) == len(names), lambda: f'{what}: a name twice in the container')
    stored = dict(files)
    require('configinfo' in stored, lambda: f'{what}: no configinfo')
    text = rb.decode_text(products.inflate(stored.pop('configinfo')))[0]
    require('____' not in text, lambda: f'{what}: placeholder left: {text[:300]}')
    tree = rb.parse(text)
    require(len(tree) == 3 and isinstance(tree[2], list), lambda: f'{what}: no list in {str(tree)[:300]}')
    row = tree[2]
    listed = row[1::2]
    require(row[0] == str(len(stored)), lambda: f'{what}: count {row[0]}, {len(stored)} files')
    require(len(row) == 1 + 2 * len(stored), lambda: f'{what}: {len(row) - 1} cells for {len(stored)} files')
    require(sorted(listed) == sorted(synth.quote(n) for n in stored),
            lambda: f'{what}: listed or present only: {sorted(set(listed) ^ {synth.quote(n) for n in stored})[:6]}')
    for n, h in zip(listed, row[2::2]):
        want = base64.b64encode(hashlib.sha1(stored[n[1:-1]]).digest()).decode()
        require(h == want, lambda: f'{what}: hash of {n} is {h}, {want} expected')
    return len(stored)


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def sample(case):
        with open(products.sample_path('CE803'), 'rb') as f:
            n = check_list(f.read(), 'the sample itself')
        rec.case(case, n > 5, f'the sample: {n} files')

    def hashes(case):
        p = synth.apply(case)
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            options = dict(case['options'])
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/a/src', temp_dir=f'{w}/t1', processes=1, options=dict(options))
            counts = []
            largest = 0
            for k in range(case['rounds']):
                if case['first']:
                    buf = io.BytesIO()
                    with zipfile.ZipFile(buf, 'w') as z:
                        for n in ('info', 'a b'):
                            z.writestr(n, f'{{1,"{n}"}}' * 40)
                    write_tree(f'{w}/a/src', {'dummy.zip': buf.getvalue()})
                if case['edits']:
                    bsl = sorted(n for n in read_tree(f'{w}/a/src') if n.endswith('.bsl'))
                    for e in case['edits']:
                        if bsl:
                            n = bsl[e % len(bsl)]
                            if e % 3 == 0 and os.path.exists(f'{w}/a/src/{n}'):
                                os.remove(f'{w}/a/src/{n}')
                            elif e % 7 == 1:
                                big = random.Random(e).randbytes([70000, 140000, 700000][e % 5 % 3]).hex()
                                largest = max(largest, len(big) // 2)
                                write_tree(f'{w}/a/src', {n: f'// {big}\n'.encode()})
                            else:
                                write_tree(f'{w}/a/src', {n: f'// правка {k}\nА = {e};\n'.encode() * (1 + e % 50)})
                temp = f'{w}/t2' if case['keep_temp'] else f'{w}/t2{k}'
                with cut('build'):
                    if case['workers'] > 1:
                        with real_pool():
                            build(f'{w}/a/src', f'{w}/o.bin', temp_dir=temp, processes=case['workers'], options=dict(options))
                    else:
                        build(f'{w}/a/src', f'{w}/o.bin', temp_dir=temp, processes=1, options=dict(options))
                with open(f'{w}/o.bin', 'rb') as f:
                    data = f.read()
                if case['first']:
                    files, end, head = rc.read(data, rc.detect(data[:8]))
                    require(sorted(n for n, d in files) == ['a b', 'info'], lambda: f'first container: {files}'[:300])
                    data = data[end:]
                counts.append(check_list(data, f'build {k}'))
        rec.case(case, counts[0] > 5, f'{len(p.log)} operations, {counts} files, options {options}', tags=['with a first container'] * case['first'] + ['file over 64 KB'] * (largest > 0))

    return dict(sample=sample, hashes=hashes)


def run(rec):
    parts = PARTS(rec)
    run_cases(rec, 'sample', [dict()], parts['sample'])
    more = st.fixed_dictionaries(dict(
        options=st.sampled_from([{}, {}, dict(auto_include=True), dict(prefix='Рас_'), dict(version='80310'), dict(product='П')]),
        rounds=st.integers(1, 3), first=st.booleans(), keep_temp=st.booleans(), edits=st.lists(st.integers(0, 200), max_size=4),
        workers=st.sampled_from([1] * 30 + [2, 3])))
    case = st.builds(lambda c, m: dict(c, **m), synth.cases(max_ops=10, bases=['CE803']), more)
    # files that stay larger than 1 MB and 4 MB when packed, and sizes around
    plain = dict(base='CE803', keep=None, options={}, rounds=1, first=False, keep_temp=False, edits=[], workers=1)
    run_cases(rec, 'hashes', [dict(plain, ops=[(op, i, ('random', size, 1))]) for size in (65535, (1 << 20) - 300, (1 << 20) + 5, (1 << 22) + 5)
                              for op, i in (('template', 0), ('help', 0))], parts['hashes'])
    run_property(rec, 'hashes', case, parts['hashes'], 4000, 60000)
