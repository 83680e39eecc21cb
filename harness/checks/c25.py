"""C25: only the declared output and temporary folders are written, and temporaries go."""
import contextlib
import json
import os
import random
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from harness import core, products, synth
from harness.checks.c08 import real_pool, same_product
from harness.checks.c10 import make_index, unzip
from harness.core import Violation, cut, diff_trees, quiet, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('products made as for C07 are extracted and built with generated arrangements: own or given temporary folder, output '
        'that is new, empty or full of other files, folders, links and read-only files, absolute and relative paths, index with relocated '
        'files, include areas in other folders, undamaged or broken input. Every operating system call that writes is '
        'observed (audit events) and must name a declared place; a snapshot (contents and modes, everything else in the scratch folder, the input, the '
        'working folder) must be unchanged; a temporary folder of the tool must be gone, after errors as well, a given one must stay; the '
        'result must be that of a run into an empty place. Index generation may write its index only. names: members, nested members and objects of the input get names that are '
        'paths (up, absolute, through other folders): nothing outside is written, changed or deleted. '
        'Non-trivial: the output is not empty before, an index is used or the run fails')
ASSUMPTIONS = ['the output, input and temporary folders do not contain one another']
QUICK_SECONDS = 40

BASES = ['C803', 'C803', 'CE803', 'P802', 'P803', 'R803', 'apam']
WRITES = []
_on = [False]
_hooked = [False]


def _hook(event, args):
    if not _on[0]:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or not isinstance(flags, int):
            return
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
            WRITES.append((event, path))
    elif event in ('os.mkdir', 'os.remove', 'os.rmdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.utime', 'os.setxattr'):
        # a path relative to an open folder (from shutil.rmtree) comes with the folder: it was reported by shutil.rmtree
        if event in ('os.remove', 'os.rmdir', 'os.mkdir') and args[-1] not in (-1, None):
            return
        if not isinstance(args[0], int):
            WRITES.append((event, args[0]))
    elif event in ('os.rename', 'os.link', 'os.symlink'):
        WRITES.append((event, args[0]))
        WRITES.append((event, args[1]))
    elif event == 'shutil.rmtree':
        WRITES.append((event, args[0]))


@contextlib.contextmanager
def observed():
    if not _hooked[0]:
        _hooked[0] = True
        sys.addaudithook(_hook)
    WRITES.clear()
    _on[0] = True
    try:
        yield WRITES
    finally:
        _on[0] = False


def snapshot(path, leave):
    """{relative path: (kind, mode, content)} of everything below path but the folders in leave."""
    res = {}
    for root, dirs, files in os.walk(path):
        for n in list(dirs):
            full = os.path.join(root, n)
            rel = os.path.relpath(full, path)
            if rel in leave:
                dirs.remove(n)
                continue
            res[rel] = ('link', os.readlink(full)) if os.path.islink(full) else ('dir', os.lstat(full).st_mode)
        for n in files:
            full = os.path.join(root, n)
            rel = os.path.relpath(full, path)
            if rel in leave:
                continue
            if os.path.islink(full):
                res[rel] = ('link', os.readlink(full))
            else:
                with open(full, 'rb') as f:
                    res[rel] = ('file', os.lstat(full).st_mode, f.read())
    return res


def changed(a, b):
    return [f'{k} {"appears" if k not in a else "is gone" if k not in b else "changes"}' for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]


def fill(path, seed, tree):
    """Other content in a folder: files of other names, files and folders in the place of real ones, links."""
    rng = random.Random(seed)
    os.makedirs(path, exist_ok=True)
    names = sorted(tree) or ['a.json', 'Form/b.json']
    for k in range(rng.randrange(1, 7)):
        kind = rng.randrange(7)
        name = rng.choice(names)
        if kind == 0:
            write = f'{path}/мусор{k}/x{k}.json'
        elif kind == 1:
            write = f'{path}/{name}'
        elif kind == 2:
            write = f'{path}/{name}/inside.txt'
        elif kind == 3:
            write = f'{path}/{os.path.dirname(name) or "Form"}/Лишний/Form.id.json'
        elif kind == 4:
            write = f'{path}/{name.split("/")[0]}'
        elif kind == 5:
            write = f'{path}/dummy.zip'
        else:
            write = f'{path}/.hidden'
        try:
            os.makedirs(os.path.dirname(write), exist_ok=True)
            with open(write, 'w') as f:
                f.write('stale\n' * rng.randrange(1, 9))
            if rng.randrange(4) == 0:
                os.chmod(write, 0o400)
        except OSError:
            pass
    return path


def is_area(f):
    """The file of an area lies where its owner lies, whatever an index says about it."""
    parts = f.split('/')
    return f.endswith(('.bsl', '.elem.json')) and not parts[-1].startswith(('Configuration', 'External') if len(parts) < 3 else parts[-3])


def PARTS(rec):
    from v8unpack import v8unpack as mod
    from v8unpack.v8unpack import extract, build
    from v8unpack.index import update_index

    def run_in(w, fn, allowed, keep, label, outside=None):
        """Runs fn, -> exception or None. allowed: folders (real paths) that may be written."""
        before = snapshot(w, keep)
        tmp_before = sorted(os.listdir(f'{w}/systmp'))
        old, old_env = tempfile.tempdir, os.environ.get('TMPDIR')
        tempfile.tempdir = f'{w}/systmp'
        os.environ['TMPDIR'] = f'{w}/systmp'
        cwd = os.getcwd()
        os.chdir(f'{w}/cwd')
        err = None
        try:
            with quiet(), observed() as writes:
                try:
                    fn()
                except Exception as e:
                    err = e
            writes = list(writes)
        finally:
            tempfile.tempdir = old
            if old_env is None:
                os.environ.pop('TMPDIR', None)
            else:
                os.environ['TMPDIR'] = old_env
            os.chdir(cwd)
        roots = [os.path.realpath(x) for x in allowed] + [os.path.realpath(f'{w}/systmp')]
        for event, path in writes:
            path = os.fsdecode(path)
            if path == '/dev/null':
                continue
            full = os.path.normpath(os.path.join(f'{w}/cwd', path))
            real = os.path.join(os.path.realpath(os.path.dirname(full)), os.path.basename(full))
            if event == 'os.mkdir' and any(r == real or r.startswith(real + os.sep) for r in roots):
                continue  # making the way to a declared place
            require(any(real == r or real.startswith(r + os.sep) or os.path.realpath(real) == r for r in roots),
                    lambda: f'{label}: {event} outside of the declared places: {os.path.relpath(full, w) if full.startswith(w) else full}')
        diff = changed(before, snapshot(w, keep))
        require(not diff, lambda: f'{label}: {diff[:4]}')
        left = sorted(set(os.listdir(f'{w}/systmp')) - set(tmp_before))
        require(not left, lambda: f'{label}: left in the temporary folder: {left} after {"an error" if err else "success"}')
        return err

    def places(case):
        p = synth.apply(case['product'])
        options = dict(auto_include=True) if case['auto'] else {}
        with workdir() as w:
            for d in ('cwd', 'systmp', 'in', 'victim'):
                os.makedirs(f'{w}/{d}')
            write_tree(f'{w}/victim', {'keep.txt': b'keep', 'sub/keep.txt': b'keep'})
            data = p.bytes()
            with open(f'{w}/in/продукт.bin', 'wb') as f:
                f.write(data)
            # the result in an empty place
            with cut('extract'):
                extract(f'{w}/in/продукт.bin', f'{w}/ref/src', temp_dir=f'{w}/reft', processes=1, options=dict(options))
            files = sorted(read_tree(f'{w}/ref/src'))
            index = None
            extra = []
            if case['index']:
                index, place, nulls = make_index([f for f in files if f != 'version.bin' and not is_area(f)], case['index'], None)
                shutil.rmtree(f'{w}/ref')
                with open(f'{w}/index.json', 'w', encoding='utf-8') as f:
                    json.dump(index, f, ensure_ascii=False)
                index = f'{w}/index.json'
                with cut('extract'):
                    extract(f'{w}/in/продукт.bin', f'{w}/ref/src', temp_dir=f'{w}/reft', processes=1, options=dict(options), index=index)
            require(os.path.isdir(f'{w}/reft'), 'the given temporary folder is gone after the extraction')
            want = unzip(products.comparable_sources(f'{w}/ref'))
            with cut('build'):
                build(f'{w}/ref/src', f'{w}/ref.bin', temp_dir=f'{w}/reft', processes=1, options=dict(options), index=index)
            with open(f'{w}/ref.bin', 'rb') as f:
                want_bin = products.unpack(f.read())
            require(os.path.isdir(f'{w}/reft'), 'the given temporary folder is gone after the build')
            for d in ('ref', 'reft'):
                shutil.rmtree(f'{w}/{d}')
            os.remove(f'{w}/ref.bin')
            # the folders named by the index or by areas, next to the sources
            tops = sorted({n.split('/')[0] for n in want} - {'src'})
            extra = [f'{w}/x/{t}' for t in tops]

            out = f'{w}/x/src'
            temp = None
            if case['temp']:
                temp = f'{w}/given/temp'
                if case['temp'] > 1:
                    fill(temp, case['seed'] + 1, {'decode_stage_1/0/root': 1, 'decode_stage_3/Configuration.json': 1, 'encode_stage_3/Form/x': 1,
                                                  'encode_stage_0/2/a': 1, 'decode_stage_0/1/b': 1, 'decode_stage_1/1/root': 1})
                if case['temp'] > 2:
                    os.makedirs(os.path.dirname(temp), exist_ok=True)
            how = case['stale'] if case['stale'] != 4 or not tops else 2  # the places beside a link depend on how the system reads '..'
            if how == 1:
                os.makedirs(out)
            elif how == 2:
                fill(out, case['seed'], {n[4:]: 1 for n in want if n.startswith('src/')})
            elif how == 3:
                fill(out, case['seed'], {n[4:]: 1 for n in want if n.startswith('src/')})
                os.symlink(f'{w}/victim', f'{out}/link')
                os.symlink(f'{w}/victim/keep.txt', f'{out}/keep.txt')
            elif how == 4:
                fill(f'{w}/elsewhere', case['seed'], {n[4:]: 1 for n in want if n.startswith('src/')})
                os.makedirs(f'{w}/x')
                os.symlink(f'{w}/elsewhere', out)
            broken = case['broken']
            src_bin = f'{w}/in/продукт.bin'
            if broken == 'input':
                with open(src_bin, 'wb') as f:
                    f.write(data[:max(20, len(data) * 2 // 3)])
            rel = case['relative']

            def path(x):
                return x if not rel or x is None else os.path.relpath(x, f'{w}/cwd') + ('/' if rel > 1 and not x.endswith(('.bin', '.json')) else '')

            keep = {'systmp', 'x', 'given', 'elsewhere'}
            allowed = [out, f'{w}/given', *extra] + ([f'{w}/elsewhere'] if how == 4 else [])
            label = f'extract ({case})'
            err = run_in(w, lambda: extract(path(src_bin), path(out), temp_dir=path(temp), processes=1, options=dict(options), index=index),
                         allowed, keep, label)
            if broken == 'input':
                require(err is not None, lambda: f'{label}: no error for a cut input')
                require(temp is None or os.path.isdir(temp), lambda: f'{label}: the given temporary folder is gone')
                nontrivial = True
            else:
                require(err is None, lambda: f'{label}: {str(err)[:600]}')
                got = products.comparable_sources(f'{w}/x') if how != 4 else {
                    **{n: d for n, d in products.comparable_sources(f'{w}/x').items() if not n.startswith('src/')},
                    **{f'src/{n}': d for n, d in products.comparable_sources(f'{w}/elsewhere').items()}}
                got = unzip(got)  # archives hold time stamps
                diff = diff_trees({n: d for n, d in want.items() if not n.endswith(products.TOP)}, {n: d for n, d in got.items() if not n.endswith(products.TOP)},
                                  limit=3, names=('into an empty place', 'now'))
                require(not diff, lambda: f'{label}: other sources: {diff}')
                require(temp is None or os.path.isdir(temp), lambda: f'{label}: the given temporary folder is gone')
                # and back
                target = f'{w}/b/итог.bin' if case['newdir'] else f'{w}/итог.bin'
                if case['old']:
                    os.makedirs(os.path.dirname(target), exist_ok=True)
                    with open(target, 'wb') as f:
                        f.write(data * 2)
                if broken == 'source':
                    base = out if how == 4 else f'{w}/x'
                    name = sorted(n for n in read_tree(os.path.realpath(base)) if n.endswith('.id.json'))
                    name = (name or sorted(n for n in read_tree(os.path.realpath(base)) if n.endswith('.json')))[0]
                    with open(f'{base}/{name}', 'ab') as f:
                        f.write(b'}')
                keep = {'systmp', 'given', os.path.relpath(target, w)} | ({'b'} if case['newdir'] else set())
                label = f'build ({case})'
                err = run_in(w, lambda: build(path(out), path(target), temp_dir=path(temp), processes=1, options=dict(options), index=index),
                             [f'{w}/given', target], keep, label)
                require(temp is None or os.path.isdir(temp), lambda: f'{label}: the given temporary folder is gone')
                if broken == 'source':
                    require(err is not None, lambda: f'{label}: no error for a broken source')
                else:
                    require(err is None, lambda: f'{label}: {str(err)[:600]}')
                    with open(target, 'rb') as f:
                        d = same_product(want_bin, products.unpack(f.read()))
                    require(not d, lambda: f'{label}: other product: {d}')
                if case['gen'] and broken is None:
                    keep = {'systmp', 'i.json'}
                    label = f'index generation ({case})'
                    err = run_in(w, lambda: update_index(path(out), path(f'{w}/i.json'), [None, 'core'][case['gen'] - 1]), [f'{w}/i.json'], keep, label)
                    require(err is None, lambda: f'{label}: {str(err)[:600]}')
        rec.case(case, how > 1 or bool(index) or broken is not None,
                 f'{case["product"]["base"]}: temp {case["temp"]}, output {how}, index {bool(index)}, broken {broken}, relative {rel}',
                 tags=[f'output {how}', f'temp {case["temp"]}', f'broken {broken}'] + (['index'] if index else []))

    def workers(case):
        """a failed run with real processes leaves no temporaries and no processes behind"""
        import signal
        import time
        p = synth.apply(case['product'])
        with workdir() as w:
            os.makedirs(f'{w}/systmp')
            with open(f'{w}/a.bin', 'wb') as f:
                f.write(p.bytes() if case['how'] != 'input' else p.bytes()[:-len(p.bytes()) // 3])
            if case['how'] != 'input':
                with cut('extract'):
                    extract(f'{w}/a.bin', f'{w}/x/src', temp_dir=f'{w}/t', processes=1)
                if case['how'] == 'source':
                    names = sorted(n for n in read_tree(f'{w}/x/src') if n.endswith('.json'))
                    with open(f'{w}/x/src/{names[case["k"] % len(names)]}', 'ab') as f:
                        f.write(b'}')
            old = tempfile.tempdir
            tempfile.tempdir = f'{w}/systmp'
            err = None
            try:
                with real_pool(), quiet():
                    try:
                        if case['how'] == 'input':
                            extract(f'{w}/a.bin', f'{w}/y/src', processes=case['processes'])
                        else:
                            build(f'{w}/x/src', f'{w}/b.bin', processes=case['processes'])
                    except Exception as e:
                        err = e
            finally:
                tempfile.tempdir = old
            # workers that are still running could write again
            time.sleep(0.05)
            left = os.listdir(f'{w}/systmp')
            require((err is None) == (case['how'] == 'good'), lambda: f'{case}: {err}')
            require(not left, lambda: f'{case["how"]} with {case["processes"]} processes: left in the temporary folder: {left}')
        rec.case(case, case['how'] != 'good', f'{case["product"]["base"]} {case["how"]} {case["processes"]} processes', tags=['real workers', case['how']])

    def names(case):
        """Names in the input that are paths to other places."""
        p = synth.apply(case['product'])
        with workdir() as w:
            for d in ('cwd', 'systmp', '1/2/3/4/5/6', 'in', 'victim'):
                os.makedirs(f'{w}/{d}')
            write_tree(f'{w}/victim', {'keep.txt': b'keep'})
            deep = f'{w}/1/2/3/4/5/6'
            with open(f'{w}/in/a.bin', 'wb') as f:
                f.write(p.bytes())
            with cut('extract'):
                extract(f'{w}/in/a.bin', f'{w}/ref/src', temp_dir=f'{w}/reft', processes=1)
            tops = sorted(set(os.listdir(f'{w}/ref')) - {'src'})
            for d in ('ref', 'reft'):
                shutil.rmtree(f'{w}/{d}')
            log = []
            for where, k, shape in case['names']:
                name = ['../{0}', '../../{0}', '../../../../{0}', '{1}/{0}', 'n/../../../{0}', '..', '{0}/../../../../{0}', '../1/../../{0}',
                        '{1}', '../victim/keep.txt', './../{0}'][shape % 11].format(f'чужой{k % 7}', f'{w}/victim')
                if where == 'member':
                    c = p.containers[k % len(p.containers)]
                    if k // 2 % 2 or not c:
                        c[name] = b'text'
                    else:
                        old = sorted(n for n in c if isinstance(c[n], bytes))[k // 4 % len([n for n in c if isinstance(c[n], bytes)])]
                        c[name] = c[old]
                elif where == 'nested':
                    dirs = sorted(n for n in p.main if isinstance(p.main[n], dict))
                    if not dirs:
                        continue
                    p.main[dirs[k % len(dirs)]] = dict(p.main[dirs[k % len(dirs)]], **{name: b'text'})
                else:
                    objs = p.objects()
                    if not objs:
                        continue
                    o = objs[k % len(objs)]
                    p.record(o)[2] = synth.quote(name)
                    log.append(o.kind)
                log.append(f'{where} {name.replace(w, "")}')
            if not log:
                return
            p.finish()
            with open(f'{w}/in/a.bin', 'wb') as f:
                f.write(products.pack(p.containers))
            out = f'{deep}/x/src'
            temp = f'{deep}/t/t' if case['temp'] else None
            allowed = [out, f'{deep}/t/t'] + [f'{deep}/x/{t}' for t in tops]
            keep = {'systmp'} | {os.path.relpath(x, w) for x in allowed}
            for d in (f'{deep}/x', f'{deep}/t'):
                os.makedirs(d)
            err = run_in(w, lambda: extract(f'{w}/in/a.bin', out, temp_dir=temp, processes=1), allowed, keep, f'extract of a product with names {log}')
        rec.case(case, err is not None, f'{case["product"]["base"]} {log} {"refused" if err else "kept inside"}',
                 tags=[x[0] for x in case['names']] + ['refused' if err else 'kept inside'])

    return dict(places=places, workers=workers, names=names)


def run(rec):
    parts = PARTS(rec)
    small = synth.cases(bases=BASES, max_ops=3, max_keep=2).map(lambda c: dict(c, keep=c['keep'] or [0]))
    num = st.integers(0, 1 << 24)
    b = rec.budget
    run_property(rec, 'places', st.fixed_dictionaries(dict(
        product=small, auto=st.booleans(), index=st.one_of(st.none(), st.none(), st.lists(num, min_size=3, max_size=30)), temp=st.integers(0, 3), stale=st.integers(0, 4),
        seed=num, broken=st.sampled_from([None, None, None, 'input', 'source']), relative=st.integers(0, 2), newdir=st.booleans(),
        old=st.booleans(), gen=st.integers(0, 2))), parts['places'], 3000, 60000, share=b * 0.7)
    run_property(rec, 'names', st.fixed_dictionaries(dict(product=small, temp=st.booleans(), names=st.lists(st.tuples(
        st.sampled_from(['member', 'nested', 'object', 'object']), num, num), min_size=1, max_size=2))), parts['names'], 600, 12000, share=b * 0.15)
    run_property(rec, 'workers', st.fixed_dictionaries(dict(product=small, how=st.sampled_from(['good', 'input', 'source', 'source']), k=num,
                                                            processes=st.integers(1, 6))), parts['workers'], 40, 500, share=b * 0.15)
