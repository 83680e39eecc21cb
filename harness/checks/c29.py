"""C29: a run that was interrupted, or met a failing operation, can be repeated."""
import contextlib
import errno
import json
import os
import random
import shutil
import signal
import sys

from hypothesis import strategies as st

from harness import products, synth
from harness.checks.c08 import any_order, same_product
from harness.checks.c10 import make_index, unzip
from harness.checks.c25 import is_area
from harness.core import cut, diff_trees, quiet, read_tree, require, run_property, workdir, write_tree

LEVEL = 'exploration'
RULE = ('products made as for C07 and a changed second version of them; extraction, build, extraction of a second version into a versioned folder and '
        'build of a version, with or without an index, automatic mode, a given temporary folder. The operating system calls of a run are counted '
        '(audit events of opening, listing, making, removing, moving below the scratch folder); the run is then repeated from the same '
        'start and at a drawn call either its process is killed (nothing buffered is written) or the call fails with an '
        'error (disk full, input/output error, no access). After a kill: the input is as it was, and the same call made again gives the '
        'result of an undisturbed run. After a failing call: an error is reported, or the result is that of an undisturbed run; the '
        'input is as it was and the call made again gives that result. Non-trivial: the disturbed run stopped before its end')
ASSUMPTIONS = ['the same call is made again with the same folders', 'dummy.zip holds time stamps: its members are compared',
               'index generation and a machine that loses written data are not covered']
QUICK_SECONDS = 40

BASES = ['C803', 'C803', 'CE803', 'P802', 'P803', 'R803', 'apam']
STATE = dict(mode=None)
EVENTS = {'open', 'os.mkdir', 'os.remove', 'os.rename', 'os.rmdir', 'os.listdir', 'os.scandir', 'shutil.rmtree', 'shutil.copyfile',
          'shutil.move', 'shutil.unpack_archive', 'os.truncate', 'tempfile.mkstemp', 'tempfile.mkdtemp', 'shutil.copytree'}


def hook(event, args):
    mode = STATE['mode']
    if mode is None or event not in EVENTS:
        return
    path = args[0] if args else None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if not isinstance(path, (str, os.PathLike)) or not os.path.abspath(path).startswith(STATE['root']):
        return
    STATE['count'] += 1
    if STATE['count'] != STATE['at']:
        return
    STATE['hit'] = (event, str(path))
    if mode == 'kill':
        os.kill(os.getpid(), signal.SIGKILL)
    if mode == 'fail':
        raise OSError(STATE['errno'], os.strerror(STATE['errno']), str(path))


def watch():
    if not STATE.get('hooked'):
        STATE['hooked'] = True
        sys.addaudithook(hook)


@contextlib.contextmanager
def watched(mode, root, at=0, number=errno.EIO):
    watch()
    STATE.update(mode=mode, root=root, at=at, count=0, hit=None, errno=number)
    try:
        yield STATE
    finally:
        STATE['mode'] = None


def killed(fn, root, at):
    """Runs fn in a process of its own that is killed at the given call. -> True if it was"""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_RDWR)
            for n in (0, 1, 2):
                os.dup2(null, n)
            with watched('kill', root, at):
                fn()
        finally:
            os._exit(0)
    _, status = os.waitpid(pid, 0)
    return os.WIFSIGNALED(status)


def PARTS(rec):
    from v8unpack.v8unpack import extract, build
    import tempfile

    def sources(path):
        return unzip({n: d for n, d in products.comparable_sources(path).items()})

    def check(case):
        p = synth.apply(case['product'])
        later = synth.apply(dict(base=case['product']['base'], keep=case['product']['keep'], ops=list(case['product']['ops']) + list(case['later'])))
        op = case['op']
        options = dict(auto_include=True) if case['auto'] and 'version' not in op else {}
        with workdir() as w:
            start, systmp = f'{w}/start', f'{w}/systmp'
            os.makedirs(f'{start}/in')
            os.makedirs(systmp)
            for n, x in (('a', p), ('b', later)):
                with open(f'{start}/in/{n}.bin', 'wb') as f:
                    f.write(x.bytes())
            index = None
            if case['index']:
                with cut('extract'):
                    extract(f'{start}/in/a.bin', f'{w}/plain', temp_dir=f'{w}/t', processes=1, options=dict(options))
                files = sorted(n for n in read_tree(f'{w}/plain') if n.endswith(('.json', '.bsl')) and n.count('/') >= 2 and not is_area(n))
                index = make_index(files, case['index'], None)[0]
                with open(f'{start}/in/i.json', 'w', encoding='utf-8') as f:
                    json.dump(index, f, ensure_ascii=False)
            place = 'd/l2/src'

            def call(base, name, how, descent=None):
                o = dict(options) if descent is None else dict(descent=descent)
                kw = dict(temp_dir=f'{base}/t' if case['temp'] else None, processes=1, options=o, index=f'{base}/in/i.json' if index else None)
                if how == 'extract':
                    extract(f'{base}/in/{name}.bin', f'{base}/{place}', **kw)
                else:
                    build(f'{base}/{place}', f'{base}/o/out.bin', **kw)

            if op == 'extract':
                def run(base):
                    call(base, 'a', 'extract')
            elif op == 'build':
                def run(base):
                    call(base, 'a', 'build')
                with cut('extract'):
                    call(start, 'a', 'extract')
            elif op == 'extract version':
                def run(base):
                    call(base, 'b', 'extract', 3000112)
                with cut('extract the first version'):
                    call(start, 'a', 'extract', 2005006)
            else:
                def run(base):
                    call(base, 'a', 'build', 2006000)
                with cut('extract versions'):
                    call(start, 'a', 'extract', 2005006)
                    call(start, 'b', 'extract', 3000112)
            if case['full'] and op == 'extract':  # the output holds an earlier result
                with cut('extract'):
                    call(start, 'b', 'extract')
            shutil.rmtree(f'{start}/t', ignore_errors=True)

            def result(base):
                if 'build' in op:
                    with open(f'{base}/o/out.bin', 'rb') as f:
                        return products.unpack(f.read())
                return sources(f'{base}/d')

            def differ(a, b):
                if 'build' in op:
                    return same_product(a, b)
                return diff_trees(a, b, limit=3, names=('undisturbed', 'repeated'))

            before = tempfile.tempdir
            tempfile.tempdir = systmp
            try:
                shutil.copytree(start, f'{w}/ref')
                with watched('count', w) as s, cut('undisturbed run'), quiet(), any_order(case['seed']):
                    run(f'{w}/ref')
                total = s['count']
                want = result(f'{w}/ref')
                inputs = {n: d for n, d in read_tree(start).items() if n.startswith('in/') or 'build' in op}
                at = 1 + case['at'] % total
                base = f'{w}/run'
                shutil.copytree(start, base)
                label = f'{op} {"with" if index else "without"} index, call {at} of {total}'
                stopped = True
                error = None
                if case['fault'] == 0:
                    def child():
                        with quiet(), any_order(case['seed']):
                            run(base)
                    stopped = killed(child, w, at)
                    label += ' (killed)'
                else:
                    number = [errno.EIO, errno.ENOSPC, errno.EACCES][case['fault'] - 1]
                    with watched('fail', w, at, number) as s:
                        try:
                            with quiet(), any_order(case['seed']):
                                run(base)
                        except Exception as e:
                            error = e
                    label += f' ({errno.errorcode[number]} in {s["hit"]})'
                    if error is None:
                        stopped = False
                        d = differ(want, result(base))
                        require(not d, lambda: f'{label}: no error, and another result: {d}')
                have = {n: d for n, d in read_tree(base).items() if n.startswith('in/') or 'build' in op and not n.startswith(('o/', 't/'))}
                d = diff_trees(inputs, have, limit=3, names=('before', 'after'))
                require(not d, lambda: f'{label}: the input changed: {d}')
                with cut(f'{label}, repeated'), quiet(), any_order(case['seed'] and case['seed'] + 1):
                    run(base)
                d = differ(want, result(base))
                require(not d, lambda: f'{label}: the call made again gives another result: {d}')
            finally:
                tempfile.tempdir = before
        rec.case(case, stopped, f'{case["product"]["base"]}: {label}',
                 tags=[op, 'killed' if case['fault'] == 0 else 'error reported' if error is not None else 'no error'] + (['index'] if index else []))

    return dict(check=check)


def run(rec):
    parts = PARTS(rec)
    num = st.integers(0, 1 << 30)
    run_property(rec, 'check', st.fixed_dictionaries(dict(
        product=synth.cases(bases=BASES, max_ops=3, max_keep=4), later=synth.cases(bases=BASES, max_ops=4, max_keep=1).map(lambda c: c['ops']),
        op=st.sampled_from(['extract', 'build', 'extract version', 'extract version', 'build version']), auto=st.booleans(), full=st.booleans(),
        index=st.one_of(st.none(), st.none(), st.lists(num, min_size=3, max_size=20)), temp=st.booleans(), at=num, fault=st.sampled_from([0, 0, 1, 2, 3]),
        seed=st.integers(0, 99))), parts['check'], 2400, 40000, share=rec.budget * 0.95)
