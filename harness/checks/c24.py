"""C24: failures surface: no wrong product and no success code after an error."""
import contextlib
import copy
import errno
import json
import os
import random
import resource
import shutil
import subprocess
import sys
import time

from hypothesis import strategies as st

from harness import core, gen, products, refbrace as rb, refcontainer as rc, synth
from harness.checks.c08 import real_pool, same_product
from harness.core import Violation, cut, diff_trees, quiet, read_tree, require, run_cases, run_property, workdir, write_tree

LEVEL = 'fault_enumeration'
RULE = ('cut: product files (made as for C07, several legal layouts) cut at any byte, preferably near block borders. damage: '
        'block headers, directory entries, compressed streams, nested containers and bracket texts of members damaged, '
        'members of listed objects removed. Both: extraction raises or gives the sources of the whole file. sources: a json '
        'file of the sources cut short or overwritten with something that is not json: the build raises. fault: a call on a '
        'file or folder (open, copy, rename, make, list) chosen from all those of an extraction or build fails with EIO, '
        'ENOSPC or EACCES, once or always: the operation raises or gives the result of a run without fault; with a limit on the size of '
        'files below a file written by a run without limit (full disk) it raises. workers: the same kinds of failure with 1 to 6 real '
        'processes, must raise and return. cli: every command of the command line with good and bad input, in this process and as a '
        'process: returns success without an error text, or prints the error and returns 1. Non-trivial: the operation raised')
ASSUMPTIONS = ['a file missing from the sources is not part of the product: the tool finds the parts of an object by the files present',
               'a file cut exactly between its two containers is a complete product with one container (the stub of the platform)',
               'a folder of an object without its json files is not an object (skipped by design)',
               'changed bytes inside compressed data that still decompress cannot be told from data: raw deflate has no checksum',
               'a worker process that is killed is outside of the property (exceptions are inside)']
QUICK_SECONDS = 60

BASES = ['C803', 'C803', 'CE803', 'P802', 'P803', 'R803', 'apam']


def attempt(fn):
    """-> exception or None; output swallowed."""
    try:
        with quiet():
            fn()
    except Exception as err:
        return err
    return None


def check_error(err, what):
    require(str(err).strip(), lambda: f'{what}: the error has no text: {err!r}')


def streams(p):
    """Product -> containers as lists of (name, stored bytes)."""
    res = []
    for files in p.finish():
        items = []
        for name in sorted(files):
            data = files[name]
            if isinstance(data, dict):
                data = rc.write(sorted(data.items()), rc.L32)
            items.append([name, products.deflate(data)])
        res.append(items)
    return res


def layout(containers, seed):
    out = b''
    for i, items in enumerate(containers):
        choose = gen.RngChooser(seed * 7 + i) if seed else (lambda n: 0)
        out += rc.write([tuple(x) for x in items], rc.L64 if i else rc.L32, choose=choose)
    return out


def blocks(data):
    """Offsets of all block headers of all containers of the file: (offset, layout, start of the container, kind, member)."""
    res = []
    pos = 0
    while pos < len(data):
        lay = rc.detect(data[pos:pos + 8])
        files, end, head = rc.read(data[pos:], lay)
        body = data[pos:]

        def chain(off, kind, member):
            while off != lay.end:
                size, block, nxt, start = rc._block(lay, body, off)
                res.append((pos + off, lay, pos, kind, member))
                if nxt == off:
                    break
                off = nxt
                kind = kind.split('+')[0] + '+'

        used = []
        toc = rc.read_doc(lay, body, lay.header_size, used)
        chain(lay.header_size, 'toc', None)
        import struct
        for k, (attr, at, mark) in enumerate(struct.iter_unpack(lay.idx, toc)):
            chain(attr, 'attr', k)
            chain(at, 'data', k)
        pos += end
    return res


def complete(data, n):
    """True when the first n bytes hold all data of some, not all, of the containers: a complete product by itself."""
    pos = 0
    while pos < n:
        files, end, head = rc.read(data[pos:], rc.detect(data[pos:pos + 8]))
        if n <= pos + end:
            if pos + end == len(data):
                return False
            try:
                return rc.read(data[pos:n] + b'\0' * (pos + end - n))[0] == files
            except Exception:
                return False
        pos += end
    return False


@contextlib.contextmanager
def failing(root, at=None, err=errno.EIO, always=False):
    """Counts (at is None) or fails the calls that touch files below root. Yields the list of (function, path, mode)."""
    import builtins
    log = []
    real = dict(open=builtins.open, mkdir=os.mkdir, listdir=os.listdir, rename=os.rename, sleep=time.sleep, remove=os.remove)
    target = [None]

    def hit(name, path, mode=''):
        try:
            text = os.path.abspath(os.fspath(path))
        except TypeError:
            return
        if not text.startswith(root):
            return
        n = len(log)
        key = (name, os.path.relpath(text, root), mode)
        log.append(key)
        if at is not None and (n == at or (always and key == target[0])):
            target[0] = key
            raise OSError(err, os.strerror(err), text)

    def my_open(file, mode='r', *a, **k):
        hit('open', file, mode if isinstance(mode, str) else '')
        return real['open'](file, mode, *a, **k)

    def wrap(name):
        def call(path='.', *a, **k):
            hit(name, path)
            return real[name](path, *a, **k)
        return call

    builtins.open = my_open
    os.mkdir, os.listdir, os.rename, os.remove = wrap('mkdir'), wrap('listdir'), wrap('rename'), wrap('remove')
    time.sleep = lambda s: None
    try:
        yield log
    finally:
        builtins.open = real['open']
        os.mkdir, os.listdir, os.rename, os.remove, time.sleep = (real[x] for x in ('mkdir', 'listdir', 'rename', 'remove', 'sleep'))


@contextlib.contextmanager
def file_limit(size):
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (size, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


def bad_json(raw, spec):
    """Bytes that are not json, made from raw."""
    how, k = spec
    text = raw.decode('utf-8-sig')
    if how == 'cut':
        body = text.rstrip()
        return body[:k % max(1, len(body) - 1)].encode()
    if how == 'insert':
        k %= len(text)
        return (text[:k] + '\x01' + text[k:]).encode()  # a control character is allowed nowhere in json
    if how == 'bytes':
        k %= len(raw)
        return raw[:k] + b'\xff\xfe' + raw[k:]
    if how == 'empty':
        return b''
    return b'<<<<<<< HEAD\n' + raw + b'=======\n'


def PARTS(rec):
    from v8unpack import v8unpack as mod
    from v8unpack.v8unpack import extract, build

    def extraction(w, data, name='x', processes=1):
        """-> (error or None, sources)"""
        with open(f'{w}/{name}.bin', 'wb') as f:
            f.write(data)
        err = attempt(lambda: extract(f'{w}/{name}.bin', f'{w}/{name}/out', temp_dir=f'{w}/t', processes=processes))
        return err, (products.comparable_sources(f'{w}/{name}') if err is None else None)

    def good(w, data):
        err, tree = extraction(w, data, 'good')
        if err is not None:
            raise Violation(f'the undamaged product is refused: {str(err)[:600]}')
        return tree

    def judge(w, data, tree, what):
        """-> True when refused"""
        err, got = extraction(w, data, 'bad')
        if err is None:
            d = diff_trees(tree, got, limit=3, names=('whole product', 'damaged product'))
            require(not d, lambda: f'{what} is accepted and gives other sources: {d}')
            return False
        check_error(err, what)
        return True

    def cut_(case):
        p = synth.apply(case['product'])
        data = layout(streams(p), case['layout'])
        marks = sorted({b[0] for b in blocks(data)} | {0, len(data)})
        heads = sorted({b[2] for b in blocks(data)}, reverse=True)
        with workdir() as w:
            tree = good(w, data)
            refused = 0
            for kind, k in case['cuts']:
                if kind == 'any':
                    n = k % len(data)
                elif kind == 'tail':  # inside the last block, which may be any block of any chain
                    n = len(data) - 1 - k % 100
                elif kind == 'head':  # inside the header of a container
                    n = heads[k % 7 % len(heads)] + k // 7 % 40
                else:
                    n = marks[k % len(marks)] + (k // len(marks)) % 90 - 30
                    n = min(max(n, 0), len(data) - 1)
                if complete(data, n):
                    continue
                refused += judge(w, data[:n], tree, f'a product of {len(data)} bytes cut after {n}')
        rec.case(case, refused > 0, f'{case["product"]["base"]} {len(data)} bytes, layout {case["layout"]}, {len(case["cuts"])} cuts, {refused} refused',
                 tags=['refused' if refused else 'same'])

    def damage(case):
        p = synth.apply(case['product'])
        kind, a, b, c = case['how']
        must = False
        st_ = streams(p)
        main = len(st_) - 1
        objs = [o for o in p.objects() if not o.internal and o.uid in p.containers[main]]
        whole = layout(st_, case['layout'])
        what = None
        if kind in ('text', 'nested', 'stream', 'drop'):
            items = st_[main]
            if kind == 'drop':
                if not objs:
                    return
                o = objs[a % len(objs)]
                items[:] = [x for x in items if x[0] != o.uid]
                what, must = f'a product without the member {o.kind} {o.uid}', True
            elif kind == 'stream':
                it = items[a % len(items)]
                it[1] = it[1][:1 + b % max(1, len(it[1]) - 1)]
                what = f'a member {it[0]} with its stream cut to {len(it[1])}'
            elif kind == 'text':
                used = [x for x in items if isinstance(p.containers[main][x[0]], bytes) and p.containers[main][x[0]].lstrip(b'\xef\xbb\xbf')[:1] == b'{'
                        and ('.' not in x[0]) and x[0] != 'versions']  # names with a dot are payloads, carried as they are
                if not used:
                    return
                it = used[a % len(used)]
                text = p.containers[main][it[0]].rstrip()
                if c % 3 == 0:  # only closing brackets are missing
                    n = len(text)
                    for _ in range(1 + b % 4):
                        n = max(4, text.rfind(b'}', 0, n))
                else:
                    n = 4 + b % (len(text) - 4)  # a text of no characters is an empty file, not a cut one
                it[1] = products.deflate(text[:n])
                what = f'a member {it[0]} with its text cut to {n} of {len(text)}: ...{text[max(0, n - 40):n]!r}'
            else:
                used = [x for x in items if isinstance(p.containers[main][x[0]], dict)]
                if not used:
                    return
                it = used[a % len(used)]
                inner = rc.write(sorted(p.containers[main][it[0]].items()), rc.L32)
                n = 4 + b % (len(inner) - 4)
                it[1] = products.deflate(inner[:n])
                what = f'a member {it[0]} with its container cut to {n} of {len(inner)}'
            data = layout(st_, case['layout'])
        else:
            data = bytearray(whole)
            bl = blocks(whole)
            if kind == 'size':
                off, lay, pos, where, member = [x for x in bl if '+' not in x[3]][a % len([x for x in bl if '+' not in x[3]])]
                old = int(whole[off + 2:off + 2 + lay.digits], 16)
                new = old + 1 + b % 5000 if where != 'data' or c % 2 else max(1, old - 1 - b % max(1, old - 1))
                if where == 'attr':
                    return  # the size of a descriptor decides the name of the member only
                data[off + 2:off + 2 + lay.digits] = (f'%0{lay.digits}x' % new).encode()
                what = f'the size in the block header of {where} {member} changed from {old} to {new}'
            elif kind == 'next':
                off, lay, pos, where, member = bl[a % len(bl)]
                q = off + 4 + 2 * lay.digits
                old = int(whole[q:q + lay.digits], 16)
                new = (lay.end, len(whole) + 1 + b % 9000)[c % 2]
                data[q:q + lay.digits] = (f'%0{lay.digits}x' % new).encode()
                if where.startswith('attr'):
                    return
                what = f'the next block of {where} {member} changed from {old:x} to {new:x}'
            elif kind == 'entry':
                import struct
                tocs = [x for x in bl if x[3] == 'toc']
                off, lay, pos, where, member = tocs[a % len(tocs)]
                start = off + lay.block_header_size
                room = int(whole[off + 3 + lay.digits:off + 3 + 2 * lay.digits], 16)
                size = int(whole[off + 2:off + 2 + lay.digits], 16)
                count = min(room, size) // lay.idx_size
                if not count:
                    return
                q = start + (b % count) * lay.idx_size + (c % 2) * (lay.idx_size // 3)
                new = len(whole) + 1 + c % 5000
                data[q:q + lay.idx_size // 3] = struct.pack('<i' if lay.bits == 32 else '<Q', new)
                what = f'the directory entry {b % count} points outside of the file'
            else:  # 'char'
                off, lay, pos, where, member = bl[a % len(bl)]
                q = off + b % lay.block_header_size
                data[q] = (0, 0x20, 0x7a, 0xff)[c % 4]
                if where.startswith('attr') and 2 <= q - off < 2 + lay.digits:
                    return
                if data[q] == whole[q]:
                    return
                if where.startswith('toc') and 2 <= q - off:  # blanks can make another number
                    if data[q] == 0x20:
                        return
                what = f'byte {q - off} of the block header of {where} {member} changed to {data[q]:#x}'
            data = bytes(data)
        with workdir() as w:
            tree = good(w, whole)
            refused = judge(w, data, tree, what)
            require(refused or not must, lambda: f'{what} is accepted')
        rec.case(case, refused, f'{case["product"]["base"]}: {what} -> {"refused" if refused else "same"}',
                 tags=[kind, 'refused' if refused else 'same'])

    cache = {}

    def sources(case):
        """a json file that is not json"""
        p = synth.apply(case['product'])
        with workdir() as w:
            tree = good(w, p.bytes())
            src = f'{w}/good/out'
            files = sorted(n for n in read_tree(src) if n.endswith('.json'))
            refused = 0
            for k, spec in case['bad']:
                name = files[k % len(files)]
                with open(f'{src}/{name}', 'rb') as f:
                    raw = f.read()
                with open(f'{src}/{name}', 'wb') as f:
                    f.write(bad_json(raw, spec))
                err = attempt(lambda: build(src, f'{w}/o.bin', temp_dir=f'{w}/t', processes=1,
                                            options=dict(auto_include=True) if case['auto'] else None))
                require(err is not None, lambda: f'sources with {name} that is not json ({spec[0]}) are built')
                check_error(err, f'build with a bad {name}')
                base = name.rsplit('/', 1)[-1]
                require(base in str(err) or name.split('/')[0] in str(err), lambda: f'the error about {name} does not name it: {str(err)[:400]}')
                refused += 1
                with open(f'{src}/{name}', 'wb') as f:
                    f.write(raw)
        rec.case(case, refused > 0, f'{case["product"]["base"]}: {refused} bad files refused', tags=[s[0] for k, s in case['bad']])

    def fault(case):
        p = synth.apply(case['product'])
        with workdir() as w:
            data = p.bytes()
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(data)

            def ext():
                extract(f'{w}/in.bin', f'{w}/x/out', temp_dir=f'{w}/t', processes=1)

            def bld():
                build(f'{w}/x/out', f'{w}/out.bin', temp_dir=f'{w}/t', processes=1)

            raised = 0
            shown = []
            for what, run_ in (('extract', ext), ('build', bld)):
                if what == 'build':
                    with cut('extract'):
                        ext()
                with failing(w) as log:
                    with cut(what):
                        run_()
                log = list(log)
                sizes = sorted({os.path.getsize(os.path.join(r, n)) for r, d, f in os.walk(f'{w}/t') for n in f}
                               | ({os.path.getsize(os.path.join(r, n)) for r, d, f in os.walk(f'{w}/x') for n in f} if what == 'extract'
                                  else {os.path.getsize(f'{w}/out.bin')}))
                reference = products.comparable_sources(f'{w}/x') if what == 'extract' else products.unpack(open(f'{w}/out.bin', 'rb').read())
                for k, e, always in case['faults']:
                    n = k % len(log)
                    shutil.rmtree(f'{w}/t', True)
                    if what == 'extract':
                        shutil.rmtree(f'{w}/x', True)
                    elif os.path.exists(f'{w}/out.bin'):
                        os.remove(f'{w}/out.bin')
                    with failing(w, n, e, always):
                        err = attempt(run_)
                    label = f'{what}: call {n} {log[n]} fails with {errno.errorcode[e]}{" always" if always else ""}'
                    if err is None:
                        if what == 'extract':
                            d = diff_trees(reference, products.comparable_sources(f'{w}/x'), limit=3)
                        else:
                            require(os.path.exists(f'{w}/out.bin'), lambda: f'{label}: no error and no product')
                            d = same_product(reference, products.unpack(open(f'{w}/out.bin', 'rb').read()))
                        require(not d, lambda: f'{label}: no error, other result: {d}')
                    else:
                        check_error(err, label)
                        raised += 1
                    shown.append(log[n][0])
                for k in case['full']:
                    size = sizes[k % len(sizes)]
                    if size < 2:
                        continue
                    with file_limit(size - 1 - (k // len(sizes)) % min(size - 1, 40)):
                        err = attempt(run_)
                    require(err is not None, lambda: f'{what} with files limited below {size} bytes (a file of that size is written): no error')
                    check_error(err, f'{what} on a full disk')
                    raised += 1
                if what == 'extract':
                    shutil.rmtree(f'{w}/x', True)
        rec.case(case, raised > 0, f'{case["product"]["base"]}: {raised} raised of {2 * (len(case["faults"]) + len(case["full"]))}, {shown[:4]}',
                 tags=sorted(set(shown)))

    def workers(case):
        """the same with real processes"""
        import signal
        p = synth.apply(case['product'])
        with workdir() as w:
            data = p.bytes()
            good(w, data)

            def late(*a):
                raise TimeoutError('no answer in 60 seconds')

            old = signal.signal(signal.SIGALRM, late)
            try:
                with real_pool():
                    signal.alarm(60)
                    if case['how'] == 'input':
                        st_ = streams(p)
                        items = st_[-1]
                        it = max(items, key=lambda x: (len(x[1]), x[0])) if case['k'] % 2 else items[case['k'] % len(items)]
                        it[1] = it[1][:max(1, len(it[1]) // 2)]
                        with open(f'{w}/bad.bin', 'wb') as f:
                            f.write(layout(st_, 0))
                        err = attempt(lambda: extract(f'{w}/bad.bin', f'{w}/bad/out', temp_dir=f'{w}/t', processes=case['processes']))
                    elif case['how'] == 'full':
                        size = max(os.path.getsize(os.path.join(r, n)) for r, d, f in os.walk(f'{w}/good/out') for n in f)
                        with file_limit(size - 1):
                            err = attempt(lambda: extract(f'{w}/good.bin', f'{w}/bad/out', temp_dir=f'{w}/t', processes=case['processes']))
                    else:
                        files = sorted(n for n in read_tree(f'{w}/good/out') if n.endswith('.json'))
                        name = files[case['k'] % len(files)]
                        with open(f'{w}/good/out/{name}', 'r+b') as f:
                            f.truncate(max(1, os.path.getsize(f'{w}/good/out/{name}') // 2))
                        err = attempt(lambda: build(f'{w}/good/out', f'{w}/o.bin', temp_dir=f'{w}/t', processes=case['processes']))
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            require(err is not None, lambda: f'{case["how"]} with {case["processes"]} processes: no error')
            require('no answer in 60' not in str(err), lambda: f'{case["how"]} with {case["processes"]} processes: hangs')
            check_error(err, case['how'])
        rec.case(case, True, f'{case["product"]["base"]} {case["how"]} {case["processes"]} processes: {str(err)[:80]!r}', tags=[case['how']])

    def cli(case):
        p = synth.apply(case['product'])
        cmd, bad, own = case['command'], case['bad'], case['process']
        with workdir() as w:
            good(w, p.bytes())
            out = f'{w}/r/out'
            src, binary = f'{w}/good/out', f'{w}/good.bin'
            listing = {'a': dict(src=src if cmd in ('BA', 'IA') else f'{w}/la/out', bin=f'{w}/la.bin' if cmd == 'BA' else binary, temp=f'{w}/t'),
                       'b': dict(src=src if cmd in ('BA', 'IA') else f'{w}/lb/out', bin=f'{w}/lb.bin' if cmd == 'BA' else binary, temp=f'{w}/t'),
                       'c': dict(src=f'{w}/absent', bin=f'{w}/absent.bin', temp=f'{w}/t', disable=True)}
            index = None
            if bad == 'input':
                with open(f'{w}/bad.bin', 'wb') as f:
                    f.write(p.bytes()[:700])
                binary = f'{w}/bad.bin'
                listing['b']['bin' if cmd == 'EA' else 'src'] = binary if cmd == 'EA' else f'{w}/absent'
                if cmd in ('B', 'I'):
                    src = f'{w}/absent'
            elif bad == 'index':
                with open(f'{w}/i.json', 'w') as f:
                    f.write('{"a": ')
                index = f'{w}/i.json'
                listing['b']['index'] = index
            elif bad == 'absent':
                binary, src = f'{w}/absent.bin', f'{w}/absent'
                listing['a'].update({'bin': binary} if cmd == 'EA' else {'src': src})
            with open(f'{w}/p.json', 'w', encoding='utf-8') as f:
                f.write(json.dumps(listing) if not (bad == 'list') else json.dumps(listing)[:-5])
            if cmd == 'E':
                args = ['-E', binary, out, '--temp', f'{w}/t']
            elif cmd == 'B':
                args = ['-B', src, f'{w}/r.bin', '--temp', f'{w}/t']
            elif cmd == 'I':
                args = ['-I', src]
                index = index or f'{w}/i.json'
            else:
                args = [f'-{cmd}', f'{w}/p.json' if bad != 'code' else f'{w}/p.json']
                if bad == 'code':
                    args += ['--index', 'nobody']
                elif case['one']:
                    args += ['--index', 'b' if bad in ('input', 'index') else 'a']
            if cmd in ('E', 'B', 'I') and index:
                args += ['--index', index]
            if bad in ('list', 'code') and cmd in ('E', 'B', 'I'):
                return
            if cmd == 'IA' and bad == 'index' or cmd == 'IA' and case['one'] and bad == 'index':
                pass
            if cmd == 'IA':
                for v in listing.values():
                    v.setdefault('index', f'{w}/gen.json')
                if bad != 'list':
                    with open(f'{w}/p.json', 'w', encoding='utf-8') as f:
                        f.write(json.dumps(listing))
            os.makedirs(f'{w}/cwd', exist_ok=True)
            if own:
                r = subprocess.run([sys.executable, '-m', 'v8unpack', *args], cwd=f'{w}/cwd', capture_output=True, timeout=120,
                                   env=dict(os.environ, PYTHONPATH=core.SRC + os.pathsep + os.pathsep.join(x for x in sys.path if 'site-packages' in x), PYTHONIOENCODING='utf-8',
                                            PYTHONDONTWRITEBYTECODE='1'))
                code, text = r.returncode, r.stdout.decode('utf-8', 'replace')
                more = r.stderr.decode('utf-8', 'replace')[-300:]
            else:
                argv = sys.argv
                sys.argv = ['v8unpack', *args]
                os.chdir(f'{w}/cwd')
                more = ''
                try:
                    with quiet() as o:
                        code = mod.main()
                except (Exception, SystemExit) as err:
                    raise Violation(f'{cmd} {bad}: main raises {type(err).__name__} {str(err)[:300]}')
                finally:
                    sys.argv = argv
                text = o.getvalue()
            label = f'v8unpack {" ".join(args[:1] + args[3:])} with {bad or "good"} input'
            if bad:
                require(code == 1, lambda: f'{label}: returns {code!r}: {text[-300:]} {more}')
                require('Ошибка' in text, lambda: f'{label}: no error text: {text[-300:]} {more}')
            else:
                require(not code, lambda: f'{label}: returns {code!r}: {text[-300:]} {more}')
                require('Ошибка' not in text, lambda: f'{label}: prints an error: {text[-300:]}')
                if cmd in ('E', 'EA'):
                    want = products.comparable_sources(f'{w}/good')
                    for d in (['r'] if cmd == 'E' else ['la'] if case['one'] else ['la', 'lb']):
                        require(os.path.isdir(f'{w}/{d}/out'), lambda: f'{label}: success, nothing extracted')
                        diff = diff_trees(want, products.comparable_sources(f'{w}/{d}'), limit=3)
                        require(not diff, lambda: f'{label}: other sources than the call: {diff}')
                elif cmd in ('B', 'BA'):
                    for d in (['r'] if cmd == 'B' else ['la'] if case['one'] else ['la', 'lb']):
                        require(os.path.isfile(f'{w}/{d}.bin'), lambda: f'{label}: success, no product')
                else:
                    require(os.path.isfile(f'{w}/i.json' if cmd == 'I' else f'{w}/gen.json'), lambda: f'{label}: success, no index')
                    if cmd == 'I':
                        with open(f'{w}/i.json', encoding='utf-8') as f:
                            require(isinstance(json.load(f), dict), lambda: f'{label}: the index is no dictionary')
        rec.case(case, bool(bad), f'{label}{" (process)" if own else ""}: {code!r}', tags=[cmd, bad or 'good'])

    return dict(cut=cut_, damage=damage, sources=sources, fault=fault, workers=workers, cli=cli)


def run(rec):
    parts = PARTS(rec)
    small = synth.cases(bases=BASES, max_ops=2, max_keep=2)
    num = st.integers(0, 1 << 24)
    b = rec.budget
    run_property(rec, 'cut', st.fixed_dictionaries(dict(product=small, layout=st.integers(0, 1 << 16), cuts=st.lists(
        st.tuples(st.sampled_from(['any', 'border', 'border', 'head', 'tail', 'tail']), num), min_size=1, max_size=6))), parts['cut'], 700, 20000, share=b * 0.2)
    run_property(rec, 'damage', st.fixed_dictionaries(dict(product=small, layout=st.integers(0, 1 << 16), how=st.tuples(
        st.sampled_from(['text', 'nested', 'stream', 'drop', 'size', 'next', 'entry', 'char']), num, num, num))), parts['damage'], 1400, 40000, share=b * 0.25)
    run_property(rec, 'sources', st.fixed_dictionaries(dict(product=small, auto=st.booleans(), bad=st.lists(
        st.tuples(num, st.tuples(st.sampled_from(['cut', 'cut', 'insert', 'bytes', 'empty', 'conflict']), num)), min_size=1, max_size=5))),
        parts['sources'], 500, 15000, share=b * 0.15)
    run_property(rec, 'fault', st.fixed_dictionaries(dict(product=small, faults=st.lists(st.tuples(
        num, st.sampled_from([errno.EIO, errno.ENOSPC, errno.EACCES]), st.booleans()), min_size=1, max_size=4),
        full=st.lists(num, max_size=2))), parts['fault'], 400, 12000, share=b * 0.2)
    run_property(rec, 'cli', st.fixed_dictionaries(dict(product=small, command=st.sampled_from(['E', 'B', 'I', 'EA', 'BA', 'IA']),
                                                        bad=st.sampled_from([None, None, 'input', 'index', 'absent', 'list', 'code']),
                                                        one=st.booleans(), process=st.sampled_from([False] * 5 + [True]))),
                 parts['cli'], 300, 6000, share=b * 0.12)
    run_property(rec, 'workers', st.fixed_dictionaries(dict(product=small, how=st.sampled_from(['input', 'full', 'source']),
                                                            k=num, processes=st.integers(1, 6))), parts['workers'], 24, 600, share=b * 0.08)
