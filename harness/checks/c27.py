"""C27: an error tells which object or file it arose in."""
import json
import os
import random

from hypothesis import strategies as st

from harness import products, refcontainer as rc, synth
from harness.checks.c08 import real_pool
from harness.checks.c24 import attempt, bad_json, layout, streams
from harness.checks.c26 import cli, folder
from harness.core import SCHEDULE, cut, quiet, read_tree, require, run_property, workdir

LEVEL = 'exploration'
RULE = ('input: one member of a generated product is damaged (its text, its compressed stream or its nested container cut, or the member '
        'of a listed object taken away); sources: one file or folder of the sources of a generated product is made impossible to build (json '
        'cut, overwritten or with a part of the tree missing, a module that is no text, a shared area or its file missing, an '
        'element without data, a folder of an unknown kind, a missing object that the table of contents lists). When extraction or build '
        'refuses, the text of the error (of a call in one process in any order of tasks, of a call with several real processes, and what the command '
        'line prints) names the object by identifier, or by kind and name, or names the file. Non-trivial: refused')
ASSUMPTIONS = ['what is accepted instead of refused is the matter of C24']
QUICK_SECONDS = 45

BASES = ['C803', 'C803', 'CE803', 'P802', 'P803', 'R803', 'apam']


def run_it(how, func, args, w, processes):
    """-> text of the error or None"""
    if how == 'cli':
        with folder(w), quiet() as o:
            code = cli(args)
        text = o.getvalue()
        if not code:
            return None
        k = text.rfind('Ошибка: ')
        require(k >= 0, lambda: f'{args}: returns {code} without an error text: {text[-300:]}')
        return text[k:]
    if how == 'pool':
        with real_pool():
            err = attempt(lambda: func(processes))
    else:
        err = attempt(lambda: func(1))
    return None if err is None else str(err)


def owners(p):
    """uuid -> object"""
    return {o.uid: o for o in p.objects()}


def tokens_of(p, o):
    name = p.record(o)[2][1:-1]
    return [o.uid, f'{o.kind}/{name}', f'{o.kind} {name}']


def damage_sources(src, tree, kind, a, b):
    """Changes one thing in the sources. -> (what, names that tell the place) or None"""
    def put(n, data):
        os.makedirs(os.path.dirname(f'{src}/{n}'), exist_ok=True)
        with open(f'{src}/{n}', 'wb') as f:
            f.write(data)

    def place(n):
        parts = n.split('/')
        if len(parts) < 3:
            return [parts[-1]]
        return ['/'.join(parts[-3:-1]), ' '.join(parts[-3:-1]), parts[-1]][:2 if tree_names.count(parts[-1]) > 1 else 3]

    def around(n):
        """A command is put into its owner: an error may name just that."""
        parts = n.split('/')
        return place(n)[:2] + (['/'.join(parts[-5:-3]), ' '.join(parts[-5:-3])] if parts[-3].endswith('Command') and len(parts) > 4 else [])

    tree_names = [n.rsplit('/', 1)[-1] for n in tree]
    jsons = sorted(n for n in tree if n.endswith('.json'))
    elems = [n for n in jsons if n.endswith('.elem.json')]
    mods = sorted(n for n in tree if n.endswith('.bsl'))
    if kind == 'json':
        n = jsons[a % len(jsons)]
        how = ['cut', 'insert', 'bytes', 'empty', 'conflict'][b % 5]
        put(n, bad_json(tree[n], (how, b // 5)))
        return f'{n} is not json ({how})', place(n)
    if kind == 'part':
        heads = [n for n in jsons if n.count('/') >= 2 and n not in elems and isinstance(json.loads(tree[n].decode('utf-8-sig')), dict)]
        if not heads:
            return None
        n = heads[a % len(heads)]
        d = json.loads(tree[n].decode('utf-8-sig'))
        k = sorted(d)[b % len(d)]
        if b // len(d) % 2:
            del d[k]
        else:
            d[k] = [] if isinstance(d[k], list) else {}
        put(n, json.dumps(d, ensure_ascii=False).encode())
        return f'{n} without {k}', around(n)
    if kind in ('text', 'area'):
        if not mods:
            return None
        n = mods[a % len(mods)]
        if kind == 'text':
            k = b % (len(tree[n]) + 1)
            data = tree[n][:k] + b'\xff' + tree[n][k:]
            put(n, data)
            return f'{n} is not a text', place(n)
        put(n, tree[n] + '\n#Область include_нет_такого\n#КонецОбласти\n'.encode())
        return f'the area "нет_такого" of {n} has no file', place(n) + ['нет_такого', 'такого.bsl']
    if kind in ('element', 'element area', 'no property'):
        if not elems:
            return None
        n = elems[a % len(elems)]
        d = json.loads(tree[n].decode('utf-8-sig'))
        if kind == 'element':
            if not d['data']:
                return None
            k = sorted(d['data'])[b % len(d['data'])]
            del d['data'][k]
            put(n, json.dumps(d, ensure_ascii=False).encode())
            return f'{n} without the data of {k}', place(n) + [k]
        if kind == 'no property':
            with_path = sorted(k for k, v in d['data'].items() if isinstance(v, dict) and v.get('ПутьКДанным') and 'include_' in k)
            if not with_path:
                return None
            k = with_path[b % len(with_path)]
            d['data'][k]['ПутьКДанным'] = 'НетТакогоРеквизита'
            put(n, json.dumps(d, ensure_ascii=False).encode())
            return f'{n}: {k} is bound to nothing', place(n) + ['НетТакогоРеквизита']
        if not d['tree']:
            return None
        e = d['tree'][b % len(d['tree'])]
        e['name'] = 'include_нет_такой'
        put(n, json.dumps(d, ensure_ascii=False).encode())
        return f'the element area "нет_такой" of {n} has no file', place(n) + ['нет_такой', 'такой.elem.json']
    if kind == 'folder':
        dirs = sorted({os.path.dirname(n) for n in jsons if n.count('/') in (0, 2)})
        n = dirs[a % len(dirs)]
        put(f'{n}/Неведомое/Х/Неведомое.json'.lstrip('/'), b'{}')
        return f'the folder of an unknown kind in {n or "the root"}', ['Неведомое']
    if kind == 'listed':
        own = [n for n in jsons if n.rsplit('/', 1)[-1].endswith('Command.json') and n.count('/') >= 2]
        if not own:
            return None
        n = own[a % len(own)]
        uid = json.loads(tree[n].decode('utf-8-sig')).get('uuid', '?')
        for m in tree:
            if os.path.dirname(m) == os.path.dirname(n):
                os.remove(f'{src}/{m}')
        return f'{n} is taken away', around(n) + [uid]


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def judge(text, tokens, what):
        if text is None:
            return False
        low = text.replace('\\', '/').lower()
        require(any(t.lower() in low for t in tokens), lambda: f'{what}: the error names none of {tokens}: {text[-900:]}')
        return True

    def input_(case):
        p = synth.apply(case['product'])
        kind, a, b = case['how']
        st_ = streams(p)
        items = st_[-1]
        main = p.containers[-1]
        own = owners(p)
        tokens = None
        if kind == 'drop':
            used = [o for o in p.objects() if not o.internal and o.uid in main]
            if not used:
                return
            o = used[a % len(used)]
            items[:] = [x for x in items if x[0] != o.uid]
            what, tokens = f'a product without {o.kind} {o.uid}', tokens_of(p, o)
        else:
            if kind == 'text':
                used = [x for x in items if isinstance(main[x[0]], bytes) and main[x[0]].lstrip(b'\xef\xbb\xbf')[:1] == b'{']
            elif kind == 'nested':
                used = [x for x in items if isinstance(main[x[0]], dict)]
            else:
                used = items
            if not used:
                return
            it = used[a % len(used)]
            if kind == 'text':
                body = main[it[0]].rstrip()
                it[1] = products.deflate(body[:4 + b % max(1, len(body) - 4)])
            elif kind == 'nested':
                inner = rc.write(sorted(main[it[0]].items()), rc.L32)
                it[1] = products.deflate(inner[:4 + b % (len(inner) - 4)])
            else:
                it[1] = it[1][:1 + b % max(1, len(it[1]) - 1)]
            what = f'a product with a broken {kind} of {it[0]}'
            tokens = [it[0]] + (tokens_of(p, own[it[0][:36]]) if it[0][:36] in own else [])
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(layout(st_, 0))
            SCHEDULE.rng = random.Random(case['seed']) if case['seed'] else None
            try:
                text = run_it(case['run'], lambda n: extract(f'{w}/in.bin', f'{w}/x/out', temp_dir=f'{w}/t', processes=n),
                              ['-E', f'{w}/in.bin', f'{w}/x/out', '--temp', f'{w}/t'], w, case['processes'])
            finally:
                SCHEDULE.rng = None
            seen = judge(text, tokens, f'extract of {what} ({case["run"]})')
        rec.case(case, seen, f'{case["product"]["base"]}: {what}, {case["run"]}: {(text or "accepted")[-100:]!r}',
                 tags=[kind, case['run'], 'refused' if seen else 'accepted'])

    def sources(case):
        p = synth.apply(case['product'])
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            src = f'{w}/x/out'
            with cut('extract'):
                extract(f'{w}/in.bin', src, temp_dir=f'{w}/t', processes=1)
            res = damage_sources(src, read_tree(src), *case['how'])
            if res is None:
                return
            what, tokens = res
            SCHEDULE.rng = random.Random(case['seed']) if case['seed'] else None
            try:
                text = run_it(case['run'], lambda n: build(src, f'{w}/o.bin', temp_dir=f'{w}/t', processes=n),
                              ['-B', src, f'{w}/o.bin', '--temp', f'{w}/t'], w, case['processes'])
            finally:
                SCHEDULE.rng = None
            seen = judge(text, tokens, f'build of sources where {what} ({case["run"]})')
        rec.case(case, seen, f'{case["product"]["base"]}: {what}, {case["run"]}: {(text or "accepted")[-100:]!r}',
                 tags=[case['how'][0], case['run'], 'refused' if seen else 'accepted'])

    return dict(input=input_, sources=sources)


def run(rec):
    parts = PARTS(rec)
    num = st.integers(0, 1 << 30)
    product = synth.cases(bases=BASES, max_ops=3, max_keep=4)
    common = dict(product=product, run=st.sampled_from(['call', 'call', 'call', 'cli', 'cli', 'pool']), seed=st.integers(0, 99), processes=st.integers(2, 4))
    b = rec.budget
    run_property(rec, 'input', st.fixed_dictionaries(dict(common, how=st.tuples(st.sampled_from(['text', 'text', 'stream', 'nested', 'drop']), num, num))),
                 parts['input'], 900, 18000, share=b * 0.45)
    run_property(rec, 'sources', st.fixed_dictionaries(dict(common, how=st.tuples(st.sampled_from(
        ['json', 'part', 'text', 'area', 'element', 'element area', 'no property', 'folder', 'listed']), num, num))),
        parts['sources'], 1200, 24000, share=b * 0.5)
