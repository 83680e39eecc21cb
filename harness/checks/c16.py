"""C16: module texts and identifiers are separated without change."""
import copy
import json
import os
import random
import re

from hypothesis import strategies as st

from harness import internal, products, refbrace as rb, synth
from harness.core import Violation, cut, read_tree, require, run_cases, run_property, short_diff, workdir, write_tree
from harness.checks.c15 import folder

LEVEL = 'exploration'
RULE = ('modules: products cut out of the samples whose modules (every module kind of every object kind, modules of the '
        'product itself, modules of managed and of ordinary forms) get generated texts in every way of storage: folder with '
        'description or plain file, UTF-8 with and without byte order mark, windows-1251, a protected module without text, '
        'text that is valid in neither encoding; the file in the sources must hold the text, the built product the same text, '
        'and after an edit or removal of source files exactly the new one; non-trivial: a module with text. '
        'ids: the identifiers of an object and of its parts are replaced by others and both products extracted; '
        'non-trivial: always')
ASSUMPTIONS = ['line ends are normalised, a byte order mark is not part of the text, an empty module has no file',
               'in products of platform 8.1/8.2 and in ordinary forms area and placement directives stand commented (C17)',
               'identifiers occur in the table of contents of the owner when it is stored in the sources',
               'modules in UTF-16 do not occur']
QUICK_SECONDS = 40
STORES = ['folder sig', 'folder utf-8', 'file sig', 'file utf-8', 'folder cp1251', 'file cp1251', 'image', 'folder bin', 'file bin']
BASES = ['C803', 'C803', 'C803-16', 'CE803', 'P803', 'R803', 'apam', 'apam_old', 'P802', 'C803']


def shown(text, esc):
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    return re.sub(r'\n// v8unpack (?=#Область|#КонецОбласти|&НаСервере|&НаКлиенте)', '\n', text) if esc else text


def stored(text, esc):
    return re.sub(r'\n(?=#Область|#КонецОбласти|&НаСервере|&НаКлиенте)', '\n// v8unpack ', text) if esc else text


def slots(p):
    """[(kind, key, obj, module name, number)]"""
    res = []
    for o in p.objects():
        for name, number in sorted(synth.MODULES.get(o.kind, {}).items()):
            res.append((f'{o.kind}.{name}', 'module', o, name, number))
        if o.kind.endswith('Form'):
            body = p.main.get(f'{o.uid}.0')
            if isinstance(body, dict) and 'module' in body:
                res.append(('ordinary form', 'oform', o, 'obj', '0'))
            elif isinstance(body, bytes):
                try:
                    t = p.tree(f'{o.uid}.0')
                except (rb.BraceError, UnicodeDecodeError):
                    continue
                if len(t[0]) > 2 and t[0][0] in ('4', '3', '2') and isinstance(t[0][2], str) and t[0][2][:1] == '"':
                    res.append(('managed form', 'mform', o, 'obj', '0'))
    for name, number in sorted(synth.TOP_MODULES[p.type].items()):
        res.append((f'{p.type}.{name}', 'top', None, name, number))
    return res


_keys = {}


def pick(base, i):
    if base not in _keys:
        rows = {}
        for kind, key, o, name, number in slots(synth.Product(base)):
            top = o
            while top is not None and top.owner is not None:
                top = top.owner
            rows.setdefault(kind, []).append((key, o.uid if o else None, name, number, top.uid if top else None))
        _keys[base] = [rows[k] for k in sorted(rows)]
    group = _keys[base][i % len(_keys[base])]
    return group[i // len(_keys[base]) % len(group)]


def plain_product(base):
    """The sample without shared areas (they are C09 and C12)."""
    def plain(data):
        return data.replace(b'include_', b'inclyde_').replace(b'includr_', b'inclydr_')
    conts = [{n: {m: plain(v) for m, v in d.items()} if isinstance(d, dict) else plain(d) for n, d in c.items()}
             for c in products.sample_containers(base)]
    return synth.Product(base, conts)


def old_product(p):
    if 'version' not in p.main:
        return False
    v = p.tree('version')[0][0]
    return len(v) < 3 or v[2][0][:3] in ('801', '802')


def bin_text(seed):
    return b'\x98\xff' + random.Random(seed).randbytes(seed % 60) + b'\r\n\n\r\x98{"'


def PARTS(rec):
    from v8unpack.v8unpack import extract, build

    def modules(case):
        p = plain_product(case['base'])
        items, seen = [], set()
        for it in case['items']:
            s = pick(case['base'], it['i'])
            if s[:3] not in seen:
                seen.add(s[:3])
                items.append((s, it))
        tops = {s[4] for s, _ in items}
        objs = p.objects()
        if case['cut']:
            for o in objs:
                if o.owner is None and o.uid not in tops:
                    p.remove(o, objs)
        old = old_product(p)
        by_uid = {o.uid: o for o in p.objects()}
        rows = []
        for k, ((key, uid, name, number, _), it) in enumerate(items):
            o = by_uid.get(uid)
            store = STORES[it['store'] % len(STORES)]
            esc = key == 'oform' or (key == 'top' and old)
            text = it['text']
            if esc:
                text = '// начало\n' + text
            text, edit = stored(text, esc), it['edit']
            if 'cp1251' in store:
                if key == 'mform':
                    store = 'folder sig'
                text, edit = (x if x is None else x.encode('cp1251', 'replace').decode('cp1251') for x in (text, edit))
                try:
                    if text.encode('cp1251').decode('utf-8') != text:
                        store = store.replace('cp1251', 'sig')
                except UnicodeDecodeError:
                    pass
            if key in ('oform', 'mform'):
                store = {'image': 'folder sig', 'file bin': 'folder bin'}.get(store, store)
            if key == 'mform' and 'bin' in store:
                store = 'folder sig'
            internal_name = f'{o.uid if o else p.top_uid}.{number}'
            enc = {'sig': 'utf-8-sig', 'cp1251': 'cp1251'}.get(store.split()[-1], 'utf-8')
            data = None
            if 'bin' in store or store == 'image':
                data = bin_text(it['seed'])
            raw = data if data is not None else text.encode(enc)
            if key == 'mform':
                p.tree(internal_name)[0][2] = synth.quote(text)
            elif key == 'oform':
                p.main[internal_name] = dict(p.main[internal_name], module=raw)
            else:
                p.put_module(o.uid if o else p.top_uid, number, raw, as_file=store.startswith('file'))
                if store == 'image':
                    body = p.main[internal_name]
                    body['image'] = body.pop('text')
            d = folder(p, o) + '/' + o.kind if o else p.type if p.type != 'Configuration' else 'Configuration'
            rows.append(dict(key=key, o=o, name=name, number=number, store=store, esc=esc, text=text, edit=edit, data=data, d=d, enc=enc,
                             internal=internal_name, seed=it['seed'], how=it['how'] % 4))
        with workdir() as w:
            p.finish()
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(products.pack(p.containers))
            with cut('extract'):
                extract(f'{w}/in.bin', f'{w}/x', temp_dir=f'{w}/t', processes=1)
            tree = read_tree(f'{w}/x')
            tags = []
            for r in rows:
                what = f'{r["d"]}.{r["name"]} stored as {r["store"]}'
                pre = f'{r["d"]}.{r["name"]}.'
                found = sorted(n for n in tree if n.startswith(pre))
                tags.append(f'{r["store"]}{" " + r["key"] if r["key"] != "module" else ""}')
                if r['data'] is not None:
                    require(len(found) == 1, lambda: f'{what}: files {found}, expected one with the content as it is')
                    require(not found[0].endswith('.bsl'), lambda: f'{what}: {found[0]} claims to be text')
                    require(tree[found[0]] == r['data'], lambda: f'{what}: {found[0]} differs: {short_diff(r["data"], tree[found[0]])}')
                    r['want'] = r['data']
                    if r['how'] == 1:
                        r['want'] = tree[found[0]] = bin_text(r['seed'] + 1)
                else:
                    text = shown(r['text'], r['esc'])
                    want = [pre + 'bsl'] if text or found else []
                    if r['key'] == 'top' and p.type == 'Configuration' and not found and text:
                        found = [n for n in tree if n.endswith(f'.{r["name"]}.bsl') and '/' not in n]
                        want = found if len(found) == 1 else want
                    require(found == want, lambda: f'{what}: files {found}, text {text[:60]!r}')
                    if found:
                        got = rb.decode_text(tree[found[0]])[0].replace('\r\n', '\n')
                        require(got == text, lambda: f'{what}: {found[0]} differs from the module: {short_diff(text, got)}')
                    r['want'] = text
                    if found and r['how'] == 1 and r['edit'] is not None:
                        new = ('// начало\n' if r['esc'] else '') + r['edit']
                        r['want'] = new.replace('\r\n', '\n').replace('\r', '\n')
                        tree[found[0]] = new.encode(['utf-8', 'utf-8-sig'][r['seed'] % 2])
                        tags.append('edited')
                    elif found and r['how'] == 2:
                        del tree[found[0]]
                        r['want'] = ''
                        tags.append('file deleted')
            write_tree(f'{w}/y', tree)
            with cut('build'):
                build(f'{w}/y', f'{w}/out.bin', temp_dir=f'{w}/t', processes=1)
            with open(f'{w}/out.bin', 'rb') as f:
                after = products.unpack(f.read())
        main = after[-1]
        skip = set()
        for r in rows:
            what = f'{r["d"]}.{r["name"]} stored as {r["store"]}'
            skip.add(r['internal'])
            require(r['internal'] in main, lambda: f'{what}: lost by the build')
            a, b = p.main[r['internal']], main[r['internal']]
            require(isinstance(a, dict) == isinstance(b, dict), lambda: f'{what}: another way of storage after the build')
            if isinstance(a, dict):
                require(set(a) == set(b), lambda: f'{what}: members {sorted(a)} became {sorted(b)}')
                for n in ('info', 'form'):
                    if n in a:
                        d = internal.same_tree(a[n], b[n])
                        require(not d, lambda: f'{what}: {n}: {d}')
                m = 'module' if r['key'] == 'oform' else 'image' if r['store'] == 'image' else 'text'
                b = b[m]
            if r['data'] is not None:
                require(b == r['want'], lambda: f'{what}: the build stores {short_diff(r["want"], b)}')
                continue
            want = stored(r['want'], r['esc'])
            if r['key'] == 'mform':
                ta, tb = (rb.parse(rb.decode_text(x)[0]) for x in (a, b))
                b = tb[0][2][1:-1].replace('""', '"').encode()
                ta[0][2] = tb[0][2] = ''
                require(rb.norm(ta) == rb.norm(tb), lambda: f'{what}: the form around the module changed')
            got = rb.decode_text(b)[0].replace('\r\n', '\n')
            require(got == want, lambda: f'{what}: the build stores another text: {short_diff(want, got)}')
        problems = internal.compare(p, after, skip=skip)
        require(not problems, lambda: 'other files changed: ' + '; '.join(problems[:4]))
        rec.case(case, any(r['want'] for r in rows), f'{case["base"]}: {[(r["d"], r["name"], r["store"]) for r in rows]}', tags=tags)

    def ids(case):
        base = case['base']
        p = synth.Product(base)
        objs = [o for o in p.objects() if o.owner is None]
        o = objs[case['i'] % len(objs)]
        everything = p.objects()
        for x in objs:
            if x.uid != o.uid:
                p.remove(x, everything)
        p.finish()
        mine = [x for x in p.objects()]
        changes = {}
        for k, x in enumerate(mine):
            if case['mask'] >> (k % 16) & 1 or k == 0:
                changes[x.uid] = p.new_uid()
        t = p.tree(o.uid)
        if o.kind == 'DataProcessor' and case['manager']:
            cell = t[0][1]
            for n in (1, 2, 7, 8):
                if n < len(cell) and isinstance(cell[n], str) and synth.UUID.match(cell[n]):
                    changes.setdefault(cell[n], p.new_uid())
        own = {x.uid: f'{folder(p, x)}/{x.kind}' for x in mine}

        def other(data):
            for a, b in changes.items():
                data = data.replace(a.encode(), b.encode())
            return data

        q = []
        for c in p.containers:
            q.append({other(n.encode()).decode(): {m: other(v) for m, v in d.items()} if isinstance(d, dict) else other(d)
                      for n, d in c.items()})
        options = {'auto_include': True} if case['auto'] else {}
        with workdir() as w:
            for name, cont in (('a', p.containers), ('b', q)):
                with open(f'{w}/{name}.bin', 'wb') as f:
                    f.write(products.pack(cont))
                with cut('extract'):
                    extract(f'{w}/{name}.bin', f'{w}/{name}', temp_dir=f'{w}/t', processes=1, options=dict(options))
            a, b = read_tree(f'{w}/a'), read_tree(f'{w}/b')
            with cut('build'):
                build(f'{w}/b', f'{w}/out.bin', temp_dir=f'{w}/t', processes=1, options=dict(options))
            with open(f'{w}/out.bin', 'rb') as f:
                after = products.unpack(f.read())
        require(set(a) == set(b), lambda: f'files differ: {sorted(set(a) ^ set(b))[:5]}')
        same = 0
        uids = {x.uid for x in mine} | set(changes)
        for n in sorted(a):
            if n == 'dummy.zip':
                continue
            if n.endswith('.id.json'):
                require(other(a[n]) == b[n], lambda: f'{n}: identifiers differ from the ones given')
                continue
            d = n.rsplit('.json', 1)[0]
            if n.endswith('.json') and d in own.values():
                x = next(u for u, f in own.items() if f == d)
                found = [u for u in uids if u.encode() in a[n]]
                children = {c.uid for c in mine if c.owner is not None and c.owner.uid == x}
                # the table of contents lists the parts; nothing else in the header may name them
                extra = [u for u in found if u == x or u not in {c.uid for c in mine}]
                if extra == [x] and d.endswith('Command') and a[n].count(x.encode()) == 1:
                    v = Violation(f'{n} holds the identifier of its object', key='command identifier a second time in <Kind>Command.json')
                    if not rec.is_known(v):
                        raise v
                else:
                    require(not extra, lambda: f'{n} holds identifiers of its object: {extra}')
                if not children:
                    same += 1
            require(other(a[n]) == b[n], lambda: f'{n} differs beyond the identifiers')
        problems = compare_built(q, after)
        require(not problems, lambda: f'build of the copy with other identifiers: {problems[:3]}')
        rec.case((base, o.uid, sorted(changes.items()), case['auto']), True,
                 f'{base} {o.kind}: {len(changes)} identifiers replaced, {len(a)} files', tags=[o.kind, 'auto' if case['auto'] else 'listed'])

    def compare_built(q, after):
        problems = []
        for a, b in zip(q, after):
            for n in sorted((set(a) | set(b)) - {'versions', 'configinfo'}):
                if n not in a or n not in b:
                    problems.append(f'{n} {"lost" if n in a else "invented"}')
        return problems

    return dict(modules=modules, ids=ids)


TEXT = synth.module_texts(10)


def every(base):
    """Each module kind of a sample in each way of storage."""
    pick(base, 0)
    n = len(_keys[base])
    res = []
    for i in range(n):
        for k, store in enumerate(STORES):
            res.append(dict(base=base, cut=True, items=[dict(i=i, store=k, text='Процедура Ы()\r\n\tА = "ёж ""и""";\r\nКонецПроцедуры // №',
                                                             edit='Функция Я()\n|x"\r\n', seed=i * 7 + k, how=k + i)]))
    return res


def large(base):
    """One module of each kind with more than 64 KB of text."""
    pick(base, 0)
    res = []
    for i in range(len(_keys[base])):
        size = [1000, 1500, 3000][i % 3]
        text = 'Процедура Ы()\r\n\tА = "ёж ""и""" + %d;\r\nКонецПроцедуры // №\r\n'
        res.append(dict(base=base, cut=True, items=[dict(i=i, store=i % 4, text=text % 1 * size, edit=text % 2 * (size // 2), seed=i, how=i)]))
    return res


def run(rec):
    parts = PARTS(rec)
    cases = [c for b in (['C803', 'CE803', 'P803', 'P802', 'apam'] if not rec.thorough else ['C803', 'CE803', 'P803', 'P802', 'apam', 'R803', 'C803-16']) for c in every(b)]
    if not rec.thorough:
        cases = cases[::2] if rec.seed % 2 else cases[1::2]
    run_cases(rec, 'modules', cases, parts['modules'])
    run_cases(rec, 'modules', large('C803') + large('P802'), parts['modules'])
    item = st.fixed_dictionaries(dict(i=st.integers(0, 400), store=st.integers(0, len(STORES) - 1), text=TEXT, edit=st.one_of(st.none(), TEXT),
                                      seed=st.integers(0, 200), how=st.integers(0, 3)))
    mod = st.fixed_dictionaries(dict(base=st.sampled_from(BASES), cut=st.sampled_from([True, True, True, False]),
                                     items=st.lists(item, min_size=1, max_size=6)))
    run_property(rec, 'modules', mod, parts['modules'], 1600, 30000, share=rec.budget * 0.6)
    one = st.fixed_dictionaries(dict(base=st.sampled_from(['C803', 'C803', 'CE803', 'C803-16']), i=st.integers(0, 400), mask=st.integers(0, 65535),
                                     manager=st.booleans(), auto=st.booleans()))
    run_property(rec, 'ids', one, parts['ids'], 400, 8000)
