"""C28: an error report keeps its cause and every step named on the way up."""
import json
import pickle
import random

from hypothesis import strategies as st

from harness import synth
from harness.checks.c08 import real_pool
from harness.checks.c27 import run_it
from harness.core import SCHEDULE, cut, quiet, read_tree, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('wrap: an error of Python or of the tool (all its classes; with or without message, detail, code, action, data) is raised and wrapped '
        '0 to 8 times on its way up, each step with or without its own message, detail, action and data, in the class of the tool or of '
        'its subclasses, and is carried between steps as it is, pickled or through its JSON form; the report at the top is compared with a '
        'model: it shows the last message first, and holds the message and detail of the first error and of every step, every action '
        'and the merged data (outer values win), has the class the model says, reads the same twice, after pickling and after '
        'the JSON form, and wrapping does not change the error wrapped; pool: the same error raised in one of several tasks of a real pool of '
        'processes or of tasks in any order; sources: an area of a form, below 0 to 5 groups, lacks the data of one element: the error '
        'of the build (call, processes, command line) names the element, the area and every group. Non-trivial: wrapped at least once (sources: refused)')
ASSUMPTIONS = ['errors are wrapped while they are handled (inside except)', 'a value of an outer step hides the inner value of the same name',
               'the code of an error whose message is replaced is not kept', 'an error of the tool is raised with a message or in a class that has one', 'details and data are texts']
QUICK_SECONDS = 30

BUILTIN = [KeyError, ValueError, IndexError, FileNotFoundError, NotImplementedError, TypeError, UnicodeError, EOFError, Exception, OSError]


def classes():
    import v8unpack.ext_exception as x
    return [v for k, v in sorted(vars(x).items()) if isinstance(v, type) and issubclass(v, x.ExtException) and v is not x.ExtException]


def kwargs(x, i):
    """Arguments of one step with texts that occur nowhere else."""
    res = {}
    for k in ('message', 'detail', 'action'):
        if x[k] is not None:
            res[k] = f'{k}<{i}>{x[k]}'
    if x['dump']:
        res['dump'] = {f'k{k}': f'd<{i}>{v}' for k, v in x['dump']}
    return res


def root_kwargs(cls, x):
    kw = kwargs(x, 'r')
    if not cls._message:
        kw.setdefault('message', 'message<r>')
    return kw


def raise_root(x):
    import v8unpack.ext_exception as m
    if x['kind'] == 'builtin':
        raise BUILTIN[x['cls'] % len(BUILTIN)](f'root<>{x["message"] or ""}')
    cls = ([m.ExtException] + classes())[x['cls'] % (len(classes()) + 1)]
    kw = root_kwargs(cls, x)
    if x['code']:
        kw['code'] = x['code']
    raise cls(**kw)


def carry(err, how):
    import v8unpack.ext_exception as m
    if not isinstance(err, m.ExtException) or how == 'plain':
        return err
    if how == 'pickle':
        return pickle.loads(pickle.dumps(err))
    return m.ExtException(parent=json.loads(err.dumps()))


def climb(case, seen=None):
    """Raises the error wrapped as the case says."""
    import v8unpack.ext_exception as m

    def step(i):
        if i == 0:
            raise_root(case['root'])
        x = case['steps'][i - 1]
        try:
            step(i - 1)
        except Exception as err:
            before = str(err)
            cls = m.ExtException if not x['cls'] else classes()[x['cls'] % len(classes())]
            new = cls(parent=carry(err, x['carry']), **kwargs(x, i))
            if seen is not None:
                seen.append((before, err))
            if x['quiet']:
                raise new from None
            raise new

    step(len(case['steps']))


def model(case):
    """-> (class, title or None, texts the report holds, data)"""
    import v8unpack.ext_exception as m
    r = case['root']
    texts, dump = [], {}
    if r['kind'] == 'builtin':
        cls = BUILTIN[r['cls'] % len(BUILTIN)]
        texts += [str(cls(f'root<>{r["message"] or ""}'))]
        title, default = None, 'Unknown Error'
    else:
        cls = ([m.ExtException] + classes())[r['cls'] % (len(classes()) + 1)]
        kw = root_kwargs(cls, r)
        default = cls._message
        title = kw.get('message')
        texts += [v for k, v in kw.items() if k != 'dump']
        dump = dict(kw.get('dump', {}))
    # a title without a given message is the text of the class: said only when nothing replaces it
    for i, x in enumerate(case['steps'], 1):
        kw = kwargs(x, i)
        own = m.ExtException if not x['cls'] else classes()[x['cls'] % len(classes())]
        ext = issubclass(cls, m.ExtException)
        if not ('message' not in kw and own is m.ExtException and ext):
            cls = own
        title = kw.get('message') or title
        texts += [v for k, v in kw.items() if k != 'dump']
        dump = {**dump, **kw.get('dump', {})}
    return cls, title, default, texts, dump


def judge(err, case, what, extra=()):
    import v8unpack.ext_exception as m
    cls, title, default, texts, dump = model(case)
    text = str(err)
    for t in list(texts) + list(extra):
        require(t in text, lambda: f'{what}: the report lost {t!r}: {text!r}')
    require(type(err) is cls, lambda: f'{what}: the error is a {type(err).__name__}, not a {cls.__name__}')
    require(str(err) == text, lambda: f'{what}: the report reads another way the second time')
    if not isinstance(err, m.ExtException):
        return
    if title:
        require(text.startswith(title) or text.split(': ', 1)[-1].startswith(title), lambda: f'{what}: the report does not start with the last message {title!r}: {text!r}')
    for k, v in dump.items():
        require(f'{k}={v}' in text, lambda: f'{what}: the report lost the data {k}={v!r}: {text!r}')
    require(err.to_dict()['dump'] == dump, lambda: f'{what}: data {err.to_dict()["dump"]} instead of {dump}')
    for how in ('pickle', 'json'):
        twin = carry(err, how)
        require(type(twin) is cls and str(twin) == text and twin.to_dict() == err.to_dict() and twin.http_code == err.http_code,
                lambda: f'{what}: after {how} another error: {type(twin).__name__} {twin.to_dict()} instead of {type(err).__name__} {err.to_dict()}')


def task(params):
    n, case = params
    if case is None:
        return n
    climb(case)


def PARTS(rec):
    from v8unpack import helper
    from v8unpack.v8unpack import extract, build
    import v8unpack.ext_exception as m

    def wrap(case):
        seen = []
        try:
            climb(case, seen)
        except Exception as e:
            err = e
        for before, inner in seen:
            require(str(inner) == before, lambda: f'wrapping changed the error wrapped: {before!r} -> {str(inner)!r}')
        judge(err, case, f'{case["root"]["kind"]} wrapped {len(case["steps"])} times')
        rec.case(case, len(case['steps']) > 0, str(err)[:200],
                 tags=[case['root']['kind'], f'{min(len(case["steps"]), 4)} steps'] + sorted({x['carry'] for x in case['steps']}))

    def pool(case):
        n = case['tasks']
        tasks = [(i, case if i == case['at'] % n else None) for i in range(n)]
        err = None
        ext = case['steps'] or case['root']['kind'] == 'ext'
        SCHEDULE.rng = random.Random(case['seed']) if case['seed'] else None
        try:
            with quiet():
                if case['real']:
                    with real_pool():
                        p = helper.get_pool(processes=case['processes'])
                        try:
                            helper.run_in_pool(task, tasks, pool=p, title='t')
                        finally:
                            helper.close_pool(p)
                else:
                    helper.run_in_pool(task, tasks, title='t')
        except Exception as e:
            err = e
        finally:
            SCHEDULE.rng = None
        what = f'one of {n} tasks fails ({"real" if case["real"] else "inline"} pool)'
        require(err is not None, f'{what}: no error')
        extra = ['run_in_pool'] if ext else []
        judge(err, case, what, extra)
        rec.case(case, len(case['steps']) > 0, str(err)[:200], tags=['real pool' if case['real'] else 'inline pool', case['root']['kind']])

    def sources(case):
        p = synth.apply(case['product'])
        with workdir() as w:
            with open(f'{w}/in.bin', 'wb') as f:
                f.write(p.bytes())
            src = f'{w}/x/out'
            with cut('extract'):
                extract(f'{w}/in.bin', src, temp_dir=f'{w}/t', processes=1)
            tree = read_tree(src)
            elems = sorted(n for n in tree if n.rsplit('/', 1)[-1] in ('Form.elem.json', 'CommonForm.elem.json'))
            if not elems:
                return
            n = elems[case['at'] % len(elems)]
            d = json.loads(tree[n].decode('utf-8-sig'))
            groups = [f'Гр{i}ппа' for i in range(case['depth'])]
            made = dict(name='include_краявая', type='Group', child='В отдельном файле')
            for g in reversed(groups):
                made = dict(name=g, type='Group', child=[made])
            d['tree'].insert(case['place'] % (len(d['tree']) + 1), made)
            with open(f'{src}/{n}', 'w', encoding='utf-8') as f:
                json.dump(d, f, ensure_ascii=False)
            folder = n.rsplit('/', 1)[0]
            inner = [dict(name=f'Есть{i}', type='Field') for i in range(case['more'])]
            data = {('/'.join(['include_краявая', x['name']])): dict(raw=[]) for x in inner}
            inner.append(dict(name='Утраченный', type='Field'))
            area = f'{folder}/краявая.{n[-9:]}'
            with open(f'{src}/{area}', 'w', encoding='utf-8') as f:
                json.dump(dict(tree=inner, data=data), f, ensure_ascii=False)
            SCHEDULE.rng = random.Random(case['seed']) if case['seed'] else None
            try:
                text = run_it(case['run'], lambda k: build(src, f'{w}/o.bin', temp_dir=f'{w}/t', processes=k),
                              ['-B', src, f'{w}/o.bin', '--temp', f'{w}/t'], w, case['processes'])
            finally:
                SCHEDULE.rng = None
            what = f'{n} with an area below {groups} that lacks the data of "Утраченный" ({case["run"]})'
            require(text is not None, lambda: f'{what}: built without an error')
            for t in ['Утраченный', 'краявая', *groups, n.rsplit('/', 1)[1]]:
                require(t in text, lambda: f'{what}: the error does not name {t}: {text[-900:]}')
        rec.case(case, True, f'{what}: {text[-200:]!r}', tags=['sources', case['run'], f'{case["depth"]} groups'])

    return dict(wrap=wrap, pool=pool, sources=sources)


def run(rec):
    parts = PARTS(rec)
    text = st.one_of(st.none(), st.none(), st.text(st.characters(codec='utf-8'), max_size=12))
    dump = st.lists(st.tuples(st.integers(0, 3), st.text(st.characters(codec='utf-8'), max_size=6)), max_size=3, unique_by=lambda t: t[0])
    root = st.fixed_dictionaries(dict(kind=st.sampled_from(['ext', 'ext', 'builtin']), cls=st.one_of(st.just(0), st.integers(0, 40)), message=text, detail=text, action=text,
                                      code=st.one_of(st.none(), st.integers(1, 9999)), dump=dump))
    step = st.fixed_dictionaries(dict(cls=st.one_of(st.just(0), st.just(0), st.integers(0, 40)), message=text, detail=text, action=text, dump=dump,
                                      carry=st.sampled_from(['plain', 'plain', 'plain', 'pickle', 'json']), quiet=st.booleans()))
    chain = dict(root=root, steps=st.lists(step, max_size=8))
    b = rec.budget
    run_property(rec, 'wrap', st.fixed_dictionaries(chain), parts['wrap'], 12000, 300000, share=b * 0.4)
    run_property(rec, 'pool', st.fixed_dictionaries(dict(chain, tasks=st.integers(1, 12), at=st.integers(0, 11), seed=st.integers(0, 99),
                                                         real=st.sampled_from([False, False, False, True]), processes=st.integers(2, 4))),
                 parts['pool'], 1200, 12000, share=b * 0.3)
    run_property(rec, 'sources', st.fixed_dictionaries(dict(
        product=synth.cases(bases=['C803', 'P803', 'P802', 'apam', 'CE803'], max_ops=1, max_keep=3), at=st.integers(0, 1 << 20), depth=st.integers(0, 5),
        place=st.integers(0, 9), more=st.integers(0, 3), run=st.sampled_from(['call', 'call', 'call', 'cli', 'pool']), seed=st.integers(0, 99),
        processes=st.integers(2, 4))), parts['sources'], 320, 6000, share=b * 0.3)
