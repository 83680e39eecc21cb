"""Shared machinery of the checks: bootstrap of the code under test, scratch space, recording, Hypothesis
driver with own shrink bookkeeping, known findings and replay files."""
import base64
import contextlib
import hashlib
import importlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


# ----------------------------------------------------------------------------------------------- violations
class Violation(Exception):
    """The code under test broke the property. `key` identifies the failing situation for known findings."""

    def __init__(self, message, key=None):
        super().__init__(message)
        self.message = message
        self.key = key


@contextlib.contextmanager
def cut(what, key=None):
    """Runs code under test that must succeed: any exception out of it is a violation, output is swallowed."""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            yield out
    except Violation:
        raise
    except MemoryError:
        raise
    except (Exception, SystemExit) as err:
        raise Violation(f'{what}: {type(err).__name__}: {_err_text(err)}', key) from err


def _err_text(err):
    text = str(err)
    return text if len(text) < 1500 else text[:1500] + '...'


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        yield out


def require(cond, message, key=None):
    if not cond:
        raise Violation(message() if callable(message) else message, key)


# -------------------------------------------------------------------------------------------- inline pool
class Schedule:
    """How the inline pool orders the tasks of one phase and the delivery of their results."""
    rng = None  # random.Random or None for the natural order
    pickle_args = True
    phases = 0
    pools = []  # numbers of processes asked for


SCHEDULE = Schedule()


class InlinePool:
    """Stand-in for multiprocessing.Pool: the same contract (arguments and results are pickled, tasks are run in
    any order, imap_unordered delivers in any order, an exception surfaces to the consumer), one process."""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        self.closed = False
        SCHEDULE.pools.append(processes)
        if initializer:
            initializer(*initargs)

    @staticmethod
    def _copy(obj):
        return pickle.loads(pickle.dumps(obj)) if SCHEDULE.pickle_args else obj

    def _check(self):
        if self.closed:
            raise ValueError('Pool not running')

    def _run(self, func, items):
        func, items = self._copy(func), [self._copy(x) for x in items]
        order = list(range(len(items)))
        SCHEDULE.phases += 1
        if SCHEDULE.rng:
            SCHEDULE.rng.shuffle(order)
        results = {}
        for i in order:
            try:
                results[i] = (True, self._copy(func(items[i])))
            except Exception as err:
                try:
                    err = self._copy(err)
                except Exception:
                    pass
                results[i] = (False, err)
        return results

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        results = self._run(func, list(iterable))
        order = list(results)  # completion order
        if SCHEDULE.rng:
            SCHEDULE.rng.shuffle(order)
        for i in order:
            ok, value = results[i]
            if not ok:
                raise value
            yield value

    def imap(self, func, iterable, chunksize=1):
        self._check()
        results = self._run(func, list(iterable))
        for i in sorted(results):
            ok, value = results[i]
            if not ok:
                raise value
            yield value

    def map(self, func, iterable, chunksize=None):
        return list(self.imap(func, iterable))

    def starmap(self, func, iterable, chunksize=None):
        return [func(*x) for x in iterable]

    def apply(self, func, args=(), kwds=None):
        return func(*args, **(kwds or {}))

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        try:
            value, ok = func(*args, **(kwds or {})), True
            if callback:
                callback(value)
        except Exception as err:
            value, ok = err, False
            if error_callback:
                error_callback(err)
        return _Async(ok, value)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        try:
            value, ok = self.map(func, iterable), True
            if callback:
                callback(value)
        except Exception as err:
            value, ok = err, False
            if error_callback:
                error_callback(err)
        return _Async(ok, value)

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.terminate()


class _Async:
    def __init__(self, ok, value):
        self.ok, self.value = ok, value

    def get(self, timeout=None):
        if not self.ok:
            raise self.value
        return self.value

    def wait(self, timeout=None):
        pass

    def ready(self):
        return True

    def successful(self):
        return self.ok


REAL_POOL = None
_boot = False


def bootstrap():
    """Makes `import v8unpack` import the working tree of the repository, with the inline pool."""
    global REAL_POOL, _boot
    if _boot:
        return
    _boot = True
    sys.dont_write_bytecode = True
    import multiprocessing
    REAL_POOL = multiprocessing.Pool
    multiprocessing.Pool = InlinePool
    sys.path.insert(0, SRC)
    try:
        import tqdm  # noqa
    except ImportError:
        for lib in ('/opt/venv/lib/python3.12/site-packages',):
            if os.path.isdir(os.path.join(lib, 'tqdm')):
                sys.path.append(lib)
    try:
        import tqdm.auto  # noqa
    except ImportError:
        _stub_tqdm()
    import warnings
    warnings.simplefilter('ignore')
    import v8unpack
    assert os.path.realpath(v8unpack.__file__).startswith(os.path.realpath(SRC)), v8unpack.__file__
    import v8unpack.helper as helper
    helper.Pool = InlinePool


def _stub_tqdm():
    class tqdm:
        def __init__(self, *a, **k):
            self.it = a[0] if a else k.get('iterable')

        def __iter__(self):
            return iter(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def update(self, n=1):
            pass

        def close(self):
            pass

        def set_description(self, *a, **k):
            pass

    m = types.ModuleType('tqdm')
    m.tqdm = tqdm
    a = types.ModuleType('tqdm.auto')
    a.tqdm = tqdm
    m.auto = a
    sys.modules['tqdm'] = m
    sys.modules['tqdm.auto'] = a


# ------------------------------------------------------------------------------------------------ scratch
_scratch = None


def scratch_base():
    """A scratch directory of this run; removed by the runner."""
    global _scratch
    if _scratch is None:
        root = os.environ.get('VERIF_SCRATCH')
        if not root:
            root = tempfile.mkdtemp(prefix='v8verif_')
            import atexit
            atexit.register(shutil.rmtree, root, True)
        os.makedirs(root, exist_ok=True)
        _scratch = root
        tmp = os.path.join(root, 'tmp')
        os.makedirs(tmp, exist_ok=True)
        os.environ['TMPDIR'] = tmp
        tempfile.tempdir = tmp
    return _scratch


@contextlib.contextmanager
def workdir():
    """A fresh directory for one case."""
    path = tempfile.mkdtemp(prefix='c_', dir=scratch_base())
    cwd = os.getcwd()
    try:
        yield path
    finally:
        os.chdir(cwd)
        shutil.rmtree(path, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- file trees
def read_tree(path):
    """{relative path: bytes} of all files below path."""
    res = {}
    path = os.path.abspath(path)
    for root, dirs, files in os.walk(path):
        for name in files:
            full = os.path.join(root, name)
            with open(full, 'rb') as f:
                res[os.path.relpath(full, path).replace(os.sep, '/')] = f.read()
    return res


def write_tree(path, tree):
    for name, data in tree.items():
        full = os.path.join(path, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as f:
            f.write(data if isinstance(data, bytes) else data.encode('utf-8'))


def diff_trees(a, b, limit=6, names=('first', 'second')):
    """Human readable difference of two {path: bytes} or None."""
    msgs = []
    for k in sorted(set(a) | set(b)):
        if k not in b:
            msgs.append(f'{k}: only in {names[0]}')
        elif k not in a:
            msgs.append(f'{k}: only in {names[1]}')
        elif a[k] != b[k]:
            msgs.append(f'{k}: {short_diff(a[k], b[k])}')
    if not msgs:
        return None
    more = f' (+{len(msgs) - limit} more)' if len(msgs) > limit else ''
    return '; '.join(msgs[:limit]) + more


def short_diff(x, y, ctx=30):
    if isinstance(x, (bytes, str)) and isinstance(y, type(x)):
        n = min(len(x), len(y))
        i = next((i for i in range(n) if x[i] != y[i]), n)
        lo = max(0, i - ctx)
        return f'differ at {i} (len {len(x)} vs {len(y)}): {x[lo:i + ctx]!r} vs {y[lo:i + ctx]!r}'
    return f'{_clip(x)} vs {_clip(y)}'


def _clip(x, n=200):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...'


def diff_obj(a, b, path=''):
    """First difference of two JSON-like values or None."""
    if type(a) is not type(b):
        return f'{path}: {_clip(a)} vs {_clip(b)}'
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_obj(x, y, f'{path}[{i}]')
            if d:
                return d
        if len(a) != len(b):
            return f'{path}: length {len(a)} vs {len(b)}: {_clip(a[-3:])} vs {_clip(b[-3:])}'
        return None
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f'{path}.{k}: only in first'
            d = diff_obj(a[k], b[k], f'{path}.{k}')
            if d:
                return d
        for k in b:
            if k not in a:
                return f'{path}.{k}: only in second'
        return None
    if a != b:
        return f'{path}: {short_diff(a, b)}'
    return None


# ------------------------------------------------------------------------------------------ known findings
def load_known(prop=None):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path, encoding='utf-8') as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    items = [x for x in data.get('known', [])]
    return [x for x in items if prop is None or x['property'] == prop]


# ------------------------------------------------------------------------------------------------ recording
class Recorder:
    def __init__(self, prop, tier, seed, shard=0, shards=1, budget=30.0):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.shards = shard, shards
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.classes = {}
        self.parts = {}
        self.violations = []
        self.known_hits = {}
        self.known = {x['key']: x for x in load_known(prop)}
        self.t0 = time.monotonic()
        self.budget = budget
        self.part = ''
        self._nt_seen = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        """Number of cases for this shard."""
        total = quick if not self.thorough else (thorough or quick * 20)
        return max(1, -(-total // self.shards))

    def case(self, key, nontrivial, sample=None, tags=()):
        """Registers one evaluated case. key: anything hashable by pickle."""
        self.evaluations += 1
        p = self.parts.setdefault(self.part, [0, 0])
        p[0] += 1
        for t in tags:
            self.classes[t] = self.classes.get(t, 0) + 1
        if nontrivial:
            try:
                raw = key if isinstance(key, bytes) else pickle.dumps(key)
            except Exception:
                raw = repr(key).encode()
            h = hashlib.sha1(self.part.encode() + b'\0' + raw).hexdigest()[:16]
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                p[1] += 1
                seen = self._nt_seen.get(self.part, 0)
                self._nt_seen[self.part] = seen + 1
                if seen in (0, 3, 40) and len(self.samples) < 12:
                    text = sample if sample is not None else _clip(key, 300)
                    self.samples.append(f'[{self.part}] {text}'[:500])

    def tag(self, *tags):
        for t in tags:
            self.classes[t] = self.classes.get(t, 0) + 1

    def is_known(self, violation):
        if violation.key and violation.key in self.known:
            self.known_hits[violation.key] = self.known_hits.get(violation.key, 0) + 1
            return True
        return False

    def result(self):
        return dict(evaluations=self.evaluations, nontrivial=sorted(self.nontrivial), samples=self.samples,
                    classes=self.classes, parts=self.parts, violations=self.violations, known_hits=self.known_hits,
                    wall=time.monotonic() - self.t0)


# ---------------------------------------------------------------------------------------------- hypothesis
CASE_SECONDS = 90


@contextlib.contextmanager
def watchdog(seconds=None):
    def fire(signum, frame):
        raise Violation(f'the case did not finish within {seconds or CASE_SECONDS} s')

    old = signal.signal(signal.SIGALRM, fire)
    signal.alarm(seconds or CASE_SECONDS)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


SHRINK_SECONDS = 45


def run_property(rec, name, strategy, check, examples, thorough_examples=None, share=None):
    """Drives check(case) over cases of the strategy. check raises Violation on a failure. The case (a picklable
    value) is what the replay file holds."""
    import random as _random
    from hypothesis import given, settings, seed, HealthCheck, Phase
    import hypothesis.errors as herr
    rec.part = name
    n = rec.n(examples, thorough_examples)
    t_start = time.monotonic()
    limit = share if share is not None else rec.budget
    best = {}

    class Stop(Exception):
        pass

    def body(case):
        now = time.monotonic()
        if best:
            if now - best['t'] > SHRINK_SECONDS:
                return
        elif now - t_start > limit:
            rec.tag(f'{name}: not run (time budget)')
            return
        try:
            with watchdog():
                check(case)
        except Violation as v:
            if rec.is_known(v):
                return
            blob = pickle.dumps(case)
            if not best or len(blob) <= best['size']:
                t0 = best['t'] if best else now
                best.update(t=t0, case=case, size=len(blob), message=v.message, key=v.key)
            raise

    test = given(strategy)(body)
    test = settings(max_examples=n, deadline=None, database=None, derandomize=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=[Phase.explicit, Phase.generate, Phase.shrink])(test)
    test = seed(derive_seed(rec.seed, rec.prop, name, rec.shard))(test)
    try:
        with quiet():
            test()
    except Violation:
        pass
    except (herr.Flaky, herr.FlakyFailure):
        if not best:
            raise
    except BaseExceptionGroup as group:
        if not best:
            raise group
    if best:
        report_violation(rec, name, best['case'], best['message'], best['key'])


def run_cases(rec, name, cases, check, limit=None):
    """Deterministic list of cases (corpus, regression, exhaustive small scope)."""
    rec.part = name
    t_start = time.monotonic()
    for i, case in enumerate(cases):
        if i % rec.shards != rec.shard:
            continue
        if limit and time.monotonic() - t_start > limit:
            rec.tag(f'{name}: not run (time budget)')
            continue
        try:
            with quiet(), watchdog():
                check(case)
        except Violation as v:
            if rec.is_known(v):
                continue
            report_violation(rec, name, case, v.message, v.key)


def report_violation(rec, name, case, message, key):
    rec.violations.append(dict(part=name, message=message[:4000], key=key,
                               case=base64.b64encode(pickle.dumps(case)).decode(), readable=_clip(case, 3000)))


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], 'big')


def load_check(prop):
    bootstrap()
    scratch_base()
    return importlib.import_module(f'harness.checks.{prop.lower()}')
