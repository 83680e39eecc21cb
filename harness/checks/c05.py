"""C05: platform bracket texts are parsed into the tree they denote, or refused."""
import io

from hypothesis import strategies as st

from harness import gen, refbrace as rb, trees
from harness.core import Violation, cut, diff_obj, quiet, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('texts are printed from random trees in platform style with random legal choices (line ends LF/CRLF, base64 '
        'line separators, final line break, blank lines before the text), in UTF-8 with or without mark or '
        'windows-1251, and parsed by the tool and by an independent parser; prefixes that end inside a string, a '
        'base64 block, and texts that do not start with a bracket must be refused; non-trivial: at least four values '
        'and a nested object')
ASSUMPTIONS = ['a text whose windows-1251 bytes are also valid UTF-8 is ambiguous and skipped']
QUICK_SECONDS = 40


def render(case):
    choose = gen.RngChooser(case['layout'])
    nl = ('\n', '\r\n')[case['nl']]
    text = rb.serialise(case['root'], choose, nl)
    if nl == '\r\n':
        # strings carry the same line ends as the file
        text = text.replace('\r\n', '\n').replace('\r', '').replace('\n', '\r\n')
    text = nl * (0, 0, 1, 2)[choose(4)] + text + nl * choose(2)
    return text


def PARTS(rec):
    from v8unpack import helper
    from v8unpack.json_container_decoder import JsonContainerDecoder

    def text(case):
        body = render(case)
        enc = case['enc']
        try:
            raw = body.encode(enc)
        except UnicodeEncodeError:
            rec.tag('not encodable')
            return
        plain, found = rb.decode_text(raw)
        if enc == 'windows-1251' and found != 'windows-1251' and not plain.isascii():
            rec.tag('ambiguous encoding')
            return
        expect = rb.norm(rb.parse(plain))
        assert expect == rb.norm(case['root']) or case['nl'] or case['layout'], 'reference printer'
        with workdir() as w:
            with open(f'{w}/f', 'wb') as f:
                f.write(raw)
            with cut(f'parse {raw[:200]!r}'):
                got = helper.brace_file_read(w, 'f')
        d = diff_obj(expect, rb.norm(got))
        require(d is None, lambda: f'parsed another tree ({enc}): {d}')
        tags, count = trees.stats(case['root'])
        rec.case((body, enc), count >= 4 and 'nested' in tags, f'{enc} {body[:250]!r}',
                 [enc, 'CRLF' if case['nl'] else 'LF'] + sorted(tags))

    def truncated(case):
        """a prefix that ends inside a string or base64 data must not be accepted"""
        body = render(case).lstrip('\r\n').replace('\r\n', '\n')
        spans = []
        i = 0
        while i < len(body):
            if body[i] == '"':
                m = rb._quoted.match(body, i)
                spans.append((i + 1, m.end()))
                i = m.end()
            elif body.startswith('#base64:', i):
                e = body.index('}', i)
                if '\n' in body[i:e]:
                    spans.append((body.index('\n', i) + 1, e))
                i = e
            else:
                i += 1
        if not spans:
            return
        choose = gen.RngChooser(case['cut'])
        a, b = spans[choose(len(spans))]
        end = a + choose(b - a)
        prefix = body[:end]
        if prefix.endswith('\n') and prefix.count('"') % 2 == 0:
            prefix = prefix[:-1] + 'A'
        try:
            with quiet():
                got = JsonContainerDecoder(src_dir='d', file_name='f').decode_file(io.StringIO(prefix))
        except Exception:
            got = None
        require(got is None, lambda: f'text cut inside a value is accepted: ...{prefix[-80:]!r} -> {str(got)[-200:]}')
        rec.case(prefix, len(prefix) > 20, f'prefix ...{prefix[-60:]!r}', ['truncated'])

    def not_object(case):
        """text that does not start with a bracket is refused by the reader of bracket files"""
        with workdir() as w:
            with open(f'{w}/f', 'wb') as f:
                f.write(case.encode())
            try:
                with quiet():
                    got = helper.brace_file_read(w, 'f')
            except Exception:
                got = None
            require(got is None, lambda: f'text is accepted as an object: {case!r} -> {got}')
        rec.case(case, len(case) > 3, f'not an object {case[:60]!r}', ['not an object'])

    def real(name):
        from harness import products
        for i, c in enumerate(products.sample_containers(name)):
            for fname, data in c.items():
                for sub, raw in (data.items() if isinstance(data, dict) else [('', data)]):
                    try:
                        plain, enc = rb.decode_text(raw)
                        expect = rb.parse(plain)
                    except (rb.BraceError, UnicodeDecodeError):
                        continue
                    if not expect or (len(expect[0]) == 2 and expect[0][0] == '1' and isinstance(expect[0][1], list)
                                      and str(expect[0][1][0]).startswith('#base64')):
                        continue
                    with cut(f'parse {name}/{fname}/{sub}'):
                        got = JsonContainerDecoder(src_dir='d', file_name='f').decode_file(
                            io.StringIO(plain, newline=None))
                    d = diff_obj(rb.norm(expect), rb.norm(got))
                    require(d is None, lambda: f'{name}/{fname}/{sub}: {d}')
                    rec.case((name, i, fname, sub), True, f'{name}/{fname} ({len(raw)} bytes)', ['real file'])

    return dict(text=text, truncated=truncated, not_object=not_object, real=real)


def run(rec):
    from harness import products
    parts = PARTS(rec)
    run_cases(rec, 'real', list(products.SAMPLES), parts['real'])
    base = dict(root=trees.roots(), layout=st.one_of(st.just(0), st.integers(1, 1 << 20)), nl=st.integers(0, 1))
    run_property(rec, 'text', st.fixed_dictionaries(
        dict(base, enc=st.sampled_from(['utf-8', 'utf-8-sig', 'windows-1251']))), parts['text'], 8000, 200000,
                 share=rec.budget / 2)
    run_property(rec, 'truncated', st.fixed_dictionaries(dict(base, cut=st.integers(1, 1 << 20))), parts['truncated'],
                 4000, 100000, share=rec.budget / 3)
    run_property(rec, 'not_object', st.tuples(
        st.sampled_from(['Процедура', '//', 'a', '1', '"', ',', ' ', '\t{', ' {1}', '<xml>', '[1]']),
        trees.texts()).map(lambda t: t[0] + t[1]), parts['not_object'], 800, 20000, share=rec.budget / 6)
