"""C04: bracket trees are written so that they read back identically."""
import io
import re

from hypothesis import strategies as st

from harness import refbrace as rb, trees
from harness.core import Violation, cut, diff_obj, read_tree, require, run_cases, run_property, workdir

LEVEL = 'exploration'
RULE = ('canonical trees (nesting to depth 5, quoted strings over unicode, brackets, quotes and line breaks, long text '
        'that looks like base64, base64 payloads around every line length) are serialised, parsed back and parsed by '
        'an independent reader; real trees of all samples are re-serialised; non-trivial: at least four values and a '
        'quoted string or a base64 value')
ASSUMPTIONS = ['line breaks are normalised to LF by reading, so CR is not generated inside strings',
               '{1,{#base64...}} at the top denotes a binary file and is excluded']
QUICK_SECONDS = 40


def b64_lines_ok(text):
    """The platform wraps base64 data: first line '#base64:' + 64 characters, then 64 characters per line."""
    for m in re.finditer(r'#base64:[^}"{,]*', text):
        lines = m.group().replace('\r', '').split('\n')
        if len(lines) == 1:
            continue
        if len(lines[0]) != 72 or any(len(x) != 64 for x in lines[1:-1]) or len(lines[-1]) > 64:
            return f'base64 is wrapped as {[len(x) for x in lines]}'
    return None


def PARTS(rec):
    from v8unpack import helper
    from v8unpack.json_container_decoder import JsonContainerDecoder

    def check_tree(root, where=''):
        expect = rb.norm(root)
        with cut('serialise'):
            text = JsonContainerDecoder().encode_root_object(root)
        try:
            got = rb.parse(text.replace('\r\n', '\n'))
        except rb.BraceError as err:
            raise Violation(f'{where}the written text is malformed: {err}: {text[:300]!r}')
        d = diff_obj(expect, rb.norm(got))
        require(d is None, lambda: f'{where}written text denotes another tree: {d}')
        with cut('parse what was written'):
            back = JsonContainerDecoder(src_dir='d', file_name='f').decode_file(io.StringIO(text, newline=None))
        d = diff_obj(expect, rb.norm(back))
        require(d is None, lambda: f'{where}round trip: {d}')
        return text

    def tree(root):
        text = check_tree(root)
        plain = re.sub(r'"(?:[^"]|"")*"', '""', text)
        bad = b64_lines_ok(plain)
        require(bad is None, bad)
        # a long mark '#base64:' is wrapped (one line only with '##base64:')
        with workdir() as w:
            with cut('file round trip'):
                helper.brace_file_write(root, w, 'имя')
                back = helper.brace_file_read(w, 'имя')
            d = diff_obj(rb.norm(root), rb.norm(back))
            require(d is None, lambda: f'file round trip: {d}')
            raw = read_tree(w)['имя']
            require(raw.startswith(b'\xef\xbb\xbf{'), 'the file does not start with a byte order mark and a bracket')
            text2, enc = rb.decode_text(raw)
            try:
                d = diff_obj(rb.norm(root), rb.norm(rb.parse(text2)))
            except rb.BraceError as err:
                d = str(err)
            require(d is None, lambda: f'written file denotes another tree: {d}')
        tags, count = trees.stats(root)
        rec.case(root, count >= 4 and bool({'string', 'base64 object'} & tags), None, tags)

    def b64_wrap(case):
        """exact expectation of base64 wrapping: every length, marked or as last value"""
        size, mark = case
        body = trees.b64_of(size, size)
        root = [['0', [mark + body]]] if mark else [['7', body]]
        text = check_tree(root)
        if mark == '#base64:' and len(body) > 64:
            flat = re.search(r'#base64:[^}]*', text).group().replace('\r', '')
            require(max(len(x) for x in flat.split('\n')) <= 72 and '\n' in flat, 'long base64 is not wrapped')
            bad = b64_lines_ok(flat)
            require(bad is None, bad)
        elif not mark and len(body) > 64:
            flat = re.search(r'{7,([^}]*)', text).group(1).replace('\r', '')
            require([len(x) for x in flat.split('\n')][:-1] == [64] * (-(-len(body) // 64) - 1)
                    and len(flat.split('\n')[-1]) <= 64, 'base64 value is not wrapped in lines of 64')
        elif mark == '##base64:':
            require('\n' not in re.search(r'#base64:[^}]*', text).group(), 'single-line base64 is wrapped')
        rec.case((size, mark), size > 0, f'base64 of {size} bytes with mark {mark!r}')

    return dict(tree=tree, real=lambda case: real(rec, case, check_tree), b64_wrap=b64_wrap)


def real(rec, case, check_tree):
    from harness import products
    n = 0
    for i, c in enumerate(products.sample_containers(case)):
        for name, data in c.items():
            items = data.items() if isinstance(data, dict) else [('', data)]
            for sub, raw in items:
                try:
                    text, enc = rb.decode_text(raw)
                    root = rb.parse(text)
                except (rb.BraceError, UnicodeDecodeError):
                    continue
                if not root or (len(root[0]) == 2 and root[0][0] == '1' and isinstance(root[0][1], list)
                                and str(root[0][1][0]).startswith('#base64')):
                    continue
                check_tree(root, f'{case}:{i}/{name}/{sub}: ')
                n += 1
                tags, count = trees.stats(root)
                rec.case((case, i, name, sub), count >= 4, f'{case}:{i}/{name} ({count} values)', ['real file'])


def run(rec):
    parts = PARTS(rec)
    from harness import products
    run_cases(rec, 'real', list(products.SAMPLES), parts['real'])
    run_cases(rec, 'b64_wrap', [(s, m) for s in range(0, 300 if not rec.thorough else 2000)
                                for m in ('', '#base64:', '##base64:')], parts['b64_wrap'])
    run_property(rec, 'tree', trees.roots(), parts['tree'], 8000, 200000, share=rec.budget)
