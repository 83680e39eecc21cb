"""Strategies for canonical bracket trees and their classification."""
import base64
import random

from hypothesis import strategies as st

B64 = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def quote(s):
    return '"' + s.replace('"', '""') + '"'


def b64_of(size, seed):
    return base64.b64encode(random.Random(seed).randbytes(size)).decode()


_tricky = st.text(st.sampled_from('aЯ1,{}"\n :#/='), max_size=25)
_pieces = st.lists(st.sampled_from(['"', '""', ',', '{', '}', '\n', ',"\n', '"\n', '},', '{#base64:AAAA}', '\n{', '\n}',
                                    '#base64:', 'abc', 'Процедура', ' ', '\t', '//', '0', '\n\n', '","', '"},\n{"']),
                   max_size=12).map(''.join)
_uni = st.text(st.characters(blacklist_categories=('Cs',), blacklist_characters='\r'), max_size=12)


@st.composite
def _long_ascii(draw):
    """Text of letters and spaces that a lenient base64 decoder may accept."""
    n = draw(st.one_of(st.sampled_from([62, 63, 64, 65, 66, 67, 68, 70, 72, 126, 128, 130, 190, 256]),
                       st.integers(50, 400)))
    kind = draw(st.integers(0, 4))
    rnd = random.Random(draw(st.integers(0, 50)))
    alphabet = [B64, B64 + ' ', 'abcdefgh ', B64 + ' .,-_<>=', 'abcdef\n '][kind]
    return ''.join(rnd.choice(alphabet) for _ in range(n))


def texts():
    """Content of a quoted string (no carriage returns: they are normalised on reading)."""
    return st.one_of(_tricky, _pieces, _uni, _long_ascii(), st.sampled_from(['', '\n', '"', '""', '\n"', '"\n', ',']))


def atoms():
    return st.one_of(
        st.sampled_from(['', '0', '1', '-1', '2', '12.5', '20200131235959', '1e300', 'N', 'B', 'U', 'true', 'Ошибка',
                         '00000000-0000-0000-0000-000000000000', 'fb880e93-47d7-4127-9357-a20e69c17545', '4294967295']),
        st.integers(-10 ** 6, 10 ** 6).map(str),
        st.text(st.sampled_from('abcЯ019.-_:;()[]<>=/+ \t'), min_size=1, max_size=12).filter(
            lambda s: not s.startswith('#')),
        st.tuples(st.integers(65, 90), st.integers(0, 9)).map(lambda t: (str(t[1]) + '.') * t[0]))


# exact sizes around the line lengths
b64_sizes = st.one_of(st.sampled_from([0, 1, 2, 3, 45, 46, 47, 48, 49, 50, 53, 54, 95, 96, 97, 98, 143, 144, 145, 192]),
                      st.integers(0, 700))


@st.composite
def trees(draw, depth=4, width=6):
    """A list node. Long base64 only where the format has it: the last value of an object, or alone with its mark."""
    kind = draw(st.integers(0, 11))
    if kind == 0:
        size, seed = draw(b64_sizes), draw(st.integers(0, 9))
        mark = draw(st.sampled_from(['#base64:', '##base64:']))
        return [mark + b64_of(size, seed)]
    n = draw(st.integers(1, width))
    res = []
    for i in range(n):
        k = draw(st.integers(0, 9))
        if k < 3 and depth > 0:
            res.append(draw(trees(depth=depth - 1, width=width)))
        elif k < 7:
            res.append(quote(draw(texts())))
        else:
            res.append(draw(atoms()))
    if kind == 1:
        res.append(b64_of(draw(b64_sizes), draw(st.integers(0, 9))))
    return res


def _has_b64(x):
    return any(_has_b64(y) for y in x) if isinstance(x, list) else x.lstrip('#').startswith('base64')


def fix_root(root):
    """Excludes the one reserved form: {1,{..#base64...}} at the top means 'the whole file is binary'."""
    first = root[0]
    if len(first) >= 2 and first[0] == '1' and isinstance(first[1], list) and _has_b64(first[1]):
        first[0] = '2'
    return root


def roots():
    return st.one_of(trees().map(lambda t: [t]), st.lists(trees(depth=2), min_size=2, max_size=4)).map(fix_root)


def stats(root):
    tags = set()
    count = 0

    def walk(x, depth):
        nonlocal count
        for y in x:
            if isinstance(y, list):
                tags.add('nested')
                if depth > 2:
                    tags.add('depth>3')
                walk(y, depth + 1)
            else:
                count += 1
                if y[:1] == '"':
                    tags.add('string')
                    if '\n' in y:
                        tags.add('multi-line string')
                    if '""' in y[1:-1]:
                        tags.add('doubled quotes')
                    if len(y) > 64:
                        tags.add('string>64')
                        if all(c in B64 for c in y[1:-1]):
                            tags.add('string looks like base64')
                elif y.lstrip('#').startswith('base64:'):
                    tags.add('base64 object')
                    if len(y) > 72:
                        tags.add('wrapped base64')
                elif len(y) > 64:
                    tags.add('long atom')
    walk(root, 0)
    return tags, count
