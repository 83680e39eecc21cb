"""Strategies shared by the checks."""
import random
import re

from hypothesis import strategies as st

# ------------------------------------------------------------------------------------------------- contents
SIZES = [0, 1, 2, 3, 4, 5, 30, 31, 63, 64, 65, 100, 255, 256, 510, 511, 512, 513, 514, 1000, 1023, 1024, 1025, 1536,
         4095, 4096, 4097, 8191, 8192, 8193, 16384, 16385, 65535, 65536, 65537, 100000]
KINDS = ['zeros', 'text', 'random', 'ff', 'crlf', 'lookalike', 'cyr', 'ends']
ENDS = ['', '\n', '\n\n\n', ' ', ' \n', '\t', '\r\n', '"', '\x0c', '\u2028']


def expand(spec):
    """(kind, size, seed) -> bytes"""
    kind, size, seed = spec
    if kind == 'zeros':
        return bytes(size)
    if kind == 'ff':
        return (b'\xff\xff\x7f\xff' * (size // 4 + 1))[:size]
    if kind == 'crlf':
        return (b'\r\n\n\r' * (size // 4 + 1))[:size]
    if kind == 'ends':
        return ('строка "а"\n' * min(size, 200) + ENDS[(seed + size) % len(ENDS)]).encode()
    rnd = random.Random(seed)
    if kind == 'random':
        return rnd.randbytes(size)
    if kind == 'lookalike':
        head = b'\x00\xff\xff\xff\x7f\x00\x02\x00\x00'
        return (head + rnd.randbytes(max(0, size - len(head))))[:size]
    if kind == 'cyr':
        text = ''.join(rnd.choice('абвгдежзик \n"{},') for _ in range(min(size, 5000) // 2 + 1)).encode()
        return (text * (size // max(1, len(text)) + 1))[:size]
    text = ''.join(rnd.choice('abcdef \n{},"') for _ in range(min(size, 3000) + 1)).encode()
    return (text * (size // len(text) + 1))[:size]


def content_specs(max_size=100000):
    sizes = [s for s in SIZES if s <= max_size]
    return st.tuples(st.sampled_from(KINDS), st.one_of(st.sampled_from(sizes), st.integers(0, min(3000, max_size))),
                     st.integers(0, 7))


# --------------------------------------------------------------------------------------------------- names
_NAME_ALPHABET = list('abcXYZ019_-. ') + list('абвЯЁйщ') + ['é', '中', '𝒳', "'", '(', ')', '+', '=', '{', '}', ',', '"']


def file_names(max_len=20):
    def ok(s):
        return s.strip('. ') == s and s not in ('', '.', '..') and len(s.encode()) < 200
    free = st.text(st.sampled_from(_NAME_ALPHABET), min_size=1, max_size=max_len).filter(ok)
    return st.one_of(free, uuids().map(str), st.tuples(uuids(), st.integers(0, 12)).map(lambda t: f'{t[0]}.{t[1]}'),
                     st.sampled_from(['root', 'version', 'versions', 'copyinfo', 'info', 'text', 'module', 'form']))


def uuids():
    return st.integers(1, 0xffffffff).map(
        lambda n: f'{(n * 2654435761) & 0xffffffff:08x}-{n & 0xffff:04x}-4{n >> 3 & 0xfff:03x}-8{n >> 7 & 0xfff:03x}-'
                  f'{(n * 1099511628211) & 0xffffffffffff:012x}')


# identifiers of 1C objects
_ID_FIRST = 'АБВГДЕЖЗИКЛМНОПРСТУФХЦЧШЭЮЯабвгдежзяABCDEFXYZabcxyz_'
_ID_REST = _ID_FIRST + '0123456789'


def identifiers(max_len=12):
    return st.tuples(st.sampled_from(_ID_FIRST), st.text(st.sampled_from(_ID_REST), max_size=max_len - 1)).map(
        lambda t: t[0] + t[1])


class Chooser:
    """Deterministic decisions from a list of integers; exhausted -> 0."""

    def __init__(self, numbers):
        self.numbers = list(numbers)
        self.i = 0

    def __call__(self, n):
        if n <= 1 or self.i >= len(self.numbers):
            return 0
        v = self.numbers[self.i] % n
        self.i += 1
        return v


def choices(max_size=200):
    return st.lists(st.integers(0, 1 << 16), max_size=max_size)


class RngChooser:
    """Decisions from a seeded generator; seed 0 -> always 0 (simplest)."""

    def __init__(self, seed):
        self.rnd = random.Random(seed) if seed else None

    def __call__(self, n):
        if n <= 1 or self.rnd is None:
            return 0
        return self.rnd.randrange(n)
