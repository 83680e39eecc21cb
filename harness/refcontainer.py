"""Independent reader and writer of the 1C container layout (not derived from the code under test at run time).

32-bit: header <4i: first free block (or 7fffffff), default block size, number of files, reserved; block header is
31 bytes of text: CR LF, doc size (8 hex), space, block size, space, next block, space, CR LF. Directory: the document at
offset 16: triples (descriptor offset, data offset, 7fffffff). Descriptor: two 64-bit times, int, utf-16 name.
64-bit: header <Q3i, block header with 16 hex digits (55 bytes), triples of 64-bit values, directory at offset 20.
All offsets are relative to the start of the container."""
import struct


class Layout:
    def __init__(self, bits):
        self.bits = bits
        if bits == 32:
            self.header, self.digits, self.idx, self.end = '<4i', 8, '<3i', 0x7fffffff
        else:
            self.header, self.digits, self.idx, self.end = '<Q3i', 16, '<3Q', 0xffffffffffffffff
        self.header_size = struct.calcsize(self.header)
        self.block_header_size = 7 + 3 * self.digits
        self.idx_size = struct.calcsize(self.idx)


L32, L64 = Layout(32), Layout(64)


class FormatError(Exception):
    pass


def _block(lay, data, off):
    raw = data[off:off + lay.block_header_size]
    if len(raw) != lay.block_header_size:
        raise FormatError(f'block header outside the container at {off}')
    if raw[:2] != b'\r\n' or raw[-3:] != b' \r\n':
        raise FormatError(f'bad block header {raw!r} at {off}')
    d = lay.digits
    if raw[2 + d:3 + d] != b' ' or raw[3 + 2 * d:4 + 2 * d] != b' ':
        raise FormatError(f'bad block header {raw!r} at {off}')
    try:
        size, block, nxt = int(raw[2:2 + d], 16), int(raw[3 + d:3 + 2 * d], 16), int(raw[4 + 2 * d:4 + 3 * d], 16)
    except ValueError:
        raise FormatError(f'bad block header {raw!r} at {off}')
    start = off + lay.block_header_size
    if start + block > len(data):
        raise FormatError(f'block at {off} of {block} bytes is outside the container of {len(data)}')
    return size, block, nxt, start


def read_doc(lay, data, off, used):
    if off == lay.end:
        return b''
    size, block, nxt, start = _block(lay, data, off)
    used.append((off, start + block))
    out = data[start:start + min(block, size)]
    seen = {off}
    while len(out) < size:
        if nxt == lay.end:
            raise FormatError(f'document at {off} is shorter than announced: {len(out)} of {size}')
        if nxt in seen:
            raise FormatError(f'cycle in document at {off}')
        seen.add(nxt)
        _, block, nxt2, start = _block(lay, data, nxt)
        used.append((nxt, start + block))
        out += data[start:start + min(block, size - len(out))]
        nxt = nxt2
    # rest of the chain (an empty closing block is legal)
    while nxt != lay.end:
        if nxt in seen:
            raise FormatError(f'cycle in document at {off}')
        seen.add(nxt)
        _, block, nxt2, start = _block(lay, data, nxt)
        used.append((nxt, start + block))
        nxt = nxt2
    return out


def detect(data):
    return L32 if data[:4] == b'\xff\xff\xff\x7f' else L64


def read(data, lay=None):
    """-> (list of (name, raw bytes), end offset of the last block). Raises FormatError."""
    lay = lay or detect(data)
    if len(data) < lay.header_size:
        raise FormatError('short header')
    head = struct.unpack_from(lay.header, data, 0)
    if head[0] != lay.end:
        raise FormatError(f'bad container mark {head[0]:x}')
    used = [(0, lay.header_size)]
    toc = read_doc(lay, data, lay.header_size, used)
    if len(toc) % lay.idx_size:
        raise FormatError(f'directory size {len(toc)}')
    files = []
    names = set()
    for attr, body, mark in struct.iter_unpack(lay.idx, toc):
        if mark != lay.end:
            raise FormatError(f'bad directory entry mark {mark:x}')
        desc = read_doc(lay, data, attr, used)
        if len(desc) < 20:
            raise FormatError('short descriptor')
        name = desc[20:].decode('utf-16-le').split('\0')[0]
        if name in names:
            raise FormatError(f'duplicate name {name}')
        names.add(name)
        files.append((name, read_doc(lay, data, body, used)))
    used.sort()
    for (a, b), (c, d) in zip(used, used[1:]):
        if c < b:
            raise FormatError(f'blocks overlap at {c}')
    return files, max(b for a, b in used), head


class Plan:
    """How to lay out documents. `choose(n)` -> int in [0, n) drives every free decision; 0 is the simplest."""

    def __init__(self, choose):
        self.choose = choose


def write(files, lay=L32, choose=lambda n: 0, default_block=512, toc_block=None, free=False, empty_as_end=True):
    """files: list of (name, bytes). Lays the documents out in any legal way decided by choose()."""
    toc_block = toc_block or (0x200 if lay.bits == 32 else 0x10000)
    docs = []  # (chunks, name of doc)
    order = []

    def cut(data, minimum):
        """-> list of (chunk, block size)"""
        chunks = []
        rest = data
        n_cuts = choose(4)
        while n_cuts > 0 and len(rest) > 1:
            size = 1 + choose(len(rest) - 1)
            chunks.append((rest[:size], size))  # a non-final block is filled completely
            rest = rest[size:]
            n_cuts -= 1
        slack = (0, 0, 1, 7, 64, 512, 700)[choose(7)]
        size = max(len(rest) + slack, minimum if not chunks else 0, 0)
        chunks.append((rest, size))
        if choose(6) == 5:  # blocks without data at the end of a chain
            chunks += [(b'', 1 + choose(64)) for _ in range(1 + choose(3))]
        return chunks

    # directory length is known in advance
    toc_len = lay.idx_size * len(files)
    toc_chunks = []
    rest = toc_len
    if choose(3) == 0:
        first = toc_block
    else:
        first = max(1, 1 + choose(max(1, toc_len)))
    sizes = []
    while True:
        take = min(rest, first)
        sizes.append((take, first))
        rest -= take
        if rest <= 0:
            break
        first = toc_block if choose(2) == 0 else 1 + choose(max(1, rest))
    if choose(4) == 3:
        sizes += [(0, 1 + choose(64)) for _ in range(1 + choose(3))]  # empty closing blocks
    blocks = []  # physical: [doc, index in chain, chunk(bytes or None for toc), block size]
    doc_blocks = {'toc': [[None, bs] for take, bs in sizes]}
    toc_takes = [take for take, bs in sizes]
    for i, (name, data) in enumerate(files):
        garbage = (b'\0\0\0\0', b'\0\0', b'\0\0\0\0\0\0', b'\0\0\1\2\3\4', b'\0\0A\0B\0', b'')[choose(6)]
        desc = struct.pack('<QQi', choose(1 << 40) * 1000, choose(1 << 40) * 1000, 0) + name.encode(
            'utf-16-le') + garbage
        doc_blocks[('a', i)] = [[c, s] for c, s in cut(desc, 0)]
        if not data and empty_as_end and choose(2) == 1:
            doc_blocks[('d', i)] = None
        else:
            doc_blocks[('d', i)] = [[c, s] for c, s in cut(data, default_block)]
    phys = []
    for key, bl in doc_blocks.items():
        if key == 'toc' or bl is None:
            continue
        for j in range(len(bl)):
            phys.append((key, j))
    for j in range(1, len(doc_blocks['toc'])):
        phys.append(('toc', j))
    # a permutation driven by choose (0 keeps the order)
    mode = choose(3)
    if mode:
        for i in range(len(phys) - 1, 0, -1):
            j = i - choose(i + 1) if mode == 1 else i - choose(min(i, 3) + 1)
            phys[i], phys[j] = phys[j], phys[i]
    phys.insert(0, ('toc', 0))
    pos = lay.header_size
    offs = {}
    for key, j in phys:
        offs[(key, j)] = pos
        pos += lay.block_header_size + doc_blocks[key][j][1]
    toc = b''
    for i in range(len(files)):
        body = lay.end if doc_blocks[('d', i)] is None else offs[(('d', i), 0)]
        toc += struct.pack(lay.idx, offs[(('a', i), 0)], body, lay.end)
    p = 0
    for j, take in enumerate(toc_takes):
        doc_blocks['toc'][j][0] = toc[p:p + take]
        p += take
    out = bytearray(struct.pack(lay.header, lay.end, default_block, (0, len(files), 7)[choose(3)], 0))
    upper = choose(2) == 1
    for key, j in phys:
        bl = doc_blocks[key]
        chunk, size = bl[j]
        total = sum(len(c) for c, s in bl) if j == 0 else 0
        if j and choose(3) == 0:
            total = 0
        nxt = offs[(key, j + 1)] if j + 1 < len(bl) else lay.end
        fmt = '%0{}{}'.format(lay.digits, 'X' if upper else 'x')
        out += ('\r\n' + ' '.join(fmt % v for v in (total, size, nxt)) + ' \r\n').encode()
        fill = (b'\0', b'\xff', b'7', b'\r\n{')[choose(4)]
        pad = size - len(chunk)
        out += chunk + (fill * (pad // len(fill) + 1))[:pad]
    assert len(out) == pos
    return bytes(out)
