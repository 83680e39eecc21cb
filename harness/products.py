"""Products (binary files) for the checks: the real samples, and comparison of sources and of internal files."""
import io
import json
import os
import re
import zipfile
import zlib

from harness import refbrace as rb, refcontainer as rc
from harness.core import REPO

T = os.path.join(REPO, 'tests')
SAMPLES = {
    'C803': 'Configuration803/1Cv8.cf',
    'C803-16': 'Configuration803/1Cv8-16.cf',
    'CE803': 'ConfigurationExtension803/Расширение1.cfe',
    'P802': 'ExternalDataProcessor802/ВнешняяОбработка802.epf',
    'P803': 'ExternalDataProcessor803/ВнешняяОбработка803.epf',
    'R803': 'ExternalReport803/ВнешнийОтчёт803.erf',
    'apam': 'data/apam.cf',
    'apam_old': 'data/apam_old.cf',
}


def sample_path(name):
    return os.path.join(T, SAMPLES[name])


def materialise(case, path):
    """Writes the product of a case; a plain sample stays where it is."""
    if set(case) == {'sample'}:
        return sample_path(case['sample'])
    raise NotImplementedError


# ------------------------------------------------------------------------------------- internal files
def inflate(raw):
    return zlib.decompressobj(-15).decompress(raw)


def deflate(data):
    c = zlib.compressobj(6, zlib.DEFLATED, -15)
    return c.compress(data) + c.flush()


def _expand(data):
    if data[:4] == b'\xff\xff\xff\x7f':
        files, end, head = rc.read(data, rc.L32)
        return {n: d for n, d in files}
    return data


def unpack(data):
    """Product bytes -> list of containers, each {name: bytes | {name: bytes}} (independent of the code under test)."""
    res = []
    pos = 0
    while pos < len(data):
        lay = rc.detect(data[pos:pos + 8])
        files, end, head = rc.read(data[pos:], lay)
        res.append({n: _expand(inflate(d)) for n, d in files})
        pos += end
    return res


def pack(containers):
    """The inverse, in the simplest layout."""
    out = b''
    for i, files in enumerate(containers):
        items = []
        for name in sorted(files):
            data = files[name]
            if isinstance(data, dict):
                data = rc.write(sorted(data.items()), rc.L32)
            items.append((name, deflate(data)))
        out += rc.write(items, rc.L64 if i else rc.L32)
    return out


_cache = {}


def sample_containers(name):
    if name not in _cache:
        with open(sample_path(name), 'rb') as f:
            _cache[name] = unpack(f.read())
    return [{k: (dict(v) if isinstance(v, dict) else v) for k, v in c.items()} for c in _cache[name]]


# ------------------------------------------------------------------------------------- comparing sources
TOP = ('Configuration.json', 'ConfigurationExtension.json', 'ExternalDataProcessor.json', 'ExternalReport.json')


def normalise_top(data):
    obj = json.loads(data.decode('utf-8'))
    if 'versions' in obj:
        obj['versions'] = norm_versions(obj['versions'])
    for key in ('configinfo',):
        if key in obj:
            obj[key] = norm_configinfo(obj[key])
    return json.dumps(obj, ensure_ascii=False, indent=1).encode()


def norm_versions(v):
    """[["1", n, '""', uuid, '"name"', uuid...]] -> sorted names"""
    items = v[0]
    return [items[0], items[1], sorted(items[2::2])]


def norm_configinfo(v):
    return v[:2] + [[v[2][0], sorted(x for x in v[2][1::2])]]


def comparable_sources(path):
    """{relative path: bytes} with the parts that legitimately differ between two builds normalised."""
    from harness.core import read_tree
    return comparable_tree(read_tree(path))


def comparable_tree(tree):
    res = {}
    for name, data in tree.items():
        base = name.rsplit('/', 1)[-1]
        if name in TOP:
            data = normalise_top(data)
        elif base == 'dummy.zip':
            z = zipfile.ZipFile(io.BytesIO(data))
            for info in sorted(z.namelist()):
                if not info.endswith('/'):
                    res[f'{name}!{info}'] = z.read(info)
            continue
        res[name] = data
    return res
