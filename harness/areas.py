"""Reference model of include areas in module text, independent of the code under test."""
import os
import posixpath
import re

START = re.compile(r'#Область (include|includr)_(.*)$', re.S)


def lines_of(text):
    """Lines with their ends, LF only."""
    parts = text.split('\n')
    res = [p + '\n' for p in parts[:-1]]
    if parts[-1]:
        res.append(parts[-1])
    return res


def mark(line):
    """-> ('start', reader?, name, directive) | ('start', None, None, None) | ('end',) | None"""
    s = line.strip()
    if s.startswith('#КонецОбласти'):
        return ('end',)
    if s.startswith('#Область'):
        m = START.match(s)
        if m:
            parts = m.group(2).strip().split(' //')
            return ('start', m.group(1) == 'includr', parts[0], parts[1] if len(parts) > 1 else None)
        return ('start', None, None, None)
    return None


def without_directive(line):
    """A directive line marked as dynamic loses the directive, its indent stays."""
    m = re.match(r'([ \t]*)&.* (//DynamicDirective.*)$', line, re.S)
    return m.group(1) + m.group(2) if m else line


def split(text):
    """-> (root text, {area name: (text, reader?, name of the area it stands in or None)}): what an extraction writes."""
    root = []
    areas = {}
    stack = []  # (name, lines) or None (ordinary area)
    for line in lines_of(text):
        m = mark(line)
        line = without_directive(line)
        if m and m[0] == 'end':
            if stack:
                stack.pop()
            next((x for x in reversed(stack) if x is not None), (None, root))[1].append(line)
            continue
        owner, target = next((x for x in reversed(stack) if x is not None), (None, root))
        target.append(line)
        if m:
            if m[1] is None:
                stack.append(None)
            else:
                body = []
                areas[m[2]] = (body, m[1], areas[m[2]][2] if m[2] in areas else owner)
                stack.append((m[2], body))
    return ''.join(root), {k: (''.join(v), r, o) for k, (v, r, o) in areas.items()}


def file_of(name, folder):
    """Path of the area file relative to the sources, as the documentation describes it; folder: where the file is that
    holds the marks of the area."""
    parts = name.split('_')
    if len(parts) == 1:
        return posixpath.normpath(posixpath.join(folder, parts[0] + '.bsl'))
    dirs = ['..' if x == '' else x for x in parts[:-1]]
    return posixpath.normpath(posixpath.join('..', *dirs, parts[-1] + '.bsl'))


def files_of(text, folder):
    """-> (root text, {path relative to the sources: (text, reader?)}) or None if two areas lead to one file."""
    root, areas = split(text)
    paths, res = {}, {}
    for name, (body, reader, owner) in areas.items():
        base = folder if owner is None else posixpath.dirname(paths[owner])
        paths[name] = file_of(name, base)
        if paths[name] in res and res[paths[name]] != (body, reader):
            return None
        res[paths[name]] = (body, reader)
    return root, res


def join(text, get, folder, depth=0, directive=None):
    """Puts area texts back: get(path) -> text of the area file."""
    assert depth < 50
    out = []
    for line in lines_of(text):
        if directive and line.strip().startswith('//DynamicDirective'):
            body = line.lstrip()
            line = f'{line[:len(line) - len(body)]}{directive} {body}'
        out.append(line)
        m = mark(line)
        if m and m[0] == 'start' and m[1] is not None:
            path = file_of(m[2], folder)
            out.append(join(get(path), get, posixpath.dirname(path), depth + 1, m[3] if m[3] is not None else directive))
    return ''.join(out)
