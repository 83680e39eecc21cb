"""Independent reading and writing of 1C bracket texts.

A value is a list, or a string: an atom as written (number, identifier, date), a quoted string kept in its quotes with
inner quotes doubled, or '#base64:....' without line breaks. `{}` denotes a list with one empty atom."""
import re


class BraceError(Exception):
    pass


def decode_text(raw):
    """bytes -> (text with LF line ends, encoding)"""
    if raw[:3] == b'\xef\xbb\xbf':
        text, enc = raw[3:].decode('utf-8'), 'utf-8-sig'
    else:
        try:
            text, enc = raw.decode('utf-8'), 'utf-8'
        except UnicodeDecodeError:
            text, enc = raw.decode('windows-1251'), 'windows-1251'
    return text.replace('\r\n', '\n').replace('\r', '\n'), enc


_plain = re.compile(r'[^,{}"\n]+')
_quoted = re.compile(r'"(?:[^"]|"")*"')


def parse_lenient(text):
    """Like parse; closing brackets after the end of the last object (seen in real products) are ignored."""
    while True:
        try:
            return parse(text)
        except BraceError as err:
            body = text.rstrip('\n')
            if not str(err).startswith('closing bracket') or body[-1:] != '}':
                raise
            text = body[:-1]


def parse(text):
    """-> list of root values (the file may hold several objects separated by commas). Raises BraceError."""
    pos = 0
    n = len(text)
    root = []
    stack = []
    cur = None  # list being filled
    value = None  # pending atom text of the current element
    done = False  # the current element is a finished list
    while pos < n:
        ch = text[pos]
        if ch == '\n':
            pos += 1
            continue
        if ch == '{':
            if value or done:
                raise BraceError(f'object after a value at {pos}')
            new = []
            if cur is None:
                root.append(new)
            else:
                cur.append(new)
            stack.append(cur)
            cur, value, done = new, None, False
            pos += 1
            continue
        if ch == '}':
            if cur is None:
                raise BraceError(f'closing bracket at {pos}')
            if not done:
                cur.append(value or '')
            cur = stack.pop()
            value, done = None, True
            pos += 1
            continue
        if ch == ',':
            if cur is None:
                if not done:
                    raise BraceError(f'comma at {pos}')
            elif not done:
                cur.append(value or '')
            value, done = None, False
            pos += 1
            continue
        if cur is None:
            raise BraceError(f'text outside an object at {pos}')
        if ch == '"':
            m = _quoted.match(text, pos)
            if not m:
                raise BraceError(f'unterminated string at {pos}')
            if value or done:
                raise BraceError(f'string after a value at {pos}')
            value = m.group()
            pos = m.end()
            continue
        if done or (value and value[0] == '"'):
            raise BraceError(f'atom after a value at {pos}')
        m = _plain.match(text, pos)
        value = (value or '') + m.group()
        pos = m.end()
    if cur is not None:
        raise BraceError('text ends inside an object')
    return root


def norm(tree):
    """'##base64:' (single line mark of the tool) and '#base64:' denote the same data."""
    if isinstance(tree, list):
        return [norm(x) for x in tree]
    if tree is None:
        return ''
    if tree.startswith('##base64:'):
        return tree[1:]
    return tree


def serialise(tree, choose=lambda n: 0, nl='\n', root=True):
    """Platform style text: every nested object starts on its own line, a closing bracket of an object that ends with an
    object stands on its own line. choose(n) picks among legal layouts; 0 is the platform's."""
    if root:
        return (',' + nl).join(serialise(x, choose, nl, False) for x in tree)
    out = ['{']
    for i, x in enumerate(tree):
        last = i == len(tree) - 1
        if isinstance(x, list):
            out.append(nl + serialise(x, choose, nl, False))
            if last:
                out.append(nl)
        else:
            out.append(atom(x, choose, nl))
        if not last:
            out.append(',')
    out.append('}')
    return ''.join(out)


def atom(x, choose, nl):
    if x.startswith('##base64:'):
        return x[1:]
    if x.startswith('#base64:'):
        body = x
        lines = [body[:72]] + [body[i:i + 64] for i in range(72, len(body), 64)]
        sep = ('\r\n' if nl == '\n' else nl, nl, '\r\r\n')[choose(3)]
        return sep.join(lines)
    return x
