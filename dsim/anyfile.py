"""Any file the library reads: generated content, every way to hand it over, and what the parser says (C05, C06)."""
import hashlib
import importlib
import io

import numpy as np

from dsim.core import PlanError
from dsim.util import SlowText, attempt
from dsim.vasp import monitor, oxml, tables, voutcar, vtables, vxml

WRITABLE = ['incar', 'kpoints', 'poscar']
TABLES = {'eigenval': 'EIGENVAL', 'doscar': 'DOSCAR', 'chgcar': 'CHGCAR', 'potcar': 'POTCAR'}
KINDS = WRITABLE + list(TABLES) + ['outcar', 'xml', 'stream']


# ------------------------------------------------------------------------------------------------ content
def gen_file(rng, kind=None):
    kind = kind or rng.weighted([('incar', 3), ('kpoints', 3), ('poscar', 3), ('eigenval', 2), ('doscar', 2), ('chgcar', 2),
                                 ('potcar', 2), ('outcar', 3), ('xml', 4), ('stream', 2)])
    out = {'kind': kind}
    if kind in WRITABLE:
        fmt = importlib.import_module('dsim.formats.' + kind)
        out.update(content=fmt.gen_content(rng), style=[rng.randrange(1000) for _ in range(rng.randint(1, 6))])
    elif kind in TABLES:
        out['spec'] = vtables.gen_spec(rng, TABLES[kind])
    elif kind == 'outcar':
        out['spec'] = voutcar.gen_spec(rng, tables=rng.chance(0.6))
    elif kind == 'xml':
        out['spec'] = vxml.gen_spec(rng)
    else:
        from dsim.checks import c11
        out['runs'] = c11.generate(rng, 'quick')['runs']
    return out


def gen_mangle(rng):
    """What may happen to a file before it is read: nothing, other line ends, a cut, a damaged byte."""
    out = []
    if rng.chance(0.2):
        out.append({'kind': 'crlf', 'style': rng.choice(['\r\n', '\r\n', '\r'])})
    if rng.chance(0.15):
        out.append({'kind': 'cut', 'at': rng.random()})
    if rng.chance(0.15):
        for _ in range(rng.randint(1, 3)):
            out.append({'kind': 'byte', 'at': rng.random(), 'with': rng.choice('*x.-# \tT0\n;=!<\x0b\x0c\x1c\x85\u2028')})
    if rng.chance(0.06):
        out.append({'kind': 'head', 'text': rng.choice(['\n', ' ', '\ufeff', '\n\n'])})
    if rng.chance(0.1):
        out.append({'kind': 'tail', 'text': rng.choice(['\n', ' \n', '\n\n\n', 'junk', '\0\0\0\0', '\t'])})
    return out


def gen_variant(rng, item):
    """A file that differs from the given one only in a few places."""
    out = dict(item)
    out['mangle'] = list(item.get('mangle', []))
    for _ in range(rng.choice([1, 1, 2, 3, 10])):
        out['mangle'].append({'kind': rng.weighted([('digit', 4), ('dropline', 2), ('dupline', 1)]), 'at': rng.random(),
                              'with': rng.choice('0123456789')})
    return out


def text_of(item):
    """The text of the file (latin-1 bytes for XML)."""
    kind = item['kind']
    try:
        if kind in WRITABLE:
            fmt = importlib.import_module('dsim.formats.' + kind)
            fmt.check_valid(item['content'])
            text = fmt.source_text(item['content'], item['style'])
        elif kind in TABLES:
            if item['spec']['kind'] != TABLES[kind]:
                raise PlanError('another kind')
            text = vtables.build(item['spec']).data().decode('utf8')
        elif kind == 'outcar':
            voutcar.check_spec(item['spec'])
            text = voutcar.build(item['spec']).data().decode('ascii')
        elif kind == 'xml':
            vxml.check_spec(item['spec'])
            text = vxml.build(item['spec']).data().decode('iso-8859-1')
        elif kind == 'stream':
            from dsim.checks import c11
            text = b''.join(c11.printed(run) for run in item['runs']).decode('utf8', 'ignore')
        else:
            raise PlanError('unknown kind')
        for step in item.get('mangle', []):
            text = mangled(text, step)
    except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError, AttributeError) as exc:
        raise PlanError(str(exc)) from exc
    return text


def mangled(text, step):
    kind = step['kind']
    if kind == 'crlf':
        return text.replace('\n', step['style'])
    if kind == 'cut':
        return text[:int(step['at'] * len(text))]
    if kind == 'head':
        return step['text'] + text
    if kind == 'tail':
        return text + step['text']
    pos = int(step['at'] * len(text))
    if kind == 'digit':
        # The next digit becomes another one
        while pos < len(text) and text[pos] not in '0123456789':
            pos += 1
        return text[:pos] + step['with'] + text[pos + 1:]
    if kind in ('dropline', 'dupline'):
        lines = text.splitlines(keepends=True)
        num = int(step['at'] * len(lines))
        return ''.join(lines[:num] + (lines[num:num + 1] * 2 if kind == 'dupline' else []) + lines[num + 1:])
    return text[:pos] + step['with'] + text[pos + 1:]


def bytes_of(item):
    return text_of(item).encode('iso-8859-1' if item['kind'] == 'xml' else 'utf8', 'replace')


# ------------------------------------------------------------------------------------------------ parsing
def gen_options(rng, item):
    kind = item['kind']
    if kind == 'xml':
        return {'event': rng.chance(0.5), 'k_before_band': rng.chance(0.2), 'extract_all': rng.chance(0.8)}
    if kind == 'doscar':
        return {'non_collinear': item['spec']['spin'] == 4 if rng.chance(0.9) else rng.chance(0.5)}
    if kind == 'incar':
        return {'validate_tags': rng.chance(0.7)}
    if kind == 'poscar':
        return rng.choice([{}, {}, {'conserve_order': True}, {'prec': 6}])
    if kind == 'kpoints':
        return rng.choice([{}, {}, {'prec': 6}])
    if kind == 'stream':
        return {'history': rng.chance(0.5)}
    return {}


def ways(kind):
    if kind == 'xml':
        return ['path', 'handle', 'bytes']
    return ['path', 'handle', 'stringio', 'slow'] + (['text'] if kind in WRITABLE else [])


def parser(kind):
    name = {'xml': 'vasprun'}.get(kind, kind)
    return getattr(importlib.import_module('parsevasp.' + name), 'Xml' if kind == 'xml' else name.capitalize())


def text_name(kind):
    return {'incar': 'incar_string', 'poscar': 'poscar_string', 'kpoints': 'kpoints_string'}[kind]


def parse(kind, options, **source):
    return attempt(parser(kind), **dict(options, **source))


def report(kind, options, obj):
    """Everything the object says, as name -> value."""
    if kind in WRITABLE:
        out = {'dict': obj.get_dict()}
        out['string'] = obj.get_string()
        if kind == 'incar':
            for tag in obj.get_dict():
                out['entry', tag] = obj.get(tag, comment=True)
        else:
            handle = io.StringIO()
            done = attempt(obj.write, file_handler=handle)
            out['written'] = handle.getvalue() if done.ok else done.label()
        return out
    if kind in TABLES:
        return tables.observe({'kind': TABLES[kind]}, obj)
    if kind == 'outcar':
        return {'snapshot': monitor.snapshot(obj)}
    if kind == 'xml':
        return oxml.observe(obj)
    return {'entries': [tuple(getattr(item, name) for name in ('kind', 'regex', 'message', 'suggestion', 'location',
                                                               'recover', 'inverse', 'shortname'))
                        for item in obj.entries], 'number': obj.number_of_entries, 'has': obj.has_entries}


def canonical(value):
    """A text that is the same exactly for the same value."""
    if isinstance(value, np.ndarray):
        if value.dtype.names:
            return 'struct' + str(value.shape) + '{' + ','.join(
                f'{name}:{canonical(value[name])}' for name in value.dtype.names) + '}'
        return f'array{value.shape}{value.dtype.kind}{canonical(value.tolist())}'
    if isinstance(value, dict):
        return '{' + ','.join(f'{canonical(key)}:{canonical(item)}' for key, item in value.items()) + '}'
    if isinstance(value, (list, tuple)):
        return type(value).__name__[0] + '[' + ','.join(map(canonical, value)) + ']'
    if isinstance(value, (np.floating, float)):
        return repr(float(value))
    if isinstance(value, (np.integer, np.bool_)):
        return repr(value.item())
    if isinstance(value, oxml.Raised):
        return f'Raised({type(value.exc).__name__})'
    if isinstance(value, re_pattern):
        return f'regex({value.pattern})'
    if value is None or isinstance(value, (str, int, bool, bytes)):
        return repr(value)
    if hasattr(value, '__dict__'):
        return type(value).__name__ + canonical({key: item for key, item in vars(value).items()
                                                 if 'logger' not in key and not callable(item)})
    if isinstance(value, (set, frozenset)):
        return 'set' + canonical(sorted(map(canonical, value)))
    return type(value).__name__


re_pattern = type(__import__('re').compile(''))


def digest(kind, options, out):
    """What came of a parse, comparable between processes: [[name, hash, beginning], ...] or the failure."""
    if not out.ok:
        # lxml names the same malformed document differently if it opened the file itself.
        label = 'malformed' if kind == 'xml' and out.label() in ('XMLSyntaxError', 'OSError') else out.label()
        return [['failure', label, repr(out.exc)[:200]]]
    seen = attempt(report, kind, options, out.value)
    if not seen.ok:
        return [['report', seen.label(), repr(seen.exc)[:200]]]
    res = []
    for key, value in seen.value.items():
        text = canonical(value)
        res.append([str(key), hashlib.sha1(text.encode('utf8', 'backslashreplace')).hexdigest()[:16], text[:300]])
    return sorted(res)


def difference(one, two):
    """First difference between two digests, or None."""
    left, right = {item[0]: item for item in one}, {item[0]: item for item in two}
    for key in sorted(set(left) | set(right)):
        have, want = left.get(key), right.get(key)
        if have is None or want is None or have[1] != want[1]:
            return f'{key}: {have[2] if have else "nothing"} instead of {want[2] if want else "nothing"}'
    return None


class Source:
    """One way of handing a file over; keeps the handles of the caller."""

    def __init__(self, item, way, path, data, opener, chunks=None, raise_at=None, prefix=''):
        self.kind = item['kind']
        self.way = way
        self.handle = None
        text = None if self.kind == 'xml' else io.StringIO(data.decode('utf8'), newline=None).read()
        if way == 'path':
            self.args = {'file_path': path}
        elif way == 'handle':
            self.handle = opener(path, 'rb') if self.kind == 'xml' else opener(path, 'r', encoding='utf8')
        elif way == 'bytes':
            self.handle = io.BytesIO(data)
        elif way == 'stringio':
            self.handle = io.StringIO(text)
        elif way == 'slow':
            self.handle = SlowText(text, chunks or []) if raise_at is None else FailingText(text, chunks or [], *raise_at)
        elif way == 'text':
            self.args = {text_name(self.kind): data.decode('utf8')}
        else:
            raise PlanError('unknown way')
        self.start = 0
        if self.handle is not None:
            self.args = {'file_handler': self.handle}
            if prefix:
                # What the caller read before, it is in front of the content at `path` already
                if way == 'stringio':
                    self.handle = self.args['file_handler'] = io.StringIO(prefix + text)
                elif way != 'handle' or self.kind == 'xml':
                    raise PlanError('no text handle')
                self.handle.read(len(prefix))
                self.start = self.handle.tell()

    def close(self):
        if self.handle is not None:
            self.handle.close()


class FailingText(SlowText):
    """A pipe that breaks after a number of characters."""

    def __init__(self, text, sizes, after, exc):
        super().__init__(text, sizes)
        self._after = after
        self._exc = exc
        self.fired = 0
        self.sticky = True

    def _break(self):
        if self.sticky or not self.fired:
            self.fired += 1
            raise self._exc

    def read(self, size=-1):
        if self._pos + (len(self._text) if size is None or size < 0 else size) > self._after and \
                (self.sticky or not self.fired):
            left = self._after - self._pos
            if size is None or size < 0 or left <= 0:
                self._pos = max(self._pos, self._after)
                self._break()
            size = left
        return super().read(size)

    def readline(self, size=-1):
        before = self._pos
        line = super().readline(size)
        if before + len(line) > self._after or not line:
            if self.sticky or not self.fired:
                self._break()
        return line
