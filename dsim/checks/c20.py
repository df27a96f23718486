"""C20: whatever was put into an input object, what it writes can be read back and is what it reports."""
import importlib
import io
import math

import numpy as np

from dsim import anyfile
from dsim.core import PlanError
from dsim.simfs import SimFS, read_bytes, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe, hard, same_scalar, write_faults

ID = 'C20'
RUNS = {'quick': 24000, 'thorough': 300000}
RULE = ('Seeded histories on INCAR, POSCAR and KPOINTS objects built from files, strings and dictionaries: edits and '
        'whole dictionaries with values from a pool that goes far beyond what such files can hold (wrong numbers of '
        'elements, wrong types, line breaks and separators inside texts, entries that do not fit each other, absent '
        'entries, not-a-number), between renderings and writes under delivery schedules and storage faults. A refused '
        'edit must leave the object as it was, and everything rendered or written normally is read back and compared '
        'with what the object reports. Non-trivial: something unusual was accepted and written, or refused.')
REAL = ['Incar, Poscar and Kpoints from /repo', 'the file system below the scratch directory',
        'CPython buffered and text I/O']
STUB = ['raw file I/O below the scratch directory (fault-injecting wrapper)', 'the client program (generated history)']

NAN, INF = float('nan'), float('inf')
EYE = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]
TEXTS = ['', ' ', 'a', 'a b', 'a\nb', 'a\n', '\na', 'a\rb', 'a\r\nENCUT = 5', 'a;b', 'a = b', 'a#b', 'a # b # c', '#', '# a', ';',
         'x.t.y', 'n.F.m', '.TRUE.', '.t.', 'T', '5', '1.0', '1 2 3', '1 2.5', 'nan', 'caf\u00e9', 'a\tb', 'a\x0bb', 'a\x0cb',
         'a\u2028b', 'a\x85b', '  a  ', 'Direct', 'line', 'explicit', 'automatic', 'Gamma', 'Monkhorst-Pack', 'Reciprocal', 'gamma',
         '!a', 'a ! b', 'Tetrahedra', '0', '3*1.0', '1e5', '.5', 'a\ud800b', '\udcff']
SCALARS = [None, True, False, 0, 1, -3, 7, 10**20, 2.5, 0.0, -1e-9, 1e300, 123456.789, NAN, INF]
LISTS = [[], [1, 2, 3], [4, 4, 4], [-1, 0, 2], [1, 2], [1, 2, 3, 4], [0.5, 0.5, 0.5], [0.5, 0.5], [0.0] * 4, [True, False, True],
         [True, 1, 2], ['a', 'b'], ['a', 'b c'], ['a', ''], ['a\nb'], ['a=b', 'c'], ['a#b'], [';'], ['x.t.y', '.f.'], [None], [[]],
         EYE, EYE[:2], EYE + EYE[:1], [EYE[0], EYE[1], [0.0, 1.0]], [EYE[0], EYE[1], [0, 0, 1]], [EYE[0], EYE[1], 'abc'],
         [[1, 1, 1, 1, 1]], [[1, 1, 1, 1]], [[1, 1, 1, 1, 1, 1]], [[1, 1, 1, 1, 1.0]], [[1.0, 0.0, 0.0, 0.5], [0.0, 1.0, 0.0, 0.5], [0.0, 0.0, 1.0, 0.5]],
         [[2.0, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 2.0, 0.0], [0.0, 0.0, 0.0, 2.0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
         [['a', 'b', 'c']] * 3, [[0.0] * 3] * 3, [[NAN] * 3] * 3, [[1, 2, 1, 2, 1], [2, 1, 1, 1, 1]], [{}], [1e300], [NAN, 1.0, 2.0]]
OTHER = [{}, (1, 2, 3), (4, 4, 4), {1}, b'a', 1j, (0.5, 0.5, 0.5)]
VALUES = TEXTS + SCALARS + LISTS + OTHER
TAGS = ['ENCUT', 'magmom', 'SYSTEM', 'LWAVE', 'Algo', 'm_constr', 'MY_TAG', ' encut ', 'EN CUT', 'A=B', '', ' ', 'A#B', 'a;b', 'a\nb', 'ENCUT =',
        '1', '#encut', 'a\tb', 5, None]
COMMENTS = [None, None, '', 'a', 'a b', 'a\nENCUT = 3', 'a\n', '# a', 'a = b', 'a; b', 'a\rb', 5, 'a\udc80']
TEXT_TAGS = ('system', 'magmom', 'm_constr')
ENTRIES = {'kpoints': ['comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode',
                       'centering', 'num_kpoints', 'nothing'],
           'poscar': ['comment', 'unitcell', 'sites', 'nothing']}
VECTORS = [[0.1, 0.2, 0.3], [0.1, 0.2, 0.3], [0.1, 0.2, 0.3], [0.1, 0.2], [0.1, 0.2, 0.3, 0.4], [], EYE, 0.5, [NAN, 0.0, 0.0], [1, 2, 3], 'abc',
           ['0.1', '0.2', '0.3'], [None, None, None], [1e300, -1e20, 0.0]]
FLAGS = [None, None, [True, True, True], [True, False, True], [False], [True] * 4, 'TFT', False, [1, 0, 1], ['T', 'F', 'T'], [None, True, True]]
SPECIES = ['Fe', 'o', 'Fe', 'H', '', ' ', 'Fe O', 'fe\n', 'a\nb', 'Fe_pv', '5', 'Si/abc', '#a', 'X;y', 'X\udc80']
WEIGHTS = [1.0, 0.0, None, 2, -1.0, NAN, 'x', True, [1.0]]


def _odd_site(rng):
    return {'specie': rng.randrange(len(SPECIES)) if rng.chance(0.5) else 0,
            'position': rng.randrange(len(VECTORS)) if rng.chance(0.4) else 0,
            'selective': rng.randrange(len(FLAGS)) if rng.chance(0.5) else 0,
            'velocities': rng.choice([None, None, 0, rng.randrange(len(VECTORS))]),
            'predictors': rng.choice([None, None, 0, rng.randrange(len(VECTORS))]),
            'direct': rng.chance(0.8), 'array': rng.chance(0.8)}


def _odd_point(rng):
    return {'point': rng.randrange(len(VECTORS)) if rng.chance(0.5) else 0,
            'weight': rng.randrange(len(WEIGHTS)) if rng.chance(0.5) else 0, 'direct': rng.chance(0.9),
            'array': rng.chance(0.8)}


def _item(rng, kind):
    return _odd_site(rng) if kind == 'poscar' else _odd_point(rng)


def _value(rng, kind, name):
    if name in ('sites', 'points') and rng.chance(0.7):
        return {'items': [_item(rng, kind) for _ in range(rng.choice([0, 1, 2, 3]))]}
    if name in ('unitcell', 'divisions', 'generating_vectors', 'shifts', 'tetra') and rng.chance(0.8):
        return {'value': len(TEXTS) + len(SCALARS) + rng.randrange(len(LISTS)), 'array': rng.chance(0.8 if name == 'unitcell' else 0.1)}
    return {'value': rng.randrange(len(VALUES)), 'array': rng.chance(0.3)}


def gen_op(rng, kind, content):
    roll = rng.random()
    if roll < 0.2:
        fmt = importlib.import_module('dsim.formats.' + kind)
        return {'op': 'edit', 'change': fmt.gen_edit(rng, content)}
    if roll < 0.62:
        if kind == 'incar':
            return {'op': 'set', 'name': rng.randrange(6) if rng.chance(0.7) else rng.randrange(len(TAGS)),
                    'value': _value(rng, kind, None), 'comment': rng.randrange(len(COMMENTS))}
        name = rng.pick(ENTRIES[kind])
        op = {'op': 'set', 'name': name, 'value': _value(rng, kind, name)}
        if name in ('sites', 'points') and rng.chance(0.4):
            op['value'] = _item(rng, kind)
            op['index'] = rng.choice([0, 0, 1, 2, 99, 'a', 1.5, True])
        return op
    if roll < 0.72:
        op = {'op': 'rebuild', 'drop': rng.chance(0.2)}
        if kind == 'incar':
            op.update(name=rng.randrange(len(TAGS)), value=_value(rng, kind, None))
        else:
            op['name'] = rng.pick(ENTRIES[kind])
            op['value'] = _value(rng, kind, op['name'])
        return op
    if roll < 0.85:
        return {'op': 'render'}
    op = {'op': 'write', 'delivery': delivery_plan(rng), 'handle': rng.chance(0.2)}
    if kind == 'incar' and rng.chance(0.5):
        op['comments'] = True
    if rng.chance(0.2):
        op['faults'] = write_faults(rng)
    return op


def generate(rng, tier):
    kind = rng.choice(anyfile.WRITABLE)
    item = anyfile.gen_file(rng, kind)
    item['options'] = anyfile.gen_options(rng, item)
    if kind == 'incar':
        item['options'] = {'validate_tags': rng.chance(0.3)}
    item['dict'] = rng.chance(0.4)
    return {'file': item, 'ops': [gen_op(rng, kind, item['content']) for _ in range(rng.randint(2, 12))]}


# ------------------------------------------------------------------------------------------ the client
def check_plan(plan):
    item = plan['file']
    try:
        fmt = importlib.import_module('dsim.formats.' + item['kind'])
        if item['kind'] not in anyfile.WRITABLE:
            raise PlanError('kind')
        fmt.check_valid(item['content'])
        dict(item['options'])  # pylint: disable=expression-not-assigned
        for op in plan['ops']:
            if op['op'] not in ('edit', 'set', 'rebuild', 'render', 'write'):
                raise PlanError('op')
            if op['op'] == 'edit':
                fmt.check_valid_edit(op['change'])
            elif op['op'] in ('set', 'rebuild'):
                make(item['kind'], op['name'] if item['kind'] != 'incar' else None, op['value'])
                if item['kind'] == 'incar':
                    TAGS[op['name']], COMMENTS[op.get('comment', 0)]  # pylint: disable=expression-not-assigned
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as exc:
        raise PlanError(str(exc)) from exc


def _vector(num, array):
    value = VECTORS[num]
    if array and isinstance(value, list):
        return np.array(value)
    return list(value) if isinstance(value, list) else value


def make(kind, name, spec):
    """Value of an edit; a callable, as building it can already be refused."""
    if 'items' in spec:
        parts = [make(kind, name, part) for part in spec['items']]
        return lambda: [part() for part in parts]
    if 'position' in spec:
        from parsevasp.poscar import Site
        flags = FLAGS[spec['selective']]
        args = [SPECIES[spec['specie']], _vector(spec['position'], spec['array']),
                list(flags) if isinstance(flags, list) else flags]
        args += [None if spec[key] is None else _vector(spec[key], spec['array']) for key in ('velocities', 'predictors')]
        return lambda: Site(*args, direct=spec['direct'])
    if 'point' in spec:
        from parsevasp.kpoints import Kpoint
        return lambda: Kpoint(_vector(spec['point'], spec['array']), WEIGHTS[spec['weight']], spec['direct'])
    value = VALUES[spec['value']]
    if isinstance(value, list):
        value = [list(part) if isinstance(part, list) else part for part in value]
        if spec['array'] and len({np.shape(part) for part in value}) < 2:
            value = np.array(value)
    return lambda: value


def base_dict(item):
    fmt = importlib.import_module('dsim.formats.' + item['kind'])
    return fmt.real_dict(fmt.source_dict(item['content'], item['style']))


def change(item, obj, op):
    kind = item['kind']
    if op['op'] == 'edit':
        fmt = importlib.import_module('dsim.formats.' + kind)
        fmt.edit_real(fmt.resolve(op['change'], fmt.source_model(item['content'], {})), obj)
        return
    if kind == 'incar':
        obj.modify(TAGS[op['name']], make(kind, None, op['value'])(), COMMENTS[op['comment']])
        return
    value = make(kind, op['name'], op['value'])()
    if 'index' in op:
        obj.modify(op['name'], value, **{{'poscar': 'site_number', 'kpoints': 'point_number'}[kind]: op['index']})
    else:
        obj.modify(op['name'], value)


def rebuild(item, obj, op):
    kind = item['kind']
    if kind == 'incar':
        given, name = dict(obj.get_dict()), TAGS[op['name']]
    else:
        given, name = base_dict(item), op['name']
    if op['drop']:
        given.pop(name, None)
    else:
        given[name] = make(kind, name, op['value'])()
    return anyfile.parser(kind)(**{kind + '_dict': given}, **item['options'])


def execute(plan, ctx):
    check_plan(plan)
    item = plan['file']
    kind = item['kind']
    fsys = SimFS(ctx.root)
    path = ctx.path('input')
    write_bytes(path, anyfile.bytes_of(item))
    if item['dict']:
        built = attempt(anyfile.parser(kind), **{kind + '_dict': base_dict(item)}, **item['options'])
    else:
        built = anyfile.parse(kind, item['options'], file_path=path)
    ctx.log('built', kind, built.label())
    if not built.ok:
        return
    obj = built.value
    write_bytes(ctx.path('out'), b'what was here before\n')
    fsys.install()
    try:
        for num, op in enumerate(plan['ops']):
            if op['op'] in ('edit', 'set'):
                before = state(kind, obj)
                out = attempt(change, item, obj, op)
                ctx.log(num, op['op'], out.label())
                if not out.ok:
                    refused(ctx, out, 'an edit')
                    compare_state(ctx, kind, obj, before, f'edit {num} was refused with {out.label()}')
            elif op['op'] == 'rebuild':
                before = state(kind, obj)
                out = attempt(rebuild, item, obj, op)
                ctx.log(num, 'rebuild', out.label())
                if out.ok:
                    obj = out.value
                else:
                    refused(ctx, out, 'a dictionary')
                    compare_state(ctx, kind, obj, before, f'dictionary {num} was refused with {out.label()}')
            elif op['op'] == 'render':
                out = attempt(obj.get_string)
                ctx.log(num, 'render', out.label())
                if out.ok:
                    verify(ctx, item, obj, out.value, False, f'rendering {num}')
                else:
                    refused(ctx, out, 'a rendering')
            else:
                write(ctx, fsys, item, obj, op, num)
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def refused(ctx, out, what):
    ctx.nontrivial = True
    ctx.probe(f'refused {what}')
    if isinstance(out.exc, SystemExit) and out.exc.code in (0, None):
        ctx.fail('pretended', f'{what} is refused with an exit that means success')


def write(ctx, fsys, item, obj, op, num):
    kwargs = {'comments': True} if op.get('comments') else {}
    path = ctx.path('out')
    before, content = state(item['kind'], obj), read_bytes(path)
    handle = None
    if op['handle']:
        handle = kwargs['file_handler'] = io.StringIO()
    else:
        kwargs['file_path'] = path
    fsys.begin(op.get('faults') or [], op.get('delivery'))
    out = attempt(obj.write, **kwargs)
    fired = fsys.end()
    ctx.log(num, 'write', out.label(), fired)
    check_fds(ctx, fsys, [], f'write {num}')
    if out.ok:
        text = handle.getvalue() if handle else read_bytes(path).decode('utf8')
        verify(ctx, item, obj, text, bool(op.get('comments')), f'write {num}')
        return
    refused(ctx, out, 'a write')
    compare_state(ctx, item['kind'], obj, before, f'write {num} failed with {out.label()}')
    if not hard(fired) and (handle.getvalue() if handle else read_bytes(path) != content):
        ctx.fail('refused-but-changed', f'write {num}: refused with {out.label()}, but something was written')


# ------------------------------------------------------------------------------------------ oracle
def _plain(value):
    if isinstance(value, np.ndarray):
        return ['array', _plain(value.tolist())]
    if isinstance(value, (list, tuple)):
        return [_plain(part) for part in value]
    if isinstance(value, dict):
        return {str(key): _plain(part) for key, part in value.items()}
    if type(value).__name__ in ('Site', 'Kpoint'):
        return [type(value).__name__, _plain(vars(value))]
    return repr(value)


def state(kind, obj):
    """Everything the object says about itself."""
    out = {'dict': attempt(lambda: _plain(obj.get_dict()))}
    out['text'] = attempt(obj.get_string)
    if kind == 'incar':
        out['comments'] = attempt(lambda: [_plain(obj.get(tag, comment=True)) for tag in obj.get_dict()])
    return {key: val.value if val.ok else val.label() for key, val in out.items()}


def compare_state(ctx, kind, obj, before, what):
    now = state(kind, obj)
    for key, val in before.items():
        if now[key] != val:
            ctx.fail('refused-but-changed', f'{what}: {key} was {describe(val, 300)} and is {describe(now[key], 300)}')


def _same(one, two, prec):
    if isinstance(one, (list, tuple)) and isinstance(two, (list, tuple)):
        return len(one) == len(two) and all(_same(a, b, prec) for a, b in zip(one, two))
    if isinstance(one, dict) and isinstance(two, dict):
        return set(one) == set(two) and all(_same(one[key], two[key], prec) for key in one)
    numbers = (int, float)
    if isinstance(one, numbers) and isinstance(two, numbers):
        if prec is None and (isinstance(one, bool) != isinstance(two, bool) or isinstance(one, int) != isinstance(two, int)):
            return False
        if math.isnan(one) or math.isnan(two):
            return math.isnan(one) and math.isnan(two)
        tol = 0.0 if prec is None else 0.51 * 10.0**-prec + 4e-16 * abs(one)
        return one == two or abs(one - two) <= tol
    return type(one) is type(two) and one == two


def _native(value):
    """Plain Python values, whatever container or number type they came in."""
    if isinstance(value, np.ndarray):
        value = value.tolist()
    if isinstance(value, (list, tuple)):
        return [_native(part) for part in value]
    if isinstance(value, np.generic):
        return value.item()
    return value


def content(kind, obj):
    """What the object reports, reduced to what its mode says is in force."""
    got = obj.get_dict()
    if kind == 'incar':
        return {tag: [' '.join(_text(word) for word in _words(value))] if tag in TEXT_TAGS else _words(value)
                for tag, value in got.items()}
    if kind == 'poscar':
        sites = [{'specie': item['specie'], 'position': _native(item['position']), 'flags': _flags(item['selective']),
                  'velocities': _native(item['velocities']), 'predictors': _native(item['predictors'])}
                 for item in got['sites']]
        return {'unitcell': _native(got['unitcell']), 'sites': sites}
    mode = got['mode']
    out = {'mode': mode}
    if mode == 'automatic':
        out.update({key: _native(got[key]) for key in ('centering', 'divisions', 'generating_vectors')})
        out['shifts'] = [0.0, 0.0, 0.0] if got['shifts'] is None else _native(got['shifts'])
    elif mode in ('explicit', 'line'):
        out['points'] = [_native(item[0]) for item in got['points']]
        if mode == 'line':
            out['num_kpoints'] = got['num_kpoints']
        else:
            out['weights'] = [1.0 if item[1] is None else item[1] for item in got['points']]
            out['tetra'], out['volume'] = got['tetra'], got['tetra_volume'] if got['tetra'] is not None else None
    return out


def _flags(flags):
    flags = _native(flags)
    if isinstance(flags, list) and all(flag in (0, 1) for flag in flags if not isinstance(flag, str)) and all(
            isinstance(flag, (bool, int)) for flag in flags):
        return [bool(flag) for flag in flags]
    return ['not flags', repr(flags)]


def _words(value):
    """The words an INCAR value consists of."""
    if isinstance(value, (list, tuple, np.ndarray)):
        return [word for part in value for word in _words(part)]
    if isinstance(value, np.generic):
        value = value.item()
    if isinstance(value, str):
        return value.split()
    if isinstance(value, float) and not math.isfinite(value):
        return [str(value)]
    return [value]


def _text(word):
    return {True: '.TRUE.', False: '.FALSE.'}[word] if isinstance(word, bool) else str(word)


def _kind(word):
    if isinstance(word, bool):
        return 'text'
    try:
        return 'text' if not math.isfinite(float(word)) or '_' in str(word) else 'int' if int(float(word)) == float(word) and str(
            word).lstrip('+-').isdigit() else 'float'
    except (ValueError, TypeError):
        return 'text'


def _same_word(one, two):
    if isinstance(one, str) and not isinstance(two, str):
        if isinstance(two, bool):
            return one.lower() in (('.true.', '.t.') if two else ('.false.', '.f.'))
        try:
            return float(one) == float(two)
        except ValueError:
            return False
    return same_scalar(one, two)


def _grouped(sites):
    out = {}
    for site in sites:
        out.setdefault(site['specie'], []).append(site)
    return out


def verify(ctx, item, obj, text, comments, what):
    """The text was accepted by the writer: it must be readable and say what the object says."""
    kind = item['kind']
    ctx.nontrivial = True
    ctx.probe('accepted ' + kind)
    options = dict(item['options'])
    if kind == 'incar':
        # Edits do not ask if a tag is known
        options['validate_tags'] = False
    back = attempt(anyfile.parser(kind), **{kind + '_string': text}, **options)
    if kind == 'incar' and any(len({_kind(word) for word in words}) > 1 for words in content(kind, obj).values()):
        # Words of different types, which the reader does not take
        ctx.probe('mixed list')
        return
    if not back.ok:
        ctx.fail('unreadable', f'{what}: {describe(text, 400)} was written for {describe(_plain(obj.get_dict()), 400)}, '
                 f'reading it gives {back.label()} {describe(back.exc, 150)}')
    want, got = content(kind, obj), content(kind, back.value)
    prec = None
    if kind != 'incar':
        prec = options.get('prec')
        prec = {'poscar': 12, 'kpoints': 9}[kind] if prec is None else prec
    if kind == 'poscar' and not options.get('conserve_order'):
        want['sites'], got['sites'] = _grouped(want['sites']), _grouped(got['sites'])
    for key in sorted(set(want) | set(got)):
        if kind == 'incar' and len(want.get(key, [])) == len(got.get(key, [])) and key in want and key in got and all(
                map(_same_word, want[key], got[key])):
            continue
        if kind == 'incar' or not _same(want.get(key), got.get(key), prec):
            ctx.fail('other-content', f'{what}: {key} is reported as {describe(want.get(key), 300)}, but what was written '
                     f'reads {describe(got.get(key), 300)}: {describe(text, 300)}')
    if kind == 'incar':
        if comments:
            for tag in want:
                one, two = obj.get(tag, comment=True)[1], back.value.get(tag, comment=True)[1]
                if (one or None) != (two or None):
                    ctx.fail('other-content', f'{what}: the comment of {tag} is {one!r}, what was written reads {two!r}')
        return
    comment = obj.get_dict()['comment']
    if comment and ' '.join(comment.split()) not in ' '.join(text.split('\n', 1)[0].split()):
        ctx.fail('other-content', f'{what}: the comment is {comment!r}, the first line is {describe(text[:200])}')
