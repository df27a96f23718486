"""KPOINTS: logical content, sources, edits, observation."""
import copy

from dsim.core import PlanError

NAME = 'KPOINTS'
KEYS = ['comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode', 'centering',
        'num_kpoints']
COMMENTS = ['mesh', 'Example file', 'k-points along  high symmetry', 'caf\u00e9 2x2', 'a = b', '4', 'mesh #3', 'D',
            'Automatic mesh 0.5', '! odd', 'graphite, #', 'run #']
CENTER = {'G': 'Gamma', 'M': 'Monkhorst-Pack'}


def _coord(rng):
    return rng.choice([0.0, 0.5, 0.25, 1.0, -0.5, 1 / 3, 2 / 3, -1 / 3, 0.1, rng.uniform(-1, 1), rng.uniform(-1, 1),
                       rng.uniform(-20, 20), 1e-05, -2e-10])


def _vec(rng):
    return [_coord(rng) for _ in range(3)]


def _point(rng):
    weight = rng.choice([1.0, 1.0, 2.0, 4.0, 0.5, 0.125, 48.0, 0.0, rng.uniform(0, 3)])
    return [_vec(rng), weight]


def _explicit(rng):
    num = rng.choice([1, 1, 2, 3, rng.randint(4, 12)])
    if rng.chance(0.006):
        num = rng.choice([99, 100, 101, 1001])
    points = [_point(rng) for _ in range(num)]
    if rng.chance(0.15):
        # A point without a weight (column)
        for point in points:
            if rng.chance(0.4):
                point[1] = None
    tetra = vol = None
    if rng.chance(0.35):
        tetra = [[rng.randint(1, 50)] + [rng.randint(1, len(points)) for _ in range(4)]
                 for _ in range(rng.randint(1, 4))]
        vol = rng.choice([0.183333333333333, 1.0, rng.uniform(0.001, 1)])
    return {'mode': 'explicit', 'points': points, 'tetra': tetra, 'tetra_volume': vol, 'num_kpoints': len(points),
            'divisions': None, 'generating_vectors': None, 'shifts': None, 'centering': None}


def _automatic(rng):
    return {'mode': 'automatic', 'centering': rng.choice(['Gamma', 'Monkhorst-Pack']),
            'divisions': [rng.choice([1, 2, 3, 9, 12, 100]) for _ in range(3)], 'generating_vectors': None,
            'shifts': rng.choice([None, [0.0, 0.0, 0.0], [0.5, 0.5, 0.5], _vec(rng)]), 'points': None, 'tetra': None,
            'tetra_volume': None, 'num_kpoints': 0}


def _reciprocal(rng):
    return {'mode': 'automatic', 'centering': 'Reciprocal', 'divisions': None,
            'generating_vectors': [_vec(rng) for _ in range(3)], 'shifts': _vec(rng), 'points': None, 'tetra': None,
            'tetra_volume': None, 'num_kpoints': 0}


def _line(rng):
    points = [[_vec(rng), 1.0] for _ in range(2 * rng.randint(1, 5))]
    return {'mode': 'line', 'points': points, 'num_kpoints': rng.choice([10, 40, 1, 2, 125]), 'tetra': None,
            'tetra_volume': None, 'divisions': None, 'generating_vectors': None, 'shifts': None, 'centering': None}


def gen_content(rng):
    maker = rng.weighted([(_explicit, 4), (_automatic, 3), (_line, 4), (_reciprocal, 1)])
    content = maker(rng)
    content['comment'] = rng.choice([None, '', rng.pick(COMMENTS), rng.pick(COMMENTS), rng.pick(COMMENTS)])
    return content


def gen_options(rng):
    return {'prec': rng.choice([None, None, 4, 12, 15])}


def gen_edit(rng, content):
    mode = content['mode']
    roll = rng.random()
    if roll < 0.12:
        return {'edit': 'set', 'entry': 'comment', 'value': rng.pick(COMMENTS)}
    if roll < 0.30:
        return {'edit': 'bad', 'bad': rng.randrange(24)}
    if roll < 0.42:
        maker = rng.pick([_explicit, _automatic, _line, _reciprocal])
        return {'edit': 'switch', 'content': maker(rng)}
    if mode in ('explicit', 'line'):
        kind = rng.weighted([('point', 4), ('delete', 4), ('points', 2), ('num', 1), ('tetra', 2)])
        if kind == 'point':
            return {'edit': 'point', 'index': rng.randint(0, len(content['points'])), 'value': _point(rng)}
        if kind == 'delete':
            return {'edit': 'delete', 'index': rng.randint(0, len(content['points']))}
        if kind == 'points':
            return {'edit': 'points', 'value': [_point(rng) for _ in range(rng.randint(1, 6))], 'also': rng.chance(0.5)}
        if kind == 'num':
            return {'edit': 'set', 'entry': 'num_kpoints', 'value': rng.randint(1, 60)}
        new = _explicit(rng)
        return {'edit': 'tetra', 'tetra': new['tetra'], 'volume': new['tetra_volume']}
    kind = rng.randrange(4)
    if kind == 0:
        return {'edit': 'set', 'entry': 'divisions', 'value': [rng.randint(1, 20) for _ in range(3)]}
    if kind == 1:
        return {'edit': 'set', 'entry': 'shifts', 'value': _vec(rng)}
    if kind == 2:
        return {'edit': 'set', 'entry': 'generating_vectors', 'value': [_vec(rng) for _ in range(3)]}
    return {'edit': 'set', 'entry': 'centering', 'value': rng.choice(['Gamma', 'Monkhorst-Pack'])}


# ------------------------------------------------------------------------------------------ model
def model(content, options):
    mod = {key: copy.deepcopy(content[key]) for key in KEYS}
    mod['prec'] = (options or {}).get('prec') or 9
    mod['num_known'] = True
    return mod


def _round(value, prec):
    return float(f'{value:.{prec}f}')


def _rvec(vec, prec):
    return [_round(item, prec) for item in vec]


def sampling(mod):
    """What the file has to say: the logical sampling at printed precision."""
    prec, mode = mod['prec'], mod['mode']
    out = {'mode': mode, 'comment': 'No comment' if mod['comment'] is None else mod['comment']}
    if mode == 'explicit':
        out['points'] = [_rvec(point, prec) + [_round(1.0 if weight is None else weight, prec)]
                         for point, weight in mod['points']]
        out['num_kpoints'] = len(mod['points'])
        if mod['tetra'] is not None:
            out['tetra'] = mod['tetra']
            out['tetra_volume'] = _round(mod['tetra_volume'], prec)
    elif mode == 'line':
        out['points'] = [_rvec(point, prec) for point, _ in mod['points']]
        out['num_kpoints'] = mod['num_kpoints']
    else:
        out['num_kpoints'] = 0
        out['centering'] = mod['centering']
        if mod['centering'] == 'Reciprocal':
            out['generating_vectors'] = [_rvec(vec, prec) for vec in mod['generating_vectors']]
        else:
            out['divisions'] = mod['divisions']
        out['shifts'] = _rvec(mod['shifts'] or [0.0, 0.0, 0.0], prec)
    return out


def written(mod, _opts):
    return mod


def as_read(mod):
    """The object the library must build from the written file."""
    smp = sampling(mod)
    new = {key: smp.get(key) for key in KEYS}
    if mod['mode'] == 'explicit':
        new['points'] = [[item[:3], item[3]] for item in smp['points']]
    elif mod['mode'] == 'line':
        new['points'] = [[item, 1.0] for item in smp['points']]
    new['prec'] = mod['prec']
    new['num_known'] = True
    return new


def source_text(content, style):
    style = style or [0]
    idx = 0

    def nxt(num):
        nonlocal idx
        idx += 1
        return style[idx % len(style)] % num

    def fmt(value):
        if float(value).is_integer() and abs(value) < 1e6 and nxt(4) == 3:
            return str(int(value))
        return repr(float(value))

    def vec(values):
        sep = [' ', '  ', '\t'][nxt(3)]
        return ['', '  ', ' '][nxt(3)] + sep.join(fmt(item) for item in values)

    comment = 'No comment' if content['comment'] is None else content['comment']
    out = [('# ' if nxt(3) else '') + comment + ['', ' '][nxt(2)]]
    mode = content['mode']
    if mode == 'explicit':
        out.append(['{}', ' {} ', '  {} ! points'][nxt(3)].format(len(content['points'])))
        out.append(['Direct', 'D', 'Reciprocal', 'rec', ' direct '][nxt(5)])
        for point, weight in content['points']:
            line = vec(point)
            if weight is not None:
                line += ' ' + fmt(weight)
                if nxt(4) == 3:
                    line += ' ! label'
            out.append(line)
        if content['tetra'] is not None:
            out.append(['Tetrahedra', 'T', ' tetra'][nxt(3)])
            out.append(f' {len(content["tetra"])}  {fmt(content["tetra_volume"])}')
            for tet in content['tetra']:
                out.append(' '.join(str(item) for item in tet))
    elif mode == 'line':
        out.append([f' {content["num_kpoints"]}  ! intersections', str(content['num_kpoints'])][nxt(2)])
        out.append(['Line-mode', 'line', 'L', ' Line mode'][nxt(4)])
        out.append(['rec', 'Direct', 'reciprocal', 'd'][nxt(4)])
        gap = nxt(4)
        for num, (point, _) in enumerate(content['points']):
            out.append(vec(point) + ['', '   ! X', ' 1'][nxt(3)])
            if num % 2 == 1 and gap != 3 and num + 1 < len(content['points']):
                out.append(['', '', '  '][gap])
    else:
        out.append(['0', ' 0 ', '0 ! automatic'][nxt(3)])
        cen = content['centering']
        out.append({'G': ['Gamma', 'G', 'gamma-centred'], 'M': ['Monkhorst-Pack', 'M', 'monkhorst'],
                    'R': ['Reciprocal', 'R', 'rec']}[cen[0]][nxt(3)])
        if cen == 'Reciprocal':
            out.extend(vec(item) for item in content['generating_vectors'])
        else:
            out.append(' '.join(str(item) for item in content['divisions']))
        if content['shifts'] is not None:
            out.append(vec(content['shifts']))
    text = '\n'.join(out)
    return text + ['\n', '', '\n\n', '\n  \n'][nxt(4)]


def source_model(content, options):
    """A text cannot say that there is no comment or no weight column in line mode."""
    mod = model(content, options)
    if mod['comment'] is None:
        mod['comment'] = 'No comment'
    return mod


def source_dict(content, style):
    out = {key: copy.deepcopy(content[key]) for key in KEYS}
    if style and style[0] % 7 == 6 and content['mode'] == 'explicit':
        out['num_kpoints'] += style[0] % 3 + 1
    if style and style[0] % 5 == 4 and content['mode'] == 'explicit':
        out['points'][0][1] = None
    return out


def source_dict_model(content, style, options):
    src = source_dict(content, style)
    mod = model(src, options)
    mod['num_known'] = mod['mode'] != 'explicit' or mod['num_kpoints'] == len(mod['points'])
    return mod


def _kpoint(value, direct=True):
    import numpy as np
    from parsevasp.kpoints import Kpoint
    return Kpoint(np.array(value[0], dtype=float), value[1], direct=direct)


def real_dict(src):
    src = copy.deepcopy(src)
    if src['points'] is not None:
        src['points'] = [_kpoint(item) for item in src['points']]
    return src


def construct(options, **kwargs):
    names = {'text': 'kpoints_string', 'dict': 'kpoints_dict', 'file_path': 'file_path', 'file_handler': 'file_handler'}
    args = {names[key]: val for key, val in kwargs.items()}
    return construct_raw(options, **args)


def construct_raw(options, **args):
    from parsevasp.kpoints import Kpoints
    return Kpoints(prec=options.get('prec'), **args)


def edit_model(op, mod):
    """New model; None: the edit must be rejected; 'skip': outside the domain."""
    kind = op['edit']
    new = copy.deepcopy(mod)
    if kind == 'bad':
        num = op['bad']
        if num in (13, 14, 15) and mod['points'] is None:
            return 'skip'
        return None
    if kind == 'set':
        entry = op['entry']
        if entry == 'centering' and (mod['mode'] != 'automatic' or mod['centering'] == 'Reciprocal'):
            return 'skip'
        if entry == 'divisions' and mod['generating_vectors'] is not None:
            return 'skip'
        if entry == 'generating_vectors' and mod['centering'] != 'Reciprocal':
            return 'skip'
        new[entry] = op['value']
        if entry == 'num_kpoints':
            if mod['mode'] == 'automatic':
                return 'skip'
            new['num_known'] = mod['mode'] == 'line'
        return new
    if kind == 'point':
        if mod['points'] is None or op['index'] >= len(mod['points']):
            return None
        new['points'][op['index']] = op['value']
        return new
    if kind == 'delete':
        if mod['points'] is None or op['index'] >= len(mod['points']):
            return None
        if len(mod['points']) == 1:
            return 'skip'
        del new['points'][op['index']]
        if mod['mode'] == 'explicit':
            new['num_kpoints'] = len(new['points'])
            new['num_known'] = True
        elif mod['mode'] == 'automatic':
            new['num_known'] = False
        return new
    if kind == 'points':
        new['points'] = op['value']
        if mod['mode'] == 'explicit':
            new['num_kpoints'] = len(new['points'])
            new['num_known'] = True
        elif mod['mode'] == 'automatic':
            new['num_known'] = False
        return new
    if kind == 'tetra':
        if op['tetra'] is None:
            new['tetra'], new['tetra_volume'] = None, None
        else:
            new['tetra'], new['tetra_volume'] = op['tetra'], op['volume']
        return new
    if kind == 'switch':
        content = op['content']
        for entry in _switch_order(content):
            new[entry] = copy.deepcopy(content[entry])
        new['num_known'] = content['mode'] == 'line'
        return new
    raise PlanError(kind)


def _switch_order(content):
    """The order a careful user changes the entries in; entries of the other modes are left as they are."""
    if content['mode'] == 'explicit':
        return ['points', 'tetra', 'tetra_volume', 'mode']
    if content['mode'] == 'line':
        return ['points', 'num_kpoints', 'mode']
    if content['centering'] == 'Reciprocal':
        return ['generating_vectors', 'divisions', 'shifts', 'centering', 'mode']
    return ['divisions', 'generating_vectors', 'shifts', 'centering', 'mode']


def resolve(op, _mod):
    return op


def edit_real(op, obj, shared=None):
    kind = op['edit']
    if kind == 'set':
        obj.modify(op['entry'], copy.deepcopy(op['value']))
    elif kind == 'point':
        obj.modify('points', _kpoint(op['value']), point_number=op['index'])
    elif kind == 'delete':
        obj.delete_point(op['index'])
    elif kind == 'points':
        shared = {} if shared is None else shared
        if 'points' not in shared:
            shared['points'] = [_kpoint(item) for item in op['value']]
        obj.modify('points', shared['points'])
    elif kind == 'tetra':
        obj.modify('tetra', copy.deepcopy(op['tetra']))
        obj.modify('tetra_volume', op['volume'])
    elif kind == 'switch':
        for entry in _switch_order(op['content']):
            value = copy.deepcopy(op['content'][entry])
            if entry == 'points':
                value = [_kpoint(item) for item in value]
            obj.modify(entry, value)
    elif kind == 'bad':
        cart = _kpoint([[0.1, 0.2, 0.3], 1.0], direct=False)
        good = _kpoint([[0.1, 0.2, 0.3], 1.0])
        bads = [('foo', 1), ('divisions', 5), ('divisions', [1, 2.0, 3]), ('shifts', [1, 2, 3]), ('tetra', [[1, 2, 3]]),
                ('centering', 'X'), ('mode', 'foo'), ('num_kpoints', 2.5), ('points', 'abc'), ('tetra_volume', 1),
                ('points', [good, cart]), ('shifts', 0.5), ('tetra', [[1, 2, 3, 4, 5.0]])]
        num = op['bad']
        if num < len(bads):
            obj.modify(*bads[num])
        elif num == 13:
            obj.modify('points', [0.0, 0.0, 0.0], point_number=0)
        elif num == 14:
            obj.modify('points', good, point_number=10**6)
        elif num == 15:
            obj.modify('points', cart, point_number=0)
        elif num == 16:
            obj.modify('comment', 5)
        elif num == 17:
            obj.delete_point(10**6)
        elif num == 23:
            obj.add_point(0)
        else:
            obj.modify(*[('comments', 'x'), ('tetra_volumes', 0.5), ('num_kpoint', 3), ('comment', 'two\nlines'),
                         ('shifts', [0.0, 0.5])][num - 18])


def _points(raw):
    return None if raw is None else [[[float(item) for item in point], weight] for point, weight, _ in raw]


def observe(obj, mod):
    got = dict(obj.get_dict())
    raw = got.get('points')
    if raw is not None and not all(item[2] for item in raw):
        return 'get_dict: a point is not direct'
    got['points'] = _points(raw)
    for key in KEYS:
        if key == 'num_kpoints' and not mod['num_known']:
            continue
        want = mod[key]
        have = got.get(key)
        if key == 'points' and mod['mode'] == 'line' and want is not None and have is not None:
            want = [item[0] for item in want]
            have = [item[0] for item in have]
        if have != want:
            return f'get_dict: {key} is {have!r}, should be {want!r}'
        if key != 'points' and obj.get(key) != mod[key]:
            return f'get: {key} is {obj.get(key)!r}, should be {mod[key]!r}'
    extra = set(got) - set(KEYS)
    if extra:
        return f'get_dict: unknown entries {sorted(extra)}'
    if obj.get('not_there') is not None:
        return 'get of an absent entry returns something'
    return parse_diff(obj.get_string(), mod, 'get_string: ')


def read_diff(obj, mod):
    return observe(obj, mod)


def parse_text(text):
    """Independent reader of a KPOINTS file."""
    lines = text.split('\n')
    out = {'comment': lines[0].strip().lstrip('#').strip()}
    num = int(lines[1].split()[0])
    out['num_kpoints'] = num
    head = lines[2].strip().lower()
    rest = [line for line in lines[3:] if line.strip()]
    if head.startswith('l'):
        out['mode'] = 'line'
        if not rest[0].strip().lower().startswith(('r', 'd')):
            raise ValueError('line mode is not direct')
        out['points'] = [[float(item) for item in line.split()[:3]] for line in rest[1:]]
        return out
    if num <= 0:
        out['mode'] = 'automatic'
        out['centering'] = {'g': 'Gamma', 'm': 'Monkhorst-Pack', 'r': 'Reciprocal'}[head[0]]
        if head[0] == 'r':
            out['generating_vectors'] = [[float(item) for item in line.split()] for line in rest[:3]]
            rest = rest[3:]
        else:
            out['divisions'] = [int(item) for item in rest[0].split()]
            rest = rest[1:]
        out['shifts'] = [float(item) for item in rest[0].split()]
        if len(rest) != 1:
            raise ValueError(f'trailing lines {rest[1:]}')
        return out
    out['mode'] = 'explicit'
    if head[0] in 'kc':
        raise ValueError('not direct')
    out['points'] = [[float(item) for item in line.split()] for line in rest[:num]]
    if len(out['points']) != num or any(len(item) != 4 for item in out['points']):
        raise ValueError(f'{num} points announced, listed: {out["points"]}')
    rest = rest[num:]
    if rest:
        if not rest[0].strip().lower().startswith('t'):
            raise ValueError(f'{num} points announced, but the list goes on: {rest[0]!r}')
        count, vol = rest[1].split()
        out['tetra'] = [[int(item) for item in line.split()] for line in rest[2:]]
        out['tetra_volume'] = float(vol)
        if len(out['tetra']) != int(count):
            raise ValueError('number of tetrahedra')
    return out


def parse_diff(text, want, prefix=''):
    smp = sampling(want)
    try:
        got = parse_text(text)
    except (ValueError, IndexError, KeyError) as exc:
        return f'{prefix}not readable as KPOINTS: {exc!r}'
    if set(got) != set(smp):
        return f'{prefix}has {sorted(got)}, should have {sorted(smp)}'
    for key in sorted(smp):
        if got[key] != smp[key]:
            return f'{prefix}{key} is {got[key]!r}, should be {smp[key]!r}'
    return None


def gen_write_opts(_rng):
    return {}


def rebase(_obj, mod):
    return mod


def check_valid(content):
    if set(content) != set(KEYS):
        raise PlanError('keys')
    mode = content['mode']
    if content['comment'] is not None and content['comment'] not in COMMENTS + ['']:
        raise PlanError('comment')
    if mode in ('explicit', 'line'):
        _check_points(content['points'])
        if mode == 'line' and content['num_kpoints'] < 1:
            raise PlanError('num_kpoints')
        if mode == 'explicit' and content['num_kpoints'] != len(content['points']):
            content['num_kpoints'] = len(content['points'])
        if (content['tetra'] is None) != (content['tetra_volume'] is None) or content['tetra'] == []:
            raise PlanError('tetra')
        for tet in content['tetra'] or []:
            _ints(tet, 5)
    elif mode == 'automatic':
        if content['centering'] == 'Reciprocal':
            if len(content['generating_vectors']) != 3:
                raise PlanError('vectors')
            for vec in content['generating_vectors']:
                _floats(vec)
            _floats(content['shifts'])
        elif content['centering'] in ('Gamma', 'Monkhorst-Pack'):
            _ints(content['divisions'], 3)
            if content['shifts'] is not None:
                _floats(content['shifts'])
        else:
            raise PlanError('centering')
    else:
        raise PlanError('mode')


def _floats(vec):
    if len(vec) != 3 or not all(isinstance(item, float) for item in vec):
        raise PlanError('vector')


def _ints(vec, num):
    if len(vec) != num or not all(isinstance(item, int) and not isinstance(item, bool) for item in vec):
        raise PlanError('integers')


def _check_points(points):
    if not points:
        raise PlanError('points')
    for point, weight in points:
        _floats(point)
        if weight is not None and not isinstance(weight, float):
            raise PlanError('weight')


def check_valid_edit(op):
    kind = op['edit']
    if kind == 'switch':
        check_valid(dict(op['content'], comment=''))
    elif kind == 'point':
        _check_points([op['value']])
    elif kind == 'points':
        _check_points(op['value'])
    elif kind == 'tetra':
        if (op['tetra'] is None) != (op['volume'] is None) or op['tetra'] == []:
            raise PlanError('tetra')
        for tet in op['tetra'] or []:
            _ints(tet, 5)
    elif kind == 'set':
        entry, value = op['entry'], op['value']
        if entry == 'comment' and value not in COMMENTS:
            raise PlanError('comment')
        if entry == 'divisions':
            _ints(value, 3)
        if entry == 'shifts':
            _floats(value)
        if entry == 'generating_vectors':
            if len(value) != 3:
                raise PlanError('vectors')
            for vec in value:
                _floats(vec)
        if entry == 'num_kpoints' and not (isinstance(value, int) and value > 0):
            raise PlanError('num')
        if entry == 'centering' and value not in ('Gamma', 'Monkhorst-Pack'):
            raise PlanError('centering')
    elif kind in ('delete',):
        if not isinstance(op['index'], int) or op['index'] < 0:
            raise PlanError('index')


# ------------------------------------------------------------------------------- sources outside the format
BAD_SOURCES = ['cartesian', 'short', 'word', 'tetra-row', 'auto', 'expert', 'key', 'type']


def bad_source(content, style, bad, pick, _options):
    """A source that says something the library cannot represent: (kind, text or dictionary)."""
    mode = content['mode']
    if bad in ('key', 'type'):
        built = real_dict(source_dict(content, style))
        values = {'comment': [5, ['a']], 'divisions': ['abc', 5, [1.5, 2, 3], ['1', '2', '3']], 'shifts': ['a', 5, ['1', 2, 3]],
                  'points': ['abc', 5], 'tetra': [5, 'a', [1], [[1.5, 1, 1, 1, 1]]], 'tetra_volume': ['a', [1.0]],
                  'mode': ['grid', 5, 'Line-mode'], 'centering': ['Gamma-point', 5, 'X'], 'num_kpoints': ['a', 1.5, None]}
        key = sorted(values)[pick % len(values)]
        if bad == 'key':
            del built[key]
        else:
            built[key] = values[key][pick // len(values) % len(values[key])]
        return 'dict', built
    text = source_text(content, style).rstrip().split('\n')
    if bad == 'cartesian':
        if mode == 'automatic':
            raise PlanError('no coordinates')
        text[2 if mode == 'explicit' else 3] = ['Cartesian', 'k', 'cart', 'Kartesian'][pick % 4]
        if mode == 'line' and text[3][0] in 'kK':
            text[3] = 'Cartesian'
    elif bad == 'short':
        if mode != 'explicit':
            raise PlanError('no list')
        del text[3 + pick % len(content['points'])]
    elif bad == 'word':
        row = 3 if mode != 'line' else 4
        fields = text[row].split()
        fields[pick % 3] = ['abc', '1.0.0', '*****', '0,5'][pick % 4]
        text[row] = ' '.join(fields)
    elif bad == 'tetra-row':
        if not content['tetra']:
            raise PlanError('no tetrahedra')
        text[-1] = [text[-1] + ' 1', ' '.join(text[-1].split()[:4])][pick % 2]
    else:
        text[1:] = ['0'] + {'auto': [['Auto', '20'], ['a', ' 10 ']],
                            'expert': [['Direct', '0.25 0 0', '0 0.25 0', '0 0 0.25', '0 0 0'], ['Cart', '0.25 0 0', '0 0.25 0', '0 0 0.25', '0 0 0']]}[bad][pick % 2]
    return 'text', '\n'.join(text) + '\n'


def source_args(text=None, dictionary=None):
    return {'kpoints_string': text, 'kpoints_dict': dictionary}
