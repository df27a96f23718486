"""POSCAR: logical content, sources, edits, observation."""
import copy

import numpy as np

from dsim.core import PlanError

NAME = 'POSCAR'
SPECIES = ['Si', 'O', 'Ga', 'As', 'H', 'Fe', 'C', 'Na', 'Cl', 'U', 'Fe_pv', 'H1.25', 'Ti_sv/7f3a']
COMMENTS = ['GaAs', 'hexagonal cell  no 2', 'caf\u00e9', 'Direct', 'Compound: Si2.', '1.0 2.0', 'slab #7', 'x = y', 'C#', 'slab, #']


def _num(rng):
    return rng.choice([0.0, 0.25, 0.5, 0.75, 1 / 3, 2 / 3, -0.1, 1.0, rng.random(), rng.random(), rng.uniform(-2, 2),
                       1e-09, -3e-07, 1.25])


def _vec(rng):
    return [_num(rng) for _ in range(3)]


def _cell(rng):
    kind = rng.randrange(4)
    size = rng.choice([1.0, 3.57, 5.43, 11.5, rng.uniform(1, 25)])
    if kind == 0:
        return [[size, 0.0, 0.0], [0.0, size, 0.0], [0.0, 0.0, size]]
    if kind == 1:
        half = size / 2
        return [[0.0, half, half], [half, 0.0, half], [half, half, 0.0]]
    cell = [[size if row == col else rng.uniform(-0.3, 0.3) * size for col in range(3)] for row in range(3)]
    if kind == 3:
        cell = [cell[1], cell[2], cell[0]]
    return cell


def _site(rng, species, selective, velocities, predictors):
    return {'specie': rng.pick(species), 'position': _vec(rng),
            'selective': [rng.chance(0.5) for _ in range(3)] if selective and rng.chance(0.7) else [True, True, True],
            'velocities': [rng.uniform(-0.5, 0.5) for _ in range(3)] if velocities else None,
            'predictors': [rng.uniform(-0.9, 0.9) for _ in range(3)] if predictors else None}


def gen_content(rng):
    species = rng.sample(SPECIES, rng.randint(1, 4))
    num = rng.choice([1, 2, 3, 4, 8, rng.randint(1, 14)])
    if rng.chance(0.004):
        num = rng.choice([99, 100, 101, 130, 1001])
    vel, pred, sel = rng.chance(0.4), rng.chance(0.35), rng.chance(0.5)
    return {'comment': rng.choice([None, '', rng.pick(COMMENTS), rng.pick(COMMENTS)]), 'unitcell': _cell(rng),
            'sites': [_site(rng, species, sel, vel, pred) for _ in range(num)]}


def gen_options(rng):
    return {'prec': rng.choice([None, None, 6, 9, 15]), 'conserve_order': rng.chance(0.5),
            'write_direct': rng.chance(0.7)}


def gen_edit(rng, content):
    roll = rng.random()
    num = len(content['sites'])
    if roll < 0.10:
        return {'edit': 'comment', 'value': rng.pick(COMMENTS)}
    if roll < 0.22:
        return {'edit': 'unitcell', 'value': _cell(rng)}
    if roll < 0.40:
        return {'edit': 'bad', 'bad': rng.randrange(16)}
    if roll < 0.62:
        return {'edit': 'delete', 'index': rng.randint(0, num)}
    if roll < 0.88:
        return {'edit': 'site', 'index': rng.randint(0, num), 'value': _site(rng, SPECIES, True, True, True),
                'cart': rng.chance(0.25)}
    new = gen_content(rng)
    return {'edit': 'sites', 'value': new['sites'], 'cart': rng.chance(0.25), 'also': rng.chance(0.5)}


# ------------------------------------------------------------------------------------------ model
def model(content, options):
    options = options or {}
    return {'comment': content['comment'], 'cell': copy.deepcopy(content['unitcell']),
            'sites': copy.deepcopy(content['sites']), 'prec': options.get('prec') or 12,
            'conserve': bool(options.get('conserve_order')), 'direct': options.get('write_direct', True), 'tol': 0.0,
            'ordered': True, 'cart': False}


def source_model(content, options):
    mod = model(content, options)
    mod['comment'] = mod['comment'] or ''
    # Exchange blocks: in the file the sites are grouped the way they are listed.
    mod['tol'] = 1e-9
    return mod


def written(mod, _opts):
    return mod


def as_read(mod):
    new = copy.deepcopy(mod)
    new['tol'] = 0.51 * 10.0**-mod['prec']
    new['ordered'] = mod['conserve']
    new['cart'] = not mod['direct']
    new['comment'] = ('contains', mod['comment'] or '')
    return new


def _cart(vec, cell):
    return [sum(vec[k] * cell[k][i] for k in range(3)) for i in range(3)]


def source_text(content, style):
    style = style or [0]
    idx = 0

    def nxt(num):
        nonlocal idx
        idx += 1
        return style[idx % len(style)] % num

    def row(values):
        sep = ['  ', ' ', '\t', '   '][nxt(4)]
        short = nxt(4) == 3
        return ['', '  ', '     '][nxt(3)] + sep.join(
            str(int(item)) if short and float(item).is_integer() and abs(item) < 1e6 else repr(float(item)) for item in values)

    scale = [1.0, 1.0, 3.57, 0.5, 0.02][nxt(5)]
    cell = content['unitcell']
    out = [('# ' if nxt(2) else '') + (content['comment'] or '')]
    out.append(['{}', '   {}', '{}   ! scaling'][nxt(3)].format(scale))
    out.extend(row([item / scale for item in vec]) for vec in cell)
    names, counts = [], []
    for site in content['sites']:
        if names and names[-1] == site['specie']:
            counts[-1] += 1
        else:
            names.append(site['specie'])
            counts.append(1)
    case = nxt(3)
    out.append(['', '  '][nxt(2)] + '  '.join([name, name.upper(), name.lower()][case] for name in names))
    out.append(['', '  '][nxt(2)] + '   '.join(str(item) for item in counts))
    selective = any(False in site['selective'] for site in content['sites']) or nxt(5) == 4
    if selective:
        out.append(['Selective dynamics', 'S', 'selective'][nxt(3)])
    direct = nxt(3) != 2
    # Only C, c, K and k as the first character mean Cartesian coordinates
    out.append((['Direct', 'D', 'direct coordinates', 'Fractional', ' Direct', 'Reduced'] if direct else
                ['Cartesian', 'Kartesian', 'cart', 'k', 'C', 'car'])[nxt(6)])
    for site in content['sites']:
        pos = site['position'] if direct else [item / scale for item in _cart(site['position'], cell)]
        line = row(pos)
        if selective:
            yes, noo = [('T', 'F'), ('.TRUE.', '.FALSE.'), ('t', 'f')][nxt(3)]
            line += ' ' + ' '.join(yes if flag else noo for flag in site['selective'])
        if nxt(6) == 5:
            line += ' ' + site['specie']
        out.append(line)
    if content['sites'][0]['velocities'] is not None:
        vdirect = nxt(2) == 0
        out.append((['Direct', 'direct'] if vdirect else ['Cartesian', 'c', 'Kartesian'])[nxt(2 + (not vdirect))])
        for site in content['sites']:
            out.append(row(site['velocities'] if vdirect else _cart(site['velocities'], cell)))
    if content['sites'][0]['predictors'] is not None:
        out.append(['', ' ', '   ', '\t'][nxt(4)])
        for site in content['sites']:
            out.append(row(site['predictors']))
    return '\n'.join(out) + ['\n', '', '\n\n', '\n \n\n'][nxt(4)]


def source_dict(content, style):
    style = style or [0]
    return {'content': copy.deepcopy(content), 'kind': ['plain', 'site'][style[0] % 2],
            'cart': style[-1] % 3 == 2, 'noflags': style[-1] % 5 == 4}


def source_dict_model(content, style, options):
    mod = model(content, options)
    if source_dict(content, style)['cart']:
        mod['tol'] = 1e-9
    return mod


def _real_site(site, cart=False, cell=None):
    from parsevasp.poscar import Site
    pos, vel, pred = site['position'], site['velocities'], site['predictors']
    if cart:
        pos = _cart(pos, cell)
        vel = None if vel is None else _cart(vel, cell)
    sel = list(site['selective'])
    return Site(site['specie'], np.array(pos), selective=sel,
                velocities=None if vel is None else np.array(vel),
                predictors=None if pred is None else np.array(pred), direct=not cart)


def real_dict(src):
    content = src['content']
    cell = content['unitcell']
    sites = []
    for site in content['sites']:
        if src['kind'] == 'site':
            sites.append(_real_site(site, src['cart'], cell))
            continue
        new = dict(site)
        if src['cart']:
            new['position'] = _cart(site['position'], cell)
            if site['velocities'] is not None:
                new['velocities'] = _cart(site['velocities'], cell)
        for key in ('position', 'velocities', 'predictors'):
            new[key] = None if new[key] is None else np.array(new[key])
        if src['noflags'] and False not in new['selective']:
            new['selective'] = None
        new['direct'] = not src['cart']
        sites.append(new)
    return {'comment': content['comment'], 'unitcell': np.array(cell), 'sites': sites}


def construct(options, **kwargs):
    names = {'text': 'poscar_string', 'dict': 'poscar_dict', 'file_path': 'file_path', 'file_handler': 'file_handler'}
    args = {names[key]: val for key, val in kwargs.items()}
    return construct_raw(options, **args)


def construct_raw(options, **args):
    from parsevasp.poscar import Poscar
    return Poscar(prec=options.get('prec'), conserve_order=bool(options.get('conserve_order')),
                  write_direct=options.get('write_direct', True), **args)


def resolve(op, mod):
    """Make an edit fit the structure it is applied to: velocities and predictors are all or none."""
    if op['edit'] in ('site', 'sites'):
        op = copy.deepcopy(op)
        op['cell'] = mod['cell']
    if op['edit'] == 'site' and len(mod['sites']) > 1:
        other = mod['sites'][0]
        for key in ('velocities', 'predictors'):
            if other[key] is None:
                op['value'][key] = None
            elif op['value'][key] is None:
                op['value'][key] = [0.125, -0.25, 0.0625]
    return op


def edit_model(op, mod):
    kind = op['edit']
    new = copy.deepcopy(mod)
    if kind == 'bad':
        return None
    if kind == 'comment':
        new['comment'] = op['value']
    elif kind == 'unitcell':
        new['cell'] = op['value']
    elif kind == 'site':
        if op['index'] >= len(mod['sites']):
            return None
        new['sites'][op['index']] = op['value']
    elif kind == 'sites':
        new['sites'] = op['value']
    elif kind == 'delete':
        if op['index'] >= len(mod['sites']):
            return None
        if len(mod['sites']) == 1:
            return 'skip'
        del new['sites'][op['index']]
    else:
        raise PlanError(kind)
    if op.get('cart'):
        new['tol'] = 1e-9
    return new


def edit_real(op, obj, shared=None):
    kind = op['edit']
    shared = {} if shared is None else shared
    if kind == 'comment':
        obj.modify('comment', op['value'])
    elif kind == 'unitcell':
        obj.modify('unitcell', np.array(op['value']))
    elif kind == 'site':
        obj.modify('sites', _real_site(op['value'], op.get('cart'), op['cell']), site_number=op['index'])
    elif kind == 'sites':
        if 'sites' not in shared:
            shared['sites'] = [_real_site(item, op.get('cart'), op['cell']) for item in op['value']]
        obj.modify('sites', shared['sites'])
    elif kind == 'delete':
        obj.delete_site(op['index'])
    else:
        site = _real_site({'specie': 'H', 'position': [0.1, 0.2, 0.3], 'selective': [True] * 3, 'velocities': None,
                           'predictors': None})
        bads = [('foo', 1), ('unitcell', [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]), ('unitcell', np.eye(2)),
                ('sites', 'abc'), ('sites', [0.0, 0.0, 0.0], 0), ('sites', site, 10**6), ('sites', site, 'a'),
                ('sites', site, 0.5)]
        num = op['bad']
        if num < len(bads):
            obj.modify(*bads[num])
        elif num == 8:
            obj.delete_site(10**6)
        elif num == 9:
            obj.modify('comment', 5)
        elif num == 15:
            obj.add_site(0)
        else:
            obj.modify(*[('comments', 'x'), ('my unitcell', np.eye(3)), ('site', [site]),
                         ('comment', 'two\nlines'), ('sites', [site, 'abc'])][num - 10])


# ------------------------------------------------------------------------------------------ comparison
def _close(one, two, tol):
    if one is None or two is None:
        return one is None and two is None
    return len(one) == len(two) and all(
        abs(a - b) <= tol * (1.0 + (1e-3 if tol < 1e-6 else 0)) + 4e-16 * abs(b) if tol else a == b
        for a, b in zip(one, two))


def _records(raw):
    out = []
    for item in raw:
        conv = {}
        for key in ('position', 'velocities', 'predictors'):
            conv[key] = None if item[key] is None else [float(num) for num in item[key]]
        out.append({'specie': item['specie'], 'selective': [bool(flag) for flag in item['selective']], **conv})
    return out


def _grouped(sites):
    out = {}
    for site in sites:
        out.setdefault(site['specie'], []).append(site)
    return out


def _sites_diff(got, want, tol, ordered, vtol=None):
    vtol = tol if vtol is None else vtol
    if not ordered:
        one, two = _grouped(got), _grouped(want)
        if sorted(one) != sorted(two):
            return f'species are {sorted(one)}, should be {sorted(two)}'
        for name in two:
            diff = _sites_diff(one[name], two[name], tol, True, vtol)
            if diff:
                return f'{name}: {diff}'
        return None
    if len(got) != len(want):
        return f'{len(got)} sites, should be {len(want)}'
    for num, (one, two) in enumerate(zip(got, want)):
        for key in ('specie', 'selective'):
            if one[key] != two[key]:
                return f'{key} of site {num} is {one[key]}, should be {two[key]}'
        for key in ('position', 'velocities', 'predictors'):
            if not _close(one[key], two[key], tol if key != 'velocities' else vtol):
                return f'{key} of site {num} is {one[key]}, should be {two[key]}'
    return None


def _to_cart(sites, cell):
    return [dict(site, position=_cart(site['position'], cell),
                 velocities=None if site['velocities'] is None else _cart(site['velocities'], cell)) for site in sites]


def _comment_diff(got, want):
    if isinstance(want, (tuple, list)):
        if want[1] not in (got or ''):
            return f'comment is {got!r}, should contain {want[1]!r}'
        return None
    return None if got == want else f'comment is {got!r}, should be {want!r}'


def observe(obj, mod):
    got = obj.get_dict()
    if set(got) != {'comment', 'unitcell', 'sites'}:
        return f'get_dict: entries {sorted(got)}'
    diff = _comment_diff(got['comment'], mod['comment'])
    if diff:
        return 'get_dict: ' + diff
    cell = [[float(num) for num in vec] for vec in got['unitcell']]
    ctol = mod['tol']
    for row in range(3):
        if not _close(cell[row], mod['cell'][row], ctol):
            return f'get_dict: cell is {cell}, should be {mod["cell"]}'
    if not all(item['direct'] for item in got['sites']):
        return 'get_dict: a site is not direct'
    sites = _records(got['sites'])
    if mod['cart']:
        tol = 2 * 10.0**-mod['prec'] + 1e-11
        diff = _sites_diff(_to_cart(sites, cell), _to_cart(mod['sites'], mod['cell']), tol, mod['ordered'])
    else:
        diff = _sites_diff(sites, mod['sites'], mod['tol'], mod['ordered'])
    if diff:
        return 'get_dict: ' + diff
    cart = _records(obj.get_dict(direct=False)['sites'])
    diff = _sites_diff(cart, _to_cart(sites, cell), 1e-9, True)
    if diff:
        return 'get_dict(direct=False): ' + diff
    if obj.get('comment') != got['comment'] or obj.get('sites') is None or obj.get('not_there') is not None or \
       not np.array_equal(obj.get('unitcell'), got['unitcell']):
        return 'get differs from get_dict'
    exact = dict(mod, sites=sites, cell=cell, comment=got['comment'])
    return parse_diff(obj.get_string(), exact, 'get_string: ')


def read_diff(obj, mod):
    return observe(obj, mod)


def rebase(obj, mod):
    """From here on the object's own numbers, which have just been found to agree with the model."""
    got = obj.get_dict()
    return dict(mod, comment=got['comment'], cell=[[float(num) for num in vec] for vec in got['unitcell']],
                sites=_records(got['sites']), tol=0.0, ordered=True, cart=False)


def parse_text(text):
    """Independent reader of a POSCAR (VASP 5 layout, scaling factor 1)."""
    lines = text.split('\n')
    if lines[-1] == '':
        lines.pop()
    out = {'comment': lines[0].strip().lstrip('#').strip(), 'scale': float(lines[1])}
    out['cell'] = [[float(item) for item in line.split()] for line in lines[2:5]]
    names = lines[5].split()
    counts = [int(item) for item in lines[6].split()]
    if len(names) != len(counts):
        raise ValueError('species and counts differ in number')
    out['names'] = names
    pos = 7
    selective = lines[pos].lower().startswith('s')
    if selective:
        pos += 1
    kind = lines[pos][:1].lower()
    if kind not in ('d', 'c'):
        raise ValueError(f'coordinate kind {lines[pos]!r}')
    out['direct'] = kind == 'd'
    pos += 1
    order = [name for name, num in zip(names, counts) for _ in range(num)]
    sites = []
    for name in order:
        words = lines[pos].split()
        pos += 1
        if len(words) != (6 if selective else 3):
            raise ValueError(f'{len(words)} fields in a position line')
        flags = [{'T': True, 'F': False}[item] for item in words[3:6]] if selective else [True, True, True]
        sites.append({'specie': name, 'position': [float(item) for item in words[:3]], 'selective': flags,
                      'velocities': None, 'predictors': None})
    out['vdirect'] = None
    if pos < len(lines) and lines[pos].strip():
        kind = lines[pos][:1].lower()
        if kind not in ('d', 'c'):
            raise ValueError(f'velocity kind {lines[pos]!r}')
        out['vdirect'] = kind == 'd'
        pos += 1
        for site in sites:
            site['velocities'] = [float(item) for item in lines[pos].split()]
            pos += 1
    if pos < len(lines):
        if lines[pos].strip():
            raise ValueError(f'unexpected {lines[pos]!r}')
        pos += 1
        for site in sites:
            site['predictors'] = [float(item) for item in lines[pos].split()]
            pos += 1
    if pos != len(lines):
        raise ValueError(f'trailing lines {lines[pos:]}')
    out['sites'] = sites
    return out


def parse_diff(text, want, prefix=''):
    try:
        got = parse_text(text)
    except (ValueError, IndexError, KeyError) as exc:
        return f'{prefix}not readable as POSCAR: {exc!r}'
    if got['scale'] != 1.0:
        got['cell'] = [[got['scale'] * item for item in vec] for vec in got['cell']]
    if want['comment'] and not isinstance(want['comment'], (tuple, list)) and want['comment'] not in got['comment']:
        return f'{prefix}comment is {got["comment"]!r}, should contain {want["comment"]!r}'
    tol = 0.5001 * 10.0**-want['prec']
    for row in range(3):
        if not _close(got['cell'][row], want['cell'][row], tol + want['tol']):
            return f'{prefix}cell is {got["cell"]}, should be {want["cell"]}'
    sites = copy.deepcopy(got['sites'])
    ref = want['sites']
    if not want['conserve'] and len(set(got['names'])) != len(got['names']):
        return f'{prefix}sites are not grouped: {got["names"]}'
    # Compare in the coordinates the file uses, so that the printed precision is the tolerance.
    if not got['direct']:
        ref = [dict(site, position=_cart(site['position'], want['cell'])) for site in ref]
    if got['vdirect'] is False:
        ref = [dict(site, velocities=None if site['velocities'] is None else _cart(site['velocities'], want['cell']))
               for site in ref]
    slack = 0.0 if got['direct'] and got['vdirect'] is not False else 1e-13
    diff = _sites_diff(sites, ref, tol + slack + want['tol'], want['conserve'])
    return prefix + diff if diff else None


def gen_write_opts(_rng):
    return {}


# ------------------------------------------------------------------------------------------ validity
def _floats(vec):
    if not isinstance(vec, list) or len(vec) != 3 or not all(isinstance(item, float) for item in vec):
        raise PlanError('vector')


def _check_cell(cell):
    if len(cell) != 3:
        raise PlanError('cell')
    for vec in cell:
        _floats(vec)
    if abs(np.linalg.det(np.array(cell))) < 1e-2:
        raise PlanError('singular')


def _check_site(site):
    _floats(site['position'])
    if site['specie'] not in SPECIES or len(site['selective']) != 3:
        raise PlanError('site')
    for key in ('velocities', 'predictors'):
        if site[key] is not None:
            _floats(site[key])


def _check_sites(sites):
    if not sites:
        raise PlanError('no sites')
    for site in sites:
        _check_site(site)
        for key in ('velocities', 'predictors'):
            if (site[key] is None) != (sites[0][key] is None):
                raise PlanError('mixed')


def check_valid(content):
    _check_cell(content['unitcell'])
    _check_sites(content['sites'])
    if content['comment'] is not None and content['comment'] not in COMMENTS + ['']:
        raise PlanError('comment')


def check_valid_edit(op):
    kind = op['edit']
    if kind == 'unitcell':
        _check_cell(op['value'])
    elif kind == 'site':
        _check_site(op['value'])
    elif kind == 'sites':
        _check_sites(op['value'])
    elif kind == 'comment' and op['value'] not in COMMENTS:
        raise PlanError('comment')
    if kind in ('site', 'delete') and (not isinstance(op['index'], int) or op['index'] < 0):
        raise PlanError('index')


# ------------------------------------------------------------------------------- sources outside the format
BAD_SOURCES = ['negative', 'no-species', 'short', 'word', 'key', 'type']


def bad_source(content, style, bad, pick, _options):
    """A source that says something the library cannot represent: (kind, text or dictionary)."""
    if bad in ('key', 'type'):
        built = real_dict(source_dict(content, style))
        key = sorted(built)[pick % 3]
        if bad == 'key':
            del built[key]
        else:
            values = {'comment': [5, ['a'], 1.5], 'unitcell': ['a', 5, None, np.eye(2), np.eye(3)[:2], np.eye(3).tolist()],
                      'sites': [5, 'a', None, [1], [[0, 0, 0]]]}[key]
            built[key] = values[pick // 3 % len(values)]
        return 'dict', built
    text = source_text(content, style).split('\n')
    first = 9 if text[7].strip()[:1].lower() == 's' else 8
    if bad == 'negative':
        text[1] = ['-1.0', ' -160.5', '-1e2 ! volume'][pick % 3]
    elif bad == 'no-species':
        del text[5]
    elif bad == 'short':
        del text[first + pick % len(content['sites'])]
    else:
        row = [2 + pick % 3, first + pick % len(content['sites'])][pick % 2]
        fields = text[row].split()
        fields[pick % 3] = ['abc', '1.0.0', '*****', '0,5'][pick % 4]
        text[row] = ' '.join(fields)
    return 'text', '\n'.join(text) + '\n'


def source_args(text=None, dictionary=None):
    return {'poscar_string': text, 'poscar_dict': dictionary}
