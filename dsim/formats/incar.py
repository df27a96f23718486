"""INCAR: logical content, sources, edits, observation."""
import math
import re

from dsim.core import PlanError
from dsim.util import same_scalar

NAME = 'INCAR'
BOOL_TAGS = ['lreal', 'lwave', 'lcharg', 'lorbit', 'lvtot', 'lasph', 'lepsilon', 'addgrid']
TAGS = ['encut', 'ediff', 'ediffg', 'ismear', 'sigma', 'nsw', 'nelm', 'ibrion', 'isif', 'ispin', 'prec', 'algo', 'gga',
        'ldauu', 'ldauj', 'ldaul', 'ropt', 'kpar', 'npar', 'potim', 'lmaxmix', 'nbands', 'emin', 'emax', 'metagga', 'saxis', 'langevin_gamma', 'quad_efg', 'rwigs', 'dipol', 'ferwe', 'smass', 'tebeg'] + BOOL_TAGS
TEXT_TAGS = ['system', 'magmom', 'm_constr']
CUSTOM = ['my_tag', 'zz9', 'x_1']
WORDS = ['Accurate', 'Normal', 'Fast', 'Very_Fast', 'Auto', 'PE', 'RP', 'Low', 'A', 'T', 'F', 'abc', '3*0.5', 'On',
         'Damped', 'x-y', 'e', 'E', 'd', 'RTPSS', '2*1', 'scan', 'q:r', '(a)', 'TRUE', 'false', '1,2', '2021_05',
         'x.t.y', 'n.F.m', '1_0.5', '1D-5', '1.0d0', '1e400', '0x10', '1:3', 'NaN', 'inf', '\u0663\u0664', '\u00e9t\u00e9']
TEXTS = ['unknown system', 'Si  bulk 2x2', 'GaAs (001)', 'a', '5', '1.0 2.0', '2*1.0 3*-1', 'run\tno 7', '.TRUE.',
         '\u00c5ngstr\u00f6m cell', '1 1.5 x', 'K\u00f6hn-Sham!', '4*0 .5', '1 0 0 0 1 0', '0 0 1 3*0 x']
COMMENTS = ['note', 'a = b', 'x;y', 'caf\u00e9', 'two  words', '1.0', 'Old: .T.', '!keep']


def _value(rng):
    kind = rng.randrange(8)
    if kind == 0:
        return rng.chance(0.5)
    if kind == 1:
        return rng.choice([0, 1, -1, rng.randint(-10**4, 10**4), 10**12])
    if kind == 2:
        return _float(rng)
    if kind == 3:
        return rng.pick(WORDS)
    num = rng.randint(1, 6) if rng.chance(0.995) else rng.choice([40, 101, 300])
    if kind == 4:
        return [rng.randint(-99, 99) for _ in range(num)]
    if kind == 5:
        return [_float(rng) for _ in range(num)]
    if kind == 6:
        return [rng.chance(0.5) for _ in range(num)]
    return [rng.pick(WORDS) for _ in range(num)]


def _float(rng):
    return rng.choice([0.0, 1.0, -1.0, 0.1, 1e-08, 1e-05, 1e20, 520.0, -0.02, 1 / 3, rng.uniform(-10, 10),
                       rng.uniform(-1, 1) * 10.0**rng.randint(-12, 18)])


def gen_entry(rng, pool):
    tag = rng.pick(pool)
    if tag in TEXT_TAGS:
        value = rng.pick(TEXTS)
    else:
        value = _value(rng)
    return [tag, value, rng.pick(COMMENTS) if rng.chance(0.3) else None]


def gen_content(rng):
    pool = rng.sample(TAGS, rng.randint(3, 9)) + TEXT_TAGS
    if rng.chance(0.003):
        pool = rng.sample(TAGS, len(TAGS)) + TEXT_TAGS
    entries = [gen_entry(rng, pool) for _ in range(rng.randint(0, 7) if len(pool) < 20 else 90)]
    seen = {}
    for ent in entries:
        seen[ent[0]] = ent
    return {'entries': list(seen.values()), 'pool': pool}


def gen_options(rng):
    return {'validate': rng.chance(0.7)}


def gen_edit(rng, content):
    roll = rng.random()
    pool = content['pool']
    if roll < 0.55:
        tag, value, comment = gen_entry(rng, pool)
        how = rng.randrange(3)
        return {'edit': 'modify', 'tag': _case(rng, tag), 'value': value, 'comment': comment, 'how': how}
    if roll < 0.75:
        return {'edit': 'delete', 'tag': _case(rng, rng.pick(pool))}
    if roll < 0.85:
        return {'edit': 'bad-type', 'tag': rng.pick(pool), 'bad': rng.randrange(4)}
    if roll < 0.95:
        return {'edit': 'bad-mixed', 'tag': rng.pick(pool[:-len(TEXT_TAGS)])}
    return {'edit': 'modify', 'tag': rng.pick(pool[:-len(TEXT_TAGS)]), 'value': _value(rng), 'comment': None, 'how': 0}


def _case(rng, tag):
    return rng.choice([tag, tag, tag.upper(), tag.capitalize()])


# ------------------------------------------------------------------------------------------ model
def canon(tag, value):
    """Logical value: one-element lists are scalars; free-text tags are texts."""
    if tag in TEXT_TAGS:
        if isinstance(value, list):
            return ' '.join(str(item) for item in value)
        return str(value).strip()
    if isinstance(value, (list, tuple)):
        value = list(value)
        return value[0] if len(value) == 1 else value
    return value


def model(content, _options):
    return {'tags': {tag: [canon(tag, value), comment] for tag, value, comment in content['entries']}}


def written(mod, opts):
    keep = bool((opts or {}).get('comments'))
    return {'tags': {tag: [value, comment if keep else None] for tag, (value, comment) in mod['tags'].items()}}


def as_read(mod):
    return mod


def value_text(value, style=0):
    """A VASP spelling of a value."""
    if isinstance(value, bool):
        yes, no = [('.TRUE.', '.FALSE.'), ('.True.', '.False.'), ('.T.', '.F.'), ('.true.', '.false.')][style % 4]
        return yes if value else no
    if isinstance(value, float):
        text = repr(value)
        if style % 3 == 1 and 'e' in text:
            text = text.upper()
        if style % 5 == 3 and 'e' not in text.lower():
            # As people write them
            text = text[:-1] if text.endswith('.0') else text.replace('0.', '.', 1) if text.startswith(('0.', '-0.')) else '+' + text
            text = text.replace('+-', '-')
        return text
    if isinstance(value, int) and value >= 0 and style % 7 == 5:
        return ['+', '0', '00'][style % 3] + str(value)
    if isinstance(value, list):
        sep = ' ' if style % 2 == 0 else '  '
        return sep.join(value_text(item, style) for item in value)
    return str(value)


def source_text(content, style):
    """Spelling variations: letter case, spacing, comments, blank lines, several entries per line."""
    style = style or [0]
    out = []
    idx = 0

    def nxt():
        nonlocal idx
        idx += 1
        return style[idx % len(style)]

    entries = content['entries']
    pos = 0
    while pos < len(entries):
        tag, value, comment = entries[pos]
        var = nxt()
        name = tag.upper() if var % 3 else tag
        pre, mid, post = [('', ' = ', ''), ('  ', '=', ' '), ('', '= ', '  '), ('\t', ' =', '')][var % 4]
        line = f'{pre}{name}{mid}{value_text(value, var)}{post}'
        joinable = tag not in TEXT_TAGS
        if joinable and nxt() % 11 == 10:
            line = ';' + line
        if nxt() % 13 == 12:
            # Given before with something else, which the later one replaces
            out.append(f'{tag.upper()} = {[1, 300, "Fast", "0.5 0.5", ".FALSE."][var % 5]}')
        while joinable and comment is None and pos + 1 < len(entries) and entries[pos + 1][2] is None and \
                entries[pos + 1][0] not in TEXT_TAGS and nxt() % 5 == 4:
            pos += 1
            tag2, value2, _ = entries[pos]
            sep = ['; ', ';', ';; ', ' ; ;\t'][nxt() % 4]
            line += f'{sep}{tag2.upper()} = {value_text(value2, var)}'
        if joinable and nxt() % 9 == 8:
            line += ';' if nxt() % 2 else ' ; '
        if comment is not None:
            line += f' # {comment}'
        out.append(line)
        if nxt() % 7 == 6:
            out.append(['', '# a comment line = 3', '   ', '#'][nxt() % 4])
        pos += 1
    eol = '\n'
    text = eol.join(out) + (eol if nxt() % 4 else '')
    return text


def source_dict(content, style):
    out = {}
    for num, (tag, value, comment) in enumerate(content['entries']):
        var = style[num % len(style)] if style else 0
        if var % 3 == 1 and not isinstance(value, list) and '#' not in str(value):
            value = value_text(value, var)
        elif isinstance(value, list) and tag not in TEXT_TAGS and var % 4 == 1:
            value = value_text(value, 0)
        if comment is not None and isinstance(value, str):
            value = f'{value} # {comment}'
        out[tag.upper() if var % 2 else tag] = value
    return out


def source_dict_model(content, style, options):
    """A dictionary can only carry comments on string values."""
    mod = model(content, options)
    built = source_dict(content, style)
    for tag, _, comment in content['entries']:
        val = built.get(tag, built.get(tag.upper()))
        if comment is not None and not isinstance(val, str):
            mod['tags'][tag][1] = None
    return mod


def source_model(content, options):
    return model(content, options)


def real_dict(src):
    return dict(src)


def construct(options, **kwargs):
    names = {'text': 'incar_string', 'dict': 'incar_dict', 'file_path': 'file_path', 'file_handler': 'file_handler'}
    args = {names[key]: val for key, val in kwargs.items()}
    return construct_raw(options, **args)


def construct_raw(options, **args):
    from parsevasp.incar import Incar
    return Incar(validate_tags=options.get('validate', True), **args)


def edit_model(op, mod):
    """Returns the new model, or None if the edit must be rejected and change nothing."""
    kind = op['edit']
    if kind in ('bad-type', 'bad-mixed'):
        return None
    tags = dict(mod['tags'])
    tag = op['tag'].lower()
    if kind == 'delete':
        tags.pop(tag, None)
    else:
        tags[tag] = [canon(tag, op['value']), op['comment']]
    return {'tags': tags}


def resolve(op, _mod):
    return op


def edit_real(op, obj, shared=None):
    kind = op['edit']
    if kind == 'bad-type':
        obj.modify(op['tag'], [None, {'a': 1}, 1j, (1, 2)][op['bad']])
    elif kind == 'bad-mixed':
        obj.modify(op['tag'], '1 two 3.0', 'nope')
    elif kind == 'delete':
        obj.delete(op['tag'])
    else:
        value = op['value']
        if op['how'] == 1:
            value = value_text(value)
        if op['comment'] is not None:
            obj.modify(op['tag'], value, op['comment'])
        else:
            obj.modify(op['tag'], value)


def _diff(got, want, comments):
    for tag in sorted(set(got) | set(want)):
        if tag not in got:
            return f'{tag.upper()} is missing'
        if tag not in want:
            return f'{tag.upper()} = {got[tag][0]!r} should not be there'
        one, two = got[tag][0], want[tag][0]
        if isinstance(one, list) and isinstance(two, list):
            same = len(one) == len(two) and all(same_scalar(a, b) for a, b in zip(one, two))
        else:
            same = same_scalar(one, two)
        if not same:
            return f'{tag.upper()} is {one!r}, should be {two!r}'
        if comments and (got[tag][1] or None) != (want[tag][1] or None):
            return f'comment of {tag.upper()} is {got[tag][1]!r}, should be {want[tag][1]!r}'
    return None


def observe(obj, mod):
    """All renderings of the live object against the model. Returns a description of the difference."""
    got = {tag: [canon(tag, value), None] for tag, value in obj.get_dict().items()}
    diff = _diff(got, mod['tags'], False)
    if diff:
        return 'get_dict: ' + diff
    for tag, (value, comment) in mod['tags'].items():
        val = obj.get(tag)
        diff = _diff({tag: [canon(tag, val), None]}, {tag: [value, None]}, False)
        if diff:
            return 'get: ' + diff
        pair = obj.get(tag, comment=True)
        diff = _diff({tag: [canon(tag, pair[0]), pair[1]]}, {tag: [value, comment]}, True)
        if diff:
            return 'get(comment=True): ' + diff
    if obj.get('nsim_not_there') is not None:
        return 'get of an absent tag returns something'
    return parse_diff(obj.get_string(), written(mod, {}), 'get_string: ')


def read_diff(obj, mod):
    """The library read `mod` back from a file."""
    return observe(obj, mod)


_BOOL = {'.true.': True, '.t.': True, '.false.': False, '.f.': False}


def _parse_value(tag, text):
    text = text.strip()
    if tag in TEXT_TAGS:
        return text
    items = []
    for word in text.split():
        if word.lower() in _BOOL:
            items.append(_BOOL[word.lower()])
        elif re.fullmatch(r'[+-]?[0-9]+', word):
            items.append(int(word))
        elif re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', word):
            # a number no float can hold is a word
            items.append(word if math.isinf(float(word)) else float(word))
        else:
            items.append(word)
    return canon(tag, items)


def parse_text(text):
    """Independent reader of an INCAR."""
    tags = {}
    for line in text.splitlines():
        body, hash_, comment = line.partition('#')
        comment = comment.strip() if hash_ else None
        for part in body.split(';'):
            if not part.strip():
                continue
            name, eq_, value = part.partition('=')
            if not eq_:
                raise ValueError(f'not an entry: {part!r}')
            tags[name.strip().lower()] = [_parse_value(name.strip().lower(), value), comment]
    return {'tags': tags}


def parse_diff(text, want, prefix=''):
    try:
        got = parse_text(text)
    except ValueError as exc:
        return f'{prefix}not readable as INCAR: {exc}'
    diff = _diff(got['tags'], want['tags'], True)
    return prefix + diff if diff else None


def gen_write_opts(rng):
    return {'comments': True} if rng.chance(0.4) else {}


def rebase(obj, mod):
    return mod


def check_valid(content):
    """Raises PlanError for contents that lie outside the property's domain (while minimising)."""
    for tag, value, _ in content['entries']:
        _check_value(tag, value)


def check_valid_edit(op):
    if op['edit'] == 'modify':
        _check_value(op['tag'].lower(), op['value'])


def _check_value(tag, value):
    if tag not in TAGS + TEXT_TAGS + CUSTOM or value == [] or value is None or value == '':
        raise PlanError('outside the domain')
    items = value if isinstance(value, list) else [value]
    if len({type(item) for item in items}) != 1:
        raise PlanError('mixed list')
    for item in items:
        if isinstance(item, str) and not (item in WORDS or (tag in TEXT_TAGS and item in TEXTS)):
            raise PlanError('unknown word')


# ------------------------------------------------------------------------------- sources outside the format
BAD_SOURCES = ['two-equals', 'no-equals', 'mixed', 'unknown-tag', 'two-comments', 'type']


def bad_source(content, style, bad, pick, options):
    """A source that says something the library cannot represent: (kind, text or dictionary)."""
    if bad in ('two-comments', 'type'):
        built = source_dict(content, style)
        values = {'two-comments': ['Fast # one # two', 'a#b#c', 'unknown # # x'],
                  'type': [None, (1, 2), {}, {3}, b'Fast', 1j]}[bad]
        built[['algo', 'ENCUT', 'Magmom'][pick % 3]] = values[pick % len(values)]
        return 'dict', built
    lines = {'two-equals': ['ENCUT = 300 = 400', 'ALGO = Fast ISMEAR = 0', 'ALGO = Fast LREAL = Auto', 'NSW == 5', 'ISMEAR = 0; ENCUT = 1 = 2'],
             'no-equals': ['ENCUT 300', 'a comment', '! ALGO', 'ISMEAR = 0; NSW 5'],
             'mixed': ['RWIGS = 1 abc', 'LDAUU = word 2.0', 'ROPT = 1.0 x 2.0', 'LREAL = .TRUE. 3'],
             'unknown-tag': ['ENCUTT = 300', 'NOTATAG = x', 'E = 5', 'LWAV = .FALSE.', 'LREALL = Auto', 'ISMER = 0', 'MAGMO = 2*1',
                             'NSWW = 3', 'ALG = Fast', 'SIGMA_ = 0.1', 'KPOINTS = 4', '1 = 2', 'X.Y = 1']}[bad]
    if bad == 'unknown-tag' and not options.get('validate', True):
        raise PlanError('everything is allowed')
    text = source_text(content, style).splitlines()
    text.insert(pick % (len(text) + 1), lines[pick % len(lines)])
    return 'text', '\n'.join(text) + '\n'


def source_args(text=None, dictionary=None):
    return {'incar_string': text, 'incar_dict': dictionary}
