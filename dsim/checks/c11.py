"""C11: the standard stream of parallel runs that restart, die and are watched while they print."""
import copy
import io
import os
import random
import re

import yaml

from dsim.core import PlanError, REPO
from dsim.simfs import SimFS, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe

ID = 'C11'
RUNS = {'quick': 8000, 'thorough': 150000}
RULE = ('Seeded simulated parallel runs: several ranks print messages, progress and noise to one stream in an order '
        'decided by a seeded scheduler (whole lines or torn chunks), runs are killed and restarted appending to the '
        'same stream; scans with seeded options and configurations read it at seeded moments with short and '
        'interrupted reads while it grows; non-trivial: at least one message or inverse entry was expected.')
REAL = ['parsevasp.stream, stream.yml, parsevasp.base, parsevasp.utils from /repo', 'PyYAML',
        'the file system below the scratch directory', 'CPython buffered and text I/O']
STUB = ['VASP and its MPI ranks (simulated printers under a seeded scheduler)', 'raw reads (fault-injecting wrapper)']

# What VASP prints, and the entry it must give with the shipped configuration.
MESSAGES = [
    ('ibzkpt', ' VERY BAD NEWS! internal error in subroutine IBZKPT:'),
    ('brmix', ' BRMIX: very serious problems the old and the new charge density differ'),
    ('cnormn', ' WARNING: CNORMN: search vector ill defined'),
    ('denmp', " WARNING: DENMP: can't reach specified precision"),
    ('dentet', ' WARNING: DENTET: can\'t reach specified precision'),
    ('edddav_zhegv', ' Error EDDDAV: Call to ZHEGV failed. Returncode = 14 1 8'),
    ('eddrmm_zhegv', ' WARNING in EDDRMM: call to ZHEGV failed, returncode =   6  3      9'),
    ('edwav', ' EDWAV: internal error, the gradient is not orthogonal'),
    ('fexcp', ' ERROR FEXCP: supplied Exchange-correlation table'),
    ('fock_acc', ' internal error in FOCK_ACC: number of k-points incorrect'),
    ('invgrp', ' VERY BAD NEWS! internal error in subroutine INVGRP:'),
    ('kpoints_trans', ' internal error in GENERATE_KPOINTS_TRANS: G vector not found'),
    ('non_collinear', ' ERROR: non collinear calculations require that VASP is compiled'),
    ('not_hermitian', ' WARNING: Sub-Space-Matrix is not Hermitian in DAV            1'),
    ('psmaxn', ' WARNING: PSMAXN for non-local potential too small'),
    ('pssyevx', ' Error in subspace rotation PSSYEVX: not enough eigenvalues found'),
    ('pzstein', ' PZSTEIN parameter number           -7 PZSTEIN parameter number had an illegal value'),
    ('real_optlay', ' REAL_OPTLAY: internal error (1)          16           0'),
    ('rhosyg', ' RHOSYG: internal error: stars are not distinct, try to increase SYMPREC to e.g.'),
    ('rspher', ' Internal ERROR RSPHER.'),
    ('set_indpw_full', ' internal error in SET_INDPW_FULL: insufficient memory (see wave.F safeguard)'),
    ('sgrcon', ' VERY BAD NEWS! internal error in subroutine SGRCON:'),
    ('zbrent', ' ZBRENT: fatal error in bracketing'),
    ('no_potim', ' Fatal error! IBRION=0, but no entry for POTIM on file INCAR. MUST be specified!!'),
    ('magmom', " Error reading item 'MAGMOM' from file INCAR."),
    ('bandocc', ' TOO FEW BANDS!!'),
]
NOISE = [' running on    4 total cores', ' distrk:  each k-point on    4 cores,    1 groups', ' POSCAR, INCAR and KPOINTS ok',
         ' entering main loop', '       N       E                     dE             d eps       ncg     rms',
         'DAV:   1     0.184836897138E+02    0.18484E+02   -0.67149E+03    32   0.158E+03', '', 'internal error',
         ' WARNING: stress and forces are not correct', ' internal error in subroutine', 'BRMIX: very serious',
         '   1 F= -.10823188E+02 E0= -.10821814E+02  d E =-.274747E-02', ' writing wavefunctions', 'mpirun: caf\u00e9']
BANNER = [' vasp.5.4.4.18Apr17-6-g9f103f2a35 (build Jun 11 2017 21:30:58) complex', ' running vasp_std', ' vasp.6.3.0']
REGEXES = ['internal error', 'ERROR', r'^ running', r'cores$', r'E0= *-', 'entering (main|side) loop', 'never printed',
           r'\d+ F=', 'WARNING', '^$', 'caf\u00e9', 'DAV: ']


def gen_config(rng):
    """Overrides and additions of a user."""
    if rng.chance(0.45):
        return None
    config = {}
    for _ in range(rng.randint(0, 4)):
        name = rng.choice([item[0] for item in MESSAGES] + ['nostart', 'nostart', 'mine', 'other', 'third', 'Mine', 'NoStart', 'my entry'])
        entry = {'kind': rng.choice(['ERROR', 'WARNING', 'WARNING', 'error', 'Warning']),
                 'regex': rng.pick(REGEXES + [re.escape(item[1].strip()) for item in MESSAGES[:6]]),
                 'message': rng.choice(['some message', 'Error with the k-points.', ''])}
        if rng.chance(0.5):
            entry['suggestion'] = rng.choice(['do it', '', None])
        if rng.chance(0.5):
            entry['location'] = rng.choice(['STDOUT', 'STDERR'])
        if rng.chance(0.5):
            entry['recover'] = rng.chance(0.5)
        if rng.chance(0.4):
            entry['inverse'] = rng.chance(0.7)
        if rng.chance(0.2):
            entry['_compiled'] = rng.choice([0, int(re.IGNORECASE)])
        config[name] = entry
    if rng.chance(0.06):
        config['broken'] = {'bad': rng.choice(['regex', 'message', 'location', 'recover', 'inverse',
                                                   'suggestion', 'kind', 'kind-unknown', 'kind-empty'])}
    return config


def gen_scan(rng):
    scan = {'at': rng.random(), 'exact': rng.choice([None, None, 0, -1, rng.randint(-60, 60)]),
            'history': rng.chance(0.5), 'config': gen_config(rng), 'dest': rng.choice(['path', 'path', 'handle', 'text'])}
    if rng.chance(0.1):
        scan['at'] = 1.0
    if scan['dest'] != 'text':
        if rng.chance(0.35):
            scan['delivery'] = delivery_plan(rng)
        if rng.chance(0.15):
            scan['grow'] = [rng.choice([0, 1, 2, rng.randint(0, 12)]), rng.random()]
        if rng.chance(0.05):
            scan['eintr'] = rng.randint(0, 6)
        if rng.chance(0.08):
            scan['zeros'] = rng.choice([1, 300])
    return scan


def generate(rng, tier):
    runs = []
    for _ in range(rng.weighted([(1, 5), (2, 3), (3, 1)])):
        lines = []
        favourites = [rng.randrange(len(MESSAGES)) for _ in range(rng.randint(0, 4))]
        if rng.chance(0.75):
            lines.append(['banner', rng.randrange(len(BANNER)), 0])
        for _ in range(rng.choice([0, 2, 6, 15, 40])):
            kind = rng.weighted([('noise', 4), ('message', 2 if favourites else 0)])
            number = rng.pick(favourites) if kind == 'message' else rng.randrange(len(NOISE))
            lines.append([kind, number, rng.randrange(4)])
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append(['message', rng.randrange(len(MESSAGES)), rng.randrange(4)])
        if rng.chance(0.004):   # a long run: the noise goes on and on
            at = rng.randint(0, len(lines))
            lines[at:at] = [['noise', rng.randrange(len(NOISE)), rng.randrange(4)] for _ in range(rng.choice([700, 2500]))]
        runs.append({'lines': lines, 'ranks': rng.choice([1, 1, 2, 4]), 'sched': rng.randrange(1 << 30),
                     'tear': rng.choice([0, 0, 0, 5, 20]), 'eol': rng.choice(['\n', '\n', '\n', '\r\n', '\r']),
                     'killed': rng.random() if rng.chance(0.3) else None})
    return {'runs': runs, 'scans': [gen_scan(rng) for _ in range(rng.randint(1, 5))]}


def printed(run):
    """Bytes of one run: ranks print their lines in chunks, interleaved by the seeded scheduler."""
    rnd = random.Random(run['sched'])
    queues = {}
    for kind, number, rank in run['lines']:
        table = {'noise': NOISE, 'banner': BANNER, 'message': [item[1] for item in MESSAGES]}[kind]
        text = table[number % len(table)] + run['eol']
        queue = queues.setdefault(rank % run['ranks'], [])
        if run['tear'] and run['ranks'] > 1:
            queue += [text[pos:pos + run['tear']] for pos in range(0, len(text), run['tear'])]
        else:
            queue.append(text)
    out = []
    while any(queues.values()):
        rank = rnd.choice(sorted(key for key, queue in queues.items() if queue))
        out.append(queues[rank].pop(0))
    data = ''.join(out).encode('utf8')
    if run['killed'] is not None:
        data = data[:whole_chars(data, int(run['killed'] * len(data)))]
    return data


def whole_chars(data, end):
    """A kill point on a character boundary (output that is not text is another property)."""
    while 0 < end < len(data) and data[end] & 0xC0 == 0x80:
        end -= 1
    return end


def shipped():
    with open(os.path.join(REPO, 'parsevasp', 'stream.yml'), 'r', encoding='utf8') as handle:
        return yaml.safe_load(handle)


def user_config(config):
    """The configuration handed to the library; None as second value if it must be rejected."""
    if config is None:
        return None, True
    out, valid = {}, True
    for name, entry in config.items():
        if 'bad' in entry:
            valid = False
            broken = {'kind': 'ERROR', 'regex': 'x', 'message': 'y'}
            broken.update({'regex': {'regex': '('}, 'message': {'message': 5}, 'location': {'location': 'NOWHERE'},
                           'recover': {'recover': 'maybe'}, 'inverse': {'inverse': 'no'},
                           'suggestion': {'suggestion': 5}, 'kind': {'kind': 5}, 'kind-unknown': {'kind': 'INFO'}, 'kind-empty': {'kind': ''}}[entry['bad']])
            out[name] = broken
            continue
        given = {key: value for key, value in entry.items() if key != '_compiled'}
        if '_compiled' in entry:
            given['regex'] = re.compile(entry['regex'], entry['_compiled'])
        out[name] = given
    return out, valid


FIELDS = ('shortname', 'kind', 'regex', 'message', 'suggestion', 'location', 'recover', 'inverse')


def merged(base, config):
    """Entries in force for one scan, as tuples of FIELDS."""
    entries = {}
    for name, given in list(base.items()) + list((config or {}).items()):
        regex = given['regex']
        entries[name] = (name, given['kind'], re.compile(regex) if isinstance(regex, str) else regex, given['message'],
                         given.get('suggestion'), given.get('location', 'STDOUT'), given.get('recover', False),
                         given.get('inverse', False))
    return entries


def expected(text, entries, history):
    """Per line the entries found on it (any order within the line), and the inverse entries to report."""
    seen = set()
    lines = []
    for line in io.StringIO(text, newline=None):
        found = []
        for name, entry in entries.items():
            if entry[2].search(line) is None:
                continue
            if not entry[7] and (history or name not in seen):
                found.append(entry)
            seen.add(name)
        if found:
            lines.append(found)
    inverse = [entry for name, entry in entries.items() if entry[7] and name not in seen]
    return lines, inverse


def judge(stream, text, entries, history):
    lines, inverse = expected(text, entries, history)
    have = [tuple(getattr(item, field) for field in FIELDS) for item in stream.entries]
    total = sum(map(len, lines)) + len(inverse)
    key = lambda entry: entry[0]  # noqa: E731
    inverse_names = {entry[0] for entry in entries.values() if entry[7]}
    have_inverse = sorted((entry for entry in have if entry[0] in inverse_names), key=key)
    names = [entry[0] for entry in have]
    wanted = [[entry[0] for entry in found] for found in lines]
    if have_inverse != sorted(inverse, key=key):
        return 'wrong-inverse', f'reported {describe(have_inverse)}, expected {describe(inverse)}'
    rest = [entry for entry in have if entry[0] not in inverse_names]
    pos = 0
    for found in lines:
        got = rest[pos:pos + len(found)]
        pos += len(found)
        if sorted(map(key, got)) != sorted(map(key, found)):
            return 'wrong-entries', f'reported {names}, expected per line {wanted} and {sorted(map(key, inverse))}'
        if sorted(got, key=key) != sorted(found, key=key):
            return 'wrong-metadata', f'reported {describe(got)}, configured {describe(found)}'
    if pos != len(rest):
        return 'wrong-entries', f'reported {names}, expected per line {wanted} and {sorted(map(key, inverse))}'
    if stream.number_of_entries != total or stream.has_entries is not (total > 0):
        return 'wrong-count', f'{stream.number_of_entries} / {stream.has_entries} for {total} entries'
    for item in stream.entries:
        if item.recoverable is not item.recover or any(part not in str(item) for part in
                                                       (item.kind, item.shortname, item.message)):
            return 'wrong-metadata', f'{item.shortname}: recoverable={item.recoverable}, printed as {str(item)!r}'
    kinds = {entry[1] for entry in entries.values()}
    listed = sorted({item.shortname for items in stream.configured_streams.values() for item in items})
    if set(stream.kinds) != kinds or len(stream.kinds) != len(kinds) or listed != sorted(entries):
        return 'wrong-configuration', f'kinds {stream.kinds}, in force {sorted(kinds)}; configured {describe(listed, 2000)}'
    return None


def execute(plan, ctx):
    from parsevasp.stream import Stream
    fsys = SimFS(ctx.root)
    try:
        data = b''.join(printed(run) for run in plan['runs'])
        base = shipped()
        scans = sorted(plan['scans'], key=lambda scan: scan['at'])
        ends = [0] + [match.end() for match in re.finditer(rb'[\r\n]+', data)] + [len(data)]
        cuts = []
        for scan in scans:
            end = int(scan['at'] * len(data))
            if scan['exact'] is not None:
                end = ends[int(scan['at'] * len(ends)) % len(ends)] + scan['exact']
            cuts.append(whole_chars(data, max(0, min(len(data), end))))
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as exc:
        raise PlanError(str(exc)) from exc
    ctx.simtime += 30.0 * sum(len(run['lines']) for run in plan['runs'])
    for run in plan['runs']:
        if run['killed'] is not None:
            ctx.fault('vasp:KILLED')
        if run['tear'] and run['ranks'] > 1:
            ctx.fault('ranks:TORN')
    # The shipped messages must be recognised by the shipped configuration, whatever the tree makes of it.
    for name, text in MESSAGES:
        if name not in base or not re.search(base[name]['regex'], text) or base[name]['kind'] != 'ERROR':
            ctx.fail('message-lost', f'{name}: {text!r} is not configured any more')
    fsys.install()
    kept = []
    try:
        for scan, cut in zip(scans, cuts):
            kept.append(run_scan(ctx, fsys, Stream, base, data, cut, scan))
        for stream, before in filter(None, kept):
            if describe([tuple(getattr(item, field) for field in FIELDS) for item in stream.entries], 5000) != before:
                ctx.fail('changed-later', 'the entries of an earlier scan changed')
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def run_scan(ctx, fsys, stream_class, base, data, low, scan):
    path = ctx.path('stdout')
    content = data[:low] + b'\0' * scan.get('zeros', 0)
    write_bytes(path, content)
    try:
        config, valid = user_config(scan['config'])
        given = copy.deepcopy(config)
        entries = merged(base, config) if valid else None
        grow = scan.get('grow')
        high = whole_chars(data, int(grow[1] * len(data))) if grow and not scan.get('zeros') else 0
    except (KeyError, IndexError, ValueError, TypeError, re.error) as exc:
        raise PlanError(str(exc)) from exc
    state = {'high': low}

    def watch(site, idx):
        if site == 'read' and idx == grow[0] and high > low and state['high'] == low:
            with io.FileIO(path, 'a') as handle:
                handle.write(data[low:high])
            state['high'] = high
            ctx.fault('file:GROWS')

    handle = None
    kwargs = {'history': scan['history'], 'config': config}
    fsys.begin([{'site': 'read', 'nth': scan['eintr'], 'kind': 'EINTR'}] if scan.get('eintr') is not None else [],
               scan.get('delivery'))
    if scan['dest'] == 'path':
        kwargs['file_path'] = path
    elif scan['dest'] == 'handle':
        handle = kwargs['file_handler'] = open(path, 'r', encoding='utf8')
    else:
        kwargs['file_handler'] = io.StringIO(content.decode('utf8'), newline=None)
    if grow:
        fsys.watch = watch
    out = attempt(stream_class, **kwargs)
    fsys.watch = None
    fsys.end()
    what = f'{scan["dest"]} history={scan["history"]} config={sorted(scan["config"] or {})} ended at byte {low}'
    if config != given:
        ctx.fail('configuration-changed', f'{what}: the configuration of the caller became {describe(config)}')
    verdict = None
    if not valid:
        ctx.probe('bad-configuration')
        if out.ok:
            ctx.fail('bad-configuration', f'{what}: accepted {describe(given)}')
    elif not out.ok:
        ctx.fail('rejected', f'{what}: {out.label()}: {describe(out.exc)}')
    else:
        verdicts = []
        for end in sorted({low, state['high']}):
            text = (data[:end] + (content[low:] if end == low else b'')).decode('utf8')
            verdicts.append(judge(out.value, text, entries, scan['history']))
        verdict = None if None in verdicts else verdicts[0]
        if verdict:
            ctx.fail(verdict[0], f'{what}: {verdict[1]}')
        if out.value.number_of_entries:
            ctx.nontrivial = True
        ctx.probe('history' if scan['history'] else 'once')
    names = [item.shortname for item in out.value.entries] if out.ok else []
    ctx.log(out.label(), low, names)
    if handle is not None:
        if handle.closed:
            ctx.fail('handle-closed', what)
        handle.close()
    check_fds(ctx, fsys, [], what)
    if out.ok:
        return out.value, describe([tuple(getattr(item, field) for field in FIELDS) for item in out.value.entries], 5000)
    return None
