"""C05: the same bytes, delivered in every way, in every order, give the same result."""
import json
import os
import pathlib

from dsim import anyfile
from dsim.core import PlanError
from dsim.native import Native, library
from dsim.proc import live
from dsim.simfs import SimFS, write_bytes
from dsim.util import check_fds, delivery_plan

ID = 'C05'
RUNS = {'quick': 6000, 'thorough': 120000}
RULE = ('Seeded files of all ten kinds (generated content, other line ends, damaged bytes, cuts; some of them nearly the same as another) are each parsed once '
        'plainly in a process that did nothing else, then many times in one process in seeded order, by path, file '
        'handle, in-memory handle, pipe-like handle or string, with seeded short, interrupted and tiny-buffer reads '
        'at the Python and the C-library level; all results of one file are compared; non-trivial: at least two '
        'different deliveries of one file were compared.')
REAL = ['all parsevasp parsers from /repo', 'lxml/libxml2', 'PyYAML', 'NumPy', 'CPython buffered and text I/O',
        'the file system below the scratch directory']
STUB = ['VASP and the user as writers of the files', 'raw reads (fault-injecting wrapper in Python, preloaded read() '
        'for libxml2)']


NAMES = {'blank': 'a b', 'percent': 'c%20d', 'hash': 'e#f', 'colon': 'T=300K:g', 'gz': 'vasprun.xml.gz', 'dash': '-i', 'tilde': '~'}


def gen_parse(rng, files):
    num = rng.randrange(len(files))
    item = files[num]
    way = rng.choice(anyfile.ways(item['kind']))
    parse = {'file': num, 'option': rng.randrange(len(item['options'])), 'way': way}
    if way in ('path', 'handle', 'slow'):
        parse['delivery'] = delivery_plan(rng)
        if rng.chance(0.2):
            parse['eintr'] = [rng.randint(0, 20) for _ in range(rng.randint(1, 3))]
    if rng.chance(0.15):
        parse['keep'] = True
    if way in ('handle', 'stringio') and files[num]['kind'] != 'xml':
        if rng.chance(0.3):
            # The caller has read something else from its handle before
            parse['prefix'] = rng.choice(['header\n', '\n', 'x = 1\n' * rng.randint(1, 30), 'y' * rng.randint(1, 20)])
        parse['again'] = rng.chance(0.25)
    if way == 'path':
        parse['form'] = rng.weighted([('plain', 3), ('object', 1), ('relative', 1), ('relative object', 1)])
    if rng.chance(0.3):
        # The place of an earlier file
        parse['slot'] = rng.randrange(2)
    elif rng.chance(0.15):
        parse['slot'] = rng.choice(sorted(NAMES))
    return parse


def generate(rng, tier):
    files = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        if files and rng.chance(0.35):
            # Nearly the same as another one
            files.append(anyfile.gen_variant(rng, rng.pick(files)))
            continue
        item = anyfile.gen_file(rng, rng.pick([item['kind'] for item in files]) if files and rng.chance(0.35) else None)
        item['mangle'] = anyfile.gen_mangle(rng)
        item['options'] = [anyfile.gen_options(rng, item) for _ in range(rng.choice([1, 1, 2]))]
        files.append(item)
    return {'files': files, 'parses': [gen_parse(rng, files) for _ in range(rng.randint(3, 12))]}


def reference(ctx, item, options, data, name):
    """The report of a process that only parses this file, plainly."""
    path = ctx.path(name)
    write_bytes(path, data)

    def body(life, _child):
        out = anyfile.parse(item['kind'], options, file_path=path)
        life.send(kind='step', index=0, state=anyfile.digest(item['kind'], options, out))

    _, last = live(ctx, body)
    return last['state']


def execute(plan, ctx):
    fsys = SimFS(ctx.root)
    datas = [anyfile.bytes_of(item) for item in plan['files']]
    want = {}
    used = set()
    for parse in plan['parses']:
        try:
            item = plan['files'][parse['file']]
            key = (parse['file'], parse['option'])
            options = item['options'][parse['option']]
        except (KeyError, IndexError, TypeError) as exc:
            raise PlanError(str(exc)) from exc
        if key not in want:
            want[key] = reference(ctx, item, options, datas[parse['file']], 'plain')
            ctx.simtime += 60.0
            ctx.probe('plainly ' + ('rejected' if want[key][0][0] == 'failure' else 'accepted'))
    fsys.install()
    kept = []
    try:
        for num, parse in enumerate(plan['parses']):
            item = plan['files'][parse['file']]
            key = (parse['file'], parse['option'])
            if key in used:
                ctx.nontrivial = True
            used.add(key)
            obj = run_parse(ctx, fsys, item, item['options'][parse['option']], datas[parse['file']], parse, want[key], num)
            if parse.get('keep') and obj is not None:
                kept.append((item['kind'], item['options'][parse['option']], obj, want[key]))
        for kind, options, out, digest in kept:
            diff = anyfile.difference(anyfile.digest(kind, options, out), digest)
            if diff:
                ctx.fail('changed-later', f'{kind}: what an object reports changed with later parses: {diff}')
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def run_parse(ctx, fsys, item, options, data, parse, want, num):
    kind, way = item['kind'], parse['way']
    if way not in anyfile.ways(kind):
        raise PlanError('unknown way')
    name = f'file{num}' if parse.get('slot') is None else NAMES.get(parse['slot'], f"slot{parse['slot']}")
    path = ctx.path(name)
    form = parse.get('form', 'plain')
    prefix = parse.get('prefix') or ''
    write_bytes(path, prefix.encode('utf8') + data)
    delivery = parse.get('delivery')
    faults = [{'site': 'read', 'nth': nth, 'kind': 'EINTR'} for nth in sorted(set(parse.get('eintr') or []))]
    native = kind == 'xml' and way == 'path'
    fsys.begin(faults if not native else [], delivery)
    source = anyfile.Source(item, way, path, data, open, (delivery or {}).get('read', []), prefix=prefix)
    if way == 'path':
        if 'relative' in form:
            source.args['file_path'] = os.path.relpath(path)
        if 'object' in form:
            source.args['file_path'] = pathlib.Path(source.args['file_path'])
    with Native(path, [], (delivery or {}).get('read', []) if native else []) as below:
        out = anyfile.parse(kind, options, **source.args)
    fsys.end()
    if native and library() is not None:
        ctx.fault('libc-read:SHORT', below.shorts)
    what = f'{kind} {json.dumps(options, sort_keys=True)} by {way} {form} {name}'
    got = anyfile.digest(kind, options, out)
    ctx.log(kind, way, got[0][:2], len(got))
    ctx.probe(f'{kind} {way}')
    diff = anyfile.difference(got, want)
    if diff:
        ctx.fail('delivery-dependent', f'{what}: {diff}')
    if out.ok:
        diff = anyfile.difference(anyfile.digest(kind, options, out), want)
        if diff:
            ctx.fail('not-repeatable', f'{what}: asking again: {diff}')
    if source.handle is not None:
        if source.handle.closed:
            ctx.fail('handle-closed', what)
        if parse.get('again') and way in ('handle', 'stringio') and kind != 'xml':
            source.handle.seek(source.start)
            diff = anyfile.difference(anyfile.digest(kind, options, anyfile.parse(kind, options, **source.args)), want)
            if diff:
                ctx.fail('delivery-dependent', f'{what}, from the same handle again: {diff}')
            if source.handle.closed:
                ctx.fail('handle-closed', what)
        source.close()
    check_fds(ctx, fsys, [], what)
    return out if out.ok else None
