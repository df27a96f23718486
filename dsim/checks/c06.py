"""C06: storage that fails while a file is being opened or read."""
import errno
import json
import os

from dsim import anyfile
from dsim.core import REPO, PlanError
from dsim.native import Native, library
from dsim.proc import live
from dsim.simfs import SimFS, write_bytes
from dsim.util import check_fds, delivery_plan

ID = 'C06'
RUNS = {'quick': 10000, 'thorough': 200000}
RULE = ('Seeded files of all ten kinds (complete or cut) are read by path, file handle or pipe while the simulated '
        'storage fails at a seeded call or offset: refused opens, missing files, I/O errors, vanished network disks, '
        'failed allocations, cancellations, bytes that are no text, once or from then on, below Python and below libxml2, or that holds the message table '
        'of the library; intact reads in between check recovery; non-trivial: at least one injected failure was reached by the parser.')
REAL = ['all parsevasp parsers from /repo', 'lxml/libxml2', 'PyYAML', 'NumPy', 'CPython buffered and text I/O',
        'the file system below the scratch directory']
STUB = ['VASP and the user as writers of the files', 'raw opens and reads (fault-injecting wrapper in Python, preloaded '
        'open() and read() for libxml2)']
READ_ERRORS = ['EIO', 'EIO', 'ESTALE', 'ETIMEDOUT', 'EBADF', 'NOMEM', 'CANCEL']
OPEN_ERRORS = ['EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ENOENT', 'ESTALE', 'EPERM', 'NOMEM', 'CANCEL', 'ELOOP']
LIBC = ('EIO', 'ESTALE', 'ETIMEDOUT', 'EACCES', 'EMFILE', 'ENFILE', 'ENOENT', 'EPERM', 'ELOOP', 'EINTR')


def gen_fault(rng, kind, way):
    if kind == 'stream' and rng.chance(0.3):
        site = rng.choice(['pkgopen', 'pkgread'])
        return {'site': site, 'nth': rng.choice([0, 0, 1, rng.randint(0, 4)]) if site == 'pkgread' else 0,
                'kind': rng.choice(OPEN_ERRORS if site == 'pkgopen' else READ_ERRORS), 'sticky': rng.chance(0.6)}
    if way == 'slow':
        return {'site': 'pipe', 'after': rng.choice([0, 1, rng.random(), rng.random(), 1.0 - 1e-9]),
                'kind': rng.choice(['EIO', 'ECONNRESET', 'ETIMEDOUT', 'NOMEM', 'CANCEL', 'DECODE']),
                'sticky': rng.chance(0.7)}
    if way == 'path' and rng.chance(0.3):
        return {'site': 'open', 'nth': rng.choice([0, 0, 0, 1]), 'kind': rng.choice(OPEN_ERRORS), 'sticky': rng.chance(0.5)}
    if way == 'path' and rng.chance(0.12):
        return {'site': 'place', 'kind': rng.choice(['missing', 'directory', 'dangling', 'loop', 'notdir', 'toolong'])}
    if kind != 'xml' and rng.chance(0.15):
        return {'site': 'bytes', 'at': rng.choice([rng.random(), rng.random(), 0, 1]),
                'text': rng.choice(['ff', 'c3', 'e282', '80', 'f8'])}
    return {'site': 'read', 'nth': rng.choice([0, 0, 1, 1, 2, rng.randint(0, 8), rng.randint(0, 60)]),
            'kind': rng.choice(READ_ERRORS), 'sticky': rng.chance(0.6)}


def gen_parse(rng, files):
    num = rng.randrange(len(files))
    way = rng.choice([way for way in anyfile.ways(files[num]['kind']) if way in ('path', 'handle', 'slow')])
    parse = {'file': num, 'way': way}
    if rng.chance(0.65):
        parse['delivery'] = delivery_plan(rng, heavy=True)
    if rng.chance(0.7):
        parse['fault'] = gen_fault(rng, files[num]['kind'], way)
    elif way != 'slow' and rng.chance(0.3):
        parse['fault'] = {'site': 'read', 'nth': rng.randint(0, 12), 'kind': 'EINTR'}
    return parse


def generate(rng, tier):
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        item = anyfile.gen_file(rng) if not files or rng.chance(0.8) else dict(rng.pick(files))
        item['mangle'] = [{'kind': 'cut', 'at': rng.random()}] if rng.chance(0.3 if item['kind'] == 'xml' else 0.1) else []
        item['options'] = [anyfile.gen_options(rng, item)]
        files.append(item)
    return {'files': files, 'parses': [gen_parse(rng, files) for _ in range(rng.randint(2, 7))]}


def execute(plan, ctx):
    # The tables that come with the library are on storage that can fail too.
    fsys = SimFS(ctx.root, os.path.join(REPO, 'parsevasp'))
    datas = [anyfile.bytes_of(item) for item in plan['files']]
    want = {}
    for parse in plan['parses']:
        try:
            num = parse['file']
            item, options = plan['files'][num], plan['files'][num]['options'][0]
        except (KeyError, IndexError, TypeError) as exc:
            raise PlanError(str(exc)) from exc
        if num not in want:
            path = ctx.path('plain')
            write_bytes(path, datas[num])

            def body(life, _child, item=item, options=options, path=path):
                out = anyfile.parse(item['kind'], options, file_path=path)
                life.send(kind='step', index=0, state=anyfile.digest(item['kind'], options, out))

            want[num] = live(ctx, body)[1]['state']
            ctx.simtime += 60.0
    fsys.install()
    try:
        for num, parse in enumerate(plan['parses']):
            item = plan['files'][parse['file']]
            run_parse(ctx, fsys, item, datas[parse['file']], parse, want[parse['file']], num)
        # Whatever failed before, intact storage gives complete results.
        for num, item in enumerate(plan['files']):
            if num in want:
                run_parse(ctx, fsys, item, datas[num], {'file': num, 'way': 'path'}, want[num], f'{num}-again')
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def odd_place(ctx, kind, num, data):
    """A path at which there is no readable file."""
    path = ctx.path(f'place{num}')
    if kind == 'missing':
        return path
    if kind == 'directory':
        os.mkdir(path)
    elif kind == 'dangling':
        os.symlink(path + '-not-there', path)
    elif kind == 'loop':
        os.symlink(path, path)
    elif kind == 'notdir':
        write_bytes(path, data)
        return os.path.join(path, 'file')
    elif kind == 'toolong':
        return path + 'x' * 300
    else:
        raise PlanError('unknown place')
    return path


def exception(kind):
    if kind == 'CANCEL':
        return KeyboardInterrupt('simulated cancellation')
    if kind == 'NOMEM':
        return MemoryError('simulated allocation failure')
    if kind == 'DECODE':
        return UnicodeDecodeError('utf8', b'\xff', 0, 1, 'simulated garbage on the line')
    return OSError(getattr(errno, kind), os.strerror(getattr(errno, kind)))


def run_parse(ctx, fsys, item, data, parse, want, num):
    kind, way, fault = item['kind'], parse['way'], parse.get('fault')
    options = item['options'][0]
    if way not in anyfile.ways(kind):
        raise PlanError('unknown way')
    path = ctx.path(f'file{num}')
    write_bytes(path, data)
    delivery = parse.get('delivery')
    sizes = (delivery or {}).get('read', [])
    python, native, raise_at = [], [], None
    below = kind == 'xml' and way == 'path'
    if fault and fault['site'] == 'place':
        path = odd_place(ctx, fault['kind'], num, data)
    elif fault and fault['site'] == 'bytes':
        # Storage returns bytes that are no text in any place of the file.
        if kind == 'xml' or way not in ('path', 'handle'):
            raise PlanError('bytes of text files')
        at = int(fault['at'] * len(data))
        while at < len(data) and data[at] & 0xc0 == 0x80:
            at += 1
        write_bytes(path, data[:at] + bytes.fromhex(fault['text']) + b' ' + data[at:])
    elif fault and fault['site'] == 'pipe':
        if way != 'slow':
            raise PlanError('no pipe')
        raise_at = (int(fault['after'] * len(data)), exception(fault['kind']))
    elif fault and fault['site'].startswith('pkg') and kind != 'stream':
        raise PlanError('reads no table')
    elif fault and below and fault['kind'] in LIBC and library() is not None:
        native = [fault]
    elif fault:
        python = [fault]
    # The handle of the caller is opened while the storage still works.
    fsys.begin([], delivery)
    source = anyfile.Source(item, way, path, data, open, sizes, raise_at)
    if raise_at is not None:
        source.handle.sticky = bool(fault['sticky'])
    fsys.begin(python, delivery)
    with Native(path, native, sizes if below else []) as libc:
        out = anyfile.parse(kind, options, **source.args)
    fired = fsys.end() + libc.fired
    for site, name in libc.fired + libc.late:
        ctx.fault(f'libc-{site}:{name}')
    if below:
        ctx.fault('libc-read:SHORT', libc.shorts)
    if raise_at is not None and source.handle.fired:
        fired.append(('pipe', fault['kind']))
        ctx.fault(f'pipe:{fault["kind"]}')
    if fault and fault['site'] == 'place':
        fired.append(('place', fault['kind']))
        ctx.fault(f'place:{fault["kind"]}')
    if fault and fault['site'] == 'bytes':
        fired.append(('bytes', 'UNDECODABLE'))
        ctx.fault('bytes:UNDECODABLE')
    hard = [one for one in fired if one[1] != 'EINTR']
    what = f'{kind} {json.dumps(options, sort_keys=True)} by {way}, fault {json.dumps(fault)}'
    ctx.log(kind, way, out.label(), sorted(set(fired)))
    ctx.probe(f'{kind} {way}')
    if hard:
        ctx.nontrivial = True
    diff = None
    if hard and out.ok:
        # A call that is made again after one failure may succeed: then everything has to be there.
        diff = anyfile.difference(anyfile.digest(kind, options, out), want)
        if fault.get('sticky') or fault['site'] == 'place' or diff:
            ctx.fail('failure-hidden', f'{what}: the storage failed ({hard}) but the parser returned an object'
                                       + (f'; {diff}' if diff else ''))
    elif hard:
        if isinstance(out.exc, SystemExit) and out.exc.code in (0, None):
            ctx.fail('failure-hidden', f'{what}: exit with code {out.exc.code}')
    elif not (native and fired or libc.late) or out.ok:
        diff = anyfile.difference(anyfile.digest(kind, options, out), want)
        if diff:
            ctx.fail('intact-file-differs', f'{what}: {diff}')
    known = [source.handle] if source.handle is not None else []
    # Even while the exception is still being handled nothing may be left open.
    check_fds(ctx, fsys, known, what)
    if source.handle is not None:
        if source.handle.closed:
            ctx.fail('handle-closed', what)
        source.close()
