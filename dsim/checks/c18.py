"""C18: a write that is refused leaves everything as it was."""
import hashlib
import importlib
import io
import os
import pathlib

import numpy as np

from dsim import anyfile
from dsim.core import PlanError
from dsim.simfs import SimFS, read_bytes, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe, hard

ID = 'C18'
RUNS = {'quick': 10000, 'thorough': 200000}
RULE = ('Seeded histories on objects of all ten classes: edits, among them ones that leave the content incomplete or '
        'inconsistent, and writes to existing and new paths and to handles, with wrong arguments, to places that '
        'cannot be opened and by classes that cannot be written, between writes that succeed; after every write that '
        'raised although the storage took everything it was given, the destination, all other files, the handles of '
        'the caller and the object are compared with their state before; non-trivial: at least one write was refused.')
REAL = ['all parsevasp classes from /repo', 'the file system below the scratch directory',
        'CPython buffered and text I/O']
STUB = ['raw file I/O below the scratch directory (fault-injecting wrapper)', 'the client program (generated history)',
        'VASP and the user as writers of the input files']

ENTRIES = {'kpoints': ['comment', 'divisions', 'generating_vectors', 'shifts', 'points', 'tetra', 'tetra_volume', 'mode',
                       'centering', 'num_kpoints'],
           'poscar': ['comment', 'unitcell', 'sites'], 'incar': ['ENCUT', 'MAGMOM', 'SYSTEM', 'LWAVE', 'NOTATAG']}
VALUES = [None, 0, 1, -3, 2.5, True, '', 'a b', 'line', 'explicit', 'automatic', 'Gamma', 'Monkhorst-Pack', 'Reciprocal',
          [], [1, 2, 3], [0.5, 0.5, 0.5], [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], [[1, 1, 1, 1, 1]], [None],
          ['x'], {}, 'a\ud800b', 'caf\u00e9', 'x\udcff']


def gen_op(rng, files):
    num = rng.randrange(len(files))
    item = files[num]
    kind = item['kind']
    if kind in anyfile.WRITABLE and rng.chance(0.5):
        roll = rng.random()
        if roll < 0.4:
            fmt = importlib.import_module('dsim.formats.' + kind)
            return {'op': 'edit', 'obj': num, 'change': fmt.gen_edit(rng, item['content'])}
        if roll < 0.75 or kind != 'poscar':
            return {'op': 'set', 'obj': num, 'name': rng.pick(ENTRIES[kind]), 'value': rng.randrange(len(VALUES)),
                    'array': rng.chance(0.3)}
        return {'op': 'site', 'obj': num, 'index': rng.choice([None, 0, 1, 5]),
                'has': [rng.chance(0.5) for _ in range(6)]}
    op = {'op': 'write', 'obj': num, 'pathlib': rng.chance(0.3), 'delivery': delivery_plan(rng),
          'to': rng.weighted([('existing', 6), ('new', 2), ('own', 2), ('handle', 2), ('file-handle', 2), ('both', 1),
                              ('neither', 1), ('directory', 1), ('nowhere', 1)])}
    if op['to'] == 'file-handle' and rng.chance(0.4):
        op['encoding'] = rng.choice(['ascii', 'latin1', 'utf-16'])
    if kind == 'incar' and rng.chance(0.3):
        op['comments'] = rng.chance(0.5)
    if rng.chance(0.15):
        op['fault'] = rng.choice(['EACCES', 'EROFS', 'ENOENT', 'EMFILE', 'CANCEL'])
    return op


def generate(rng, tier):
    files = []
    for _ in range(rng.choice([1, 1, 2])):
        item = anyfile.gen_file(rng, rng.choice(anyfile.WRITABLE) if rng.chance(0.65) else None)
        item['options'] = anyfile.gen_options(rng, item)
        item['dict'] = item['kind'] in anyfile.WRITABLE and rng.chance(0.4)
        files.append(item)
    return {'files': files, 'ops': [gen_op(rng, files) for _ in range(rng.randint(2, 10))]}


def build(ctx, item, num):
    kind = item['kind']
    data = anyfile.bytes_of(item)
    path = ctx.path(f'input{num}')
    write_bytes(path, data)
    if item['dict']:
        fmt = importlib.import_module('dsim.formats.' + kind)
        try:
            given = fmt.real_dict(fmt.source_dict(item['content'], item['style']))
        except (KeyError, IndexError, ValueError, TypeError) as exc:
            raise PlanError(str(exc)) from exc
        return attempt(anyfile.parser(kind), **{kind + '_dict': given}, **item['options'])
    return anyfile.parse(kind, item['options'], file_path=path)


def check_plan(plan):
    try:
        for item in plan['files']:
            if item['kind'] in anyfile.WRITABLE:
                importlib.import_module('dsim.formats.' + item['kind']).check_valid(item['content'])
            elif item['dict']:
                raise PlanError('dict')
        for op in plan['ops']:
            item = plan['files'][op['obj']]
            if op['op'] != 'write' and item['kind'] not in anyfile.WRITABLE:
                raise PlanError('not editable')
            if op['op'] == 'edit':
                importlib.import_module('dsim.formats.' + item['kind']).check_valid_edit(op['change'])
            elif op['op'] == 'write':
                if op.get('encoding', 'utf8') not in ('utf8', 'ascii', 'latin1', 'utf-16'):
                    raise PlanError('encoding')
            elif op['op'] == 'set':
                if op['name'] not in ENTRIES[item['kind']]:
                    raise PlanError('entry')
                VALUES[op['value']]  # pylint: disable=pointless-statement
            elif op['op'] == 'site':
                if item['kind'] != 'poscar' or len(op['has']) != 6:
                    raise PlanError('site')
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as exc:
        raise PlanError(str(exc)) from exc


def execute(plan, ctx):
    check_plan(plan)
    fsys = SimFS(ctx.root)
    os.makedirs(ctx.path('sub'), exist_ok=True)
    objects = []
    for num, item in enumerate(plan['files']):
        objects.append(build(ctx, item, num))
        if not objects[-1].ok:
            ctx.log('not built', item['kind'], objects[-1].label())
    fsys.install()
    try:
        for num, op in enumerate(plan['ops']):
            obj = objects[op['obj']]
            if not obj.ok:
                continue
            item = plan['files'][op['obj']]
            if op['op'] == 'write':
                run_write(ctx, fsys, item, obj, op, num)
            else:
                done = attempt(change, item, obj.value, op)
                ctx.log(op['op'], done.label())
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def change(item, obj, op):
    fmt = importlib.import_module('dsim.formats.' + item['kind'])
    if op['op'] == 'edit':
        fmt.edit_real(fmt.resolve(op['change'], fmt.source_model(item['content'], {})), obj)
    elif op['op'] == 'set':
        value = VALUES[op['value']]
        if op['array'] and isinstance(value, list):
            value = np.array(value)
        obj.modify(op['name'], value)
    else:
        from parsevasp.poscar import Site
        has = op['has']
        site = Site('Fe' if has[3] else 'O', np.array([0.1, 0.2, 0.3]),
                    selective=[True, False, True] if has[0] else None,
                    velocities=np.array([0.1, 0.0, 0.2]) if has[1] else None,
                    predictors=np.array([0.1, 0.0, 0.2]) if has[2] else None, direct=has[4])
        if op['index'] is None:
            obj.modify('sites', [site] + (list(obj.entries['sites']) if has[5] else []))
        else:
            obj.modify('sites', site, site_number=op['index'])


def snapshot(root):
    """All files below the root with their content."""
    out = {}
    for base, _, names in os.walk(root):
        for name in names:
            path = os.path.join(base, name)
            out[os.path.relpath(path, root)] = hashlib.sha1(read_bytes(path)).hexdigest()
    return out


def run_write(ctx, fsys, item, obj, op, num):
    kind, target = item['kind'], op['to']
    path = {'existing': ctx.path('existing'), 'own': ctx.path(f'input{op["obj"]}'), 'directory': ctx.path('sub'),
            'nowhere': ctx.path('no/such/place')}.get(target, ctx.path(f'new{num}'))
    if target in ('existing', 'file-handle', 'both'):
        write_bytes(ctx.path('existing'), b'what was here before\n' * 3)
    before = snapshot(ctx.root)
    report = anyfile.digest(kind, item['options'], obj)
    kwargs = {} if op.get('comments') is None else {'comments': op['comments']}
    handle = None
    if target in ('handle', 'both'):
        handle = kwargs['file_handler'] = io.StringIO()
        handle.write('begin\n')
    elif target == 'file-handle':
        handle = kwargs['file_handler'] = open(ctx.path('existing'), 'r+', encoding=op.get('encoding', 'utf8'))
        handle.seek(0, 2)
    if target not in ('handle', 'file-handle', 'neither'):
        kwargs['file_path'] = pathlib.Path(path) if op['pathlib'] else path
    position = handle.tell() if handle else None
    fsys.begin([{'site': 'open', 'nth': 0, 'kind': op['fault']}] if op.get('fault') else [], op.get('delivery'))
    out = attempt(obj.value.write, **kwargs)
    fired = fsys.end()
    what = f'{kind} to {target}'
    ctx.log('write', kind, target, out.label(), fired)
    later = handle.tell() if handle and not handle.closed else None
    if handle is not None:
        if handle.closed:
            ctx.fail('caller-handle-closed', f'{what}: {out.label()}')
        text = handle.getvalue() if target in ('handle', 'both') else None
        handle.close()
    if out.ok:
        ctx.probe('accepted')
        if kind not in anyfile.WRITABLE:
            ctx.fail('pretended', f'{what}: returned normally, but this class cannot write')
        if target in ('both', 'neither', 'directory', 'nowhere') or hard(fired):
            ctx.fail('pretended', f'{what}: returned normally (storage: {fired})')
        return
    ctx.nontrivial = True
    ctx.probe('refused ' + ('unwritable class' if kind not in anyfile.WRITABLE else
                            'by the storage' if hard(fired) or target in ('directory', 'nowhere') else
                            'arguments' if target in ('both', 'neither') else 'content'))
    reason = f'{what}: refused with {out.label()} {describe(out.exc, 200)}'
    if isinstance(out.exc, SystemExit) and out.exc.code in (0, None):
        ctx.fail('pretended', f'{reason}: exits with success')
    after = snapshot(ctx.root)
    changed = sorted(name for name in set(before) | set(after) if before.get(name) != after.get(name))
    if changed:
        ctx.fail('refused-but-changed', f'{reason}: changed {changed}')
    if handle is not None:
        if later != position:
            ctx.fail('refused-but-changed', f'{reason}: the handle moved from {position} to {later}')
        if text is not None and text != 'begin\n':
            ctx.fail('refused-but-changed', f'{reason}: the handle received {describe(text[6:])}')
    check_fds(ctx, fsys, [], what)
    diff = anyfile.difference(anyfile.digest(kind, item['options'], obj), report)
    if diff:
        ctx.fail('object-changed', f'{reason}: {diff}')
