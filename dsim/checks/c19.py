"""C19: calls leave the storage and the process as they found them, and do not depend on the settings of the process."""
import contextlib
import decimal
import gc
import hashlib
import importlib
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import tempfile
import threading
import warnings

import numpy as np

from dsim import anyfile
from dsim.core import REPO, PlanError
from dsim.proc import live
from dsim.simfs import SimFS, read_bytes, write_bytes
from dsim.util import attempt, delivery_plan, describe, write_faults

ID = 'C19'
RUNS = {'quick': 6000, 'thorough': 150000}
RULE = ('Seeded histories of parses (ten kinds, intact, cut or damaged, by every way), queries, edits, writes and changes '
        'of the working directory, with seeded storage faults, run twice in fresh processes: once with default settings '
        'and once with seeded process settings (NumPy print and error settings, locale, umask, decimal context, random '
        'generators, garbage collection, warning filters, log levels, broken log sinks, removed working directory); '
        'around every call the files and the process-wide state are compared, and both executions with each other; '
        'non-trivial: at least one call failed, was refused or wrote a file.')
REAL = ['all parsevasp classes from /repo', 'lxml/libxml2', 'NumPy', 'PyYAML', 'Python logging',
        'the file system below the scratch directory', 'the process state of forked processes']
STUB = ['raw file I/O below the scratch directory (fault-injecting wrapper)', 'the client program and its settings '
        '(generated history)', 'VASP and the user as writers of the input files']
SETTINGS = ['print', 'legacy', 'umask', 'locale', 'errstate', 'decimal', 'gc', 'seed', 'warnings', 'loglevel', 'nolog',
            'brokenlog', 'stdout', 'recursion', 'gone', 'environ', 'switch', 'tracebacks']
READ_ERRORS = ['EIO', 'EIO', 'ESTALE', 'ENOENT', 'EACCES', 'NOMEM', 'CANCEL']


# ------------------------------------------------------------------------------------------------ plans
def gen_op(rng, files, slots):
    if rng.chance(0.05):
        return {'op': 'item', 'tag': rng.choice(['ENCUT', 'system', 'my tag', 'LWAVE', 'MAGMOM']),
                'value': rng.choice(['500', '.TRUE.', 'a b', '1 a', '2*1.0 3', 5, 2.5, [1, 2], None, 'a = b']),
                'comment': rng.choice([None, 'why', 'a\nb'])}
    roll = rng.random()
    if not slots or roll < 0.4:
        num = rng.randrange(len(files))
        item = files[num]
        op = {'op': 'parse', 'file': num, 'way': rng.choice(anyfile.ways(item['kind'])), 'relative': rng.chance(0.3),
              'slot': rng.randrange(3)}
        if rng.chance(0.4):
            op['delivery'] = delivery_plan(rng)
        if rng.chance(0.3):
            op['faults'] = [{'site': rng.choice(['open', 'read', 'read', 'read', 'close']), 'nth': rng.choice([0, 0, 1, 2, 5]),
                             'kind': rng.choice(READ_ERRORS), 'sticky': rng.chance(0.5)}]
        slots[op['slot']] = item
        return op
    slot = rng.pick(sorted(slots))
    item = slots[slot]
    if roll < 0.5:
        return {'op': 'query', 'slot': slot}
    if roll < 0.6:
        return {'op': 'chdir', 'to': rng.randrange(3)}
    if item['kind'] in anyfile.WRITABLE and roll < 0.75:
        fmt = importlib.import_module('dsim.formats.' + item['kind'])
        return {'op': 'edit', 'slot': slot, 'change': fmt.gen_edit(rng, item['content']), 'file': files.index(item)}
    op = {'op': 'write', 'slot': slot, 'to': rng.choice(['new', 'new', 'existing', 'existing', 'own', 'handle', 'nowhere']),
          'relative': rng.chance(0.3), 'delivery': delivery_plan(rng)}
    if rng.chance(0.35):
        op['faults'] = write_faults(rng)
    return op


def generate(rng, tier):
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        item = anyfile.gen_file(rng, rng.choice(anyfile.WRITABLE) if rng.chance(0.4) else None)
        item['mangle'] = anyfile.gen_mangle(rng)
        item['options'] = anyfile.gen_options(rng, item)
        files.append(item)
    slots = {}
    plan = {'files': files, 'ops': [gen_op(rng, files, slots) for _ in range(rng.randint(2, 8))],
            'settings': [name for name in SETTINGS if rng.chance(0.2)]}
    if 'gone' in plan['settings']:
        plan['ops'] = [dict(op, relative=False) if 'relative' in op else op for op in plan['ops'] if op['op'] != 'chdir']
    return plan


def check_plan(plan):
    try:
        if not set(plan['settings']) <= set(SETTINGS):
            raise PlanError('settings')
        for op in plan['ops']:
            if op['op'] == 'item':
                op['tag'], op['value'], op['comment']  # pylint: disable=pointless-statement
            elif op['op'] == 'parse':
                if op['way'] not in anyfile.ways(plan['files'][op['file']]['kind']):
                    raise PlanError('way')
            elif op['op'] == 'edit':
                kind = plan['files'][op['file']]['kind']
                importlib.import_module('dsim.formats.' + kind).check_valid_edit(op['change'])
            if 'gone' in plan['settings'] and (op['op'] == 'chdir' or op.get('relative')):
                raise PlanError('no working directory')
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, ImportError) as exc:
        raise PlanError(str(exc)) from exc


# ------------------------------------------------------------------------------------------------ settings
class BrokenPipe(io.TextIOBase):
    """Where log messages go when nobody listens any more."""

    def writable(self):
        return True

    def write(self, _text):
        raise BrokenPipeError(32, 'simulated broken pipe')

    def flush(self):
        raise BrokenPipeError(32, 'simulated broken pipe')


def apply_setting(name, root):
    if name == 'print':
        np.set_printoptions(precision=2, suppress=True, threshold=3, linewidth=20, edgeitems=1)
    elif name == 'legacy':
        np.set_printoptions(legacy='1.13')
    elif name == 'umask':
        os.umask(0o077)
    elif name == 'locale':
        with contextlib.suppress(locale.Error):
            locale.setlocale(locale.LC_ALL, 'C.UTF-8')
    elif name == 'errstate':
        np.seterr(all='ignore')
    elif name == 'decimal':
        decimal.getcontext().prec = 3
    elif name == 'gc':
        gc.disable()
    elif name == 'seed':
        random.seed(12345)
        np.random.seed(6789)
    elif name == 'warnings':
        warnings.simplefilter('always')
    elif name == 'loglevel':
        logging.getLogger().setLevel(logging.DEBUG)
        logging.getLogger().addHandler(logging.NullHandler())
    elif name == 'nolog':
        logging.disable(logging.CRITICAL)
    elif name == 'brokenlog':
        sys.stderr = BrokenPipe()
    elif name == 'stdout':
        sys.stdout = io.StringIO()
    elif name == 'recursion':
        sys.setrecursionlimit(5000)
    elif name == 'environ':
        os.environ.update(HOME='/nonexistent', USER='someone', LANG='de_DE.UTF-8', VASP_PP_PATH='/nonexistent', COLUMNS='7')
    elif name == 'switch':
        sys.setswitchinterval(0.5)
    elif name == 'tracebacks':
        sys.tracebacklimit = 0
    elif name == 'gone':
        path = os.path.join(root, 'removed')
        os.mkdir(path)
        os.chdir(path)
        os.rmdir(path)


def short(value):
    return hashlib.sha1(repr(value).encode()).hexdigest()[:12]


def working_directory():
    try:
        return os.getcwd()
    except FileNotFoundError:
        return 'removed'


def process_state():
    """Settings of the whole process, name -> something comparable."""
    umask = os.umask(0)
    os.umask(umask)
    try:
        children = os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        children = None
    root = logging.getLogger()
    return {
        'working directory': working_directory(), 'environment': dict(os.environ), 'umask': umask,
        'locale': locale.setlocale(locale.LC_ALL), 'child processes': children,
        'signal handlers': [str(signal.getsignal(num)) for num in sorted(signal.valid_signals())],
        'signal mask': sorted(signal.pthread_sigmask(signal.SIG_BLOCK, [])), 'timer': signal.getitimer(signal.ITIMER_REAL),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'open': [id(open), id(io.open)],
        'search path': list(sys.path), 'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'hooks': [id(sys.excepthook), id(sys.unraisablehook), id(sys.displayhook), str(sys.gettrace()), str(sys.getprofile())],
        'integer digits': sys.get_int_max_str_digits(), 'garbage collection': [gc.isenabled(), gc.get_threshold(), gc.get_debug()],
        'warning filters': [str(item) for item in warnings.filters], 'showwarning': id(warnings.showwarning),
        'NumPy error settings': [np.geterr(), str(np.geterrcall())], 'NumPy print settings': str(np.get_printoptions()),
        'random generator': short(random.getstate()), 'NumPy random generator': short(np.random.get_state()),
        'decimal context': str(decimal.getcontext()), 'threads': sorted(item.name for item in threading.enumerate()),
        'root logger': [root.level, [str(item) for item in root.handlers], [str(item) for item in root.filters],
                        root.disabled, logging.root.manager.disable, logging.raiseExceptions,
                        logging.getLoggerClass().__name__, str(logging.lastResort), id(logging.getLogRecordFactory())],
        'limits': [resource.getrlimit(item) for item in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_FSIZE,
                                                         resource.RLIMIT_STACK)],
        'priority': os.getpriority(os.PRIO_PROCESS, 0), 'socket timeout': socket.getdefaulttimeout(),
        'temporary directory': tempfile.tempdir, 'process group': [os.getpgid(0), os.getsid(0)],
    }


def tree(root):
    """All files and directories below the root."""
    out = {}
    for base, dirs, names in os.walk(root):
        for name in dirs + names:
            path = os.path.join(base, name)
            info = os.lstat(path)
            entry = [oct(info.st_mode), info.st_uid, info.st_gid]
            if name in names:
                entry += [info.st_mtime_ns, info.st_nlink, info.st_ino,
                          hashlib.sha1(read_bytes(path) or b'').hexdigest() if os.path.isfile(path) else os.readlink(path)]
            out[os.path.relpath(path, root)] = entry
    return out


def package():
    """The files that come with the library."""
    base = os.path.join(REPO, 'parsevasp')
    return sorted([item.name, item.stat().st_mtime_ns, item.stat().st_size] for item in os.scandir(base)
                  if item.name != '__pycache__')


def descriptors():
    out = {}
    for name in os.listdir('/proc/self/fd'):
        with contextlib.suppress(OSError):
            target = os.readlink('/proc/self/fd/' + name)
            if not target.startswith('/proc/'):
                out[int(name)] = target
    return out


# ------------------------------------------------------------------------------------------------ execution
def execute(plan, ctx):
    check_plan(plan)
    datas = [anyfile.bytes_of(item) for item in plan['files']]
    traces = []
    for name, settings in (('plain', []), ('changed', plan['settings'])):
        root = ctx.path(name)

        def body(life, child, root=root, settings=settings):
            trace = history(child, plan, datas, root, settings)
            life.checkpoint(0, trace)

        traces.append(live(ctx, body)[1]['state'])
        ctx.simtime += 30.0 * len(plan['ops'])
        if not plan['settings']:
            return
    for name in plan['settings']:
        ctx.fault(f'settings:{name}')
    for num, (one, two) in enumerate(zip(*traces)):
        what = f'{describe(plan["ops"][num], 300)} with settings {plan["settings"]}'
        if one[0] != two[0]:
            ctx.fail('depends-on-settings', f'{what}: {two[0]} instead of {one[0]}')
        diff = anyfile.difference(two[1], one[1])
        if diff:
            ctx.fail('depends-on-settings', f'{what}: {diff}')


def history(ctx, plan, datas, root, settings):
    """One execution of the history; returns per operation what came of it."""
    for name in ('in', 'out', 'tmp', 'work0', 'work1', 'work2'):
        os.makedirs(os.path.join(root, name))
    for num, data in enumerate(datas):
        path = os.path.join(root, 'in', f'file{num}')
        write_bytes(path, data)
        os.utime(path, ns=(10**18, 10**18))
    write_bytes(os.path.join(root, 'out', 'other'), b'another file\n')
    os.environ['TMPDIR'] = os.path.join(root, 'tmp')
    tempfile.tempdir = None
    os.chdir(os.path.join(root, 'work0'))
    for name in settings:
        apply_setting(name, root)
    fsys = SimFS(root)
    fsys.install()
    world = {'slots': {}, 'fsys': fsys, 'root': root, 'plan': plan, 'datas': datas, 'handle': None}
    trace = []
    try:
        for num, op in enumerate(plan['ops']):
            before = [process_state(), tree(root), package(), descriptors()]
            label, found, target = step(ctx, world, op, num)
            after = [process_state(), tree(root), package(), descriptors()]
            compare(ctx, op, label, before, after, target)
            if world['handle'] is not None:
                world['handle'].close()
                world['handle'] = None
            ctx.log(op['op'], label)
            if op['op'] == 'write' and target and label == 'ok' or label not in ('ok', 'nothing'):
                ctx.nontrivial = True
            trace.append([label, found])
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)
    return trace


def compare(ctx, op, label, before, after, target):
    what = f'{describe({key: value for key, value in op.items() if key != "change"}, 300)} ({label})'
    skip = ('working directory', ) if op['op'] == 'chdir' else ()
    for name, value in before[0].items():
        if after[0][name] != value and name not in skip:
            ctx.fail('process-changed', f'{what}: {name} was {describe(value, 200)} and is {describe(after[0][name], 200)}')
    for name in sorted(set(before[1]) | set(after[1])):
        if before[1].get(name) != after[1].get(name) and name != target:
            ctx.fail('storage-changed', f'{what}: {name} was {before[1].get(name)} and is {after[1].get(name)}')
    if before[2] != after[2]:
        ctx.fail('storage-changed', f'{what}: the files of the library changed')
    extra = [value for key, value in after[3].items() if before[3].get(key) != value]
    if extra:
        ctx.fail('descriptor-left', f'{what}: {extra}')


def step(ctx, world, op, num):
    """Carry out one operation; gives its outcome, what can be said about the result, and the file it may change."""
    fsys, root, plan = world['fsys'], world['root'], world['plan']
    if op['op'] == 'chdir':
        os.chdir(os.path.join(root, f'work{op["to"]}'))
        return 'ok', [], None
    if op['op'] == 'item':
        from parsevasp.incar import IncarItem
        done = attempt(IncarItem, op['tag'], op['value'], op['comment'])
        found = [[name, repr(getattr(done.value, 'get_' + name)())] for name in ('tag', 'value', 'comment')] if done.ok else []
        return done.label(), found, None
    if op['op'] == 'parse':
        item = plan['files'][op['file']]
        path = os.path.join(root, 'in', f'file{op["file"]}')
        data = read_bytes(path)
        if data != world['datas'][op['file']]:
            # Written in between
            try:
                data.decode('iso-8859-1' if item['kind'] == 'xml' else 'utf8')
            except UnicodeDecodeError:
                return 'nothing', [], None
        delivery = op.get('delivery')
        fsys.begin([], delivery)
        held = anyfile.Source(item, op['way'], os.path.relpath(path) if op['relative'] else path, data, open,
                              (delivery or {}).get('read', []))
        fsys.begin(op.get('faults', []), delivery)
        before = descriptors()
        out = anyfile.parse(item['kind'], item['options'], **held.args)
        extra = [value for key, value in descriptors().items() if before.get(key) != value]
        fsys.end()
        held.close()
        if extra:
            ctx.fail('descriptor-left', f'{describe(op, 300)} ({out.label()}): {extra}')
        ctx.probe(f'{item["kind"]} {"parsed" if out.ok else "rejected"}')
        world['slots'].pop(op['slot'], None)
        if out.ok:
            world['slots'][op['slot']] = (item, out)
        return out.label(), anyfile.digest(item['kind'], item['options'], out), None
    if op['slot'] not in world['slots']:
        return 'nothing', [], None
    item, out = world['slots'][op['slot']]
    kind = item['kind']
    if op['op'] == 'query':
        return 'ok', anyfile.digest(kind, item['options'], out), None
    if op['op'] == 'edit':
        if plan['files'][op['file']] is not item:
            return 'nothing', [], None
        fmt = importlib.import_module('dsim.formats.' + kind)
        done = attempt(lambda: fmt.edit_real(fmt.resolve(op['change'], fmt.source_model(item['content'], {})), out.value))
        return done.label(), anyfile.digest(kind, item['options'], out), None
    return write(ctx, world, op, num)


def write(ctx, world, op, num):
    fsys, root = world['fsys'], world['root']
    item, out = world['slots'][op['slot']]
    name = {'existing': 'out/existing', 'own': f'in/file{world["plan"]["files"].index(item)}',
            'nowhere': 'no/such/place'}.get(op['to'], f'out/new{num}')
    path = os.path.join(root, name)
    if op['to'] == 'existing' and not os.path.exists(path):
        write_bytes(path, b'what was here before\n')
        os.utime(path, ns=(10**18, 10**18))
        before = [process_state(), tree(root), package(), descriptors()]
    else:
        before = None
    kwargs = {}
    if op['to'] == 'handle':
        world['handle'] = kwargs['file_handler'] = io.StringIO()
    else:
        kwargs['file_path'] = os.path.relpath(path) if op['relative'] else path
    fsys.begin(op.get('faults', []), op.get('delivery'))
    done = attempt(out.value.write, **kwargs)
    fsys.end()
    ctx.probe(f'{item["kind"]} {"written" if done.ok else "not written"}')
    target = None if op['to'] in ('handle', 'nowhere') or item['kind'] not in anyfile.WRITABLE else name
    if before is not None:
        compare(ctx, op, done.label(), before, [process_state(), tree(root), package(), descriptors()], name)
        target = name
    text = (kwargs['file_handler'].getvalue().encode() if op['to'] == 'handle' else
            read_bytes(path) if os.path.isfile(path) else b'')
    found = [['written', short(text), text[:300].decode('utf8', 'replace')]]
    return done.label(), found, target
