"""C12: several client threads, each with its own parser objects, under a seeded scheduler."""
import copy
import hashlib
import importlib
import io
import logging
import re

from dsim import anyfile, sched
from dsim.core import PlanError, REPO
from dsim.proc import live
from dsim.simfs import SimFS, write_bytes
from dsim.util import SlowText, attempt, delivery_plan

ID = 'C12'
RUNS = {'quick': 2500, 'thorough': 60000}
RULE = ('Two to four client threads construct, edit, query and write their own objects of all ten classes, from files, '
        'handles, strings and dictionaries that several of them may share; a seeded scheduler decides at every source '
        'line (in some runs every byte-code instruction) of the library, every storage call and every lock operation '
        'which thread goes on; files may be damaged and handles may fail; every result of every client is compared '
        'with the same operations done alone in a fresh process; non-trivial: at least two threads were preempted.')
REAL = ['all parsevasp classes from /repo', 'the threads, logging, lxml, PyYAML and NumPy of CPython',
        'the file system below the scratch directory']
STUB = ['the choice of the running thread (seeded scheduler)', 'locks of the library and of logging (cooperative)',
        'raw reads and writes (delivery in seeded pieces)', 'VASP and the user as writers of the files']

LEVELS = ['DEBUG', 'INFO', 'WARNING', 'CRITICAL']
MAX_YIELDS = 20_000_000  # far above what any generated run needs (see OPCODE_BYTES)
OPCODE_BYTES = 40_000  # runs that read more than this in all are preempted at source lines only


# ------------------------------------------------------------------------------------------------ plans
def gen_small(rng, kind=None):
    for _ in range(6):
        item = anyfile.gen_file(rng, kind)
        item['mangle'] = []
        if len(anyfile.bytes_of(item)) < 9000:
            break
    item['mangle'] = anyfile.gen_mangle(rng) if rng.chance(0.4) else []
    item['options'] = [gen_options(rng, item) for _ in range(rng.choice([1, 1, 2]))]
    return item


def gen_options(rng, item):
    options = anyfile.gen_options(rng, item)
    if item['kind'] == 'stream':
        from dsim.checks import c11
        options['config'] = c11.gen_config(rng)
    return options


def gen_client(rng, files, twin=None):
    if twin is not None and rng.chance(0.4):
        return copy.deepcopy(twin)
    ops = []
    kinds = {}
    for _ in range(rng.randint(1, 6)):
        roll = rng.random()
        if not kinds or roll < 0.35:
            slot = rng.randrange(3)
            num = rng.randrange(len(files))
            item = files[num]
            way = rng.choice(anyfile.ways(item['kind']) + (['dict'] * 2 if item['kind'] in anyfile.WRITABLE else []))
            op = {'op': 'new', 'slot': slot, 'file': num, 'option': rng.randrange(len(item['options'])), 'way': way}
            if way == 'slow':
                op['sizes'] = [rng.randint(1, 200) for _ in range(rng.randint(1, 3))]
            kinds[slot] = num
        else:
            slot = rng.pick(sorted(kinds))
            item = files[kinds[slot]]
            if item['kind'] in anyfile.WRITABLE and roll < 0.6:
                fmt = importlib.import_module('dsim.formats.' + item['kind'])
                op = {'op': 'edit', 'slot': slot, 'change': fmt.gen_edit(rng, item['content'])}
            elif item['kind'] in anyfile.WRITABLE and roll < 0.8:
                op = {'op': 'write', 'slot': slot, 'to': rng.choice(['path', 'path', 'handle', 'broken'])}
                if op['to'] == 'broken':
                    op['after'] = rng.choice([0, 1, 20, 200])
            else:
                op = {'op': 'report', 'slot': slot}
        ops.append(op)
    out = {'ops': ops, 'logger': None}
    if rng.chance(0.4):
        out['logger'] = {'level': rng.choice(LEVELS), 'handlers': rng.choice([0, 1, 1, 2]), 'propagate': rng.chance(0.7)}
    return out


def gen_schedule(rng):
    """Items [quantum, pick, times]: run `quantum` scheduling points, then go on with thread `pick`; repeat."""
    style = rng.randrange(4)
    if style == 0:  # lock step
        return [[rng.choice([0, 0, 1, 2, 5]), 0, rng.choice([50, 400, 3000])]]
    if style == 1:  # a few switches at arbitrary places
        return [[rng.randint(0, rng.choice([30, 300, 3000])), rng.randrange(4), 1] for _ in range(rng.randint(1, 8))]
    if style == 2:
        top = rng.choice([3, 10, 40, 150])
        return [[rng.randint(0, top), rng.randrange(4), 1] for _ in range(rng.choice([20, 80, 300]))]
    out = []
    for _ in range(rng.randint(5, 60)):
        out.append([rng.randint(0, rng.choice([2, 20, 200, 2000])), rng.randrange(4), rng.choice([1, 1, 1, 2, 20])])
    return out


def generate(rng, tier):
    files = [gen_small(rng)]
    while len(files) < 4 and rng.chance(0.6):
        files.append(gen_small(rng, files[0]['kind'] if rng.chance(0.4) else None))
    clients = [gen_client(rng, files)]
    for _ in range(rng.choice([1, 1, 2, 3])):
        clients.append(gen_client(rng, files, clients[0]))
    plan = {'files': files, 'clients': clients, 'schedule': gen_schedule(rng), 'opcodes': rng.chance(0.15),
            'before': gen_client(rng, files) if rng.chance(0.3) else None, 'logging': None}
    if plan['opcodes']:
        sizes = [len(anyfile.bytes_of(item)) for item in files]
        plan['opcodes'] = sum(sizes[op['file']] for client in clients for op in client['ops']
                              if op['op'] == 'new') <= OPCODE_BYTES
    if rng.chance(0.4):
        plan['logging'] = rng.choice(['root', 'package', 'class', 'class-two'])
    if rng.chance(0.3):
        plan['delivery'] = delivery_plan(rng)
    return plan


def expand(schedule):
    out = []
    for quantum, pick, times in schedule:
        if not 0 < times <= 5000 or quantum < 0 or pick < 0:
            raise PlanError('schedule')
        out.extend([quantum, pick + num] for num in range(times))
    return out


# ------------------------------------------------------------------------------------------------ clients
class Capture(logging.Handler):

    def __init__(self, root):
        super().__init__(logging.DEBUG)
        self.records = []
        self._root = root

    def emit(self, record):
        text = re.sub(r'0x[0-9a-f]+', '0x', record.getMessage().replace(self._root, ''))
        self.records.append([record.name, record.levelname, text])


class YieldText(SlowText):
    """A pipe-like handle of the caller: other threads may run while it delivers."""

    def read(self, size=-1):
        pause()
        return super().read(size)

    def readline(self, size=-1):
        pause()
        return super().readline(size)


class Broken(io.StringIO):
    """A handle of the caller on a disk that is full after some characters."""

    def __init__(self, after):
        super().__init__()
        self._after = after

    def write(self, text):
        pause()
        left = self._after - self.tell()
        if len(text) > left:
            super().write(text[:max(0, left)])
            raise OSError(28, 'No space left on device')
        return super().write(text)


def pause():
    if sched.CURRENT is not None and sched.CURRENT.is_client():
        sched.CURRENT.yield_point('io')


class Client:
    """Does the operations of one client; everything that comes of them is in `results`."""

    def __init__(self, name, plan, shared, ctx):
        self.name = name
        self.plan = plan
        self.shared = shared
        self.ctx = ctx
        self.slots = {}
        self.results = []
        self.logger = None
        self.captures = []
        spec = plan['logger']
        if spec:
            self.logger = logging.getLogger(name)
            self.logger.setLevel(spec['level'])
            self.logger.propagate = spec['propagate']
            self.captures = [Capture(ctx.root) for _ in range(spec['handlers'])]
            for handler in self.captures:
                self.logger.addHandler(handler)
        self.configured = self.logger_state()

    def logger_state(self):
        log = self.logger
        return log and [log.level, log.propagate, list(map(id, log.handlers)), list(log.filters), log.disabled,
                        [[item.level, item.formatter, list(item.filters)] for item in log.handlers]]

    def run(self):
        for num, op in enumerate(self.plan['ops']):
            self.results.append(self.step(num, op))

    def step(self, num, op):
        kind = op['op']
        if kind == 'new':
            return self.new(num, op)
        slot = self.slots.get(op['slot'])
        if slot is None:
            return ['no object']
        if kind == 'report':
            return anyfile.digest(*slot[:3])
        if kind == 'edit':
            fmt = self.shared.formats[slot[0]]
            out = attempt(fmt.edit_real, slot[3](op['change']), slot[2].value)
            return ['edit', out.label(), self.message(out)]
        if kind == 'write':
            return self.write(num, op, slot)
        raise PlanError('unknown op')

    def message(self, out):
        return re.sub(r'0x[0-9a-f]+', '0x', str(out.exc).replace(self.ctx.root, ''))[:300]

    def new(self, num, op):
        item = self.shared.files[op['file']]
        kind = item['kind']
        given = self.shared.options[op['file']][op['option']]
        args = dict(given)
        if self.logger is not None:
            args['logger'] = self.logger
        data = self.shared.datas[op['file']]
        handle = None
        self.slots.pop(op['slot'], None)
        if op['way'] == 'dict':
            args[kind + '_dict'] = self.shared.dicts[op['file']]
        elif op['way'] == 'slow':
            handle = args['file_handler'] = YieldText(self.shared.texts[op['file']], op['sizes'])
        else:
            source = anyfile.Source(item, op['way'], self.shared.paths[op['file']], data, open)
            handle = source.handle
            args.update(source.args)
        out = attempt(anyfile.parser(kind), **args)
        if handle is not None:
            handle.close()
        if out.ok:
            resolve = None
            if kind in anyfile.WRITABLE:
                fmt, model = self.shared.formats[kind], self.shared.models[op['file']]
                resolve = lambda change: fmt.resolve(change, model)  # noqa: E731
            self.slots[op['slot']] = [kind, given, out, resolve]
        return anyfile.digest(kind, given, out)

    def write(self, num, op, slot):
        if op['to'] == 'path':
            path = self.ctx.path(f'{self.name}-{num}')
            out = attempt(slot[2].value.write, file_path=path)
            try:
                with open(path, 'rb') as handle:
                    return ['write', out.label(), self.message(out), handle.read().decode('utf8', 'replace')]
            except FileNotFoundError:
                return ['write', out.label(), self.message(out), None]
        handle = Broken(op['after']) if op['to'] == 'broken' else io.StringIO()
        out = attempt(slot[2].value.write, file_handler=handle)
        return ['write', out.label(), self.message(out), handle.getvalue()]

    def final(self):
        """What the client still holds, and what it was told through its logger."""
        return [[str(num), anyfile.digest(*slot[:3])] for num, slot in sorted(self.slots.items())], \
            [item.records for item in self.captures]


class Shared:
    """What the clients have in common: input files and the caller's objects given to the constructors."""

    def __init__(self, plan, ctx):
        self.files = plan['files']
        self.datas, self.texts, self.paths, self.dicts, self.models, self.options = [], [], [], [], [], []
        self.formats = {kind: importlib.import_module('dsim.formats.' + kind) for kind in anyfile.WRITABLE}
        from dsim.checks import c11
        for num, item in enumerate(self.files):
            data = anyfile.bytes_of(item)
            path = ctx.path(f'file{num}')
            write_bytes(path, data)
            self.datas.append(data)
            self.paths.append(path)
            self.texts.append(None if item['kind'] == 'xml' else io.StringIO(data.decode('utf8'), newline=None).read())
            given = model = None
            try:
                if item['kind'] in anyfile.WRITABLE:
                    fmt = self.formats[item['kind']]
                    given = fmt.real_dict(fmt.source_dict(item['content'], item['style']))
                    model = fmt.source_model(item['content'], {})
                options = []
                for option in item['options']:
                    option = dict(option)
                    if option.get('config') is not None:
                        option['config'] = c11.user_config(option['config'])[0]
                    options.append(option)
            except (KeyError, IndexError, ValueError, TypeError, AttributeError) as exc:
                raise PlanError(str(exc)) from exc
            self.dicts.append(given)
            self.models.append(model)
            self.options.append(options)

    def given(self):
        """The caller's objects as text."""
        return anyfile.canonical([self.dicts, [[option.get('config') for option in options] for options in self.options]])


def check_plan(plan):
    try:
        for client in plan['clients'] + [plan['before'] or {'ops': [], 'logger': None}]:
            spec = client['logger']
            if spec and (spec['level'] not in LEVELS or not 0 <= spec['handlers'] <= 3):
                raise PlanError('logger')
            owner = {}
            for op in client['ops']:
                if op['op'] == 'new':
                    item = plan['files'][op['file']]
                    item['options'][op['option']].items()
                    if op['way'] not in anyfile.ways(item['kind']) + ['dict'] * (item['kind'] in anyfile.WRITABLE):
                        raise PlanError('way')
                    if op['way'] == 'slow' and not op['sizes']:
                        raise PlanError('sizes')
                    owner[op['slot']] = item
                    continue
                item = owner[op['slot']]
                if op['op'] in ('edit', 'write') and item['kind'] not in anyfile.WRITABLE:
                    raise PlanError('not writable')
                if op['op'] == 'edit':
                    fmt = importlib.import_module('dsim.formats.' + item['kind'])
                    fmt.check_valid(item['content'])
                    fmt.check_valid_edit(op['change'])
        if not plan['clients'] or plan['logging'] not in (None, 'root', 'package', 'class', 'class-two'):
            raise PlanError('plan')
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as exc:
        raise PlanError(str(exc)) from exc


# ------------------------------------------------------------------------------------------------ one run
def default_logger(kind):
    cls = anyfile.parser(kind)
    return logging.getLogger(cls.__module__ + '.' + cls.__name__)


def used_kinds(plan, default_only):
    out = set()
    for client in plan['clients'] + ([plan['before']] if plan['before'] else []):
        if default_only and client['logger']:
            continue
        out.update(plan['files'][op['file']]['kind'] for op in client['ops'] if op['op'] == 'new')
    return sorted(out)


def configure_logging(plan):
    """What the program of the user configured before it used the library."""
    where = plan['logging']
    if where == 'root':
        logging.getLogger().addHandler(logging.StreamHandler(io.StringIO()))
    elif where == 'package':
        logging.getLogger('parsevasp').addHandler(logging.StreamHandler(io.StringIO()))
    elif where in ('class', 'class-two'):
        for kind in used_kinds(plan, True):
            for _ in range(2 if where == 'class-two' else 1):
                default_logger(kind).addHandler(logging.StreamHandler(io.StringIO()))


def alone(ctx, plan, client, name):
    """The results of the same operations in a process where nothing else happens."""

    def body(life, child):
        spy = Capture(child.root)
        logging.getLogger('parsevasp').addHandler(spy)
        shared = Shared(plan, child)
        given = shared.given()
        one = Client(name, client, shared, child)
        one.run()
        final, said = one.final()
        life.send(kind='step', index=0, state=[one.results, final, said, spy.records[:3], one.logger_state() ==
                                               one.configured, shared.given() == given])

    return live(ctx, body)[1]['state']


def compare(ctx, name, what, got, want):
    got, want = jsonable(got), jsonable(want)
    if got == want:
        return
    detail = f'{got!r:.600} instead of {want!r:.600}'
    if isinstance(got, list) and isinstance(want, list):
        if got and want and isinstance(got[0], list) and isinstance(want[0], list) and len(got[0]) == 3:
            detail = anyfile.difference(got, want) or detail
        else:
            for one, two in zip(got, want):
                if one != two:
                    detail = f'{one!r:.600} instead of {two!r:.600}'
                    break
    ctx.fail('not-independent', f'{name}: {what}: {detail}')


def jsonable(value):
    if isinstance(value, (list, tuple)):
        return [jsonable(item) for item in value]
    return value


def execute(plan, ctx):
    check_plan(plan)
    schedule = expand(plan['schedule'])
    names = [f'client{num}' for num in range(len(plan['clients']))]
    want = {}
    for name, client in list(zip(names, plan['clients'])) + ([('before', plan['before'])] if plan['before'] else []):
        results, final, said, leaked, same, unchanged = want[name] = alone(ctx, plan, client, name)
        if client['logger'] and leaked:
            ctx.fail('logger-ignored', f'{name}: with a logger of the caller the default logger was used: {leaked}')
        if not same:
            ctx.fail('logger-changed', f'{name}: the logger of the caller was reconfigured')
        if not unchanged:
            ctx.fail('argument-changed', f'{name}: a dictionary of the caller was changed')
        ctx.simtime += 60.0
        for records in said:
            ctx.probe('messages to loggers of the caller', len(records))
    configure_logging(plan)
    fsys = SimFS(ctx.root)
    shared = Shared(plan, ctx)
    given = shared.given()
    clients = [Client(name, client, shared, ctx) for name, client in zip(names, plan['clients'])]
    before = Client('before', plan['before'], shared, ctx) if plan['before'] else None
    fsys.install()
    try:
        fsys.begin([], plan.get('delivery'))
        fsys.watch = lambda _site, _idx: pause()
        if before:
            before.run()
        scheduler = sched.Scheduler(sched.library_prefix(REPO), schedule, opcodes=bool(plan['opcodes']),
                                    max_yields=MAX_YIELDS)
        done = scheduler.run([client.run for client in clients])
        fsys.watch = None
        if scheduler.overrun:
            ctx.fail('no-progress', f'more than {MAX_YIELDS} scheduling points')
        if scheduler.deadlocked:
            ctx.fail('deadlock', f'all threads wait for locks: {scheduler.trace[-6:]}')
        for thread in done:
            if thread.error is not None:
                raise thread.error
        ctx.log('schedule', scheduler.switches, scheduler.yields,
                hashlib.sha1(repr(scheduler.trace).encode()).hexdigest()[:16])
        ctx.fault('thread:PREEMPTED', sum(item[3] != 'done' for item in scheduler.trace))
        ctx.probe('scheduling points', scheduler.yields)
        ctx.nontrivial = len({item[1] for item in scheduler.trace if item[3] != 'done'}) > 1
        for client in clients + ([before] if before else []):
            results, final, said, _, _, _ = want[client.name]
            for num, (one, two) in enumerate(zip(client.results, results)):
                ctx.log(client.name, num, hashlib.sha1(repr(one).encode()).hexdigest()[:12])
                compare(ctx, client.name, f'operation {num} ({label(plan, client.plan, num)})', one, two)
            now, heard = client.final()
            compare(ctx, client.name, 'objects at the end', now, final)
            compare(ctx, client.name, 'messages to the logger of the caller', heard, said)
            if client.logger_state() != client.configured:
                ctx.fail('logger-changed', f'{client.name}: the logger of the caller was reconfigured')
        if shared.given() != given:
            ctx.fail('argument-changed', 'a dictionary of the caller was changed')
        expect = 2 if plan['logging'] == 'class-two' else 1
        for kind in used_kinds(plan, True):
            count = len(default_logger(kind).handlers)
            if count != expect:
                ctx.fail('default-logger', f'{default_logger(kind).name} has {count} handlers instead of {expect} '
                         f'(program configured: {plan["logging"]})')
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def label(plan, client, num):
    op = client['ops'][num]
    if op['op'] == 'new':
        return f'{plan["files"][op["file"]]["kind"]} from {op["way"]}'
    return op['op']
