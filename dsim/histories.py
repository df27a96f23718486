"""Client histories over the writable formats (C01-C04).

A history is a list of operations on a few object slots and a few files. Restarts and crashes are real
process ends (proc.live). The reference model is the logical content of every live object and of every
acknowledged file.
"""
import importlib
import io
import os
import pathlib

from dsim import simfs
from dsim.core import PlanError
from dsim.proc import live
from dsim.util import SlowText, attempt, check_fds, delivery_plan, describe, hard, write_faults

FILES = ['f0', 'f1', 'sub/f2']


def fmt_of(name):
    return importlib.import_module('dsim.formats.' + name)


# --------------------------------------------------------------------------------------------- generation
def gen_plan(rng, fmt_name, tier, mix):
    """mix: weights of operations and probability of faults."""
    fmt = fmt_of(fmt_name)
    options = fmt.gen_options(rng)
    nslots = rng.choice([1, 1, 2])
    nfiles = rng.choice([1, 2, 3])
    ops = []
    contents = {}

    def load(slot, keep=True):
        content = fmt.gen_content(rng)
        if keep:
            contents[slot] = content
        how = rng.weighted([('text', 3), ('path', 3), ('handle', 3), ('dict', 3), ('slow', 1)])
        op = {'op': 'load', 'slot': slot, 'how': how, 'content': content,
              'style': [rng.randrange(1000) for _ in range(rng.randint(1, 6))]}
        if how == 'dict':
            op['twin'] = rng.chance(0.4)
        if how in ('path', 'handle', 'slow'):
            op['delivery'] = delivery_plan(rng)
        return op

    for slot in range(nslots):
        ops.append(load(slot))
    length = rng.randint(2, 14 if tier == 'thorough' else 10)
    for _ in range(length):
        slot = rng.randrange(nslots)
        kind = rng.weighted(mix['ops'])
        if kind == 'edit':
            ops.append(dict({'op': 'edit', 'slot': slot}, **fmt.gen_edit(rng, contents[slot])))
        elif kind == 'render':
            ops.append({'op': 'render', 'slot': slot})
        elif kind == 'write':
            ops.append(gen_write(rng, fmt, slot, nfiles, mix['faults']))
        elif kind == 'reload':
            ops.append({'op': 'reload', 'slot': slot, 'file': FILES[rng.randrange(nfiles)],
                        'how': rng.choice(['path', 'handle', 'text']), 'delivery': delivery_plan(rng)})
        elif kind == 'restart':
            ops.append({'op': 'restart'})
            for num in range(nslots):
                if rng.chance(0.6):
                    ops.append({'op': 'reload', 'slot': num, 'file': FILES[rng.randrange(nfiles)],
                                'how': rng.choice(['path', 'handle', 'text']), 'delivery': None})
                ops.append(dict(load(num), unless_loaded=True))
        elif kind == 'crash':
            op = gen_write(rng, fmt, slot, nfiles, 0.0)
            op['dest'] = rng.choice(['path', 'handle'])
            op['faults'] = [{'site': rng.choice(['open', 'write', 'write', 'write', 'close']),
                             'nth': rng.choice([0, 0, 1, rng.randint(0, 9)]), 'kind': 'CRASH',
                             'keep': rng.choice([0, 1, rng.randint(0, 200)])}]
            ops.append(op)
            ops.append({'op': 'restart'})
            for num in range(nslots):
                if rng.chance(0.5):
                    ops.append({'op': 'reload', 'slot': num, 'file': FILES[rng.randrange(nfiles)],
                                'how': 'path', 'delivery': None})
                ops.append(dict(load(num), unless_loaded=True))
        elif kind == 'load':
            ops.append(load(slot))
        elif kind == 'bad-load':
            op = dict(load(slot, False), op='bad_load', bad=rng.pick(fmt.BAD_SOURCES + ['sources'] * 2), pick=rng.randrange(1000))
            op['how'] = rng.choice(['text', 'path', 'handle'])
            op.pop('twin', None)
            ops.append(op)
    ops.append(gen_write(rng, fmt, 0, nfiles, 0.0))
    return {'format': fmt_name, 'options': options, 'ops': ops}


def gen_write(rng, fmt, slot, nfiles, fault_prob):
    op = {'op': 'write', 'slot': slot, 'dest': rng.weighted([('path', 5), ('handle', 3), ('stringio', 1)]),
          'file': FILES[rng.randrange(nfiles)], 'opts': fmt.gen_write_opts(rng), 'delivery': delivery_plan(rng),
          'pathlib': rng.chance(0.3)}
    if op['dest'] in ('handle', 'stringio'):
        op['prefix'] = rng.choice(['', '', 'header line\n', 'x' * rng.randint(1, 40) + '\n'])
        op['suffix'] = rng.choice(['', '', 'trailer\n', 'y' * rng.randint(1, 20)])
    if fault_prob and rng.chance(fault_prob):
        op['faults'] = write_faults(rng)
    return op


# --------------------------------------------------------------------------------------------- execution
class History:
    """Executes the operations of one plan."""

    def __init__(self, plan, ctx, strict):
        self.plan = plan
        self.ctx = ctx
        self.fmt = fmt_of(plan['format'])
        self.strict = strict  # C04: judge outcomes, handles and bytes as well as content
        self.state = {'files': {}}

    def execute(self):
        ops = self.plan['ops']
        self.ctx.log('plan', self.plan['format'], len(ops))
        os.makedirs(os.path.join(self.ctx.root, 'sub'), exist_ok=True)
        index = 0
        while index < len(ops):
            start = index

            def body(life, child, begin=start):
                Life(self, life, child).run(begin)

            status, last = live(self.ctx, body)
            if last is not None:
                self.state = last['state']
                index = last['index'] + 1
            if status == 'crash':
                self.ctx.probe('crashes')
            elif last is None or index <= start:
                break
        self.ctx.log('end', sorted(self.state['files']))


class Life:
    """One process life of the client."""

    def __init__(self, history, life, ctx):
        self.hist = history
        self.fmt = history.fmt
        self.strict = history.strict
        self.options = history.plan['options'] or {}
        self.life = life
        self.ctx = ctx
        self.state = history.state
        self.slots = {}
        self.fsys = simfs.SimFS(ctx.root)
        self.index = 0
        self.client_handles = []

    def run(self, begin):
        ops = self.hist.plan['ops']
        self.fsys.install()
        self.fsys.on_crash = self.crash
        try:
            for index in range(begin, len(ops)):
                self.index = index
                op = ops[index]
                if op is None:
                    raise PlanError('empty operation')
                if op['op'] == 'restart':
                    self.ctx.log('restart')
                    self.ctx.probe('restarts')
                    self.done(index)
                    return
                getattr(self, 'op_' + op['op'])(op)
                self.done(index)
        finally:
            self.fsys.uninstall()

    def done(self, index):
        for name, num in self.fsys.fired.items():
            self.ctx.fault(name, num)
        self.fsys.fired = {}
        self.life.checkpoint(index, self.state)

    def crash(self):
        op = self.hist.plan['ops'][self.index]
        # What was being written is unspecified; everything acknowledged earlier must survive.
        self.state['files'][op['file']] = None
        self.ctx.nontrivial = True
        for name, num in self.fsys.fired.items():
            self.ctx.fault(name, num)
        self.life.crash(self.index, self.state)

    # ----------------------------------------------------------------------------------------- helpers
    def need(self, op):
        slot = self.slots.get(op['slot'])
        if slot is None:
            raise PlanError('empty slot')
        return slot

    def verify_object(self, slot, what):
        res = attempt(self.fmt.observe, slot['obj'], slot['model'])
        if not res.ok:
            self.ctx.fail('query-failed', f'{what}: {res.label()}: {res.exc}')
        if res.value:
            self.ctx.fail('content-differs', f'{what}: {res.value}')

    def verify_others(self, slot_num, what):
        for num, slot in self.slots.items():
            if num != slot_num:
                self.verify_object(slot, f'another object after {what}')

    def verify_files(self, except_name, what):
        """Files that this operation was not about still have their bytes."""
        for name, info in self.state['files'].items():
            if name == except_name or not info:
                continue
            data = simfs.read_bytes(self.ctx.path(name))
            if data is None or data.hex() != info['hex']:
                self.ctx.fail('other-file-changed', f'{what} changed {name}')

    def misuse(self, kind, detail):
        """Something only C04 (and C05/C06 for reads) is about."""
        if self.strict:
            self.ctx.fail(kind, detail)
        self.ctx.probe('not judged here: ' + kind)

    def fds(self, known, what):
        if self.strict:
            check_fds(self.ctx, self.fsys, known, what)

    def listing(self):
        found = set()
        for folder, dirs, names in os.walk(self.ctx.root):
            for item in names + dirs:
                found.add(os.path.relpath(os.path.join(folder, item), self.ctx.root))
        return found

    # ----------------------------------------------------------------------------------------- operations
    def op_load(self, op):
        if op.get('unless_loaded') and op['slot'] in self.slots:
            return
        fmt = self.fmt
        content, how, style = op['content'], op['how'], op['style']
        model = fmt.source_model(content, self.options)
        known = []
        twin = None
        self.fsys.begin([], op.get('delivery'))
        if how == 'text':
            arg = {'text': fmt.source_text(content, style)}
        elif how == 'dict':
            arg = {'dict': fmt.real_dict(fmt.source_dict(content, style))}
            if op.get('twin'):
                twin = attempt(fmt.construct, self.options, **arg)
            model = fmt.source_dict_model(content, style, self.options)
        else:
            text = fmt.source_text(content, style)
            simfs.write_bytes(self.ctx.path('source'), text.encode('utf8'))
            if how == 'path':
                arg = {'file_path': self.ctx.path('source')}
            elif how == 'handle':
                handle = open(self.ctx.path('source'), encoding='utf8')  # pylint: disable=consider-using-with
                known.append(handle)
                arg = {'file_handler': handle}
            else:
                arg = {'file_handler': SlowText(text, (op.get('delivery') or {}).get('read', []))}
        res = attempt(fmt.construct, self.options, **arg)
        self.fsys.end()
        self.ctx.log('load', op['slot'], how, res.label())
        if not res.ok:
            self.ctx.fail('valid-input-rejected', f'load via {how}: {res.label()}: {res.exc}')
        self.fds(known, f'load via {how}')
        for handle in known:
            if handle.closed:
                self.misuse('caller-handle-closed', f'load via {how}')
            handle.close()
        slot = {'obj': res.value, 'model': model}
        self.verify_object(slot, f'load via {how}')
        slot['model'] = fmt.rebase(slot['obj'], model)
        self.slots[op['slot']] = slot
        self.slots.pop(op['slot'] + 100, None)
        if twin is not None:
            # A second object made from the same dictionary must not notice what happens to the first.
            if not twin.ok:
                self.ctx.fail('valid-input-rejected', f'second load of one dictionary: {twin.label()}: {twin.exc}')
            self.slots[op['slot'] + 100] = {'obj': twin.value, 'model': model}
            self.verify_object(self.slots[op['slot'] + 100], 'second load of one dictionary')
            self.ctx.probe('twins')
        self.ctx.nontrivial = True

    def op_bad_load(self, op):
        """A source the library does not support, or several of them: refused, whatever else exists is left alone."""
        fmt, content, style, pick = self.fmt, op['content'], op['style'], op['pick']
        path = self.ctx.path('source')
        before = self.listing() | {'source'}
        known = []
        names = fmt.source_args('text', 'dict')
        if op['bad'] == 'sources':
            text = fmt.source_text(content, style)
            simfs.write_bytes(path, text.encode('utf8'))
            handle = open(path, encoding='utf8')  # pylint: disable=consider-using-with
            known.append(handle)
            every = dict(fmt.source_args(text, fmt.real_dict(fmt.source_dict(content, style))), file_path=path,
                         file_handler=handle)
            one, two = [key for key in names], ['file_path', 'file_handler']
            chosen = [one, [one[0], two[0]], [one[0], two[1]], [one[1], two[0]], [one[1], two[1]], [],
                      one + two[:1], one + two[1:]][pick % 8]
            args = {key: every[key] for key in chosen}
            what = f'load from {sorted(chosen)}'
        else:
            try:
                kind, source = fmt.bad_source(content, style, op['bad'], pick, self.options)
            except PlanError:
                return  # Not for this content
            what = f'load of a source with {op["bad"]} via {op["how"] if kind == "text" else kind}: {describe(source, 300)}'
            if kind == 'dict':
                args = {[key for key in names if names[key] == 'dict'][0]: source}
            elif op['how'] == 'text':
                args = {[key for key in names if names[key] == 'text'][0]: source}
            else:
                simfs.write_bytes(path, source.encode('utf8'))
                if op['how'] == 'path':
                    args = {'file_path': path}
                else:
                    known.append(open(path, encoding='utf8'))  # pylint: disable=consider-using-with
                    args = {'file_handler': known[0]}
        self.fsys.begin([], op.get('delivery'))
        res = attempt(fmt.construct_raw, self.options, **args)
        self.fsys.end()
        self.ctx.log('bad load', op['bad'], res.label())
        if res.ok:
            self.ctx.fail('unsupported-source-accepted', what)
        if isinstance(res.exc, SystemExit) and res.exc.code in (0, None):
            self.ctx.fail('quiet-rejection', f'{what}: exit with code {res.exc.code}')
        self.fds(known, what)
        for handle in known:
            if handle.closed:
                self.misuse('caller-handle-closed', what)
            handle.close()
        self.ctx.probe('unsupported sources')
        self.verify_others(None, what)
        self.verify_files(None, what)
        if self.listing() - before:
            self.ctx.fail('other-file-changed', f'{what} left {sorted(self.listing() - before)}')

    def op_reload(self, op):
        info = self.state['files'].get(op['file'])
        if not info or not info.get('plain'):
            return
        self.slots.pop(op['slot'], None)
        slot = self.read_back(op['file'], op['how'], info['model'], op.get('delivery'), 'reload')
        self.slots[op['slot']] = slot
        self.ctx.probe('reloads')

    def read_back(self, name, how, model, delivery, what):
        fmt = self.fmt
        path = self.ctx.path(name)
        known = []
        self.fsys.begin([], delivery)
        if how == 'path':
            arg = {'file_path': path}
        elif how == 'handle':
            handle = open(path, encoding='utf8')  # pylint: disable=consider-using-with
            known.append(handle)
            arg = {'file_handler': handle}
        else:
            arg = {'text': simfs.read_bytes(path).decode('utf8')}
        res = attempt(fmt.construct, self.options, **arg)
        self.fsys.end()
        self.ctx.log(what, name, how, res.label())
        if not res.ok:
            self.ctx.fail('acknowledged-file-unreadable', f'{what} of {name} via {how}: {res.label()}: {res.exc}')
        self.fds(known, f'{what} via {how}')
        for handle in known:
            if handle.closed:
                self.misuse('caller-handle-closed', f'{what} via {how}')
            handle.close()
        slot = {'obj': res.value, 'model': fmt.as_read(model)}
        diff = attempt(fmt.read_diff, res.value, slot['model'])
        if not diff.ok:
            self.ctx.fail('query-failed', f'{what} of {name} via {how}: {diff.label()}: {diff.exc}')
        if diff.value:
            self.ctx.fail('acknowledged-content-differs', f'{what} of {name} via {how}: {diff.value}')
        slot['model'] = fmt.rebase(res.value, slot['model'])
        return slot

    def op_edit(self, op):
        slot = self.need(op)
        shared = {}
        twin = self.slots.get(op['slot'] + 100) if op.get('also') else None
        # Cartesian coordinates mean the same for both objects only in the same cell.
        alike = twin and self.fmt.resolve(op, slot['model']) == self.fmt.resolve(op, twin['model'])
        self.edit(op, slot, op['slot'], shared)
        if alike:
            # The same argument objects go into a second object.
            self.edit(op, twin, op['slot'] + 100, shared)

    def edit(self, op, slot, num, shared):
        fmt = self.fmt
        op = fmt.resolve(op, slot['model'])
        new = fmt.edit_model(op, slot['model'])
        if new == 'skip':
            self.ctx.log('edit skipped', num, op.get('edit'))
            return
        res = attempt(fmt.edit_real, op, slot['obj'], shared)
        self.ctx.log('edit', num, op.get('edit'), res.label())
        if new is None:
            if res.ok:
                self.ctx.fail('bad-edit-accepted', describe(op))
            self.ctx.probe('rejected edits')
        else:
            if not res.ok:
                self.ctx.fail('edit-failed', f'{describe(op)}: {res.label()}: {res.exc}')
            slot['model'] = new
        self.verify_object(slot, f'after edit {describe(op, 200)}')
        if new is not None:
            slot['model'] = fmt.rebase(slot['obj'], slot['model'])
        self.verify_others(num, 'an edit')

    def op_render(self, op):
        slot = self.need(op)
        self.verify_object(slot, 'rendering')
        self.verify_object(slot, 'second rendering')
        self.ctx.log('render', op['slot'])

    def op_write(self, op):
        slot = self.need(op)
        fmt, ctx, fsys = self.fmt, self.ctx, self.fsys
        name = op['file']
        path = ctx.path(name)
        dest = op['dest']
        opts = op['opts'] or {}
        faults = op.get('faults') or []
        prefix, suffix = op.get('prefix', ''), op.get('suffix', '')
        # The complete rendering, as the same object writes it to memory.
        reference = io.StringIO()
        res = attempt(slot['obj'].write, file_handler=reference, **opts)
        before = self.listing()
        if not res.ok:
            ctx.fail('write-failed-without-fault', f'to memory: {res.label()}: {res.exc}')
        if reference.closed:
            ctx.fail('rendering-lost', 'write to memory closed the memory handle')
        rendering = reference.getvalue()
        if dest == 'path':
            prefix = suffix = ''
        self.state['files'][name] = None if dest != 'stringio' else self.state['files'].get(name)
        known = []
        what = f'write to {dest}'
        loud = None
        bad_target = op.get('target')
        if bad_target == 'directory':
            path = os.path.join(ctx.root, 'sub')
        elif bad_target:
            path = ctx.path('no/such/directory')
        fsys.begin(faults, op.get('delivery'))
        if dest == 'path':
            target = pathlib.Path(path) if op.get('pathlib') else path
            res = attempt(slot['obj'].write, file_path=target, **opts)
            if not res.ok:
                loud = res.label()
            self.fds(known, what + ' -> ' + res.label())
        elif dest == 'handle':
            res = attempt(open, path, 'w', encoding='utf8')
            if not res.ok:
                loud = 'open:' + res.label()
            else:
                handle = res.value
                known.append(handle)
                res = attempt(handle.write, prefix)
                if res.ok:
                    res = attempt(slot['obj'].write, file_handler=handle, **opts)
                    if handle.closed:
                        self.misuse('caller-handle-closed', what + ' -> ' + res.label())
                    self.fds(known, what + ' -> ' + res.label())
                    if res.ok and not hard(fsys.op_fired):
                        posn = attempt(handle.tell)
                        want = len((prefix + rendering).encode('utf8'))
                        if not posn.ok:
                            res = posn  # asking for the position flushes, and the failure surfaced there
                        elif posn.value != want and not hard(fsys.op_fired):
                            self.misuse('handle-position', f'{what}: at {posn.value}, wrote up to {want}')
                if res.ok:
                    res = attempt(handle.write, suffix)
                if not res.ok:
                    loud = res.label()
                end = attempt(handle.close)
                if not end.ok and loud is None:
                    loud = 'close:' + end.label()
        else:
            handle = io.StringIO()
            handle.write(prefix)
            res = attempt(slot['obj'].write, file_handler=handle, **opts)
            if not res.ok:
                loud = res.label()
            elif handle.closed:
                ctx.fail('rendering-lost', what + ' closed the memory handle')
            else:
                if handle.tell() != len(prefix + rendering):
                    self.misuse('handle-position', f'{what}: at {handle.tell()}, wrote up to {len(prefix + rendering)}')
                handle.write(suffix)
        fired = fsys.end()
        ctx.log('write', op['slot'], dest, name, loud or 'ok', fired)
        if hard(fired):
            ctx.nontrivial = True
            ctx.probe('faulted writes')
        if loud is None and hard(fired):
            self.misuse('failure-not-reported', f'{what}: returned normally although {hard(fired)}')
        if loud is None and bad_target:
            self.misuse('failure-not-reported', f'{what}: returned normally although the path is a {bad_target}')
        if loud is not None and not hard(fired) and not bad_target:
            ctx.fail('write-failed-without-fault', f'{what}: {loud}')
        self.verify_object(slot, f'after {what} -> {loud or "ok"}')
        self.verify_others(op['slot'], what)
        self.verify_files(name, what)
        stray = self.strict and self.listing() - before - {name}
        if stray:
            ctx.fail('other-file-changed', f'{what} left {sorted(stray)}')
        if loud is not None:
            if dest != 'stringio':
                self.state['files'][name] = None
            return
        if dest == 'stringio':
            text = handle.getvalue()
        else:
            data = simfs.read_bytes(path)
            if data is None:
                ctx.fail('acknowledged-file-missing', what)
            try:
                text = data.decode('utf8')
            except UnicodeDecodeError as exc:
                ctx.fail('acknowledged-content-differs', f'{what}: not utf-8: {exc}')
        if text != prefix + rendering + suffix and (self.strict or not prefix + suffix):
            ctx.fail('incomplete-content', f'{what}: file has {describe(text, 400)}, complete rendering is '
                     f'{describe(prefix + rendering + suffix, 400)}')
        model = fmt.written(slot['model'], opts)
        diff = attempt(fmt.parse_diff, rendering, model)
        if not diff.ok:
            ctx.fail('acknowledged-content-differs', f'{what}: unreadable: {diff.label()}: {diff.exc}')
        if diff.value:
            ctx.fail('acknowledged-content-differs', f'{what}: {diff.value}')
        ctx.probe('acknowledged writes')
        if dest == 'stringio':
            return
        plain = not prefix and not suffix
        self.state['files'][name] = {'model': model, 'plain': plain, 'hex': data.hex()}
        if plain:
            for how in ('path', 'handle', 'text'):
                self.read_back(name, how, model, op.get('delivery'), 'read back')


def normalise(plan):
    """Reject plans (made by the minimiser) that are outside the domain of the workload."""
    fmt = fmt_of(plan['format'])
    if not isinstance(plan['options'], dict):
        raise PlanError('options')
    for op in plan['ops']:
        if op['op'] in ('load', 'bad_load', 'edit', 'render', 'write', 'reload') and not isinstance(op['slot'], int):
            raise PlanError('slot')
        if op['op'] in ('load', 'bad_load'):
            fmt.check_valid(op['content'])
        elif op['op'] == 'edit':
            fmt.check_valid_edit(op)
        for flt in op.get('faults') or []:
            if not isinstance(flt, dict):
                raise PlanError('fault')
