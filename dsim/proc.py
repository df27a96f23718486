"""Simulated processes: each life of the client program is a real forked process.

A crash is a real `_exit` in the middle of a storage call: Python's buffers and every object are lost and
only what reached the simulated disk survives, exactly as for a killed process. The next life starts from
the pristine image (library imported, nothing used), so no in-memory state survives either.
"""
import json
import os
import sys
import traceback

from dsim.core import PLAIN, PlanError, Violation, die_with_parent

CRASHED = 137


class Life:
    """What a life of the client reports to the supervisor."""

    def __init__(self, wfd, ctx):
        self._out = os.fdopen(wfd, 'w')
        self.ctx = ctx

    def send(self, **message):
        self._out.write(json.dumps(message) + '\n')
        self._out.flush()

    def checkpoint(self, index, state):
        """Operation `index` is complete; `state` is what the supervisor needs to go on from here."""
        ctx = self.ctx
        self.send(kind='step', index=index, state=state, log=ctx.pending, probes=ctx.probes, faults=ctx.counters,
                  nontrivial=ctx.nontrivial, simtime=ctx.simtime)
        ctx.pending, ctx.probes, ctx.counters, ctx.simtime = [], {}, {}, 0.0

    def crash(self, index, state):
        self.ctx.log('crash', index)
        self.checkpoint(index, state)
        self._out.flush()
        os._exit(CRASHED)


class ChildCtx:
    """Context of a life: forwards everything to the supervisor's context."""

    def __init__(self, parent):
        self.root = parent.root
        self.pending = []
        self.probes = {}
        self.counters = {}
        self.nontrivial = False
        self.simtime = 0.0

    def log(self, *parts):
        self.pending.append(json.loads(json.dumps(parts, sort_keys=True, default=repr)))

    def probe(self, name, num=1):
        self.probes[name] = self.probes.get(name, 0) + num

    def fault(self, name, num=1):
        self.counters[name] = self.counters.get(name, 0) + num

    def fail(self, kind, detail=''):
        self.log('VIOLATION', kind)
        raise Violation(kind, str(detail)[:3000])

    def path(self, name):
        return os.path.join(self.root, name)


def live(ctx, body):
    """Fork one life running body(life, child_ctx). Returns (status, last_message)."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        die_with_parent()
        child = ChildCtx(ctx)
        life = Life(wfd, child)
        try:
            body(life, child)
            life.send(kind='end')
        except Violation as exc:
            life.send(kind='violation', vkind=exc.kind, detail=exc.detail, log=child.pending, probes=child.probes,
                      faults=child.counters)
        except PlanError as exc:
            life.send(kind='plan-error', detail=str(exc))
        except BaseException as exc:  # pylint: disable=broad-except
            life.send(kind='error', plain=isinstance(exc, PLAIN), detail=''.join(traceback.format_exception(exc))[-3500:])
        finally:
            sys.settrace(None)
            os._exit(0)
    os.close(wfd)
    data = b''
    while True:
        part = os.read(rfd, 1 << 16)
        if not part:
            break
        data += part
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    last = None
    for line in data.decode().splitlines():
        message = json.loads(line)
        for parts in message.get('log', []):
            ctx.log(*parts)
        for name, num in message.get('probes', {}).items():
            ctx.probe(name, num)
        for name, num in message.get('faults', {}).items():
            ctx.fault(name, num)
        ctx.simtime += message.get('simtime', 0.0)
        if message.get('nontrivial'):
            ctx.nontrivial = True
        if message['kind'] == 'violation':
            raise Violation(message['vkind'], message['detail'])
        if message['kind'] == 'plan-error':
            raise PlanError(message['detail'])
        if message['kind'] == 'error':
            raise (RuntimeError if message['plain'] else OSError)(message['detail'])
        if message['kind'] == 'step':
            last = message
        if message['kind'] == 'end':
            return 'end', last
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == CRASHED:
        return 'crash', last
    raise OSError(f'life ended unexpectedly with wait status {status}')
