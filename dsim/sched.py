"""Client threads under a seeded scheduler.

Every client thread is a real thread, parked on its own gate; exactly one gate is open at any time. Control
returns to the scheduler at every source line (optionally every byte-code instruction) of the library, at
every storage call and at every lock operation of the library; which thread goes on, and for how long, is
read from the plan: a list of [quantum, pick] pairs. When the list is exhausted the current thread runs on
until it ends or blocks.
"""
import _thread
import os
import sys
import threading

CURRENT = None  # the active Scheduler, if any
_real_lock = threading.Lock
_real_rlock = threading.RLock


class Deadlock(BaseException):
    """All client threads wait for locks."""


class SimLock:
    """Cooperative (reentrant) lock: waiting is a scheduling decision, never a real wait."""

    def __init__(self, reentrant):
        self._reentrant = reentrant
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        sched = CURRENT
        if sched is not None and sched.is_client():
            sched.yield_point('lock')
        while self._count and not (self._reentrant and self._owner == me):
            if not blocking or timeout == 0:
                return False
            if sched is None or not sched.is_client():
                raise Deadlock('lock is held and nobody can release it')
            if timeout is not None and timeout > 0:
                return False  # simulated: the timeout elapses
            sched.block(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None
        sched = CURRENT
        if sched is not None and sched.is_client():
            sched.yield_point('unlock')

    __enter__ = acquire

    def __exit__(self, *_args):
        self.release()

    def locked(self):
        return bool(self._count)

    def _is_owned(self):
        return self._count > 0 and self._owner == _thread.get_ident()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


def _wants_sim(depth=2):
    name = sys._getframe(depth).f_globals.get('__name__', '')
    return name.split('.')[0] in ('parsevasp', 'logging')


def _lock():
    return SimLock(False) if _wants_sim() else _real_lock()


def _rlock():
    return SimLock(True) if _wants_sim() else _real_rlock()


def install_locks():
    """Locks created by the library or by `logging` from here on are cooperative."""
    import logging
    threading.Lock = _lock
    threading.RLock = _rlock
    logging._lock = SimLock(True)  # pylint: disable=protected-access


class _Client:

    def __init__(self, num, body):
        self.num = num
        self.body = body
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.error = None
        self.ident = None


class Scheduler:
    """Runs client bodies (callables) to completion under the plan's schedule."""

    def __init__(self, prefix, schedule, opcodes=False, max_yields=400_000):
        self._prefix = prefix
        self._schedule = [list(item) for item in schedule]
        self._pos = 0
        self._opcodes = opcodes
        self._clients = []
        self._by_ident = {}
        self._running = None
        self._left = None
        self._main = _thread.allocate_lock()
        self._main.acquire()
        self._max = max_yields
        self.yields = 0
        self.switches = 0
        self.trace = []
        self.overrun = False
        self.deadlocked = False
        self._nopre = 0

    # ---- called by clients
    def is_client(self):
        return _thread.get_ident() in self._by_ident

    def yield_point(self, what):
        """A preemption opportunity of the running client."""
        self.yields += 1
        if self.yields > self._max:
            self.overrun = True
            raise Deadlock('too many scheduling points')
        if self._nopre or self._left is None:
            return
        self._left -= 1
        if self._left >= 0:
            return
        me = self._running
        self._next_quantum(me, what)

    def block(self, lock):
        me = self._running
        me.waiting = lock
        self._switch(me, self._pick_other(me, 0, 'blocked'))
        me.waiting = None

    def _runnable(self):
        return [cli for cli in self._clients if not cli.done and (cli.waiting is None or not cli.waiting.locked())]

    def _next_quantum(self, me, what):
        if self._pos >= len(self._schedule):
            self._left = None
            return
        quantum, pick = self._schedule[self._pos]
        self._pos += 1
        self._left = max(0, int(quantum))
        choices = self._runnable()
        if not choices:
            return
        target = choices[int(pick) % len(choices)]
        if target is not me:
            self.trace.append((self.yields, me.num if me else None, target.num, what))
            self._switch(me, target)

    def _pick_other(self, me, pick, what):
        choices = [cli for cli in self._runnable() if cli is not me]
        if not choices:
            self.deadlocked = True
            raise Deadlock('all client threads wait for locks')
        target = choices[pick % len(choices)]
        self.trace.append((self.yields, me.num, target.num, what))
        return target

    def _switch(self, me, target):
        self.switches += 1
        self._running = target
        target.gate.release()
        if me is not None:
            me.gate.acquire()

    # ---- client life cycle
    def _tracer(self, frame, event, _arg):
        if not frame.f_code.co_filename.startswith(self._prefix):
            return None
        if self._opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, _frame, event, _arg):
        if event in ('line', 'opcode'):
            self.yield_point('line')
        return self._local

    def _start(self, client):
        client.gate.acquire()
        client.ident = _thread.get_ident()
        self._by_ident[client.ident] = client
        sys.settrace(self._tracer)
        try:
            client.body()
        except BaseException as exc:  # pylint: disable=broad-except
            client.error = exc
        finally:
            sys.settrace(None)
            client.done = True
            choices = self._runnable()
            self._by_ident.pop(client.ident, None)
            if choices:
                pick = self._schedule[self._pos][1] if self._pos < len(self._schedule) else 0
                target = choices[int(pick) % len(choices)]
                self.trace.append((self.yields, client.num, target.num, 'done'))
                self._running = target
                self.switches += 1
                target.gate.release()
            else:
                self._main.release()

    def run(self, bodies):
        global CURRENT  # pylint: disable=global-statement
        self._clients = [_Client(num, body) for num, body in enumerate(bodies)]
        CURRENT = self
        try:
            for client in self._clients:
                _thread.start_new_thread(self._start, (client,))
            first = self._clients[0]
            if self._schedule:
                quantum, pick = self._schedule[0]
                self._pos = 1
                self._left = max(0, int(quantum))
                first = self._clients[int(pick) % len(self._clients)]
            self._running = first
            first.gate.release()
            self._main.acquire()
        finally:
            CURRENT = None
        return self._clients


def library_prefix(repo):
    return os.path.realpath(repo) + os.sep + 'parsevasp'
