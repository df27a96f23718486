"""Helpers shared by the workloads."""
import gc
import io
import os

from dsim.core import PlanError, Violation


class Outcome:
    """Result of one call into the library."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def label(self):
        if self.exc is None:
            return 'ok'
        if isinstance(self.exc, SystemExit):
            return f'exit:{self.exc.code}'
        return type(self.exc).__name__


def attempt(func, *args, **kwargs):
    """Call the library; everything it raises, including exits and cancellations, is an outcome."""
    try:
        return Outcome(value=func(*args, **kwargs))
    except (Violation, PlanError):
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        if type(exc).__name__ == 'Deadlock':
            raise
        return Outcome(exc=exc)


def describe(value, limit=600):
    text = repr(value)
    return text if len(text) <= limit else text[:limit] + '...'


def same_scalar(one, two):
    """Equality with types: a bool is not an int, an int is not a float."""
    if isinstance(one, bool) or isinstance(two, bool):
        return isinstance(one, bool) and isinstance(two, bool) and one == two
    if isinstance(one, int) and isinstance(two, int):
        return one == two
    if isinstance(one, float) and isinstance(two, float):
        return one == two or (one != one and two != two)
    return type(one) is type(two) and one == two


def check_fds(ctx, fsys, known, what):
    """No file below the scratch root may stay open after a library call, except the caller's handles."""
    leaked = fsys.leaked_fds(known)
    if leaked:
        ctx.fail('handle-left-open', f'{what}: still open: {leaked}')


def delivery_plan(rng, heavy=False):
    """Random read/write sizes for one operation; None means whatever the caller asks for."""
    if rng.chance(0.35 if not heavy else 0.1):
        return None
    style = rng.randrange(4)
    if style == 0:
        reads = [1]
    elif style == 1:
        reads = [rng.randint(1, 7) for _ in range(rng.randint(1, 5))]
    elif style == 2:
        reads = [rng.choice([1, 2, 3, 17, 64, 511, 512, 513, 4096]) for _ in range(rng.randint(1, 6))]
    else:
        reads = [rng.randint(1, 2000) for _ in range(rng.randint(1, 4))]
    plan = {'read': reads}
    if rng.chance(0.7):
        plan['write'] = [rng.choice([1, 2, 5, 16, 100, 1000]) for _ in range(rng.randint(1, 4))]
    if rng.chance(0.5):
        plan['buf'] = rng.choice([1, 2, 16, 64, 512])
    return plan


def write_faults(rng):
    """One hard failure somewhere below a write (plus possibly transient interruptions)."""
    faults = []
    roll = rng.random()
    if roll < 0.15:
        faults.append({'site': 'open', 'nth': 0, 'kind': rng.choice(['EACCES', 'ENOSPC', 'EMFILE', 'EROFS', 'EIO',
                                                                    'NOMEM', 'CANCEL'])})
    elif roll < 0.40:
        faults.append({'site': 'space', 'bytes': rng.choice([0, 1, rng.randint(2, 60), rng.randint(30, 400)])})
    elif roll < 0.72:
        faults.append({'site': 'write', 'nth': rng.choice([0, 0, 0, 1, rng.randint(0, 12)]),
                       'kind': rng.choice(['EIO', 'ENOSPC', 'EDQUOT', 'CANCEL', 'NOMEM']),
                       'keep': rng.choice([0, 0, 1, rng.randint(0, 80)]), 'sticky': rng.chance(0.5)})
    elif roll < 0.9:
        faults.append({'site': 'close', 'nth': 0, 'kind': rng.choice(['EIO', 'ENOSPC', 'EDQUOT'])})
    if rng.chance(0.3):
        faults.append({'site': 'write', 'nth': rng.randint(0, 4), 'kind': 'EINTR'})
    return faults


def hard(fired):
    """Faults that are not transparently retried."""
    return [item for item in fired if item[1] != 'EINTR']


class SlowText(io.TextIOBase):
    """A text handle that is not a file: hands out at most `size` characters per read, like a pipe."""

    def __init__(self, text, sizes):
        super().__init__()
        self._text = text
        self._pos = 0
        self._sizes = list(sizes) or [1 << 30]
        self._idx = 0

    def readable(self):
        return True

    def read(self, size=-1):
        if size is None or size < 0:
            out = self._text[self._pos:]
        else:
            lim = self._sizes[self._idx % len(self._sizes)]
            self._idx += 1
            out = self._text[self._pos:self._pos + max(1, min(size, lim))]
        self._pos += len(out)
        return out

    def readline(self, size=-1):
        end = self._text.find('\n', self._pos)
        end = len(self._text) if end < 0 else end + 1
        if size is not None and size >= 0:
            end = min(end, self._pos + size)
        out = self._text[self._pos:end]
        self._pos = end
        return out


def collect():
    gc.collect()


def relname(path, root):
    return os.path.relpath(path, root)
