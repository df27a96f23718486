"""The C-library seam (iofault.c): built on demand, preloaded by run.py, driven from here."""
import ctypes
import errno
import hashlib
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = 'DSIM_IOFAULT'
SITES = {'open': 0, 'read': 1}


def build():
    """Path of the shared object, or None if it cannot be built here."""
    source = os.path.join(HERE, 'iofault.c')
    with open(source, 'rb') as handle:
        tag = hashlib.sha256(handle.read()).hexdigest()[:12]
    for folder in (os.path.join(os.path.dirname(os.path.dirname(HERE)), 'build'),
                   os.path.join(tempfile.gettempdir(), 'dsim-build')):
        target = os.path.join(folder, f'iofault-{tag}.so')
        if os.path.exists(target):
            return target
        try:
            os.makedirs(folder, exist_ok=True)
            part = f'{target}.{os.getpid()}'
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', part, source, '-ldl'], check=True,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.replace(part, target)
            return target
        except (OSError, subprocess.SubprocessError):
            continue
    return None


class _Fault(ctypes.Structure):
    _fields_ = [('site', ctypes.c_int), ('nth', ctypes.c_int), ('code', ctypes.c_int), ('sticky', ctypes.c_int)]


_lib = None


def library():
    """The preloaded library, or None if it is not there."""
    global _lib  # pylint: disable=global-statement
    path = os.environ.get(ENV)
    if _lib is None and path and path in os.environ.get('LD_PRELOAD', ''):
        lib = ctypes.CDLL(path)
        for name in ('vp_count', 'vp_fired', 'vp_late', 'vp_shorts', 'vp_bytes'):
            getattr(lib, name).restype = ctypes.c_long
        _lib = lib
    return _lib


class Native:
    """Faults and delivery of everything that reads below `prefix`, for the duration of a with block."""

    def __init__(self, prefix, faults=(), sizes=()):
        self.prefix = prefix
        self.faults = [dict(item) for item in faults]
        self.sizes = [size for size in sizes if size]
        self.fired = []
        self.late = []
        self.shorts = 0
        self.reads = 0

    def __enter__(self):
        lib = library()
        if lib is not None:
            arr = (_Fault * max(1, len(self.faults)))(*[
                _Fault(SITES[item['site']], item.get('nth', 0), getattr(errno, item['kind']), int(bool(item.get('sticky'))))
                for item in self.faults])
            sizes = (ctypes.c_int * max(1, len(self.sizes)))(*self.sizes)
            lib.vp_arm(os.fsencode(self.prefix), sizes, len(self.sizes), arr, len(self.faults))
        return self

    def __exit__(self, *_args):
        lib = library()
        if lib is not None:
            lib.vp_disarm()
            self.shorts = lib.vp_shorts()
            self.reads = lib.vp_count(1)
            self.fired = [(item['site'], item['kind']) for num, item in enumerate(self.faults) if lib.vp_fired(num)]
            self.late = [(item['site'], item['kind']) for num, item in enumerate(self.faults) if lib.vp_late(num)]
