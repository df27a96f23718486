"""C04: outcomes of writes on failing storage, for the three writable formats."""
from dsim.core import PlanError
from dsim.histories import FILES, History, fmt_of, gen_plan, gen_write, normalise  # noqa: F401

ID = 'C04'
RUNS = {'quick': 6000, 'thorough': 120000}
MIX = {'ops': [('edit', 3), ('write', 9), ('reload', 1), ('restart', 0.5), ('crash', 1.5), ('load', 1)], 'faults': 0.7}
RULE = ('Seeded histories of writes to paths, file handles and memory handles with storage faults at any call (open, '
        'write, full disk, close), cancellation, allocation failure, short and interrupted transfers and crashes; '
        'failed writes are retried on working storage; non-trivial: at least one object was built and operated on.')
REAL = ['parsevasp.incar, parsevasp.poscar, parsevasp.kpoints, parsevasp.base, parsevasp.utils from /repo',
        'CPython text and buffered I/O layers', 'process exit and restart (real fork/_exit)',
        'the file system below the scratch directory']
STUB = ['raw file I/O below the scratch directory (fault-injecting wrapper)', 'the client program (generated history)']


def generate(rng, tier):
    name = rng.pick(['incar', 'poscar', 'kpoints'])
    plan = gen_plan(rng, name, tier, MIX)
    fmt = fmt_of(name)
    ops = []
    for op in plan['ops']:
        ops.append(op)
        if op['op'] == 'write' and not any(flt['kind'] == 'CRASH' for flt in op.get('faults') or [] if 'kind' in flt):
            if op.get('faults') and rng.chance(0.15):
                op['target'] = rng.choice(['missing-directory', 'directory'])
                op['dest'] = 'path'
                op['faults'] = []
            if (op.get('faults') or op.get('target')) and rng.chance(0.8):
                again = gen_write(rng, fmt, op['slot'], len(FILES), 0.0)
                if rng.chance(0.6):
                    again['file'] = op['file']
                ops.append(again)
    plan['ops'] = ops
    return plan


def execute(plan, ctx):
    History(plan, ctx, strict=True).execute()
