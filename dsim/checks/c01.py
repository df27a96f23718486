"""C01: INCAR edit histories."""
from dsim.histories import History, gen_plan, normalise  # noqa: F401

ID = 'C01'
RUNS = {'quick': 9000, 'thorough': 200000}
MIX = {'ops': [('edit', 10), ('render', 2), ('write', 6), ('reload', 2), ('restart', 1), ('crash', 1), ('load', 1),
               ('bad-load', 1)],
       'faults': 0.3}
RULE = ('Seeded histories of load/edit/render/write/reload/restart/crash over 1-2 objects and 1-3 files with random '
        'read/write sizes and storage faults; non-trivial: at least one object was built and operated on.')
REAL = ['parsevasp.incar, parsevasp.base, parsevasp.utils from /repo', 'CPython text and buffered I/O layers',
        'process exit and restart (real fork/_exit)', 'the file system below the scratch directory']
STUB = ['raw file I/O below the scratch directory (fault-injecting wrapper)', 'the client program (generated history)']


def generate(rng, tier):
    return gen_plan(rng, 'incar', tier, MIX)


def execute(plan, ctx):
    History(plan, ctx, strict=False).execute()
