"""C09: a monitor reading the OUTCAR of simulated runs that are killed, restarted and still growing."""
from dsim.vasp import monitor

ID = 'C09'
RUNS = {'quick': 10000, 'thorough': 150000}
RULE = ('Seeded simulated runs (settings, electronic and ionic step histories, tables) write their OUTCAR through a '
        'buffer on a simulated clock; a monitor reads it at seeded moments while it grows, after kills at seeded '
        'bytes, with zero-filled tails, short and interrupted reads, and across restarts; non-trivial: at least one '
        'incomplete file was read.')
REAL = ['parsevasp.outcar, parsevasp.base, parsevasp.utils from /repo', 'the file system below the scratch directory',
        'CPython buffered and text I/O']
STUB = ['VASP (simulated run writing OUTCAR on a simulated clock)', 'raw reads (fault-injecting wrapper)']


def generate(rng, tier):
    return monitor.generate(rng, tables=rng.chance(0.15))


def execute(plan, ctx):
    monitor.execute(plan, ctx, monitor.judge_status)
