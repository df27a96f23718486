"""The OUTCAR a simulated VASP writes, line by line, on a simulated clock.

`build(spec)` returns a Log: the bytes, when each of them left the program, and the facts printed on each line.
`state(log, cut)` is the reference model: what a reader of the first `cut` bytes may truthfully say.
"""
import bisect

from dsim.core import PlanError
from dsim.vasp.damage import damaged
from dsim.vasp.spec import Data

CELLS = ['simple cubic supercell.', 'body centered cubic supercell.', 'face centered cubic supercell.',
         'base centered monoclinic supercell.', 'hexagonal supercell.', 'triclinic supercell.']
ORBS = ['s', 'p', 'd', 'f']
MEMORY = ['base', 'nonl-proj', 'fftplans', 'grid', 'one-center', 'wavefun']
MODULI = {'non_symmetrized': '  ELASTIC MODULI  (kBar)', 'symmetrized': '  SYMMETRIZED ELASTIC MODULI (kBar)',
          'contr': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', 'total': ' TOTAL ELASTIC MODULI (kBar)'}


def gen_spec(rng, tables=False):
    """One simulated run; `tables`: rather few steps and much to print."""
    nelm = rng.weighted([(1, 1), (2, 2), (3, 3), (rng.randint(4, 9), 2), (rng.randint(10, 14), 1), (60, 2), (200, 0.5)])
    ibrion = rng.weighted([(-1, 3), (0, 1), (1, 2), (2, 3), (3, 1), (5, 1), (6, 2), (8, 1)])
    if ibrion == -1:
        nsw, nsteps = 0, 1
    elif ibrion in (5, 6, 7, 8):
        nsw, nsteps = rng.choice([0, 1, 1]), rng.randint(1, 4 if tables else 12)
    else:
        nsw = rng.weighted([(1, 2), (2, 2), (3, 2), (rng.randint(4, 13), 2), (120, 0.3)])
        nsteps = nsw if rng.chance(0.45) else rng.randint(1, min(nsw, 3 if tables else 12))
    style = rng.randrange(4)
    steps = []
    for _ in range(min(nsteps, 4 if tables else 13)):
        full = {0: False, 1: True, 2: rng.chance(0.5), 3: rng.chance(0.15)}[style]
        steps.append(nelm if full and nelm < 20 else rng.randint(1, max(1, min(nelm - 1, rng.weighted([(8, 9), (14, 1), (120, 0.1)])))))
    long = not tables and rng.chance(0.004)
    if long:    # the counter of the electronic steps fills its field
        nelm = rng.choice([1000, 1001, 2000, 9999])
        steps = [rng.randint(1, 4), min(nelm, rng.randint(998, 1003))][-1 if ibrion == -1 or nsw == 1 else 0:]
        nsteps = len(steps)
    if ibrion not in (-1, 5, 6, 7, 8) and nsteps == nsw and len(steps) < nsw:
        nsw = len(steps)
    mag = rng.choice([0, 1, 1, 3])
    natoms = rng.weighted([(1, 3), (2, 3), (3, 2), (rng.randint(4, 14), 2)])
    many = not long and rng.chance(0.006)
    if many:    # a big cell
        natoms, steps, mag = rng.choice([99, 100, 101, 250, 1001]), steps[:2], mag or 1
        nsteps = len(steps)
        if ibrion not in (-1, 5, 6, 7, 8):
            nsw = nsteps + rng.choice([0, 0, 3])
    return {
        'data_seed': rng.randrange(1 << 30), 'ibrion': ibrion, 'nsw': nsw, 'nelm': nelm, 'steps': steps,
        'mag': mag, 'natoms': natoms, 'norb': rng.choice([3, 3, 4]), 'lorbit': many or rng.chance(0.75 if tables else 0.3),
        'step_tables': rng.chance(0.7), 'nbands': rng.choice([4, 16, 128, 1024]),
        'elastic': ibrion == 6 and rng.chance(0.85), 'resym': rng.chance(0.7),
        'supercell': rng.choice([0, 0, 0, 2, 4, 27]), 'isym': rng.chance(0.85),
        'vasp6': rng.chance(0.4), 'average': rng.choice(['value', 'value', 'empty', 'N/A']),
        'noise': 0 if long else rng.choice([0, 0, 3, 15, 60]), 'crash_before': rng.chance(0.04),
        'buf': rng.choice([1, 1, 64, 512, 4096, 8192]), 'sync': rng.chance(0.5),
    }


def check_spec(spec):
    """Only runs VASP can make."""
    steps, nelm = spec['steps'], spec['nelm']
    if not steps or any(num < 1 or num > nelm for num in steps) or spec['natoms'] < 1 or spec['buf'] < 1:
        raise PlanError('impossible run')
    if spec['ibrion'] == -1 and (len(steps) > 1 or spec['nsw'] != 0):
        raise PlanError('one step only')
    if 0 <= spec['ibrion'] <= 3 and not 1 <= len(steps) <= spec['nsw']:
        raise PlanError('more steps than requested')
    if spec['ibrion'] >= 5 and spec['nsw'] > 1:
        raise PlanError('finite differences do not count steps')
    if spec['norb'] not in (3, 4) or spec['mag'] not in (0, 1, 3):
        raise PlanError('unknown table')


class Log:
    """Bytes in the order in which they are written, and the facts on each line."""

    def __init__(self, damage=None):
        self.damage = damage or {}
        self.parts = []
        self.size = 0
        self.time = 0.0
        self.clock = []     # (time, bytes written by then, flushed to disk)
        self.facts = []     # (offset after the newline of its line, kind, value)
        self.ends = []      # offset after each newline
        self.texts = []     # (offset, length) of printed numbers
        self.early = []     # (offset, offset after newline): a fact may be recognised from here on

    def line(self, text=''):
        self.parts.append(text.encode('ascii') + b'\n')
        self.size += len(text) + 1
        self.ends.append(self.size)

    def fact(self, kind, value, early=None):
        """The line just written completes this fact; `early`: part of the line that is enough to see it."""
        self.facts.append((self.size, kind, value))
        if early is not None:
            last = self.parts[-1].decode('ascii')
            self.early.append((self.size - len(last) + last.index(early) + len(early), self.size))

    def numbers(self, prefix, texts, tail=''):
        """A line with numbers whose places are remembered; returns what can be read there."""
        values, line = [], prefix
        for text in texts:
            if not text.strip().strip('+-').replace('.', '', 1).isdigit():
                line += text
                continue
            index = len(self.texts)
            self.texts.append((self.size + len(line) + len(text) - len(text.lstrip()), len(text.strip())))
            if index in self.damage:
                line += damaged(text, self.damage[index])
                values.append(float('nan'))
            else:
                line += text
                values.append(float(text) if '.' in text else int(text))
        self.line(line + tail)
        return values

    def tick(self, seconds, sync=False):
        self.time += seconds
        self.clock.append((self.time, self.size, sync))

    def data(self):
        return b''.join(self.parts)

    def on_disk(self, fraction, buf):
        """How much of the file a crash at this fraction of the run leaves behind."""
        moment = fraction * self.time
        flushed = 0
        for time, size, sync in self.clock:
            if time > moment:
                break
            flushed = max(flushed, size if sync else size - size % buf)
        return flushed


class Writer:
    """One run of VASP."""

    def __init__(self, spec, damage=None):
        self.spec = spec
        self.rnd = Data(spec['data_seed'])
        self.log = Log(damage)

    def noise(self, most=None):
        most = self.spec['noise'] if most is None else most
        for _ in range(self.rnd.rng.randint(0, most)):
            self.log.line(self.rnd.rng.choice([
                '', '    POTLOK:  cpu time    0.0114: real time    0.0494',
                '     EDDAV:  cpu time    0.3654: real time    0.3870',
                '  0.000   0.000   0.000   0.000   0.000   0.000   0.001  -0.000',
                ' eigenvalue-minimisations  :  2832', '   NELMIN=  2; NELMDL= -5     # of ELM steps',
                ' augmentation part        8.0000000 magnetization       4.0000000',
                '--------------------------------------------------------------------------------------------------',
                '   NGX =  5   NGY =  5   NGZ =  5', ' magnetization density of overlapping atoms calculated',
                '   1     -24.4455      2.00000', ' total energy-change (2. order) :-0.7688827E+01  (-0.2809721E+03)',
                '   NSWITCH=      9', ' STRESS in cart. coord.  units (eV):', ' tot         3.0']))

    def symmetry(self, which):
        log, spec, rng = self.log, self.spec, self.rnd.rng
        config, magnetic = {'static': ('static', False), 'dynamic': ('dynamic', False),
                            'magnetic': ('dynamic', True)}[which]
        log.line()
        log.line({'static': 'Analysis of symmetry for initial positions (statically):',
                  'dynamic': 'Analysis of symmetry for dynamics (positions and initial velocities):',
                  'magnetic': 'Analysis of structural, dynamic, and magnetic symmetry:'}[which])
        log.line('=' * 69)
        if spec['supercell']:
            log.line(' Subroutine PRICEL returns following result:')
            log.line()
            for num in (1, 2, 3):
                log.line(f' A{num} = (   1.4350000000,   1.4350000000,  -1.4350000000)')
            log.line()
            log.line(f'  {spec["supercell"]} primitive cells build up your supercell.')
            log.fact('sym', ('original_cell_type', config, f'{spec["supercell"]} primitive cells', magnetic))
        else:
            log.line(' Subroutine PRICEL returns:')
            log.line(' Original cell was already a primitive cell.')
            log.fact('sym', ('original_cell_type', config, 'primitive cell', magnetic))
        log.line()
        log.line()
        log.line(' Routine SETGRP: Setting up the symmetry group for a')
        cell = rng.choice(CELLS)
        log.line(f' {cell}')
        log.fact('sym', ('symmetrized_cell_type', config, cell, magnetic))
        log.line()
        log.line()
        ops = rng.choice([1, 2, 4, 8, 16, 24, 48, 96, 192, 384])
        seen = log.numbers(' Subroutine GETGRP returns: Found', [f'{ops:3d}' if ops < 100 else f'{ops:4d}'], ' space group operations')
        log.fact('sym', ('num_space_group_operations', config, seen[0], magnetic))
        log.line(f' (whereof {ops} operations were pure point group operations)')
        log.line(' out of a pool of 48 trial point group operations.')
        log.line()

    def memory(self, final):
        log = self.log
        log.line()
        log.line(' total amount of memory used by VASP MPI-rank0    30831. kBytes')
        log.line('=' * 71)
        log.line()
        for name in MEMORY:
            value = self.rnd.rng.randint(1, 99999)
            seen = log.numbers(f'   {name:<10s}:', [f'{value:11d}.'], ' kBytes')
            log.fact('stat', ('mem_usage_' + name, seen[0], final))
        log.line()

    def charge(self):
        """number of electron ... magnetization ..."""
        log = self.log
        moments = [f'{self.rnd.num(-200, 200):15.7f}' for _ in range(self.spec['mag'])]
        elec = f'{self.rnd.num(1, 900):15.7f}'
        seen = log.numbers(' number of electron ', [elec, ' magnetization '] + moments)
        log.fact('full_cell', seen[1:])

    def table(self, name, key):
        log, spec = self.log, self.spec
        log.line(f' {name}')
        log.line()
        log.line('# of ion     ' + ''.join(f'{orb:<8s}' for orb in ORBS[:spec['norb']]) + 'tot')
        log.line('-' * (18 + 8 * spec['norb']))
        sites = {}
        for atom in range(1, spec['natoms'] + 1):
            texts = [f'{self.rnd.num(-20, 20):8.3f}' for _ in range(spec['norb'] + 1)]
            seen = log.numbers(f'{atom:5d}     ', texts)
            sites[atom] = dict(zip(ORBS[:spec['norb']] + ['tot'], seen))
        start = log.size
        total = dict(sites[1])
        if spec['natoms'] > 1:
            log.line('-' * 50)
            texts = [f'{self.rnd.num(-20, 20):8.3f}' for _ in range(spec['norb'] + 1)]
            seen = log.numbers('tot       ', texts)
            total = dict(zip(ORBS[:spec['norb']] + ['tot'], seen))
            if key:
                log.fact('mag', (key, {'site_moment': sites, 'total_magnetization': total}))
            log.line()
        else:
            log.line()
            if key:
                log.fact('mag', (key, {'site_moment': sites, 'total_magnetization': total}))
                log.early.append((start - 1, log.size))
        log.line()

    def tables(self):
        if not self.spec['lorbit']:
            return
        self.log.line()
        self.table('total charge', None)
        if self.spec['mag']:
            for proj in ['x', 'y', 'z'][:self.spec['mag']]:
                self.log.line()
                self.table(f'magnetization ({proj})', proj)

    def elastic(self, kind):
        log = self.log
        log.line(MODULI[kind])
        log.line(' Direction    XX          YY          ZZ          XY          YZ          ZX')
        log.line(' ' + '-' * 80)
        rows = []
        for label in ('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX'):
            texts = [f'{self.rnd.num(-2000, 2000):12.4f}' for _ in range(6)]
            rows.append(log.numbers(f' {label}     ', texts))
        if kind != 'contr':
            log.fact('elastic', (kind, rows))
        log.line(' ' + '-' * 80)
        log.line()

    def general(self):
        log, spec = self.log, self.spec
        log.line()
        log.line()
        log.line(' General timing and accounting informations for this job:')
        log.fact('finished', True, 'timing and accounting informations')
        log.line(' ========================================================')
        log.line()
        names = ['Total CPU time used', 'User time', 'System time', 'Elapsed time']
        for name in names:
            value = f'{self.rnd.num(0, 90000):13.3f}'
            seen = log.numbers(f'{name:>38s} (sec):', [value])
            log.fact('stat', (name.lower().replace(' ', '_'), seen[0], True))
        log.line()
        value = f'{self.rnd.rng.randint(1000, 9999999):12d}.'
        seen = log.numbers(f'{"Maximum memory used":>38s} (kb):', [value])
        log.fact('stat', ('maximum_memory_used', seen[0], True))
        value = {'value': '          0.', 'empty': '', 'N/A': '          N/A'}[spec['average']]
        log.line(f'{"Average memory used":>38s} (kb):{value}')
        log.fact('stat', ('average_memory_used', 0.0 if spec['average'] == 'value' else None, True))
        log.line()
        log.line('                          Minor page faults:         9686')
        log.line('                          Major page faults:           67')
        log.line('                 Voluntary context switches:         1550')

    def run(self):
        spec, log = self.spec, self.log
        log.line(f' vasp.{"6.3.0" if spec["vasp6"] else "5.4.4.18Apr17-6-g9f103f2a35"} (build Jun 11 2017) complex')
        log.line(' executed on             LinuxIFC date 2021.12.05  12:01:41')
        self.noise()
        log.tick(1.0, True)
        if spec['isym']:
            for which in ['static', 'dynamic'] + (['magnetic'] if spec['mag'] else []):
                self.symmetry(which)
        self.noise()
        log.line(' Dimension of arrays:')
        seen = log.numbers('   k-points           NKPTS =     35   k-points in BZ     NKDIM =     35   number of bands    NBANDS=',
                    [f'{spec["nbands"]:7d}'])
        log.fact('param', ('nbands', seen[0]))
        log.line('   number of dos      NEDOS =    301   number of ions     NIONS =      4')
        log.line(' SYSTEM =  unknown system')
        seen = log.numbers('   NELM   =', [f'{spec["nelm"]:7d}'], ';   NELMIN=  2; NELMDL= -5     # of ELM steps')
        log.fact('param', ('nelm', seen[0]))
        log.line('   EDIFF  = 0.1E-03   stopping-criterion for ELM')
        seen = log.numbers('   NSW    =', [f'{spec["nsw"]:7d}'], '    number of steps for IOM')
        log.fact('param', ('nsw', seen[0]))
        seen = log.numbers('   IBRION =', [f'{spec["ibrion"]:7d}'], '    ionic relax: 0-MD 1-quasi-New 2-CG')
        log.fact('param', ('ibrion', seen[0]))
        log.line('   NFREE  =      0    steps in history (QN), initial steepest desc. (CG)')
        self.noise()
        self.memory(False)
        log.tick(2.0)
        self.charge()
        log.line(' keeping initial charge density in first step')
        if spec['crash_before']:
            self.noise(20)
            log.line(' VERY BAD NEWS! internal error in subroutine IBZKPT:')
            log.tick(1.0, True)
            return log
        for step, num in enumerate(spec['steps'], 1):
            if step > 1 and spec['ibrion'] >= 5 and spec['resym'] and spec['isym']:
                self.symmetry('static')
                self.symmetry('dynamic')
            for elec in range(1, num + 1):
                log.line()
                bars = '-' * 39
                seen = log.numbers(f'{bars} Iteration ', [f'{step:6d}', '(', f'{elec:4d}', ')'], f'  {bars}')
                log.fact('iteration', (seen[0], seen[1]), ')')
                log.line()
                self.noise()
                log.tick(self.rnd.rng.choice([3.0, 20.0, 400.0]), spec['sync'])
                self.charge()
                log.line(' augmentation part        8.0000000 magnetization       4.0000000')
            log.line('------------------------ aborting loop because EDIFF is reached -------------------------------')
            self.noise()
            if spec['step_tables']:
                self.tables()
            self.noise()
            log.tick(5.0)
        if spec['elastic']:
            self.elastic('non_symmetrized')
            self.elastic('symmetrized')
            self.noise()
            self.elastic('contr')
            self.elastic('total')
            log.tick(5.0)
        self.tables()
        self.memory(True)
        self.general()
        log.tick(1.0, True)
        return log


def build(spec, damage=None):
    check_spec(spec)
    return Writer(spec, damage).run()


# ---------------------------------------------------------------------------------------------- reference model
def status_of(facts):
    """Run status of a run of which these facts are known, as documented."""
    params = {'nelm': None, 'nsw': None, 'nbands': None, 'ibrion': -1}
    counts = {}
    last = None
    finished = False
    for _, kind, value in facts:
        if kind == 'param':
            params[value[0]] = value[1]
        elif kind == 'iteration':
            last = list(value)
            counts[value[0]] = counts.get(value[0], 0) + 1
        elif kind == 'finished':
            finished = True
    if last is None:
        return None
    nelm, nsw = params['nelm'], params['nsw']
    ionic = False
    if finished:
        if params['ibrion'] <= 0 or nsw <= 1:
            ionic = None
        else:
            ionic = last[0] < nsw
    hits = [counts[step] >= nelm for step in sorted(counts)]
    consistent = all(hits) if finished else (last[0] > 1 and all(hits[:-1]))
    return {'nelm': nelm, 'nsw': nsw, 'nbands': params['nbands'], 'last_iteration_index': last, 'finished': finished,
            'ionic_converged': ionic, 'electronic_converged': finished and last[1] < nelm,
            'consistent_nelm_breach': consistent, 'contains_nelm_breach': any(hits)}


def known(log, cut):
    """The sets of facts a reader of `cut` bytes may rely on: complete lines, and possibly the line being written."""
    index = bisect.bisect_right([item[0] for item in log.facts], cut)
    strict = log.facts[:index]
    out = [strict]
    line_end = next((end for end in log.ends if end > cut), None)
    if line_end is not None:
        more = [item for item in log.facts[index:] if item[0] == line_end]
        reached = line_end - 1 <= cut or any(start <= cut < end for start, end in log.early if end == line_end)
        if more and reached:
            out.append(strict + more)
    # A table of a single atom is only closed by the line after it.
    for start, end in log.early:
        if start <= cut < end and end != line_end:
            more = [item for item in log.facts[index:] if item[0] <= end]
            out.append(strict + more)
    return out


def collect(facts):
    """Everything except the run status."""
    out = {'symmetry': {}, 'optional': {}, 'mag': {}, 'full_cell': None, 'elastic': {}, 'stats': {}}
    for name in ('num_space_group_operations', 'original_cell_type', 'symmetrized_cell_type'):
        out['symmetry'][name] = {'static': [], 'dynamic': []}
        out['optional'][name] = {'static': [], 'dynamic': []}
    for _, kind, value in facts:
        if kind == 'sym':
            name, config, item, magnetic = value
            out['symmetry'][name][config].append(item)
            if not magnetic:
                out['optional'][name][config].append(item)
        elif kind == 'mag':
            out['mag'][value[0]] = value[1]
        elif kind == 'full_cell':
            out['full_cell'] = value
        elif kind == 'elastic':
            out['elastic'][value[0]] = value[1]
        elif kind == 'stat':
            name, number, final = value
            values, printed = out['stats'].get(name, ([], False))
            out['stats'][name] = (values + [number] if not final else [number], final)
    return out
