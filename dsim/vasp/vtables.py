"""EIGENVAL, DOSCAR, CHGCAR and POTCAR of a simulated calculation, with the ground truth.

Every builder returns an `Out`: the bytes, the value of every quantity as printed, and where the numbers are.
A damaged number is printed as other characters of the same width and is NaN in the ground truth.
"""
import numpy as np

from dsim.core import PlanError
from dsim.vasp.damage import damaged
from dsim.vasp.spec import Data, SYMBOLS, SYSTEMS

KINDS = ['EIGENVAL', 'DOSCAR', 'CHGCAR', 'POTCAR']
LM_NAMES = ['s', 'py', 'px', 'pz', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2-y2', 'fy(3x2-y2)', 'fxyz', 'fyz2', 'fz3', 'fxz2',
            'fz(x2-y2)', 'fx(x2-3y2)']
L_NAMES = ['s', 'p', 'd', 'f']


def gen_spec(rng, kind=None):
    kind = kind or rng.choice(KINDS)
    spec = {'kind': kind, 'data_seed': rng.randrange(1 << 30), 'natoms': rng.weighted([(1, 4), (2, 3), (3, 1),
                                                                                     (rng.randint(1, 6), 1), (rng.randint(10, 12), 0.4)]),
            'system': rng.pick(SYSTEMS)}
    if kind == 'EIGENVAL':
        spec.update(spin=rng.choice([1, 1, 2]), nkpts=rng.weighted([(1, 3), (2, 3), (rng.randint(1, 8), 2), (rng.randint(10, 14), 1)]),
                    nbands=rng.weighted([(1, 2), (2, 2), (4, 2), (rng.randint(1, 14), 2)]), occ=rng.chance(0.6))
        if rng.chance(0.006):
            spec.update(rng.choice([{'nkpts': 101}, {'nkpts': 1001}, {'nbands': 101}, {'nbands': 1001}]))
    elif kind == 'DOSCAR':
        spec.update(spin=rng.choice([1, 2, 2, 4]), nedos=rng.choice([2, 2, 3, 4, 9, 12]),
                    pdos=rng.choice([None, 'l3', 'l4', 'lm9', 'lm9', 'lm16']))
        if spec['spin'] == 4 and spec['pdos'] == 'l4':
            spec['pdos'] = 'l3'
        if rng.chance(0.006):
            spec.update(rng.choice([{'natoms': 101}, {'natoms': 130}, {'nedos': 301}, {'nedos': 3001, 'pdos': None}]))
    elif kind == 'CHGCAR':
        spec.update(spin=rng.choice([1, 2, 2, 4]), grid=[rng.choice([1, 2, 3, 4, 5, 6, 10, 12]) for _ in range(3)],
                    scale=rng.choice([1.0, 3.5]), aug=rng.chance(0.8), vasp4=rng.chance(0.2),
                    moments=rng.chance(0.7), rows=rng.choice([5, 5, 10]))
        while np.prod(spec['grid']) > 300:
            spec['grid'][rng.randrange(3)] = rng.choice([1, 2, 3])
        if rng.chance(0.006):
            spec['grid'] = list(rng.choice([(1, 10, 108), (108, 2, 15), (12, 15, 16), (20, 15, 18)]))
    else:
        spec.update(missing=sorted(rng.sample(['RPACOR', 'RCORE', 'EAUG', 'DEXC', 'RDEPT', 'LCOR'], rng.randint(0, 3))),
                    order=rng.chance(0.5), body=rng.choice([0, 3, 40]), second=rng.chance(0.2))
    return spec


def gen_variant(rng, spec):
    """Another calculation that looks much like the given one."""
    out = dict(spec, data_seed=rng.randrange(1 << 30))
    if spec['kind'] == 'POTCAR':
        # A potential of the same name
        out['title_seed'] = spec.get('title_seed', spec['data_seed'])
        out['missing'] = sorted(rng.sample(['RPACOR', 'RCORE', 'EAUG', 'DEXC', 'RDEPT', 'LCOR'], rng.randint(0, 3)))
    elif rng.chance(0.5):
        out['data_seed'] = spec['data_seed']
        name = rng.choice({'EIGENVAL': ['occ', 'spin'], 'DOSCAR': ['pdos', 'spin'], 'CHGCAR': ['aug', 'spin']}[spec['kind']])
        out[name] = gen_spec(rng, spec['kind'])[name]
        if out.get('pdos') == 'l4' and out['spin'] == 4:
            out['pdos'] = 'l3'
    return out


def check_spec(spec):
    if spec['kind'] not in KINDS or spec['natoms'] < 1 or not spec['system']:
        raise PlanError('impossible calculation')
    if spec['kind'] == 'EIGENVAL' and (spec['spin'] not in (1, 2) or spec['nkpts'] < 1 or spec['nbands'] < 1):
        raise PlanError('impossible calculation')
    if spec['kind'] == 'DOSCAR' and (spec['spin'] not in (1, 2, 4) or spec['nedos'] < 2 or
                                     spec['pdos'] not in (None, 'l3', 'l4', 'lm9', 'lm16')):
        raise PlanError('impossible calculation')
    if spec['kind'] == 'CHGCAR' and (spec['spin'] not in (1, 2, 4) or len(spec['grid']) != 3 or min(spec['grid']) < 1
                                     or spec['scale'] <= 0 or spec['rows'] < 1):
        raise PlanError('impossible calculation')


class Out:
    """Text in the order in which it is written, and what it means."""

    def __init__(self, damage=None):
        self.parts = []
        self.size = 0
        self.truth = {}
        self.texts = []      # (offset, length) of every number
        self.where = []      # what kind of number it is
        self.places = {}     # named offsets
        self.damage = damage or {}
        self.hit = []        # what was damaged

    def w(self, text):
        self.parts.append(text)
        self.size += len(text.encode('utf8'))

    def num(self, fmt, value, what=''):
        """Print one number; returns it as printed."""
        text = fmt % value
        body = text.strip()
        index = len(self.texts)
        start = len(text) - len(text.lstrip())
        self.texts.append((self.size + start, len(body)))
        self.where.append(what)
        if index in self.damage:
            self.w(damaged(text, self.damage[index]))
            self.hit.append(what)
            return float('nan')
        self.w(text)
        return int(body) if 'd' in fmt else float(body)

    def mark(self, name):
        self.places[name] = self.size

    def data(self):
        return ''.join(self.parts).encode('utf8')


def _float(rnd, low=-99.0, high=99.0):
    value = rnd.num(low, high)
    return value if rnd.rng.random() < 0.9 else 0.0


def header(out, spec, rnd, last, name='unknown system'):
    """The five lines EIGENVAL and DOSCAR have in common."""
    meta = {}
    first = [out.num('%4d', spec['natoms'], 'head'), out.num('%4d', spec['natoms'], 'head'), out.num('%4d', 1, 'head'),
             out.num('%4d', last, 'head')]
    out.w('\n')
    line1 = [out.num('%15.7E', _float(rnd), 'head') for _ in range(5)]
    out.w('\n')
    line2 = out.num('%23.15E', abs(_float(rnd)), 'head')
    out.w('\n  CAR \n ' + spec['system'] + '\n')
    meta['first'], meta['line1'], meta['line2'] = first, line1, line2
    return meta


def eigenval(spec, damage=None):
    out, rnd = Out(damage), Data(spec['data_seed'])
    spin, nkpts, nbands = spec['spin'], spec['nkpts'], spec['nbands']
    meta = header(out, spec, rnd, spin)
    counts = [out.num('%7d', number, 'head') for number in (rnd.rng.randint(1, 9999), nkpts, nbands)]
    out.w('\n')
    kpoints = np.zeros((nkpts, 4))
    eig = np.zeros((spin, nkpts, nbands))
    out.mark('body')
    for kpt in range(nkpts):
        out.w(' \n')
        kpoints[kpt] = [out.num('%15.7E', rnd.num(-1, 1), ('kpoints', kpt)) for _ in range(4)]
        out.w('\n')
        for band in range(nbands):
            out.num('%5d', band + 1, ('band', kpt, band))
            out.w('   ')
            for spi in range(spin):
                eig[spi, kpt, band] = out.num('%15.6f', _float(rnd), ('eigenvalues', spi, kpt, band))
            if spec['occ']:
                for _ in range(spin):
                    out.num('%11.6f', rnd.num(0, 2), 'occ')
            out.w('\n')
    out.truth = {'eigenvalues': eig, 'kpoints': kpoints,
                 'metadata': {0: meta['first'], 1: meta['line1'], 2: meta['line2'], 'n_ions': meta['first'][0],
                              'n_atoms': meta['first'][1], 'p00': meta['first'][2], 'nspin': meta['first'][3], 'cartesian': True,
                              'name': spec['system'].strip(), 'some_num': counts[0], 'n_bands': counts[2], 'n_kp': counts[1]}}
    return out


def doscar(spec, damage=None):
    out, rnd = Out(damage), Data(spec['data_seed'])
    spin, nedos = spec['spin'], spec['nedos']
    meta = header(out, spec, rnd, 0)

    emax, emin, efermi = rnd.num(1, 60), rnd.num(-90, 0), rnd.num(-9, 9)

    def window(what):
        values = [out.num('%16.8f', emax, what), out.num('%16.8f', emin, what), out.num('%5d', nedos, what),
                  out.num('%16.8f', efermi, what), out.num('%16.8f', 1, what)]
        out.w('\n')
        return values

    head = window('head')
    ncol = 2 if spin == 2 else 1
    energy, total, integrated = np.zeros(nedos), np.zeros((nedos, ncol)), np.zeros((nedos, ncol))
    energies = sorted(rnd.nums(nedos))
    for row in range(nedos):
        energy[row] = out.num('%11.3f', energies[row], ('dos', row))
        for array in (total, integrated):
            for col in range(ncol):
                array[row, col] = out.num('%12.4E', _float(rnd), ('dos', row))
        out.w('\n')
    out.mark('dos')
    out.places['last of dos'] = out.texts[-1][0]
    if ncol == 1:
        total, integrated = total[:, 0], integrated[:, 0]
    out.truth = {'dos': {'energy': energy, 'total': total, 'integrated': integrated},
                 'metadata': {'n_ions': meta['first'][0], 'n_atoms': meta['first'][1], 'cartesian': True,
                              'name': spec['system'].strip(), 'emax': head[0], 'emin': head[1], 'n_dos': head[2],
                              'efermi': head[3], 'weight': head[4]}, 'pdos': None}
    if spec['pdos']:
        names = {'l3': L_NAMES[:3], 'l4': L_NAMES, 'lm9': LM_NAMES[:9], 'lm16': LM_NAMES}[spec['pdos']]
        parts = {name: np.zeros((spec['natoms'], nedos, spin)) for name in ['energy'] + names}
        for atom in range(spec['natoms']):
            number = len(out.texts)
            window('window')
            if atom == 0:
                out.mark('window')
                out.places['header of pdos'] = out.texts[number][0]
            for row in range(nedos):
                parts['energy'][atom, row, :] = out.num('%11.3f', energies[row], ('pdos', atom, row))
                for name in names:
                    for col in range(spin):
                        parts[name][atom, row, col] = out.num('%12.4E', _float(rnd), ('pdos', atom, row))
                out.w('\n')
        parts['energy'] = parts['energy'][:, :, 0]
        if spin == 1:
            parts = {name: value[:, :, 0] if name != 'energy' else value for name, value in parts.items()}
        out.truth['pdos'] = {'names': ['energy'] + names, 'values': parts}
    return out


def fortran(value):
    """A number as CHGCAR has it: .12345678901E+02"""
    if value == 0.0:
        return '0.00000000000E+00'
    exponent = int(np.floor(np.log10(abs(value)))) + 1
    text = f'{abs(value) / 10.0 ** exponent:.11f}'
    if text.startswith('1'):
        text, exponent = '0.10000000000', exponent + 1
    return ('-' if value < 0 else '0') + text[1:] + f'E{exponent:+03d}'


def chgcar(spec, damage=None):
    out, rnd = Out(damage), Data(spec['data_seed'])
    natoms, grid, rng = spec['natoms'], spec['grid'], rnd.rng
    out.w(spec['system'] + '\n')
    scale = out.num('%19.14f', spec['scale'], 'head')
    out.w('\n')
    cell = np.array([[rnd.num(2, 5) if row == col else rnd.num(-1, 1) for col in range(3)] for row in range(3)])
    printed = np.zeros((3, 3))
    for row in range(3):
        for col in range(3):
            printed[row, col] = out.num('%12.6f', cell[row, col], 'head')
        out.w('\n')
    volume = float(np.linalg.det(scale * printed)) if not np.isnan(printed).any() and scale == scale else float('nan')
    if not spec['vasp4']:
        out.w('   ' + rng.choice(SYMBOLS) + '\n')
    out.w(f'{natoms:6d}\nDirect\n')
    for _ in range(natoms):
        out.w(''.join(f'{rnd.num(0, 1):10.6f}' for _ in range(3)) + '\n')
    out.w('\n')
    sets = []
    for number in range({1: 1, 2: 2, 4: 4}[spec['spin']]):
        for size in grid:
            out.num('%5d', size, ('grid', number))
        out.w('\n')
        out.mark(('grid', number))
        count = int(np.prod(grid))
        values = np.zeros(count)
        for index in range(count):
            text = fortran(rnd.num(-999, 999) * 10.0 ** rng.randint(-3, 3) if rng.random() < 0.95 else 0.0)
            out.w(' ')
            values[index] = out.num('%s', text, ('set', number, index))
            if (index + 1) % spec['rows'] == 0 or index + 1 == count:
                out.w('\n')
        sets.append(values.reshape(grid[::-1]) / volume)
        out.mark(('set', number))
        if spec['aug']:
            for atom in range(natoms):
                many = rng.choice([4, 5, 8, 15])
                out.w(f'augmentation occupancies{atom + 1:4d}{many:4d}\n')
                for pos in range(0, many, 5):
                    out.w(''.join(f'  {fortran(rnd.num())}' for _ in range(min(5, many - pos))) + '\n')
            if spec['moments'] and spec['spin'] > 1 and number + 1 < spec['spin']:
                out.w(''.join(f'  {rnd.num(-3, 3):.12E}' for _ in range(natoms)) + '\n')
    out.truth = {'total': sets[0], 'magnetization': None}
    if spec['spin'] == 2:
        out.truth['magnetization'] = sets[1]
    elif spec['spin'] == 4:
        out.truth['magnetization'] = dict(zip('xyz', sets[1:]))
    return out


POTCAR_ITEMS = ['LULTRA', 'IUNSCR', 'RPACOR', 'POMASS', 'RCORE', 'RWIGS', 'ENMAX', 'ICORE', 'LCOR', 'LPAW', 'EAUG', 'DEXC',
                'RMAX', 'RAUG', 'RDEP', 'RDEPT']
FUNCTIONALS = {'PE': ('PBE', 'GGA'), '91': ('PW91', 'GGA'), 'CA': ('Perdew-Zunger81', 'LDA'), 'PS': ('PBEsol', 'GGA'),
               'HL': ('Hedin-Lundquist', 'LDA'), 'RP': ('revPBE', 'GGA'), 'AM': ('AM05', 'GGA')}
NOTES = {'LULTRA': 'use ultrasoft PP ?', 'IUNSCR': 'unscreen: 0-lin 1-nonlin 2-no', 'RPACOR': 'partial core radius',
         'RCORE': 'outmost cutoff radius', 'ICORE': 'local potential', 'LCOR': 'correct aug charges', 'LPAW': 'paw PP',
         'RMAX': 'core radius for proj-oper', 'RAUG': 'factor for augmentation sphere',
         'RDEP': 'radius for radial grids', 'RDEPT': 'core radius for aug-charge'}


def potcar(spec, damage=None):
    out, rnd = Out(damage), Data(spec['data_seed'])
    meta = one_potcar(out, spec, rnd)
    out.truth = meta
    if spec['second']:
        one_potcar(out, spec, rnd)
    return out


def one_potcar(out, spec, rnd):
    rng = Data(spec['title_seed']).rng if 'title_seed' in spec else rnd.rng
    element = rng.choice(SYMBOLS)
    symbol = element + rng.choice(['', '_pv', '_sv_GW', '_d', '_h'])
    meta = {}
    title = f'{rng.choice(["PAW_PBE", "PAW", "US"])} {symbol}' + rng.choice(['', ' 05Jan2001', f' {rng.randint(10, 28)}Sep2000',
                                                                             f' {rng.randint(10, 28)}Sep2000 mod'])
    rng = rnd.rng
    out.w(f'  {title}\n {rnd.num(1, 20):.14f}\n parameters from PSCTR are:\n')
    meta['VRHFIN'] = f'{element}: s1p1'
    out.w(f'   VRHFIN ={meta["VRHFIN"]}\n')
    meta['LEXCH'] = rng.choice(list(FUNCTIONALS))
    out.w(f'   LEXCH  = {meta["LEXCH"]}\n   EATOM  =')
    meta['EATOM'] = out.num('%11.4f', rnd.num(1, 3000), 'EATOM')
    out.w(' eV, %10.4f Ry\n\n' % rnd.num(0, 200))
    meta['TITEL'] = title
    out.w(f'   TITEL  = {title}\n')
    for name in POTCAR_ITEMS:
        if name in spec['missing']:
            continue
        out.w(f'   {name:<6s} =')
        if name in ('LULTRA', 'LCOR', 'LPAW'):
            meta[name] = rng.random() < 0.5
            out.w(f'{"T" if meta[name] else "F":>9s}    ')
        elif name in ('IUNSCR', 'ICORE'):
            meta[name] = out.num('%9d', rng.randint(0, 4), name)
            out.w('    ')
        else:
            meta[name] = out.num('%9.3f', rnd.num(-50, 50) if name in ('EAUG', 'DEXC') else rnd.num(0, 400), name)
            pair = {'POMASS': 'ZVAL', 'RWIGS': 'RWIGS', 'ENMAX': 'ENMIN'}.get(name)
            if pair:
                out.w(f'; {pair:<6s} =')
                meta[pair] = out.num('%9.3f', rnd.num(0, 400), pair)
            out.w({'POMASS': '    mass and valenz', 'RWIGS': '    wigner-seitz radius (au A)', 'ENMAX': ' eV'
                   }.get(name, '    '))
        out.w(NOTES.get(name, '') + '\n')
    out.w('\n   Atomic configuration\n    4 entries\n     n  l   j            E        occ.\n')
    for _ in range(4):
        out.w('     1  0  0.50     %10.4f   2.0000\n' % rnd.num())
    out.w('   Description\n     l       E           TYP  RCUT    TYP  RCUT\n     0   0.0000000     23  1.900\n')
    out.w('   Error from kinetic energy argument (eV)\n   NDATA  =')
    meta['NDATA'] = out.num('%9d', 100, 'NDATA')
    out.w('\n   STEP   =')
    meta['STEP'] = [out.num('%9.3f', 20.0, 'STEP'), out.num('%8.3f', 1.05, 'STEP')]
    out.w('\n')
    for _ in range(3):
        out.w(''.join('%10.3f' % rnd.num(0, 99) for _ in range(8)) + '\n')
    out.w('END of PSCTR-controll parameters\n')
    out.places.setdefault('header', out.size)
    out.w(' local part\n')
    for _ in range(spec['body']):
        out.w(''.join(f'  {fortran(rnd.num())}' for _ in range(5)) + '\n')
    out.w(' End of Dataset\n')
    return meta


BUILDERS = {'EIGENVAL': eigenval, 'DOSCAR': doscar, 'CHGCAR': chgcar, 'POTCAR': potcar}


def build(spec, damage=None):
    check_spec(spec)
    return BUILDERS[spec['kind']](spec, damage)
