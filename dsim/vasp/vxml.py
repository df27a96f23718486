"""The vasprun.xml a simulated calculation writes, in the order and layout of VASP, with the ground truth.

`build(spec)` returns a Doc: the bytes, the value of every quantity as written (`truth`), and for each
quantity the offset at which its last byte is on disk (`done`).
"""
import importlib
import sys
import xml.sax.saxutils

import numpy as np

from dsim.vasp.damage import damaged
from dsim.vasp.spec import Data, SYSTEMS, VERSIONS, gen_atoms, gen_steps

ETYPES = {'energy_free': 'e_fr_energy', 'energy_no_entropy': 'e_wo_entrp', 'energy_extrapolated': 'e_0_energy'}
CHUNK = 32768  # read size of the event-driven parser
LM = {3: ['s', 'p', 'd'], 9: ['s', 'py', 'pz', 'px', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2'],
      16: ['s', 'py', 'pz', 'px', 'dxy', 'dyz', 'dz2', 'dxz', 'dx2', 'f-3', 'f-2', 'f-1', 'f0', 'f1', 'f2', 'f3']}


def gen_spec(rng, big=False):
    steps = gen_steps(rng)
    spec = {
        'data_seed': rng.randrange(1 << 30), 'atoms': gen_atoms(rng), 'steps': steps,
        'ispin': rng.choice([1, 1, 2]), 'ncl': False,
        'nkpts': rng.weighted([(1, 2), (2, 2), (3, 2), (rng.randint(1, 6), 1), (rng.randint(10, 14), 0.4)]),
        'nbands': rng.weighted([(1, 1), (2, 2), (4, 2), (rng.randint(1, 8), 1), (rng.randint(10, 14), 0.4)]),
        'nedos': rng.choice([1, 2, 3, 5, 8, 12]), 'lm': rng.choice([9, 9, 9, 3, 16]),
        'kpgen': rng.choice(['Gamma', 'Monkhorst-Pack', 'listgenerated', 'none']),
        'system': rng.pick(SYSTEMS), 'version': rng.pick(VERSIONS),
        'nelm': rng.choice([1, 40, 60, 100]), 'nsw': rng.choice([0, len(steps), len(steps) + 3]),
        'pad': [rng.randint(0, 60) for _ in range(rng.choice([0, 1, 4, 9]))],
        'vary_cell': rng.chance(0.6), 'primitive': rng.chance(0.3), 'decoys': rng.chance(0.5),
        'with': sorted(name for name, prob in [
            ('stress', 0.85), ('eigenvalues', 0.8), ('dos', 0.7), ('pdos', 0.4), ('projected', 0.4), ('born', 0.3),
            ('epsilon', 0.3), ('epsilon_ion', 0.2), ('dielectric', 0.3), ('current', 0.1), ('dynmat', 0.3),
            ('eig_specific', 0.2), ('velocities', 0.2), ('dos_specific', 0.2), ('step_kpoints', 0.2)]
            if rng.chance(prob)),
    }
    if spec['ispin'] == 1 and rng.chance(0.15):
        spec['ncl'] = True
    if big:
        spec['nkpts'] = rng.randint(10, 40)
        spec['nbands'] = rng.randint(8, 24)
        spec['nedos'] = rng.randint(20, 120)
    elif rng.chance(0.006):
        grown = rng.choice(['atoms', 'steps', 'nkpts', 'nbands', 'nedos', 'sc'])
        if grown == 'atoms':
            spec['atoms'] = sorted(rng.choice(spec['atoms']) for _ in range(rng.choice([100, 130, 260])))
            spec['with'] = [name for name in spec['with'] if name not in ('pdos', 'projected', 'dynmat')]
            spec['steps'] = steps[:2]
        elif grown == 'steps':
            spec['steps'] = steps = [rng.randint(1, 2) for _ in range(rng.choice([100, 101, 120]))]
            spec['nsw'] = rng.choice([len(steps), len(steps) + 3])
            spec['atoms'] = spec['atoms'][:2]
            spec['with'] = [name for name in spec['with'] if name in ('stress', 'velocities', 'eigenvalues')]
        elif grown == 'sc':
            spec['steps'] = [rng.choice([60, 100, 120])]
            spec['nelm'] = 200
        else:
            spec[grown] = rng.choice([100, 101, 300])
            spec['with'] = [name for name in spec['with'] if name not in ('pdos', 'projected', 'step_kpoints', 'eig_specific')]
    return spec


class Doc:
    """Bytes in the order in which they are written, and what they mean."""

    def __init__(self, damage=None):
        self.parts = []
        self.size = 0
        self.truth = {}
        self.done = {}
        self.texts = []
        self.items = []     # (offset, length) of the content of each <i>
        self.damage = damage or {}

    def w(self, text):
        data = text.encode('iso-8859-1')
        self.parts.append(data)
        self.size += len(data)

    def field(self, text):
        """A number: its place is remembered (for read boundaries); returns what can be read there."""
        index = len(self.texts)
        self.texts.append((self.size, len(text)))
        if index in self.damage:
            self.w(damaged(text, self.damage[index]))
            return float('nan')
        self.w(text)
        return float(text) if '.' in text else int(text)

    def mark(self, key, value):
        self.truth[key] = value
        self.done[key] = self.size

    def data(self):
        return b''.join(self.parts)


def _esc(text):
    return xml.sax.saxutils.escape(text)


class Writer:
    """One calculation writing its vasprun.xml."""

    def __init__(self, spec, fill=None, damage=None):
        self.spec = spec
        self.fill = fill
        self.rnd = Data(spec['data_seed'])
        self.doc = Doc(damage)
        self.blocks = {}
        self.ind = 0

    # ------------------------------------------------------------------ primitives
    def line(self, text):
        self.doc.w(' ' * self.ind + text + '\n')

    def begin(self, tag, attrs=''):
        self.line(f'<{tag}{attrs}>' if not attrs else f'<{tag} {attrs} >' if tag in ('varray', 'structure', 'array')
                  else f'<{tag} {attrs}>')
        self.ind += 1

    def end(self, tag):
        self.ind -= 1
        self.line(f'</{tag}>')

    def row(self, tag, values, fmt, attrs=''):
        """<tag> numbers </tag>, returning the numbers as printed."""
        doc = self.doc
        doc.w(' ' * self.ind + f'<{tag}{attrs}>')
        out = []
        for value in values:
            out.append(doc.field(fmt % value))
        doc.w(f' </{tag}>\n')
        return out

    def item(self, name, value, kind='', tail=''):
        """<i name="X">value</i>"""
        doc = self.doc
        attrs = f'type="{kind}" name="{name}"' if kind else f'name="{name}"'
        doc.w(' ' * self.ind + f'<i {attrs}>')
        start = doc.size
        if kind in ('string', 'logical'):
            doc.w(_esc(value))
        else:
            value = doc.field(value)
        doc.items.append((start, doc.size - start))
        doc.w(f'{tail}</i>\n')
        return value

    def varray(self, name, rows, fmt='%16.8f'):
        self.begin('varray', f'name="{name}"')
        out = [self.row('v', row, fmt) for row in rows]
        self.end('varray')
        return np.array(out)

    def floats(self, *shape, low=-99.0, high=99.0):
        return np.array(self.rnd.nums(int(np.prod(shape)), low, high)).reshape(shape)

    # ------------------------------------------------------------------ sections
    def header(self):
        spec, doc = self.spec, self.doc
        self.line('<?xml version="1.0" encoding="ISO-8859-1"?>')
        self.begin('modeling')
        self.begin('generator')
        self.line('<i name="program" type="string">vasp </i>')
        self.line(f'<i name="version" type="string">{spec["version"]}  </i>')
        doc.mark(('version',), '.'.join(spec['version'].split('.')[:3]))
        self.line('<i name="subversion" type="string">(build Jun 30 2017 11:10:34) complex            parallel </i>')
        self.line('<i name="platform" type="string">LinuxIFC </i>')
        self.line('<i name="date" type="string">2018 12 06 </i>')
        self.line('<i name="time" type="string">10:24:47 </i>')
        self.end('generator')
        self.begin('incar')
        # Tags as the user gave them: same names as in the parameter section below, other values.
        if spec['decoys']:
            self.item('SYSTEM', 'decoy', 'string')
            self.item('NELM', '%6d' % 7, 'int')
            self.item('SIGMA', '%16.8f' % 77.0)
            self.item('NBANDS', '%6d' % 777, 'int')
        self.line('<i type="string" name="PREC">a</i>')
        for num, length in enumerate(spec['pad']):
            self.line(f'<v name="PAD{num}">{"x" * length}</v>')
        if self.fill is not None:
            self.line(f'<v name="FILL">{"x" * self.fill}</v>')
        self.end('incar')
        if spec['primitive']:
            self.structure('primitive_cell', self.floats(3, 3), self.floats(1, 3, low=0, high=1), None)

    def kpoints(self):
        spec, doc = self.spec, self.doc
        self.begin('kpoints')
        self.generation(spec['kpgen'], True)
        # Weights are always printed at full precision by VASP.
        kpts = self.varray('kpointlist', self.floats(spec['nkpts'], 3, low=-0.5, high=0.5))
        doc.mark(('kpoints',), kpts)
        weights = self.varray('weights', self.floats(spec['nkpts'], 1, low=0, high=1))
        doc.mark(('kpointsw',), weights[:, 0])
        self.end('kpoints')

    def generation(self, kind, main):
        if kind == 'none':
            return
        self.begin('generation', f'param="{kind}"')
        if kind == 'listgenerated':
            self.item('divisions', '%8d' % 20, 'int', ' ')
            for _ in range(2):
                self.row('v', self.floats(3, low=0, high=1), '%16.8f')
        else:
            divs = [self.rnd.rng.randint(1, 12) for _ in range(3)]
            divs = self.row('v', divs, '%9d', ' type="int" name="divisions"')
            if main:
                self.doc.mark(('kpointdiv',), np.array(divs))
            self.row('v', [0.0, 0.0, 0.0], '%16.8f', ' name="usershift"')
            for num in (1, 2, 3):
                self.row('v', self.floats(3, low=0, high=1), '%16.8f', f' name="genvec{num}"')
            self.row('v', self.floats(3, low=0, high=1), '%16.8f', ' name="shift"')
        self.end('generation')

    def parameter(self, key, name, value, kind=''):
        if kind == 'string':
            self.item(name, value, kind)
        else:
            value = self.item(name, '%6d' % value if kind == 'int' else '%16.8f' % value, kind)
        self.doc.mark(('param', key), value)

    def parameters(self):
        spec = self.spec
        sep = lambda name: self.begin('separator', f'name="{name}"')  # noqa: E731
        self.begin('parameters')
        sep('general')
        self.parameter('system', 'SYSTEM', spec['system'], 'string')
        self.item('LCOMPAT', ' F  ', 'logical')
        self.end('separator')
        sep('electronic')
        self.item('PREC', 'normal', 'string')
        self.item('ENMAX', '%16.8f' % 200)
        self.parameter('nbands', 'NBANDS', spec['nbands'], 'int')
        self.parameter('nelect', 'NELECT', self.rnd.num(1, 99))
        self.item('TURBO', '%6d' % 0, 'int')
        sep('electronic smearing')
        self.parameter('ismear', 'ISMEAR', self.rnd.rng.choice([-5, -1, 0, 1, 2]), 'int')
        self.parameter('sigma', 'SIGMA', self.rnd.num(0, 1))
        self.item('KSPACING', '%16.8f' % 0.5)
        self.end('separator')
        sep('electronic spin')
        self.parameter('ispin', 'ISPIN', spec['ispin'], 'int')
        self.item('LNONCOLLINEAR', ' T  ' if spec['ncl'] else ' F  ', 'logical')
        self.end('separator')
        sep('electronic convergence')
        self.parameter('nelm', 'NELM', spec['nelm'], 'int')
        self.item('NELMDL', '%6d' % -5, 'int')
        sep('electronic convergence detail')
        self.item('LDIAG', ' T  ', 'logical')
        self.end('separator')
        self.end('separator')
        self.end('separator')
        sep('ionic')
        self.parameter('nsw', 'NSW', spec['nsw'], 'int')
        self.item('IBRION', '%6d' % 2, 'int')
        self.end('separator')
        sep('symmetry')
        self.item('ISYM', '%6d' % 2, 'int')
        self.parameter('symprec', 'SYMPREC', self.rnd.num(0, 0.1))
        self.end('separator')
        sep('dos')
        self.item('NEDOS', '%6d' % spec['nedos'], 'int')
        self.end('separator')
        sep('response functions')
        self.item('NELM', '%6d' % 1, 'int')
        self.item('NELMHF', '%6d' % 1, 'int')
        self.end('separator')
        self.end('parameters')

    def atominfo(self):
        atoms = self.spec['atoms']
        kinds = list(dict.fromkeys(atoms))
        self.begin('atominfo')
        self.line(f'<atoms>{len(atoms):8d} </atoms>')
        self.line(f'<types>{len(kinds):8d} </types>')
        self.begin('array', 'name="atoms"')
        self.line('<dimension dim="1">ion</dimension>')
        self.line('<field type="string">element</field>')
        self.line('<field type="int">atomtype</field>')
        self.begin('set')
        for atom in atoms:
            self.line(f'<rc><c>{atom:<2s}</c><c>{kinds.index(atom) + 1:4d}</c></rc>')
        self.end('set')
        self.end('array')
        self.doc.mark(('species',), list(atoms))
        self.begin('array', 'name="atomtypes"')
        self.line('<dimension dim="1">type</dimension>')
        for kind, name in (('int', 'atomspertype'), ('string', 'element'), ('', 'mass'), ('', 'valence'),
                           ('string', 'pseudopotential')):
            self.line(f'<field type="{kind}">{name}</field>' if kind else f'<field>{name}</field>')
        self.begin('set')
        for kind in kinds:
            self.line(f'<rc><c>{atoms.count(kind):4d}</c><c>{kind:<2s}</c><c>{12.011:16.8f}</c><c>{4.0:16.8f}</c>'
                      f'<c>  PAW_PBE {kind} 08Apr2002               </c></rc>')
        self.end('set')
        self.end('array')
        self.end('atominfo')

    def structure(self, name, cell, pos, keys):
        self.begin('structure', f'name="{name}"' if name else '')
        self.begin('crystal')
        cell = self.varray('basis', cell)
        if keys:
            self.doc.mark(keys[0], cell)
        self.item('volume', '%16.8f' % 39.3, tail=' ')
        self.varray('rec_basis', self.floats(3, 3))
        self.end('crystal')
        pos = self.varray('positions', pos)
        if keys:
            self.doc.mark(keys[1], pos)
        self.end('structure')
        return cell, pos

    def energies(self, key, scf=True):
        self.begin('energy')
        if scf:
            for name in ('alphaZ', 'ewald', 'hartreedc', 'XCdc', 'pawpsdc', 'pawaedc', 'eentropy', 'bandstr', 'atom'):
                self.item(name, '%16.8f' % self.rnd.num(), tail=' ')
        for etype, name in ETYPES.items():
            self.doc.mark(key + (etype,), self.item(name, '%16.8f' % self.rnd.num(), tail=' '))
        self.end('energy')

    def eigen_block(self, inner, nkpts, nbands, width, fmt):
        """<eigenvalues> block for all spins: array[spin, kpoint, band, width]."""
        self.begin('array')
        self.line('<dimension dim="1">band</dimension>')
        self.line('<dimension dim="2">kpoint</dimension>')
        self.line('<dimension dim="3">spin</dimension>')
        for name in ['eigene', 'occ', 'ey', 'ez'][:width]:
            self.line(f'<field>{name}</field>')
        self.begin('set')
        out, clean = [], []
        self.blocks[inner] = clean
        for spin in range(self.spec['ispin']):
            self.begin('set', f'comment="spin {spin + 1}"')
            rows = []
            for kpt in range(nkpts):
                self.begin('set', f'comment="kpoint {kpt + 1}"')
                numbers = [self.floats(width) for _ in range(nbands)]
                clean.append(numbers)
                rows.append([self.row('r', row, fmt) for row in numbers])
                self.end('set')
            out.append(rows)
            self.end('set')
        self.end('set')
        self.end('array')
        return np.array(out)

    def specific_kpoints(self, nkpts):
        self.begin('kpoints')
        self.generation('Gamma', False)
        kpts = self.varray('kpointlist', self.floats(nkpts, 3, low=-0.5, high=0.5))
        weights = self.varray('weights', self.floats(nkpts, 1, low=0, high=1))
        self.end('kpoints')
        return kpts, weights[:, 0]

    def dos(self, name, comment, pdos):
        spec, doc = self.spec, self.doc
        self.begin('dos', f'comment="{comment}"' if comment else '')
        doc.mark((name, 'efermi'), self.item('efermi', '%16.8f' % self.rnd.num(), tail=' '))
        self.begin('total')
        self.begin('array')
        self.line('<dimension dim="1">gridpoints</dimension>')
        self.line('<dimension dim="2">spin</dimension>')
        for field in ('energy', 'total', 'integrated'):
            self.line(f'<field>{field}</field>')
        self.begin('set')
        energy = self.floats(spec['nedos'], low=-9, high=9)
        total = []
        for spin in range(spec['ispin']):
            self.begin('set', f'comment="spin {spin + 1}"')
            rows = []
            for point in range(spec['nedos']):
                rows.append(self.row('r', [energy[point]] + self.rnd.nums(2, 0, 99), '%10.4f '))
            self.end('set')
            total.append(rows)
        self.end('set')
        self.end('array')
        self.end('total')
        doc.mark((name, 'total'), np.array(total))
        if pdos:
            self.begin('partial')
            self.begin('array')
            self.line('<dimension dim="1">gridpoints</dimension>')
            self.line('<dimension dim="2">spin</dimension>')
            self.line('<dimension dim="3">ion</dimension>')
            self.line('<field> energy</field>')
            for field in LM[spec['lm']]:
                self.line(f'<field>{field:>6s}</field>')
            self.begin('set')
            spins = 4 if spec['ncl'] else spec['ispin']
            partial = []
            for ion in range(len(spec['atoms'])):
                self.begin('set', f'comment="ion {ion + 1}"')
                per_spin = []
                for spin in range(spins):
                    self.begin('set', f'comment="spin {spin + 1}"')
                    per_spin.append([self.row('r', [energy[point]] + self.rnd.nums(spec['lm'], 0, 9), '%10.4f ')
                                     for point in range(spec['nedos'])])
                    self.end('set')
                partial.append(per_spin)
                self.end('set')
            self.end('set')
            self.end('array')
            self.end('partial')
            # ion, spin, point, orbital -> spin, ion, point, orbital
            doc.mark((name, 'partial'), np.swapaxes(np.array(partial)[..., 1:], 0, 1))
        self.end('dos')

    def projected(self):
        spec, doc = self.spec, self.doc
        self.begin('projected')
        self.begin('eigenvalues')
        self.repeat_eigenvalues(self.blocks['eig'])
        self.end('eigenvalues')
        self.begin('array')
        for num, name in enumerate(('ion', 'band', 'kpoint', 'spin')):
            self.line(f'<dimension dim="{num + 1}">{name}</dimension>')
        for field in LM[spec['lm']]:
            self.line(f'<field>{field:>3s}</field>')
        self.begin('set')
        spins = 4 if spec['ncl'] else spec['ispin']
        out = []
        for spin in range(spins):
            self.begin('set', f'comment="spin{spin + 1}"')
            per_kpt = []
            for kpt in range(spec['nkpts']):
                self.begin('set', f'comment="kpoint {kpt + 1}"')
                per_band = []
                for band in range(spec['nbands']):
                    self.begin('set', f'comment="band {band + 1}"')
                    per_band.append([self.row('r', self.rnd.nums(spec['lm'], 0, 1), '%8.4f')
                                     for _ in spec['atoms']])
                    self.end('set')
                per_kpt.append(per_band)
                self.end('set')
            out.append(per_kpt)
            self.end('set')
        self.end('set')
        self.end('array')
        self.end('projected')
        # spin, kpoint, band, ion, orbital
        doc.mark(('projectors',), np.array(out))

    def repeat_eigenvalues(self, blocks):
        """VASP repeats the eigenvalues in front of the projections."""
        self.begin('array')
        for num, name in enumerate(('band', 'kpoint', 'spin')):
            self.line(f'<dimension dim="{num + 1}">{name}</dimension>')
        self.line('<field>eigene</field>')
        self.line('<field>occ</field>')
        self.begin('set')
        for spin in range(self.spec['ispin']):
            self.begin('set', f'comment="spin {spin + 1}"')
            for kpt in range(self.spec['nkpts']):
                self.begin('set', f'comment="kpoint {kpt + 1}"')
                for band in range(self.spec['nbands']):
                    self.row('r', blocks[spin * self.spec['nkpts'] + kpt][band], '%10.4f')
                self.end('set')
            self.end('set')
        self.end('set')
        self.end('array')

    def dielectric(self, comment, key):
        spec, doc = self.spec, self.doc
        self.begin('dielectricfunction', f'comment="{comment}"' if comment else '')
        energy = self.floats(spec['nedos'], low=0, high=20)
        for part in ('imag', 'real'):
            self.begin(part)
            self.begin('array')
            self.line('<dimension dim="1">gridpoints</dimension>')
            for field in ('energy', 'xx', 'yy', 'zz', 'xy', 'yz', 'zx'):
                self.line(f'<field>{field}</field>')
            self.begin('set')
            rows = [self.row('r', [energy[num]] + self.rnd.nums(6), '%10.4f ') for num in range(spec['nedos'])]
            self.end('set')
            self.end('array')
            self.end(part)
            if key:
                rows = np.array(rows)
                if part == 'imag':
                    doc.mark(('dielectric', 'energy'), rows[:, 0])
                doc.mark(('dielectric', part), rows[:, 1:])
        self.end('dielectricfunction')

    def calculation(self, step, cell, pos, last):
        spec, doc, opts = self.spec, self.doc, self.spec['with']
        natoms = len(spec['atoms'])
        self.begin('calculation')
        doc.done[('begin', step)] = doc.size
        for num in range(spec['steps'][step - 1]):
            self.begin('scstep')
            self.line('<time name="dav">    0.83    0.97</time>')
            self.line('<time name="total">    0.84    0.97</time>')
            self.energies(('sc', step, num))
            self.end('scstep')
        cell, pos = self.structure('', cell, pos, (('cell', step), ('pos', step)))
        doc.mark(('forces', step), self.varray('forces', self.floats(natoms, 3)))
        if 'stress' in opts:
            doc.mark(('stress', step), self.varray('stress', self.floats(3, 3)))
        if last and 'step_kpoints' in opts:
            self.specific_kpoints(2)
        if last and 'epsilon' in opts:
            doc.mark(('epsilon',), self.varray('epsilon', self.floats(3, 3)))
        if last and 'epsilon_ion' in opts:
            doc.mark(('epsilon_ion',), self.varray('epsilon_ion', self.floats(3, 3)))
        if last and 'born' in opts:
            self.begin('array', 'name="born_charges"')
            self.line('<dimension dim="1">ion</dimension>')
            born = []
            for _ in range(natoms):
                self.begin('set')
                born.append([self.row('v', self.floats(3), '%16.8f') for _ in range(3)])
                self.end('set')
            self.end('array')
            doc.mark(('born',), np.array(born))
        self.energies(('final', step), scf=False)
        if last:
            if 'dynmat' in opts:
                self.dynmat(natoms)
            nspec = 3
            if 'eig_specific' in opts:
                self.begin('eigenvalues', 'comment="interpolated"')
                kpts, weights = self.specific_kpoints(nspec)
                self.begin('eigenvalues')
                vals = self.eigen_block('eig_specific', nspec, spec['nbands'], 1, '%10.4f')
                self.end('eigenvalues')
                self.end('eigenvalues')
                doc.mark(('eig_specific',), vals[..., 0])
                doc.mark(('kpoints_specific',), kpts)
                doc.mark(('kpointsw_specific',), weights)
            elif 'velocities' in opts:
                self.begin('eigenvelocities', 'comment="interpolated"')
                kpts, weights = self.specific_kpoints(nspec)
                self.begin('eigenvalues')
                vals = self.eigen_block('vel', nspec, spec['nbands'], 4, '%10.4f')
                self.end('eigenvalues')
                self.end('eigenvelocities')
                doc.mark(('velocities',), vals)
                doc.mark(('kpoints_specific',), kpts)
                doc.mark(('kpointsw_specific',), weights)
            if 'dos_specific' in opts and 'dos' in opts:
                self.dos('dos_specific', 'interpolated', 'pdos' in opts)
        self.line('<time name="totalsc">   67.93   68.11</time>')
        if last:
            if 'eigenvalues' in opts:
                self.begin('eigenvalues')
                vals = self.eigen_block('eig', spec['nkpts'], spec['nbands'], 2, '%10.4f')
                self.end('eigenvalues')
                doc.mark(('eigenvalues',), vals[..., 0])
                doc.mark(('occupancies',), vals[..., 1])
            self.begin('separator', 'name="orbital magnetization"')
            self.row('v', [0.0, 0.0, 0.0], '%16.8f', ' name="MAGDIPOLOUT"')
            self.end('separator')
            if 'dielectric' in opts:
                self.dielectric('density-density' if 'current' in opts else '', True)
                if 'current' in opts:
                    self.dielectric('current-current', False)
            if 'dos' in opts:
                self.dos('dos', '', 'pdos' in opts)
            if 'projected' in opts and 'eigenvalues' in opts:
                self.projected()
        self.end('calculation')
        doc.mark(('calculation', step), True)
        return cell, pos

    def dynmat(self, natoms):
        doc = self.doc
        self.begin('dynmat')
        doc.mark(('hessian',), self.varray('hessian', self.floats(3 * natoms, 3 * natoms)))
        vals = self.row('v', self.floats(3 * natoms), '%16.8f', ' name="eigenvalues"')
        vecs = self.varray('eigenvectors', self.floats(3 * natoms, 3 * natoms))
        doc.mark(('dyn_eigenvalues',), np.array(vals))
        doc.mark(('dyn_eigenvectors',), vecs)
        self.end('dynmat')

    def run(self):
        spec, doc = self.spec, self.doc
        natoms = len(spec['atoms'])
        self.header()
        self.kpoints()
        self.parameters()
        self.atominfo()
        cell, pos = self.floats(3, 3), self.floats(natoms, 3, low=0, high=1)
        self.structure('initialpos', cell, pos, None)
        steps = len(spec['steps'])
        for step in range(1, steps + 1):
            if step > 1:
                pos = pos + self.floats(natoms, 3, low=-0.01, high=0.01)
                if spec['vary_cell']:
                    cell = cell + self.floats(3, 3, low=-0.01, high=0.01)
            self.calculation(step, cell, pos, step == steps)
        self.structure('finalpos', cell, pos, None)
        self.ind -= 1
        doc.w('</modeling>')
        doc.mark(('complete',), True)
        doc.w('\n')
        return doc


def build(spec, damage=None):
    """The document; with `align`, padded so that a read boundary falls inside a chosen number (or item, or anywhere).

    `damage`: number of a field -> what happened to it."""
    align = spec.get('align')
    if not align:
        return Writer(spec, None, damage).run()
    doc = Writer(spec, 0).run()
    if align.get('of') == 'byte':
        places = [(int(align['field'] * doc.size), 0)]
    else:
        places = doc.items if align.get('of') == 'item' else doc.texts
    start, length = places[int(align['field'] * len(places)) % len(places)]
    point = start + min(align['inside'], length)
    return Writer(spec, (CHUNK - point) % CHUNK, damage).run()


def check_spec(spec):
    """Reject calculations that VASP cannot run (they appear while a plan is being minimised)."""
    import re

    from dsim.vasp.oxml import ELEMENTS
    good = (spec['atoms'] and all(atom in ELEMENTS for atom in spec['atoms'])
            and spec['atoms'] == [a for kind in dict.fromkeys(spec['atoms']) for a in spec['atoms'] if a == kind]
            and spec['steps'] and all(isinstance(num, int) and num > 0 for num in spec['steps'])
            and spec['ispin'] in (1, 2) and not (spec['ncl'] and spec['ispin'] == 2) and spec['lm'] in LM
            and min(spec['nkpts'], spec['nbands'], spec['nedos']) > 0 and len(spec['system']) > 0
            and re.match(r'\d+\.\d+\.\d+', spec['version'])
            and spec['kpgen'] in ('Gamma', 'Monkhorst-Pack', 'listgenerated', 'none')
            and all(isinstance(num, int) and num >= 0 for num in spec['pad']))
    if not good:
        raise ValueError('not a calculation')


def parser_class(without_lxml=False):
    """The Xml class; with `without_lxml` as it is where lxml is not installed (this run only, runs are forked)."""
    if without_lxml:
        for name in [name for name in sys.modules if name.split('.')[0] == 'lxml']:
            del sys.modules[name]
        sys.modules['lxml'] = None
        sys.modules.pop('parsevasp.vasprun', None)
    return importlib.import_module('parsevasp.vasprun').Xml
