"""What an Xml object reports, and what it has to report for a simulated calculation.

A report is a flat dict: key -> value. Values are numbers, strings, numpy arrays, lists, None (reported as
missing) or Raised (the getter refused).
"""
from functools import partial

import numpy as np

from dsim.util import attempt

ELEMENTS = [
    'X', 'H', 'He', 'Li', 'Be', 'B', 'C', 'N', 'O', 'F', 'Ne', 'Na', 'Mg', 'Al', 'Si', 'P', 'S', 'Cl', 'Ar', 'K', 'Ca',
    'Sc', 'Ti', 'V', 'Cr', 'Mn', 'Fe', 'Co', 'Ni', 'Cu', 'Zn', 'Ga', 'Ge', 'As', 'Se', 'Br', 'Kr', 'Rb', 'Sr', 'Y',
    'Zr', 'Nb', 'Mo', 'Tc', 'Ru', 'Rh', 'Pd', 'Ag', 'Cd', 'In', 'Sn', 'Sb', 'Te', 'I', 'Xe', 'Cs', 'Ba', 'La', 'Ce',
    'Pr', 'Nd', 'Pm', 'Sm', 'Eu', 'Gd', 'Tb', 'Dy', 'Ho', 'Er', 'Tm', 'Yb', 'Lu', 'Hf', 'Ta', 'W', 'Re', 'Os', 'Ir',
    'Pt', 'Au', 'Hg', 'Tl', 'Pb', 'Bi', 'Po', 'At', 'Rn', 'Fr', 'Ra', 'Ac', 'Th', 'Pa', 'U']
ETYPES = ['energy_extrapolated', 'energy_free', 'energy_no_entropy']
STATUS = ['initial', 'last', 'all']
PARAMS = ['symprec', 'ismear', 'sigma', 'ispin', 'nbands', 'nelect', 'system', 'nelm', 'nsw']
STEPWISE = {'cell': 'get_unitcell', 'pos': 'get_positions', 'forces': 'get_forces', 'stress': 'get_stress'}


class Raised:
    """A getter that raised instead of answering."""

    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return f'Raised({type(self.exc).__name__}: {self.exc})'


def _call(func, *args, **kwargs):
    out = attempt(func, *args, **kwargs)
    if out.exc is not None:
        if isinstance(out.exc, (KeyboardInterrupt, MemoryError)):
            raise out.exc
        return Raised(out.exc)
    return out.value


def _flatten(rep, key, value):
    if isinstance(value, dict):
        rep[key] = sorted(map(str, value))
        for name, item in value.items():
            _flatten(rep, key + (str(name),), item)
    else:
        rep[key] = value


def questions(xml):
    """Everything the public interface can be asked: (key, query) pairs."""
    jobs = [(('version',), xml.get_version), (('params',), xml.get_parameters)]
    jobs += [((name,), getattr(xml, 'get_' + name)) for name in (
        'species', 'kpoints', 'kpointsw', 'eigenvalues', 'occupancies', 'eigenvalues_specific', 'eigenvelocities',
        'kpoints_specific', 'kpointsw_specific', 'dos', 'dos_specific', 'projectors', 'dielectrics', 'hessian',
        'dynmat', 'born', 'fermi_level', 'fermi_level_specific', 'epsilon', 'epsilon_ion')]
    for name, getter in list(STEPWISE.items()) + [('lattice', 'get_lattice')]:
        jobs += [((name, status), partial(getattr(xml, getter), status)) for status in STATUS]
    for status in STATUS:
        for nosc in (True, False):
            jobs.append((('energies', status, nosc), partial(xml.get_energies, status, etype=list(ETYPES), nosc=nosc)))
    jobs += [(('energies1', etype), partial(xml.get_energies, 'last', etype=[etype])) for etype in ETYPES]
    jobs.append((('energies0',), partial(xml.get_energies, 'last')))
    return jobs + [(('whole',), xml.get_dict)]


def observe(xml, order=None):
    """Everything the public interface reports, asked in the given order (a random.Random or None)."""
    jobs = questions(xml)
    if order is not None:
        order.shuffle(jobs)
    rep = {('truncated',): xml.truncated}
    for key, query in jobs:
        value = _call(query)
        if key == ('params',):
            for name in PARAMS:
                rep[('param', name)] = value if isinstance(value, Raised) or value is None else value.get(name)
        elif key == ('version',):
            rep[key] = value
        elif key == ('whole',):
            rep[('kpointdiv',)] = value if isinstance(value, Raised) else value['lattice'].get('kpointdiv')
        else:
            _flatten(rep, key, value)
    return rep


def unsupported(xml, pick):
    """A query that cannot be answered: (what, outcome)."""
    name = (list(STEPWISE.values()) + ['get_lattice', 'get_energies'])[pick % 6]
    word = ['first', 'LAST', '', None, 'al', 1, ['last'], 'lastall'][pick // 6 % 8]
    if name == 'get_energies' and pick // 48 % 2:
        etype = [['energy'], 'energy_free', ('energy_free',), [ETYPES[0], 'energy_total'], [None], ['']][pick // 96 % 6]
        return f'get_energies(last, etype={etype!r})', attempt(xml.get_energies, 'last', etype=etype)
    return f'{name}({word!r})', attempt(getattr(xml, name), word)


def missing(value):
    return value is None or isinstance(value, Raised)


def equal(one, two):
    """Same value, type of container ignored, numbers exact."""
    if isinstance(one, Raised) or isinstance(two, Raised):
        return isinstance(one, Raised) and isinstance(two, Raised)
    if one is None or two is None:
        return one is None and two is None
    if isinstance(one, str) or isinstance(two, str):
        return isinstance(one, str) and isinstance(two, str) and one.strip() == two.strip()
    try:
        left, right = np.asarray(one), np.asarray(two)
        if left.dtype == object or right.dtype == object:
            return False
        return left.shape == right.shape and bool(np.array_equal(left, right, equal_nan=left.dtype.kind == 'f'
                                                                 and right.dtype.kind == 'f'))
    except (TypeError, ValueError):
        return False


def spins(ispin):
    return ['total'] if ispin == 1 else ['up', 'down']


def expected(doc, spec, k_before_band=False, extract_all=True):
    """The report of a complete file. Keys that are not listed must be reported as missing."""
    truth = doc.truth
    exp = {('truncated',): False, ('version',): truth[('version',)]}
    for name in PARAMS:
        exp[('param', name)] = truth[('param', name)]
    exp[('species',)] = np.array([ELEMENTS.index(sym) for sym in truth[('species',)]])
    exp[('kpoints',)] = truth[('kpoints',)]
    exp[('kpointsw',)] = truth[('kpointsw',)]
    if ('kpointdiv',) in truth:
        exp[('kpointdiv',)] = truth[('kpointdiv',)]

    def layout(values):
        # spin, kpoint, band[, x] -> documented band, kpoint unless asked otherwise
        return values if k_before_band else np.swapaxes(values, 1, 2)

    for key, name in (('eigenvalues', 'eigenvalues'), ('occupancies', 'occupancies'),
                      ('eig_specific', 'eigenvalues_specific'), ('velocities', 'eigenvelocities')):
        if (key,) in truth:
            values = layout(truth[(key,)])
            for num, spin in enumerate(spins(spec['ispin'])):
                exp[(name, spin)] = values[num]
    for name in ('kpoints_specific', 'kpointsw_specific', 'hessian', 'born', 'epsilon', 'epsilon_ion'):
        if (name,) in truth:
            exp[(name,)] = truth[(name,)]
    for name in ('epsilon', 'epsilon_ion'):
        if (name,) in truth:
            exp[('dielectrics', name)] = truth[(name,)]
    for part in ('energy', 'imag', 'real'):
        if ('dielectric', part) in truth:
            exp[('dielectrics', part)] = truth[('dielectric', part)]
    for part in ('eigenvalues', 'eigenvectors'):
        if (f'dyn_{part}',) in truth:
            exp[('dynmat', part)] = truth[(f'dyn_{part}',)]
    for name in ('dos', 'dos_specific'):
        if (name, 'total') in truth:
            total = truth[(name, 'total')]
            exp[(name, 'total', 'energy')] = total[0][:, 0]
            exp[(name, 'total', 'fermi_level')] = truth[(name, 'efermi')]
            exp[('fermi_level' if name == 'dos' else 'fermi_level_specific',)] = truth[(name, 'efermi')]
            for num, spin in enumerate(spins(spec['ispin'])):
                exp[(name, spin, 'total')] = total[num][:, 1]
                exp[(name, spin, 'integrated')] = total[num][:, 2]
                if (name, 'partial') in truth:
                    exp[(name, spin, 'partial')] = truth[(name, 'partial')][num]
    if ('projectors',) in truth:
        # spin, kpoint, band, ion, orbital -> ion, band, kpoint, orbital
        values = truth[('projectors',)]
        for num, spin in enumerate(spins(spec['ispin'])):
            order = (2, 0, 1, 3) if k_before_band else (2, 1, 0, 3)
            exp[('projectors', spin)] = np.transpose(values[num], order)
    steps = len(spec['steps'])
    for name in STEPWISE:
        if (name, 1) not in truth:
            continue
        exp[(name, 'initial')] = truth[(name, 1)]
        exp[(name, 'last')] = truth[(name, steps)]
        for step in range(1, steps + 1):
            exp[(name, 'all', str(step))] = truth[(name, step)]
    for status in STATUS:
        exp[('lattice', status, 'species')] = exp[('species',)]
        for name, key in (('cell', 'unitcell'), ('pos', 'positions')):
            for have in [key2 for key2 in exp if key2[:2] == (name, status)]:
                exp[('lattice', status, key) + have[2:]] = exp[have]
    for status, which in (('initial', [1]), ('last', [steps]), ('all', list(range(1, steps + 1)))):
        for nosc in (True, False):
            key = ('energies', status, nosc)
            exp.update(energies(truth, spec, key, which, ETYPES, nosc))
    for etype in ETYPES:
        exp.update(energies(truth, spec, ('energies1', etype), [steps], [etype], True))
    exp.update(energies(truth, spec, ('energies0',), [steps], ['energy_extrapolated'], True))
    return exp


def energies(truth, spec, key, which, etypes, nosc):
    exp = {}
    for etype in etypes:
        per_sc = []
        for step in which:
            values = [truth[('sc', step, num, etype)] for num in range(spec['steps'][step - 1])]
            per_sc += values[-1:] if nosc else values
        exp[key + (etype,)] = np.array(per_sc)
        exp[key + (etype + '_final',)] = np.array([truth[('final', step, etype)] for step in which])
    exp[key + ('electronic_steps',)] = np.array([1 if nosc else spec['steps'][step - 1] for step in which])
    return exp


def is_listing(key, value):
    """The list of keys of a dictionary (recorded by `_flatten`) is layout, not a value."""
    return isinstance(value, list) and all(isinstance(item, str) for item in value) and key != ('species',)


def mismatches(rep, exp, loose=()):
    """Differences between a report of a complete file and what it has to report."""
    out = []
    for key, value in exp.items():
        if any(key[:len(pre)] == pre for pre in loose):
            continue
        have = rep.get(key)
        if not equal(have, value):
            out.append((key, have, value))
    for key, value in rep.items():
        if key in exp or missing(value) or is_listing(key, value):
            continue
        if '2' in key and 'all' in key and key not in exp:
            # A single ionic step may be listed as both the initial and the last one
            first = tuple('1' if part == '2' else part for part in key)
            if key[:2] + ('3',) not in exp and first in exp and equal(value, exp[first]):
                continue
        if any(key[:len(pre)] == pre for pre in loose):
            continue
        out.append((key, value, None))
    return out


def partial_mismatches(rep, doc, spec, low, high, kbb, extract_all):
    """Differences between a report of a file that ended at an offset in [low, high] and what was written.

    Whatever is not missing has to equal what the calculation wrote; for the stepwise quantities `last` is the
    highest step that was written by then (or a later one), `all` lists each step under its own number.
    """
    full = expected(doc, spec, kbb, extract_all)
    steps = len(spec['steps'])
    alone = steps == 1 or high < doc.done[('begin', 2)]
    maybe_alone = alone or low < doc.done[('begin', 2)]
    out = []

    def reached(key):
        return max([step for step in range(1, steps + 1) if doc.done.get(key + (step,), 1 << 60) <= low] + [1])

    for key, value in rep.items():
        if missing(value) or is_listing(key, value) or key == ('truncated',):
            continue
        name, status = stepwise(key)
        if name and status == 'last':
            first = reached((name,))
            if not any(equal(value, doc.truth[(name, step)]) for step in range(first, steps + 1)
                       if (name, step) in doc.truth):
                out.append((key, value, f'step {first} or later'))
        elif name and status == 'all':
            step = key[-1]
            want = doc.truth.get((name, int(step))) if step.isdigit() else None
            if step == '2' and (alone or maybe_alone and not equal(value, want)):
                want = doc.truth.get((name, 1))
            if want is None and not extract_all and step == '2':
                want = doc.truth.get((name, 1))
            if not extract_all and not equal(value, doc.truth.get((name, int(step)))):
                if step not in ('1', '2') or not any(equal(value, doc.truth[(name, num)])
                                                     for num in range(1, steps + 1) if (name, num) in doc.truth):
                    out.append((key, value, want))
            elif extract_all and (want is None or not equal(value, want)):
                out.append((key, value, want))
        elif key[0] in ('energies', 'energies1', 'energies0'):
            if not any(equal(value, want) for want in energy_candidates(doc, spec, key, low)):
                out.append((key, value, 'energies of the steps completed'))
        elif key not in full or not equal(value, full[key]):
            out.append((key, value, full.get(key)))
    return out


def stepwise(key):
    if key[0] in STEPWISE:
        return key[0], key[1]
    if key[0] == 'lattice' and len(key) > 2 and key[2] in ('unitcell', 'positions'):
        return ('cell' if key[2] == 'unitcell' else 'pos'), key[1]
    return None, None


def energy_candidates(doc, spec, key, low):
    steps = len(spec['steps'])
    first = max([step for step in range(1, steps + 1)
                 if all(doc.done[('final', step, etype)] <= low for etype in ETYPES)] + [1])
    for last in range(first, steps + 1):
        if key[0] == 'energies':
            which = {'initial': [1], 'last': [last], 'all': list(range(1, last + 1))}[key[1]]
            exp = energies(doc.truth, spec, key[:3], which, ETYPES, key[2])
        elif key[0] == 'energies1':
            exp = energies(doc.truth, spec, key[:2], [last], [key[1]], True)
        else:
            exp = energies(doc.truth, spec, key[:1], [last], ['energy_extrapolated'], True)
        if key in exp:
            yield exp[key]
