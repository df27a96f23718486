"""Reading EIGENVAL, DOSCAR, CHGCAR and POTCAR: what the library says, and whether that is true."""
import numpy as np

from dsim.util import attempt
from dsim.vasp import vtables


def load(kind):
    if kind == 'EIGENVAL':
        from parsevasp.eigenval import Eigenval as cls
    elif kind == 'DOSCAR':
        from parsevasp.doscar import Doscar as cls
    elif kind == 'CHGCAR':
        from parsevasp.chgcar import Chgcar as cls
    else:
        from parsevasp.potcar import Potcar as cls
    return cls


def parse(spec, **kwargs):
    if spec['kind'] == 'DOSCAR':
        kwargs['non_collinear'] = spec['spin'] == 4
    return attempt(load(spec['kind']), **kwargs)


def observe(spec, obj):
    """Everything the getters report, as name -> value."""
    kind = spec['kind']
    out = {}
    if kind == 'EIGENVAL':
        out['eigenvalues'] = obj.get_eigenvalues()
        out['kpoints'] = obj.get_kpoints()
        for key, value in (obj.get_metadata() or {}).items():
            out['meta', key] = value
    elif kind == 'DOSCAR':
        dos = obj.get_dos()
        out['dos names'] = list(dos.dtype.names) if dos is not None else None
        for name in (dos.dtype.names if dos is not None else ()):
            out['dos', name] = dos[name]
        pdos = obj.get_pdos()
        if pdos is None or pdos.size == 0:
            out['pdos names'] = None
        else:
            out['pdos names'] = list(pdos.dtype.names)
            for name in pdos.dtype.names:
                out['pdos', name] = pdos[name]
        for key, value in (obj.get_metadata() or {}).items():
            out['meta', key] = value
    elif kind == 'CHGCAR':
        out['total'] = obj.charge_density
        mag = obj.magnetization_density
        if isinstance(mag, dict):
            for key, value in mag.items():
                out['magnetization', key] = value
        else:
            out['magnetization'] = mag
    else:
        for key, value in obj.metadata.items():
            out['meta', key] = value
            out['attr', key] = getattr(obj, key.lower())
        out['symbol'], out['element'] = obj.symbol, obj.element
        if 'LEXCH' in obj.metadata:
            out['functional'], out['functional_class'] = obj.functional, obj.functional_class
    return out


def expected(spec, out):
    truth, kind = out.truth, spec['kind']
    want = {}
    if kind == 'EIGENVAL':
        want['eigenvalues'], want['kpoints'] = truth['eigenvalues'], truth['kpoints']
        want.update({('meta', key): value for key, value in truth['metadata'].items()})
    elif kind == 'DOSCAR':
        want['dos names'] = ['energy', 'total', 'integrated']
        want.update({('dos', key): value for key, value in truth['dos'].items()})
        want['pdos names'] = truth['pdos']['names'] if truth['pdos'] else None
        if truth['pdos']:
            want.update({('pdos', key): value for key, value in truth['pdos']['values'].items()})
        want.update({('meta', key): value for key, value in truth['metadata'].items()})
    elif kind == 'CHGCAR':
        want['total'] = truth['total']
        if isinstance(truth['magnetization'], dict):
            want.update({('magnetization', key): value for key, value in truth['magnetization'].items()})
        else:
            want['magnetization'] = truth['magnetization']
    else:
        for key, value in truth.items():
            want['meta', key] = value
            want['attr', key] = value
        want['symbol'] = truth['TITEL'].split()[1]
        want['element'] = want['symbol'].split('_')[0]
        want['functional'], want['functional_class'] = vtables.FUNCTIONALS[truth['LEXCH']]
    return want


def equal(have, want, loose=0):
    """Same value and shape; a NaN that is wanted stands for a damaged number.

    `loose`: how many elements may differ (the number in which the file ends)."""
    if want is None or have is None:
        return have is None and want is None
    if isinstance(want, str) or isinstance(have, str):
        return isinstance(have, str) and isinstance(want, str) and have == want
    if isinstance(want, bool) or isinstance(have, (bool, np.bool_)):
        return isinstance(have, (bool, np.bool_)) and isinstance(want, bool) and bool(have) == want
    if isinstance(want, list) and want and isinstance(want[0], str):
        return list(have) == want
    try:
        one, two = np.asarray(have, dtype=float), np.asarray(want, dtype=float)
    except (TypeError, ValueError):
        return False
    if one.shape != two.shape:
        return False
    differ = ~(np.isclose(one, two, rtol=1e-9, atol=1e-12) | np.isnan(one) & np.isnan(two))
    return int(differ.sum()) <= loose


def nan_inside(value):
    try:
        return bool(np.isnan(np.asarray(value, dtype=float)).any())
    except (TypeError, ValueError):
        return False


def mismatches(have, want, loose=0):
    bad = []
    for key in sorted(set(have) | set(want), key=str):
        if key not in have:
            bad.append((key, 'nothing', want[key]))
        elif key not in want:
            bad.append((key, have[key], 'nothing'))
        elif not equal(have[key], want[key], loose):
            bad.append((key, have[key], want[key]))
    return bad


def without(want, *names):
    return {key: value for key, value in want.items() if not (key in names or isinstance(key, tuple) and key[0] in names)}


def allowed(spec, out, cut):
    """The reports that are true of a file of which only the first `cut` bytes exist (None: any rejection)."""
    full = expected(spec, out)
    if cut >= out.size - 1:
        return [full]
    results = [full]
    kind = spec['kind']
    if kind == 'DOSCAR' and spec['pdos'] and out.places['last of dos'] < cut <= out.places['header of pdos']:
        # what is left is the complete file of a calculation without partial densities
        results.append({**without(full, 'pdos'), 'pdos names': None})
    if kind == 'CHGCAR' and spec['spin'] > 1:
        if cut < out.places['grid', 1]:
            results.append({'total': full['total'], 'magnetization': None})
        elif spec['spin'] == 4 and cut < out.places['grid', 2]:
            # what is left is the file of a collinear calculation
            results.append({'total': full['total'], 'magnetization': full['magnetization', 'x']})
    return results
