"""C14: output files in which numeric fields are unreadable: overflowed formats and corrupted storage."""
import io
import json

import numpy as np

from dsim.core import PlanError
from dsim.simfs import SimFS, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe
from dsim.vasp import monitor, oxml, tables, voutcar, vtables, vxml
from dsim.vasp.damage import DAMAGE

ID = 'C14'
RUNS = {'quick': 16000, 'thorough': 250000}
RULE = ('Seeded simulated calculations write vasprun.xml, OUTCAR, EIGENVAL, DOSCAR, CHGCAR or POTCAR in which one or more '
        'numeric fields are overwritten (asterisks over the number or the whole field, a damaged head, tail or inner '
        'character, junk, a field wider than its format), single, in runs or scattered; each is parsed several times in '
        'seeded mode and delivery, intact files in between; non-trivial: a damaged file was parsed.')
REAL = ['parsevasp.vasprun, outcar, eigenval, doscar, chgcar, potcar, base, utils from /repo', 'lxml (both parsers)', 'NumPy',
        'the file system below the scratch directory', 'CPython buffered and text I/O']
STUB = ['VASP (simulated calculation writing the files)', 'the disk (damage of fields while they are written, short reads)']
TARGETS = [('xml', 5), ('OUTCAR', 4), ('EIGENVAL', 2), ('DOSCAR', 2), ('CHGCAR', 2), ('POTCAR', 2)]


def gen_style(rng):
    return [rng.choice(DAMAGE), rng.random()]


def gen_damage(rng):
    damage = []
    for _ in range(rng.weighted([(1, 6), (2, 2), (3, 1)])):
        one = {'at': rng.random(), 'style': gen_style(rng)}
        if rng.chance(0.15):
            one['run'] = rng.randint(2, 6)
        damage.append(one)
    return damage


def gen_parse(rng, target):
    parse = {'dest': rng.choice(['path', 'path', 'handle', 'text']), 'intact': rng.chance(0.15)}
    if parse['dest'] != 'text' and rng.chance(0.25):
        parse['delivery'] = delivery_plan(rng)
    if target == 'xml':
        parse.update(event=rng.chance(0.5), kbb=rng.chance(0.2), all=rng.chance(0.85))
    return parse


def generate(rng, tier):
    target = rng.weighted(TARGETS)
    if target == 'xml':
        spec = vxml.gen_spec(rng)
    elif target == 'OUTCAR':
        spec = dict(voutcar.gen_spec(rng, rng.chance(0.7)), crash_before=False)
    else:
        spec = vtables.gen_spec(rng, target)
    return {'target': target, 'spec': spec, 'damage': gen_damage(rng),
            'parses': [gen_parse(rng, target) for _ in range(rng.randint(1, 4))]}


def build(target, spec, damage):
    if target == 'xml':
        vxml.check_spec(spec)
        return vxml.build(spec, damage)
    if target == 'OUTCAR':
        return voutcar.build(spec, damage)
    if target not in vtables.KINDS:
        raise PlanError('unknown file')
    return vtables.build(spec, damage)


def execute(plan, ctx):
    target, spec = plan['target'], plan['spec']
    try:
        clean = build(target, spec, {})
        total = len(clean.texts)
        damage = {}
        for one in plan['damage']:
            first = int(one['at'] * total) % total
            for index in range(first, min(total, first + one.get('run', 1))):
                damage[index] = one['style']
        if target == 'CHGCAR':
            # With two headers of a data set gone, what is left may look like another kind of calculation.
            headers = [index for index in sorted(damage) if clean.where[index][0] == 'grid' and clean.where[index][1] > 0]
            gone = {clean.where[index][1] for index in headers[:1]}
            damage = {index: style for index, style in damage.items()
                      if index not in headers or clean.where[index][1] in gone}
        hurt = build(target, spec, damage)
    except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError) as exc:
        raise PlanError(str(exc)) from exc
    ctx.simtime += 60.0
    fsys = SimFS(ctx.root)
    fsys.install()
    try:
        for parse in plan['parses']:
            run_parse(ctx, fsys, target, spec, clean if parse.get('intact') or not damage else hurt, parse, damage)
    finally:
        fsys.uninstall()
    for name, num in fsys.fired.items():
        ctx.fault(name, num)


def run_parse(ctx, fsys, target, spec, doc, parse, damage):
    data = doc.data()
    path = ctx.path(target)
    write_bytes(path, data)
    hurt = bool(doc.damage)
    handle = None
    fsys.begin([], parse.get('delivery'))
    if parse['dest'] == 'path':
        kwargs = {'file_path': path}
    elif parse['dest'] == 'handle':
        handle = open(path, 'rb') if target == 'xml' else open(path, 'r', encoding='utf8')
        kwargs = {'file_handler': handle}
    else:
        kwargs = {'file_handler': io.BytesIO(data) if target == 'xml' else io.StringIO(data.decode('utf8'))}
    if target == 'xml':
        from parsevasp.vasprun import Xml
        out = attempt(Xml, event=parse['event'], k_before_band=parse['kbb'], extract_all=parse['all'], **kwargs)
    elif target == 'OUTCAR':
        from parsevasp.outcar import Outcar
        out = attempt(Outcar, **kwargs)
    else:
        out = tables.parse(spec, **kwargs)
    fsys.end()
    what = f'{target} {json.dumps({key: parse[key] for key in parse if key != "delivery"}, sort_keys=True)}'
    if hurt:
        ctx.nontrivial = True
        for kind, _ in damage.values():
            ctx.fault(f'field:{kind.upper()}')
        what += f', damaged fields {damaged_text(data, doc, damage)}'
    ctx.log(target, hurt, out.label(), sorted(doc.damage), parse.get('event'))
    ctx.probe(f'{target} {"damaged" if hurt else "intact"} {"accepted" if out.ok else "rejected"}')
    if not out.ok:
        if not hurt:
            ctx.fail('intact-file-rejected', f'{what}: {out.label()}: {describe(out.exc)}')
        if isinstance(out.exc, SystemExit) and out.exc.code in (0, None):
            ctx.fail('quiet-rejection', f'{what}: exit with code {out.exc.code}')
    else:
        bad = {'xml': judge_xml, 'OUTCAR': judge_outcar}.get(target, judge_table)(spec, doc, out.value, parse)
        if bad:
            key, have, want = bad[0]
            ctx.fail(('invented-number ' if hurt else 'wrong-value ') + target,
                     f'{what}: {key}: reported {describe(have, 300)}, readable {describe(want, 300)} '
                     f'({len(bad)} differences: {[item[0] for item in bad][:8]})')
    if handle is not None:
        if handle.closed:
            ctx.fail('handle-closed', what)
        handle.close()
    check_fds(ctx, fsys, [], what)


def damaged_text(data, doc, damage):
    """Where it was hit, with what is around it."""
    places = []
    for index in sorted(damage)[:3]:
        pos = doc.texts[index][0]
        places.append(data[max(0, pos - 30):pos + 24].decode('latin1'))
    return describe(places, 300)


# ---------------------------------------------------------------------------------------------- judges
def damaged_value(value):
    try:
        return bool(np.isnan(np.asarray(value, dtype=float)).any())
    except (TypeError, ValueError):
        return False


def truthful(have, want):
    """Numbers that can be read, and NaN for those that cannot (or that stand next to one)."""
    if isinstance(want, dict):
        return isinstance(have, dict) and sorted(map(str, have)) == sorted(map(str, want)) and \
            all(key in have and truthful(have[key], value) for key, value in want.items())
    if isinstance(want, str) or want is None:
        return have == want
    try:
        one = np.array([np.nan if item is None else item for item in np.ravel(np.asarray(have, dtype=object))], dtype=float)
        two = np.ravel(np.asarray(want, dtype=float))
    except (TypeError, ValueError):
        return False
    return np.shape(have) == np.shape(want) and bool(np.all(np.isnan(one) | np.isclose(one, two, rtol=1e-9, atol=1e-12)))


def related(key, truth):
    """Whether a reported quantity stands in the same table as a damaged one, or cannot be arranged without it."""
    hurt = {name for name, value in truth.items() if damaged_value(value)}

    def any_of(*names):
        return any(name[:len(pre)] == pre for name in hurt for pre in names)

    name = key[0]
    sizes = any_of(('param', 'ispin'), ('param', 'nbands'))
    points = any_of(('kpoints',), ('kpointsw',))
    if name in ('eigenvalues', 'occupancies', 'projectors'):
        return sizes or points or any_of(('eigenvalues',), ('occupancies',), ('projectors',))
    if name in ('eigenvalues_specific', 'eigenvelocities', 'kpoints_specific', 'kpointsw_specific'):
        return sizes or any_of(('eig_specific',), ('velocities',), ('kpoints_specific',), ('kpointsw_specific',))
    if name in ('dos', 'dos_specific', 'fermi_level', 'fermi_level_specific'):
        return sizes or any_of((name.replace('fermi_level', 'dos'),))
    if name == 'dielectrics':
        return any_of(('dielectric',), ('epsilon',), ('epsilon_ion',))
    if name == 'dynmat':
        return any_of(('dyn_eigenvalues',), ('dyn_eigenvectors',))
    if name.startswith('energies'):
        return any_of(('sc',), ('final',))
    if name == 'param':
        return False
    return False


def judge_xml(spec, doc, obj, parse):
    rep = oxml.observe(obj)
    exp = oxml.expected(doc, spec, parse['kbb'], parse['all'])
    loose = () if parse['all'] else tuple((name, 'all') for name in oxml.STEPWISE) + (('lattice', 'all'),)
    if not doc.damage:
        return oxml.mismatches(rep, exp, loose)
    bad = []
    for key, want in exp.items():
        if any(key[:len(pre)] == pre for pre in loose):
            continue
        have = rep.get(key)
        hurt = damaged_value(want)
        if oxml.missing(have):
            if not hurt and not related(key, doc.truth):
                bad.append((key, have, want))
        elif hurt:
            if not truthful_marked(have, want):
                bad.append((key, have, want))
        elif not oxml.equal(have, want) and not (related(key, doc.truth) and not isinstance(want, str)
                                                 and truthful(have, want)):
            bad.append((key, have, want))
    extra = oxml.mismatches({key: value for key, value in rep.items() if key not in exp}, {}, loose)
    return bad + [item for item in extra if not listed_twice(item[0], item[1], exp)]


def listed_twice(key, value, exp):
    """A single ionic step may be listed as both the initial and the last one."""
    if '2' not in key or 'all' not in key:
        return False
    first = tuple('1' if part == '2' else part for part in key)
    return key[:2] + ('3',) not in exp and first in exp and truthful_marked(value, exp[first])


def truthful_marked(have, want):
    """As `truthful`, and the unreadable ones are marked."""
    if have is None:
        return True
    if isinstance(want, dict):
        return isinstance(have, dict) and sorted(map(str, have)) == sorted(map(str, want)) and \
            all(truthful_marked(have.get(key), value) for key, value in want.items())
    if not truthful(have, want):
        return False
    one = np.array([np.nan if item is None else item for item in np.ravel(np.asarray(have, dtype=object))], dtype=float)
    two = np.ravel(np.asarray(want, dtype=float))
    return bool(np.all(np.isnan(one[np.isnan(two)])))


def judge_table(spec, out, obj, _parse):
    have, want = tables.observe(spec, obj), tables.expected(spec, out)
    bad = []
    for key in sorted(set(have) | set(want), key=str):
        got, written = have.get(key), want.get(key)
        if got is None and key != 'total' and ('magnetization' in key) and \
                any(what[0] == 'grid' and what[1] > 0 for what in out.hit):
            continue  # not announced any more
        if key not in want:
            bad.append((key, got, 'nothing'))
        elif damaged_value(written):
            if not truthful_marked(got, written):
                bad.append((key, got, written))
        elif not tables.equal(got, written):
            bad.append((key, got, written))
    return bad


def judge_outcar(_spec, log, obj, _parse):
    bad = []

    def must(key, have, want, exact=False):
        if damaged_value(want) or isinstance(want, dict) and any(map(damaged_deep, want.values())):
            if have not in ({}, [], {'site_moment': {}, 'total_magnetization': {}}) and not truthful_marked(have, want):
                bad.append((key, have, want))
        elif have != want if exact else not truthful_equal(have, want):
            bad.append((key, have, want))

    facts = log.facts
    params = dict(value for _, kind, value in facts if kind == 'param')
    iterations = [value for _, kind, value in facts if kind == 'iteration']
    status = obj.get_run_status()
    for name in ('nelm', 'nsw', 'nbands'):
        must(name, status[name], params[name])
    last = status['last_iteration_index']
    must('last_iteration_index', last, list(iterations[-1]))
    if not any(damaged_value(value) for value in iterations) and not any(map(damaged_value, params.values())):
        want = voutcar.status_of(facts)
        for name, value in want.items():
            if name not in ('nelm', 'nsw', 'nbands', 'last_iteration_index'):
                must(name, status[name], value, True)
    want = voutcar.collect(facts)
    symmetry = obj.get_symmetry()
    for name, configs in want['symmetry'].items():
        for config, items in configs.items():
            have = symmetry[name][config]
            others = want['optional'][name][config]
            if name == 'num_space_group_operations':
                if not (truthful_marked(have, items) or truthful_marked(have, others)):
                    bad.append((f'{name}/{config}', have, items))
            elif have not in (items, others):
                bad.append((f'{name}/{config}', have, items))
    mag = obj.get_magnetization()
    empty = {'site_moment': {}, 'total_magnetization': {}}
    for proj in ('x', 'y', 'z'):
        must(f'moments {proj}', mag['sphere'][proj], want['mag'].get(proj, empty))
    if want['full_cell'] is not None:
        must('full cell', mag['full_cell'], want['full_cell'])
    elastic = obj.get_elastic_moduli()
    for kind in ('non_symmetrized', 'symmetrized', 'total'):
        have, table = elastic.get(kind), want['elastic'].get(kind)
        if table is None or have is None:
            if have is not None or table is not None and not damaged_value(table):
                bad.append((f'elastic {kind}', have, table))
        else:
            must(f'elastic {kind}', np.asarray(have).tolist(), table)
    stats = obj.get_run_stats()
    for name, (values, final) in want['stats'].items():
        have = stats.get(name)
        if final and values[0] is not None and not damaged_value(values[0]):
            if have is None or have != values[0]:
                bad.append((name, have, values[0]))
        elif have is not None and have == have and have not in values:
            bad.append((name, have, values))
    bad += [(name, value, 'nothing') for name, value in stats.items() if name not in want['stats']]
    return bad


def damaged_deep(value):
    if isinstance(value, dict):
        return any(map(damaged_deep, value.values()))
    return damaged_value(value)


def truthful_equal(have, want):
    if isinstance(want, dict):
        return isinstance(have, dict) and sorted(map(str, have)) == sorted(map(str, want)) and \
            all(key in have and truthful_equal(have[key], value) for key, value in want.items())
    if have is None or want is None:
        return have is None and want is None
    return np.shape(have) == np.shape(want) and bool(np.array_equal(np.asarray(have), np.asarray(want)))
