"""A monitor that keeps re-reading the OUTCAR of a job queue: runs are killed, lose their disk and are started again."""
import io

import numpy as np

from dsim.core import PlanError
from dsim.simfs import SimFS, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe
from dsim.vasp import voutcar


def gen_cut(rng):
    return rng.weighted([
        ({'kind': 'time', 'at': rng.random()}, 3),
        ({'kind': 'any', 'at': rng.random()}, 1),
        ({'kind': 'fact', 'at': rng.random(), 'delta': rng.choice([0, 0, -1, -2, rng.randint(-90, 90)])}, 4),
        ({'kind': 'text', 'at': rng.random(), 'delta': rng.randint(0, 12)}, 2),
        ({'kind': 'line', 'at': rng.random(), 'delta': rng.choice([0, -1])}, 2),
        ({'kind': 'end', 'delta': rng.choice([-1, -rng.randint(2, 60), -rng.randint(2, 1500)])}, 2),
        ({'kind': 'whole'}, 2)])


def gen_poll(rng):
    poll = {'cut': gen_cut(rng), 'dest': rng.choice(['path', 'path', 'handle'])}
    if rng.chance(0.35):
        poll['delivery'] = delivery_plan(rng)
    if rng.chance(0.12):
        poll['zeros'] = rng.choice([1, 7, 512, 4096, 100000])
    elif rng.chance(0.2):
        poll['grow'] = {'nth': rng.choice([0, 1, 2, rng.randint(0, 30)]), 'cut': gen_cut(rng)}
    if rng.chance(0.05):
        poll['eintr'] = rng.randint(0, 6)
    return poll


def generate(rng, tables):
    jobs = []
    for _ in range(rng.weighted([(1, 5), (2, 2), (3, 1)])):
        jobs.append({'spec': voutcar.gen_spec(rng, tables), 'polls': [gen_poll(rng) for _ in range(rng.randint(1, 7))]})
    return {'jobs': jobs, 'interleave': rng.randrange(1 << 30) if rng.chance(0.3) else None}


def offset(log, cut, buf):
    kind = cut['kind']
    if kind == 'whole':
        return log.size
    if kind == 'time':
        at = log.on_disk(cut['at'], buf)
    elif kind == 'any':
        at = int(cut['at'] * log.size)
    elif kind == 'fact':
        at = log.facts[int(cut['at'] * len(log.facts)) % len(log.facts)][0] + cut['delta']
    elif kind == 'text':
        at = log.texts[int(cut['at'] * len(log.texts)) % len(log.texts)][0] + cut['delta']
    elif kind == 'line':
        at = log.ends[int(cut['at'] * len(log.ends)) % len(log.ends)] + cut['delta']
    elif kind == 'end':
        at = log.size + cut['delta']
    else:
        raise PlanError('unknown cut')
    return max(0, min(log.size, at))


def execute(plan, ctx, judge):
    from parsevasp.outcar import Outcar
    fsys = SimFS(ctx.root)
    jobs = []
    for num, job in enumerate(plan['jobs']):
        try:
            log = voutcar.build(job['spec'])
            # The polls of one job happen in the order in which its output grows.
            polls = sorted(job['polls'], key=lambda poll: offset(log, poll['cut'], job['spec']['buf']))
        except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError) as exc:
            raise PlanError(str(exc)) from exc
        jobs.append((num, job, log, polls))
        ctx.simtime += log.time
    order = []
    if plan.get('interleave') is not None:
        # several jobs are watched at the same time
        import random
        rnd = random.Random(plan['interleave'])
        left = {num: list(polls) for num, _, _, polls in jobs}
        while any(left.values()):
            num = rnd.choice(sorted(key for key, polls in left.items() if polls))
            order.append((num, left[num].pop(0)))
    else:
        order = [(num, poll) for num, _, _, polls in jobs for poll in polls]
    fsys.install()
    kept = []
    try:
        for num, poll in order:
            _, job, log, _ = jobs[num]
            path = ctx.path(f'OUTCAR.{num}' if plan.get('interleave') is not None else 'OUTCAR')
            kept.append(run_poll(ctx, fsys, Outcar, job['spec'], log, poll, path, judge))
        # What was reported earlier must not change when other files are parsed.
        for parser, before, what in filter(None, kept):
            after = snapshot(parser)
            if repr(after) != before:
                ctx.fail('changed-later', f'{what}: was {before[:700]}, became {describe(after, 700)}')
    finally:
        fsys.uninstall()
    for name, count in fsys.fired.items():
        ctx.fault(name, count)


def snapshot(parser):
    return [parser.get_run_status(), parser.get_symmetry(), parser.get_magnetization(), parser.get_elastic_moduli(),
            parser.get_run_stats()]


def run_poll(ctx, fsys, outcar_class, spec, log, poll, path, judge):
    low = high = offset(log, poll['cut'], spec['buf'])
    data = log.data()
    content = data[:low] + b'\0' * (min(poll['zeros'], log.size - low) if poll.get('zeros') else 0)
    write_bytes(path, content)
    grow = poll.get('grow')
    state = {'high': low}
    try:
        end = offset(log, grow['cut'], spec['buf']) if grow else 0
    except (KeyError, IndexError, ValueError, TypeError) as exc:
        raise PlanError(str(exc)) from exc

    def watch(site, idx):
        if site != 'read' or idx != grow['nth'] or state['high'] != low:
            return
        if end > low:
            with io.FileIO(path, 'a') as handle:
                handle.write(data[low:end])
            state['high'] = end
            ctx.fault('file:GROWS')

    faults = [{'site': 'read', 'nth': poll['eintr'], 'kind': 'EINTR'}] if poll.get('eintr') is not None else []
    handle = None
    fsys.begin(faults, poll.get('delivery'))
    if poll['dest'] == 'handle':
        handle = open(path, 'r', encoding='utf8')
        kwargs = {'file_handler': handle}
    else:
        kwargs = {'file_path': path}
    if grow:
        fsys.watch = watch
    start = fsys.bytes_read
    out = attempt(outcar_class, **kwargs)
    seen = fsys.bytes_read - start
    fsys.watch = None
    fsys.end()
    high = state['high']
    what = f'{poll["dest"]}, ended at byte {low} of {log.size}' + (f' and grew to {high}' if high > low else '')
    if low < log.size:
        ctx.nontrivial = True
        ctx.fault('vasp:KILLED')
        if poll.get('zeros'):
            ctx.fault('tail:ZEROED')
    cuts = sorted({low, high, seen if low <= seen <= high else high})
    verdicts = []
    for cut in cuts:
        for facts in voutcar.known(log, cut):
            verdict = judge(out, facts, spec)
            if verdict is None:
                verdicts = []
                break
            verdicts.append(verdict)
        else:
            continue
        break
    ctx.log(out.label(), low, describe(out.value.get_run_status()) if out.ok else '')
    ctx.probe('parsed' if out.ok else 'rejected')
    if verdicts:
        ctx.fail(verdicts[0][0], f'{what}: {verdicts[0][1]}')
    if handle is not None:
        if handle.closed:
            ctx.fail('handle-closed', f'{what}: the handle of the caller was closed')
        handle.close()
    check_fds(ctx, fsys, [], what)
    if out.ok:
        return out.value, repr(snapshot(out.value)), what
    return None


# ---------------------------------------------------------------------------------------------- judges
def judge_status(out, facts, _spec):
    want = voutcar.status_of(facts)
    if want is None:
        if out.ok:
            return 'not-rejected', f'no iteration was started but the run is reported as {out.value.get_run_status()}'
        return None
    if not out.ok:
        return 'rejected', f'{out.label()}: {describe(out.exc)}; expected {want}'
    have = out.value.get_run_status()
    for key, value in want.items():
        if key not in have:
            return 'missing-status', f'{key} is not reported'
        got = have[key]
        if key == 'last_iteration_index':
            got = list(got)
        if got != value or (value is None or isinstance(value, bool)) and got is not value:
            return 'wrong-status', f'{key} is {got!r}, the run says {value!r} (all: {have}, expected {want})'
    return None


def _same(have, want):
    if isinstance(want, dict):
        return isinstance(have, dict) and sorted(map(str, have)) == sorted(map(str, want)) and \
            all(key in have and _same(have[key], value) for key, value in want.items())
    if isinstance(want, list):
        return np.shape(have) == np.shape(want) and np.array_equal(np.asarray(have, dtype=float), np.asarray(want))
    return have == want


def judge_results(out, facts, spec):
    if voutcar.status_of(facts) is None:
        return None
    if not out.ok:
        return 'rejected', f'{out.label()}: {describe(out.exc)}'
    want = voutcar.collect(facts)
    symmetry = out.value.get_symmetry()
    for name, configs in want['symmetry'].items():
        for config, items in configs.items():
            have = symmetry[name][config]
            if have not in (items, want['optional'][name][config]):
                return 'wrong-symmetry', f'{name}/{config}: reported {have}, printed {items}'
    mag = out.value.get_magnetization()
    empty = {'site_moment': {}, 'total_magnetization': {}}
    for proj in ('x', 'y', 'z'):
        table = want['mag'].get(proj, empty)
        if not _same(mag['sphere'][proj], table):
            return 'wrong-moments', f'{proj}: reported {describe(mag["sphere"][proj], 500)}, printed {describe(table)}'
    full = mag['full_cell']
    if not (full in ({}, [], None) if want['full_cell'] is None else len(full) == len(want['full_cell']) and
            list(full) == want['full_cell']):
        return 'wrong-moments', f'full cell: reported {full}, printed {want["full_cell"]}'
    elastic = out.value.get_elastic_moduli()
    for kind in ('non_symmetrized', 'symmetrized', 'total'):
        table = want['elastic'].get(kind)
        have = elastic.get(kind)
        if (have is not None) if table is None else (have is None or not _same(have, table)):
            return 'wrong-elastic', f'{kind}: reported {describe(have, 500)}, printed {describe(table)}'
    stats = out.value.get_run_stats()
    for name, (values, final) in want['stats'].items():
        if name not in stats:
            if final:
                return 'missing-stats', f'{name} was printed as {values[0]} but is not reported'
        elif stats[name] not in values:
            return 'wrong-stats', f'{name}: reported {stats[name]}, printed {values}'
    extra = sorted(set(stats) - set(want['stats']))
    if extra:
        return 'invented-stats', f'{extra} were never printed'
    return None
