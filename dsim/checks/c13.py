"""C13: EIGENVAL, DOSCAR, CHGCAR and POTCAR of simulated calculations, complete, killed at any byte, still growing."""
import io

from dsim.core import PlanError
from dsim.simfs import SimFS, write_bytes
from dsim.util import check_fds, delivery_plan, describe
from dsim.vasp import tables, vtables

ID = 'C13'
RUNS = {'quick': 10000, 'thorough': 150000}
RULE = ('Seeded simulated calculations write the four files; each is read several times in a seeded order, complete or '
        'killed at a seeded byte (uniform, at line ends, inside numbers, at block boundaries), with zero-filled tails, '
        'short and interrupted reads, while growing, from a path or a handle; non-trivial: at least one parse was '
        'compared with the written values or a truncated file was read.')
REAL = ['parsevasp.eigenval, doscar, chgcar, potcar, base, utils from /repo', 'NumPy',
        'the file system below the scratch directory', 'CPython buffered and text I/O']
STUB = ['VASP (simulated calculation writing the files)', 'raw reads (fault-injecting wrapper)']


def gen_cut(rng):
    return rng.weighted([
        ({'kind': 'whole'}, 4), ({'kind': 'any', 'at': rng.random()}, 2),
        ({'kind': 'line', 'at': rng.random(), 'delta': rng.choice([0, -1, 1])}, 3),
        ({'kind': 'text', 'at': rng.random(), 'delta': rng.randint(0, 16)}, 3),
        ({'kind': 'place', 'at': rng.random(), 'delta': rng.choice([0, -1, 1, rng.randint(-80, 80)])}, 3),
        ({'kind': 'end', 'delta': -rng.choice([1, 2, rng.randint(1, 60), rng.randint(1, 400)])}, 3)])


def gen_parse(rng, num):
    parse = {'file': rng.randrange(num), 'cut': gen_cut(rng), 'dest': rng.choice(['path', 'path', 'handle', 'text'])}
    if parse['dest'] != 'text':
        if rng.chance(0.35):
            parse['delivery'] = delivery_plan(rng)
        if rng.chance(0.15):
            parse['grow'] = {'nth': rng.choice([0, 1, 2, rng.randint(0, 9)]), 'cut': gen_cut(rng)}
        elif rng.chance(0.1):
            parse['zeros'] = rng.choice([1, 7, 512, 4096])
        elif rng.chance(0.12):
            parse['cut'] = {'kind': 'whole'}
            parse['hole'] = {'at': rng.random(), 'size': rng.choice([1, 4, rng.randint(1, 90), rng.randint(1, 700), 512, 4096]),
                             'align': rng.choice([1, 1, 512])}
        if rng.chance(0.05):
            parse['eintr'] = rng.randint(0, 5)
    return parse


def generate(rng, tier):
    files = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        files.append(vtables.gen_variant(rng, rng.pick(files)) if files and rng.chance(0.4) else vtables.gen_spec(rng))
    return {'files': files, 'parses': [gen_parse(rng, len(files)) for _ in range(rng.randint(2, 8))]}


def offset(out, cut):
    kind = cut['kind']
    if kind == 'whole':
        return out.size
    if kind == 'any':
        at = int(cut['at'] * out.size)
    elif kind == 'line':
        data = out.data()
        ends = [pos + 1 for pos, byte in enumerate(data) if byte == 10]
        at = ends[int(cut['at'] * len(ends)) % len(ends)] + cut['delta']
    elif kind == 'text':
        pos, _ = out.texts[int(cut['at'] * len(out.texts)) % len(out.texts)]
        at = pos + cut['delta']
    elif kind == 'place':
        places = sorted(set(out.places.values())) or [out.size]
        at = places[int(cut['at'] * len(places)) % len(places)] + cut['delta']
    elif kind == 'end':
        at = out.size + cut['delta']
    else:
        raise PlanError('unknown cut')
    return max(0, min(out.size, at))


def execute(plan, ctx):
    fsys = SimFS(ctx.root)
    outs = []
    for spec in plan['files']:
        try:
            outs.append(vtables.build(spec))
        except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError) as exc:
            raise PlanError(str(exc)) from exc
        ctx.simtime += 60.0
    fsys.install()
    kept = []
    try:
        for parse in plan['parses']:
            kept.append(run_parse(ctx, fsys, plan, outs, parse))
        for spec, obj, before in filter(None, kept):
            if describe(tables.observe(spec, obj), 20000) != before:
                ctx.fail('changed-later', f'{spec["kind"]}: what was reported changed with later parses')
    finally:
        fsys.uninstall()
    for name, num in fsys.fired.items():
        ctx.fault(name, num)


def run_parse(ctx, fsys, plan, outs, parse):
    if parse['file'] >= len(outs):
        raise PlanError('no such file')
    spec, out = plan['files'][parse['file']], outs[parse['file']]
    data = out.data()
    try:
        low = offset(out, parse['cut'])
        grow = parse.get('grow')
        end = offset(out, grow['cut']) if grow else 0
    except (KeyError, IndexError, ValueError, TypeError) as exc:
        raise PlanError(str(exc)) from exc
    path = ctx.path(spec['kind'])
    content = data[:low] + b'\0' * (min(parse['zeros'], out.size - low) if parse.get('zeros') else 0)
    hole = None if spec.get('second') else parse.get('hole')
    if hole:
        if low < out.size or grow:
            raise PlanError('a hole is for complete files')
        try:
            first = int(hole['at'] * out.size) // hole['align'] * hole['align']
            last = min(out.size, first + hole['size'])
        except (KeyError, TypeError, ZeroDivisionError) as exc:
            raise PlanError(str(exc)) from exc
        if not first < last:
            raise PlanError('nothing lost')
        content = content[:first] + b'\0' * (last - first) + content[last:]
        ctx.fault('page:LOST')
        ctx.nontrivial = True
    write_bytes(path, content)
    state = {'high': low}

    def watch(site, idx):
        if site == 'read' and idx == grow['nth'] and state['high'] == low and end > low:
            with io.FileIO(path, 'a') as handle:
                handle.write(data[low:end])
            state['high'] = end
            ctx.fault('file:GROWS')

    handle = None
    fsys.begin([{'site': 'read', 'nth': parse['eintr'], 'kind': 'EINTR'}] if parse.get('eintr') is not None else [],
               parse.get('delivery'))
    if parse['dest'] == 'path':
        kwargs = {'file_path': path}
    elif parse['dest'] == 'handle':
        handle = open(path, 'r', encoding='utf8')
        kwargs = {'file_handler': handle}
    else:
        kwargs = {'file_handler': io.StringIO(content.decode('utf8', 'ignore'))}
    if grow:
        fsys.watch = watch
    start = fsys.bytes_read
    got = tables.parse(spec, **kwargs)
    seen = fsys.bytes_read - start
    fsys.watch = None
    fsys.end()
    high = state['high']
    what = f'{spec["kind"]} {parse["dest"]}, ended at byte {low} of {out.size}' + (f', grew to {high}' if high > low else '')
    if low < out.size:
        ctx.fault('vasp:KILLED')
        ctx.nontrivial = True
        if parse.get('zeros'):
            ctx.fault('tail:ZEROED')
    if not got.ok:
        ctx.probe('rejected')
        ctx.log(spec['kind'], low, 'rejected', got.label())
        if low >= out.size - 1 and not hole and not (parse.get('zeros') and low < out.size):
            ctx.fail('complete-file-rejected', f'{what}: {got.label()}: {describe(got.exc)}')
        if spec['kind'] == 'POTCAR' and low >= out.places['header'] and low == high and not hole:
            ctx.fail('complete-header-rejected', f'{what}: {got.label()}: {describe(got.exc)}')
        have = None
    else:
        have = tables.observe(spec, got.value)
        verdict = None
        for cut in [] if hole else sorted({low, high, seen if low <= seen <= high else high}):
            verdict = judge(spec, out, cut, have, what)
            if verdict is None:
                break
        if hole:
            verdict = judge_hole(tables.expected(spec, out), have, f'{what}, bytes {first} to {last} lost')
        ctx.nontrivial = True
        ctx.probe(spec['kind'])
        ctx.log(spec['kind'], low, 'reported', len(have))
        if verdict:
            ctx.fail(*verdict)
    if handle is not None:
        if handle.closed:
            ctx.fail('handle-closed', what)
        handle.close()
    check_fds(ctx, fsys, [], what)
    return (spec, got.value, describe(have, 20000)) if got.ok else None


def judge_hole(want, have, what):
    """With a part of the file gone, what is reported is what was written or nothing.

    Texts (and the coordinate kind, a text) are as they are in the file; RWIGS is given twice, in two units."""
    for key, value in have.items():
        if value is None or isinstance(value, str) or key not in want or key[1] in ('cartesian', 'RWIGS'):
            continue
        if not tables.equal(value, want[key]):
            return 'invented-value', f'{what}: {key}: reported {describe(value, 400)}, written {describe(want[key], 400)}'
    return None


def judge(spec, out, cut, have, what):
    # the number in which the file ends may have any value
    loose = int(any(pos < cut < pos + length for pos, length in out.texts))
    first = None
    for want in tables.allowed(spec, out, cut):
        bad = tables.mismatches(have, want)
        if bad and loose:
            bad = [] if len(bad) == 1 and not tables.mismatches(have, want, 1) else bad
        if not bad:
            return None
        first = first or bad
    key, got, want = first[0]
    kind = 'wrong-value' if cut >= out.size - 1 else 'invented-value'
    return kind, f'{what}: {key}: reported {describe(got, 400)}, written {describe(want, 400)} ({len(first)} differences)'
