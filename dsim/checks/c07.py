"""C07: complete vasprun.xml files of simulated calculations, both parsing modes, every delivery."""
import io
import random

from dsim.core import PlanError
from dsim.simfs import SimFS, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe
from dsim.vasp import oxml, vxml

ID = 'C07'
RUNS = {'quick': 3500, 'thorough': 60000}
RULE = ('Seeded simulated calculations (sizes, spin, sections, text lengths) written as VASP writes them, then parsed '
        'several times in one process in seeded order, mode, destination and delivery (short and interrupted reads, '
        'buffer sizes, read boundaries placed inside chosen numbers); non-trivial: at least one parse compared.')
REAL = ['parsevasp.vasprun, parsevasp.base, parsevasp.utils from /repo', 'lxml (both parsers)', 'the file system '
        'below the scratch directory', 'CPython buffered I/O']
STUB = ['VASP (simulated calculation writing vasprun.xml)', 'raw reads of caller handles and of the size/truncation '
        'test (fault-injecting wrapper)']


def gen_parse(rng, ndocs):
    parse = {'doc': rng.randrange(ndocs), 'event': rng.chance(0.55), 'dest': rng.choice(['path', 'handle', 'bytes']),
             'kbb': rng.chance(0.25), 'all': rng.chance(0.85), 'ask': rng.randrange(1 << 20)}
    if parse['dest'] == 'handle':
        parse['delivery'] = delivery_plan(rng)
        if rng.chance(0.2):
            parse['faults'] = [{'site': 'read', 'nth': rng.randint(0, 12), 'kind': 'EINTR'}]
    return parse


def generate(rng, tier):
    docs = []
    for _ in range(rng.choice([1, 1, 2])):
        spec = vxml.gen_spec(rng, big=rng.chance(0.12))
        if rng.chance(0.45):
            spec['align'] = {'of': rng.choice(['number', 'item', 'item', 'byte']), 'field': rng.random(),
                             'inside': rng.choice([0, 0, 1, rng.randint(0, 17)])}
        docs.append(spec)
    plan = {'docs': docs, 'parses': [gen_parse(rng, len(docs)) for _ in range(rng.randint(2, 5))]}
    if rng.chance(0.08):
        plan['nolxml'] = True
    return plan


def label(parse):
    return f"{'event' if parse['event'] else 'whole'}-{parse['dest']}"


def execute(plan, ctx):
    fsys = SimFS(ctx.root)
    docs = []
    for num, spec in enumerate(plan['docs']):
        try:
            vxml.check_spec(spec)
            doc = vxml.build(spec)
        except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError) as exc:
            raise PlanError(str(exc)) from exc
        write_bytes(ctx.path(f'vasprun{num}.xml'), doc.data())
        docs.append(doc)
        ctx.simtime += 60.0 * sum(spec['steps'])
    fsys.install()
    if plan.get('nolxml'):
        ctx.fault('import:NO-LXML')
    parser = vxml.parser_class(plan.get('nolxml', False))
    try:
        for parse in plan['parses']:
            run_parse(ctx, fsys, parser, plan, docs, parse)
    finally:
        fsys.uninstall()
    for name, num in fsys.fired.items():
        ctx.fault(name, num)


def run_parse(ctx, fsys, xml_class, plan, docs, parse):
    if parse['doc'] >= len(docs):
        raise PlanError('no such document')
    doc, spec = docs[parse['doc']], plan['docs'][parse['doc']]
    path = ctx.path(f'vasprun{parse["doc"]}.xml')
    kwargs = {'event': parse['event'], 'k_before_band': parse['kbb'], 'extract_all': parse['all']}
    handle = None
    fsys.begin(parse.get('faults') or [], parse.get('delivery'))
    if parse['dest'] == 'path':
        kwargs['file_path'] = path
    elif parse['dest'] == 'handle':
        handle = open(path, 'rb')
        kwargs['file_handler'] = handle
    else:
        handle = io.BytesIO(doc.data())
        kwargs['file_handler'] = handle
    out = attempt(xml_class, **kwargs)
    fsys.end()
    what = f'{label(parse)} k_before_band={parse["kbb"]} extract_all={parse["all"]}'
    if not out.ok:
        ctx.fail('complete-file-rejected', f'{what}: {out.label()}: {describe(out.exc)}')
    rep = oxml.observe(out.value)
    exp = oxml.expected(doc, spec, parse['kbb'], parse['all'])
    loose = () if parse['all'] else tuple((name, 'all') for name in oxml.STEPWISE) + (('lattice', 'all'),)
    bad = oxml.mismatches(rep, exp, loose)
    ctx.log(label(parse), len(rep), sorted(map(str, exp))[:3])
    ctx.probe(label(parse))
    ctx.nontrivial = True
    if bad:
        key, have, want = bad[0]
        ctx.fail('wrong-value', f'{what}: {key}: reported {describe(have, 300)}, written {describe(want, 300)} '
                                f'({len(bad)} differences: {[item[0] for item in bad][:12]})')
    # Neither questions that cannot be answered nor the order of the questions change the answers.
    pick = parse.get('ask', 0)
    asked, refused = oxml.unsupported(out.value, pick)
    if refused.ok and refused.value is not None:
        ctx.fail('unsupported-query', f'{what}: {asked} gave {describe(refused.value, 300)}')
    again = oxml.observe(out.value, random.Random(pick))
    changed = [key for key in rep if key not in again or not oxml.equal(rep[key], again[key])]
    if changed or len(again) != len(rep):
        ctx.fail('answer-changed', f'{what}: after {asked}, asked in another order: {changed[:8]}: first '
                                   f'{[describe(rep[key], 200) for key in changed[:1]]}, then '
                                   f'{[describe(again.get(key), 200) for key in changed[:1]]}')
    if handle is not None:
        handle.close()
    check_fds(ctx, fsys, [], what)
