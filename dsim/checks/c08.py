"""C08: vasprun.xml of a calculation that was killed, is still running, or was started again."""
import io
import os

from dsim.core import PlanError
from dsim.simfs import SimFS, write_bytes
from dsim.util import attempt, check_fds, delivery_plan, describe
from dsim.vasp import oxml, vxml

ID = 'C08'
RUNS = {'quick': 10000, 'thorough': 100000}
RULE = ('Seeded simulated calculations killed at seeded points of their vasprun.xml (uniform, at and around the '
        'places where a quantity is completed, and inside numbers and tags), the tail lost or left as zeros; the file '
        'is parsed in both modes, from a path or a handle, while it may grow or be replaced by a new calculation '
        'between the storage calls of the parser; non-trivial: at least one incomplete file was parsed.')
REAL = ['parsevasp.vasprun, parsevasp.base, parsevasp.utils from /repo', 'lxml (both parsers, recovery mode)',
        'the file system below the scratch directory', 'CPython buffered I/O']
STUB = ['VASP (simulated calculation writing vasprun.xml, killed at a chosen offset)',
        'raw reads of caller handles and of the truncation test (wrapper that also lets the writer progress)']


def gen_cut(rng):
    return rng.weighted([
        ({'kind': 'any', 'at': rng.random()}, 3),
        ({'kind': 'mark', 'at': rng.random(), 'delta': rng.choice([0, 0, 1, -1, rng.randint(-60, 60)])}, 5),
        ({'kind': 'text', 'at': rng.random(), 'delta': rng.randint(0, 18)}, 3),
        ({'kind': 'end', 'delta': rng.randint(-40, 0)}, 1),
        ({'kind': 'whole'}, 1)])


def gen_parse(rng, ndocs):
    parse = {'doc': rng.randrange(ndocs), 'cut': gen_cut(rng), 'event': rng.chance(0.3),
             'dest': rng.choice(['path', 'path', 'handle', 'bytes']), 'kbb': rng.chance(0.2), 'all': rng.chance(0.8)}
    if rng.chance(0.12):
        parse['zeros'] = rng.choice([1, 7, 512, 4096, 100000])
    if parse['dest'] != 'bytes' and rng.chance(0.3):
        parse['then'] = {'site': rng.choice(['open', 'close', 'close', 'read']), 'nth': rng.choice([0, 0, 1, 2]),
                         'doc': parse['doc'] if rng.chance(0.6) else rng.randrange(ndocs), 'cut': gen_cut(rng)}
    if parse['dest'] == 'handle':
        parse['delivery'] = delivery_plan(rng)
    return parse


def generate(rng, tier):
    docs = [vxml.gen_spec(rng) for _ in range(rng.choice([1, 1, 2]))]
    plan = {'docs': docs, 'parses': [gen_parse(rng, len(docs)) for _ in range(rng.randint(2, 6))]}
    if rng.chance(0.06):
        plan['nolxml'] = True
    return plan


def offset(doc, cut):
    """Byte offset of a symbolic kill point."""
    kind = cut['kind']
    if kind == 'whole':
        return doc.size
    if kind == 'any':
        at = int(cut['at'] * doc.size)
    elif kind == 'mark':
        places = sorted(set(doc.done.values()))
        at = places[int(cut['at'] * len(places)) % len(places)] + cut['delta']
    elif kind == 'text':
        at = doc.texts[int(cut['at'] * len(doc.texts)) % len(doc.texts)][0] + cut['delta']
    elif kind == 'end':
        at = doc.size + cut['delta']
    else:
        raise PlanError('unknown cut')
    return max(0, min(doc.size, at))


def execute(plan, ctx):
    fsys = SimFS(ctx.root)
    docs = []
    for spec in plan['docs']:
        try:
            vxml.check_spec(spec)
            docs.append(vxml.build(spec))
        except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError) as exc:
            raise PlanError(str(exc)) from exc
        ctx.simtime += 60.0 * sum(spec['steps'])
    fsys.install()
    if plan.get('nolxml'):
        ctx.fault('import:NO-LXML')
    parser = vxml.parser_class(plan.get('nolxml', False))
    try:
        for parse in plan['parses']:
            run_parse(ctx, fsys, parser, plan, docs, parse)
    finally:
        fsys.uninstall()
    for name, num in fsys.fired.items():
        ctx.fault(name, num)


def run_parse(ctx, fsys, xml_class, plan, docs, parse):
    then = parse.get('then')
    if max([parse['doc']] + ([then['doc']] if then else [])) >= len(docs):
        raise PlanError('no such document')
    doc = docs[parse['doc']]
    path = ctx.path('vasprun.xml')
    low = offset(doc, parse['cut'])
    content = doc.data()[:low] + b'\0' * (min(parse['zeros'], doc.size - low) if parse.get('zeros') else 0)
    write_bytes(path, content)
    # (document, lowest and highest offset at which the file may have been seen to end)
    views = [[parse['doc'], low, low]]
    state = {'acted': False}
    try:
        end = offset(docs[then['doc']], then['cut']) if then else 0
    except (KeyError, IndexError, ValueError, TypeError) as exc:
        raise PlanError(str(exc)) from exc

    def watch(site, idx):
        if state['acted'] or site != then['site'] or idx != then['nth']:
            return
        state['acted'] = True
        if then['doc'] == parse['doc'] and end >= low and not parse.get('zeros'):
            with io.FileIO(path, 'a') as handle:
                handle.write(doc.data()[low:end])
            views[0][2] = end
            ctx.fault('file:GROWS')
        elif then['doc'] != parse['doc'] and parse['dest'] == 'path':
            # a new file under the same name: what is read from the old one after this moment is still the old one
            write_bytes(path + '.new', docs[then['doc']].data()[:end])
            os.replace(path + '.new', path)
            views.append([then['doc'], end, end])
            ctx.fault('file:REPLACED')

    kwargs = {'event': parse['event'], 'k_before_band': parse['kbb'], 'extract_all': parse['all']}
    handle = None
    fsys.begin([], parse.get('delivery'))
    if parse['dest'] == 'path':
        kwargs['file_path'] = path
    elif parse['dest'] == 'handle':
        handle = kwargs['file_handler'] = open(path, 'rb')
    else:
        handle = kwargs['file_handler'] = io.BytesIO(content)
    if then:
        fsys.watch = watch
        fsys.begin([], parse.get('delivery'))
    out = attempt(xml_class, **kwargs)
    fsys.watch = None
    fsys.end()
    whole = doc.done[('complete',)]
    what = (f'{"event" if parse["event"] else "whole"}-{parse["dest"]} all={parse["all"]}, ended at byte {low} of '
            f'{doc.size}')
    if low < whole:
        ctx.nontrivial = True
        ctx.fault('vasp:KILLED')
        if parse.get('zeros'):
            ctx.fault('tail:ZEROED')
    always_whole = content == doc.data()[:low] and low >= whole and views == [[parse['doc'], low, low]]
    if not out.ok:
        ctx.log('rejected', out.label())
        ctx.probe('rejected')
        if always_whole and doc.size > 1024:
            ctx.fail('complete-file-rejected', f'{what}: {out.label()}: {describe(out.exc)}')
    else:
        verdicts = []
        for number, first, last in views:
            seen, spec = docs[number], plan['docs'][number]
            complete_at = seen.done[('complete',)]
            rep = oxml.observe(out.value)
            if last < complete_at and rep[('truncated',)] is not True:
                verdicts.append(('not-flagged', f'{what}: a truncated file is reported as complete'))
                continue
            if always_whole and rep[('truncated',)] is not False and seen.size > 1024:
                verdicts.append(('complete-file-flagged', f'{what}: a complete file is flagged as truncated'))
                continue
            bad = oxml.partial_mismatches(rep, seen, spec, first, last, parse['kbb'], parse['all'])
            if bad:
                key, have, want = bad[0]
                verdicts.append(('invented-value', f'{what}: {key}: reported {describe(have, 250)}, written '
                                 f'{describe(want, 250)} ({len(bad)} differences: {[item[0] for item in bad][:12]})'))
                continue
            ctx.log('reported', sum(not oxml.missing(value) for value in rep.values()))
            ctx.probe('reported')
            verdicts = []
            break
        if verdicts:
            ctx.fail(*verdicts[0])
    if handle is not None:
        handle.close()
    check_fds(ctx, fsys, [], what)
