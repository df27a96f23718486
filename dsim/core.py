"""Core of the simulator: plans, runs, isolation, search, minimisation, replay, evidence.

A *plan* is a JSON value generated from one integer seed. `check.execute(plan, ctx)` is a pure function of
the plan and of the code in /repo. Every run happens in a forked child of a process that has imported the
library and nothing else, so no run sees what another one left behind.
"""
import contextlib
import ctypes
import hashlib
import importlib
import io
import json
import os
import random
import resource
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DSIM_REPO', '/repo')
RUN_WALL = 60  # wall seconds of one run before it is examined for lack of progress
LINE_BUDGET = 4_000_000  # source lines of the library one run may execute (deterministic progress bound)


# What code raises that works on a value it did not expect
PLAIN = (LookupError, TypeError, ValueError, AttributeError, ArithmeticError, RuntimeError)


class Violation(BaseException):
    """The property is broken in this run (not an Exception: the library must not be able to swallow it)."""

    def __init__(self, kind, detail=''):
        super().__init__(f'{kind}: {detail}')
        self.kind = kind
        self.detail = detail


class PlanError(Exception):
    """The plan makes no sense (can only happen while minimising)."""


class Rng(random.Random):
    """Seeded generator; strings are hashed with sha512, so PYTHONHASHSEED has no influence."""

    def chance(self, prob):
        return self.random() < prob

    def pick(self, seq):
        return seq[self.randrange(len(seq))]

    def weighted(self, pairs):
        total = sum(weight for _, weight in pairs)
        point = self.random() * total
        for value, weight in pairs:
            point -= weight
            if point < 0:
                return value
        return pairs[-1][0]


class Ctx:
    """What one run records."""

    def __init__(self, root):
        self.root = root
        self.hash = hashlib.sha256()
        self.states = hashlib.sha256()
        self.log_lines = []
        self.counters = {}
        self.probes = {}
        self.simtime = 0.0
        self.nontrivial = False
        self.steps = 0
        self.keep_log = False

    def log(self, *parts):
        line = json.dumps(parts, sort_keys=True, default=repr)
        self.hash.update(line.encode())
        self.hash.update(b'\n')
        self.steps += 1
        if self.keep_log:
            self.log_lines.append(line[:2000])

    def probe(self, name, num=1):
        self.probes[name] = self.probes.get(name, 0) + num

    def fault(self, name, num=1):
        self.counters[name] = self.counters.get(name, 0) + num

    def fail(self, kind, detail=''):
        self.log('VIOLATION', kind)
        raise Violation(kind, str(detail)[:3000])

    def path(self, name):
        return os.path.join(self.root, name)


# ---------------------------------------------------------------------------------------------- library
def load_library():
    """Import the library from the working tree (never from a byte-code cache of another tree)."""
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    from dsim import sched
    sched.install_locks()
    import warnings
    warnings.simplefilter('ignore')
    import parsevasp  # noqa: F401
    for name in ('base', 'utils', 'constants', 'incar', 'poscar', 'kpoints', 'potcar', 'chgcar', 'doscar', 'eigenval',
                 'outcar', 'stream', 'vasprun'):
        mod = importlib.import_module('parsevasp.' + name)
        if not os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f'{mod.__name__} was imported from {mod.__file__}, not from {REPO}')


def load_check(prop):
    return importlib.import_module('dsim.checks.' + prop.lower())


# ---------------------------------------------------------------------------------------------- one run
class _Sink(io.TextIOBase):
    """Swallows what the library logs, counting lines."""

    def __init__(self):
        super().__init__()
        self.chars = 0

    def writable(self):
        return True

    def write(self, text):
        self.chars += len(text)
        return len(text)


def run_plan(check, plan, root, keep_log=False):
    """Execute one plan in this process. Returns a JSON-able result."""
    ctx = Ctx(root)
    ctx.keep_log = keep_log
    result = {'status': 'ok'}
    saved = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = _Sink()
    try:
        check.execute(plan, ctx)
    except Violation as exc:
        result = {'status': 'violation', 'kind': exc.kind, 'detail': exc.detail}
    except PlanError as exc:
        result = {'status': 'plan-error', 'detail': str(exc)}
    except PLAIN as exc:
        # Neither the library nor the judgement of what it returned may end like this: what it said makes no sense.
        last = traceback.extract_tb(exc.__traceback__)[-1]
        result = {'status': 'violation', 'kind': 'unexpected-report',
                  'detail': f'{type(exc).__name__}: {exc} at {os.path.basename(last.filename)}:{last.name}: '
                            + ''.join(traceback.format_exception(exc))[-2500:]}
    except BaseException as exc:  # pylint: disable=broad-except
        result = {'status': 'harness-error', 'detail': ''.join(traceback.format_exception(exc))[-4000:]}
    finally:
        sys.stdout, sys.stderr = saved
    result.update(hash=ctx.hash.hexdigest()[:20], faults=ctx.counters, probes=ctx.probes, simtime=ctx.simtime,
                  nontrivial=ctx.nontrivial, steps=ctx.steps)
    if keep_log:
        result['log'] = ctx.log_lines
    return result


def die_with_parent():
    """A run must not outlive the process that waits for it."""
    with contextlib.suppress(OSError, AttributeError):
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def _child(check, plan, root, wfd, keep_log, budget):
    try:
        os.setpgid(0, 0)
        die_with_parent()
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.makedirs(root, exist_ok=True)
        os.chdir(root)
        os.environ['TMPDIR'] = root
        tempfile.tempdir = None
        if budget:
            _install_budget(budget)
        result = run_plan(check, plan, root, keep_log)
        sys.settrace(None)
        data = json.dumps(result).encode()
    except BaseException as exc:  # pylint: disable=broad-except
        data = json.dumps({'status': 'harness-error', 'detail': repr(exc)}).encode()
    view = memoryview(data)
    while view:
        view = view[os.write(wfd, view):]
    os._exit(0)


def _install_budget(budget):
    """Count executed lines of the library and stop the run deterministically after `budget` of them."""
    prefix = os.path.realpath(REPO) + os.sep + 'parsevasp'
    left = [budget]

    def local(frame, event, _arg):
        if event == 'line':
            left[0] -= 1
            if left[0] < 0:
                raise Violation('no-progress', f'more than {budget} library lines executed in one run')
        return local

    def tracer(frame, _event, _arg):
        if frame.f_code.co_filename.startswith(prefix):
            return local
        return None

    sys.settrace(tracer)


def isolated(check, plan, base, tag, keep_log=False, wall=RUN_WALL, budget=0):
    """Execute a plan in a forked child with its own scratch directory."""
    root = os.path.join(base, f'run-{tag}')
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rfd)
        _child(check, plan, root, wfd, keep_log, budget)
    os.close(wfd)
    chunks = []
    deadline = time.monotonic() + wall
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            continue
        data = os.read(rfd, 1 << 16)
        if not data:
            break
        chunks.append(data)
    with contextlib.suppress(ProcessLookupError, PermissionError):
        os.killpg(pid, signal.SIGKILL)
    with contextlib.suppress(ProcessLookupError):
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    os.close(rfd)
    shutil.rmtree(root, ignore_errors=True)
    if timed_out:
        if budget:
            return {'status': 'timeout'}
        # Lack of progress must be decided by a deterministic measure, not by the wall clock.
        again = isolated(check, plan, base, tag, keep_log, wall=wall * 8, budget=LINE_BUDGET)
        if again['status'] == 'timeout':
            return {'status': 'harness-error', 'detail': 'run exceeded its wall time'}
        return again
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        return {'status': 'harness-error', 'detail': 'child died without a result'}


# ---------------------------------------------------------------------------------------------- search
def make_plan(check, seed, index, tier):
    rng = Rng(f'{check.ID}:{seed}:{index}')
    plan = check.generate(rng, tier)
    plan['_origin'] = {'property': check.ID, 'seed': seed, 'run': index}
    return plan


def scratch_base():
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='dsim-', dir=base)


def _worker(check, seed, tier, total, num, workers, base, wfd):
    out = os.fdopen(wfd, 'w')
    for index in range(num, total, workers):
        try:
            plan = make_plan(check, seed, index, tier)
            res = isolated(check, plan, base, f'{num}-{index}')
        except BaseException as exc:  # pylint: disable=broad-except
            res = {'status': 'harness-error', 'detail': ''.join(traceback.format_exception(exc))[-3000:]}
        res['run'] = index
        out.write(json.dumps(res) + '\n')
        out.flush()
        if res['status'] == 'harness-error':
            break
    out.close()
    os._exit(0)


def explore(check, seed, tier, total, workers=8, stop_after=40):
    """Run plans 0..total-1 on forked workers. Returns results ordered by run index."""
    base = scratch_base()
    fds = {}
    pids = []
    try:
        for num in range(workers):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                for other in fds:
                    os.close(other)
                try:
                    os.setpgid(0, 0)
                    _worker(check, seed, tier, total, num, workers, base, wfd)
                finally:
                    os._exit(0)
            os.close(wfd)
            fds[rfd] = b''
            pids.append(pid)
        results = []
        bad = 0
        while fds and bad < stop_after:
            ready, _, _ = select.select(list(fds), [], [], 5)
            for rfd in ready:
                data = os.read(rfd, 1 << 16)
                if not data:
                    del fds[rfd]
                    os.close(rfd)
                    continue
                fds[rfd] += data
                *lines, rest = fds[rfd].split(b'\n')
                fds[rfd] = rest
                for line in lines:
                    res = json.loads(line)
                    results.append(res)
                    if res['status'] not in ('ok',):
                        bad += 1
        return sorted(results, key=lambda res: res['run'])
    finally:
        for pid in pids:
            with contextlib.suppress(ProcessLookupError, PermissionError):
                os.killpg(pid, signal.SIGKILL)
            with contextlib.suppress(ProcessLookupError):
                os.kill(pid, signal.SIGKILL)
            with contextlib.suppress(ChildProcessError):
                os.waitpid(pid, 0)
        for rfd in fds:
            os.close(rfd)
        shutil.rmtree(base, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- minimisation
FIXED_STRINGS = {'op', 'to', 'fault', 'way', 'name', 'logging', 'level', 'size', 'site', 'kind', 'type', 'how', 'dest', 'edit', 'file', 'format', 'what', 'tag', 'mode', 'entry'}
def _paths(value, prefix=()):
    yield prefix, value
    if isinstance(value, dict):
        for key in sorted(value):
            if not str(key).startswith('_'):
                yield from _paths(value[key], prefix + (key,))
    elif isinstance(value, list):
        for idx, item in enumerate(value):
            yield from _paths(item, prefix + (idx,))


def _get(value, path):
    for key in path:
        value = value[key]
    return value


def _set(value, path, new):
    if not path:
        return new
    copy = json.loads(json.dumps(value))
    target = copy
    for key in path[:-1]:
        target = target[key]
    target[path[-1]] = new
    return copy


def _size(plan):
    return len(json.dumps(plan))


def minimise(check, plan, kind, base, limit=400, wall=45.0):
    """Greedy structural shrinking: drop list items, null optional parts, shrink numbers and strings."""
    tries = [0]
    start = time.monotonic()

    def still(candidate):
        if tries[0] >= limit or time.monotonic() - start > wall:
            return False
        tries[0] += 1
        if hasattr(check, 'normalise'):
            try:
                check.normalise(candidate)
            except (PlanError, KeyError, IndexError, TypeError, ValueError):
                return False
        res = isolated(check, candidate, base, f'min-{tries[0]}', wall=20)
        return res['status'] == 'violation' and res['kind'] == kind

    current = plan
    changed = True
    while changed and tries[0] < limit and time.monotonic() - start <= wall:
        changed = False
        # 1. lists: remove chunks, larger first
        for path, _ in sorted(_paths(current), key=lambda pv: len(pv[0])):
            try:
                value = _get(current, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(value, list) or not value:
                continue
            chunk = len(value)
            while chunk >= 1:
                idx = 0
                while idx < len(value):
                    cand_list = value[:idx] + value[idx + chunk:]
                    cand = _set(current, path, cand_list)
                    if still(cand):
                        current, value, changed = cand, cand_list, True
                    else:
                        idx += chunk
                chunk //= 2
        # 2. scalars: simplify
        for path, _ in list(_paths(current)):
            try:
                value = _get(current, path)
            except (KeyError, IndexError, TypeError):
                continue
            options = []
            if isinstance(value, bool):
                options = [False] if value else []
            elif isinstance(value, int) and value not in (0, 1):
                options = [0, 1, value // 2, value - 1 if value > 0 else value + 1]
            elif isinstance(value, float) and value not in (0.0, 1.0):
                options = [0.0, 1.0, float(round(value))]
            elif isinstance(value, str) and len(value) > 1 and path and path[-1] not in FIXED_STRINGS:
                options = [value[:1], value[:len(value) // 2]]
            elif isinstance(value, dict) and path:
                options = [None]
            for option in options:
                if option == value:
                    continue
                cand = _set(current, path, option)
                if still(cand):
                    current, changed = cand, True
                    break
    return current, tries[0]


# ---------------------------------------------------------------------------------------------- findings
def known_findings():
    """Entries of known_findings.txt: `known: property=<id> kind=<kind> match=<regex on detail> :: text`."""
    entries = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf8') as handle:
            for line in handle:
                line = line.strip()
                if line.startswith('known: '):
                    head, _, text = line[len('known: '):].partition(' :: ')
                    fields = dict(part.split('=', 1) for part in head.split(' '))
                    fields['text'] = text
                    entries.append(fields)
    return entries


def match_finding(entries, prop, res):
    import re
    for entry in entries:
        if entry.get('property') == prop and entry.get('kind') == res.get('kind') and \
           re.search(entry.get('match', ''), res.get('detail', '')):
            return entry
    return None


# ---------------------------------------------------------------------------------------------- commands
def _sum(results, key):
    total = {}
    for res in results:
        for name, num in res.get(key, {}).items():
            total[name] = total.get(name, 0) + num
    return dict(sorted(total.items()))


def do_check(prop, tier, seed, runs=None, workers=None, fast=False):
    start = time.monotonic()
    load_library()
    check = load_check(prop)
    total = runs or check.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    print(f'[dsim] property={prop} tier={tier} VERIF_SEED={seed} runs={total} workers={workers}', flush=True)
    results = explore(check, seed, tier, total, workers, 1 if fast else 40)
    if fast:
        # Only asked whether anything is found (used when experimenting with changed trees).
        bad = [res for res in results if res['status'] != 'ok']
        for res in bad:
            print(f'FOUND {prop} run {res["run"]} {res["status"]} {res.get("kind")} {res.get("detail", "")[:300]}')
        return 1 if bad else 0
    search_wall = time.monotonic() - start
    errors = [res for res in results if res['status'] in ('harness-error', 'plan-error', 'timeout')]
    bad = [res for res in results if res['status'] == 'violation']
    entries = known_findings()
    known = []
    fresh = []
    for res in bad:
        entry = match_finding(entries, prop, res)
        (known if entry else fresh).append((res, entry))
    for text in sorted({entry['text'] for _, entry in known}):
        print(f'KNOWN-FINDING: property={prop} {text}')
    code = 0
    reported = []
    if fresh:
        base = scratch_base()
        try:
            kinds = {}
            for res, _ in fresh:
                kinds.setdefault(res['kind'], []).append(res)
            for kind, group in sorted(kinds.items(), key=lambda item: item[1][0]['run'])[:3]:
                best = None
                for res in group[:6]:
                    plan = make_plan(check, seed, res['run'], tier)
                    if best is None or _size(plan) < _size(best):
                        best = plan
                small, tries = minimise(check, best, kind, base)
                final = isolated(check, small, base, 'final', keep_log=True)
                if final.get('status') != 'violation' or match_finding(entries, prop, final):
                    small = best
                    final = isolated(check, small, base, 'final', keep_log=True)
                replay = write_replay(prop, seed, kind, small, final, tries)
                ok = confirm(replay)
                print(f'[dsim] {len(group)} run(s) of kind {kind}; first run {group[0]["run"]}; minimised with '
                      f'{tries} executions; replay in a fresh process: {"reproduced" if ok else "NOT REPRODUCED"}')
                print(f'[dsim] {final.get("kind")}: {final.get("detail", "")[:1500]}')
                if ok:
                    print(f'VIOLATION property={prop} replay={os.path.relpath(replay, VERIF)}', flush=True)
                    reported.append(kind)
                    code = 1
                else:
                    errors.append({'status': 'harness-error', 'run': group[0]['run'],
                                   'detail': f'{kind} did not reproduce from its replay file'})
        finally:
            shutil.rmtree(base, ignore_errors=True)
    if errors and code == 0:
        code = 2
    for res in errors[:3]:
        print(f'[dsim] run {res.get("run")}: {res["status"]}: {res.get("detail", "")[-3000:]}')
    determinism = None
    if code == 0:
        determinism = verify_determinism(prop, seed, tier, results, check)
    write_evidence(check, prop, tier, seed, total, results, search_wall, time.monotonic() - start, workers,
                   len(fresh), len(known), determinism)
    print(f'[dsim] {len(results)} runs, {len(bad)} violating, {len(errors)} errors, '
          f'{time.monotonic() - start:.1f} s', flush=True)
    return code


def verify_determinism(prop, seed, tier, results, check):
    """Re-execute a sample of runs in a fresh interpreter under another PYTHONHASHSEED; compare event logs."""
    sample = [res for res in results if res['status'] == 'ok']
    step = max(1, len(sample) // check.__dict__.get('DETERMINISM_SAMPLE', 24))
    sample = sample[::step]
    if not sample:
        return None
    env = dict(os.environ, PYTHONHASHSEED=str(1 + seed % 1000))
    cmd = [sys.executable, '-B', os.path.join(VERIF, 'run.py'), 'hashes', prop, '--tier', tier, '--seed', str(seed),
           '--runs', ','.join(str(res['run']) for res in sample)]
    try:
        out = subprocess.run(cmd, env=env, capture_output=True, timeout=300, check=True).stdout.decode()
        hashes = json.loads(out.strip().splitlines()[-1])
    except (subprocess.SubprocessError, ValueError, IndexError) as exc:
        return {'sampled': len(sample), 'error': repr(exc)[:300]}
    diverged = [res['run'] for res in sample if hashes.get(str(res['run'])) != res['hash']]
    return {'sampled': len(sample), 'identical_event_logs': len(sample) - len(diverged), 'diverged_runs': diverged}


def do_hashes(prop, tier, seed, runs):
    load_library()
    check = load_check(prop)
    base = scratch_base()
    out = {}
    try:
        for index in runs:
            out[str(index)] = isolated(check, make_plan(check, seed, index, tier), base, f'h{index}').get('hash')
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print(json.dumps(out))
    return 0


def write_replay(prop, seed, kind, plan, final, tries):
    folder = os.path.join(VERIF, 'replays')
    os.makedirs(folder, exist_ok=True)
    body = {'property': prop, 'seed': seed, 'kind': kind, 'origin': plan.get('_origin'), 'plan': plan,
            'detail': final.get('detail'), 'event_log_hash': final.get('hash'), 'trace': final.get('log', [])[-200:],
            'minimised_with_executions': tries}
    digest = hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(folder, f'{prop}-{seed}-{digest}.json')
    with open(path, 'w', encoding='utf8') as handle:
        json.dump(body, handle, indent=1)
        handle.write('\n')
    return path


def confirm(path):
    env = dict(os.environ, PYTHONHASHSEED='77')
    proc = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'run.py'), 'replay', path], env=env,
                          capture_output=True, timeout=900, check=False)
    return proc.returncode == 1 and b'VIOLATION' in proc.stdout


def do_replay(path):
    load_library()
    with open(path, encoding='utf8') as handle:
        body = json.load(handle)
    check = load_check(body['property'])
    base = scratch_base()
    try:
        res = isolated(check, body['plan'], base, 'replay', keep_log=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for line in res.get('log', [])[-60:]:
        print('  ' + line[:400])
    print(f'[dsim] replay: {res["status"]} {res.get("kind", "")} {res.get("detail", "")[:2000]}')
    if res['status'] == 'violation' and res['kind'] == body['kind']:
        same = res['hash'] == body['event_log_hash']
        print(f'[dsim] event log {"identical to" if same else "differs from"} the recorded one')
        print(f'VIOLATION property={body["property"]} replay={path}')
        return 1
    return 0 if res['status'] == 'ok' else 2


def write_evidence(check, prop, tier, seed, total, results, search_wall, wall, workers, fresh, known, determinism):
    hashes = {res['hash'] for res in results if res.get('nontrivial')}
    steps = sum(res.get('steps', 0) for res in results)
    simtime = sum(res.get('simtime', 0.0) for res in results)
    rate = len(results) / search_wall * 3600 if search_wall else 0
    samples = []
    for index in (0, max(0, total // 2)):
        plan = make_plan(check, seed, index, tier)
        text = json.dumps(plan)
        samples.append({'seed': seed, 'run': index, 'plan': plan if len(text) < 4000 else text[:4000] + '...'})
    body = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': check.LEVEL if hasattr(check, 'LEVEL') else 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(hashes),
            'rule': check.RULE,
            'samples': samples,
            'simulated_runs_per_hour': round(rate),
            'seeds_per_hour': round(rate),
            'seeds': f'one derived seed per run: VERIF_SEED={seed}, run 0..{total - 1}',
            'simulated_seconds_covered': round(simtime, 3),
            'event_log_entries': steps,
            'faults_fired': _sum(results, 'faults'),
            'probes': _sum(results, 'probes'),
            'distinctness_measure': 'distinct SHA-256 of the full event log of runs marked non-trivial',
            'real_components': check.REAL,
            'stub_components': check.STUB,
            'workers': workers,
            'determinism_resample': determinism,
            'known_finding_runs': known,
        },
        'assumptions': getattr(check, 'ASSUMPTIONS', []),
        'wall_s': round(wall, 2),
        'violations': fresh,
    }
    folder = os.path.join(VERIF, 'evidence')
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f'{prop}.json'), 'w', encoding='utf8') as handle:
        json.dump(body, handle, indent=1)
        handle.write('\n')
