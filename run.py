"""Command line of the simulator: check | replay | hashes | selftest | show."""
import argparse
import json
import os
import sys

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

PYTHON = '/opt/venv/bin/python'
if os.path.exists(PYTHON) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv'):
    os.execv(PYTHON, [PYTHON, '-B'] + sys.argv)

from dsim import native  # noqa: E402

if native.ENV not in os.environ:
    SHIM = native.build() or ''
    os.environ[native.ENV] = SHIM
    if SHIM:
        # The C-library seam has to be in place before anything else is loaded.
        os.environ['LD_PRELOAD'] = ' '.join(filter(None, [SHIM, os.environ.get('LD_PRELOAD')]))
    # One environment, the least helpful one: a batch job without a locale.
    os.environ.update(LC_ALL='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0', PYTHONIOENCODING='utf-8', PYTHONHASHSEED='0',
                      TZ='UTC')
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

from dsim import core  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    sub = parser.add_subparsers(dest='cmd', required=True)
    cmd = sub.add_parser('check')
    cmd.add_argument('property')
    cmd.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    cmd.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    cmd.add_argument('--runs', type=int)
    cmd.add_argument('--workers', type=int)
    cmd.add_argument('--fast', action='store_true')
    cmd = sub.add_parser('replay')
    cmd.add_argument('file')
    cmd = sub.add_parser('hashes')
    cmd.add_argument('property')
    cmd.add_argument('--tier', default='quick')
    cmd.add_argument('--seed', type=int, default=1)
    cmd.add_argument('--runs', default='0')
    cmd = sub.add_parser('show')
    cmd.add_argument('property')
    cmd.add_argument('run', type=int)
    cmd.add_argument('--tier', default='quick')
    cmd.add_argument('--seed', type=int, default=1)
    args = parser.parse_args()
    if args.cmd == 'check':
        return core.do_check(args.property, args.tier, args.seed, args.runs, args.workers, args.fast)
    if args.cmd == 'replay':
        return core.do_replay(os.path.abspath(args.file))
    if args.cmd == 'hashes':
        return core.do_hashes(args.property, args.tier, args.seed, [int(num) for num in args.runs.split(',')])
    if args.cmd == 'show':
        core.load_library()
        check = core.load_check(args.property)
        plan = core.make_plan(check, args.seed, args.run, args.tier)
        print(json.dumps(plan, indent=1))
        base = core.scratch_base()
        try:
            print(json.dumps(core.isolated(check, plan, base, 'show', keep_log=True), indent=1))
        finally:
            import shutil
            shutil.rmtree(base, ignore_errors=True)
        return 0
    return 2


if __name__ == '__main__':
    sys.exit(main())
