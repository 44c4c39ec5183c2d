"""
Entry point of all checks:  run.py Cxx [--tier quick|thorough] [--seed N] [--replay FILE] [--scale F] [--only MONITOR] [--workers N]
Monitors the code of /repo's working tree.
"""
import os, sys
sys.dont_write_bytecode = True
for f in (sys.stdout, sys.stderr): f.reconfigure(errors='backslashreplace')
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('HV_REPO', '/repo') + '/src')


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only')
    ap.add_argument('--workers', type=int)
    a = ap.parse_args(argv)
    import tempfile, shutil
    tmp = tempfile.mkdtemp(prefix='hv-')
    os.environ['HV_TMP'] = tmp
    cwd = os.getcwd()
    try:
        from hv import core
        import hypertag
        where = os.path.realpath(hypertag.__file__)
        want = os.path.realpath(os.environ.get('HV_REPO', '/repo')) + os.sep
        if not where.startswith(want):
            print('hypertag was imported from %s instead of %s' % (where, want))
            return 2
        if a.replay: return core.replay(a.replay)
        return core.run(a.prop, a.tier, a.seed, a.workers, a.scale, a.only)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
