"""Entry point:  python3 -m sa.run <property id>"""
import importlib
import os
import sys
import traceback

from . import report
from .frontend import program

sys.setrecursionlimit(20000)

CHECKS = {}


def reg(pid, mod, fn, *args, **kw):
    CHECKS[pid] = (mod, fn, args, kw)


reg('C01', 'pure', 'check')
reg('C02', 'shape', 'check', ('count',))
reg('C03', 'shape', 'check', ('link',))
reg('C04', 'shape', 'check', ('arity',))
reg('C05', 'scores', 'check')
reg('C06', 'choice', 'check')
reg('C07', 'match', 'check_match')
reg('C08', 'match', 'check_hidden')
reg('C09', 'own', 'check_copy')
reg('C17', 'evalc', 'check')
reg('C18', 'clusterc', 'check')
reg('C25', 'export', 'check_report')
reg('C26', 'export', 'check_files')
reg('C29', 'export', 'check_data')
reg('C19', 'own', 'check_args')
reg('C20', 'prep', 'check_nd')
reg('C30', 'oneway', 'check')
reg('C23', 'trestlec', 'check')
reg('C22', 'isolate', 'check')
reg('C27', 'isolate', 'check_random')
reg('C24', 'prep', 'check_pipeline')
reg('C28', 'prep', 'check_round')
reg('C31', 'mapper', 'check')
reg('C32', 'stale', 'check')
reg('C33', 'relparts', 'check')
reg('C10', 'life', 'check_clear')
reg('C11', 'life', 'check_fit')
reg('C12', 'life', 'check_invalid')
reg('C13', 'numeric', 'check_cv')
reg('C14', 'numeric', 'check_prob')
reg('C15', 'predict', 'check_choice')
reg('C16', 'predict', 'check_infer')


def main(argv):
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod, fn, args, kw = CHECKS[pid]
    ctx = report.Ctx(pid, tier, seed)
    try:
        m = importlib.import_module('sa.checks.' + mod)
        getattr(m, fn)(ctx, program(), *args, **kw)
    except Exception:
        # a failure of the analyser itself decides nothing
        err = traceback.format_exc()
        ctx.undec('analyser error: %s' % err.strip().splitlines()[-1])
        if os.environ.get('SA_DEBUG'):
            sys.stderr.write(err)
    return report.finish(ctx)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the order of sets in the analyser decides the order of its paths
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'sa.run'] + sys.argv[1:])
    sys.exit(main(sys.argv[1:]))
