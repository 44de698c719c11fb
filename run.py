#!/usr/bin/env python3
"""Decide one property from /repo's current source:  run.py CXX [CYY ...]"""
import importlib, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from yuflow.report import Report, finish
from yuflow.src import AnalysisError


class TimeUp(BaseException):
    pass


def one(pid):
    t0 = time.time()
    rep = Report(pid, os.environ.get('VERIF_TIER', 'quick') if os.environ.get('VERIF_TIER') in ('quick', 'thorough') else 'quick')
    mod = importlib.import_module('yuflow.checks.%s' % pid.lower())
    def late(*_):
        raise TimeUp()
    try:
        # what has been decided in this time is reported
        signal.signal(signal.SIGALRM, late)
        signal.alarm(int(os.environ.get('YUFLOW_LIMIT', '600')))
        mod.run(rep)
    except TimeUp:
        print('%s: the time is up; only a part was analysed' % pid)
        rep.note('analysis incomplete: the time was up')
    except AnalysisError as e:
        print('%s: only a part was analysed: %s' % (pid, e))
        rep.note('analysis incomplete: %s' % e)
    except Exception:
        if not rep.findings:
            traceback.print_exc()
            return 2
        rep.note('analysis incomplete: %s' % traceback.format_exc(limit=3))
    finally:
        signal.alarm(0)
    return finish(rep, t0, getattr(mod, 'LEVEL', 'other'), getattr(mod, 'ASSUMPTIONS', []))


if __name__ == '__main__':
    rc = 0
    for p in sys.argv[1:]:
        rc = max(rc, one(p))
    sys.exit(rc)
