"""python3 -m vp ID...   run checks"""
import importlib
import sys
import traceback

from .facts import AnalysisError
from .report import Report

CHECKS = {}


def load():
    from . import checks
    return checks.CHECKS


def main():
    cs = load()
    ids = sys.argv[1:] or sorted(cs)
    if ids == ["setup"]:
        from .facts import Facts
        F = Facts()
        print(f"setup: {len(F.fns)} functions extracted")
        return 0
    rc = 0
    F = None
    for i in ids:
        if F is None:
            from .facts import Facts
            F = Facts()
        r = Report(i)
        try:
            out = cs[i](F, r)
        except (AnalysisError, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            # a shape of code the analysis cannot digest: what was found stays found, the rest is not claimed
            traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            r.undec(f"INCOMPLETE: {type(e).__name__}: {e} at {tb.filename.split('/')[-1]}:{tb.name}")
            print(f"{i}: analysis incomplete ({type(e).__name__}: {e})")
            out = {"level": "other", "explanation": "INCOMPLETE RUN: " + str(e)}
        rc |= r.finish(**(out or {}))
    return rc


sys.exit(main())
