#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  -- decides one property of /repo's current tree by static analysis."""
import os, sys, importlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine')); sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import report, load, budget
    budget.start()
    from registry import CHECKS
    mod, fn = CHECKS[pid]
    rep = report.Report(pid)
    f = getattr(importlib.import_module(mod), fn)
    def run(r, c):
        try: f(r, c)
        except Exception as e:
            from hashing import internal
            traceback.print_exc()
            r.undecided('internal', 'the analysis runs to its end', '', internal(e))
    try:
        run(rep, Ctx(tier))
        if tier == 'thorough' and pid not in DEBUG_ALREADY:
            budget.extend(790)
            r2 = report.Report(pid)
            run(r2, Ctx(tier, True))
            rep.merge(r2, 'debug configuration (debug assertions and overflow checks compiled in)')
    finally: budget.stop()
    return rep.finish(tier, seed)


DEBUG_ALREADY = {'C25'}      # analyses that configuration at both tiers


class Ctx:
    def __init__(self, tier, debug=False):
        self.tier = tier; self._p = {}; self.debug = debug
    def prog(self, debug=False):
        debug = debug or self.debug
        import load, core
        if debug not in self._p: self._p[debug] = core.Program(load.dump(debug))
        return self._p[debug]


if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(3)
