#!/usr/bin/env python3
import os, sys, importlib
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.setrecursionlimit(20000)
if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == '--selftest':
        # setup: the back ends answer, a false obligation is not discharged
        import z3
        from ccv import solve
        x = z3.Int('x')
        r1, _ = solve.z3_check([], [x > 0], x >= 0, 1000, False)
        r2, _ = solve.z3_check([], [x > 0], x > 1, 1000, False)
        ok = r1 == z3.unsat and r2 == z3.sat
        print('selftest', 'ok' if ok else 'FAILED', z3.get_version_string())
        sys.exit(0 if ok else 1)
    if '--thorough' in sys.argv:
        os.environ['VERIF_TIER'] = 'thorough'
    from ccv import runner
    prop = importlib.import_module('props.' + pid.lower())
    sys.exit(runner.main(prop))
