#!/usr/bin/env python3-vt
"""run.py <property>: decide one property from /repo's current sources."""
import sys, os, time, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + "/lib", HERE + "/props"]
sys.setrecursionlimit(20000)
def main():
    prop = sys.argv[1]
    import check
    from llvmir import AnalysisError
    t0 = time.time()
    try:
        m = importlib.import_module(prop.lower())
        if hasattr(m, "main"): sys.exit(m.main(t0))
        mod = check.load_module()
        cases = m.cases(check.TIER == "thorough", mod)
        if getattr(m, "SEQ", True): cases = cases + check.sequences(cases)
        if len(sys.argv) > 2: cases = [c for c in cases if sys.argv[2] in c.label]
        tot = check.run_cases(mod, cases, jobs=int(os.environ.get("JOBS", "8")))
        if hasattr(m, "post"): m.post(mod, tot)
        sys.exit(check.report(prop, tot, mod, m.LEVEL, m.EXPLAIN, m.ASSUME, time.time() - t0))
    except AnalysisError as e:
        print("ANALYSIS-ERROR", e); sys.exit(3)
main()
