"""Record, from the unchanged tree, the call graph and the literals (both are
only used to plan the work: what to verify first, which sizes to try)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "dv"))
import check, frontend, specs, verify
prog = frontend.Program(extra=("main",))
h = json.load(open(os.path.join(ROOT, "dv", "hints.json")))
calls = {}
for n, c in specs.CONTRACTS.items():
    s = set()
    for case in c.cases:
        if case in specs.OMP_CASES:
            continue
        r = verify.gen(prog, n, case, hints=h.get(n + (
            ":" + case if case else ""), {}))
        s |= r.called
    calls[n] = sorted(s)
json.dump(calls, open(os.path.join(ROOT, "dv", "calls.json"), "w"), indent=0,
          sort_keys=True)
json.dump(sorted(check.find_literals(prog)),
          open(os.path.join(ROOT, "dv", "literals.json"), "w"))
