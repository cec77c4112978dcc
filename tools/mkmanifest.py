"""MANIFEST.json from dv/props.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "dv"))
import props
checks = []
for p, d in sorted(props.PROPS.items()):
    proof = d.get("level", "proof") == "proof"
    checks.append(dict(
        property=p, quick_cmd="./check.py " + p,
        thorough_cmd="./check.py %s --tier thorough" % p,
        technique=d.get("technique") or (
            "contracts on the C++ functions, proved by deductive "
            "verification (own VC generator over clang's AST, z3 and cvc5)"
            if proof else "bounded stand-in: the real code against an "
            "independent oracle"),
        level=d.get("level", "proof"),
        level_note=(
            "Every obligation of the functions the property is stated over, "
            "of the functions they call and of the lemmas is discharged for "
            "all inputs on every run. Assumes: clang's AST, the VC generator "
            "and its library models, z3/cvc5, finite doubles, allocation "
            "succeeds, one thread." + (" " + d["note"] if d.get("note") else "")
            if proof else
            "Bounded, nothing is proved: " + d["bounded"])))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="See DESIGN.md. No hooks: /repo is verified as it is.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
