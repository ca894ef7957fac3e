"""check.sh entry point: decide one property on /repo's working tree."""
import json
import os
import sys
import time
import traceback
from common import *
import rules_fs, rules_store, rules_chunk, rules_grid, rules_nd, rules_meta, rules_panic, rules_list

RULES = {}
for m in [rules_fs, rules_store, rules_chunk, rules_grid, rules_nd, rules_meta, rules_panic, rules_list]:
    for n in dir(m):
        if n.startswith("rule_C"): RULES.setdefault(n[5:], getattr(m, n))


def main(prop):
    t0 = time.time()
    rep = Report(prop)
    try:
        T_ = Tree(facts())
        RULES[prop](T_, rep)
    except BuildError as x:
        print("The tree does not compile:\n" + str(x))
        sys.exit(2)
    except AnalysisError as x:
        rep.violation("analysis:" + str(x)[:80], "the analysis cannot follow the code: " + str(x))
    except (Exception, RecursionError) as x:      # fail closed: code the rule does not understand is reported
        print(traceback.format_exc(limit=-4))
        rep.violation("analysis:" + type(x).__name__, f"the analysis cannot follow the code: {type(x).__name__}: {x}")
    finish(rep, t0)


def known():
    p = VERIF + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def finish(rep, t0):
    prop = rep.prop
    kn = {k["key"]: k for k in known() if k["property"] == prop and k.get("status") == "known"}
    new = {k: m for k, m in rep.viol.items() if k not in kn}
    for k in rep.viol:
        if k in kn: print(f"KNOWN-FINDING: property={prop} {kn[k]['what']}")
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    spec = json.load(open(VERIF + "/MANIFEST.json"))
    note = next((c["technique"] for c in spec["checks"] if c["property"] == prop), "")
    cov = dict(explanation=f"Rule: {note}. Applied to the MIR of /repo's working tree; every obligation is one instance of the rule at a construct of the code.",
               obligations=rep.counts.get("obligations", 0), discharged=rep.discharged,
               functions_analysed=len(rep.functions), counts=rep.counts, samples=rep.samples or ["none"],
               functions=sorted(rep.functions)[:60], violations=[dict(key=k, what=m) for k, m in rep.viol.items()], notes=rep.notes)
    ev = dict(property=prop, tier=os.environ.get("VERIF_TIER", "quick"), seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="other", coverage=cov, wall_s=round(time.time() - t0, 2))
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1, ensure_ascii=False)
    if new:
        p = f"{VERIF}/evidence/{prop}.violation.txt"
        with open(p, "w") as f:
            for k, m in new.items(): f.write(f"[{k}]\n{m}\n\n")
        for k, m in new.items(): print(f"{prop}: {m}"[:600])
        print(f"VIOLATION property={prop} replay={p}")
        sys.exit(1)
    print(f"{prop}: {rep.discharged} obligations in {len(rep.functions)} functions hold ({round(time.time() - t0, 1)} s)")
    sys.exit(0)


if __name__ == "__main__":
    main(sys.argv[1])
