#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]   exit 0 held, 1 violated, 2 could not decide"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
from rules import RULES


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    rule = RULES[prop]
    t0 = time.time()
    try:
        core.ensure_tool()
        rep = rule["run"](tier)
        for k in rule.get("nonzero", []):
            if not rep["counts"].get(k):
                rep["broken"].append(f"nothing was analysed: count '{k}' is zero")
        if rep["broken"] and not rep["violations"]:
            raise core.Broken("; ".join(map(str, rep["broken"][:10])))
    except core.Broken as e:
        core.log(f"{prop}: cannot decide: {e}")
        return 2
    # one report per distinct construct
    uniq = {}
    for v in rep["violations"]:
        uniq.setdefault(core.site_key(v) + "|" + v.get("site", ""), v)
    known = core.known_findings(prop)
    fresh, old = [], []
    for v in uniq.values():
        k = core.site_key(v)
        hit = next((txt for kk, txt in known if kk == k), None)
        (old if hit else fresh).append((v, hit))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": rule["level"],
        "coverage": {"explanation": rule["explain"], "rule": rule["rule"], "counts": rep["counts"],
                     "samples": rep["notes"][:60],
                     "violations": [v for v, _ in fresh][:20], "known_findings": [h for _, h in old]},
        "assumptions": rule.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    if rule["level"] == "proof":
        ev["coverage"]["obligations"] = rep["counts"].get("obligations", 0)
        ev["coverage"]["discharged"] = rep["counts"].get("obligations", 0) - len(uniq)
        ev["coverage"]["checker_cmd"] = f"python3 checks/run.py {prop}"
        ev["coverage"]["trusted_base"] = rule.get("assume", [])
    os.makedirs(f"{core.VERIF}/evidence", exist_ok=True)
    with open(f"{core.VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for h in sorted({h for _, h in old}):
        print(f"KNOWN-FINDING: property={prop} {h}")
    if fresh:
        d = f"{core.BUILD}/replay"
        os.makedirs(d, exist_ok=True)
        p = f"{d}/{prop}.json"
        with open(p, "w") as f:
            json.dump([v for v, _ in fresh], f, indent=1)
        for v, _ in fresh[:10]:
            print(f"  {v['site']}: [{v['rule']}] {v['message']}\n      in {v['function']}")
        print(f"VIOLATION property={prop} replay={p}")
        return 1
    print(f"{prop}: held; " + ", ".join(f"{k}={v}" for k, v in sorted(rep["counts"].items())))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
