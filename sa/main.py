"""main.py <property> <dump dir> <verif dir>: decide one property, report, write evidence"""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from core import Check, arm, disarm, Budget                                   # noqa: E402
from registry import REG                                 # noqa: E402


def known(verif):
    """{(property, obligation key): text}"""
    out = {}
    try:
        for ln in open(os.path.join(verif, "known_findings.txt")):
            ln = ln.strip()
            if ln.startswith("finding:"):
                p, k, txt = [x.strip() for x in ln[len("finding:"):].split("|", 2)]
                out[(p.split("=")[1], k.split("=", 1)[1])] = txt
    except OSError:
        pass
    return out


def main():
    pid, dumps, verif = sys.argv[1:4]
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod, fn, expl, assume = REG[pid]
    C = Check(pid, dumps)
    C.tier = tier
    arm()
    try:
        C.guard("analysis", lambda: getattr(importlib.import_module(mod), fn)(C))
    except Budget as e:
        C.unk("analysis", str(e))
    disarm()
    kn = known(verif)
    bad = [o for o in C.obs if o["status"] == "violated"]
    new = [o for o in bad if (pid, o["obligation"]) not in kn]
    hit = {}
    for o in bad:
        if (pid, o["obligation"]) in kn:
            hit[o["obligation"]] = kn[(pid, o["obligation"])]
    unk = [o for o in C.obs if o["status"] == "undecided"]
    dis = [o for o in C.obs if o["status"] == "discharged"]
    fns = sorted({f for r in C.runs for f in r["functions"]})
    cov = {
        "explanation": expl,
        "obligations": len(C.obs), "discharged": len(dis), "undecided": len(unk),
        "violated": len(bad), "known_findings": len(hit),
        "analysis_runs": len(C.runs),
        "abstract_steps": sum(r["steps"] for r in C.runs),
        "exploded_blocks": sum(r["blocks"] for r in C.runs),
        "functions_analysed": fns,
        "unmodelled_calls": sorted({u for r in C.runs for u in r["unmodelled"]}),
        "runs": [{k: r[k] for k in ("entry", "note", "steps", "blocks")} for r in C.runs][:60],
        "samples": [{k: o[k] for k in ("obligation", "what", "where")} for o in dis[:40]],
        "undecided_obligations": unk[:60],
        "violations": bad[:60],
        "notes": getattr(C, "notes", []),
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "other", "coverage": cov, "assumptions": assume,
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    ed = os.path.join(verif, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for k, txt in hit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%.1f s)" % (
        pid, len(C.obs), len(dis), len(unk), len(bad), time.time() - t0))
    for o in unk[:8]:
        print("  undecided: %s: %s" % (o["obligation"], o["what"][:160]))
    if new:
        rp = os.path.join("evidence", pid + ".replay.json")
        with open(os.path.join(verif, rp), "w") as f:
            json.dump({"property": pid, "violations": new}, f, indent=1, default=str)
        for o in new[:10]:
            print("  violated: %s: %s [%s]" % (o["obligation"], o["what"][:400], o["where"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


sys.stdout.flush()
sys.exit(main())
