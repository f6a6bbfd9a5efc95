#!/usr/bin/env python3-vt
"""check.py PROPERTY [--repo DIR]: decide one property from the current source of the repository.

exit 0  the property holds on everything analysed
exit 1  a construct violating it was found ("VIOLATION property=... replay=...")
exit 2  the analysis could not be carried out (no verdict)
"""
import sys, os, json, time, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)

from context import Context, load_findings

def main(argv):
    pid = argv[0]
    repo = "/repo"
    if "--repo" in argv:
        repo = argv[argv.index("--repo") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Context(pid, repo, tier, seed)
    mod = importlib.import_module("checks." + pid.lower())
    err = None
    try:
        mod.run(ctx)
    except Exception as e:
        traceback.print_exc()
        if type(e).__name__ == "PyRaise":       # what a user's session calls ends in an exception of the analysed code
            ctx.check("session completes", False, "raises", "a session of the Python layer raises %s" % e)
        else:
            err = e
    wall = time.time() - t0
    known = load_findings(os.path.join(HERE, "known_findings.json"))
    viol, findings = [], []
    for v in ctx.violations:
        k = [f for f in known if f["property"] == pid and f["status"] == "known" and f["key"] == v["key"]]
        (findings if k else viol).append(v)
    if err is None and not ctx.nobl:
        err = Exception("no obligation was analysed")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": ctx.coverage(mod), "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": len(viol)}
    ev["coverage"]["known_findings"] = len(findings)
    if err is not None:
        ev["coverage"]["error"] = str(err)[:500]
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    seen = set()
    for v in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, v["text"]))
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for v in viol:
                f.write("[%s] %s\n" % (v["key"], v["text"]))
        for v in viol[:12]:
            print("  %s" % v["text"])
        if len(viol) > 12:
            print("  ... %d more" % (len(viol) - 12))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err is not None:
        print("ANALYSIS-ERROR property=%s %s" % (pid, err))
        return 2
    print("OK property=%s obligations=%d wall=%.1fs" % (pid, ctx.nobl, wall))
    return 0

if __name__ == "__main__":
    rc = [2]
    def go():
        rc[0] = main(sys.argv[1:])
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
