#!/usr/bin/env python3
"""check.py <ID>: re-extracts facts from /repo's current tree and decides the property."""
import sys, os, json, time, importlib, subprocess, traceback, pkgutil
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

def known_findings(pid):
    p = os.path.join(ROOT, "known_findings.txt"); out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, what = rest.partition(" | ")
                out[key.replace("key=", "", 1)] = what
    return out

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    t0 = time.time()
    if not os.environ.get("VERIF_NOEXTRACT"):
        r = subprocess.run([os.path.join(ROOT, "tools", "extract.sh")], stdout=sys.stderr)
        if r.returncode != 0:
            print("extraction failed: the tree does not compile under the analysis driver"); return 2
    import lib, props
    fn, meta = props.get(pid)
    c = lib.Check(pid); c.tier = tier
    try:
        fn(c)
    except lib.MissingAnchor as e:
        c.bad("anchor: %s" % e, "the mechanism this property rests on is gone: %s" % e)
    except lib.TooBig as e:
        c.bad("toobig: %s" % e, str(e))
    floor = meta.get("floor", 1)
    oks = len({k for k, _, o in c.obl if o})
    if not c.viol and oks < floor:
        c.bad("floor", "only %d obligations were decided, %d expected: the rule no longer matches the code it was written for" % (oks, floor))
    kf = known_findings(pid)
    new = []
    for key, what, where in c.viol:
        if key in kf: print("KNOWN-FINDING: property=%s %s" % (pid, kf[key] or what))
        else: new.append((key, what, where))
    rep = os.path.join(ROOT, "build", "reports"); os.makedirs(rep, exist_ok=True)
    rp = os.path.join(rep, pid + ".txt")
    with open(rp, "w") as f:
        for key, what, where in c.viol: f.write("%s\n  rule: %s\n  at: %s\n" % (key, what, where))
    for key, what, where in new:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  [%s] %s\n    at %s" % (key, what, where))
    seen = []
    for k, w, o in c.obl:
        if k not in [x["obligation"] for x in seen]: seen.append({"obligation": k, "rule": w[:200], "holds": o})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": meta["level"],
          "coverage": {"explanation": meta["explain"][:1500], "functions_analysed": sorted(c.fns)[:60], "n_functions": len(c.fns), "functions_inlined": len(c.inlined),
                       "inlined": sorted(c.inlined)[:80], "blocks_visited": c.visits, "abstract_states": c.states, "obligations": seen[:120], "n_obligations": len(seen),
                       "undecided": [{"obligation": k, "why": w[:200]} for k, w in c.und][:40], "rules": c.rules[:30], "crates": c.P.crates, "bodies_loaded": len(c.P.fns)},
          "wall_s": round(time.time() - t0, 2), "assumptions": meta.get("assume", []),
          "violations": [{"key": k, "rule": w[:300], "at": wh} for k, w, wh in c.viol][:40]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev["coverage"]["inlined"] = []; ev["coverage"]["obligations"] = ev["coverage"]["obligations"][:40]; s = json.dumps(ev, indent=1)
    open(os.path.join(ROOT, "evidence", pid + ".json"), "w").write(s)
    print("%s: %d obligations (%d hold), %d undecided, %d functions, %d blocks, %.1fs" % (pid, len(seen), sum(x["holds"] for x in seen), len(c.und), len(c.fns), c.visits, time.time() - t0))
    return 1 if new else 0
if __name__ == "__main__":
    sys.exit(main())
