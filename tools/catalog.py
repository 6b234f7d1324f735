#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/catalog.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCF = "crates/connection/netcode/src/"
CLAIMED = []; NA = []
def P(id, title, statement, over, text, why, files, mech, technique="path-sensitive abstract interpretation of the compiler's MIR (scenario case analysis)", note="", observe=None, na=None):
    assert len(title) <= 80, title
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    (NA if na else CLAIMED).append((d, technique, note, na))

exec(open(os.path.join(ROOT, "tools", "properties.py")).read())

PROPS = sorted(CLAIMED + NA, key=lambda x: x[0]["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for d, *_ in PROPS: f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "tools/extract.sh",
     "checks": [{"property": d["id"], "quick_cmd": "python3 engine/check.py %s quick" % d["id"], "thorough_cmd": "python3 engine/check.py %s thorough" % d["id"],
                 "technique": t, "level": "other", "level_note": n or "Decided from the MIR of the current tree for all inputs of the named functions; library crates below the named boundaries are trusted."} for d, t, n, na in sorted(CLAIMED, key=lambda x: x[0]["id"])],
     "not_applicable": [{"property": d["id"], "reason": na} for d, t, n, na in sorted(NA, key=lambda x: x[0]["id"])],
     "notes": "Static analysis only: tools/extract.sh compiles /repo's current tree with a rustc driver that dumps MIR facts; engine/check.py <ID> re-extracts and decides one property. No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
ids = [d["id"] for d, *_ in PROPS]; assert len(set(ids)) == len(ids)
# ---- DESIGN.md
import re, glob, ast
explain = {}
for fn in glob.glob(os.path.join(ROOT, "engine", "props", "*.py")):
    for n in ast.walk(ast.parse(open(fn).read())):
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "prop":
                    kw = {k.arg: ast.literal_eval(k.value) for k in d.keywords if k.arg in ("explain", "floor")}
                    explain[ast.literal_eval(d.args[0])] = (re.sub(r"\s+", " ", kw.get("explain", "")), kw.get("floor", 1), os.path.basename(fn))
D = os.path.join(ROOT, "tools", "design")
out = [open(os.path.join(D, "head.md")).read()]
for d, t, n, na in PROPS:
    out.append("### %s  %s\n" % (d["id"], d["title"]))
    out.append(d["statement"] + "\n")
    if na: out.append("*Not applicable.* " + na + "\n"); continue
    e, fl, src = explain[d["id"]]
    out.append("* **Decided by** (`engine/props/%s`, at least %d obligations): %s" % (src, fl, e))
    out.append("* **Technique**: %s." % t)
    out.append("* **Anchored in** %s." % "; ".join("%s (%s)" % (m["name"], m["where"]) for m in d["anchors"]["mechanism"]))
    out.append("* **Holds for** %s; tests cannot settle it: %s.%s\n" % (d["quantifier"]["text"], d["why_tests_cant"], " " + n if n else ""))
out.append("## 4. Planted bugs\n\nEach builds, passes the stable tests and has a demonstration that fails with it; none is ever committed in /repo. `caught by` is the check of its property.\n")
out.append("| planted bug | caught by | needs | breaks |\n|---|---|---|---|")
caught = {}
cp = os.path.join(D, "caught.json")
if os.path.exists(cp): caught = json.load(open(cp))
for mj in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(mj)); m_ = json.load(open(mj))
    out.append("| %s | %s | %s | %s |" % (i, caught.get(i, m_["property"]), m_["needs"], m_["what_it_breaks"]))
out.append("")
out.append(open(os.path.join(D, "tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
print(len(CLAIMED), "claimed", len(NA), "not applicable")
