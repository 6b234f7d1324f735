"""explore.py FN [-e EVENTPAT] [-n NOINLINE] [-o INLINEONLY] [-w] [-r N]: print the events of a function with their facts."""
import re, sys, argparse, time
from lib import *
ap = argparse.ArgumentParser(); ap.add_argument("fn"); ap.add_argument("-e", action="append", default=[]); ap.add_argument("-n", action="append", default=[])
ap.add_argument("-o", action="append"); ap.add_argument("-w", action="store_true"); ap.add_argument("-r", type=int, default=0); ap.add_argument("-x", action="store_true"); ap.add_argument("-q", action="store_true")
a = ap.parse_args()
sys.setrecursionlimit(20000)
c = Check("X"); t = time.time()
fs = [f for f in c.P.fns.values() if f.name == a.fn] or [f for f in c.P.fns.values() if f.name.endswith(a.fn)] or [f for f in c.P.fns.values() if re.search(a.fn, f.name) and "{closure" not in f.name]
fs = list({f.name: c.P.fn(f.name, opt=True) for f in fs if "CALLSITE" not in f.name}.values())
if len(fs) != 1: print("\n".join(f.name for f in fs[:12])); sys.exit(1)
it = c.run(fs[0], events=a.e, no_inline=a.n, inline_only=a.o, writes=a.w, refine=a.r)
print("time %.2f visits %d" % (time.time() - t, it.visits), "inlined", sorted(it.inlined))
print("opaque", dict(it.opaque))
for e in it.events:
    if e.kind == "assert" and not a.x: continue
    if e.kind == "call" and not a.e: continue
    print(e.kind, e.where(), e.names[0] if e.names else "", (str(interp.show_place(e.root, e.projs)) if e.root else ""), e.val if e.val is not None else "", [str(x) for x in e.args] if e.args else "")
    if not a.q:
        for l, b in literals(e.state): print("      ", "" if b else "!", l)
        if e.state.must: print("       must", e.state.must)
