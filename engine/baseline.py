"""Names as they were when the rules were written.

The rules refer to functions, parameters and fields by name. Renaming one of them changes no behaviour, so the program
loader maps a renamed item back to the name the rules use when the match is unambiguous: a parameter by its position, a field
by its position among the fields of the same type, a function by its signature among the new functions of the same parent.
`python3 engine/baseline.py` rewrites the table (base.json.gz) from the current facts."""
import json, gzip, os, hashlib, re
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, "base.json.gz")

def sig(f):
    return hashlib.sha1("|".join(str(t) for t in f.ltys[:f.argc + 1]).encode()).hexdigest()[:10]
def adtkey(P, a):
    return [[v[0], [[f[0], str(P.types[a["crate"]][f[1]]) if isinstance(f[1], int) else str(f[1])] for f in v[2]]] for v in a["vars"]]

def build(P):
    fns = {}
    for n, fs in P.byname.items():
        l = [f for f in fs if f.kind == "fn"]
        if len(l) == 1: fns[n] = [sig(l[0]), [l[0].names.get(i) for i in range(1, l[0].argc + 1)]]
    adts = {n: adtkey(P, a) for n, a in P.adts.items() if a.get("local")}
    return {"fns": fns, "adts": adts}

def load():
    if not os.path.exists(FILE): return None
    return json.loads(gzip.open(FILE).read())

def apply(P):
    B = load()
    if not B: return
    # fields
    fmap = {}
    for n, a in P.adts.items():
        b = B["adts"].get(n)
        if not b or not a.get("local"): continue
        cur = adtkey(P, a)
        for v, (bv, cv) in enumerate(zip(b, cur)):
            bn, cn = [x[0] for x in bv[1]], [x[0] for x in cv[1]]
            if len(bn) != len(cn) or set(bn) == set(cn): continue
            gone = [x for x in bv[1] if x[0] not in cn]; new = [x for x in cv[1] if x[0] not in bn]
            used = set()
            for g in gone:
                for i, w in enumerate(new):
                    if i not in used and w[1] == g[1]: used.add(i); fmap[(n, w[0])] = g[0]; break
            for f in a["vars"][v][2]:
                if (n, f[0]) in fmap: f[0] = fmap[(n, f[0])]
    # functions
    cur = {n for n, fs in P.byname.items() if any(f.kind == "fn" for f in fs)}
    gone = [n for n in B["fns"] if n not in cur and n.split("::")[0] in P.crates]
    new = [n for n in cur if n not in B["fns"] and len([f for f in P.byname[n] if f.kind == "fn"]) == 1]
    par = lambda n: n.rsplit("::", 1)[0]
    nmap = {}
    for g in gone:
        c = [n for n in new if par(n) == par(g) and sig(next(f for f in P.byname[n] if f.kind == "fn")) == B["fns"][g][0]]
        o = [h for h in gone if par(h) == par(g) and B["fns"][h][0] == B["fns"][g][0]]
        if len(c) == 1 and len(o) == 1: nmap[c[0]] = g
    if nmap:
        def rn(s):
            for k, v in nmap.items():
                if s == k: return v
                if s.startswith(k + "::{"): return v + s[len(k):]
            return s
        for f in P.fns.values(): f.name = rn(f.name)
        P.byname = {}
        for f in P.fns.values(): P.byname.setdefault(f.name, []).append(f)
    else: rn = None
    if fmap or nmap:
        def walk(x):
            if isinstance(x, list):
                if len(x) == 5 and x[0] == "f" and isinstance(x[3], str) and fmap:
                    k = (re.sub("<.*", "", re.sub(r"^(&mut |&)+", "", x[3])), x[2])
                    if k in fmap: x[2] = fmap[k]
                for y in x: walk(y)
            elif isinstance(x, dict):
                if rn and isinstance(x.get("fn"), str): x["fn"] = rn(x["fn"])
                for y in x.values():
                    if isinstance(y, (list, dict)): walk(y)
        for f in P.fns.values(): walk(f.bb)
    # parameters
    for f in P.fns.values():
        if f.kind != "fn": continue
        b = B["fns"].get(f.name)
        if b and len(b[1]) == f.argc:
            ren = {}
            for i, n in enumerate(b[1], 1):
                if n and f.names.get(i) != n:
                    f.names[i] = n
    P.renamed = (fmap, nmap)

if __name__ == "__main__":
    import facts
    P = facts.Program(os.path.join(HERE, "..", "build", "facts"), baseline=False)
    data = json.dumps(build(P), sort_keys=True).encode()
    with open(FILE, "wb") as fh:
        with gzip.GzipFile(fileobj=fh, mode="wb", mtime=0, filename="") as g: g.write(data)
    print(os.path.getsize(FILE))
