"""Loads the MIR facts written by /verif/driver and offers CFG utilities over them."""
import json, os, re, sys, glob

LOGTAGS = {"trace", "debug", "info", "warn", "error", "event", "lightyear_debug_event", "gauge", "counter",
           "histogram", "enabled", "timer_gauge", "trace_span", "debug_span", "info_span", "span", "error_span",
           "info_once", "warn_once", "error_once", "debug_once", "trace_once", "once", "debug_assert",
           "debug_assert_eq", "debug_assert_ne", "println", "eprintln", "level_enabled"}

def logtag(tag):
    return bool(tag) and any(t in LOGTAGS for t in tag.split(">"))

class Fn:
    __slots__ = ("d", "id", "name", "kind", "crate", "file", "line", "argc", "bb", "names", "upv", "gen", "prog",
                 "_preds", "_rpo", "_ipdom", "_live", "_loops", "ltys", "encl", "_succ", "_borrowed", "_lassign")
    def __init__(self, d, crate, prog):
        self.d = d; self.id = d["id"]; self.name = d["name"]; self.kind = d["kind"]; self.crate = crate
        self.file = d.get("file"); self.line = d.get("line"); self.argc = d["argc"]; self.bb = d["bb"]
        self.names = {int(k): v for k, v in (d.get("names") or {}).items()} if isinstance(d.get("names"), dict) else {}
        self.upv = d.get("upv") or []; self.gen = d.get("gen") or []; self.prog = prog
        self.encl = d.get("encl")
        tys = prog.types[crate]
        self.ltys = [tys[i] for i in d["locals"]]
        self._preds = self._rpo = self._ipdom = self._live = self._loops = self._succ = None
        self._borrowed = self._lassign = None
    def ty(self, i):
        return self.prog.types[self.crate][i]

    # ---- cfg
    def term(self, b):
        return self.bb[b][1]
    def succ(self, b):
        if self._succ is None:
            self._succ = [term_succ(x[1]) if x else [] for x in self.bb]
        return self._succ[b]
    @property
    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.bb]
            for b in range(len(self.bb)):
                for s in self.succ(b):
                    p[s].append(b)
            self._preds = p
        return self._preds
    @property
    def rpo(self):
        """index of each block in reverse post order"""
        if self._rpo is None:
            seen = set(); order = []
            st = [(0, iter(self.succ(0)))]; seen.add(0)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(self.succ(s)))); break
                else:
                    order.append(b); st.pop()
            order.reverse()
            r = {b: i for i, b in enumerate(order)}
            self._rpo = r
        return self._rpo
    @property
    def ipdom(self):
        """immediate post-dominators (None = exit); blocks that end in unreachable/diverge are ignored"""
        if self._ipdom is None:
            blocks = sorted(self.rpo, key=lambda b: -self.rpo[b])
            EXIT = -1
            # restrict to blocks that can reach a return
            ok = set(b for b in blocks if self.term(b)[0] == "return")
            work = list(ok)
            while work:
                b = work.pop()
                for p in self.preds[b]:
                    if p not in ok and p in self.rpo:
                        ok.add(p); work.append(p)
            pd = {b: None for b in ok}
            order = [b for b in blocks if b in ok]
            idx = {b: i for i, b in enumerate(order)}; idx[EXIT] = -1
            # iterate simple dominator algorithm on reversed graph
            # need post order on reverse graph: approximate using iterative sets
            allset = set(ok) | {EXIT}
            dom = {b: None for b in ok}; dom[EXIT] = frozenset([EXIT])
            changed = True
            while changed:
                changed = False
                for b in order:
                    ss = [s for s in self.succ(b) if s in ok]
                    if self.term(b)[0] == "return": ss = [EXIT]
                    cur = None
                    for s in ss:
                        d = dom[s]
                        if d is None: continue
                        cur = d if cur is None else cur & d
                    if cur is None: continue
                    n = cur | {b}
                    if n != dom[b]:
                        dom[b] = n; changed = True
            res = {}
            for b in ok:
                c = dom[b]
                if c is None: continue
                c = c - {b}
                # the immediate one is that whose dom set is largest
                best = None
                for x in c:
                    if best is None or len(dom[x]) > len(dom[best]): best = x
                res[b] = None if best == EXIT else best
            self._ipdom = res
        return self._ipdom
    @property
    def loopheads(self):
        if self._loops is None:
            r = self.rpo
            self._loops = {s for b in r for s in self.succ(b) if r[s] <= r[b]}
        return self._loops

    # ---- liveness of locals at block entry
    @property
    def live(self):
        if self._live is None:
            use = {}; deff = {}
            borrowed = set()
            for b in self.rpo:
                u = set(); d = set()
                def rd(l):
                    if l not in d: u.add(l)
                stmts, t = self.bb[b][0], self.bb[b][1]
                for s in stmts:
                    if s[0] == "=":
                        for l in rv_locals(s[2]): rd(l)
                        if s[2][0] in ("ref", "raw", "addr"):
                            borrowed.add(s[2][1][0])
                        pl = s[1]
                        for l in place_idx_locals(pl): rd(l)
                        if len(pl) == 1: d.add(pl[0])
                        else: rd(pl[0])
                    elif s[0] == "sd": rd(s[1][0])
                    elif s[0] == "dead": d.add(s[1])
                for l in term_uses(t): rd(l)
                if t[0] == "call":
                    pl = t[3]
                    if len(pl) == 1: d.add(pl[0])
                if t[0] == "return": rd(0)
                use[b] = u; deff[b] = d
            live = {b: set() for b in self.rpo}
            changed = True
            order = sorted(self.rpo, key=lambda b: -self.rpo[b])
            while changed:
                changed = False
                for b in order:
                    out = set()
                    for s in self.succ(b): out |= live.get(s, set())
                    n = use[b] | (out - deff[b])
                    if n != live[b]: live[b] = n; changed = True
            self._live = live; self._borrowed = borrowed
        return self._live
    @property
    def borrowed(self):
        self.live
        return self._borrowed

def place_idx_locals(pl):
    return [p[1] for p in pl[1:] if isinstance(p, list) and p[0] == "i"]
def op_locals(o):
    if isinstance(o, list):
        return [o[0]] + place_idx_locals(o)
    return []
def rv_locals(rv):
    k = rv[0]
    if k == "use": return op_locals(rv[1])
    if k == "repeat": return op_locals(rv[1])
    if k in ("ref", "raw", "addr"): return [rv[1][0]] + place_idx_locals(rv[1])
    if k == "cast":
        out = []
        for x in rv[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int): out += op_locals(x)
        return out
    if k == "bin": return op_locals(rv[2]) + op_locals(rv[3])
    if k == "un": return op_locals(rv[2])
    if k == "disc": return [rv[1][0]] + place_idx_locals(rv[1])
    if k == "agg":
        out = []
        for o in rv[-1]: out += op_locals(o)
        return out
    out = []
    for x in rv[1:]:
        if isinstance(x, list) and x and isinstance(x[0], int): out += op_locals(x)
    return out
def term_succ(t):
    k = t[0]
    if k == "goto": return [t[1]]
    if k == "switch":
        r = [b for _, b in t[2]]
        if t[3] is not None: r.append(t[3])
        return list(dict.fromkeys(r))
    if k == "drop": return [t[2]]
    if k == "call": return [t[4]] if t[4] is not None else []
    if k == "assert": return [t[5]]
    return []
def term_uses(t):
    k = t[0]
    if k == "switch": return op_locals(t[1])
    if k == "drop": return [t[1][0]]
    if k == "call":
        out = op_locals(t[1])
        for a in t[2]: out += op_locals(a)
        if len(t[3]) > 1: out += [t[3][0]] + place_idx_locals(t[3])
        return out
    if k == "assert":
        out = op_locals(t[1])
        for a in t[4]: out += op_locals(a)
        return out
    return []

class Program:
    def __init__(self, factdir, crates=None, baseline=True):
        self.types = {}; self.fns = {}; self.byname = {}; self.adts = {}; self.impls = []
        self.crates = []
        self.stats = {}
        for p in sorted(glob.glob(os.path.join(factdir, "*.lib.jsonl"))):
            c = os.path.basename(p)[:-len(".lib.jsonl")]
            if crates and c not in crates: continue
            self.load(p, c)
        if baseline and not crates:
            import baseline as _b
            _b.apply(self)
        self.impl_methods = {}   # (trait, method) -> [(self, id)]
        for im in self.impls:
            for n, i in im["items"]:
                self.impl_methods.setdefault((im["trait"], n), []).append((im["self"], i, im))
        self.closures_of = {}
        for f in self.fns.values():
            if f.kind == "closure" and f.encl: self.closures_of.setdefault(f.encl, []).append(f)
        self._callers = None
    def load(self, path, c):
        self.crates.append(c)
        lines = open(path).read().split("\n")
        objs = [json.loads(x) for x in lines if x]
        t = [o for o in objs if o["k"] == "types"]
        self.types[c] = t[0]["t"] if t else []
        n = 0
        for o in objs:
            k = o["k"]
            if k == "fn":
                f = Fn(o, c, self); self.fns[f.id] = f
                self.byname.setdefault(f.name, []).append(f); n += 1
            elif k == "adt":
                o["crate"] = c
                if o["name"] == "core::cmp::Ordering":      # switch values are signed, recorded discriminants are not
                    for v in o["vars"]: v[1] = -1 if v[1] == 255 else v[1]
                if o["name"] not in self.adts or o.get("local"): self.adts[o["name"]] = o
            elif k == "impl":
                o["crate"] = c
                o["self_s"] = o["self"]
                self.impls.append(o)
        self.stats[c] = n
    def ty(self, c, i):
        return self.types[c][i]
    def fn(self, name, opt=False):
        l = self.byname.get(name, [])
        l = [f for f in l if f.kind == "fn"] or l
        if not l:
            if opt: return None
            raise MissingAnchor("function %s not found" % name)
        return l[0]
    def find(self, pat, kind="fn"):
        r = re.compile(pat)
        return [f for n, fs in self.byname.items() if r.search(n) for f in fs if f.kind == kind]
    def callers(self):
        """callee id/name -> [(fn, bb, term)] over every body"""
        if self._callers is None:
            m = {}
            for f in self.fns.values():
                for b, x in enumerate(f.bb):
                    if not x: continue
                    t = x[1]
                    if t[0] == "call" and isinstance(t[1], dict) and "k" in t[1]:
                        k = t[1]["k"]
                        for key in {k.get("id"), k.get("res"), "name:" + k["fn"]}:
                            if key: m.setdefault(key, []).append((f, b, t))
            self._callers = m
        return self._callers

class MissingAnchor(Exception):
    pass

# ---------------------------------------------------------------- printing
def fmt_place(f, pl):
    n = f.names.get(pl[0])
    s = "_%d" % pl[0] + ("{%s}" % n if n else "")
    for p in pl[1:]:
        if p == "*": s = "(*%s)" % s
        elif p[0] == "f": s += ".%s" % (p[2],)
        elif p[0] == "i": s += "[_%d]" % p[1]
        elif p[0] == "c": s += "[%s%s]" % ("-" if p[2] else "", p[1])
        elif p[0] == "s": s += "[%s..%s]" % (p[1], p[2])
        elif p[0] == "d": s += "@%s" % p[2]
        else: s += str(p)
    return s
def fmt_op(f, o):
    if isinstance(o, list): return fmt_place(f, o)
    if "k" in o:
        k = o["k"]; return "fn<%s%s>" % (k["fn"], "" if not k.get("res") or k["res"] == k["id"] else " => " + k["res"])
    if "c" in o: return "%s%s" % (json.dumps(o["c"]), (":" + str(o["named"])) if o.get("named") else "")
    return json.dumps(o)
def fmt_rv(f, rv):
    k = rv[0]
    if k == "use": return fmt_op(f, rv[1])
    if k == "ref": return "&%s%s" % ("mut " if rv[2] else "", fmt_place(f, rv[1]))
    if k == "bin": return "%s(%s, %s)" % (rv[1], fmt_op(f, rv[2]), fmt_op(f, rv[3]))
    if k == "un": return "%s(%s)" % (rv[1], fmt_op(f, rv[2]))
    if k == "disc": return "disc(%s)" % fmt_place(f, rv[1])
    if k == "agg": return "agg %s %s(%s)" % (rv[1], rv[2:-1], ", ".join(fmt_op(f, o) for o in rv[-1]))
    return json.dumps(rv)
def dump(f, out=sys.stdout):
    out.write("fn %s  [%s] %s:%s argc=%d kind=%s\n" % (f.name, f.id, f.file, f.line, f.argc, f.kind))
    for i, t in enumerate(f.ltys):
        if i <= f.argc or i in f.names: out.write("   _%d %s: %s\n" % (i, f.names.get(i, ""), t))
    for b in sorted(f.rpo, key=lambda b: f.rpo[b]):
        stmts, t, line, tag = f.bb[b]
        out.write(" bb%d:\n" % b)
        for s in stmts:
            if s[0] == "=": out.write("    %s = %s   %s\n" % (fmt_place(f, s[1]), fmt_rv(f, s[2]), ("#%s %s" % (s[3], s[4] or ""))))
            elif s[0] == "dead": pass
            else: out.write("    %s\n" % json.dumps(s))
        if t[0] == "call":
            out.write("    %s = %s(%s) -> %s  #%s %s\n" % (fmt_place(f, t[3]), fmt_op(f, t[1]), ", ".join(fmt_op(f, a) for a in t[2]), t[4], line, tag or ""))
        elif t[0] == "switch":
            out.write("    switch %s %s else %s  #%s %s\n" % (fmt_op(f, t[1]), t[2], t[3], line, tag or ""))
        elif t[0] == "assert":
            out.write("    assert %s==%s %s(%s) -> %s #%s\n" % (fmt_op(f, t[1]), t[2], t[3], ", ".join(fmt_op(f, a) for a in t[4]), t[5], line))
        elif t[0] == "drop":
            out.write("    drop %s -> %s\n" % (fmt_place(f, t[1]), t[2]))
        else: out.write("    %s #%s\n" % (json.dumps(t), line))

if __name__ == "__main__":
    P = Program(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "build", "facts"))
    for pat in sys.argv[1:]:
        for f in P.find(pat, "fn") + P.find(pat, "closure") + P.find(pat, "promoted"):
            dump(f)
