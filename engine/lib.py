"""Rule library on top of the dataflow engine: scenarios, guards, orderings, provenance, reporting."""
import os, sys, re, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, values, interp
from facts import Program, MissingAnchor
from values import *
from interp import Interp, Config, State, TooBig, INF

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
_prog = None
def program():
    global _prog
    if _prog is None:
        _prog = Program(os.environ.get("VERIF_FACTS") or os.path.join(ROOT, "build", "facts"))
        import models
        values.ENUMS |= {n for n, a in _prog.adts.items() if a["enum"]}
        values.ENUMS |= {n for n, a in models.get().adts.items() if a["enum"]}
    return _prog

class Cfg(Config):
    def __init__(self, events=(), watch=(), no_inline=(), inline_only=None, writes=False, refine=0, stubs=None, must=None, monitor=None,
                 depth=None, cap=None, parts=None, paths=False):
        j = lambda l: re.compile("|".join("(?:%s)" % x for x in l)) if l else None
        watch = tuple(watch) + tuple(getattr(monitor, "watching", ()))
        if isinstance(monitor, Auto): watch = tuple(watch) + tuple(r.pattern for r, _ in monitor.rules)
        self._e, self._w, self._n = j(events), j(watch), j(no_inline)
        self._i = j(inline_only) if inline_only is not None else None
        self.watch_writes = writes; self.refine = refine; self.stubs = stubs or []; self._must = must or []; self.monitor = monitor
        self.paths = paths
        if depth: self.max_depth = depth
        if cap: self.node_cap = cap
        if parts: self.part_cap = parts
    @staticmethod
    def _m(r, names): return r is not None and any(r.search(n) for n in names)
    def is_event(self, names): return self._m(self._e, names)
    def watch(self, names): return self._m(self._w, names)
    def no_inline(self, names):
        if self._i is not None and not self._m(self._i, names): return True
        return self._m(self._n, names)
    def on_call(self, it, st, fr, names, args, sym):
        it.cur_names = names
        for pat, f in self.stubs:
            if any(re.search(pat, n) for n in names):
                r = f(it, st, fr, args, sym) if callable(f) else f
                if r is not None: return r
        return None
    def must_key(self, names):
        for pat, key in self._must:
            if any(re.search(pat, n) for n in names): return key
        return None
    def step(self, it, st, kind, info):
        if self.monitor: self.monitor(it, st, kind, info)

class Check:
    def __init__(self, pid):
        self.pid = pid; self.P = program(); self.viol = []; self.obl = []; self.und = []; self.fns = set(); self.visits = 0
        self.states = 0; self.sites = 0; self.notes = []; self.inlined = set(); self.rules = []
        self.t0 = time.time()
    # ---- analysis
    def fn(self, name, alt=()):
        for n in (name,) + tuple(alt):
            f = self.P.fn(n, opt=True)
            if f: return f
        raise MissingAnchor("function %s not found" % name)
    def run(self, fn, setup=None, args=None, **kw):
        f = fn if not isinstance(fn, str) else self.fn(fn)
        it = Interp(self.P, Cfg(**kw))
        it.run(f, setup, args)
        self.fns.add(f.name); self.visits += it.visits; self.states += sum(len(p) for p in it.nodes.values())
        self.inlined |= it.inlined
        return it
    # ---- reporting
    def ok(self, key, what): self.obl.append((key, what, True))
    def bad(self, key, what, where=""):
        if not any(k == key for k, _, _ in self.viol): self.viol.append((key, what, where))
        self.obl.append((key, what, False))
    def tri(self, cond, key, what, where=""):
        """True holds, False broken, None not decided"""
        assert not isinstance(cond, str) and isinstance(key, str)
        if cond is None: self.undecided(key, what)
        else: self.check(cond, key, what, where)
    def check(self, cond, key, what, where=""):
        if cond: self.ok(key, what)
        else: self.bad(key, what, where)
        return cond
    def undecided(self, key, what): self.und.append((key, what))
    def rule(self, s): self.rules.append(s)
    def note(self, s): self.notes.append(s)

# ---------------------------------------------------------------- value helpers
def par(it, name):
    """value of a parameter (dereferenced when it is a reference)"""
    p = mk("p", name)
    t = it.vty.get(p) or ""
    return mk("*", p) if t.startswith("&") else p
def path(it, s):
    """'self.a.b@Some.0' -> V"""
    parts = s.split(".")
    v = par(it, parts[0])
    i = 1
    for x in parts[1:]:
        if "@" in x:
            a, var = x.split("@")
            if a: v = mk("f", v, "", a)
            pend = var; v = ("pend", v, var); continue
        if isinstance(v, tuple): v = mk("f", v[1], v[2], x)
        else: v = mk("f", v, "", x)
    return v
def fld(v, *names):
    for n in names:
        if "@" in n:
            var, x = n.split("@"); v = mk("f", v, var, x)
        else: v = mk("f", v, "", n)
    return v
def strip(v):
    while v.op in ("&", "*") and isinstance(v.args[0], V): v = v.args[0]
    return v
def endswith(v, *fields):
    """v is a place ending in the given field names"""
    v = strip(v)
    for f in reversed(fields):
        v = strip(v)
        if v.op == "f" and str(v.args[2]) == f: v = v.args[0]
        else: return False
    return True
def has(v, pred):
    return any(pred(x) for x in subvals(v))
def has_field(v, *fields):
    return has(v, lambda x: endswith(x, *fields))
def has_call(v, pat):
    r = re.compile(pat)
    return has(v, lambda x: x.op == "call" and r.search(x.args[0]) is not None)
def calls_in(v, pat):
    r = re.compile(pat)
    return [x for x in subvals(v) if x.op == "call" and r.search(x.args[0])]
def known(v):
    """value built from parameters, fields and constants only"""
    return not any(x.op in ("hv", "phi", "stale", "call", "rv", "copaque", "with") for x in subvals(v))
def simplev(v):
    return not any(x.op in ("hv", "phi", "stale", "rv", "copaque") for x in subvals(v))

def literals(st):
    """readable list of the facts"""
    out = []
    for k, f in st.facts.items():
        if k[0] == "b": out.append((k[1], f))
        elif k[0] == "d":
            if isinstance(f, int): out.append((deq(k[1], f), True))
            else:
                for n in f[1]: out.append((deq(k[1], n), False))
        else:
            lo, hi, ne = f
            if lo == hi: out.append((mk("ieq", k[1], lo), True))
            else:
                if hi < INF: out.append((mk("le", k[1], hi), True))
                if lo > -INF: out.append((mk("le", k[1], lo - 1), False))
            for n in ne: out.append((mk("ieq", k[1], n), False))
    return out
def diff_facts(e, pa, pb):
    """bounds on A-B for leaves A,B satisfying the predicates: list of (A, B, lo, hi)"""
    out = []
    for k, f in e.state.facts.items():
        if k[0] != "i": continue
        T = k[1]
        if len(T) == 2 and sorted(c for _, c in T) == [-1, 1]:
            (a, ca), (b, cb) = T
            for x, y, s in ((a, b, ca), (b, a, cb)):
                if pa(x) and pb(y):
                    lo, hi = (f[0], f[1]) if s == 1 else (-f[1], -f[0])
                    out.append((x, y, lo, hi))
    return out
def one_facts(e, pa):
    """bounds on a single leaf: (leaf, lo, hi, ne)"""
    return [(k[1][0][0], f[0], f[1], f[2]) for k, f in e.state.facts.items() if k[0] == "i" and len(k[1]) == 1 and k[1][0][1] == 1 and pa(k[1][0][0])]
def discs(e, pred):
    """discriminant facts on values satisfying pred: [(v, int or ('not', set))]"""
    return [(k[1], f) for k, f in e.state.facts.items() if k[0] == "d" and pred(k[1])]
def bools(e, pred):
    return [(k[1], f) for k, f in e.state.facts.items() if k[0] == "b" and pred(k[1])]
def variant(P, adt, name):
    a = P.adts.get(adt)
    if not a: raise MissingAnchor("type %s not found" % adt)
    for n, d, _ in a["vars"]:
        if n == name: return d
    raise MissingAnchor("variant %s::%s not found" % (adt, name))
def vname(P, adt, d):
    for n, x, _ in P.adts[adt]["vars"]:
        if x == d: return n
    return str(d)
def events(it, pat=None, kind="call"):
    r = re.compile(pat) if pat else None
    return [e for e in it.events if e.kind == kind and (r is None or any(r.search(n) for n in e.names))]
def some(v): return mk("agg", "core::option::Option", "Some", (v,))
NONE = mk("agg", "core::option::Option", "None", ())
def okv(v=UNIT): return mk("agg", "core::result::Result", "Ok", (v,))
def errv(v): return mk("agg", "core::result::Result", "Err", (v,))
def is_err(v): return v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == "Err"
def is_ok(v): return v.op == "agg" and v.args[0].endswith("Result") and v.args[1] == "Ok"

def assume_setup(*conds):
    """setup function: conds(it) -> list of (bool V, value)"""
    def s(it, st, fr):
        for c in conds:
            for b, v in c(it):
                if not it.assume(st, b, v): raise MissingAnchor("contradictory scenario: %s" % show(b))
    return s

def decide(it, e, val, expected):
    """True: val has the expected truth; False: definitely can have the opposite; None: undecided"""
    t = it.truth(e.state, val)
    if t is not None: return t == expected
    if known(val):
        s = e.state.copy()
        if it.assume(s, val, not expected): return False
        return True
    return None

# ---------------------------------------------------------------- scenarios
def short(f): return re.sub(r"^lightyear_\w+::", "", f.name if not isinstance(f, str) else f)
class Scen:
    """One scenario: a function analysed under assumed entry facts / callee results."""
    def __init__(self, c, key, fn, assume=None, stubs=None, events=(), args=None, init=None, **kw):
        self.c = c; self.key = key
        f = fn if not isinstance(fn, str) else c.fn(fn)
        self.f = f
        setup = None
        if assume or init:
            def setup(it, st, fr, conds=assume):
                if init: init(it, st, fr)
                for b, v in conds(it) if conds else ():
                    if not it.assume(st, b, v): raise MissingAnchor("contradictory scenario %s: %s" % (key, show(b)))
        self.hits = {}
        def wrap(i, pat, s):
            def g(it, st, fr, a, sym):
                self.hits[pat] = self.hits.get(pat, 0) + 1
                return s(it, st, fr, a, sym) if callable(s) else s
            return (pat, g)
        self.it = c.run(f, setup, args, events=events, stubs=[wrap(i, p, s) for i, (p, s) in enumerate(stubs or [])], **kw)
        c.n_scen = getattr(c, "n_scen", 0) + 1
    def stubbed(self, *pats):
        for p in pats:
            if not self.hits.get(p): raise MissingAnchor("%s no longer goes through a call matching %s" % (short(self.f), p))
        return self
    def ev(self, pat=None, kind="call"): return events(self.it, pat, kind)
    def never(self, pat, what, kind="call", pred=None, tag=None):
        es = [e for e in self.ev(pat, kind) if pred is None or pred(e)]
        k = "%s: %s: never %s" % (short(self.f), self.key, tag or pat)
        if es: self.c.bad(k, what, es[0].where())
        else: self.c.ok(k, what)
        return self
    def always(self, pat, what, kind="call", pred=None, tag=None):
        es = [e for e in self.ev(pat, kind) if pred is None or pred(e)]
        k = "%s: %s: reaches %s" % (short(self.f), self.key, tag or pat)
        if es: self.c.ok(k, what)
        else: self.c.bad(k, what, "%s:%s (%s)" % (self.f.file, self.f.line, self.f.name))
        return self
    def each(self, pat, pred, what, kind="call", tag=None, minimum=1):
        """every event matching pat satisfies pred (True/None ok, False bad)"""
        es = self.ev(pat, kind)
        k = "%s: %s: %s" % (short(self.f), self.key, tag or pat)
        if len(es) < minimum:
            self.c.bad(k, "no event matching %s is reached: %s" % (pat, what), "%s:%s (%s)" % (self.f.file, self.f.line, self.f.name)); return self
        res = [(e, pred(e)) for e in es]
        for e, r in res:
            if r is False or (r is not None and not r): self.c.bad(k, what, e.where()); return self
        if any(r is None for _, r in res): self.c.undecided(k, what)
        else: self.c.ok(k, what)
        return self
    def exits(self, pred, what, tag="exit", minimum=1):
        return self.each(None, pred, what, kind="exit", tag=tag, minimum=minimum)
    def exhausts(self, what, src=None, pred=None, tag="loop", nextpat=r"::next$|::pop$|::pop_front$|::try_recv$"):
        """every (matching) exit is taken with the iterator exhausted"""
        k = "%s: %s: %s runs to the end" % (short(self.f), self.key, tag)
        es = [e for e in self.ev(None, "exit") if pred is None or pred(e)]
        nx = lambda v: v.op == "call" and re.search(nextpat, v.args[0]) is not None and (src is None or re.search(src, show(v)) is not None)
        bad = None; hit = False
        for e in es:
            ok = False
            for k_, f in e.state.facts.items():
                if k_[0] == "d" and nx(k_[1]) and f == 0: ok = True
            if ok: hit = True
            else: bad = bad or e
        if hit and bad is None: self.c.ok(k, what)
        elif not es or (bad is not None and not hit and not any(re.search(nextpat, n) for n in self.it.seen_calls)): self.c.undecided(k, what)
        elif bad is not None: self.c.bad(k, what, bad.where())
        return self
    def none_exit(self, pred, what, tag):
        es = [e for e in self.ev(None, "exit") if pred(e)]
        k = "%s: %s: no exit with %s" % (short(self.f), self.key, tag)
        if es: self.c.bad(k, what, es[0].where())
        else: self.c.ok(k, what)
        return self
    def some_exit(self, pred, what, tag):
        es = [e for e in self.ev(None, "exit") if pred(e)]
        k = "%s: %s: some exit with %s" % (short(self.f), self.key, tag)
        if es: self.c.ok(k, what)
        else: self.c.bad(k, what, "%s:%s (%s)" % (self.f.file, self.f.line, self.f.name))
        return self
def scen(c, key, fn, **kw): return Scen(c, key, fn, **kw)

def err_exit(e): return is_err(e.val)
def ok_exit(e): return is_ok(e.val)
def must_err(e):
    if is_err(e.val): return True
    if e.val.op == "agg" and e.val.args[0].endswith("Result"): return False
    return None
def must_ok(e):
    if is_ok(e.val): return True
    if is_err(e.val): return False
    return None

def tyof(it, v):
    """static type of a place-like value, when it can be told"""
    t = it.vty.get(v)
    if t: return t
    if v.op == "*":
        t = tyof(it, v.args[0])
        return re.sub(r"^&(mut )?", "", t) if t and t.startswith("&") else None
    if v.op == "cast": return v.args[0]
    if v.op == "len": return "usize"
    if v.op == "f":
        t = tyof(it, v.args[0])
        if not t: return None
        h, a = interp.typarse(t)
        if h == "core::option::Option" and v.args[1] == "Some": return interp.tystr(a[0]) if a else None
        if h == "()" and v.args[2].isdigit() and int(v.args[2]) < len(a): return interp.tystr(a[int(v.args[2])])
        ad = it.P.adts.get(h)
        if not ad: return None
        for n, d, fs in ad["vars"]:
            if n == v.args[1] or not ad["enum"]:
                for f, i in fs:
                    if f == v.args[2] and ad["crate"] in it.P.types:
                        r = it.P.types[ad["crate"]][i]
                        return r
    return None

# ---------------------------------------------------------------- whole-program queries over MIR
def places(f):
    """(bb, line, kind, place) of every assignment target / mutable borrow in a body"""
    for b, x in enumerate(f.bb):
        if not x: continue
        for s in x[0]:
            if s[0] == "=":
                yield b, s[3], "write", s[1]
                if s[2][0] in ("ref", "raw") and "mut" in str(s[2][2:]): yield b, s[3], "mutref", s[2][1]
        t = x[1]
        if t[0] == "call": yield b, x[2], "write", t[3]
def adt_of(t): return re.sub("<.*", "", re.sub(r"^(&mut |&)+", "", t or ""))
def field_writes(P, field, adt=None, crates=None):
    """direct assignments whose place goes through field `field` (of type `adt` when the projection names it)"""
    out = []
    for f in P.fns.values():
        if crates and f.crate not in crates: continue
        for b, line, k, pl in places(f):
            for i, p in enumerate(pl[1:]):
                if isinstance(p, list) and p[0] == "f" and p[2] == field and (adt is None or (len(p) > 3 and p[3] and adt_of(str(p[3])).endswith(adt))):
                    out.append((f, b, line, k, pl, i == len(pl) - 2)); break
    return out
def callsites(P, pat, crates=None):
    """[(fn, line, term, callee)] over every body"""
    r = re.compile(pat); out = []
    for f in P.fns.values():
        if crates and f.crate not in crates: continue
        for b, x in enumerate(f.bb):
            if not x: continue
            t = x[1]
            if t[0] == "call" and isinstance(t[1], dict) and "k" in t[1]:
                k = t[1]["k"]
                if r.search(k["fn"]) or (k.get("res") and r.search(k["res"])): out.append((f, x[2], t, k))
    return out
def callers_up(P, name, stop):
    """(names of every function that calls `name`, directly or not; those among them without callers that are not in `stop`)"""
    up, roots, work = set(), {}, [P.fn(name)]
    while work:
        f = work.pop()
        cs = {topfn(P, g[0]).id: topfn(P, g[0]) for g in P.callers().get(f.id, ())}
        if not cs and f.name != name and f.name not in stop: roots[f.name] = f
        for g in cs.values():
            if g.name in up: continue
            up.add(g.name)
            if g.name not in stop: work.append(g)
    return up, roots

def topfn(P, f):
    """the named function a closure belongs to"""
    while "{closure" in f.name:
        n = re.sub(r"::\{closure.*$", "", f.name)
        g = P.fn(n, opt=True)
        if not g: return f
        f = g
    return f

def wfield(e):
    """name of the field a write event targets"""
    for p in reversed(e.projs or ()):
        if p[0] == "F": return p[2]
    return None
def wpath(e):
    return [p[2] for p in (e.projs or ()) if p[0] == "F"]

def aggfield(P, v, name):
    """field of a constructed struct/variant value by field name"""
    if v.op == "with":
        for q, x in v.args[1]:
            if q[0] == "F" and q[2] == name: return x
        return aggfield(P, v.args[0], name)
    if v.op != "agg": return mk("f", v, "", name)
    a = P.adts.get(v.args[0])
    if not a: return None
    for n, d, fs in a["vars"]:
        if n == v.args[1] or (not v.args[1]) or len(a["vars"]) == 1:
            for i, f in enumerate(fs):
                if f[0] == name and i < len(v.args[2]): return v.args[2][i]
    return None
def uncast(v):
    while v.op == "cast" or (v.op == "agg" and len(v.args[2]) == 1 and v.args[0] not in ("core::option::Option", "core::result::Result")): v = v.args[1] if v.op == "cast" else v.args[2][0]
    return v
def leaves(e):
    """all leaf terms of integer facts and the exit value"""
    out = set()
    for k in e.state.facts:
        for x in ([k[1]] if isinstance(k[1], V) else [t for t, _ in k[1]]): out.add(x)
    if isinstance(e.val, V): out |= set(subvals(e.val))
    return out
def getn(P, v, var, name):
    if v.op == "with":
        for q, x in v.args[1]:
            if q[0] == "F" and q[2] == name and (not var or not q[1] or q[1] == var): return x
        return getn(P, v.args[0], var, name)
    if v.op == "agg":
        x = aggfield(P, v, name)
        return x if x is not None else mk("f", v, var, name)
    return mk("f", v, var, name)
def post(e, v):
    """value of the place `v` (built with path()/fld()) in the state of event e"""
    st = e.state
    if v.op == "*":
        a = v.args[0]
        r = st.store.get(("O", a))
        return r if r is not None else v
    if v.op == "f": return getn(e.interp.P, post(e, v.args[0]), v.args[1], v.args[2])
    return v
def same(it, e, a, b):
    """True / False / None: the two values are equal in the event's state"""
    if a is b: return True
    if a.op == "agg" and b.op == "agg":
        if a.args[:2] != b.args[:2]: return False
        rs = [same(it, e, x, y) for x, y in zip(a.args[2], b.args[2])]
        return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and len(x.args[2]) <= 1 and x.args[0] not in values.ENUMS and not values.ENUMISH.search(x.args[0]) and len(x.args[2]) == 1:
            return same(it, e, x.args[2][0], mk("f", y, "", "0")) if y.op != "c" else None
    t = it.vty.get(a) or it.vty.get(b)
    if isint(a) or isint(b) or a.op == "lin" or b.op == "lin" or (t and re.match(r"[ui](8|16|32|64|128|size)$", t)):
        return decide(it, e, ieq(a, b), True)
    if isbool(a) or isbool(b):
        x, y = (a, b) if isbool(b) else (b, a)
        return decide(it, e, x, bval(y))
    if t == "bool" or a.op in ("not", "and", "deq", "le", "ieq") or b.op in ("not", "and", "deq", "le", "ieq"):
        rs = []
        for val in (True, False):
            s = e.state.copy()
            if not it.assume(s, b, val): continue
            rs.append(it.truth(s, a))
            if rs[-1] is not None: rs[-1] = rs[-1] == val
        if any(r is False for r in rs): return False
        if rs and all(r is True for r in rs): return True
        return None
    if known(a) and known(b): return False
    return None

def _pf(a, st):
    out = []
    for _ in range(6):
        if a.op == "ref":
            root, projs = a.args
            out = [str(p[2]) for p in projs if p[0] == "F"] + out
            if root[0] == "O": a = root[1]; continue
            if root[0] == "L" and not projs:
                x = st.store.get(root)
                if x is not None and x.op == "ref": a = x; continue
            break
        if a.op in ("*", "&"): a = a.args[0]; continue
        if a.op == "f": out = [str(a.args[2])] + out; a = a.args[0]; continue
        break
    return out
def placefields(it, st, a): return _pf(a, st)
def argfields(e, i):
    """field names of the place the i-th argument refers to (by reference), else of the value"""
    return _pf(e.rawargs[i] if i < len(e.rawargs) else e.args[i], e.state)
def numeval(v, env):
    """integer value of an expression under an assignment of leaves (None if unknown)"""
    if v in env: return env[v]
    if isint(v): return ival(v)
    if v.op == "lin":
        s = v.args[1]
        for t, k in v.args[0]:
            x = numeval(t, env)
            if x is None: return None
            s += k * x
        return s
    if v.op == "cast": return numeval(v.args[1], env)
    if v.op in ("call", "bin", "un", "min", "max", "abs"):
        nm = v.op if v.op in ("min", "max", "abs") else v.args[0]
        ar = [numeval(x, env) for x in (v.args[1] if v.op == "call" else v.args[1:] if v.op in ("bin", "un") else v.args) if isinstance(x, V)]
        if any(x is None for x in ar): return None
        if "abs" in nm and len(ar) == 1: return abs(ar[0])
        if nm.endswith("min") and len(ar) == 2: return min(ar)
        if nm.endswith("max") and len(ar) == 2: return max(ar)
    return None

class Auto:
    """typestate automaton run along every path: rules are (pattern, step) where step(mon, args) returns the next monitor state,
    None (unchanged) or a string starting with '!' (rule broken)"""
    def __init__(self, init, *rules, writes=()):
        self.init = init; self.rules = [(re.compile(p), f) for p, f in rules]; self.errs = {}; self.seen = {}; self.writes = [(re.compile(p), f) for p, f in writes]
    def __call__(self, it, st, kind, info):
        m = st.mon if st.mon != () else self.init
        if kind == "call":
            names, args, fr, bb = info
            for r, f in self.rules:
                if any(r.search(n) for n in names):
                    self.seen[r.pattern] = self.seen.get(r.pattern, 0) + 1
                    x = f(m, args, it, st) if f.__code__.co_argcount > 2 else f(m, args)
                    self._apply(it, st, x, fr, bb)
                    m = st.mon if st.mon != () else self.init
        elif kind == "write" and self.writes:
            fr, root, projs, v = info
            nm = [str(p[2]) for p in projs if p[0] == "F"]
            for r, f in self.writes:
                if nm and r.search(".".join(nm)): self._apply(it, st, f(m, v), fr, None)
    def _apply(self, it, st, x, fr, bb):
        if x is None: return
        if isinstance(x, str) and x.startswith("!"):
            if it.recording: self.errs.setdefault(x[1:], "%s:%s (%s)" % (fr.fn.file, fr.fn.bb[bb][2] if bb is not None and fr.fn.bb[bb] else fr.fn.line, fr.fn.name))
        else: st.mon = x
    def report(self, c, f, rules):
        """rules: {message: description}"""
        for m, what in rules.items():
            k = "%s: %s" % (short(f), m)
            if m in self.errs: c.bad(k, what, self.errs[m])
            else: c.ok(k, what)
        for m in self.errs:
            if m not in rules: c.bad("%s: %s" % (short(f), m), m, self.errs[m])
def exhausted(e, pat):
    """the state says some iterator matching pat has been run to its end"""
    r = re.compile(pat)
    return any(k[0] == "d" and f == 0 and k[1].op == "call" and re.search(r"::next$|::try_recv$|::pop", k[1].args[0]) and r.search(show(k[1])) for k, f in e.state.facts.items())


def known_elems(v):
    """elements of the literal sequence an iterator runs over, in order"""
    v = strip(v)
    for _ in range(12):
        if v.op in ("&", "*"): v = strip(v.args[0]); continue
        if v.op == "agg" and v.args[0] == "[]": return list(v.args[2])
        if v.op == "call" and v.args[0].endswith("Iterator::rev") and v.args[1]:
            es = known_elems(v.args[1][0]); return es[::-1] if es is not None else None
        if v.op == "call" and re.search(r"::(iter|iter_mut|into_iter|as_slice|as_mut_slice|deref|deref_mut|by_ref)$", v.args[0]) and v.args[1]: v = strip(v.args[1][0]); continue
        return None
    return None
def walk():
    """stub: iterators over a literal sequence yield its elements in order (the monitor state counts them)"""
    def g(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0])); es = known_elems(v)
        if es is None: return None
        s = re.sub(r"#\d+", "", show(v)) + " %s" % (fr.ctx,)
        k = sum(1 for m in st.mon if m[0] == "walk" and m[1] == s)
        if k >= len(es): return NONE
        st.mon = st.mon + (("walk", s, k),)
        while v.op == "&": v = v.args[0]
        return some(mk("&", es[k]) if has(v, lambda x: x.op == "&" or (x.op == "call" and re.search(r"(^|::)iter(_mut)?$", x.args[0]))) else es[k])
    return (r"Iterator::next$", g)
