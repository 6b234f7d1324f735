"""Network targets as sets of peers: every operation is interpreted over a pointwise abstraction of its lists —
whether one arbitrary peer X is in the list, and whether there may be others — so the result holds for lists of any length and content."""
import re
from lib import *
import interp
from props import prop
from props.messages import plain

TG = "lightyear_connection::network_target::Target"
X = mk("p", "X"); EX = mk("p", "EX"); OTHER = mk("p", "OTHER")
UNIT = mk("agg", "()", "", ())
COLL = r"(?:SmallVec|Vec|VecDeque|HashSet|EntityHashSet|IndexSet|BTreeSet|\[T\]|slice|UniqueEntityEquivalentVec)"


class World:
    """state of the abstract lists and iterators on a path, kept in st.mon"""
    def __init__(self, st): self.st = st; self.d = dict(st.mon) if st.mon else {}
    def save(self): self.st.mon = tuple(sorted(self.d.items(), key=lambda x: str(x[0])))
    def bag(self, inx=False, oth="0"):
        n = sum(1 for k in self.d if str(k).startswith("bag"))
        k = "bag:%d" % n; self.d[k] = (inx, oth); return mk("p", k)
    def iter(self, src, twice=False):
        n = sum(1 for k in self.d if str(k).startswith("iter"))
        k = "iter:%d" % n; self.d[k] = (src, 0); return mk("p", k)


def handle(v):
    v = strip(v)
    return str(v.args[0]) if v.op == "p" and re.match(r"(bag|iter):", str(v.args[0])) else None
def isx(v): v = strip(v); return v is X or v is EX


def elems(w, src, order):
    """what iterating over src yields, X first or last; None when open"""
    if isinstance(src, str) and src.startswith("bag:"):
        inx, oth = w.d[src]
        if inx is None: return None
        a = [mk("&", X)] if inx else []
        b = [mk("&", OTHER)] if oth != "0" else []
        return a + b if order else b * 6 + a      # enough of the others to exhaust any inline capacity before X
    return list(src)


def stubs(order, mapped=True):
    def eq(neg):
        def g(it, st, fr, a, sym):
            x, y = (strip(it.normarg(st, v)) for v in a[:2])
            if any(handle(v) for v in (x, y)) or x.op == "agg" and y.op == "agg": return None
            if isx(x) and isx(y): return const(not neg)
            if isx(x) != isx(y): return const(neg)
            return mk("call", "same other", (x, y), sym)
        return g
    def coll(it, st, fr, a, sym):
        w = World(st); name = it.cur_names[0]; last = name.split("::")[-1]
        if re.search(r"(SmallVec|Vec|HashSet|EntityHashSet)(<.*>)?::(new|new_const|with_capacity|with_capacity_and_hasher|default)$|models::new_collection$|Default::default$", name):
            if last == "default" and not re.search(r"SmallVec|Vec|HashSet|EntityHashSet", name + str(it.cur_ta[:1])): return None
            r = w.bag(); w.save(); return r
        if not a: return None
        v0 = it.normarg(st, a[0]); h = handle(v0)
        s0 = strip(v0)
        if last in ("from_slice", "from_buf", "from_vec", "from_elem", "into_vec", "box_assume_init_into_vec_unsafe", "from_const", "to_vec", "to_smallvec", "from_slice_copy"):
            if h and h.startswith("bag"): return mk("p", h) if last in ("from_vec", "into_vec", "from_buf", "box_assume_init_into_vec_unsafe") else clone(w, h)
            if s0.op == "agg" and s0.args[0] in ("[]", "array", "()", ""):
                r = w.bag(any(isx(x) for x in s0.args[2]), "+" if any(not isx(x) for x in s0.args[2]) else "0"); w.save(); return r
            return None
        if h is None or not h.startswith("bag"): return None
        if last == "clone":
            return clone(w, h)
        inx, oth = w.d[h]
        x = it.normarg(st, a[-1]) if len(a) > 1 else None
        if last in ("push", "insert", "push_into", "push_back", "insert_unique_unchecked"):
            # sets report whether the element is new; element-wise only
            if last == "insert" and len(a) > 2: x = it.normarg(st, a[-1])
            if isx(x):
                w.d[h] = (True, oth); w.save()
                return const(not inx) if last == "insert" and inx is not None else UNIT
            w.d[h] = (inx, "+"); w.save()
            return const(True) if oth == "0" and last == "insert" else mk("call", "new other", (), sym) if last == "insert" else UNIT
        if last == "remove" and re.search(r"HashSet", name):
            if isx(x): w.d[h] = (False, oth); w.save(); return const(inx) if inx is not None else None
            if oth != "0": w.d[h] = (inx, "?"); w.save()
            return const(False) if oth == "0" else mk("call", "had other", (), sym)
        if last == "contains":
            if isx(x): return const(inx) if inx is not None else None
            return const(False) if oth == "0" else mk("call", "has other", (), sym)
        if last in ("len", "is_empty"):
            low = (1 if inx else 0) + (1 if oth == "+" else 0)
            if not inx and oth == "0": return const(0) if last == "len" else const(True)
            if last == "is_empty": return const(False) if low else mk("call", "empty", (), sym)
            n = mk("p", "len of %s (%s %s)" % (h, inx, oth)); it.vty[n] = "usize"
            if low: it.assume(st, it.cmpop("Ge", n, const(low), "usize"), True)
            return n
        if last in ("pop", "swap_remove"):
            # taken when it is known to be the only element
            r = X if inx else OTHER
            w.d[h] = (False if inx else inx, "?" if oth != "0" else "0"); w.save(); return some(r) if last == "pop" else r
        if last == "clear": w.d[h] = (False, "0"); w.save(); return UNIT
        if last in ("reserve", "shrink_to_fit", "sort", "sort_unstable", "reserve_exact", "dedup"): return UNIT
        if last in ("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ref", "into_boxed_slice"): return mk("&", mk("p", h))
        if last in ("iter", "iter_mut", "into_iter", "drain", "keys", "collection"):
            r = w.iter(h); w.save()
            if last == "drain": w.d[h] = (False, "0"); w.save()
            return r
        return None
    def clone(w, h):
        r = w.bag(*w.d[h])
        w.save(); return r
    def into(it, st, fr, a, sym):
        v = it.normarg(st, a[0]); h = handle(v); w = World(st); s = strip(v)
        if h and h.startswith("iter"): return mk("p", h)
        if h: r = w.iter(h); w.save(); return r
        if s.op == "agg" and s.args[0] in ("[]", "array"): r = w.iter(tuple(s.args[2])); w.save(); return r
        return None
    def once(it, st, fr, a, sym):
        w = World(st); r = w.iter((it.normarg(st, a[0]),)); w.save(); return r
    def nx(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0]))
        h = handle(v)
        if not h or not h.startswith("iter"): return None
        w = World(st); src, k = w.d[h]
        es = elems(w, src, order)
        if es is None: return None
        if k >= len(es): return NONE
        w.d[h] = (src, k + 1); w.save(); return some(es[k])
    # retain: the closure is applied to X and to another element
    def unk(it, st, fr, a, sym):
        w = World(st); k = w.d.get("retain", 0)
        w.d["retain"] = 0 if k >= 2 else k; w.save()
        return const(k >= 2)
    def el(it, st, fr, a, sym):
        h = handle(it.normarg(st, a[0])); w = World(st)
        if not h or not h.startswith("bag"): return None
        inx, oth = w.d[h]; k = w.d.get("retain", 0)
        first = X if inx else OTHER
        v = first if (k == 0) == bool(order) or not inx else OTHER
        if inx and not order: v = OTHER if k == 0 else X
        return mk("&", v)
    def kept(it, st, fr, a, sym):
        h = handle(it.normarg(st, a[0])); w = World(st)
        if not h or not h.startswith("bag"): return None
        inx, oth = w.d[h]; k = w.d.get("retain", 0)
        keep = it.truth(st, a[1])
        if bval(a[1]) is not None: keep = bval(a[1])
        onx = bool(inx) and ((k == 0) if order else (k == 1))
        if w.d.get("retx"): onx = False
        if onx:
            w.d["retx"] = True
            w.d[h] = (True if keep else False if keep is False else None, oth)
        elif oth != "0": w.d[h] = (inx, "+" if keep and oth == "+" else "?")
        w.d["retain"] = k + 1
        if k + 1 >= 2: w.d.pop("retx", None)
        w.save(); return UNIT
    def lookup(it, st, fr, a, sym):
        m = strip(it.normarg(st, a[0]))
        if m.op != "p" or str(m.args[0]) != "mapping": return None
        if isx(it.normarg(st, a[1])): 
            if it.cur_names[0].endswith("contains_key"): return const(mapped)
            return some(mk("&", EX)) if mapped else NONE
        return None
    return [(r"models::unknown$", unk), (r"models::elem$", el), (r"models::retained$", kept),
            (r"cmp::PartialEq(<.*>)?::eq$", eq(False)), (r"cmp::PartialEq(<.*>)?::ne$", eq(True)),
            (r"HashMap(<.*>)?::(get|contains_key)$", lookup),
            (r"IntoIterator(<.*>)?::into_iter$|::into_iter$", into), (r"iter::(sources::)?(once::)?once$|iter::once$", once), (r"::next$", nx),
            (r"Target::deduplicate$", UNIT), (r"SmallVec(<.*>)?::inline_size$", const(4)),
            (r"::(new|new_const|with_capacity|with_capacity_and_hasher|default|from_slice|from_vec|from_buf|from_elem|into_vec|box_assume_init_into_vec_unsafe|from_const|clone|push|insert|push_back|remove|contains|len|is_empty|pop|swap_remove|clear|reserve|shrink_to_fit|sort|sort_unstable|dedup|as_slice|as_mut_slice|iter|iter_mut|drain|collection)$|models::(new_collection|push_into)$", coll)]


KINDS = ["None", "All"] + ["%s(%s)" % (k, x) for k in ("Single", "AllExceptSingle") for x in ("X", "other")] + ["%s(%s)" % (k, x) for k in ("Only", "AllExcept") for x in ("[]", "[X]", "[others]", "[X, others]")]
def build(kind, w):
    k, _, x = kind.partition("(")
    if k in ("None", "All"): return mk("agg", TG, k, ())
    x = x[:-1]
    if k in ("Single", "AllExceptSingle"): return mk("agg", TG, k, (X if x == "X" else OTHER,))
    return mk("agg", TG, k, (w.bag("X" in x, "+" if "others" in x else "0"),))
def member(kind):
    k, _, x = kind.partition("(")
    return {"None": False, "All": True, "Single": "X" in x, "Only": "X" in x, "AllExceptSingle": "X" not in x, "AllExcept": "X" not in x}[k]
def result(st, v):
    """membership of X in a final target value: True / False / None"""
    v = strip(v)
    if v.op != "agg" or not v.args[0].endswith("Target"): return None
    k = v.args[1]
    if k in ("None", "All"): return k == "All"
    x = v.args[2][0]
    if k in ("Single", "AllExceptSingle"): r = isx(x) if strip(x).op in ("p", "call", "f") else None
    else:
        h = handle(x)
        r = dict(st.mon).get(h, (None,))[0] if h else None
    return None if r is None else r if k in ("Single", "Only") else not r


def given_as(v, name):
    v = strip(v)
    return True if v is mk("p", name) else False if v.op in ("p", "agg", "const") or re.match(r"[-0-9.f]+", show(v)) else None


def judge(c, f, key, es, want, why, bad):
    where = "%s:%s (%s)" % (f.file, f.line, f.name)
    k = "%s: %s" % (short(f), key)
    if not es: c.undecided(k, "no exit"); return
    if any(r is (not want) for r in es): bad.append(key)
    elif any(r is None for r in es): c.undecided(k, why)
    else: c.ok(k, why)


def collect(c, f, bad, what, why):
    if bad: c.bad("%s: %s" % (short(f), what), "%s: wrong for %d cases, e.g. %s" % (why, len(bad), "; ".join(bad[:4])), "%s:%s (%s)" % (f.file, f.line, f.name))


def run(c, key, f, names, order, kinds, mapped=True, extra=(), init2=None, **kw):
    """f with parameters names[i] -> Target of that kind (first one by &mut self when it is called self)"""
    def init(it, st, fr):
        w = World(st)
        for n, kind in zip(names, kinds):
            v = build(kind, w)
            i = next(i for i in range(1, f.argc + 1) if f.names.get(i) == n)
            if str(f.ltys[i]).startswith("&"): st.store[("O", mk("p", n))] = v
            else: st.store[("L", fr.ctx, i)] = v
        if init2: init2(it, st, fr, w)
        w.save()
    def mon(it, st, kind, info):
        if kind == "write" and info[1][0] == "O" and info[1][1] is mk("p", names[0]) and not info[2]:
            w = World(st); w.d["self"] = show(info[3]); w.save()
    s = scen(c, key, f, stubs=list(extra) + stubs(order, mapped), init=init, monitor=mon, writes=True, **kw)
    return s, [e for e in s.it.events if e.kind == "exit"]


@prop("K03", floor=150, explain="every operation on targets is interpreted over the pointwise abstraction of its lists (one arbitrary peer, and the rest) for every pair of shapes; the result's membership is compared with the set operation")
def k03(c):
    P = c.P
    why = "a target is a set of peers"
    # binary operations
    for name, op in (("union", lambda a, b: a or b), ("intersection", lambda a, b: a and b), ("exclude", lambda a, b: a and not b)):
        f = c.fn(TG + "::" + name); bad = []
        n2 = f.names.get(2)
        for a in KINDS:
            for b in KINDS:
                for order in (True, False):
                    s, es = run(c, "%s, %s" % (a, b), f, (f.names.get(1), n2), order, (a, b))
                    judge(c, f, "%s with %s%s" % (a, b, "" if order else " (X last)"), [result(e.state, s.it.rd(e.state, ("O", mk("p", f.names.get(1))), ())) for e in es], op(member(a), member(b)), why, bad)
        collect(c, f, bad, "is the set operation", "membership after %s follows from the memberships before" % name)
    for name in ("inverse", "normalize", "compact"):
        f = P.fn(TG + "::" + name, opt=True)
        if not f: continue
        bad = []
        for a in KINDS:
            for order in (True, False):
                s, es = run(c, a, f, (f.names.get(1),), order, (a,))
                judge(c, f, a + ("" if order else " (X last)"), [result(e.state, s.it.rd(e.state, ("O", mk("p", f.names.get(1))), ())) for e in es], member(a) != (name == "inverse"), why, bad)
        collect(c, f, bad, "keeps the set" if name != "inverse" else "is the complement", why)
    # membership
    f = c.fn(TG + "::targets"); bad = []
    for a in KINDS:
        s, es = run(c, a, f, (f.names.get(1),), True, (a,), args=[None, mk("&", X)])
        judge(c, f, a, [bval(e.val) for e in es], member(a), why, bad)
    collect(c, f, bad, "answers membership", why)

    # lists of peers turned into targets, and targets extended with lists
    LISTS = ["[]", "[X]", "[others]", "[X, others]"]
    def bag(x, w): return w.bag("X" in x, "+" if "others" in x else "0")
    def arg(f, i): return ("L", None, i)
    def given(f, i, mkv):
        def g(it, st, fr, w): st.store[("L", fr.ctx, i)] = mkv(w)
        return g
    ours = [f for f in P.fns.values() if f.kind == "fn" and "network_target" in f.id]
    ext = next((f for f in ours if re.search(r"Target as .*Extend(<.*>)?>::extend$", f.name)), None)
    for f in (ext,):
        if not f: c.undecided("extend", "not found"); continue
        bad = []
        for a in KINDS:
            for l in LISTS:
                for order in (True, False):
                    s, es = run(c, "%s + %s" % (a, l), f, (f.names.get(1),), order, (a,), init2=given(f, 2, lambda w, l=l: bag(l, w)))
                    judge(c, f, "%s with %s%s" % (a, l, "" if order else " (X last)"), [result(e.state, s.it.rd(e.state, ("O", mk("p", f.names.get(1))), ())) for e in es], member(a) or "X" in l, why, bad)
        collect(c, f, bad, "adds the listed peers", why)
    for f in sorted((f for f in ours if re.search(r"Target as .*::(from|from_iter)$|Target::from_exclude$", f.name)), key=lambda f: f.id):
        if f.argc != 1: continue
        bad = []; neg = f.name.endswith("from_exclude")
        for l in LISTS:
            for order in (True, False):
                s, es = run(c, l, f, (), order, (), init2=given(f, 1, lambda w, l=l: bag(l, w)))
                judge(c, f, "%s%s" % (l, "" if order else " (X last)"), [result(e.state, e.val) for e in es], ("X" in l) != neg, why, bad)
        collect(c, f, bad, "holds exactly the listed peers" if not neg else "holds all but the listed peers", why)
    f = P.fn(TG + "::is_empty", opt=True)
    if f:
        bad = []
        for a in KINDS:
            s, es = run(c, a, f, (f.names.get(1),), True, (a,))
            if member(a): judge(c, f, "%s is not empty" % a, [bval(e.val) for e in es], False, why, bad)
            elif a in ("None", "Only([])"): judge(c, f, "%s is empty" % a, [bval(e.val) for e in es], True, why, bad)
        collect(c, f, bad, "is told empty only when it has no peer", why)
    # resolution to the connected clients
    why = "a message goes exactly to the connected clients the target names"
    f = P.fn("lightyear_connection::network_target::NetworkTargetResolver::resolve", opt=True)
    if f:
        bad = []
        for a in KINDS:
            for cl in LISTS:
                for mapped in (True, False):
                    for order in (True, False):
                        def i2(it, st, fr, w, cl=cl):
                            st.store[("O", mk("p", "self"))] = mk("agg", "lightyear_connection::network_target::NetworkTargetResolver", "", (w.bag(True, "+"), w.bag(True, "+")))
                            st.store[("L", fr.ctx, next(i for i in range(1, f.argc + 1) if f.names.get(i) == "clients"))] = mk("&", bag(cl, w))
                        s, es = run(c, a, f, ("target",), order, (a,), mapped=mapped, init2=i2)
                        want = "X" in cl and (member(a) if mapped else a in ("All",) or a.startswith("AllExcept"))
                        rs = []
                        for e in es:
                            h = handle(s.it.normarg(e.state, e.val))
                            rs.append(dict(e.state.mon).get(h, (None,))[0] if h else None)
                        judge(c, f, "%s over clients %s, %s%s" % (a, cl, "registered" if mapped else "not registered", "" if order else " (X last)"), rs, want, why, bad)
        collect(c, f, bad, "resolves to the named clients", why)
    f = P.fn("lightyear_connection::network_target::NetworkTarget::apply_targets", opt=True) or P.fn(TG + "::apply_targets", opt=True)
    if f:
        bad = []
        def call(it, st, fr, a, sym):
            for v in a[1:]:
                v = it.normarg(st, v)
                if v.op == "agg" and v.args[0] in ("()", "tuple") and v.args[2]: v = strip(v.args[2][0])
                if isx(v): w = World(st); w.d["called"] = w.d.get("called", 0) + 1; w.save()
            return UNIT
        for a in KINDS:
            for cl in LISTS:
                for mapped in (True, False):
                    for order in (True, False):
                        s, es = run(c, a, f, ("self",), order, (a,), mapped=mapped, init2=given(f, next(i for i in range(1, f.argc + 1) if f.names.get(i) == "clients"), lambda w, cl=cl: bag(cl, w)), extra=[(r"^dynclosure$", call)])
                        want = "X" in cl and (member(a) if mapped else a in ("All",) or a.startswith("AllExcept"))
                        judge(c, f, "%s over clients %s, %s%s" % (a, cl, "registered" if mapped else "not registered", "" if order else " (X last)"), [dict(e.state.mon).get("called", 0) > 0 for e in es], want, why, bad)
        collect(c, f, bad, "is applied to the named clients", why)
    # duplicates: only a peer that is still listed is dropped
    f = P.fn(TG + "::deduplicate", opt=True)
    if f:
        bad = []; why = "dropping duplicates keeps the set"
        for l in LISTS:
            for order in (True, False):
                def i2(it, st, fr, w, l=l): st.store[("L", fr.ctx, 1)] = mk("&", bag(l, w))
                s, es = run(c, l, f, (), order, (), init2=i2)
                judge(c, f, "%s%s" % (l, "" if order else " (X last)"), [dict(e.state.mon).get("bag:0", (None,))[0] for e in es], "X" in l, why, bad)
        collect(c, f, bad, "keeps every peer", why)
        s = scen(c, "drop", f, events=[r"SmallVec(<.*>)?::(remove|swap_remove|pop|truncate|clear)$"])
        for e in s.it.events:
            if e.kind != "call": continue
            k = "%s: %s" % (short(f), e.names[0].split("::")[-1])
            if not e.names[0].endswith("remove"): c.undecided(k, "an element is dropped another way"); continue
            i = e.args[1]; ok = None
            for l, b in literals(e.state):
                l = strip(l)
                if l.op == "call" and l.args[0].endswith("::contains") and b and len(l.args[1]) == 2:
                    sl, x = strip(l.args[1][0]), strip(l.args[1][1])
                    ok = True if "RangeTo, (%s,)" % show(i) in show(sl) and show(x).endswith("[%s]" % show(i)) else False if "RangeTo" in show(sl) and show(x).endswith("[%s]" % show(i)) else None
            c.tri(ok, k, "the element dropped is one the list holds before it", e.where())
    # the server's sender hands a message to exactly the resolved clients
    f = P.fn("lightyear_messages::server::ServerMultiMessageSender::send_with_priority", opt=True)
    if f:
        s = scen(c, "server send", f, events=[r"NetworkTargetResolver::resolve$", r"MultiMessageSender::send_with_priority$"], monitor=lambda it, st, kind, info: setattr(st, "mon", tuple(st.mon or ()) + (info[0][0].split("::")[-1],)) if kind == "call" and re.search(r"resolve$|send_with_priority$", info[0][0]) else None)
        rs = [e for e in s.it.events if e.kind == "call" and e.names[0].endswith("resolve")]
        ss = [e for e in s.it.events if e.kind == "call" and e.names[0].endswith("send_with_priority")]
        for e in rs:
            c.tri(given_as(e.args[1], "target"), "%s: the target is the caller's" % short(f), "a message goes to exactly the clients its target names", e.where())
            t = show(e.args[2]); c.tri(True if "server" in t and re.search(r"collection|links|as_slice", t) else None, "%s: among the server's clients" % short(f), "a message goes to exactly the clients its target names", e.where())
            c.tri(True if "peer_map" in show(e.args[3]) else None, "%s: by the registered peers" % short(f), "a message goes to exactly the clients its target names", e.where())
        for e in ss:
            c.tri(given_as(e.args[1], "message"), "%s: the message given" % short(f), "a message goes to exactly the clients its target names", e.where())
            c.tri(True if any("resolve" in show(x) for x in e.args[2:3]) else (False if strip(e.args[2]).op == "p" else None), "%s: to the clients resolved" % short(f), "a message goes to exactly the clients its target names", e.where())
            c.tri(given_as(e.args[3], "priority"), "%s: at the priority given" % short(f), "a message goes to exactly the clients its target names", e.where())
        for e in s.exits if hasattr(s, "exits") and not callable(s.exits) else [e for e in s.it.events if e.kind == "exit"]:
            c.tri(tuple(e.state.mon or ()).count("send_with_priority") == 1, "%s: sent once" % short(f), "a message goes to exactly the clients its target names", e.where())
