"""core and sync: tick and id arithmetic, histories, timelines, pings."""
from lib import *
import values
from props import prop
from interp import NORETURN
CO_ = "lightyear_core::"
from props.transport import I
from props.packing import comparator

# ------------------------------------------------------------------------------------------------ circular arithmetic
def circ(v, bits):
    """v as a linear combination modulo 2**bits: ({term: coefficient}, constant), through casts of at least that width and wrapping operations"""
    M = 1 << bits
    def add_(x, y, s=1):
        t = dict(x[0])
        for k, n in y[0].items():
            t[k] = (t.get(k, 0) + s * n) % M
            if not t[k]: del t[k]
        return t, (x[1] + s * y[1]) % M
    def go(v):
        if isint(v): return {}, ival(v) % M
        if v.op == "cast":
            w = re.search(r"(\d+)|size", v.args[0])
            return go(uncast(v)) if w and (not w.group(1) or int(w.group(1)) >= bits) else ({v: 1}, 0)
        if v.op == "call":
            n, a = v.args[0].split("::")[-1], v.args[1]
            if n in ("wrapping_add", "wrapping_add_signed", "wrapping_add_unsigned") and len(a) == 2: return add_(go(a[0]), go(a[1]))
            if n in ("wrapping_sub", "wrapping_sub_unsigned", "wrapping_sub_signed") and len(a) == 2: return add_(go(a[0]), go(a[1]), -1)
            if n == "wrapping_neg" and len(a) == 1: return add_(({}, 0), go(a[0]), -1)
            if n in ("cast_signed", "cast_unsigned"): return go(a[0])
            return {v: 1}, 0
        t, k = lin_of(v)
        if len(t) == 1 and t[0][1] == 1 and not k: return {t[0][0]: 1}, 0
        r = ({}, k % M)
        for x, n in t:
            y = go(x); r = add_(r, ({kk: (c * n) % M for kk, c in y[0].items()}, y[1] * n % M))
        return r
    return go(v)
def circeq(v, terms, bits):
    a, k = circ(v, bits); M = 1 << bits
    w = {x: n % M for x, n in terms}
    if (a, k) == (w, 0): return True
    return False if all(x in w for x in a) else None

def refuted(it, v, want, bits):
    """the expression v, evaluated at sample values of its leaves, differs modulo 2**bits from the combination `want` [(term, coefficient)]"""
    M = 1 << bits; terms = [x for x, _ in want]
    def ty(x):
        if x.op == "call":
            m = re.search(r"Fixed([UI])(\d+)|\b([ui])(\d+)::", x.args[0])
            if m: return (m.group(1) or m.group(3)).lower() == "i", int(m.group(2) or m.group(4))
        m = re.match(r"([ui])(\d+)$", str(tyof(it, x) or ""))
        return (m.group(1) == "i", int(m.group(2))) if m else None
    def wrap(n, t):
        n %= 1 << t[1]
        return n - (1 << t[1]) if t[0] and n >= 1 << (t[1] - 1) else n
    def clamp(n, t):
        lo, hi = (-(1 << t[1] - 1), (1 << t[1] - 1) - 1) if t[0] else (0, (1 << t[1]) - 1)
        return min(max(n, lo), hi)
    def ev(x, env):
        if x in env: return env[x]
        if isint(x): return ival(x)
        if x.op == "cast":
            n = ev(uncast(x) if False else x.args[1], env); m = re.match(r"([ui])(\d+)$", x.args[0])
            return None if n is None or not m else wrap(n, (m.group(1) == "i", int(m.group(2))))
        if x.op == "lin":
            n = x.args[1]
            for t, k in x.args[0]:
                q = ev(t, env)
                if q is None: return None
                n += k * q
            return n
        if x.op == "bin" and x.args[0] in ("BitAnd", "BitOr", "BitXor", "Rem", "Div"):
            p, q = ev(x.args[1], env), ev(x.args[2], env)
            if p is None or q is None or p < 0 or q < 0 or (x.args[0] in ("Rem", "Div") and q == 0): return None
            return {"BitAnd": p & q, "BitOr": p | q, "BitXor": p ^ q, "Rem": p % q if q else 0, "Div": p // q if q else 0}[x.args[0]]
        if x.op in ("min", "max") or x.op == "call":
            nm = x.op if x.op != "call" else x.args[0].split("::")[-1]
            ar = [ev(strip(a), env) for a in (x.args if x.op != "call" else x.args[1]) if isinstance(a, V)]
            if any(a is None for a in ar): return None
            if nm in ("min", "max") and len(ar) == 2: return min(ar) if nm == "min" else max(ar)
            t = ty(x)
            if t is None: return None
            m = re.match(r"(wrapping|saturating)_(add|sub|neg)", nm)
            if m:
                n = -ar[0] if m.group(2) == "neg" else ar[0] + ar[1] if m.group(2) == "add" else ar[0] - ar[1]
                return wrap(n, t) if m.group(1) == "wrapping" else clamp(n, t)
            if nm in ("cast_signed", "cast_unsigned"): return wrap(ar[0], (nm == "cast_signed", t[1]))
            if nm == "abs_diff": return abs(ar[0] - ar[1])
        return None
    import itertools
    S = [0, 1, 2, 3, 1000, M // 2 - 1, M // 2, M // 2 + 1, M - 2, M - 1]
    for vals in itertools.product(S, repeat=len(terms)):
        env = {}
        for x, n in zip(terms, vals):
            t = ty(x); env[x] = wrap(n, t) if t and t[1] == bits else n
        r = ev(v, env)
        if r is None: return None
        if (r - sum(k * env[x] for x, k in want)) % M: return True
    return None
def impl(c, P, ty, tr, m):
    n = "<%s as %s>::%s" % (ty, tr, m)
    f = next((f for f in P.fns.values() if f.name == n), None)
    if f is None: raise MissingAnchor(n)
    return c.fn(n)
def args2(f): return [mk("p", f.names.get(i, "_%d" % i)) for i in (1, 2)]
def val0(v): return v.args[2][0] if v.op == "agg" and v.args[2] else fld(v, "0")

@prop("T14", floor=14, explain="""The arithmetic of every wrapping id is reduced to linear form modulo 2^16 through casts and wrapping operations and compared with the intended combination; the ordering is evaluated per sign of the
circular distance. A search over the program requires that no other code orders ids by their raw numbers.""")
def t14(c):
    P = c.P
    ids = sorted({a for a in P.adts if re.search(r"_module::\w+$", a) and a.startswith("lightyear_")})
    c.check(len(ids) >= 2, "ids", "packets and messages are numbered with wrapping ids", str(ids))
    for ty in ids:
        n = ty.split("::")[-1]
        has_impl = lambda tr, m: any(f.name == "<%s as %s>::%s" % (ty, tr, m) for f in P.fns.values())
        A = "core::ops::arith::"
        for tr, m, k1, k2, what in ((A + "Sub<%s>" % ty, "sub", 1, -1, "the difference of two ids is their circular distance"), (A + "Sub<u16>", "sub", 1, -1, "moving back wraps"), (A + "Add<%s>" % ty, "add", 1, 1, "moving on wraps"),
                                    (A + "Add<i16>", "add", 1, 1, "moving on wraps"), (A + "AddAssign<u16>", "add_assign", 1, 1, "moving on wraps")):
            if not has_impl(tr, m): continue
            f = c.fn("<%s as %s>::%s" % (ty, tr, m)); a, b = args2(f)
            s = scen(c, n + " " + m + " " + tr.split("<")[-1], f, writes=True)
            a0 = fld(mk("*", a), "0") if m == "add_assign" else fld(a, "0")
            b0 = fld(b, "0") if tr.endswith(n + ">") else b
            for e in s.ev(None, "exit"):
                v = post(e, a0) if m == "add_assign" else e.val
                if v.op == "agg": v = val0(v)
                w = [(a0, k1), (b0, k2)]; q = circeq(v, w, 16)
                c.tri(False if q is None and refuted(s.it, v, w, 16) else q, n + ": " + tr.split("::")[-1], what, e.where())
                if tr.startswith(A + "Sub<%s" % ty): c.tri(True if v.op == "cast" and v.args[0] == "i16" or v.op == "call" and "cast_signed" in v.args[0] else None, n + ": signed distance", "the distance is signed", e.where())
            for e in s.ev(None, "assert"): c.bad(n + ": panics " + tr, "arithmetic on ids does not overflow") if e.kind == "assert" and "Overflow" in str(e.names) else None
        f = impl(c, P, ty, "core::cmp::PartialOrd<%s>" % ty, "partial_cmp"); a, b = args2(f)
        a0, b0 = fld(mk("*", a), "0"), fld(mk("*", b), "0")
        probe = scen(c, n + " order", f)
        terms = {}
        for e in probe.ev(None, "exit"):
            for k in e.state.facts:
                if k[0] == "i":
                    for t, _ in k[1]:
                        if t.op in ("cast", "call"):
                            if circeq(t, [(b0, 1), (a0, -1)], 16): terms[t] = -1
                            if circeq(t, [(a0, 1), (b0, -1)], 16): terms[t] = 1
        if not terms: c.undecided(n + " order", "the order is computed in a way that is not recognised"); continue
        for sg, w in ((-1, "Less"), (0, "Equal"), (1, "Greater")):
            ass = lambda it: [((ieq(t, I(0)), True) if sg == 0 else (le(I(1), mul(t, I(o * sg))), True)) for t, o in terms.items()]
            s = scen(c, "%s order %d" % (n, sg), f, assume=ass)
            def good(e):
                v = e.val
                if v.op != "agg" or v.args[1] != "Some": return False if v.op == "agg" else None
                v = v.args[2][0]
                return v.args[1] == w if v.op == "agg" else None
            s.exits(good, "an id ahead by less than half the range is newer", tag="order")

@prop("C01", floor=10, explain="""Tick arithmetic is evaluated in each of the cases of its exact mathematical result lying below, inside and above the representable range: inside it must be exact, outside it must stop at the nearest bound.
The shared minimum tick is evaluated as a typestate over its compare-and-exchange loop.""")
def c01(c):
    P = c.P; T = CO_ + "tick::Tick"; A = "core::ops::arith::"
    MAX = 2**32 - 1
    def case(tr, m, bt, sign):
        f = impl(c, P, T, A + tr, m); a, b = args2(f)
        a0 = fld(mk("*", a), "0") if m == "add_assign" else fld(a, "0"); b0 = fld(b, "0") if bt else b
        exact = add(a0, b0) if sign > 0 else sub(a0, b0)
        for key, cond, want in (("inside", [(le(I(0), exact), True), (le(exact, I(MAX)), True)], exact), ("above", [(le(I(MAX + 1), exact), True)], I(MAX)), ("below", [(le(exact, I(-1)), True)], I(0))):
            if key == "below" and sign > 0 and "i32" not in tr: continue
            if key == "above" and sign < 0: continue
            s = scen(c, "%s %s" % (tr, key), f, assume=lambda it: cond, writes=True)
            def good(e):
                v = post(e, a0) if m == "add_assign" else val0(e.val)
                q = same(s.it, e, v, want)
                if q is None and circeq(v, [(a0, 1), (b0, sign)], 32): return key == "inside"
                return q
            s.exits(good, "tick arithmetic is exact inside the range and stops at its ends", tag=key)
    case("Add<%s>" % T, "add", True, 1); case("AddAssign<u32>", "add_assign", False, 1); case("Sub<u32>", "sub", False, -1); case("Add<i32>", "add", False, 1)
    f = impl(c, P, T, A + "Sub<%s>" % T, "sub"); a, b = args2(f); ex = sub(fld(a, "0"), fld(b, "0"))
    for key, cond, want in (("inside", [(le(I(-2**31), ex), True), (le(ex, I(2**31 - 1)), True)], ex), ("above", [(le(I(2**31), ex), True)], I(2**31 - 1)), ("below", [(le(ex, I(-2**31 - 1)), True)], I(-2**31))):
        s = scen(c, "difference " + key, f, assume=lambda it: cond)
        s.exits(lambda e: same(s.it, e, uncast(e.val), want) or same(s.it, e, e.val, want), "the difference of ticks is exact inside the range and stops at its ends", tag=key)

    # instants and deltas are fixed-point numbers of 64 bits
    TI, TD = CO_ + "time::TickInstant", CO_ + "time::TickDelta"
    for ty, tr, m, sg, what in ((TI, "Add<%s>" % TD, "add", 1, "an instant moved by a delta"), (TI, "Sub<%s>" % TD, "sub", -1, "an instant moved back by a delta"), (TI, "Sub<%s>" % TI, "sub", -1, "the delta between instants"),
                                (TD, "Add<%s>" % TD, "add", 1, "the sum of deltas"), (TD, "Sub<%s>" % TD, "sub", -1, "the difference of deltas")):
        f = impl(c, P, ty, A + tr, m); a, b = args2(f); s = scen(c, what, f); w = [(fld(a, "value"), 1), (fld(b, "value"), sg)]
        for e in s.ev(None, "exit"):
            v = val0(e.val); q = circeq(v, w, 64)
            c.tri(False if q is None and refuted(s.it, v, w, 64) else q, what, "time is added and subtracted exactly, tick and fraction together", e.where())
    # a delta read from a peer is unsigned; the signed one stops at its end instead of turning negative
    PT = CO_ + "time::PositiveTickDelta"
    f = impl(c, P, TD, "core::convert::From<%s>" % PT, "from"); v0 = fld(mk("p", f.names.get(1, "value")), "value"); s = scen(c, "unsigned delta as a signed one", f)
    for e in s.ev(None, "exit"):
        v = val0(e.val); n = v.args[0].split("::")[-1] if v.op == "call" and v.args[1] and strip(v.args[1][0]) is v0 else ""
        q = True if re.match(r"saturating_(to|from)_(fixed|num)$", n) else False if re.match(r"(wrapping|overflowing|unwrapped)_|cast_signed|to_bits", n) else None
        c.tri(q, "unsigned delta", "a received delta that no signed delta can represent stops at the largest one", e.where())
    # a shared minimum, lowered concurrently
    f = c.fn(CO_ + "tick::AtomicTick::set_if_lower"); new = fld(mk("p", f.names.get(2, "new_value")), "0"); seen = [mk("p", "seen%d" % k) for k in range(4)]
    for n in range(3):
        for last in ("lower", "not lower"):
            odd = set()
            def load(it, st, fr, a, sym): return seen[0] if st.mon == () else (odd.add("read again"), None)[1]
            def cas(it, st, fr, a, sym):
                k = st.mon[0] if st.mon else 0
                if k > n: odd.add("attempted after it was settled"); return None
                good = it.normarg(st, a[1]) is seen[k] and it.normarg(st, a[2]) is new
                st.mon = (k + 1, (st.mon[1] if st.mon else True) and good)
                return okv(seen[k]) if k == n else errv(seen[k + 1])
            ass = lambda it: [(lt(new, seen[k]), True) for k in range(n)] + [(lt(new, seen[n]), last == "lower")] + [(le(I(0), x), True) for x in seen]
            s = scen(c, "minimum, %d failed attempts, %s" % (n, last), f, assume=ass, stubs=[(r"::load$", load), (r"::compare_exchange(_weak)?$", cas)], events=[r"fetch_min"])
            if s.ev(r"fetch_min"): s.each(r"fetch_min", lambda e: same(s.it, e, e.args[1], new), "the minimum is taken with the new tick"); continue
            if odd: c.undecided("minimum", str(odd)); continue
            want = n + 1 if last == "lower" else n
            s.exits(lambda e: (e.state.mon or (0, True)) == (want, True), "the shared minimum is replaced exactly when the new tick is lower than the one that is there", tag="minimum")
# ------------------------------------------------------------------------------------------------ C02
HB = CO_ + "history_buffer::HistoryBuffer::"
def R(k): return mk("p", "R%d" % k)
def E(k): return mk("*", R(k))
TICK = mk("p", "tick")
def fixed(it, st, v):
    """v, as a number where the facts leave it no choice"""
    if isint(v): return v
    r = it.vrange(st, v)
    return I(r[0]) if r and r[0] is not None and r[0] == r[1] else v
class Deque:
    """a deque of n entries (E0 .. En-1) in increasing order of tick, with the sign of each entry's tick relative to the queried tick; st.mon is the sequence of entries"""
    def __init__(self, c, n, signs, field="buffer"):
        self.c, self.n, self.signs, self.field, self.preds, self.odd = c, n, signs, field, {}, set()
    def init(self, it, st, fr): st.mon = (tuple(E(k) for k in range(self.n)), None)
    def facts(self):
        out = []
        for k in range(self.n):
            d = sub(fld(E(k), "0", "0"), fld(TICK, "0")); s = self.signs[k]
            out.append((ieq(d, I(0)), True) if s == 0 else (le(I(1), mul(d, I(s))), True))
            if k: out.append((lt(fld(E(k - 1), "0", "0"), fld(E(k), "0", "0")), True))
        return out
    def sign(self, v):
        for k in range(self.n):
            if v is E(k): return self.signs[k] if self.signs else 2
        if v.op == "agg" and v.args[2] and strip(v.args[2][0]) is TICK: return 0
        return None
    def pred(self, v):
        """(true below, true at, true above) of a predicate on an entry's tick"""
        if v in self.preds: return self.preds[v]
        self.preds[v] = None
        g = comparator(self.c, v)
        if g is not None:
            self.c.fn(g.name); r = []
            for s in (-1, 0, 1):
                sc = scen(self.c, "predicate %d" % s, g)
                ls = {x for e in sc.ev(None, "exit") for x in leaves(e) if x.op in ("f", "*", "p")}
                el = [x for x in ls if "arg2" in show(x) and endswith(x, "0")]; tk = [x for x in ls if "arg2" not in show(x) and "self" in show(x)]
                el = sorted(el, key=lambda x: -len(show(x)))[:1]; tk = sorted(tk, key=lambda x: -len(show(x)))[:1]
                if not el or not tk: return None
                d = sub(el[0], tk[0])
                q = scen(self.c, "predicate %d" % s, g, assume=lambda it: [((ieq(d, I(0)), True) if s == 0 else (le(I(1), mul(d, I(s))), True))])
                vs = {q.it.truth(e.state, e.val) for e in q.ev(None, "exit")}
                if len(vs) != 1 or None in vs: return None
                r.append(vs.pop())
            self.preds[v] = tuple(r)
        return self.preds[v]
    def stubs(self):
        def mine(it, st, a): return a and self.field in placefields(it, st, a[0]) or (a and has(strip(it.normarg(st, a[0])), lambda x: endswith(x, self.field)))
        def mon(st): return st.mon[0]
        def put(st, x): st.mon = (tuple(x), st.mon[1])
        def ref(v):
            for k in range(self.n):
                if v is E(k): return R(k)
            return mk("&", v)
        def f(kind):
            def g(it, st, fr, a, sym):
                if not mine(it, st, a): return None
                s = mon(st); m = it.cur_names[0].split("::")[-1]
                if kind == "pp":
                    p = self.pred(a[1])
                    cap = it.normarg(st, a[1])
                    if cap.op == "agg" and any(strip(x) is not TICK and not (strip(x) is fld(TICK, "0")) for x in cap.args[2]): self.odd.add("captured %s" % show(cap)[:60]); return None
                    ks = [self.sign(v) for v in s]
                    if p is None or None in ks: self.odd.add("predicate"); return None
                    n = 0
                    while n < len(s) and p[ks[n] + 1]: n += 1
                    if any(p[k + 1] for k in ks[n:]): self.odd.add("unsorted predicate"); return None
                    return I(n)
                if kind == "len": return I(len(s)) if m == "len" else const(not s)
                if kind == "get":
                    i = fixed(it, st, a[1])
                    if not isint(i): self.odd.add("index"); return None
                    ok_ = 0 <= ival(i) < len(s)
                    if m in ("index", "index_mut"): return ref(s[ival(i)]) if ok_ else NORETURN
                    return some(ref(s[ival(i)])) if ok_ else NONE
                if kind == "end":
                    if not s: return NONE
                    return some(ref(s[0] if m.startswith("front") else s[-1]))
                if kind == "pop":
                    if not s: return NONE
                    v = s[0] if m == "pop_front" else s[-1]
                    put(st, s[1:] if m == "pop_front" else s[:-1])
                    w = it.valof(st, v) if hasattr(it, "valof") else v
                    return some(v)
                if kind == "push":
                    v = strip(it.normarg(st, a[1]))
                    put(st, (v,) + s if m == "push_front" else s + (v,))
                    return UNIT
                if kind == "insert":
                    if not isint(fixed(it, st, a[1])): self.odd.add("index"); return None
                    put(st, s[:ival(fixed(it, st, a[1]))] + (strip(it.normarg(st, a[2])),) + s[ival(fixed(it, st, a[1])):]); return UNIT
                if kind == "clear": put(st, ()); return UNIT
                if kind == "trunc":
                    if not isint(fixed(it, st, a[1])): self.odd.add("index"); return None
                    put(st, s[:max(0, ival(fixed(it, st, a[1])))]); return UNIT
                if kind == "drain":
                    r = a[1]
                    if r.op == "agg" and r.args[0].endswith("RangeFull"): lo, hi = 0, len(s)
                    elif r.op == "agg" and "Range" in r.args[0] and all(isint(x) for x in r.args[2]):
                        xs = [ival(x) for x in r.args[2]]
                        lo, hi = (xs[0], xs[1]) if r.args[0].endswith("::Range") else (0, xs[0]) if r.args[0].endswith("RangeTo") else (0, xs[0] + 1) if r.args[0].endswith("RangeToInclusive") else (xs[0], len(s)) if r.args[0].endswith("RangeFrom") else (0, -1)
                    else: self.odd.add("range"); return None
                    if not 0 <= lo <= hi <= len(s): self.odd.add("range"); return None
                    put(st, s[:lo] + s[hi:])
                    return mk("p", "drained")
            return g
        def counted_(it, st, fr, a, sym):
            """a loop over literal indices is followed index by index"""
            m = it.cur_names[0].split("::")[-1]
            if m == "into_iter":
                v = it.normarg(st, a[0])
                if v.op != "agg" or not v.args[0].endswith("::Range"): return None
                xs = [fixed(it, st, x) for x in v.args[2]]
                if len(xs) != 2 or not all(isint(x) for x in xs): return None
                st.mon = (st.mon[0], tuple(I(i) for i in range(ival(xs[0]), ival(xs[1])))); return mk("p", "sequence")
            if not has(strip(it.normarg(st, a[0])), lambda x: x is mk("p", "sequence")) or st.mon[1] is None: return None
            q = st.mon[1]
            if not q: return NONE
            st.mon = (st.mon[0], q[1:] if m == "next" else q[:-1]); return some(q[0] if m == "next" else q[-1])
        D = r"VecDeque::"
        return [(r"IntoIterator\S*::into_iter$|Iterator\S*::(next|next_back)$", counted_), (D + r"partition_point$", f("pp")), (D + r"(len|is_empty)$", f("len")), (D + r"(get|get_mut|index|index_mut)$|(Index|IndexMut)[\w:<>]*::(index|index_mut)$", f("get")), (D + r"(front|back|front_mut|back_mut)$", f("end")), (D + r"pop_(front|back)$", f("pop")),
                (D + r"push_(front|back)$", f("push")), (D + r"insert$", f("insert")), (D + r"clear$", f("clear")), (D + r"truncate$", f("trunc")), (D + r"drain$", f("drain"))]
    def final(self, e):
        s = e.state.mon[0]
        out = []
        for v in s:
            if self.sign(v) is not None and v.op == "*":
                t, x = post(e, fld(v, "0")), post(e, fld(v, "1"))
                w = post(e, v)
                if w is not v and w.op == "agg": t, x = w.args[2][0], w.args[2][1]
                out.append((t, x))
            elif v.op == "agg" and len(v.args[2]) == 2: out.append((v.args[2][0], v.args[2][1]))
            else: out.append((fld(v, "0"), fld(v, "1")))
        return out
def shapes(nmax):
    for n in range(nmax + 1):
        for k in range(n + 1):
            for at in ((False, True) if k < n else (False,)):
                yield n, [-1] * k + ([0] if at else [1] if k < n else []) + [1] * (n - k - 1 if k < n else 0)
def same_entries(s, e, got, want):
    """want: list of (tick, state) with None as a wildcard"""
    if len(got) != len(want): return False
    r = True
    for (gt, gs), (wt, ws) in zip(got, want):
        for g, w in ((gt, wt), (gs, ws)):
            q = same(s.it, e, g, w)
            if q is not True and w.op != "agg" and g.op != "agg" and (w is TICK or g is TICK) and same(s.it, e, fld(g, "0"), fld(w, "0")) is True: q = True   # the same tick
            if q is not True and w.op != "agg" and g.op == "agg" and g.args[1] and not g.args[2]:
                d = e.state.facts.get(("d", w)); va = variant_no(s, g)
                if d is not None and d == va: q = True
            if q is False: return False
            if q is None: r = None
    return r
def somev(s, e, want):
    """the value is Some(want) or Some(&want)"""
    v = e.val
    if v.op != "agg": return None
    if v.args[1] != "Some": return False
    x = s.it.normarg(e.state, v.args[2][0])
    while x.op == "&": x = x.args[0]
    q = same(s.it, e, x, want)
    if q is None and x.op == "agg" and x.args[1] and not x.args[2]:
        d = e.state.facts.get(("d", want))
        if d is not None: return d == variant_no(s, x)
    return q
def variant_no(s, g):
    try: return variant(s.it.P, g.args[0], g.args[1])
    except Exception: return None

@prop("C02", floor=60, explain="""Every operation of a history is evaluated on every shape of a history of up to three entries relative to the queried tick (how many entries are older, whether one is exactly at it), with the
deque tracked as a sequence of symbolic entries; the entries left and the value returned are compared with those the definition 'the value in force at a tick is that of the newest entry not newer than it' gives.""")
def c02(c):
    P = c.P
    HS = CO_ + "history_buffer::HistoryState"; UP, RM = variant(P, HS, "Updated"), variant(P, HS, "Removed")
    def run(fname, n, signs, extra=lambda it: [], key="", owned=True):
        f = c.fn(HB + fname); d = Deque(c, n, signs)
        s = scen(c, "%s %s%s" % (fname, "".join("<=>"[x + 1] for x in signs), key), f, assume=lambda it: d.facts() + extra(it), stubs=d.stubs(), writes=True, init=d.init)
        if d.odd: c.undecided(fname, str(d.odd)); return None, None, f
        return s, d, f
    T = lambda k: fld(E(k), "0"); S = lambda k: fld(E(k), "1")
    for n, signs in shapes(3):
        newest = max([k for k in range(n) if signs[k] <= 0], default=None)
        keep = [(T(k), S(k)) for k in range(n)]
        # the value in force
        for st in ((UP, RM) if newest is not None else (None,)):
            ex = lambda it: [(deq(S(newest), st), True)] if st is not None else []
            s, d, f = run("get", n, signs, ex, " %s" % st)
            if s:
                if newest is None or st == RM: s.exits(lambda e: same(s.it, e, e.val, NONE), "no value before the first entry or once removed", tag="value")
                else: s.exits(lambda e: somev(s, e, mk("f", S(newest), "Updated", "0")), "the value at a tick is that of the newest entry not newer than it", tag="value")
        s, d, f = run("get_state", n, signs)
        if s:
            if newest is None: s.exits(lambda e: same(s.it, e, e.val, NONE), "no state before the first entry", tag="state")
            else: s.exits(lambda e: somev(s, e, S(newest)), "the state at a tick is that of the newest entry not newer than it", tag="state")
        def left(fname, want, what, extra=lambda it: [], key="", ret=None):
            s, d, f = run(fname, n, signs, extra, key)
            if not s: return
            s.exits(lambda e: same_entries(s, e, d.final(e), want), what, tag="entries")
            if ret is not None:
                if ret is NONE: s.exits(lambda e: same(s.it, e, e.val, NONE), "nothing is returned before the first entry", tag="returned")
                else: s.exits(lambda e: somev(s, e, ret), "the state in force at the tick is returned", tag="returned")
        later = [(T(k), S(k)) for k in range(n) if signs[k] > 0]
        left("clear_until_tick", ([(TICK, S(newest))] if newest is not None else []) + later, "forgetting the past keeps the state in force at the tick and everything later")
        left("clear_after_tick", [(T(k), S(k)) for k in range(n) if signs[k] <= 0], "forgetting the future keeps everything up to the tick")
        for st in ((UP, RM) if newest is not None else (None,)):
            ex = lambda it: [(deq(S(newest), st), True)] if st is not None else []
            left("pop_until_tick", ([(TICK, S(newest))] if newest is not None else []) + later, "popping keeps the state in force at the tick and everything later", ex, " %s" % st, S(newest) if newest is not None else NONE)
            left("clear_except_tick", [(TICK, S(newest))] if newest is not None else [], "only the state in force at the tick is kept", ex, " %s" % st, S(newest) if newest is not None else NONE)
        # adding: histories grow at the end
        if not any(x > 0 for x in signs):
            base = [(T(k), S(k)) for k in range(n) if signs[k] < 0]
            left("add_state", base + [(TICK, mk("p", "state"))], "a new state is added once at its tick")
            left("add_update", base + [(TICK, mk("agg", HS, "Updated", (mk("p", "value"),)))], "a new value is added once at its tick")
            left("add_remove", base + [(TICK, mk("agg", HS, "Removed", ()))], "a removal is added once at its tick")
            if n and signs[-1] <= 0: left("set_most_recent_tick", keep[:-1] + [(TICK, S(n - 1))], "the newest entry moves to the tick")
        if not signs or n == 2: left("clear", [], "a cleared history is empty")
        if n:
            s, d, f = run("pop", n, signs)
            if s: s.exits(lambda e: same_entries(s, e, d.final(e), keep[1:]), "the oldest entry is popped", tag="entries")
    for f, key in ((HB + "update_ticks", "history"),):
        shifts(c, f, key)
def shifts(c, name, key):
    f = c.fn(name); dl = mk("p", f.names.get(2, "delta"))
    s = scen(c, key + " shift", f, writes=True)
    ws = [e for e in s.ev(None, "write") if wfield(e) == "0"]
    if not ws: c.undecided(key + " shift", "ticks are shifted in another way"); return
    for e in ws:
        v = e.val.args[2][0] if e.val.op == "agg" else e.val
        ok_ = v.op == "call" and "add_signed" in v.args[0] and endswith(v.args[1][0], "0") and uncast(v.args[1][1]) is dl or v.op == "lin" and has(v, lambda x: x is dl)
        c.tri(True if ok_ else None if not known(v) else False, key + " shift: all", "every entry moves by the same number of ticks", e.where())
    s.exhausts("every entry of the history is moved", src=r"iter_mut|buffer", tag="shift")

# ------------------------------------------------------------------------------------------------ C03
CH = CO_ + "confirmed_history::"
CS = CH + "ConfirmedHistoryState"
class States(Deque):
    """a confirmed history: entries are explicit updates (U), explicit removals (R) or marked unchanged (S); iteration over entries or indices is followed as a concrete sequence"""
    def __init__(self, c, kinds, signs, eq=None, stuff=None):
        super().__init__(c, len(kinds), signs); self.kinds, self.eq, self.compared, self.stuff = kinds, eq, [], stuff
    def init(self, it, st, fr): st.mon = (tuple(E(k) for k in range(self.n)), self.stuff)
    def facts(self):
        P = self.c.P; out = super().facts() if self.signs else []
        for k, x in enumerate(self.kinds):
            out.append((deq(fld(E(k), "1"), variant(P, CS, "SameAsPrecedent" if x == "S" else "Explicit")), True))
            if x != "S": out.append((deq(self.state(k), variant(P, CO_ + "history_buffer::HistoryState", "Updated" if x == "U" else "Removed")), True))
        return out
    def state(self, k): return mk("f", fld(E(k), "1"), "Explicit", "0")
    def value(self, k): return mk("f", self.state(k), "Updated", "0")
    def explicit(self, k):
        """the entry an entry's state comes from"""
        while k is not None and k >= 0 and self.kinds[k] == "S": k -= 1
        return k if k is not None and k >= 0 else None
    def stubs(self):
        def seq(it, st, fr, a, sym):
            m = it.cur_names[0].split("::")[-1]; nm = it.cur_names[0]
            if m in ("iter", "iter_mut"):
                if "VecDeque" not in nm: return None
                st.mon = (st.mon[0], tuple(self.ref(v) for v in st.mon[0])); return mk("p", "sequence")
            if nm.endswith("RangeInclusive::new"):
                a = [fixed(it, st, x) for x in a]
                if not all(isint(x) for x in a): self.odd.add("range"); return None
                st.mon = (st.mon[0], tuple(I(i) for i in range(ival(a[0]), ival(a[1]) + 1))); return mk("p", "sequence")
            if m in ("rev", "take", "skip"):
                v = it.normarg(st, a[0])
                if v.op == "agg" and v.args[0].endswith("Range") and all(isint(x) for x in v.args[2]): q = tuple(I(i) for i in range(ival(v.args[2][0]), ival(v.args[2][1])))
                else: q = st.mon[1]
                if q is None: self.odd.add("sequence"); return None
                if m == "rev": q = q[::-1]
                else:
                    if not isint(a[1]): self.odd.add("take"); return None
                    q = q[:ival(a[1])] if m == "take" else q[ival(a[1]):]
                st.mon = (st.mon[0], q); return mk("p", "sequence")
            if m in ("next", "next_back"):
                q = st.mon[1]
                if q is None: self.odd.add("sequence"); return None
                if not q: return NONE
                st.mon = (st.mon[0], q[1:] if m == "next" else q[:-1]); return some(q[0] if m == "next" else q[-1])
        def equal(it, st, fr, a, sym):
            if self.eq is None: return None
            vs = [it.normarg(st, x) for x in a]
            vs = [x for x in vs]
            def bare_(x):
                while x.op == "&" or (x.op == "agg" and x.args[1] == "Some"): x = x.args[0] if x.op == "&" else it.normarg(st, x.args[2][0])
                return x
            vs = [bare_(x) for x in vs]
            if not any(has(x, lambda y: y is mk("p", "state")) for x in vs): return None
            self.compared.append(vs); return values.TRUE if self.eq else values.FALSE
        return [(r"(VecDeque|IntoIterator\S*|RangeInclusive|Iterator\S*)::(iter|iter_mut|new|rev|take|skip|next|next_back)$", seq), (r"PartialEq(<.*>)?::eq$|as core::cmp::PartialEq(<.*>)?>::eq$", equal)] + super().stubs()
    def ref(self, v):
        for k in range(self.n):
            if v is E(k): return R(k)
        return mk("&", v)
def kinds(n):
    import itertools
    for ks in itertools.product("URS", repeat=n):
        if not ks or ks[0] != "S": yield "".join(ks)

@prop("C03", floor=200, explain="""Every operation of a confirmed history is evaluated on every shape of up to three entries: each an explicit value, an explicit removal or marked unchanged, and older than, at or newer
than the queried tick. Loops over entries are followed entry by entry. The entries left and the value returned are compared with those of the definition: an unchanged entry stands for the closest explicit one before it.""")
def c03(c):
    P = c.P; X = CH + "ConfirmedHistory::"
    ST = mk("p", "state")
    EXP = lambda v: mk("agg", CS, "Explicit", (v,)); SAME = mk("agg", CS, "SameAsPrecedent", ())
    def run(f, d, key, extra=lambda it: []):
        s = scen(c, key, f, assume=lambda it: d.facts() + extra(it), stubs=d.stubs(), writes=True, init=d.init)
        if d.odd: c.undecided(key, str(sorted(d.odd))); return None
        return s
    def result(s, want, what, tag):
        if want is NONE: s.exits(lambda e: same(s.it, e, e.val, NONE), what, tag=tag)
        else: s.exits(lambda e: somev(s, e, want) if not isinstance(want, tuple) else pair(s, e, want), what, tag=tag)
    def pair(s, e, want):
        v = e.val
        if v.op != "agg": return None
        if v.args[1] != "Some": return False
        t = v.args[2][0]
        if t.op != "agg" or len(t.args[2]) != 2: return None
        x = s.it.normarg(e.state, t.args[2][1])
        while x.op == "&": x = x.args[0]
        return same(s.it, e, t.args[2][0], want[0]) and same(s.it, e, x, want[1])
    def entries(s, d, want, what): s.exits(lambda e: same_entries(s, e, d.final(e), want), what, tag="entries")
    def fnx(n): return c.fn(X + n)
    for n, signs in shapes(3):
        for ks in kinds(n):
            d0 = States(c, ks, signs); tag = " %s%s" % (ks, "".join("<=>"[x + 1] for x in signs))
            T = lambda k: fld(E(k), "0"); S = lambda k: fld(E(k), "1")
            keep = [(T(k), S(k)) for k in range(n)]
            le_ = max([k for k in range(n) if signs[k] <= 0], default=None); lt_ = max([k for k in range(n) if signs[k] < 0], default=None); at = next((k for k in range(n) if signs[k] == 0), None)
            e_le, e_lt, e_at = d0.explicit(le_), d0.explicit(lt_), d0.explicit(at)
            def q(fname, want, what):
                d = States(c, ks, signs); s = run(fnx(fname), d, fname + tag)
                if s: result(s, want, what, "value")
            q("get_state_at_or_before", d0.state(e_le) if e_le is not None else NONE, "the state at a tick is that of the newest entry not newer than it")
            q("get_present", d0.value(e_le) if e_le is not None and ks[e_le] == "U" else NONE, "the value at a tick is that of the newest entry not newer than it, unless it was removed")
            q("get_state_at", d0.state(e_at) if e_at is not None else NONE, "an exact entry is found exactly when there is one at the tick")
            # sorted insertion
            lo = keep[:(lt_ + 1) if lt_ is not None else 0]; hi = keep[len(lo) + (1 if at is not None else 0):]
            def ins(fname, new, what, eq=None, key="", val="state"):
                d = States(c, ks, signs, eq); s = run(fnx(fname), d, fname + tag + key)
                if s:
                    entries(s, d, lo + [(TICK, new)] + hi, what)
                    for a, b in d.compared:
                        if d.eq is not None: c.tri(True if {a, b} == {d0.state(e_lt), ST} else None if not (known(a) and known(b)) else False, fname + ": compared", "a new state is compared with the state in force before its tick", short(s.f) if hasattr(s, "f") else "")
            ins("insert_explicit", EXP(ST), "an entry is placed by its tick, replacing the one that was there")
            if e_lt is None: ins("insert", EXP(ST), "a first state is explicit")
            else:
                ins("insert", SAME, "a state equal to the one before it is marked unchanged", True, " equal"); ins("insert", EXP(ST), "a state different from the one before it is explicit", False, " different")
            if not any(x > 0 for x in signs):
                if e_lt is None: ins("insert_assume_sorted", EXP(ST), "a first state is explicit")
                else: ins("insert_assume_sorted", SAME, "a state equal to the one before it is marked unchanged", True, " equal"); ins("insert_assume_sorted", EXP(ST), "a state different from the one before it is explicit", False, " different")
            # proof that nothing changed
            d = States(c, ks, signs); s = run(fnx("add_unchanged"), d, "add_unchanged" + tag)
            if s:
                add_ = at is None and e_lt is not None
                entries(s, d, lo + [(TICK, SAME)] + hi if add_ else keep, "an unchanged entry is added only where something precedes it and nothing is known")
                s.exits(lambda e: e.val is const(add_) if e.val in (values.TRUE, values.FALSE) else None, "whether an entry was added is reported", tag="reported")
            d = States(c, ks, signs); s = run(fnx("push_unchanged"), d, "push_unchanged" + tag)
            if s:
                add_ = n > 0 and signs[-1] < 0 and d0.explicit(n - 1) is not None and ks[d0.explicit(n - 1)] == "U"
                entries(s, d, keep + [(TICK, SAME)] if add_ else keep, "the newest value is carried on only to a later tick and only while it is present")
                result(s, T(n - 1) if add_ else NONE, "the tick it was carried on from is reported", "reported")
            d = States(c, ks, signs); s = run(fnx("clear_until_tick"), d, "clear_until_tick" + tag)
            if s:
                after = [x for k, x in enumerate(keep) if signs[k] > 0]
                first = [] if e_le is None else [(T(at) if at is not None else TICK, EXP(d0.state(e_le)) if at is None or ks[at] == "S" else S(at))]
                entries(s, d, first + after, "forgetting the past keeps, explicitly, the state in force at the tick and everything later")
    for n in range(4):
        for ks in kinds(n):
            d0 = States(c, ks, [])
            T = lambda k: fld(E(k), "0"); S = lambda k: fld(E(k), "1"); keep = [(T(k), S(k)) for k in range(n)]
            d = States(c, ks, []); s = run(fnx("pop_present"), d, "pop_present " + ks)
            if s:
                rest = keep[1:]
                if n > 1 and ks[1] == "S": rest = [(T(1), EXP(d0.state(0)))] + rest[1:]
                entries(s, d, rest, "popping an entry hands its state on to an unchanged one behind it")
                result(s, (T(0), d0.value(0)) if n and ks[0] == "U" else NONE, "the oldest value is returned with its tick", "returned")
            pres = lambda k: d0.explicit(k) is not None and ks[d0.explicit(k)] == "U"
            d = States(c, ks, []); s = run(fnx("newest_present"), d, "newest_present " + ks)
            if s: result(s, (T(n - 1), d0.value(d0.explicit(n - 1))) if n and pres(n - 1) else NONE, "the newest value is that of the newest entry", "value")
            for i in range(n + 1):
                d = States(c, ks, []); f = fnx("get_nth_present"); ix = mk("p", f.names.get(2, "n"))
                s = run(f, d, "get_nth_present %s %d" % (ks, i), lambda it: [(ieq(ix, I(i)), True)])
                if s: result(s, (T(i), d0.value(d0.explicit(i))) if i < n and pres(i) else NONE, "an entry's value is that of the closest explicit entry up to it", "value")
            # iteration carries the last explicit state along
            for nm in ("ConfirmedHistoryIter", "ConfirmedHistoryIntoIter"):
                own = "Into" in nm
                d = States(c, ks, []); d.stuff = tuple(E(k) if own else R(k) for k in range(n))
                f = c.fn("<%s%s as core::iter::traits::iterator::Iterator>::next" % (CH, nm)); cur = fld(mk("*", mk("p", "self")), "current_state")
                s = run(f, d, "%s %s" % (nm, ks), lambda it: [(deq(cur, 0), True)])
                k = next((k for k in range(n) if pres(k)), None)
                if s:
                    result(s, (T(k), d0.value(d0.explicit(k))) if k is not None else NONE, "iterating yields, with their ticks, the values of the entries that have one", "value")
                    if k is not None: s.exits(lambda e: len(e.state.mon[1]) == n - k - 1, "iterating goes on right behind the entry it yielded", tag="position")
                    x = d0.explicit(k if k is not None else n - 1) if n else None
                    if x is not None: s.exits(lambda e: carried(s, e, cur, d0.state(x)), "the last explicit state is carried along", tag="carried")
                # going on from an entry that was yielded before
                if not ks: continue
                import itertools
                d = States(c, ks, []); d.stuff = tuple(E(k) if own else R(k) for k in range(n)); prev = mk("f", cur, "Some", "0"); prev = prev if own else mk("*", prev)
                s = run(f, d, "%s after a value, %s" % (nm, ks), lambda it: [(deq(cur, 1), True), (deq(prev, variant(P, CO_ + "history_buffer::HistoryState", "Updated")), True)])
                if s: result(s, (T(k), d0.value(d0.explicit(k))) if k is not None else NONE, "an entry that was removed is not given the value before it", "value")
                d = States(c, "S", []); d.stuff = (E(0) if own else R(0),)
                s = run(f, d, "%s unchanged" % nm, lambda it: [(deq(cur, 1), True), (deq(prev, variant(P, CO_ + "history_buffer::HistoryState", "Updated")), True)])
                if s: result(s, (T(0), mk("f", prev, "Updated", "0")), "an unchanged entry yields the value carried along", "value")
    shifts(c, CH + "ConfirmedHistory::update_ticks", "confirmed")
def carried(s, e, cur, want):
    v = post(e, cur)
    if v is cur: return False
    if v.op != "agg": return None
    if v.args[1] != "Some": return False
    x = s.it.normarg(e.state, v.args[2][0])
    while x.op == "&": x = x.args[0]
    return same(s.it, e, x, want)
