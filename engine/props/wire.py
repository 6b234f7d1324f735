"""Wire formats: every writer is evaluated to the sequence of values it writes on each path; the matching reader is then evaluated on exactly that sequence (starting from what
was assumed on the writer's path), and must consume it and rebuild the value that was written."""
from lib import *
from props import prop
import values, os
from interp import TooBig
from props.transport import I

TB = "lightyear_serde::ToBytes"
PRIM = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "varint"]
WIDTH = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}


COLL = re.compile(r"(^|<)(alloc::vec::Vec|smallvec::SmallVec|bevy_platform::collections::hash_map::HashMap|std::collections::)")
def nested(it):
    """name under which a nested value is recorded, or None to look into its implementation"""
    ns = it.cur_names
    r = next((n for n in ns if n.startswith("<")), None)
    if r is None: return "T"
    m = re.match(r"<(.*) as [\w:]+>::\w+$", r)
    return "T " + m.group(1) if m and (COLL.search(m.group(1)) or m.group(1).endswith("::AddressList")) else None
def wstubs():
    """stubs that record what is written in st.mon: ((kind, value, site), ...); a site met again is starred (a loop)"""
    out = []
    def rec(kind, ai):
        def g(it, st, fr, a, sym):
            k = kind
            if k == "T":
                k = nested(it)
                if k is None: return None
            v = a[ai] if ai < len(a) else UNIT
            v = strip(it.normarg(st, v))
            site = str(sym); m = st.mon
            if it.in_loop(fr, it.cur_bb): k = "*" + k
            if not any(x[2] == site for x in m): m = m + ((k, v, site),)
            st.mon = m
            return okv()
        return g
    for k in PRIM: out.append((r"::write_%s$" % k, rec(k, 1)))
    return out + [(r"Write[\w:<>]*::write_all$", rec("bytes", 1)), (r"ToBytes[\w:<>]*::to_bytes$", rec("T", 0))]
def rstubs(trace, problems):
    """stubs that replay a trace; st.mon = (number consumed, last site)"""
    out = []
    def rd(kind):
        def g(it, st, fr, a, sym):
            k = kind
            if k == "T":
                k = nested(it)
                if k is None: return None
            i = st.mon[0] if st.mon else 0
            site = str(sym)
            if it.in_loop(fr, it.cur_bb):
                seen = dict(st.mon[1]) if st.mon else {}
                if site in seen: return okv(trace[seen[site]][1] if seen[site] is not None else mk("p", "one of several"))
                if i < len(trace) and trace[i][0] == k:            # a loop reading what was written one by one
                    while i < len(trace) and trace[i][0] == k: i += 1
                    st.mon = (i, (st.mon[1] if st.mon else ()) + ((site, None),)); return okv(mk("p", "one of several"))
                k = "*" + k
            else:
                while i < len(trace) and trace[i][0].startswith("*"):
                    if trace[i][0] == "*" + k and not (i + 1 < len(trace) and trace[i + 1][0] == k):   # written in a loop, read one by one
                        return okv(mk("p", "one of several"))
                    i += 1
            if i >= len(trace): problems.append("reads a %s after all that was written" % k); return errv(mk("p", "mismatch"))
            if trace[i][0] != k: problems.append("reads a %s where a %s was written" % (k, trace[i][0])); return errv(mk("p", "mismatch"))
            st.mon = (i + 1, (st.mon[1] if st.mon else ()) + ((site, i),))
            return okv(trace[i][1])
        return g
    for k in PRIM: out.append((r"::read_%s$" % k, rd(k)))
    return out + [(r"Reader::split_len$", rd("bytes")), (r"ToBytes[\w:<>]*::from_bytes$", rd("T"))]

def impls(P):
    """every ToBytes impl: {(type, crate, prefix): {method: fn}}"""
    by = {}
    for m in ("to_bytes", "from_bytes", "bytes_len"):
        for self_, i, im in P.impl_methods.get((TB, m), []):
            f = P.fns.get(i)
            if f is not None: by.setdefault((self_, f.crate, f.name.rsplit("::", 1)[0]), {})[m] = f
    return by

def fits(it, v, want):
    """a chain of casts around `want` loses nothing: True / False / None (type of want unknown)"""
    import interp
    t = tyof(it, want) or it.vty.get(want)
    if t and t.startswith("&"): t = t.lstrip("&").replace("mut ", "")
    w = interp.INT_RANGE.get(t)
    while v.op == "cast":
        c = interp.INT_RANGE.get(v.args[0])
        if w is None or c is None: return None
        if not (c[0] <= w[0] and w[1] <= c[1]): return False
        v = v.args[1]
    return True
def uncast1(v):
    while v.op == "cast": v = v.args[1]
    return v
def eqv(it, e, got, want, depth=5):
    """the value rebuilt equals the value that was written (None: undecided)"""
    P = it.P
    if strip(got) is strip(want): return True
    if got.op == "cast" and strip(uncast1(got)) is strip(want): return fits(it, got, want)
    got = strip(got)
    if got.op == "call" and got.args[0].endswith("SocketAddr::new"):
        ip, port = got.args[1]
        rs = [None]
        if ip.op == "agg":
            rs.append(decide(it, e, deq(want, {"V4": 0, "V6": 1}.get(ip.args[1], 9)), True))
            p = uncast(port)
            rs.append(True if p.op == "call" and p.args[0].endswith("::port") and strip(p.args[1][0]) is mk("f", want, ip.args[1], "0") else (False if p.op != "p" else None))
        return False if any(r is False for r in rs) else None
    if got.op == "agg" and depth:
        if want.op == "agg":
            if got.args[:2] != want.args[:2]: return False
            rs = [eqv(it, e, x, y, depth - 1) for x, y in zip(got.args[2], want.args[2])]
        else:
            a = P.adts.get(got.args[0])
            en = got.args[0] in ("core::option::Option", "core::result::Result") or (a and a["enum"])
            rs = []
            if en:
                d = {"None": 0, "Some": 1, "Ok": 0, "Err": 1}.get(got.args[1]) if not a else next(d for n, d, _ in a["vars"] if n == got.args[1])
                rs.append(decide(it, e, deq(want, d), True))
            fs = ["0"] if not a else [f for n, d, f in a["vars"] if n == got.args[1] or not a["enum"]][0]
            if got.args[0] == "()": fs = [str(i) for i in range(len(got.args[2]))]
            for f, x in zip(fs, got.args[2]): rs.append(eqv(it, e, x, mk("f", want, got.args[1] if en else "", f if isinstance(f, str) else f[0]), depth - 1))
        return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
    if got.op == "c":
        if isint(got): return decide(it, e, ieq(want, got), True)
        if isbool(got): return decide(it, e, want, bval(got))
    # a different place of what was written
    a, b = uncast1(got), want
    if a.op == "f" and b.op == "f" and has(a, lambda x: x.op == "p" and has(b, lambda y: y is x)):
        r = same(it, e, a, b)
        return False if r is None else r
    return same(it, e, got, want)
ADD = r"(Vec|SmallVec|HashMap|VecDeque|HashSet)[\w:<>]*::(push|insert|push_back)$"
def BITS(it, v): return it.bits(v)
def describe(tr): return ", ".join(k for k, _, _ in tr)

def cl(v):
    v = strip(v)
    return mk("len", strip(v.args[0])) if v.op == "len" else v
def relen(v):
    if v.op == "lin":
        ts, k = v.args
        return values.mklin(tuple((cl(t), n) for t, n in ts), k)
    return cl(v)
def size_of(tr):
    """number of bytes a trace takes, as (linear expression, None) or None when it contains loops"""
    tot = I(0)
    for k, v, _ in tr:
        if k.startswith("*"): return None
        if k in WIDTH: tot = add(tot, I(WIDTH[k]))
        elif k == "varint": tot = add(tot, mk("VL", cl(v)))
        elif k == "bytes": tot = add(tot, cl(mk("len", v)))
        else: tot = add(tot, mk("TL", strip(v)))
    return tot
def lstubs():
    return [(r"varint::varint_len$", lambda it, st, fr, a, sym: mk("VL", cl(it.normarg(st, a[0])))),
            (r"ToBytes[\w:<>]*::bytes_len$", lambda it, st, fr, a, sym: mk("TL", strip(it.normarg(st, a[0]))) if nested(it) else None)]

def written(c, f, key, assume=None):
    s = scen(c, key + " written", f, stubs=wstubs(), assume=assume)
    ex = [e for e in s.ev(None, "exit") if not is_err(e.val)]
    # a path that skips a loop is a special case of the one that does not
    sites = [{x[2] for x in e.state.mon} for e in ex]
    core = [{x[2] for x in e.state.mon if not x[0].startswith("*")} for e in ex]
    ex = [e for i, e in enumerate(ex) if not any(sites[i] < sites[j] and core[i] == core[j] for j in range(len(ex)))]
    return s, ex
def cases(c, ty, w):
    """case analysis over the fieldless enums a value contains"""
    P = c.P; a = P.adts.get(ty)
    out = [("", [])]
    if not a or a["enum"]: return [("", None)]
    for f, i in a["vars"][0][2]:
        b = P.adts.get(P.types[a["crate"]][i])
        if b and b["enum"] and all(not v[2] for v in b["vars"]) and len(b["vars"]) <= 8:
            out = [(n + " " + v[0], l + [(f, v[1])]) for n, l in out for v in b["vars"]]
    return [(n, (lambda it, l=l: [(deq(mk("f", mk("*", mk("p", w.names.get(1, "self"))), "", f), d), True) for f, d in l])) for n, l in out]
def roundtrip(c, name, w, r, pre=None, ty=None):
    """every path of the writer is read back"""
    for n, l in cases(c, ty or name, w):
        for m, q in (pre or {"": None}).items():
            roundtrip1(c, name + n + m, w, r, (lambda it: (l(it) if l else []) + (q(it) if q else [])) if l or q else None)
def roundtrip1(c, name, w, r, assume):
    s, ex = written(c, w, name, assume)
    if not ex: c.bad(name + ": writer", "the writer has a path that succeeds", w.file); return
    me = mk("*", mk("p", w.names.get(1, "self")))
    done = set()
    for i, e in enumerate(ex):
        tr = e.state.mon
        if any(k.startswith("*") for k, _, _ in tr):
            if tuple((k, site) for k, _, site in tr) in done: continue
            done.add(tuple((k, site) for k, _, site in tr))
        probs = []
        facts = dict(e.state.facts)
        k = "%s [%s]" % (name, describe(tr))
        def init(it, st, fr):
            st.facts.update(facts); it.vty.update(s.it.vty)
        try: q = scen(c, name + " read", r, stubs=rstubs(tr, probs), init=init, events=[ADD, r"from_index_and_generation$"])
        except TooBig: c.undecided(k, "reader too large"); continue
        c.check(not probs, k + ": order", "what is read has the form of what was written (%s)" % "; ".join(sorted(set(probs))), "%s:%s (%s)" % (r.file, r.line, r.name))
        if probs: continue
        oks = [x for x in q.ev(None, "exit") if not is_err(x.val)]
        c.check(bool(oks), k + ": accepted", "what was written is accepted when read", "%s:%s (%s)" % (r.file, r.line, r.name))
        star = [t[1] for t in tr if t[0].startswith("*T")]
        if star:
            ins = q.ev(ADD)
            c.check(bool(ins), k + ": collected", "every element read is kept", r.file)
            for x in ins: c.tri(True if [uncast1(strip(a)) for a in x.args[1:1 + len(star)]] == [uncast1(a) for a in star] else (False if all(known(a) for a in x.args[1:]) else None), k + ": elements", "the elements kept are the elements read, in their places", x.where())
            n_ = [t[1] for t in tr if t[0] == "varint"]
            for x in q.ev(None, "exit"):
                if is_ok(x.val): c.check(any(kk[0] == "i" and any(strip(t) is strip(n_[0]) for t, _ in kk[1]) or kk[0] == "d" and has_call(kk[1], r"next$") and v == 0 for kk, v in x.state.facts.items()) if n_ else True, k + ": count", "as many elements are read as were announced", x.where())
        ents = q.ev(r"from_index_and_generation$")
        if ents:
            gen = [v for kk, v, _ in tr if kk == "varint"][1:]
            for x in ents:
                c.tri(True if has_call(x.args[0], r"index_u32$") and not has(x.args[0], lambda y: y.op == "bin") else (False if known(x.args[0]) else None), k + ": index", "the index of an entity is read back", x.where())
                if gen: c.check(has(x.args[1], lambda y: y is gen[0]), k + ": generation", "the generation of an entity is read back", x.where())
                else: c.check(has(x.args[1], lambda y: isint(y) and ival(y) == 0) or not known(x.args[1]), k + ": generation", "the generation of an entity is read back", x.where())
            mp = [b for b in BITS(s.it, tr[0][1]) if isinstance(b, tuple) and s.it.isboolv(b[0]) and has_call(b[0], r"to_bits$") and not has_call(b[0], r"generation$")]
            for m_ in {b[0] for b in mp}:
                for val in (True, False):
                    def init2(it, st, fr):
                        init(it, st, fr); it.assume(st, m_, val)
                    q2 = scen(c, name + " mapped=%s" % val, r, stubs=rstubs(tr, []), init=init2)
                    for x in q2.ev(None, "exit"):
                        if not is_ok(x.val): continue
                        v = x.val.args[2][0]
                        if not has_call(v, r"from_index_and_generation$"): c.undecided(k + ": mark", show(v)); continue
                        c.check(any(y.op == "bin" and y.args[0] in ("BitOr", "BitXor") or y.op == "lin" for y in subvals(v)) == val, k + ": mark mapped=%s" % val, "an entity is marked as mapped exactly when it was", x.where())
        for x in q.ev(None, "exit"):
            if is_err(x.val):
                done = (x.state.mon or (0,))[0]
                # an error although everything read came from the writer: only when it can be decided
                continue
            n = x.state.mon[0] if x.state.mon else 0
            full = n == len(tr) or all(t[0].startswith("*") for t in tr[n:])
            c.check(full, k + ": consumed", "everything that was written is read", x.where())
            if not is_ok(x.val): c.undecided(k + ": value", show(x.val)); continue
            g = eqv(q.it, x, x.val.args[2][0], me)
            if g is not True and os.environ.get("WDBG"): print(k, "\n  got ", show(x.val.args[2][0])[:600], "\n  want", show(me)[:300])
            c.tri(g, k + ": value", "the value read is the value written", x.where())

@prop("S01", floor=60, explain="""Every implementation of the wire format in the program is enumerated from the compiler's implementation table. Each is evaluated on every path to the sequence of values it writes; the
matching reader is evaluated on exactly that sequence and must consume it completely, value by value of the same form, and rebuild the value.""")
def s01(c):
    P = c.P
    n = 0
    for (ty, crate, pre), m in sorted(impls(P).items()):
        if "to_bytes" not in m or "from_bytes" not in m: continue
        if ty.endswith("DeniedPacket"): continue
        n += 1
        me = mk("*", mk("p", m["to_bytes"].names.get(1, "self")))
        pre = None
        if ty.endswith("::FragmentData"):      # the first fragment, and only it, carries the compression (T08)
            pre = {" first": lambda it: [(ieq(fld(me, "fragment_id", "0"), I(0)), True), (deq(fld(me, "compression"), 1), True)], " later": lambda it: [(ieq(fld(me, "fragment_id", "0"), I(0)), False), (deq(fld(me, "compression"), 0), True)]}
        roundtrip(c, ty.replace("lightyear_", ""), m["to_bytes"], m["from_bytes"], pre, ty)
    c.check(n >= 25, "formats", "all wire formats were found", "")

@prop("S02", floor=30, explain="""For every implementation of the wire format, the announced length is evaluated under the assumptions of each path of the writer and compared, as a symbolic sum, with the bytes written on that path.""")
def s02(c):
    n = 0
    for (ty, crate, pre), m in sorted(impls(c.P).items()):
        if "to_bytes" not in m or "bytes_len" not in m or ty.endswith("DeniedPacket"): continue
        name = ty.replace("lightyear_", "")
        s, ex = written(c, m["to_bytes"], name)
        n += 1
        for e in ex:
            tr = e.state.mon; facts = dict(e.state.facts); want = size_of(tr)
            k = "%s [%s]" % (name, describe(tr))
            def init(it, st, fr): st.facts.update(facts); it.vty.update(s.it.vty)
            q = scen(c, name + " length", m["bytes_len"], stubs=lstubs(), init=init)
            for x in q.ev(None, "exit"):
                if want is None: c.undecided(k, "the value contains a list"); continue
                t = decide(q.it, x, ieq(relen(x.val), want), True)
                if t is not True and os.environ.get('WDBG'): print(k, show(x.val), '|', show(want))
                if t is False and any(y.op in ("call", "phi", "hv") for y in subvals(sub(relen(x.val), want))): t = None
                c.tri(t, k + ": length", "the length announced is the number of bytes written", x.where())
    c.check(n >= 25, "formats", "all wire formats were found", "")

# ---------------------------------------------------------------- bytes: primitives written and read through write_all / read_exact
def bv(it, bs, ty=None):
    v = mk("bits", tuple(bs))
    if all(b in (0, 1) for b in bs): v = values.const(sum(b << k for k, b in enumerate(bs)))
    elif ty: it.vty.setdefault(v, ty)
    return v
def span(it, st, a):
    """[(root, projs)] of the elements of an array or slice behind a reference; None when its length is not constant"""
    if a.op != "ref":
        v = a.args[0] if a.op == "&" else None
        return [("V", x) for x in v.args[2]] if v is not None and v.op == "agg" and v.args[0] == "[]" else None
    root, projs = a.args
    lo, hi = 0, None
    while projs and projs[-1][0] == "S":
        k, ar = projs[-1][1], projs[-1][2]
        if not all(isint(x) for x in ar): return None
        ar = [ival(x) for x in ar]
        if k == "RangeTo": l, h = 0, ar[0]
        elif k == "RangeFrom": l, h = ar[0], None
        elif k == "Range": l, h = ar
        elif k == "RangeFull": l, h = 0, None
        else: return None
        lo, hi = lo * 0 + l + (lo if False else 0), h
        if len(projs) > 1 and projs[-2][0] == "S": return None
        projs = projs[:-1]
    base = it.rd(st, root, projs)
    while base.op == "ref":
        root, projs = base.args; base = it.rd(st, root, projs)
    b = base
    while b.op == "with": b = b.args[0]
    n = int(b.args[1]) if b.op == "repeat" and b.args[1].isdigit() else len(b.args[2]) if b.op == "agg" and b.args[0] == "[]" else None
    if n is None: return None
    return [(root, projs + (("I", values.const(i)),)) for i in range(lo, n if hi is None else min(hi, n))]
def load(it, st, el): return [x[1] if x[0] == "V" else it.rd(st, *x) for x in el]
def bytestubs(out=None, src=None, probs=None):
    def width(it):
        m = next((re.search(r"([ui])(8|16|32|64)::", n) for n in it.cur_names if re.search(r"([ui])(8|16|32|64)::", n)), None)
        return (m.group(1), int(m.group(2))) if m else (None, None)
    def split(big):
        def g(it, st, fr, a, sym):
            s, w = width(it)
            if w is None: return None
            bs = it.bits(a[0])[:w]
            el = [bv(it, bs[i:i + 8], "u8") for i in range(0, w, 8)]
            return mk("agg", "[]", "", tuple(reversed(el) if big else el))
        return g
    def merge(big):
        def g(it, st, fr, a, sym):
            s, w = width(it)
            v = a[0]
            if w is None: return None
            if v.op == "agg" and v.args[0] == "[]": el = list(v.args[2])
            elif v.op == "with": el = [it.get(v, ("I", values.const(i))) for i in range(w // 8)]
            else: return None
            if big: el.reverse()
            return bv(it, [b for x in el for b in it.bits(x)[:8]], "%s%d" % (s, w))
        return g
    def copy(it, st, fr, a, sym):
        d, s = span(it, st, a[0]), span(it, st, a[1])
        if d is None or s is None or len(d) != len(s): probs.append("copies between arrays of different or unknown length"); return UNIT
        for x, v in zip(d, load(it, st, s)): it.wr(st, x[0], x[1], v)
        return UNIT
    def arr(it, st, fr, a, sym):
        s = span(it, st, a[0])
        return okv(mk("agg", "[]", "", tuple(load(it, st, s)))) if s is not None else None
    def wall(it, st, fr, a, sym):
        s = span(it, st, a[1])
        st.mon = st.mon + (tuple(load(it, st, s)) if s is not None else (None,))
        return okv()
    def rexact(it, st, fr, a, sym):
        s = span(it, st, a[1]); n = st.mon[0] if st.mon else 0
        if s is None: probs.append("reads into a buffer of unknown length"); return okv()
        if n + len(s) > len(src): probs.append("reads %d bytes where %d were written" % (n + len(s), len(src))); return errv(mk("p", "eof"))
        for x, v in zip(s, src[n:n + len(s)]): it.wr(st, x[0], x[1], v)
        st.mon = (n + len(s),)
        return okv()
    return [(r"^[ui](8|16|32|64)::to_be_bytes$", split(True)), (r"^[ui](8|16|32|64)::to_le_bytes$", split(False)), (r"^[ui](8|16|32|64)::from_be_bytes$", merge(True)),
            (r"^[ui](8|16|32|64)::from_le_bytes$", merge(False)), (r"\[T\]::(copy_from_slice|clone_from_slice)$", copy), (r"TryInto::try_into$|TryFrom::try_from$", arr),
            (r"Write::write_all$", wall), (r"Read::read_exact$", rexact)]
def prim(c, name, w, r, ty, lo=None, hi=None, n=None):
    """writer w, reader r of a number of type ty within [lo, hi]: n bytes, read back as the same number"""
    key = name if lo is None else "%s %d..%d" % (name, lo, hi)
    W = 8 * WIDTH[ty]; bad = []
    val = mk("p", w.names.get(2, "n"))
    def rng(it): return [(le(I(lo), val), True), (le(val, I(hi)), True)] if lo is not None else []
    s = scen(c, key, w, stubs=bytestubs(probs=bad), assume=rng, refine=8)
    ex = [e for e in s.ev(None, "exit")]
    oks = [e for e in ex if not is_err(e.val)]
    c.check(bool(oks) and not any(is_err(e.val) for e in ex), key + ": written", "every number of the range is written", "%s:%s (%s)" % (w.file, w.line, w.name))
    top = W if hi is None else hi.bit_length()
    want = [(val, k) if k < top else 0 for k in range(W)]
    for e in oks:
        src = []
        for b in e.state.mon:
            if b is None: c.undecided(key, "bytes written"); return
            src.append(bv(s.it, [0 if isinstance(x, tuple) and x[0] is val and x[1] >= top else x for x in s.it.bits(b)[:8]], "u8"))
        if n is not None: c.check(len(src) == n, key + ": size", "the number takes %d bytes (%d are written)" % (n, len(src)), e.where())
        probs = []
        def init(it, st, fr): it.vty.update(s.it.vty)
        q = scen(c, key + " read", r, stubs=bytestubs(src=src, probs=probs), init=init, refine=8)
        c.check(not probs, key + ": order", "what is read has the form of what was written (%s)" % "; ".join(sorted(set(probs))), "%s:%s (%s)" % (r.file, r.line, r.name))
        if probs: continue
        xs = [x for x in q.ev(None, "exit") if is_ok(x.val)]
        c.check(bool(xs) and len(xs) == len(q.ev(None, "exit")), key + ": accepted", "what was written is read back", r.file)
        for x in xs:
            c.check((x.state.mon or (0,))[0] == len(src), key + ": consumed", "everything that was written is read", x.where())
            v = x.val.args[2][0]
            while v.op == "cast" and v.args[0] in WIDTH and 8 * WIDTH[v.args[0]] >= W: v = v.args[1]
            got = q.it.bits(v)[:W]
            if os.environ.get("WDBG") and got != want: print(key, show(v)[:300], got, want)
            c.tri(True if got == want else (None if any(b is None for b in got) or not any(isinstance(b, tuple) and b[0] is val for b in got) and known(v) is False else False), key + ": value", "the number read is the number written", x.where())
@prop("S03", floor=40, explain="""The fixed-width and variable-length integer writers are evaluated bit by bit into the bytes they append; the readers are evaluated on exactly those bytes and must consume them all and
return, bit for bit, the number written. The variable-length form is split into its four length classes, at the boundaries the announced length uses.""")
def s03(c):
    P = c.P
    W, R = "lightyear_serde::writer::WriteInteger::write_", "lightyear_serde::reader::ReadInteger::read_"
    for t in PRIM[:-1]: prim(c, t, c.fn(W + t), c.fn(R + t), t, n=WIDTH[t])
    edges = [(0, 63, 1), (64, 16383, 2), (16384, 2**30 - 1, 4), (2**30, 2**62 - 1, 8)]
    wv, rv_ = c.fn(W + "varint"), c.fn("lightyear_serde::reader::ReadVarInt::read_varint")
    vl = c.fn("lightyear_serde::varint::varint_len")
    for lo, hi, n in edges:
        prim(c, "varint", wv, rv_, "u64", lo, hi, None)
        v = mk("p", vl.names.get(1, "v"))
        s = scen(c, "varint_len %d..%d" % (lo, hi), vl, assume=lambda it: [(le(I(lo), v), True), (le(v, I(hi)), True)])
        s2 = scen(c, "varint size %d..%d" % (lo, hi), wv, stubs=bytestubs(probs=[]), assume=lambda it: [(le(I(lo), mk("p", wv.names.get(2, "value"))), True), (le(mk("p", wv.names.get(2, "value")), I(hi)), True)], refine=8)
        sizes = {len(e.state.mon) for e in s2.ev(None, "exit") if not is_err(e.val)}
        s.exits(lambda e: decide(s.it, e, ieq(e.val, I(next(iter(sizes)))), True) if len(sizes) == 1 else None, "the announced length is the number of bytes written", tag="announced")

# ---------------------------------------------------------------- the reader's cursor
RD = "lightyear_serde::reader::Reader::"
@prop("S05", floor=20, explain="""The reader's cursor operations are evaluated with the announced length inside and outside what is left; the slice taken, the new position, and the refusal are compared with the
cursor's position and the buffer's length. The serde bridge must advance by exactly what was consumed, the writer must append exactly the bytes it reports.""")
def s05(c):
    POS = mk("p", "POS"); LEN = mk("p", "LEN"); n = mk("p", "N")
    def base(it):
        for v in (POS, LEN, n): it.vty[v] = "usize"
    st = [(r"io::cursor::Cursor::position$", POS), (r"Bytes::len$|reader::Reader::len$|\[T\]::len$", LEN)]
    f = c.fn(RD + "split_len")
    arg = mk("p", f.names.get(2, "len"))
    SL, SP = r"Bytes::(slice|split_to|split_off|copy_to_bytes|copy_from_slice)$", r"Cursor::set_position$"
    U = 2**64 - 1
    for key, fits, conds in (("enough left", True, [(le(add(POS, arg), LEN), True)]), ("too little left", False, [(le(add(POS, arg), LEN), False), (le(add(POS, arg), I(U)), True)]), ("absurd length", False, [(le(add(POS, arg), I(U)), False)])):
        def init(it, s_, fr): base(it); it.vty[arg] = "usize"
        s = scen(c, key, f, stubs=st, events=[SL, SP], init=init, assume=lambda it: conds + [(le(POS, LEN), True), (le(LEN, I(2**63 - 1)), True)])
        if fits:
            s.exits(lambda e: True if is_ok(e.val) else (False if is_err(e.val) else None), "bytes that are there can be taken", tag="taken")
            def rng(e):
                a = strip(e.args[1])
                if a.op != "agg" or not a.args[0].endswith("::Range"): return None
                x = same(s.it, e, a.args[2][0], POS); y = same(s.it, e, a.args[2][1], add(POS, arg))
                return False if x is False or y is False else (True if x and y else None)
            s.each(SL, rng, "exactly the next bytes are taken", tag="range")
            s.each(SP, lambda e: same(s.it, e, e.args[1], add(POS, arg)), "the cursor moves past exactly the bytes taken", tag="moved")
            s.exits(lambda e: True if is_ok(e.val) and has_call(e.val, SL) else (None if not is_ok(e.val) else (False if known(e.val) else None)), "the bytes taken are handed on", tag="handed on")
        else:
            s.exits(must_err, "bytes that are not there are refused", tag="refused")
            s.never(SP, "a refusal leaves the cursor alone", tag="moved"); s.never(SL, "nothing is taken beyond the end", tag="taken")
    # how much is left
    f = c.fn(RD + "remaining")
    def init(it, s_, fr): base(it)
    s = scen(c, "inside", f, stubs=st, init=init, assume=lambda it: [(le(POS, LEN), True)])
    s.exits(lambda e: same(s.it, e, e.val, sub(LEN, POS)), "what is left is the length less the position", tag="left")
    s = scen(c, "beyond", f, stubs=st, init=init, assume=lambda it: [(le(POS, LEN), False)])
    s.exits(lambda e: same(s.it, e, e.val, I(0)), "nothing is left beyond the end", tag="left")
    f = c.fn(RD + "has_remaining")
    for key, b in (("some", True), ("none", False)):
        s = scen(c, key, f, stubs=st, init=init, assume=lambda it: [(lt(POS, LEN), b)])
        s.exits(lambda e: decide(s.it, e, e.val, b), "something is left exactly when the position lies before the end", tag="left")
    f = c.fn(RD + "take_remaining")
    s = scen(c, "rest", f, stubs=st, init=init, events=[r"Bytes::(split_off|slice|split_to|copy_from_slice)$"])
    def rest(e):
        nm = e.names[0].split("::")[-1]; a = strip(e.args[1])
        if nm == "split_off": return same(s.it, e, a, POS)
        if nm == "slice" and a.op == "agg" and a.args[0].endswith("RangeFrom"): return same(s.it, e, a.args[2][0], POS)
        if nm == "slice" and a.op == "agg" and a.args[0].endswith("Range"): return same(s.it, e, a.args[2][0], POS) and same(s.it, e, a.args[2][1], LEN)
        return False if nm == "split_to" else None
    s.each(r"Bytes::(split_off|slice|split_to|copy_from_slice)$", rest, "the rest starts at the cursor", tag="range")
    f = c.fn("<lightyear_serde::reader::Reader as bytes::buf::buf_impl::Buf>::advance")
    arg = mk("p", f.names.get(2, "cnt"))
    s = scen(c, "inside", f, stubs=st, events=[SP], init=init, assume=lambda it: [(le(add(POS, arg), LEN), True)])
    s.each(SP, lambda e: same(s.it, e, e.args[1], add(POS, arg)), "the cursor moves by what was consumed", tag="moved")
    s = scen(c, "outside", f, stubs=st, events=[SP], init=init, assume=lambda it: [(le(add(POS, arg), LEN), False), (le(POS, LEN), True)])
    s.never(SP, "the cursor never moves past the end", tag="moved")
    # serde bridge
    f = c.fn("lightyear_serde::postcard_utils::from_reader")
    ADV, TK = r"Buf::advance$|Reader::set_position$|Cursor::set_position$", r"take_from_bytes$"
    REST = mk("p", "REST")
    s = scen(c, "decoded", f, stubs=[(TK, okv(mk("agg", "()", "", (mk("p", "VALUE"), mk("&", REST))))), (r"Buf::remaining$|Reader::remaining$", LEN)], events=[ADV], init=init)
    s.stubbed(TK)
    s.each(ADV, lambda e: same(s.it, e, e.args[1], sub(LEN, mk("len", REST))) if not e.names[0].endswith("set_position") else None, "the reader advances past exactly what was decoded", tag="advance")
    s.exits(lambda e: True if is_ok(e.val) and e.val.args[2][0] is mk("p", "VALUE") else (False if is_err(e.val) else None), "the decoded value is handed on", tag="value")
    s = scen(c, "not decoded", f, stubs=[(TK, errv(mk("p", "E")))], events=[ADV])
    s.exits(must_err, "bytes that do not decode are refused", tag="refused"); s.never(ADV, "a refusal leaves the reader alone", tag="advance")
    # the writer
    f = c.fn("<lightyear_serde::writer::Writer as core::io::write::Write>::write")
    PUT = r"(BufMut::put_slice|BytesMut::extend_from_slice|BufMut::put)$"
    s = scen(c, "write", f, events=[PUT])
    src = mk("p", f.names.get(2, "src"))
    def put(e):
        a = strip(e.args[1])
        if a is src or a is mk("*", src): return True
        if a.op == "slice" and strip(a.args[0]) is src: return True if a.args[1] == "RangeTo" or a.args[1] == "RangeFull" else (False if a.args[1] == "RangeFrom" and not (isint(a.args[2][0]) and ival(a.args[2][0]) == 0) else None)
        return False if known(a) else None
    s.each(PUT, put, "the bytes given are appended from their start", tag="bytes")
    n_ = [strip(e.args[1]) for e in s.ev(PUT)]
    def count(e):
        if not is_ok(e.val) or len(n_) != 1: return None
        a = n_[0]
        want = a.args[2][0] if a.op == "slice" and a.args[1] == "RangeTo" else mk("len", src)
        return True if same(s.it, e, e.val.args[2][0], want) or cl(e.val.args[2][0]) is cl(want) else (False if isint(e.val.args[2][0]) else None)
    s.exits(count, "the number of bytes reported is the number appended", tag="count")
    for nm, pat, what in (("take_written", r"BytesMut::split$", "everything written so far is taken, and nothing else"),):
        s = scen(c, nm, c.fn("lightyear_serde::writer::Writer::" + nm), events=[r"BytesMut::\w+$"])
        s.exits(lambda e: True if has_call(e.val, pat) else None, what, tag="taken")

# ---------------------------------------------------------------- entities of two worlds
EM = "lightyear_serde::entity_map::"
@prop("S06", floor=25, explain="""The entity maps are evaluated with the mark bit of an entity set and unset and with its entry present and absent, following the 64 bits of the entity through marking, unmarking and the
test; both directions of the table must be written and cleared together.""")
def s06(c):
    def estubs(marks):
        """bits of entities; marks: entity -> mark bit (0, 1 or None)"""
        def tb(it, st, fr, a, sym):
            e = strip(it.normarg(st, a[0]))
            b, m = (e.args[0], e.args[1]) if e.op == "ent" else (e, marks.get(e))
            return mk("bits", tuple((b, k) for k in range(63)) + ((b, 63) if m is None else m,))
        def fb(it, st, fr, a, sym):
            bs = it.bits(a[0])
            b = bs[0][0] if isinstance(bs[0], tuple) else None
            if b is None or any(x != (b, k) for k, x in enumerate(bs[:63])) or bs[63] is None: return mk("hv", sym, "entity")
            if bs[63] == (b, 63) or bs[63] == marks.get(b, -1): return b
            return mk("ent", b, bs[63]) if bs[63] in (0, 1) else mk("hv", sym, "entity")
        return [(r"Entity::to_bits$", tb), (r"Entity::(from_bits|try_from_bits)$", fb)]
    X = mk("p", "X")
    GET = r"HashMap::get$"
    def case(fname, key, argi, mark, hit, expect, what, xm=0, getkey=None, ev=()):
        f = c.fn(fname); e_ = mk("p", f.names.get(argi, "entity"))
        s = scen(c, key, f, stubs=estubs({e_: mark, X: xm}) + ([(GET, some(mk("&", X)) if hit else NONE)] if hit is not None else []), events=[r"HashMap::(get|insert|remove)$"] + list(ev))
        def val(e):
            v = e.val; w = expect(e_)
            if v is w: return True
            if v.op == "agg" and w.op == "agg" and v.args[1] != w.args[1]: return False
            x, y = (v.args[2][0], w.args[2][0]) if v.op == "agg" and w.op == "agg" and v.args[2] and w.args[2] else (v, w)
            if x is y: return True
            if os.environ.get("WDBG"): print(key, show(x), x.op, x.args)
            return False if (known(x) or x.op == "ent" or has_call(x, r"PLACEHOLDER")) and x.op not in ("phi", "hv") else None
        if expect: s.exits(val, what, tag="value")
        return s, e_
    M, U = "EntityMapper>::get_mapped", None
    send = c.P.fn("<lightyear_serde::entity_map::SendEntityMap as bevy_ecs::entity::map_entities::EntityMapper>::get_mapped", opt=True)
    SG, RG = "<lightyear_serde::entity_map::SendEntityMap as bevy_ecs::entity::map_entities::EntityMapper>::get_mapped", "<lightyear_serde::entity_map::ReceiveEntityMap as bevy_ecs::entity::map_entities::EntityMapper>::get_mapped"
    case(SG, "known", 2, 0, True, lambda e: mk("ent", X, 1), "a known entity is sent as the peer's entity, marked")
    case(SG, "unknown", 2, 0, False, lambda e: e, "an unknown entity is sent as it is")
    case(RG, "marked", 2, 1, None, lambda e: mk("ent", e, 0), "a marked entity is this side's own, the mark taken off")
    case(RG, "known", 2, 0, True, lambda e: X, "an unmarked entity is looked up")
    s, e_ = case(RG, "unknown", 2, 0, False, None, "")
    s.exits(lambda e: (False if e.val is e_ or e.val is X else (True if "PLACEHOLDER" in show(e.val) or e.val.op == "agg" and known(e.val) and not has(e.val, lambda y: y.op == "p") else None)), "an unknown entity does not name an entity of this world", tag="value")
    G = EM + "RemoteEntityMap::"
    case(G + "get_local", "marked", 2, 1, None, lambda e: some(mk("ent", e, 0)), "a marked entity is this side's own, the mark taken off")
    case(G + "get_local", "known", 2, 0, True, lambda e: some(X), "an unmarked entity is looked up")
    case(G + "get_local", "unknown", 2, 0, False, lambda e: NONE, "an unknown entity has no local entity")
    case(G + "to_remote", "known", 2, 0, True, lambda e: mk("ent", X, 1), "a known entity is sent as the peer's entity, marked")
    case(G + "to_remote", "unknown", 2, 0, False, lambda e: e, "an unknown entity is sent as it is")
    case(G + "get_remote", "known", 2, 0, True, lambda e: some(X), "the peer's entity is looked up")
    case(G + "get_remote", "unknown", 2, 0, False, lambda e: NONE, "an unknown entity has no remote entity")
    for fn_, arg in ((G + "get_local", 0), (G + "to_remote", 1), (G + "get_remote", 1), (SG, None), (RG, None)):
        f = c.fn(fn_); e_ = mk("p", f.names.get(2, "entity"))
        s = scen(c, "table", f, stubs=estubs({e_: 0, X: 0}), events=[GET])
        s.each(GET, lambda e: (strip(e.args[1]) is e_ or strip(e.args[1]).op in ("phi", "hv")) and (arg is None or ["remote_to_local", "local_to_remote"][arg] in argfields(e, 0)), "the entity is looked up in the table of its own side", tag="lookup")
    # both directions
    f = c.fn(G + "insert")
    r, l = mk("p", f.names.get(2, "remote_entity")), mk("p", f.names.get(3, "local_entity"))
    s = scen(c, "insert", f, events=[r"HashMap::insert$"])
    got = {}
    for e in s.ev(r"HashMap::insert$"):
        for t in ("remote_to_local", "local_to_remote"):
            if t in argfields(e, 0): got[t] = (strip(e.args[1]), strip(e.args[2]), e)
    for t, k, v in (("remote_to_local", r, l), ("local_to_remote", l, r)):
        c.check(t in got and got[t][0] is k and got[t][1] is v, "insert: " + t, "a pair is entered in both directions", got[t][2].where() if t in got else f.file)
    for adt in ("SendEntityMap", "ReceiveEntityMap"):
        f = c.fn("<lightyear_serde::entity_map::%s as bevy_ecs::entity::map_entities::EntityMapper>::set_mapped" % adt)
        s = scen(c, "set", f, events=[r"HashMap::insert$"])
        s.each(r"HashMap::insert$", lambda e: strip(e.args[1]) is mk("p", f.names.get(2, "source")) and strip(e.args[2]) is mk("p", f.names.get(3, "target")), "the entity given is mapped to the one given", tag="entry")
    f = c.fn(G + "remove_by_remote"); e_ = mk("p", f.names.get(2, "remote_entity"))
    RM = r"HashMap::remove$"
    def table(e): return next((t for t in ("remote_to_local", "local_to_remote") if t in argfields(e, 0)), None)
    for key, mark, hit in (("known", 0, True), ("unknown", 0, False), ("own, known", 1, True), ("own, unknown", 1, False)):
        s = scen(c, key, f, stubs=estubs({e_: mark, X: 0}) + [], events=[RM], assume=None, init=None)
        own = mk("ent", e_, 0) if mark else e_
        first, second = ("local_to_remote", "remote_to_local") if mark else ("remote_to_local", "local_to_remote")
        evs = s.ev(RM)
        a = [e for e in evs if table(e) == first]; b = [e for e in evs if table(e) == second]
        c.check(len(a) == 1 and strip(a[0].args[1]) is own, "remove %s: first" % key, "the pair is looked up by the entity given", f.file)
        c.check(len(b) == 1 and has_call(b[0].args[1], r"remove$") and has(b[0].args[1], lambda y: y.op == "f" and y.args[1] == "Some"), "remove %s: second" % key, "the other direction of the same pair is removed too", f.file)
        if not hit and not mark:
            for e in s.ev(None, "exit"):
                known_ = [v for k, v in e.state.facts.items() if k[0] == "d" and k[1].op == "call" and k[1].args[0].endswith("HashMap::remove")]
                if known_ and known_[0] == 0: c.check(e.val is NONE, "remove unknown: value", "an unknown entity has no pair", e.where())
                elif known_ and known_[0] == 1: c.check(e.val.op == "agg" and e.val.args[1] == "Some", "remove known: value", "the local entity of the pair is handed back", e.where())
        if mark: s.exits(lambda e: True if e.val is some(own) else (False if known(e.val) or e.val is NONE else None), "an own entity is handed back", tag="value")
    f = c.fn(G + "clear")
    s = scen(c, "clear", f, events=[r"HashMap::clear$"])
    done = {table(e) for e in s.ev(r"HashMap::clear$")}
    for t in ("remote_to_local", "local_to_remote"): c.check(t in done, "clear: " + t, "both directions are cleared", f.file)

# ---------------------------------------------------------------- netcode layouts
NB = "lightyear_netcode::bytes::Bytes"
def resub(it, v, old, new):
    """v with old replaced by new, re-simplified"""
    if v is old: return new
    if not isinstance(v, V) or not v.args: return v
    r = lambda x: resub(it, x, old, new) if isinstance(x, V) else x
    if v.op == "bin": return it.binop(v.args[0], r(v.args[1]), r(v.args[2]), it.vty.get(v, "u64"), "u64") if len(v.args) == 3 else v
    if v.op == "lin":
        s = I(v.args[1])
        for t, k in v.args[0]: s = add(s, mul(r(t), I(k)))
        return s
    if v.op == "cast": return mk("cast", v.args[0], r(v.args[1]))
    if v.op == "call": return mk("call", v.args[0], tuple(r(x) for x in v.args[1]), *v.args[2:])
    return v
def nstubs(tr=None, probs=None):
    """netcode's writers and readers also use io::Write::write and Read::read_exact into a buffer"""
    ident = lambda it, st, fr, a, sym: it.normarg(st, a[0])
    common = [(r"GenericArray::from_slice$", lambda it, st, fr, a, sym: a[0]), (r"ToOwned::to_owned$", lambda it, st, fr, a, sym: strip(it.normarg(st, a[0]))),
              (r"Box::new$", lambda it, st, fr, a, sym: a[0]), (r"String::(as_bytes|as_str)$|str::as_bytes$", lambda it, st, fr, a, sym: a[0]), (r"String::from_utf8$", lambda it, st, fr, a, sym: okv(a[0]))]
    def unslice(v):
        while v.op == "slice" and v.args[1] == "RangeFull": v = strip(v.args[0])
        return v
    def unbox(v):
        v = unslice(strip(v))
        if v.op == "cast" and v.args[0].startswith("*"):      # through a box
            v = v.args[1]
            while v.op == "f" and v.args[2] in ("0", "pointer"): v = v.args[0]
        return v
    if tr is None:
        out = []
        for pat, g in wstubs():
            if "to_bytes" in pat: pat = r"Bytes[\w:<>]*::write_to$"
            def h(it, st, fr, a, sym, g=g, t="write_to" in pat):
                if t and not any("AddressList" in n for n in it.cur_names): return None
                a = list(a)
                if not t and len(a) > 1: a[1] = unbox(it.normarg(st, a[1])) if a[1].op in ("ref", "&") else a[1]
                return g(it, st, fr, a, sym)
            out.append((pat, h))
        wa = next(h for p, h in out if "write_all" in p)
        def w1(it, st, fr, a, sym):
            wa(it, st, fr, a, sym)
            return okv(mk("len", unbox(it.normarg(st, a[1]))))
        return [(r"Write::write$", w1)] + out + common
    out = []
    for pat, g in rstubs(tr, probs):
        if "from_bytes" in pat: pat = r"Bytes[\w:<>]*::read_from$"
        if "split_len" in pat: pat = r"Read[\w:<>]*::read_exact$"
        def h(it, st, fr, a, sym, g=g, t="read_from" in pat, x="read_exact" in pat):
            if t and not any("AddressList" in n for n in it.cur_names): return None
            r = g(it, st, fr, a, sym)
            if x and is_ok(r):
                d = a[1]
                if d.op != "ref": probs.append("reads into an unknown place"); return r
                root, projs = d.args
                if projs and projs[-1][0] == "S" and projs[-1][1] == "RangeFull": projs = projs[:-1]
                it.wr(st, root, projs, r.args[2][0]); return okv()
            return r
        out.append((pat, h))
    return out + common
@prop("N11", floor=40, explain="""Every netcode packet and token body is evaluated to the sequence of values it writes; its reader is evaluated on that sequence, must consume it and rebuild the value, without refusing it.
The prefix byte and the variable-length sequence are followed bit by bit for every length; each packet kind must be decoded as the kind it was written as.""")
def n11(c):
    P = c.P; by = {}
    for m in ("write_to", "read_from"):
        for self_, i, im in P.impl_methods.get((NB, m), []):
            f = P.fns.get(i)
            if f is not None: by.setdefault(self_, {})[m] = f
    n = 0
    for ty, m in sorted(by.items()):
        if len(m) != 2: continue
        n += 1; name = ty.split("::")[-1]
        w, r = m["write_to"], m["read_from"]
        if name == "AddressList": addrs(c, w, r); continue
        me = mk("*", mk("p", w.names.get(1, "self")))
        a = P.adts.get(ty)
        fields = [] if a["enum"] else [(f, P.types[a["crate"]][i]) for f, i in a["vars"][0][2]]
        en = next((v for v in a["vars"] if any(x[2] for x in a["vars"])), None) if a["enum"] else None
        variants = [(v[0], (lambda it, d=v[1]: [(deq(me, d), True)])) for v in a["vars"]] if a["enum"] else [("", None)]
        for vn, asm in variants:
            key = name + (" " + vn if vn else "")
            s = scen(c, key + " written", w, stubs=nstubs(), assume=asm)
            ex = [e for e in s.ev(None, "exit") if not is_err(e.val)]
            c.check(bool(ex), key + ": written", "it can be written", w.file)
            for e in ex:
                tr = e.state.mon or (); facts = dict(e.state.facts); probs = []
                k = "%s [%s]" % (key, describe(tr))
                def init(it, st, fr): st.facts.update(facts); it.vty.update(s.it.vty)
                pre = None
                if any(f == "expire_timestamp" for f, _ in fields) and any(f == "create_timestamp" for f, _ in fields): pre = lambda it: [(le(fld(me, "create_timestamp"), fld(me, "expire_timestamp")), True)]
                same_version = [(r"PartialEq::ne$", values.FALSE), (r"PartialEq::eq$", values.TRUE)] if any(f.startswith("version") for f, _ in fields) else []
                q = scen(c, key + " read", r, stubs=nstubs(tr, probs) + same_version, init=init, assume=pre)
                c.check(not probs, k + ": order", "what is read has the form of what was written (%s)" % "; ".join(sorted(set(probs))), "%s:%s (%s)" % (r.file, r.line, r.name))
                if probs: continue
                for x in q.ev(None, "exit"):
                    if os.environ.get("WDBG"): print(k, show(x.val)[:300])
                    c.tri(True if is_ok(x.val) else (False if is_err(x.val) and not [y for y in x.state.facts if y[0] == "d" and False] else None), k + ": accepted", "what was written is not refused", x.where())
                    if not is_ok(x.val): continue
                    c.check((x.state.mon[0] if x.state.mon else 0) == len(tr), k + ": consumed", "everything that was written is read", x.where())
                    c.tri(eqv(q.it, x, x.val.args[2][0], me), k + ": value", "the value read is the value written", x.where())
    c.check(n >= 9, "layouts", "all netcode layouts were found", "")
    # the prefix byte and the sequence
    sl = c.fn("lightyear_netcode::packet::sequence_len"); PK = "lightyear_netcode::packet::Packet::"
    for L in range(65):
        s = scen(c, "%d significant bits" % (64 - L), sl, stubs=[(r"leading_zeros$", I(L))], writes=False)
        s.exits(lambda e: (8 * ival(e.val) >= 64 - L and 1 <= ival(e.val) <= 8) if isint(e.val) else None, "the sequence is written in enough bytes, between one and eight", tag="sequence length")
    pf, gp = c.fn(PK + "prefix"), c.fn(PK + "get_prefix")
    for kind in range(7):
        for ln in range(1, 9):
            s = scen(c, "prefix", pf, stubs=[(r"packet::sequence_len$", I(ln))], writes=False, assume=lambda it: [(ieq(mk("p", pf.names.get(1, "kind")), I(kind)), True)])
            for e in s.ev(None, "exit"):
                b = resub(s.it, e.val, mk("p", pf.names.get(1, "kind")), I(kind))
                q = scen(c, "get_prefix", gp, writes=False)
                for x in q.ev(None, "exit"):
                    v = resub(q.it, x.val, mk("p", gp.names.get(1, "prefix_byte")), b) if x.val.op != "agg" else [resub(q.it, y, mk("p", gp.names.get(1, "prefix_byte")), b) for y in x.val.args[2]]
                    if not isinstance(v, list) or len(v) != 2: c.undecided("prefix", show(x.val)); continue
                    got = [ival(uncast(y)) if isint(uncast(y)) else None for y in v]
                    c.tri(None if None in got else got == [ln, kind], "prefix kind %d length %d" % (kind, ln), "the prefix byte gives back the packet kind and the sequence length", x.where())
    ws = c.fn("<W as lightyear_netcode::packet::WriteSequence>::write_sequence"); seq = mk("p", ws.names.get(2, "sequence"))
    s = scen(c, "write_sequence", ws, stubs=[(r"packet::sequence_len$", mk("p", "LEN"))], events=[r"write_u8$"], writes=False, assume=lambda it: [(le(mk("p", "LEN"), I(8)), True)])
    for e in s.ev(r"write_u8$"):
        v = e.args[1]; nx = [y for y in subvals(v) if y.op == "f" and has_call(y, r"next$") and y.args[0].op == "call" and y.args[0].args[0].endswith("next")]
        if len(set(nx)) != 1: c.undecided("write_sequence", show(v)); continue
        for i in range(8):
            b = s.it.bits(resub(s.it, v, nx[0], I(i)))[:8]
            c.tri(True if b == [(seq, 8 * i + k) for k in range(8)] else (None if any(x is None for x in b) else False), "sequence byte %d" % i, "the sequence is written byte by byte, lowest first", e.where())
        c.check(has(nx[0], lambda y: y.op == "agg" and "Range" in y.args[0] and y.args[2][0] is I(0) and uncast(y.args[2][1]) is mk("p", "LEN")) or not known(nx[0]), "sequence bytes", "as many bytes are written as the prefix announces, from the first", e.where())
    rs = c.fn("<R as lightyear_netcode::packet::ReadSequence>::read_sequence"); ln = mk("p", rs.names.get(2, "sequence_len"))
    reads(c, rs, ln)
    # what each kind is decoded as
    A = P.adts["lightyear_netcode::packet::Packet"]
    kf, rf = c.fn(PK + "kind"), c.fn(PK + "read")
    codes = {}
    for name, d, fs in A["vars"]:
        s = scen(c, "kind of " + name, kf, assume=lambda it: [(deq(mk("*", mk("p", kf.names.get(1, "self"))), d), True)], writes=False)
        vals = {e.val for e in s.ev(None, "exit")}
        c.tri(None if len(vals) != 1 or not isint(list(vals)[0]) else True, "kind of " + name, "every packet has one kind", kf.file)
        if len(vals) == 1 and isint(list(vals)[0]): codes[name] = ival(list(vals)[0])
    c.check(len(set(codes.values())) == len(codes) and all(0 <= k < 16 for k in codes.values()), "kinds", "different packets have different kinds", kf.file)
    RB = r"Bytes[\w:<>]*::read_from$"
    ty = {name: P.types[A["crate"]][fs[0][1]] for name, d, fs in A["vars"]}
    for name, k in codes.items():
        pre = [(r"Packet::get_prefix$", mk("agg", "()", "", (I(1), I(k)))), (r"is_already_received$", values.FALSE), (r"ReadInteger::read_u8$|ReadInteger[\w:]*::read_u8$", okv(I(0x10 | k if name != "Request" else 0)))]
        s = scen(c, "read " + name, rf, stubs=pre + [(RB, lambda it, st, fr, a, sym: okv(mk("p", "BODY " + next((n_ for n_ in it.cur_names if n_.startswith("<")), "?"))))], events=[RB], writes=False,
                 assume=lambda it: [(le(mk("p", rf.names.get(6, "allowed_packets")), I(255)), True)])
        ok = [e for e in s.ev(None, "exit") if is_ok(e.val)]
        c.check(bool(ok), "read %s: accepted" % name, "every kind of packet can be read", rf.file)
        for e in ok:
            v = e.val.args[2][0]
            c.tri(None if v.op != "agg" else v.args[1] == name, "read %s: kind" % name, "a packet is decoded as the kind it was written as", e.where())
            if v.op == "agg" and v.args[2] and v.args[2][0].op == "p" and v.args[2][0].args[0].startswith("BODY"):
                c.check(ty[name] in v.args[2][0].args[0], "read %s: body" % name, "the body is decoded by the layout it was written with", e.where())
    wf = c.fn(PK + "write")
    for name, d, fs in A["vars"]:
        WB = r"Bytes[\w:<>]*::write_to$|write_all$"
        s = scen(c, "write " + name, wf, events=[WB, r"write_u8$", r"WriteSequence[\w:<>]*::write_sequence$"], assume=lambda it: [(deq(mk("*", mk("p", wf.names.get(1, "self"))), d), True)], writes=False)
        body = s.ev(r"Bytes[\w:<>]*::write_to$")
        if name != "Payload":
            c.tri(True if body else None, "write %s: body" % name, "the body is written", wf.file)
            for e in body: c.check(any(ty[name] in n_ for n_ in e.names) or not any(n_.startswith("<") for n_ in e.names), "write %s: layout" % name, "the body is written in the layout of its kind", e.where())
        for e in s.ev(r"write_u8$"):
            if not known(e.args[1]) and not isint(e.args[1]): continue
            b = s.it.bits(e.args[1])
            lo = b[:4]
            c.tri(None if any(x not in (0, 1) for x in lo) else sum(x << i for i, x in enumerate(lo)) == codes.get(name), "write %s: prefix" % name, "the prefix names the kind of the packet", e.where())

def reads(c, rs, ln):
    """read_sequence takes as many bytes as announced into the front of a zeroed buffer, and reads it little-endian"""
    RX = r"Read[\w:<>]*::read_exact$"
    def rx(it, st, fr, a, sym):
        d = a[1]
        if d.op != "ref" or not d.args[1] or d.args[1][-1][0] != "S": st.mon = ("?",); return okv()
        root, projs = d.args; kind, ar = projs[-1][1:3]
        base = it.rd(st, root, projs[:-1])
        st.mon = (kind, tuple(ar), base)
        it.wr(st, root, projs[:-1], mk("p", "FILLED"))
        return okv()
    s = scen(c, "read_sequence", rs, stubs=[(RX, rx)], writes=False)
    s.stubbed([RX]) if not s.hits.get(RX) else None
    for e in s.ev(None, "exit"):
        if not is_ok(e.val): c.undecided("read_sequence", show(e.val)); continue
        m = e.state.mon
        if not m or m[0] == "?": c.undecided("read_sequence", "buffer"); continue
        k, ar, base = m
        r = None
        if k == "RangeTo": r = uncast(ar[0]) is ln
        elif k == "Range": r = isint(ar[0]) and ival(ar[0]) == 0 and uncast(ar[1]) is ln
        elif k == "RangeFull": r = False
        if r is False and not all(known(x) for x in ar): r = None
        c.tri(r, "read_sequence: range", "the bytes announced are read into the front of the buffer", e.where())
        c.tri(True if base.op == "repeat" and isint(base.args[0]) and ival(base.args[0]) == 0 else (False if base.op == "repeat" else None), "read_sequence: zero", "the bytes not written are zero", e.where())
        v = e.val.args[2][0]
        c.tri(True if v.op == "call" and v.args[0].endswith("from_le_bytes") and v.args[1][0] is mk("p", "FILLED") else (False if v.op == "call" and v.args[0].endswith("_bytes") else None), "read_sequence: order", "the lowest byte comes first", e.where())

def addrs(c, w, r):
    """the address list: a count, then one address after the other, told apart by its family"""
    NX = r"Iterator[\w:<>]*::next$"
    A = mk("p", "ADDR"); INS = r"FreeList::insert$"
    for fam, d in (("V4", 0), ("V6", 1)):
        def once(it, st, fr, a, sym):
            if st.mon and any(x[0] == "NEXT" for x in st.mon): return NONE
            st.mon = (st.mon or ()) + (("NEXT", UNIT, str(sym)),)
            return some(mk("agg", "()", "", (mk("p", "INDEX"), A)))
        s = scen(c, "AddressList %s" % fam, w, stubs=[(NX, once)] + nstubs(), assume=lambda it: [(deq(A, d), True)])
        ex = [e for e in s.ev(None, "exit") if is_ok(e.val) and any(x[0] == "NEXT" for x in e.state.mon)]
        if not ex: c.undecided("AddressList " + fam, "no path writes an address"); continue
        for e in ex:
            tr = [(k.lstrip("*"), v, site) for k, v, site in e.state.mon if k != "NEXT"]
            if not tr or tr[0][0] == "": c.undecided("AddressList " + fam, "trace"); continue
            cnt = uncast(strip(tr[0][1]))
            c.tri(True if has_field(tr[0][1], "len") or tr[0][1].op == "call" else (False if isint(cnt) else None), "AddressList %s: count" % fam, "the number of addresses comes first", e.where())
            tr[0] = (tr[0][0], I(1), tr[0][2])
            probs = []
            def seq(kind, g0):
                def g(it, st, fr, a, sym):
                    i = st.mon[0] if st.mon else 0
                    if i >= len(tr): st.mon = (i, "over"); return errv(mk("p", "mismatch"))
                    if tr[i][0] != kind: probs.append("reads a %s where a %s was written" % (kind, tr[i][0])); return errv(mk("p", "mismatch"))
                    st.mon = (i + 1,)
                    if kind == "bytes" and a[1].op == "ref":
                        it.wr(st, a[1].args[0], a[1].args[1], tr[i][1]); return okv()
                    return okv(tr[i][1])
                return g
            st_ = [(r"::read_%s$" % k, seq(k, None)) for k in PRIM] + [(r"Read[\w:<>]*::read_exact$", seq("bytes", None))]
            q = scen(c, "AddressList %s read" % fam, r, stubs=st_, events=[INS], no_inline=(r"FreeList::insert$",))
            c.check(not probs, "AddressList %s: order" % fam, "what is read has the form of what was written (%s)" % "; ".join(sorted(set(probs))), "%s:%s (%s)" % (r.file, r.line, r.name))
            ins = q.ev(INS)
            if not ins: c.undecided("AddressList %s: kept" % fam, "no address is kept")
            for x in ins:
                v = x.args[1]
                if os.environ.get("WDBG"): print(fam, show(v))
                octs = [y for y in subvals(v) if y.op == "call" and y.args[0].endswith("octets")]
                ports = [y for y in subvals(v) if y.op == "call" and y.args[0].endswith("::port")]
                kinds = {k for y in octs for k in re.findall(r"Ipv[46]", y.args[0])}
                c.tri((True if kinds == {"Ip" + fam.lower()} and all(has(y, lambda z: z is A) for y in octs) else False) if octs else (False if known(v) else None), "AddressList %s: address" % fam, "the address read is the address written", x.where())
                c.tri(True if ports and all(has(y, lambda z: z is A) for y in ports) else (False if known(v) and not has(v, lambda y: y.op in ("phi", "hv")) else None), "AddressList %s: port" % fam, "the port read is the port written", x.where())
    # every count an address list can have is accepted
    nf = c.fn("lightyear_netcode::token::AddressList::new"); cap = 0
    for i in range(64):
        s = scen(c, "AddressList cap", nf, stubs=[(r"Iterator[\w:<>]*::next$", some(mk("agg", "()", "", (I(i), A))))], events=[r"FreeList::insert$"], no_inline=(r"FreeList::insert$",), writes=False)
        if not s.ev(r"FreeList::insert$"): break
        cap = i + 1
    for cnt in [1, 2] + ([cap] if 2 < cap < 64 else []):
        s = scen(c, "AddressList of %d" % cnt, r, stubs=[(r"::read_u32$", okv(I(cnt))), (r"::read_u8$", okv(I(1))), (r"::read_u16$", okv(I(1))), (r"Read[\w:<>]*::read_exact$", okv())], no_inline=(r"FreeList::insert$",))
        s.exits(lambda e: not is_err(e.val), "a list that can be built can be read", tag="count accepted")
