"""What a malformed datagram can reach: every place that can panic (checked arithmetic, indexing, slicing, unwrapping, explicit panics) on the paths
that handle received bytes. A place is broken when values the sender chooses, consistent with every test made before it, make it panic."""
import re, itertools
from lib import *
import interp
from props import prop

PAN = [r"core::panicking::|panicking::(panic|unreachable)", r"option::Option::(unwrap|expect)$", r"result::Result::(unwrap|expect|unwrap_err|expect_err)$", r"ops::index::Index(Mut)?::index(_mut)?$",
       r"\[T\]::(copy_from_slice|split_at|split_at_mut|chunks|chunks_exact)$", r"bytes::.*::(split_off|split_to|advance|slice|get_u8|get_u16|get_u32|copy_to_bytes)$", r"vec::Vec::(drain|remove|swap_remove|split_off|insert)$", r"VecDeque::(insert|drain|split_off)$"]
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}
LENS = sorted(set(list(range(0, 70)) + [255, 256, 1023, 1024, 1075, 1076, 1077, 1078, 1079, 1199, 1200, 1201, 1280, 1299, 1300, 1301, 65535, 65536]))


WORDS = sorted(set(list(range(0, 40)) + [2 ** i + d for i in range(5, 17) for d in (-1, 0, 1) if 0 <= 2 ** i + d < 65536]))
WIDE = sorted(set(list(range(0, 20)) + [2 ** i + d for i in (8, 10, 16, 31, 32, 63) for d in (-1, 0, 1)] + [2 ** 64 - d for d in (1, 2, 255, 256, 257)]))


class Eval:
    """values under an assignment of the sender's choices; None when something else is involved"""
    def __init__(self, it, env): self.it = it; self.env = env
    def __call__(self, v):
        if isinstance(v, int): return v
        if not isinstance(v, V): return None
        if v in self.env: return self.env[v]
        if isint(v): return ival(v)
        b = bval(v)
        if b is not None and v.op == "const": return int(b)
        if v.op == "lin":
            s = v.args[1]
            for t, k in v.args[0]:
                x = self(t)
                if x is None: return None
                s += k * x
            return s
        if v.op == "cast":
            x = self(v.args[1]); ty = next((a for a in v.args if isinstance(a, str) and a in BITS), None)
            return None if x is None else x & ((1 << BITS[ty]) - 1) if ty else x
        if v.op in ("bin",) or (v.op in ("Shr", "Shl", "BitAnd", "BitOr", "BitXor", "Div", "Rem")):
            op = v.args[0] if v.op == "bin" else v.op
            a, b = [self(x) for x in (v.args[1:3] if v.op == "bin" else v.args[:2])]
            if op == "BitAnd" and (a == 0 or b == 0): return 0
            if a is None or b is None: return None
            w = BITS.get(tyof(self.it, v) or "", 64) if True else 64
            if op == "Shr": return a >> b if b < 256 else 0
            if op == "Shl": return (a << b) & ((1 << w) - 1) if b < 256 else 0
            if op == "BitAnd": return a & b
            if op == "BitOr": return a | b
            if op == "BitXor": return a ^ b
            if op == "Div": return a // b if b else None
            if op == "Rem": return a % b if b else None
            return None
        if v.op in ("min", "max"):
            xs = [self(x) for x in v.args]
            return None if any(x is None for x in xs) else min(xs) if v.op == "min" else max(xs)
        if v.op in ("le", "eq", "ne", "not", "ovf"): return self.boolean(v)
        return None
    def lin0(self, terms, k=0):
        for t, c in terms:
            x = self(t)
            if x is None: return None
            k += c * x
        return k


def refutable(it, st, atoms, bad):
    """is there a choice of the atoms, consistent with every literal that can be evaluated, for which bad(ev) is True"""
    lits = literals(st)
    dom = [range(256) if k == "byte" else WORDS if k == "u16" else WIDE if k == "wide" else LENS for _, k in atoms]
    rel = [(l, b) for l, b in lits if any(a.syms & l.syms or a in set(subvals(l)) for a, _ in atoms)] if atoms else []
    for vals in itertools.product(*dom):
        env = {a: x for (a, _), x in zip(atoms, vals)}
        ev = Eval(it, env)
        if bad(ev) is not True: continue
        ok = True
        for l, b in rel:
            t = truth(ev, l)
            if t is not None and t != b: ok = False; break
        if ok: return vals
    return None


def truth(ev, l):
    """truth of a literal under ev, None when open"""
    if l.op == "le":
        x = ev.lin0(l.args[0]); return None if x is None else x <= l.args[1]
    if l.op == "ieq":
        x = ev.lin0(l.args[0]); return None if x is None else x == l.args[1]
    if l.op == "not":
        t = truth(ev, l.args[0]); return None if t is None else not t
    if l.op == "ovf":
        a, b = ev(l.args[1]), ev(l.args[2])
        if a is None or b is None: return None
        w = BITS.get(tyof(ev.it, l.args[1]) or tyof(ev.it, l.args[2]) or deep(ev.it, l.args[1]) or deep(ev.it, l.args[2]) or "")
        op = l.args[0]; r = a + b if op == "Add" else a - b if op == "Sub" else a * b if op == "Mul" else None
        if r is None: return None
        return r < 0 if op == "Sub" else None if w is None else r < 0 or r >= (1 << w)
    return None
def deep(it, v):
    for x in subvals(v):
        t = tyof(it, x)
        if t in BITS: return t
    return None
Eval.boolean = lambda self, v: truth(self, v)

READ = re.compile(r"read_exact$|::read$|read_to_end$|read_slice|copy_to_slice$")
TAKE = re.compile(r"::(read_u8|read_u16|read_u32|read_u64|read_i\d+|read_varint|get_u8|get_u16|from_be_bytes|from_le_bytes)$")


def wires(st, vals, params):
    """the atoms of these values that the sender chooses: [(value, kind)], or None when something else is involved"""
    sites = set()
    for l, b in literals(st):
        for x in subvals(l):
            if x.op == "call" and READ.search(x.args[0]) and len(x.args) > 2 and x.args[2] is not None: sites.add(x.args[2])
    return sites


def atoms_of(it, st, vals, params):
    sites = wires(st, vals, params); out = {}
    def walk(v):
        if not isinstance(v, V): return
        t = tyof(it, v)
        if v.op == "idx" and t == "u8" and v.args[0].op in ("hv",) and v.args[0].syms & sites: out[v] = "byte"; return
        if v.op == "len" and root(v.args[0]) in params: out[v] = "len"; return
        if v.op == "call" and TAKE.search(v.args[0]) and t in BITS: out[v] = "byte" if t == "u8" else "u16" if t == "u16" else "wide"; return
        if v.op == "lin":
            for x, _ in v.args[0]: walk(x)
            return
        for a in v.args:
            if isinstance(a, V): walk(a)
            elif isinstance(a, tuple):
                for y in a:
                    if isinstance(y, V): walk(y)
                    elif isinstance(y, tuple) and y and isinstance(y[0], V): walk(y[0])
    for v in vals: walk(v)
    return list(out.items()) if len(out) <= 2 else []
def root(v):
    v = strip(v)
    while isinstance(v, V) and v.op in ("f", "*", "&", "slice", "idx", "cast") and any(isinstance(x, V) for x in v.args): v = strip(next(x for x in v.args if isinstance(x, V)))
    return str(v.args[0]) if v.op == "p" else None


def length(v):
    v = strip(v)
    if v.op == "repeat":
        n = v.args[1] if len(v.args) > 1 else None
        if isinstance(n, V): return ival(n) if isint(n) else None
        m = re.match(r"(\d+)(_?usize)?$", str(n)); return int(m.group(1)) if m else None
    if v.op == "agg" and v.args[0] in ("[]", "array"): return len(v.args[2])
    return None


def place(it, e):
    """(what can go wrong, refuter) for one panic site; refuter(ev) is True when it panics"""
    if e.kind == "assert":
        if e.val is None: return None
        return [e.val], lambda ev: (lambda t: None if t is None else t != bool(e.res))(truth(ev, e.val))
    n = e.names[0]
    if re.search(r"Index(Mut)?::index(_mut)?$", n) and len(e.args) == 2:
        L = length(e.args[0]); r = strip(e.args[1])
        Lv = L if L is not None else mk("len", strip(e.args[0]))
        kind = r.args[0].split("::")[-1] if r.op == "agg" else None
        if kind == "RangeTo": return [r.args[2][0]] + ([Lv] if isinstance(Lv, V) else []), lambda ev: (lambda a, b: None if a is None or b is None else a > b)(ev(r.args[2][0]), ev(Lv))
        if kind == "RangeFrom": return [r.args[2][0]] + ([Lv] if isinstance(Lv, V) else []), lambda ev: (lambda a, b: None if a is None or b is None else a > b)(ev(r.args[2][0]), ev(Lv))
        if kind == "Range":
            return list(r.args[2]) + ([Lv] if isinstance(Lv, V) else []), lambda ev: (lambda a, b, c: None if None in (a, b, c) else a > b or b > c)(ev(r.args[2][0]), ev(r.args[2][1]), ev(Lv))
    return None


FALL = re.compile(r"read_exact$|::read_from$|::from_bytes$|::read$|decrypt(_in_place|_in_place_detached)?$|read_sequence$|read_u\d+$|read_i\d+$|read_varint$|split_len$|from_utf8$|checked_\w+$|::validate$|from_u8$|TryFrom(<.*>)?::try_from$|TryInto(<.*>)?::try_into$|peek$|deserialize$|decode\w*$")
def fallible(it, st, v):
    """an unwrapped value: 'ok' known good, 'bad' the failure of reading the sender's bytes, None open"""
    v = strip(v)
    if v.op == "agg":
        return "ok" if v.args[1] in ("Ok", "Some") else "bad" if v.args[1] in ("Err", "None") else None
    if v.op == "call" and FALL.search(v.args[0]):
        # a conversion of a slice whose length was fixed just before cannot fail
        if re.search(r"try_into$|try_from$", v.args[0]) and any(x.op == "agg" and str(x.args[0]).endswith("RangeTo") and all(isint(y) for y in x.args[2]) for x in subvals(v)): return "ok"
        if re.search(r"write_all$", v.args[0]): return None
        d = deq(v, 0)
        t = it.truth(st, d)
        n = it.truth(st, deq(v, 1))
        good = 1 if "option" in str(tyof(it, v) or "") else 0
        if t is not None: return "ok" if bool(t) == (good == 0) else "bad"
        if n is not None: return "ok" if bool(n) == (good == 1) else "bad"
        return "bad"
    return None


CUT = re.compile(r"Index(Mut)?::index(_mut)?$|::(slice|split_off|split_to|split_at|split_at_mut|advance|drain)$")
def untested(it, e):
    """a wide number read from the wire that decides where something is cut or indexed, although no fact of the path restricts it"""
    if e.kind == "assert":
        if e.val is None or e.val.op != "ovf" or e.val.args[0] not in ("Add", "Mul"): return None
        pos = e.val.args[1:3]
    elif CUT.search(e.names[0]) and len(e.args) >= 2:
        if tyof(it, e.args[0]) and "HashMap" in str(tyof(it, e.args[0])): return None
        pos = [strip(e.args[1])]
    else: return None
    ws = []
    for v in pos:
        for x in subvals(v) if isinstance(v, V) else ():
            if x.op == "call" and WIRE.search(x.args[0]) and x not in ws: ws.append(x)
            if x.op == "call" and re.search(r"::(min|clamp|rem|checked_\w+|get)$", x.args[0]) or x.op in ("min", "max"): return None
    for w in ws:
        if not re.search(r"read_varint$|read_u64$|read_u32$", w.args[0]): continue
        told = False
        for l, b in literals(e.state):
            if w not in set(subvals(l)): continue
            if l.op == "deq" and (l.args[0] is w or l.args[0].op == "call" and "checked_" in l.args[0].args[0]): continue      # only that it could be read
            if l.op == "le" and l.args[1] >= 1 << 62 and all(k > 0 for _, k in l.args[0]): continue                              # only that it is representable
            told = True; break
        if not told: return w
    return None


def sites(c, key, f, skip=r"free_list", **kw):
    """judge every panic site on the paths of f"""
    s = scen(c, key, f, events=PAN, **kw)
    params = {f.names.get(i) for i in range(1, f.argc + 1)} - {"self"}
    n = {}; done = set()
    for e in s.it.events:
        if e.kind == "exit" or re.search(skip, e.fn.name): continue
        nm = e.names[0].split("::")[-1] if e.kind == "call" else e.name
        k = "%s: %s in %s" % (short(f), nm, short(e.fn))
        if e.kind == "call" and re.search(r"(Result|Option)::(unwrap|expect)$", e.names[0]):
            r = fallible(s.it, e.state, e.args[0])
            if r == "bad": c.bad(k, "a datagram whose bytes cannot be read as expected panics here", e.where())
            elif r == "ok": c.ok(k, "what is unwrapped was checked before")
            continue
        w = untested(s.it, e)
        if w is not None: c.bad(k, "a number the sender chooses (%s) is used as a position here and nothing before it has tested it" % show(w)[:60], e.where()); continue
        pl = place(s.it, e)
        if not pl: continue
        at = atoms_of(s.it, e.state, pl[0], params)
        if not at: continue
        w = refutable(s.it, e.state, at, pl[1])
        if w: c.bad(k, "the sender can choose %s so that this panics, and nothing before it refuses the datagram" % ", ".join("%s = %d" % (show(a)[-40:], x) for (a, _), x in zip(at, w)), e.where())
        else: c.ok(k, "no choice of the sender's bytes that passes the tests before it panics")
    return s


def hooks(P, suffix):
    return sorted((f for f in P.fns.values() if f.kind == "fn" and re.search(suffix, f.name)), key=lambda f: f.id)


def constant(c, v):
    """integer value of a constant expression"""
    v = strip(v)
    if isint(v): return ival(v)
    if v.op == "named":
        g = next(iter(c.P.byname.get(v.args[0], [])), None)
        if g is None: return None
        s = scen(c, "constant", g)
        xs = {Eval(s.it, {})(resolve_named(c, e.val)) for e in s.it.events if e.kind == "exit"}
        return xs.pop() if len(xs) == 1 else None
    return Eval(None, {})(v)
def resolve_named(c, v): return v


@prop("N12", floor=20, explain="every place that can panic on the paths of a received netcode datagram is enumerated; where its operands are computed from bytes the sender chooses, these are enumerated under the path's tests and none may panic; results of reading are never unwrapped unchecked; no kind of packet that the receiver lets through reaches a panic")
def n12(c):
    P = c.P
    NC = "lightyear_netcode::"
    for n in ("packet::Packet::read", "server::Server::recv_packet", "client::Client::recv_packet"):
        sites(c, n, c.fn(NC + n))
    # before opening a sealed packet its announced parts fit the datagram
    f = c.fn(NC + "packet::Packet::read")
    s = scen(c, "fits", f, events=[r"crypto::chacha_decrypt$"], no_inline=(r"RequestPacket::",))
    for e in s.it.events:
        if e.kind != "call": continue
        at = []
        for l, b in literals(e.state):
            for x in subvals(l):
                if x.op == "idx" and tyof(s.it, x) == "u8" and x not in at: at.append(x)
        ln = mk("len", mk("p", "buf"))
        if len(at) != 1: c.undecided("sealed part fits", "the prefix byte is read another way"); continue
        b = at[0]
        w = refutable(s.it, e.state, [(b, "byte"), (ln, "len")], lambda ev: ev.env[ln] < 1 + (ev.env[b] >> 4) + 16)
        if w: c.bad("sealed part fits", "a datagram of %d bytes with prefix byte %d is opened although it is too short for its sequence and seal" % (w[1], w[0]), e.where())
        else: c.ok("sealed part fits", "a datagram too short for its sequence and seal is refused before it is opened")
    # the kinds a side lets through are the kinds it can process
    T = "lightyear_netcode::packet::Packet"
    for side in ("server::Server", "client::Client"):
        g = c.fn(NC + side + "::process_packet")
        pn = next((g.names.get(i) for i in range(1, g.argc + 1) if str(g.ltys[i]).endswith("packet::Packet") or "packet::Packet" in str(g.ltys[i])), "packet")
        bad = set(); kinds = [v[0] if isinstance(v, (list, tuple)) else v["name"] for v in P.adts[T]["vars"]]
        for i, k in enumerate(kinds):
            pi = next(j for j in range(1, g.argc + 1) if g.names.get(j) == pn)
            s = scen(c, "kind %s" % k, g, events=[r"core::panicking::|panicking::(panic|unreachable)"], assume=lambda it, i=i: [(deq(mk("p", pn), i), True)], inline_only=())
            for e in s.it.events:
                if e.kind == "call" and e.fn.name == g.name: bad.add(i)
        r = c.fn(NC + side + "::recv_packet")
        s = scen(c, "mask", r, events=[r"packet::Packet::read$"], inline_only=(r"%s::" % side.split("::")[-1],))
        for e in s.it.events:
            if e.kind != "call": continue
            mask = constant(c, e.args[-1])
            if mask is None: c.undecided("%s: accepted kinds" % side, "the set of accepted kinds is not a constant"); continue
            let = {i for i in range(len(kinds)) if i < 8 and mask >> i & 1}
            x = sorted(let & bad)
            c.check(not x, "%s: accepted kinds can be processed" % side, "packets of kind %s are let through although processing one panics" % ", ".join(kinds[i] for i in x), e.where())
    # a packet is only returned to a receiver that asked for its kind
    for k, kind in enumerate(kinds):
        for b in sorted({k, 16 + k}):
            for allowed in ((1 << len(kinds)) - 1, 0xff & ~(1 << k)):
                s = scen(c, "prefix %d" % b, f, stubs=[(r"ReadInteger(<.*>)?::read_u8$", lambda it, st, fr, a, sym, b=b: okv(const(b)))], args=[None] * (f.argc - 1) + [const(allowed)], no_inline=(r"crypto::", r"decrypt_token_data", r"::validate$", r"::read_from$"))
                for e in [e for e in s.it.events if e.kind == "exit"]:
                    v = strip(e.val)
                    if not (v.op == "agg" and v.args[1] == "Ok"): continue
                    p = strip(v.args[2][0])
                    key = "prefix %d%s" % (b, "" if allowed >> k & 1 else ", not asked for")
                    if not allowed >> k & 1: c.bad(key, "a %s packet is returned to a receiver that did not ask for its kind" % kind, e.where())
                    elif p.op != "agg": c.undecided(key, "the packet is built another way")
                    else: c.check(p.args[1] == kind, key, "a packet of the kind its prefix names is returned", e.where())
                if not allowed >> k & 1 and not any(strip(e.val).op == "agg" and strip(e.val).args[1] == "Ok" for e in s.it.events if e.kind == "exit"): c.ok("prefix %d, not asked for" % b, "refused")


ALLOC = [r"(Vec|SmallVec|VecDeque|HashMap|HashSet|IndexMap|BytesMut|String)(<.*>)?::with_capacity(_and_hasher)?$", r"vec::from_elem$", r"(Vec|SmallVec|VecDeque|BytesMut)(<.*>)?::(resize|reserve|reserve_exact|resize_with)$"]
WIRE = re.compile(r"::(read_varint|read_u8|read_u16|read_u32|read_u64|from_be_bytes|from_le_bytes|peek)$")


def bounded(it, st, v):
    """is a number read from the wire limited before it is used as a size: True / False / None"""
    w = [x for x in subvals(v) if x.op == "call" and WIRE.search(x.args[0])]
    if not w: return True
    small = [x for x in w if re.search(r"read_u8$", x.args[0])]
    if len(small) == len(w): return True
    if v.op == "min" or v.op == "call" and re.search(r"::(min|clamp)$", v.args[0]): return True
    lo, hi = it.lrange(st, v)
    if hi <= 1 << 24: return True
    # a literal that relates it to what is left of the buffer
    for l, b in literals(st):
        xs = set(subvals(l))
        if any(x in xs for x in w) and any(x.op == "len" or x.op == "call" and re.search(r"remaining|::len$|position", x.args[0]) for x in xs): return True
    return False


@prop("T12", floor=20, explain="every decoder of the wire format, the receive system of the transport and the dispatch of messages are interpreted on arbitrary bytes; no place that can panic may do so for values the sender chooses, no result of reading is unwrapped unchecked, and no allocation is sized by a number from the wire that was not limited first")
def t12(c):
    P = c.P
    decoders = [f for f in P.fns.values() if f.kind == "fn" and re.search(r"lightyear_serde::ToBytes>::from_bytes$", f.name) and "models::" not in f.name]
    entries = sorted(decoders, key=lambda f: f.id) + [f for f in (P.fn(n, opt=True) for n in ("lightyear_transport::plugin::TransportPlugin::buffer_receive", "lightyear_messages::plugin::MessagePlugin::recv")) if f]
    for f in entries:
        sites(c, f.name[-50:], f, no_inline=(r"read_varint$",))
    varint = [f for f in P.fns.values() if f.kind == "fn" and re.search(r"ReadVarInt(<.*>)?::read_varint$|ReadVarInt>::read_varint$", f.name)]
    for f in varint: sites(c, "varint", f)
    # a part of a message is only stored where it has been shown to fit
    FRV = "lightyear_transport::channel::fragments::receive::"
    r = c.fn(FRV + "FragmentReceiver::receive_fragment")
    num = lambda it: fld(par(it, "fragment"), "num_fragments", "0"); idx = lambda it: fld(par(it, "fragment"), "fragment_id", "0")
    CON, GM, RF, CP = r"HashMap::contains_key$", r"HashMap::get_mut$", r"FragmentConstructor::receive_fragment$", r"copy_from_slice$|extend_from_slice$"
    TRK = mk("p", "tracker"); TN = fld(mk("*", TRK), "num_fragments")
    okf = lambda it: [(le(num(it), idx(it)), False), (le(num(it), const(0)), False)]
    for key, ass, st in (("a message of no parts", lambda it: [(ieq(num(it), const(0)), True)], []), ("a part beyond the last", lambda it: [(le(num(it), idx(it)), True)], []),
                         ("another number of parts", lambda it: okf(it) + [(ieq(TN, num(it)), False)], [(CON, TRUE), (GM, some(TRK))])):
        s = scen(c, key, r, assume=ass, events=[RF, CP], stubs=st)
        if st and not s.hits.get(GM): c.undecided(key, "lookup not recognised"); continue
        s.exits(must_err, "it is refused", tag="refused"); s.never("|".join((RF, CP)), "before anything is stored")
    q = c.fn(FRV + "FragmentConstructor::receive_fragment")
    n = lambda it: path(it, "self.num_fragments"); fi = lambda it: par(it, "fragment_index"); sz = lambda it: path(it, "self.fragment_size"); ln = lambda it: mk("len", par(it, "bytes"))
    last = lambda it: (ieq(sub(fi(it), n(it)), const(-1)), True); inner = lambda it: (ieq(sub(fi(it), n(it)), const(-1)), False)
    for key, ass in (("an inner part that is too long", lambda it: [inner(it), (le(ln(it), sz(it)), False)]), ("an inner part that is too short", lambda it: [inner(it), (le(ln(it), sub(sz(it), const(1))), True)]), ("a last part that is too long", lambda it: [last(it), (le(ln(it), sz(it)), False)])):
        s = scen(c, key, q, assume=ass, events=[CP])
        s.exits(must_err, "it is refused", tag="refused"); s.never(CP, "before anything is stored")
    for f in entries:
        s = scen(c, "sizes", f, events=ALLOC, no_inline=(r"read_varint$",))
        for e in s.it.events:
            if e.kind != "call": continue
            n = e.args[1] if e.names[0].endswith(("from_elem", "resize", "reserve", "reserve_exact", "resize_with")) and len(e.args) > 1 else e.args[0]
            k = "%s: sizes in %s" % (short(f), e.where().split(":")[0])
            r = bounded(s.it, e.state, n)
            if r is False: c.bad(k, "as much memory as the sender announces is set aside before any of it has arrived", e.where())
            else: c.ok(k, "the size is not the sender's to choose")
