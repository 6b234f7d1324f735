"""Peer-to-peer sessions: the start barrier."""
import re
from itertools import product
from lib import *
from props import prop
from props.messages import plain
from props.connection import play, must, nothing, ins, event, is_variant, filters, qname, observes, TRIG, EC, recorder

PS = "lightyear_p2p::session::P2PSession"; PEER = "lightyear_p2p::session::RemotePeerStart"; ST = "lightyear_p2p::session::P2PSessionState"
MSG = "lightyear_p2p::session::P2PSessionMessage"; ADV = "lightyear_p2p::session::AdvanceResult"; TICK = "lightyear_core::tick::Tick"
SELF = mk("p", "self")
def tick(n): return mk("agg", TICK, "Tick", (const(n),))
def opt(v): return NONE if v is None else some(v)
def fields(P, adt, variant_, **kw):
    vs = next(v for v in P.adts[adt]["vars"] if v[0] == variant_)
    return mk("agg", adt, variant_, tuple(kw[n] if n in kw else mk("p", "its " + n) for n, _ in vs[2]))
def peer(P, i, ready=None, ack=None):
    return fields(P, PEER, P.adts[PEER]["vars"][0][0], peer_id=mk("p", "peer %d" % i), ready_tick=opt(ready), acknowledged_tick=opt(ack))
REF = lambda i: mk("p", "entry %d" % i)
def state(P, name, t=None):
    vs = next(v for v in P.adts[ST]["vars"] if v[0] == name)
    return mk("agg", ST, name, tuple((opt(t) if name == "Starting" else t) for _ in vs[2]))
def session(P, peers, **kw):
    """init and stubs for a session with those peers"""
    s = fields(P, PS, P.adts[PS]["vars"][0][0], **kw)
    def init(it, st, fr):
        it.wr(st, ("O", SELF), (), s)
        for i, p in enumerate(peers): it.wr(st, ("O", REF(i)), (), p)
    def nxt(it, st, fr, a, sym):
        v = it.normarg(st, a[0])
        x = strip(v)
        while x.op in ("&", "*"): x = strip(x.args[0])
        if "remote_peers" not in show(v) or (x.op == "agg" and x.args[0].startswith("models::")): return None
        if re.search(r"Iterator::(take|skip|step_by|rev|nth|last)\(", show(v)): return None
        k = sum(1 for m in st.mon if m[0] == "peer" and m[1] == sym)
        if k >= len(peers): return NONE
        st.mon = st.mon + (("peer", sym, k),); return some(REF(k))
    def eq(it, st, fr, a, sym):
        x, y = (strip(it.normarg(st, v)) for v in a[:2]); neg = it.cur_names[0].endswith("::ne")
        while x.op in ("*", "&"): x = strip(x.args[0])
        while y.op in ("*", "&"): y = strip(y.args[0])
        return const((x is y) != neg) if x.op == y.op == "p" and str(x.args[0]).startswith("peer ") and str(y.args[0]).startswith("peer ") else None
    def tk(v):
        v = strip(v)
        while v.op in ("*", "&"): v = strip(v.args[0])
        return ival(v.args[2][0]) if v.op == "agg" and v.args[0] == TICK and isint(v.args[2][0]) else None
    def big(it, st, fr, a, sym):
        x, y = (tk(it.normarg(st, v)) for v in a[:2])
        return None if x is None or y is None else tick((max if it.cur_names[0].endswith("max") else min)(x, y))
    def ln(it, st, fr, a, sym): return const(len(peers)) if "remote_peers" in show(it.normarg(st, a[0])) else None
    def at(it, st, fr, a, sym):
        if "remote_peers" not in show(it.normarg(st, a[0])): return None
        i = strip(it.normarg(st, a[1])); seen = [m for m in st.mon if m[0] == "peer"]
        if i.op == "hv" and seen and len({m[1] for m in seen}) == 1: i = const(seen[-1][2])        # where the only search so far stopped
        if not isint(i):
            for k in range(len(peers)): it.wr(st, ("O", REF(k)), (), mk("hv", sym, "entry %d" % k))
            return None
        i = ival(i); checked = re.search("::get(_mut)?$", it.cur_names[0])
        if not 0 <= i < len(peers): return NONE if checked else None
        return some(REF(i)) if checked else REF(i)
    return init, [(r"Iterator::next$", nxt), (r"ops::index::Index(Mut)?(<.*>)?::index(_mut)?$|(SmallVec|Vec|\[T\]|slice)(<.*>)?::get(_mut)?$", at), (r"cmp::PartialEq(<.*>)?::(eq|ne)$", eq), (r"cmp::(Ord::)?(max|min)$", big), (r"SmallVec(<.*>)?::len$|Vec(<.*>)?::len$|\[T\]::len$", ln)]
def run(c, key, fn, peers, args=None, events=(), **kw):
    P = c.P; f = c.fn(fn); init, stubs = session(P, peers, **kw)
    s = play(c, key, f, init=init, stubs=stubs, args=args, writes=True) if args else play(c, key, f, init=init, stubs=stubs, writes=True)
    return s
def aggnow(e, ref, n):
    v = e.state.store.get(("O", ref))
    return aggfield(e.interp.P, v, n) if v is not None else None



def lit(v):
    """the literal as plain data: None / int / bool / tuple (None inside "?" when something is not literal)"""
    v = strip(v)
    while v.op in ("*", "&"): v = strip(v.args[0])
    if v is NONE: return None
    if isbool(v): return bool(bval(v))
    if isint(v): return ival(v)
    if v.op == "agg":
        if v.args[0] == TICK: return lit(v.args[2][0])
        if v.args[1] == "Some": return lit(v.args[2][0])
        if v.args[0] == "()": return tuple(map(lit, v.args[2]))
        return (v.args[1],) + tuple(map(lit, v.args[2]))
    if v.op == "p": return str(v.args[0])
    return "?"
def known_(x): return x != "?" and not (isinstance(x, tuple) and any(not known_(y) for y in x))


class Judge:
    def __init__(self, c, f): self.c = c; self.f = f; self.where = "%s:%s (%s)" % (f.file, f.line, f.name)
    def same(self, tag, got, want, why):
        if not known_(got): self.c.undecided(tag, "%s" % (got,)); return
        self.c.check(got == want, tag, "%s: %s instead of %s" % (why, got, want), self.where)


SF = ("state", "local_ready_tick", "local_ready_sent", "local_acknowledgement_sent", "roster_hash", "roster_mismatch", "generation", "start_delay_ticks", "start_timeout", "start_started_at")
def snapshot(e): return {n: lit(aggnow(e, SELF, n)) if aggnow(e, SELF, n) is not None else "?" for n in SF}
def peers_now(e, n): return [(lit(aggnow(e, REF(i), "ready_tick")), lit(aggnow(e, REF(i), "acknowledged_tick"))) for i in range(n)]


def barrier(c):
    P = c.P; f = c.fn(PS + "::advance"); j = Judge(c, f)
    START = state(P, "Starting")
    def case(peers, local, synced, now, delay=3, mismatch=False, st=None):
        key = "peers %s, own %s, %s, tick %s%s" % (peers, local, "synced" if synced else "not synced", now, ", roster differs" if mismatch else "")
        s = run(c, key, PS + "::advance", [peer(P, i, None if r is None else tick(r), None if k is None else tick(k)) for i, (r, k) in enumerate(peers)], args=[None, tick(now), const(synced)],
                state=st or START, roster_mismatch=const(mismatch), local_ready_tick=opt(None if local is None else tick(local)), start_delay_ticks=const(delay), roster_hash=opt(const(11)), generation=const(4), local_ready_sent=const(False), local_acknowledgement_sent=const(False), start_started_at=NONE)
        lr = local; agreed = None
        if mismatch: res = ("Failed",)
        else:
            if lr is None and synced: lr = now + delay
            if lr is None or any(r is None for r, _ in peers): res = ("Waiting",)
            else:
                agreed = max([lr] + [r for r, _ in peers])
                if any(k is None for _, k in peers): res = ("Waiting",)
                elif any(k != agreed for _, k in peers): res = ("Failed",)
                elif now >= agreed: res = ("Failed",)
                else: res = ("Agreed", agreed)
        if not s.exitsv: c.undecided("advance: " + key, "no exit")
        for e in s.exitsv:
            j.same("advance: %s: result" % key, lit(e.val), res, "peers start together, at the latest tick proposed, once all have confirmed it in time")
            n = snapshot(e)
            j.same("advance: %s: own proposal" % key, n["local_ready_tick"], lr, "a peer proposes one tick, after its timeline is usable")
            j.same("advance: %s: agreed" % key, n["state"], ("Starting", agreed), "the tick agreed is the latest of all the proposals, once all are there")
            j.same("advance: %s: the others" % key, peers_now(e, len(peers)), list(peers), "what the others said does not change")
    for local, synced, now, r, k in product((None, 6), (True, False), (2, 5, 7), (None, 5, 7), (None, 5, 6, 7)): case([(r, k)], local, synced, now)
    for r1, r2, k1, k2 in product((None, 5, 8), (None, 5, 7), (None, 6, 7, 8), (None, 6, 7, 8)):
        ks = max(6, r1 or 0, r2 or 0)
        if any(k not in (None, ks, 6) for k in (k1, k2)): continue
        for now in (ks - 1, ks): case([(r1, k1), (r2, k2)], 6, True, now)
    case([(5, 6), (6, 6), (4, 6)], 6, True, 3); case([(5, 9), (9, 9), (4, 9)], 6, True, 3); case([(5, 9), (9, 9), (4, 8)], 6, True, 3); case([(5, 9), (9, None), (4, 9)], 6, True, 3)
    case([(5, 6)], 6, True, 3, mismatch=True)
    for st in (state(P, "Stopped"), state(P, "Started", tick(7))):
        s = run(c, "not starting", PS + "::advance", [peer(P, 0, tick(5), tick(6))], args=[None, tick(3), const(True)], state=st, roster_mismatch=const(False), local_ready_tick=opt(tick(6)), start_delay_ticks=const(3), roster_hash=NONE, generation=const(4), local_ready_sent=const(False), local_acknowledgement_sent=const(False), start_started_at=NONE)
        for e in s.exitsv:
            j.same("advance: %s: result" % st.args[1], lit(e.val), ("Waiting",), "only a session that is starting negotiates"); j.same("advance: %s: state" % st.args[1], snapshot(e)["state"], lit(st), "only a session that is starting negotiates")
    # what it takes to start
    f = c.fn(PS + "::agreed_start_tick"); j = Judge(c, f)
    for st, t in ((state(P, "Stopped"), None), (state(P, "Starting"), None), (state(P, "Starting", tick(7)), 7), (state(P, "Started", tick(7)), None)):
        for k1, k2 in product((None, 7, 8), (None, 7, 8)):
            s = run(c, "acks %s %s in %s" % (k1, k2, lit(st)), PS + "::agreed_start_tick", [peer(P, i, tick(5), None if k is None else tick(k)) for i, k in enumerate((k1, k2))], state=st)
            for e in s.exitsv: j.same("agreed: %s, %s in %s" % (k1, k2, lit(st)), lit(e.val), t if t is not None and k1 == k2 == t else None, "a peer starts at a tick only when every other peer confirmed that tick")


def receiving(c):
    P = c.P; f = c.fn(PS + "::receive"); j = Judge(c, f)
    base = dict(state=state(P, "Starting"), roster_mismatch=const(False), local_ready_tick=NONE, start_delay_ticks=const(3), roster_hash=opt(const(11)), generation=const(4), local_ready_sent=const(False), local_acknowledgement_sent=const(False), start_started_at=NONE)
    for kind, gen, who, roster, prev, rest in product(("Ready", "StartAcknowledgement"), (4, 3, 5), (0, 1, 2), (11, 12), (None, 7, 8), ((9, None), (None, 5))):
        if gen != 4 and (who, roster) not in ((0, 11), (1, 12)): continue
        fn = "earliest_start_tick" if kind == "Ready" else "start_tick"
        msg = fields(P, MSG, kind, generation=const(gen), roster_hash=const(roster), **{fn: tick(7)})
        before = [((prev, rest[1]) if kind == "Ready" else (rest[0], prev)) if i == who else rest for i in range(2)]
        key = "%s from peer %d%s%s%s after %s" % (kind, who, " (stranger)" if who == 2 else "", "" if gen == 4 else ", other start", "" if roster == 11 else ", other roster", prev) + ("" if rest[0] else ", confirmations first")
        s = run(c, key, PS + "::receive", [peer(P, i, None if r is None else tick(r), None if k is None else tick(k)) for i, (r, k) in enumerate(before)], args=[None, mk("p", "peer %d" % who), msg], **base)
        want = list(before); mm = False
        if gen == 4 and who < 2:
            if roster != 11: mm = True
            elif prev is None: want[who] = (7, before[who][1]) if kind == "Ready" else (before[who][0], 7)
        if not s.exitsv: c.undecided("receive: " + key, "no exit")
        for e in s.exitsv:
            j.same("receive: %s: recorded" % key, peers_now(e, 2), want, "what a peer said first, in this start and for this roster, counts, and only for that peer")
            n = snapshot(e); j.same("receive: %s: roster" % key, n["roster_mismatch"], mm, "a peer with another roster is noticed")
            j.same("receive: %s: own state" % key, tuple(n[x] for x in ("state", "local_ready_tick", "generation", "roster_hash")), (("Starting", None), None, 4, 11), "a message does not change what this peer itself announced")


def outbound(c):
    P = c.P; f = c.fn(PS + "::collect_outbound"); j = Judge(c, f); PUSH = r"(SmallVec|vec::Vec)(<.*>)?::push$"
    for roster, ready, rs, st, as_ in product((None, 11), (None, 6), (False, True), (state(P, "Starting"), state(P, "Starting", tick(8))), (False, True)):
        if roster is None and (rs or as_): continue
        key = "roster %s, own %s%s, %s%s" % (roster, ready, " sent" if rs else "", lit(st), " confirmed" if as_ else "")
        init, stubs = session(P, [], state=st, roster_hash=opt(None if roster is None else const(roster)), local_ready_tick=opt(None if ready is None else tick(ready)), local_ready_sent=const(rs), local_acknowledgement_sent=const(as_), generation=const(4), roster_mismatch=const(False), start_delay_ticks=const(3), start_started_at=NONE)
        s = play(c, key, f, extra=[(PUSH, "push")], init=init, stubs=stubs, writes=True)
        want = []
        if roster and ready and not rs: want.append(("Ready", 4, 11, 6))
        if roster and lit(st)[1] and not as_: want.append(("StartAcknowledgement", 4, 11, 8))
        for e in s.exitsv:
            got = [lit(m[2][1]) for m in e.state.mon if m[0] == "push"]
            def norm(x):
                if not isinstance(x, tuple): return x
                ns = [n for n, _ in next(v for v in P.adts[MSG]["vars"] if v[0] == x[0])[2]]; d = dict(zip(ns, x[1:]))
                return (x[0], d.get("generation"), d.get("roster_hash"), d.get("earliest_start_tick", d.get("start_tick")))
            j.same("announce: " + key, tuple(sorted(map(norm, got), key=str)), tuple(sorted(want, key=str)), "a peer announces the tick it proposed and confirms the tick agreed, each once, for this start and roster")
            n = snapshot(e)
            j.same("announce: %s: once" % key, (n["local_ready_sent"], n["local_acknowledgement_sent"]), (rs or any(w[0] == "Ready" for w in want), as_ or any(w[0] != "Ready" for w in want)), "what was announced is remembered as such, and nothing else")


def lifecycle(c):
    P = c.P
    full = dict(state=state(P, "Starting", tick(8)), roster_mismatch=const(True), local_ready_tick=opt(tick(6)), start_delay_ticks=const(3), roster_hash=opt(const(11)), generation=const(4), local_ready_sent=const(True), local_acknowledgement_sent=const(True), start_started_at=opt(mk("p", "then")))
    f = c.fn(PS + "::begin"); j = Judge(c, f)
    args = [None] * f.argc
    for i in range(2, f.argc + 1):
        n = f.names.get(i)
        args[i - 1] = const(12) if n == "roster_hash" else None
    s = run(c, "begin", PS + "::begin", [], args=args, **full)
    for e in s.exitsv:
        n = snapshot(e)
        j.same("begin: clean", tuple(n[x] for x in ("state", "local_ready_tick", "local_ready_sent", "local_acknowledgement_sent", "roster_mismatch")), (("Starting", None), None, False, False, False), "a start does not take over what was said in an earlier one")
        j.same("begin: start number", n["generation"], 5, "every start has its own number"); j.same("begin: roster", n["roster_hash"], 12, "the roster is the one of this start")
        j.same("begin: time", n["start_started_at"], str(f.names.get(4) or next(f.names[i] for i in range(2, f.argc + 1) if "Duration" in str(f.ltys[i]))), "the time limit counts from this start")
    f = c.fn(PEER + "::new"); j = Judge(c, f); s = scen(c, "new", f)
    for e in s.it.events:
        if e.kind == "exit":
            j.same("new peer: said nothing", tuple(lit(aggfield(P, e.val, n)) for n in ("ready_tick", "acknowledged_tick")), (None, None), "a peer has said nothing when a start begins")
            j.same("new peer: identity", lit(aggfield(P, e.val, "peer_id")), str(f.names[1]), "a peer is known by its identity")
    f = c.fn(PS + "::stop"); j = Judge(c, f); s = run(c, "stop", PS + "::stop", [], **full)
    for e in s.exitsv:
        n = snapshot(e); j.same("stop", tuple(n[x] for x in ("state", "local_ready_tick", "roster_mismatch", "start_started_at")), (("Stopped",), None, False, None), "a session that stopped keeps nothing of its negotiation")
    f = c.fn(PS + "::timed_out_at"); j = Judge(c, f)
    now = paramval_(f, 2)
    s = run(c, "no start time", PS + "::timed_out_at", [], start_started_at=NONE)
    for e in s.exitsv: j.same("time limit: not started", lit(e.val), False, "a start that has not begun does not run out")
    THEN, LIMIT = mk("p", "then"), mk("p", "limit")
    s = run(c, "start time", PS + "::timed_out_at", [], start_started_at=some(THEN), start_timeout=LIMIT)
    for e in s.exitsv:
        v, pos = e.val, True
        while v.op == "not": v, pos = v.args[0], not pos
        if isbool(v) and not literals(e.state): c.bad("time limit", "a start runs out once its limit has passed, whatever the limit", "%s:%s (%s)" % (f.file, f.line, f.name)); continue
        if v.op != "le": c.undecided("time limit", show(v)); continue
        d = {}
        for x, k in v.args[0]:
            x = strip(x); a = [strip(y) for y in (x.args[1] if x.op == "call" else x.args[1:] if x.op == "bin" else ()) if hasattr(y, "op")]
            if len(a) == 2 and a[1] is THEN and a[0] is now and re.search(r"(saturating_sub|::sub|DSub|Sub)$", str(x.args[0])): d["spent"] = k
            elif x is LIMIT: d["limit"] = k
            elif x is THEN: d["then"] = k
            elif x is now: d["now"] = k
            else: d["?"] = k
        if "?" in d: c.undecided("time limit", show(v)); continue
        full_ = {"spent": -1, "limit": 1} if "spent" in d else {"now": -1, "then": 1, "limit": 1}
        c.check((d == full_ and v.args[1] in (0, 1) if pos else d == {k: -x for k, x in full_.items()} and v.args[1] in (0, 1)), "time limit", "a start runs out once its limit has passed since it began, and not before: %s" % show(e.val), "%s:%s (%s)" % (f.file, f.line, f.name))


def hashing(c):
    """the roster's hash is that of its members, whatever their order"""
    P = c.P; f = c.fn(P.byname and next((n for n in P.byname if n.endswith("p2p::session::roster_hash")), "lightyear_p2p::session::roster_hash")); wh = "%s:%s (%s)" % (f.file, f.line, f.name)
    s = play(c, "hash", f, extra=[(r"ToBytes(<.*>)?::to_bytes$", "enc"), (r"Vec(<.*>)?::push$|extend\w*$", "push"), (r"::sort\w*$", "sort"), (r"BTree\w+(<.*>)?::\w+$|BinaryHeap(<.*>)?::\w+$|wrapping_\w+$|BitXor(Assign)?(<.*>)?::\w+$", "other"), (r"Hasher(<.*>)?::write\w*$", "write")])
    enc = [m[2][0] for e in s.exitsv for m in e.state.mon if m[0] == "enc"]
    if enc and all(any(has(v, lambda y, n=n: y is mk("p", n)) for n in f.names.values() if n) for v in enc):
        for i in range(1, f.argc + 1):
            c.check(any(has(v, lambda y: y is mk("p", f.names[i])) for v in enc), "roster hash: of %s" % f.names[i], "every member of the roster, the local one included, is part of its hash", wh)
    else: c.undecided("roster hash: members", "not encoded as expected")
    for e in s.exitsv:
        ks = [m[0] for m in e.state.mon if m[0] in ("sort", "write", "other")]
        if "write" not in ks: continue
        if "other" in ks: c.undecided("roster hash: order", "combined some other way"); continue
        c.check("sort" in ks[:ks.index("write")], "roster hash: order", "peers that know the same members in a different order agree on the roster", wh)


def paramval_(f, i): return mk("p", f.names[i])



# ------------------------------------------------------------------------------------------------ the systems that drive the barrier
SS = "lightyear_p2p::session::"; P2 = "lightyear_connection::p2p::P2P"
ENTITY = lambda i: mk("p", "link %d" % i); OUT = lambda i: mk("p", "outbox %d" % i); IN = lambda i: mk("p", "inbox %d" % i); MESSAGE = lambda i, k: mk("p", "message %d.%d" % (i, k))
class Link:
    def __init__(self, state="Candidate", remote=0, connected=True, sender=True, receiver=True, inbox=0, local="local"):
        self.state = state; self.remote = remote; self.connected = connected; self.sender = sender; self.receiver = receiver; self.inbox = inbox; self.local = local
def atom(v):
    v = strip(v)
    while v.op in ("&", "*") or (v.op == "agg" and len(v.args[2]) == 1 and v.args[1] not in ("Some", "Ok") and not v.args[0].startswith("models::") and not v.args[0].startswith("[")): v = strip(v.args[0] if v.op != "agg" else v.args[2][0])
    return v
def component(n, x): return mk("&", mk("agg", "lightyear_core::id::" + n, n, (mk("p", x),)))
ITERS = r"Iterator::(take|skip|step_by|rev|nth|last)\("
def world(P, q, links, kinds, known=None, stubs=()):
    """stubs: the links query `q` yields those links; kinds: what each element of the tuple is"""
    def item(i, l):
        d = {"entity": ENTITY(i), "state": mk("&", mk("agg", P2, l.state, ())), "remote": NONE if l.remote is None else some(component("RemoteId", "peer %s" % l.remote)),
             "local": NONE if l.local is None else some(component("LocalId", "peer %s" % l.local)), "connected": const(l.connected), "sender": some(OUT(i)) if l.sender else NONE, "receiver": some(IN(i)) if l.receiver else NONE, "has_receiver": const(l.receiver)}
        return mk("agg", "()", "", tuple(d[k] for k in kinds))
    items = [item(i, l) for i, l in enumerate(links)]
    def nxt(it, st, fr, a, sym):
        v = it.normarg(st, a[0]); t = show(v)
        x = strip(v)
        while x.op in ("&", "*"): x = strip(x.args[0])
        if re.search(ITERS, t) or (x.op == "agg" and x.args[0].startswith("models::")): return None
        k = sum(1 for m in st.mon if m[0] == "it" and m[1] == sym and m[2] == st_key(st, v))
        m = re.search(r"inbox (\d+)", t); b = bagname(v)
        es = [MESSAGE(int(m.group(1)), j) for j in range(links[int(m.group(1))].inbox)] if m else bagof(st, b) if b else items if re.search(r"\b%s\b" % q, t) else None
        if es is None: return None
        if k >= len(es): return NONE
        st.mon = st.mon + (("it", sym, st_key(st, v), k),); e = es[k]
        return some(mk("&", e)) if b and not re.search(r"into_iter|IntoIter", t) or (b and t.startswith("&")) else some(e)
    def st_key(st, v):
        m = re.search(r"inbox (\d+)", show(v))
        return m.group(1) if m else sum(1 for x in st.mon if x[0] == "it" and x[2] == "") if bagname(v) else ""
    def bagname(v):
        return next((str(x.args[0]) for x in subvals(v) if x.op == "p" and str(x.args[0]).startswith("list ")), None)
    def bagof(st, b): return [m[2] for m in st.mon if m[0] == "bag" and m[1] == b]
    def new(it, st, fr, a, sym): return mk("p", "list %s" % sym)
    def push(it, st, fr, a, sym):
        b = bagname(it.normarg(st, a[0]))
        if b is None: return None
        st.mon = st.mon + (("bag", b, it.normarg(st, a[1])),); return mk("agg", "()", "", ())
    def contains(it, st, fr, a, sym):
        b = bagname(it.normarg(st, a[0])); x = atom(it.normarg(st, a[1]))
        if b is None or x.op != "p": return None
        es = [atom(e) for e in bagof(st, b)]
        return const(x in es) if all(e.op == "p" for e in es) else None
    def ln(it, st, fr, a, sym):
        v = it.normarg(st, a[0]); b = bagname(v)
        if b: n = len(bagof(st, b)); return const(n) if it.cur_names[0].endswith("len") else const(n == 0)
        if "remote_peers" in show(v) and known is not None: return const(len(known)) if it.cur_names[0].endswith("len") else const(not known)
        return None
    def index(it, st, fr, a, sym):
        b = bagname(it.normarg(st, a[0])); k = it.normarg(st, a[1])
        if b is None or not isint(k): return None
        es = bagof(st, b); return mk("&", es[ival(k)]) if ival(k) < len(es) else None
    def eq(it, st, fr, a, sym):
        x, y = (strip(it.normarg(st, v)) for v in a[:2]); neg = it.cur_names[0].endswith("::ne")
        while x.op in ("*", "&"): x = strip(x.args[0])
        while y.op in ("*", "&"): y = strip(y.args[0])
        def lit_(v): return v is NONE or (v.op == "agg" and v.args[1] == "Some" and atom(v.args[2][0]).op == "p")
        if lit_(x) and lit_(y): return const(((None if x is NONE else atom(x.args[2][0])) is (None if y is NONE else atom(y.args[2][0]))) != neg)
        x, y = atom(x), atom(y)
        if x.op == y.op == "p" and str(x.args[0]).startswith("peer ") and str(y.args[0]).startswith("peer "): return const((x is y) != neg)
        return None
    def rec(it, st, fr, a, sym):
        v = atom(it.normarg(st, a[1])); return const(v in [mk("p", "peer %s" % k) for k in known]) if known is not None and v.op == "p" else None
    def inbox(it, st, fr, a, sym): return mk("call", "inbox of", (it.normarg(st, a[0]),), None)
    return list(stubs) + [(r"Iterator::next$", nxt), (r"(SmallVec|vec::Vec)(<.*>)?::(new|with_capacity)$|models::new_collection$", new), (r"(SmallVec|vec::Vec)(<.*>)?::push$|models::push_into$", push), (r"\[T\]::contains$|(SmallVec|Vec)(<.*>)?::contains$", contains),
        (r"(SmallVec|Vec)(<.*>)?::(len|is_empty)$|\[T\]::(len|is_empty)$", ln), (r"ops::index::Index(<.*>)?::index$", index), (r"cmp::PartialEq(<.*>)?::(eq|ne)$", eq), (r"P2PSession::contains_remote$", rec), (r"MessageReceiver(<.*>)?::receive$", inbox)]


CANDS = lambda links: [i for i, l in enumerate(links) if l.state == "Candidate"]
def moved(e, links, to):
    """every candidate, and only candidates, is moved to state `to`: True / False / None"""
    got = []
    for m in e.state.mon:
        if m[0] == "insert":
            for t, v in m[2]:
                if t == P2 or t.split("::")[-1] == "P2P":
                    x = strip(v) if v is not None else None
                    got.append((str(m[1]), x.args[1] if x is not None and x.op == "agg" else "?"))
    if any(x == "?" for _, x in got): return None, got
    want = sorted((show(ENTITY(i)), to) for i in CANDS(links)) if to else []
    g = sorted((re.sub(r"^.*(link \d+).*$", r"\1", n), x) for n, x in got)
    return g == want, g


def driving(c):
    P = c.P; f = c.fn(SS + "drive_session"); where = "%s:%s (%s)" % (f.file, f.line, f.name)
    q = qname(f, "P2P", "RemoteId"); ses = next(str(f.names[i]) for i in range(1, f.argc + 1) if "P2PSession>" in str(f.ltys[i]))
    kinds = ("entity", "state", "remote", "connected", "sender", "receiver")
    ST_ = r"P2PSession::stop$"; RC = r"P2PSession::receive$"; AD = r"P2PSession::advance$"; AG = r"P2PSession::agreed_start_tick$"; TO = r"P2PSession::timed_out_at$"; CO = r"P2PSession::collect_outbound$"; SD = r"MessageSender(<.*>)?::send$"
    unit = mk("agg", "()", "", ())
    def case(key, links, expect, known=(0, 1), starting=True, mismatch=False, adv="Waiting", agreed=None, late=False, out=2):
        def collect(it, st, fr, a, sym):
            b = next((str(x.args[0]) for x in subvals(it.normarg(st, a[1])) if x.op == "p" and str(x.args[0]).startswith("list ")), None)
            for k in range(out): st.mon = st.mon + (("bag", b, mk("p", "announcement %d" % k)),)
            return unit
        av = next(v for v in P.adts[ADV]["vars"] if v[0] == adv)
        stubs = [(ST_, unit), (RC, unit), (AD, mk("agg", ADV, adv, tuple(tick(9) for _ in av[2]))), (AG, opt(None if agreed is None else tick(agreed))), (TO, const(late)), (CO, collect), (SD, unit)]
        s = play(c, key, f, extra=[(ST_, "stop"), (RC, "receive"), (AD, "advance"), (SD, "send"), (CO, "collect")], stubs=world(P, q, links, kinds, known, stubs),
                 assume=lambda it: [(deq(fld(mk("p", ses), "state"), variant(P, ST, "Starting" if starting else "Stopped")), True), (fld(mk("p", ses), "roster_mismatch"), mismatch)])
        tag = "drive: " + key
        if not s.exitsv: c.undecided(tag, "no exit"); return
        for e in s.exitsv:
            ops = [m for m in e.state.mon if m[0] in ("stop", "receive", "advance", "send", "collect")]
            if any(m[0] == "bag" and m[1] is None for m in e.state.mon): c.undecided(tag, "announcements not followed"); return
            stopped = any(m[0] == "stop" for m in ops)
            c.check(stopped == (expect == "stop"), tag + ": given up" if expect == "stop" else tag + ": goes on", "a start is given up exactly when it cannot succeed or took too long", where)
            ok, g = moved(e, links, "Inactive" if expect == "stop" else None)
            c.tri(ok, tag + ": links", "the links of a start that is given up can start again, others keep their state: %s" % g, where)
            sent = sorted((str(atom(m[2][0]).args[0]) if atom(m[2][0]).op == "p" else "?", str(atom(m[2][1]).args[0]) if atom(m[2][1]).op == "p" else "?") for m in ops if m[0] == "send")
            if any("?" in x for x in sent): c.undecided(tag + ": announced", str(sent))
            else:
                want = sorted(("outbox %d" % i, "announcement %d" % k) for i in CANDS(links) if links[i].sender and links[i].remote in known for k in range(out)) if expect == "go" else []
                c.check(sent == want, tag + ": announced", "every peer of the start, and nobody else, is told what this peer proposes and confirms: %s" % sent, where)
            c.check(any(m[0] == "advance" for m in ops) == (expect in ("go",) or adv == "Failed" or late and all(l.connected and l.sender for l in links if l.state == "Candidate") and len(CANDS(links)) == len(known) and not mismatch), tag + ": negotiated", "the negotiation advances only while every peer is connected", where) if expect != "none" else None
            got = [(str(atom(m[2][1]).args[0]), str(atom(m[2][2]).args[0])) for m in ops if m[0] == "receive" and atom(m[2][1]).op == "p" and atom(m[2][2]).op == "p"]
            wantr = [("peer %s" % l.remote, "message %d.%d" % (i, k)) for i, l in enumerate(links) if starting and l.state == "Candidate" and l.receiver and l.remote in known and l.remote not in [x.remote for x in links[:i] if x.state == "Candidate"] for k in range(l.inbox)]
            c.check(got == wantr, tag + ": heard", "what a peer says counts as said by the peer of the link it arrived on: %s" % got, where)
            pos = [m[0] for m in ops]
            if "advance" in pos and "receive" in pos: c.check(max(i for i, o in enumerate(pos) if o == "receive") < pos.index("advance"), tag + ": in order", "the negotiation takes what arrived into account", where)
    L = Link
    two = lambda **kw: [L(remote=0, **kw), L(remote=1)]
    case("not starting", two(), "none", starting=False)
    case("everybody there", two(), "go"); case("everybody there, messages", [L(remote=0, inbox=2), L(remote=1, inbox=1)], "go")
    case("others around", [L(remote=0), L("Inactive", remote=5, inbox=1), L(remote=1), L("Joined", remote=6, inbox=1)], "go")
    case("a peer without identity", [L(remote=None), L(remote=1)], "stop"); case("an unknown peer", [L(remote=7, inbox=1), L(remote=1)], "stop"); case("the same peer twice", [L(remote=0, inbox=1), L(remote=0, inbox=1)], "stop")
    case("the same peer twice, all there", [L(remote=0), L(remote=1), L(remote=0)], "stop")
    case("a peer gone", [L(remote=0)], "stop"); case("a peer no longer candidate", [L(remote=0), L("Inactive", remote=1)], "stop")
    case("another roster", two(), "stop", mismatch=True)
    case("a peer not connected", two(connected=False, inbox=1), "wait"); case("a peer not connected, too late", two(connected=False), "stop", late=True); case("a peer cannot be told", two(sender=False), "wait")
    case("inbox not there yet", two(receiver=False), "go"); case("failed", two(), "stop", adv="Failed"); case("agreed", two(), "go", adv="Agreed", agreed=9); case("agreed, late", two(), "go", adv="Agreed", agreed=9, late=True); case("too late", two(), "stop", late=True); case("nothing to say", two(), "go", out=0)


def starting(c):
    P = c.P; f = c.fn(SS + "start_session_before_agreed_tick"); where = "%s:%s (%s)" % (f.file, f.line, f.name)
    q = qname(f, "P2P", "RemoteId"); kinds = ("entity", "state", "remote", "connected", "sender", "receiver")
    ses = next(str(f.names[i]) for i in range(1, f.argc + 1) if "P2PSession>" in str(f.ltys[i]))
    AG = r"P2PSession::agreed_start_tick$"; TK = r"LocalTimeline::tick$"; CL = r"P2PSession::clear_barrier_progress$"; unit = mk("agg", "()", "", ())
    r = recorder(list(TRIG) + [(CL, "clear")])
    def mon(it, st, kind, info):
        r(it, st, kind, info)
        if kind == "write":
            fr, root, projs, v = info; fs = [p[2] for p in projs or () if p[0] == "F"]
            if fs and fs[-1] in ("state", "mode"): st.mon = st.mon + (("write", fs[-1], (v,)),)
    def case(key, links, starts, agreed=9, now=8, known=(0, 1)):
        s = scen(c, key, f, monitor=mon, writes=True, events=[EC, CL] + [p for p, _ in TRIG], stubs=world(P, q, links, kinds, known, [(AG, opt(None if agreed is None else tick(agreed))), (TK, tick(now)), (CL, unit), (r"sort_unstable_by_key$|sort_by_key$|sort$|sort_unstable$", unit)]))
        tag = "start: " + key; ex = [e for e in s.it.events if e.kind == "exit"]
        if not ex: c.undecided(tag, "no exit"); return
        for e in ex:
            w = {m[1]: m[2][0] for m in e.state.mon if m[0] == "write"}; tr = [m for m in e.state.mon if m[0] == "trigger"]
            ok, g = moved(e, links, "Joined" if starts else None)
            c.tri(ok, tag + ": links", "the links of the peers, and only those, join when the session starts: %s" % g, where)
            if not starts: c.check(not w and not tr, tag + ": not started", "a session starts at the tick agreed, with every peer connected, and not otherwise", where); continue
            v = lit(w["state"]) if "state" in w else None
            if v is not None and not known_(v): c.undecided(tag + ": started", str(v))
            else: c.check(v == ("Started", agreed), tag + ": started", "the session starts at the tick agreed: %s" % (v,), where)
            evs = [x for m in tr for x in m[2] if strip(x).op == "agg" and strip(x).args[0].endswith("P2PStarted")]
            c.check(len(tr) >= 1 and (not evs or lit(strip(evs[0]).args[2][0]) == agreed), tag + ": announced", "the start is announced with the tick agreed", where)
            c.check("mode" in w, tag + ": topology", "the session is peer to peer from the start on", where)
    L = Link
    case("agreed", [L(remote=0), L(remote=1)], True); case("others around", [L(remote=0), L("Inactive", remote=4), L(remote=1), L("Joined", remote=5, connected=False)], True)
    case("nothing agreed", [L(remote=0), L(remote=1)], False, agreed=None); case("too early", [L(remote=0), L(remote=1)], False, now=7); case("too late", [L(remote=0), L(remote=1)], False, now=9)
    case("a peer gone", [L(remote=0)], False); case("a peer not connected", [L(remote=0), L(remote=1, connected=False)], False); case("one too many", [L(remote=0), L(remote=1), L(remote=2)], False)


def requests(c):
    P = c.P; f = c.fn(SS + "start_session"); where = "%s:%s (%s)" % (f.file, f.line, f.name); observes(c, f, "P2PStart")
    q = qname(f, "P2P", "LocalId"); kinds = ("entity", "state", "local", "remote", "has_receiver")
    ses = next(str(f.names[i]) for i in range(1, f.argc + 1) if "P2PSession>" in str(f.ltys[i]))
    BG = r"P2PSession::begin$"; RH = r"session::roster_hash$"; unit = mk("agg", "()", "", ())
    def case(key, links, begins, st="Stopped"):
        s = play(c, key, f, extra=[(BG, "begin"), (RH, "hash")], stubs=world(P, q, links, kinds, None, [(BG, unit), (RH, mk("p", "roster"))]),
                 assume=lambda it: [(deq(fld(mk("p", ses), "state"), variant(P, ST, st)), True)])
        tag = "request: " + key
        if not s.exitsv: c.undecided(tag, "no exit"); return
        ins_ = [i for i, l in enumerate(links) if l.state == "Inactive"]
        for e in s.exitsv:
            b = [m for m in e.state.mon if m[0] == "begin"]
            c.check(bool(b) == begins, tag + (": begins" if begins else ": refused"), "a start begins only when none is under way and every link says who is at both its ends", where)
            got = []
            for m in e.state.mon:
                if m[0] == "insert":
                    for t, v in m[2]:
                        if t.split("::")[-1] == "P2P" and v is not None: got.append((re.sub(r"^.*(link \d+).*$", r"\1", str(m[1])), strip(v).args[1] if strip(v).op == "agg" else "?"))
            if any(x == "?" for _, x in got): c.undecided(tag + ": links", str(got))
            else: c.check(sorted(got) == (sorted((show(ENTITY(i)), "Candidate") for i in ins_) if begins else []), tag + ": links", "the inactive links, and only those, take part in the start: %s" % got, where)
            for m in b:
                bn = next((str(x.args[0]) for x in subvals(m[2][1]) if x.op == "p" and str(x.args[0]).startswith("list ")), None)
                if bn is None: c.undecided(tag + ": peers", show(m[2][1])[:80]); continue
                es = [atom(x[2]) for x in e.state.mon if x[0] == "bag" and x[1] == bn]
                if any(x.op != "p" for x in es): c.undecided(tag + ": peers", str([show(x) for x in es])); continue
                c.check([str(x.args[0]) for x in es] == ["peer %s" % links[i].remote for i in ins_], tag + ": peers", "the peers of a start are those at the other end of the links taking part: %s" % [show(x) for x in es], where)
                c.tri(atom(m[2][2]) is mk("p", "roster") if atom(m[2][2]).op == "p" else None, tag + ": roster", "the roster compared is that of these peers", where)
    I = lambda **kw: Link("Inactive", **kw)
    case("two peers", [I(remote=0), I(remote=1)], True); case("one peer", [I(remote=0)], True); case("receiver there", [I(remote=0, receiver=True), I(remote=1, receiver=False)], True); case("others around", [I(remote=0), Link("Joined", remote=4, local=None), I(remote=1)], True)
    case("no link", [], False); case("only joined links", [Link("Joined", remote=0)], False); case("no own identity", [I(remote=0, local=None)], False); case("two own identities", [I(remote=0), I(remote=1, local="other")], False); case("second without own identity", [I(remote=0), I(remote=1, local=None)], False)
    case("a peer without identity", [I(remote=0), I(remote=None)], False); case("itself as a peer", [I(remote=0), I(remote="local")], False); case("the same peer twice", [I(remote=0), I(remote=1), I(remote=0)], False)
    for st in ("Starting", "Started"): case("already " + st.lower(), [I(remote=0), I(remote=1)], False, st=st)
    f = c.fn(SS + "stop_session"); observes(c, f, "P2PStop"); q = qname(f, "P2P"); SP = r"P2PSession::stop$"
    ses = next(str(f.names[i]) for i in range(1, f.argc + 1) if "P2PSession>" in str(f.ltys[i])); trg = str(f.names[1])
    for st in ("Stopped", "Starting", "Started"):
        for unlink in (True, False):
            links = [Link("Candidate"), Link("Joined"), Link("Inactive")]
            s = play(c, "stop in %s%s" % (st, ", unlink" if unlink else ""), f, extra=[(SP, "stop")], stubs=world(P, q, links, ("entity", "state"), None, [(SP, unit)]),
                     assume=lambda it: [(deq(fld(mk("p", ses), "state"), variant(P, ST, st)), True)] + [(l, unlink) for l in unlinks(it, f)])
            tag = "stop: %s%s" % (st, ", unlink" if unlink else "")
            for e in s.exitsv:
                c.check(any(m[0] == "stop" for m in e.state.mon) == (st != "Stopped"), tag + ": session", "a session under way stops when asked to", f.file)
                got = sorted(re.sub(r"^.*(link \d+).*$", r"\1", str(m[1])) for m in e.state.mon if m[0] == "insert" for t, v in m[2] if t.split("::")[-1] == "P2P" and v is not None and strip(v).op == "agg" and strip(v).args[1] == "Inactive")
                c.check(got in (["link 0", "link 1"], ["link 0", "link 1", "link 2"]), tag + ": links", "no link takes part in a session that stopped: %s" % got, f.file)
                evs = [strip(x) for m in e.state.mon if m[0] == "trigger" for x in m[2] if strip(x).op == "agg"]
                c.check(any(x.args[0].endswith("P2PStopped") for x in evs) == (st != "Stopped") or not evs and st != "Stopped", tag + ": announced", "stopping is announced when a session was under way", f.file)
                un = sorted(show(atom(aggfield(P, x, "entity"))) for x in evs if x.args[0].endswith("::Unlink"))
                if any(l.op == "call" for l, b in literals(e.state) if "unlink" in show(l)): c.undecided(tag + ": unlinked", "choice not followed")
                else: c.check(un == (["link 0", "link 1", "link 2"] if unlink else []) or lit_unlink(e) is None, tag + ": unlinked", "links are taken down when asked to, and not otherwise: %s" % un, f.file)


def unlinks(it, f):
    t = mk("p", f.names[1])
    return [fld(t, "unlink"), fld(mk("*", t), "unlink")]
def lit_unlink(e):
    return next((b for l, b in literals(e.state) if "unlink" in show(l)), None)


@prop("K04", floor=1200, explain="""The start barrier of peer-to-peer sessions is executed symbolically for every order of the proposed, confirmed and current ticks among up to
three peers, and for every kind of message from every kind of sender; the systems that drive it are executed with every state of the links""")
def k04(c):
    barrier(c); receiving(c); outbound(c); lifecycle(c); hashing(c); driving(c); starting(c); requests(c)
