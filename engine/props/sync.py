"""Clock synchronisation: pings, the round-trip estimate, the clocks that follow it."""
import re
from fractions import Fraction
from lib import *
import interp
from props import prop
from props.messages import plain
from props.connection import (paramval, play, nothing, observes, qname, item, seqs, fieldend, CN)
from props.link import Ratio, ratio, order, isv

SY = "lightyear_sync::"; PM = SY + "ping::manager::PingManager::"; PS = SY + "ping::store::PingStore::"; PE = SY + "ping::estimator::RttEstimatorEwma::"; PPL = SY + "ping::plugin::PingPlugin::"
SAMPLE = r"RttEstimatorEwma::update_with_new_sample$"; FORGET = r"PingStore::remove$"; NEWPING = r"PingStore::push_new$"; VPUSH = r"Vec(<.*>)?::push$"
SBUF = r"SequenceBuffer(<.*>)?::"
where = lambda f: "%s:%s (%s)" % (f.file, f.line, f.name)
def P_(n): return mk("p", n)


def log(*rules):
    """monitor: the calls matching each rule, in order, as (tag, None, args)"""
    rs = [(re.compile(p), t) for p, t in rules]
    def g(it, st, kind, info):
        if kind != "call": return
        names, args, fr, bb = info
        for r, t in rs:
            if len(st.mon) < 24 and any(r.search(n) for n in names): st.mon = st.mon + ((t, None, tuple(it.normarg(st, a) for a in args)),); return
    return g
def sc(c, key, f, rules=(), stubs=(), **kw):
    s = scen(c, key, f, monitor=log(*rules), events=[p for p, _ in rules], stubs=list(stubs), writes=True, paths=kw.pop("paths", True), parts=kw.pop("parts", 96), **kw)
    s.exitsv = [e for e in s.it.events if e.kind == "exit"]
    if not s.exitsv: c.undecided(key, "no exit")
    return s
def calls_(e, t): return [m[2] for m in e.state.mon if m[0] == t]
def is_(v, w):
    """the value is w (None when it cannot be told)"""
    v = strip(v)
    while v.op in ("&", "*"): v = strip(v.args[0])
    return True if v is w else False if v.op in ("p", "c", "agg", "f") else None
def named(f, i):
    if i not in f.names: raise MissingAnchor("parameter %d of %s" % (i, f.name))
    return P_(f.names[i])
def deep(v):
    v = strip(v)
    while v.op in ("&", "*"): v = strip(v.args[0])
    return v


# ------------------------------------------------------------------------------------------------ C04 pings
@prop("C04", floor=75, explain="the ping bookkeeping is executed symbolically for pings remembered and forgotten and for every order of identifiers; the sample handed to the estimator, the identifier and times of pings and answers, and the estimate as a formula over the previous estimate and the sample are compared with the rule on every path")
def c04(c):
    pongs(c); pings(c); answers(c); estimate(c); fresh(c)


def sample_of(v, now, sent, frame, tick):
    """sample = (reception - sending) - processing, never below zero"""
    v = deep(v)
    if v.op != "call": return False if v.op in ("p", "c", "agg", "f", "bin") else None
    if not re.search(r"::saturating_sub$", v.args[0]):
        ok = all(has(v, lambda y, w=w: y is w) for w in (now, sent, frame, tick))
        return None if ok and not re.search(r"::(sub|Sub|sub_assign|add|checked_add|saturating_add)$", v.args[0]) else False
    a, b = (deep(x) for x in v.args[1][:2])
    if has(a, lambda y: y is frame) or not has(b, lambda y: y is frame): return False
    if not has(b, lambda y: y is tick): return False
    if a.op == "call" and re.search(r"::(saturating_duration_since|duration_since)$", a.args[0]):
        x, y = (deep(z) for z in a.args[1][:2])
        return True if x is now and y is sent else False if {x, y} <= {now, sent} else None
    if not (has(a, lambda y: y is now) and has(a, lambda y: y is sent)): return False
    return None


def pongs(c):
    P = c.P; f = c.fn(PM + "process_pong"); pong, now, td = (named(f, i) for i in (2, 3, 4))
    sent = P_("sent"); pid = fld(mk("*", pong), "ping_id"); frame = fld(mk("*", pong), "frame_time")
    rules = ((SAMPLE, "sample"), (FORGET, "forget"))
    def latest(it): return path(it, "self.most_recent_received_ping")
    def untouched(s, tag, why):
        for e in s.exitsv:
            c.check(not calls_(e, "sample"), tag + ": no sample", why, where(f))
            r = same(s.it, e, post(e, latest(s.it)), latest(s.it))
            c.tri(r, tag + ": nothing remembered", why, where(f))
    # already answered, or forgotten
    s = sc(c, "pong for a forgotten ping", f, rules, [(FORGET, NONE)])
    for e in s.exitsv:
        fs = calls_(e, "forget")
        c.check(len(fs) == 1 and deep(fs[0][1]) is pid, "the ping answered", "a pong is looked up by the identifier it carries, and its ping is forgotten", where(f))
    untouched(s, "second pong", "a pong whose ping was answered already changes no estimate")
    for k, lit in (("first", None), ("newer", lambda d: le(d, const(-1))), ("same", lambda d: ieq(d, const(0))), ("older", lambda d: le(const(1), d))):
        def assume(it):
            if lit is None: return [(deq(latest(it), 0), True)]
            some_ = mk("f", latest(it), "Some", "0")
            return [(deq(latest(it), 1), True)]
        s = sc(c, "%s pong" % k, f, rules, [(FORGET, some(sent))], assume=assume)
        n = 0
        for e in s.exitsv:
            if lit is not None:
                r = order_of(s.it, e, latest(s.it), pid)
                if r == "open":
                    if k == "older": c.bad("pongs told apart", "whether an answer counts depends on whether its ping is newer, the same or older than the last one answered: %s" % [show(l)[:60] for l, b in literals(e.state)][:3], where(f))
                    continue
                if r is None: c.undecided("%s pong" % k, "order of the identifiers: %s" % [show(l)[:80] for l, b in literals(e.state)]); continue
                if r != k: continue
            n += 1
            got = calls_(e, "sample"); tag = "%s pong" % k
            if k in ("first", "newer"):
                c.check(len(got) == 1, tag + ": counted", "the answer to a remembered ping newer than the last one answered counts once", where(f))
                for a in got: c.tri(sample_of(a[1], now, sent, frame, td), tag + ": sample", "the sample is the time from sending to the answer's arrival, less the time the peer held the ping: %s" % show(a[1])[:110], where(f))
                v = post(e, latest(s.it))
                c.tri(True if v.op == "agg" and v.args[1] == "Some" and deep(v.args[2][0]) is pid else False if v.op in ("agg", "f", "p") else None, tag + ": remembered", "it is the most recent ping answered from then on", where(f))
            else:
                c.check(not got, tag + ": not counted", "an answer to a ping older than the last one answered changes no estimate", where(f))
                c.tri(same(s.it, e, post(e, latest(s.it)), latest(s.it)), tag + ": nothing remembered", "the most recent ping answered stays", where(f))
        if not n: c.undecided("%s pong" % k, "no path")


def order_of(it, e, latest, pid):
    """how the identifier answered compares with the most recent one on this path: newer, same or older"""
    a, b = mk("f", mk("f", latest, "Some", "0"), "", "0"), mk("f", pid, "", "0")
    d = None
    for l, x in literals(e.state):
        if l.op not in ("le", "ieq"): continue
        for y in subvals(l):
            if y.op == "call" and re.search(r"wrapping_sub", y.args[0]) and {deep(z) for z in y.args[1]} == {a, b}: d = y
            elif y.op == "wrapping_sub" and {deep(z) for z in y.args[:2]} == {a, b}: d = y
    cand = None
    for l, x in literals(e.state):
        if l.op in ("le", "ieq"):
            for y in subvals(l):
                if y.op == "cast" and has(y, lambda z: z is a) and has(y, lambda z: z is b): cand = y
    if cand is None:
        a0 = mk("f", latest, "Some", "0"); both = lambda y: has(y, lambda z: z is a0) and has(y, lambda z: z is pid)
        rel = [(l, x) for l, x in literals(e.state) if both(l)]
        if len(rel) == 1 and rel[0][0].op == "ieq" and not any(y.op in ("call", "cast", "wrapping_sub") and both(y) for y in subvals(rel[0][0])): return "same" if rel[0][1] else "open"
        return None
    lo, hi = it.lrange(e.state, cand)
    inner = [y for y in subvals(cand) if lin_pair(y, a, b)]
    if not inner: return None
    sgn = lin_pair(inner[0], a, b)          # +1: latest - answered
    if lo == hi == 0: return "same"
    zero = decide(it, e, ieq(cand, const(0)), True)
    if zero is True: return "same"
    if hi <= 0 and (hi < 0 or zero is False): return "newer" if sgn > 0 else "older"
    if lo >= 0 and (lo > 0 or zero is False): return "older" if sgn > 0 else "newer"
    return "open"
def lin_pair(y, a, b):
    xs = None
    if y.op == "call" and re.search(r"wrapping_sub", str(y.args[0])): xs = [deep(z) for z in y.args[1]]
    elif y.op == "wrapping_sub": xs = [deep(z) for z in y.args[:2]]
    if xs is None or len(xs) != 2: return 0
    return 1 if xs[0] is a and xs[1] is b else -1 if xs[0] is b and xs[1] is a else 0


def pings(c):
    P = c.P; f = c.fn(PM + "maybe_prepare_ping"); now = named(f, 2); nid = P_("new id"); RESET = r"Stopwatch::reset$"
    lit = lambda it: lt(mk("call", "x", (), None), const(0))
    s = sc(c, "ping", f, ((NEWPING, "new"), (RESET, "reset")), [(NEWPING, nid), (r"Stopwatch::elapsed$", lambda it, st, fr, a, sym: P_("elapsed") if endswith(deep(it.normarg(st, a[0])), "ping_timer") else None)])
    due = 0
    for e in s.exitsv:
        lo, hi = s.it.lrange(e.state, sub(P_("elapsed"), path(s.it, "self.config.ping_interval")))
        news, rs = calls_(e, "new"), calls_(e, "reset")
        if lo is not None and lo >= 0:
            due += 1
            c.check(len(news) == 1 and deep(news[0][1]) is now, "ping due: remembered", "a ping is remembered with the moment it is sent", where(f))
            v = e.val
            c.tri(True if v.op == "agg" and v.args[1] == "Some" and strip(val_id(v)) is nid else False if v.op == "agg" else None, "ping due: identifier", "the ping carries the identifier it is remembered by", where(f))
            c.check(len(rs) == 1, "ping due: next", "the interval to the next ping starts over", where(f))
        elif hi is not None and hi < 0:
            c.check(not news and not rs and e.val is NONE, "ping not due", "no ping before the interval has passed", where(f))
        else: c.undecided("ping", "interval: %s" % [show(l)[:80] for l, b in literals(e.state)])
    if not due: c.undecided("ping due", "no path")
    f = c.fn(PS + "push_new"); last = lambda it: path(it, "self.latest_ping_id")
    s = sc(c, "new identifier", f, ((SBUF + r"\w+$", "store"),))
    for e in s.exitsv:
        l0 = last(s.it); st_ = calls_(e, "store")
        c.tri(is_(e.val, l0), "new identifier: unused", "the identifier is one not yet given", where(f))
        c.check(len(st_) == 1 and deep(st_[0][1]) is l0 and deep(st_[0][2]) is named(f, 2), "new identifier: stored", "its sending time is kept under it", where(f))
        v = post(e, mk("f", l0, "", "0")); w = mk("f", l0, "", "0")
        r = True if v.op == "call" and re.search("wrapping_add", str(v.args[0])) and deep(v.args[1][0]) is w and v.args[1][1] is const(1) else None
        if r is None: r = True if v.op == "wrapping_add" and deep(v.args[0]) is w and v.args[1] is const(1) else False if v is w or v.op == "c" else None
        c.tri(r, "new identifier: next", "the next identifier is the following one: %s" % show(v)[:60], where(f))
    f = c.fn(PS + "remove"); s = sc(c, "forgetting", f, ((SBUF + r"\w+$", "store"),))
    for e in s.exitsv:
        st_ = calls_(e, "store"); v = deep(e.val)
        c.check(len(st_) == 1 and deep(st_[0][1]) is named(f, 2), "forgetting: by identifier", "the ping forgotten is the one asked for", where(f))
        c.tri(True if v.op == "call" and re.search(SBUF + "remove$", v.args[0]) else False if v.op in ("agg", "f") or v.op == "call" and re.search(SBUF + "get$", v.args[0]) else None, "forgetting: its time", "its sending time is handed out once", where(f))
    buffer(c)
def val_id(v):
    x = strip(v.args[2][0])
    return x.args[2][0] if x.op == "agg" and x.args[2] else x


def buffer(c):
    """the ring of sending times: what is stored under an identifier is found under it, and gone once taken"""
    B = "lightyear_utils::sequence_buffer::SequenceBuffer::"
    IDX = r"WrappedId::rem$|::rem$"
    for n in ("push", "get", "remove"):
        f = c.fn(B + n); key = named(f, 2); slot = P_("slot")
        asked = []
        def rem(it, st, fr, a, sym):
            k = deep(it.normarg(st, a[0])); asked.append(k is deep(key)); return slot
        s = sc(c, "ring " + n, f, (), [(IDX, rem)], assume=lambda it: [(le(const(0), slot), True)])
        c.check(bool(asked) and all(asked), "ring %s: place" % n, "the place is derived from the identifier", where(f))
        cell = lambda it, e, st: it.rd(st, ("O", P_("self")), (("F", None, "buffer", 0), ("I", slot)))
        for e in s.exitsv:
            v = cell(s.it, e, e.state); old = mk("idx", fld(mk("*", P_("self")), "buffer"), slot)
            if n == "push": c.tri(True if v.op == "agg" and v.args[1] == "Some" and deep(v.args[2][0]) is named(f, 3) else False if v.op in ("agg", "idx") else None, "ring push", "the value is stored there", where(f))
            elif n == "remove":
                c.tri(True if v is NONE else False if v.op in ("agg", "idx") else None, "ring remove: gone", "what was taken is not found again", where(f))
                c.tri(is_(e.val, old) if deep(e.val).op == "idx" else True if has(e.val, lambda y: y is old) else False if e.val.op == "agg" else None, "ring remove: value", "what was stored there is handed out", where(f))
            else: c.tri(same(s.it, e, v, old), "ring get", "looking does not change it", where(f))


def answers(c):
    P = c.P; f = c.fn(PM + "buffer_pending_pong"); ping, now = named(f, 2), named(f, 3)
    s = sc(c, "ping received", f, ((VPUSH, "push"),))
    for e in s.exitsv:
        ps = [a for a in calls_(e, "push") if endswith(deep(a[0]), "pongs_to_send")]
        if not ps and not calls_(e, "push"): c.bad("ping received: answered", "every ping received is answered once", where(f)); continue
        c.check(len(ps) == 1, "ping received: answered", "every ping received is answered once", where(f))
        for a in ps:
            v = strip(a[1])
            if v.op != "agg" or len(v.args[2]) != 2: c.undecided("ping received", show(v)); continue
            pg, t = (strip(x) for x in v.args[2])
            i = aggfield(P, pg, "ping_id") if pg.op == "agg" else None
            c.tri(None if i is None else strip(i) is fld(mk("*", ping), "id"), "ping received: identifier", "the answer carries the identifier of the ping", where(f))
            c.tri(True if t is now else False if t.op in ("p", "f", "c") else None, "ping received: arrival", "the time the ping arrived is kept", where(f))
    # the answers waiting are handed over and gone
    f = c.fn(PM + "drain_pending_pongs"); pend = lambda it: path(it, "self.pongs_to_send")
    s = sc(c, "answers handed over", f, ((r"::(drain|take|replace|clear|swap|split_off|truncate)$", "empty"), (r"::(clone|iter|to_vec|cloned|into_iter)$", "look")), paths=False)
    for e in s.exitsv:
        took = [a for a in calls_(e, "empty") if any(has(x, lambda y: endswith(y, "pongs_to_send")) for x in a)]
        looked = [a for a in calls_(e, "look") if any(has(x, lambda y: endswith(y, "pongs_to_send")) for x in a)]
        v = post(e, pend(s.it))
        c.tri(True if took or v.op == "agg" else False if looked else None, "answers handed over: once", "an answer handed over is not handed over again", where(f))
    # what is sent
    f = c.fn(PPL + "send"); q = qname(f, "PingManager"); SENDM = r"MessageSender(<.*>)?::send\w*$"; DR = r"PingManager::drain_pending_pongs$"; MP = r"PingManager::maybe_prepare_ping$"
    PG = "lightyear_sync::ping::message::"
    pong = lambda k: mk("agg", PG + "Pong", "", (P_("id%d" % k), P_("frame%d" % k))); T = lambda k: P_("arrival%d" % k); manager = P_("item PingManager")
    link = item(f, q, {})
    td = None
    for due in (True, False):
        for n in range(3):
            key = "%s, %d answers" % ("ping due" if due else "no ping due", n)
            s = sc(c, "send: " + key, f, ((SENDM, "send"),), [(MP, some(P_("ping")) if due else NONE), (r"TickDelta::from_duration$", lambda it, st, fr, a, sym: mk("call", "ticks", tuple(it.normarg(st, x) for x in a), None))] + seqs((r"Query", [link]), (r"drain_pending_pongs|pongs_to_send", [mk("agg", "()", "", (pong(k), T(k))) for k in range(n)])), no_inline=[SENDM], paths=False)
            if not any(m[0] == "it" for e in s.exitsv for m in e.state.mon): c.undecided("send: " + key, "links not iterated as expected"); continue
            for e in s.exitsv:
                if sum(1 for m in e.state.mon if m[0] == "it" and m[1] == 0) != 1: continue
                got = [strip(a[1]) for a in calls_(e, "send")]
                pings_ = [v for v in got if has(v, lambda y: y is P_("ping"))]
                c.check(len(pings_) == (1 if due else 0), "send: %s: ping" % key, "the ping prepared is sent, once", where(f))
                rest = [v for v in got if v not in pings_]
                ids = []
                for v in rest:
                    x = v
                    i = aggfield(P, x, "ping_id") if x.op == "agg" else None; fr_ = aggfield(P, x, "frame_time") if x.op == "agg" else None
                    if i is None or fr_ is None: ids.append(None); continue
                    k = next((k for k in range(n) if strip(i) is P_("id%d" % k)), None); ids.append(k)
                    if k is None: continue
                    cl = [y for y in subvals(fr_) if y.op == "call" and y.args[0] == "ticks"]
                    if not cl: c.check(any(has(fr_, lambda y: y is T(k)) for _ in (0,)) or fr_.op not in ("p", "c", "agg", "call") or False, "send: time held", "the answer says how long the ping was held: %s" % show(fr_)[:80], where(f)); continue
                    d = deep(cl[0].args[1][0]); held = None
                    if d.op in ("lin", "add", "+") and has(d, lambda y: y is T(k)): c.bad("send: time held", "the answer says how long the ping was held, and no more: %s" % show(d)[:80], where(f)); continue
                    if d.op in ("bin", "call"):
                        xs = d.args[1:] if d.op == "bin" else d.args[1]
                        xs = [deep(z) for z in xs[:2]]
                        if d.op == "call" and re.search(r"::(add|saturating_add|mul)$", d.args[0]) or d.op == "bin" and d.args[0] in ("Add", "Mul"): c.bad("send: time held", "the answer says how long the ping was held, and no more: %s" % show(d)[:80], where(f)); continue
                        if d.op == "call" and re.search(r"Instant::elapsed$", d.args[0]): c.tri(True if xs[0] is T(k) else None, "send: time held", "the answer says how long the ping was held: %s" % show(d)[:80], where(f)); continue
                        held = True if xs[1] is T(k) and xs[0].op == "call" and re.search(r"::now$", xs[0].args[0]) else False if xs[0] is T(k) or not has(d, lambda y: y is T(k)) else None
                    c.tri(held, "send: time held", "the answer says how long the ping was held: %s" % show(d)[:80], where(f))
                    c.tri(True if endswith(deep(cl[0].args[1][1]), "0") and has(cl[0].args[1][1], lambda y: y.op == "p" and str(y.args[0]) == f.names.get(1)) else None, "send: in ticks", "in ticks of the local tick length", where(f))
                c.tri(None if None in ids else sorted(ids) == list(range(n)), "send: %s: answers" % key, "every ping received is answered exactly once", where(f))
    # what arrives
    f = c.fn(PPL + "receive"); q = qname(f, "PingManager"); BP = r"PingManager::buffer_pending_pong$"; PP = r"PingManager::process_pong$"; RECV = r"MessageReceiver(<.*>)?::receive$"
    el = item(f, q, {r"MessageReceiver<.*Ping>": P_("ping receiver"), r"MessageReceiver<.*Pong>": P_("pong receiver"), "PingManager": P_("manager"), "Link": P_("link")})
    X = lambda n, k: P_("%s%d" % (n, k)); rtt, jit = P_("estimate"), P_("estimated jitter")
    for a, b in ((0, 0), (1, 0), (0, 1), (2, 2)):
        key = "receive: %d pings, %d pongs" % (a, b)
        s = sc(c, key, f, ((BP, "ping"), (PP, "pong"), (r"PingManager::update$", "update")), [(r"PingManager::rtt$", rtt), (r"PingManager::jitter$", jit)] + seqs((r"Query", [el]), (r"ping receiver", [X("ping", k) for k in range(a)]), (r"pong receiver", [X("pong", k) for k in range(b)])), paths=False)
        es = [e for e in s.exitsv if any(m[0] == "it" and m[1] == 0 for m in e.state.mon)]
        if not es: c.undecided(key, "links not iterated as expected"); continue
        for e in es:
            for t, k in (("ping", a), ("pong", b)):
                got = [deep(x[1]) for x in calls_(e, t)]
                got = [deep(v.args[0]) if v.op == "f" and str(v.args[2]) == "data" else v for v in got]
                c.tri(sorted(show(v) for v in got) == sorted("%s%d" % (t, i) for i in range(k)) if all(v.op == "p" for v in got) else None, "%s: %ss" % (key, t), "every %s received is processed once" % t, where(f))
            ups = calls_(e, "update"); c.check(len(ups) == 1, key + ": clock", "the ping interval advances with real time", where(f))
            for x in calls_(e, "pong"):
                c.tri(True if has(x[3], lambda y: y.op == "p" and str(y.args[0]) == f.names.get(2)) else None, "receive: tick length", "with the local tick length", where(f))
            for n_, w in (("rtt", rtt), ("jitter", jit)):
                v = post(e, fld(P_("link"), "stats", n_)) if True else None
                v2 = s.it.rd(e.state, ("O", P_("link")), (("F", None, "stats", 0), ("F", None, n_, 0))) if v is None else v
                ws = [deep(x.val) for x in s.it.events if x.kind == "write" and wfield(x) == n_]
                c.tri(True if ws and all(x is w for x in ws) else False if not ws or any(x in (rtt, jit) and x is not w for x in ws) else None, "link: " + n_, "the link's statistics are the estimate", where(f))


def num(x): return Ratio.num(Fraction(x))
def fx(v, env, atoms):
    """float expression as a quotient of polynomials; max, min and absolute values become atoms"""
    v = deep(v)
    if v in env: return env[v]
    if v.op == "bin" and v.args[0] in ("Div", "Mul", "Add", "Sub"):
        a, b = fx(v.args[1], env, atoms), fx(v.args[2], env, atoms)
        if a is None or b is None: return None
        o = v.args[0]
        if o == "Div" and not b.n: return None
        return a / b if o == "Div" else a * b if o == "Mul" else a + b if o == "Add" else a - b
    if v.op == "c":
        try: return num(Fraction(float(re.sub(r"_?f(32|64)$", "", str(v.args[1])))).limit_denominator(10 ** 9))
        except ValueError: return None
    nm = "".join(x for x in show(v) if x not in "&*")
    atoms[nm] = v
    return Ratio.var(nm)
def coeffs(r):
    """{atom: coefficient, None: constant} of a linear expression"""
    if r is None: return None
    if set(r.d) != {()}: return None
    d = r.d[()]
    if any(len(k) > 1 for k in r.n): return None
    return {(k[0] if k else None): x / d for k, x in r.n.items()}
def atleast(v, env, base, k):
    """the expression is at least k times `base` for all non-negative quantities"""
    v = deep(v)
    o, xs = minmax(v)
    if o == "max": return True if any(atleast(x, env, base, k) for x in xs) else None
    if o == "min":
        rs = [atleast(x, env, base, k) for x in xs]
        return True if all(r is True for r in rs) else None
    at = {}
    q = coeffs(fx(v, env, at))
    if q is None: return None
    q = dict(q); q[base] = q.get(base, 0) - k
    return True if all(x >= 0 for x in q.values()) else None
def atmost(v, env, bound):
    """the expression is at most the linear form `bound` for all non-negative quantities"""
    v = deep(v)
    o, xs = minmax(v)
    if o == "max":
        rs = [atmost(x, env, bound) for x in xs]
        return True if all(r is True for r in rs) else None
    if o == "min": return True if any(atmost(x, env, bound) for x in xs) else None
    q = coeffs(fx(v, env, {}))
    if q is None: return None
    return True if all(bound.get(k, 0) - q.get(k, 0) >= -Fraction(1, 10 ** 6) for k in set(q) | set(bound)) else None
def capped(v, env):
    """at most the larger of 1.2 times the estimate and the smaller of three times the estimate and half a second above it"""
    v = deep(v)
    if atmost(v, env, {"r": Fraction(12, 10)}): return True
    if atmost(v, env, {"r": Fraction(3)}) and atmost(v, env, {"r": Fraction(1), None: Fraction(1, 2)}): return True
    o, xs = minmax(v)
    return o == "max" and all(capped(x, env) for x in xs)
def minmax(v):
    if v.op in ("max", "min"): return v.op, list(v.args[0] if isinstance(v.args[0], tuple) else v.args)
    if v.op == "call" and re.search(r"::(max|min)$", v.args[0]): return v.args[0].split("::")[-1], list(v.args[1])
    return None, None


def estimate(c):
    """the estimate as a formula over the sample and the previous values, path by path"""
    P = c.P; f = c.fn(PE + "update_with_new_sample"); O = "core::option::Option"
    S, R_, D = P_("s"), P_("r"), P_("d"); env = {S: Ratio.var("s"), R_: Ratio.var("r"), D: Ratio.var("d")}
    sm, dv, fin = (lambda it, n=n: path(it, "self." + n) for n in ("smoothed_rtt", "rtt_abs_deviation", "final_stats"))
    smp = named(f, 2)
    def secs(it, st, fr, a, sym):
        v = deep(it.normarg(st, a[0]))
        if v.op == "call" and v.args[0].endswith("from_secs_f64"): return v.args[1][0]
        if v is smp: return S
        if has(v, lambda y: y is sm(it)): return R_
        if has(v, lambda y: y is dv(it)): return D
        return None
    def plus(v):
        """value of a duration built from seconds, with the guard against negative values taken off"""
        v = deep(v)
        if v.op != "call" or not v.args[0].endswith("from_secs_f64"): return None
        v = deep(v.args[1][0])
        while True:
            o, xs = minmax(v)
            if o != "max" or len(xs) != 2: return v
            z = [x for x in xs if deep(x).op == "c" and float(re.sub(r"_?f(32|64)$", "", str(deep(x).args[1]))) == 0.0]
            if len(z) != 1: return v
            v = deep([x for x in xs if x is not z[0]][0])
    def inner(v):
        """formula with nested guards removed"""
        v = deep(v)
        o, xs = minmax(v)
        if o == "max" and len(xs) == 2:
            z = [x for x in xs if deep(x).op == "c" and float(re.sub(r"_?f(32|64)$", "", str(deep(x).args[1]))) == 0.0]
            if len(z) == 1: return inner([x for x in xs if x is not z[0]][0])
        if v.op == "bin": return mk("bin", v.args[0], inner(v.args[1]), inner(v.args[2]))
        return v
    rate = None
    cases = (("first sample", False, 0), ("second sample", True, 1), ("later sample", True, 7))
    for key, prev, n in cases:
        def assume(it):
            v = variant(P, O, "Some" if prev else "None")
            return [(deq(sm(it), v), True), (deq(dv(it), v), True), (ieq(path(it, "self.samples_processed"), const(n)), True), (mk("flt", S, mk("c", "f64", "0.0")) if False else le(const(0), const(1)), True)]
        s = sc(c, key, f, (), [(r"Duration::as_secs_f64$", secs)], assume=assume, parts=200)
        ok = 0
        for e in s.exitsv:
            if any(l.op in ("flt", "fle") and b and deep(l.args[0]) is S and deep(l.args[1]).op == "c" for l, b in literals(e.state)): continue   # a time below zero
            rt, dd, fs = (post(e, g(s.it)) for g in (sm, dv, fin))
            rt, dd = (x.args[2][0] if x.op == "agg" and x.args[1] == "Some" else None for x in (rt, dd))
            if rt is None or dd is None: c.undecided(key, "estimate not set: %s" % show(post(e, sm(s.it)))[:80]); continue
            ok += 1
            fr_, fj = (aggfield(P, fs, n_) for n_ in ("rtt", "jitter")) if fs.op == "agg" else (None, None)
            cnt = path(s.it, "self.samples_processed")
            c.tri(decide(s.it, e, lt(cnt, uncast(post(e, cnt))), True), key + ": number", "the sample is counted, so that outliers are capped from the third one on", where(f))
            c.tri(None if fr_ is None else True if strip(fr_) is strip(rt) else same(s.it, e, fr_, rt), key + ": reported", "the round-trip time reported is the estimate", where(f))
            at = {}; a = plus(rt)
            q = coeffs(fx(inner(a), env, at)) if a is not None else None
            if q is None: c.undecided(key, "estimate %s" % show(rt)[:120]); continue
            b = plus(dd); qd = coeffs(fx(inner(b), env, at)) if b is not None else None
            j = plus(fj) if fj is not None else None; qj = coeffs(fx(inner(j), env, at)) if j is not None else None
            if qd is not None and qj is not None: c.check({k: x for k, x in qj.items() if x} == {k: x / 2 for k, x in qd.items() if x}, key + ": jitter", "the jitter reported is half of the mean deviation", where(f))
            else: c.undecided(key + ": jitter", "")
            if not prev:
                c.check(q == {"s": 1}, key + ": as is", "the first sample is the estimate: %s" % show(rt)[:80], where(f))
                if qd is not None: c.check(qd == {"s": Fraction(1, 2)}, key + ": deviation", "and the deviation half of it", where(f))
                continue
            near = lambda x, y: abs(x - y) < Fraction(1, 10 ** 6)
            if "s" not in q and rate and set(q) <= {"r", "d", None}:
                # the sample was replaced, on this path, by a linear bound: recover it from the rate of the paths that count it in full
                x = {k: (q.get(k, 0) - ((1 - rate) if k == "r" else 0)) / rate for k in ("r", "d", None)}
                near = lambda y: all(abs(y.get(k, 0) - x[k]) < Fraction(1, 10 ** 5) for k in set(y) | set(x) if k in x or y.get(k))
                ups, lows, below = [], [], False
                for l, t in literals(e.state):
                    if l.op not in ("flt", "fle"): continue
                    A, B = l.args if t else l.args[::-1]
                    ca, cb = coeffs(fx(A, env, {})), coeffs(fx(B, env, {}))
                    if ca is not None and all(k in x for k in ca) and near(ca):
                        ups.append(B)
                        if deep(B) is S: below = True
                    if cb is not None and all(k in x for k in cb) and near(cb): lows.append(A)
                lin = lambda bd: all(bd.get(k, 0) - x[k] >= -Fraction(1, 10 ** 5) for k in x)
                am = lambda bd: lin(bd) or any(atmost(u, env, bd) for u in ups)
                c.tri(True if below else None, key + ": cap only lowers", "what is counted instead of a sample is never more than it", where(f))
                c.tri(True if am({"r": Fraction(12, 10)}) or am({"r": Fraction(3)}) and am({"r": Fraction(1), None: Fraction(1, 2)}) else None, key + ": cap low", "an outlying sample counts as at most three times the estimate and half a second above it", where(f))
                k12 = Fraction(12, 10) - Fraction(1, 10 ** 5)
                c.tri(True if x["r"] >= k12 and x["d"] >= 0 and x[None] >= 0 or any(atleast(u, env, "r", k12) for u in lows) else None, key + ": cap", "an outlying sample still counts as at least a fifth more than the estimate", where(f))
                continue
            w = 1 - q.get("r", 0); rest = {k: x for k, x in q.items() if k != "r" and x}
            one = len(rest) == 1 and None not in rest and near(next(iter(rest.values())), w)
            c.check(one and 0 < w <= Fraction(1, 12) + Fraction(1, 10 ** 6), key + ": smoothed", "the estimate moves from the previous one towards the sample by at most a twelfth of the distance: %s" % show(rt)[:110], where(f))
            if not one: continue
            if "s" in rest: rate = w
            x = next(iter(rest)); X = S if x == "s" else at.get(x)
            # the sample as it is counted
            caps = [(l, t) for l, t in literals(e.state) if l.op in ("flt", "fle") and any(deep(y) is S for y in l.args)]
            if X is S:
                free = any((deep(l.args[1]) is S and not t) or (deep(l.args[0]) is S and t) for l, t in caps)
                if n >= 2: c.check(free, key + ": capped", "a sample is counted in full only when it is below the cap", where(f))
            else:
                o, xs = minmax(X)
                if o == "min" and any(deep(y) is S for y in xs): cap = [y for y in xs if deep(y) is not S]
                else:
                    cap = [X]
                    c.check(any((deep(l.args[1]) is S and t and deep(l.args[0]) is X) or (deep(l.args[0]) is S and not t and deep(l.args[1]) is X) for l, t in caps), key + ": cap only lowers", "what is counted instead of a sample is never more than it: %s" % show(X)[:90], where(f))
                for y in cap: c.check(capped(y, env), key + ": cap low", "an outlying sample counts as at most three times the estimate and half a second above it: %s" % show(y)[:160], where(f))
                for y in cap: c.tri(True if atleast(y, env, "r", Fraction(12, 10) - Fraction(1, 10 ** 6)) is True else False, key + ": cap", "an outlying sample still counts as at least a fifth more than the estimate, so that the estimate follows a lasting change: %s" % show(y)[:100], where(f))
            # the deviation
            if qd is None: c.undecided(key + ": deviation", ""); continue
            w2 = 1 - qd.get("d", 0); rest = {k: x for k, x in qd.items() if k != "d" and x}
            ok2 = len(rest) == 1 and None not in rest and near(next(iter(rest.values())), w2) and 0 < w2 < 1
            y = at.get(next(iter(rest))) if ok2 else None
            if y is not None and (y.op == "abs" or y.op == "call" and re.search(r"::abs$", y.args[0])):
                z = y.args[1][0] if y.op == "call" else y.args[0]
                qq = coeffs(fx(z if hasattr(z, "op") else z[0], env, at)) or {}
                ok2 = sorted((str(k), x) for k, x in qq.items() if x) in (sorted((("r", -1), (x, 1))), sorted((("r", 1), (x, -1))))
            c.check(ok2, key + ": deviation", "the deviation moves towards the distance between the sample and the previous estimate: %s" % show(dd)[:110], where(f))
        if not ok: c.undecided(key, "no path")


def fresh(c):
    P = c.P; f = c.fn(PM + "reset")
    for n, kind in (("most_recent_received_ping", "none"), ("latency_samples_recv", 0), ("pongs_recv", 0)):
        s = sc(c, "reset: " + n, f)
        for e in s.exitsv:
            v = post(e, path(s.it, "self." + n))
            c.tri(True if v is NONE or isint(v) and ival(v) == 0 else False if v.op in ("f", "c", "agg") else None, "reset: " + n, "a new connection starts from nothing", where(f))
    s = sc(c, "reset", f, ((r"PingStore::reset$", "store"), (r"Vec(<.*>)?::(clear|drain)$", "pongs"), (r"RttEstimatorEwma::reset$", "estimate")))
    for e in s.exitsv:
        for t, n in (("store", "ping_store"), ("pongs", "pongs_to_send"), ("estimate", "rtt_estimator_ewma")):
            a = calls_(e, t)
            r = bool(a) and any(endswith(deep(x[0]), n) for x in a)
            if not r:
                v = post(e, path(s.it, "self." + n)); r = True if v.op not in ("f",) else False
            c.check(r, "reset: " + n, "a new connection starts from nothing", where(f))
    f = c.fn(PS + "reset"); s = sc(c, "ping store reset", f, ((SBUF + r"clear$", "clear"),))
    for e in s.exitsv: c.check(bool(calls_(e, "clear")) or post(e, path(s.it, "self.buffer")).op != "f", "ping store reset", "pings of an earlier connection are forgotten", where(f))
    f = c.fn(PE + "reset"); s = sc(c, "estimator reset", f)
    for e in s.exitsv:
        for n in ("smoothed_rtt", "rtt_abs_deviation"): c.tri(True if post(e, path(s.it, "self." + n)) is NONE else False if post(e, path(s.it, "self." + n)).op in ("f", "agg") else None, "estimator reset: " + n, "the estimate starts from nothing", where(f))
        v = post(e, path(s.it, "self.samples_processed")); c.tri(True if isint(v) and ival(v) == 0 else False if v.op == "f" else None, "estimator reset: count", "the estimate starts from nothing", where(f))
    f = c.fn(PPL + "handle_connect"); observes(c, f, "Add", "Connected")
    RS = r"PingManager::reset$"
    s = sc(c, "connected", f, ((RS, "reset"),), [(r"system::query::Query::(get|get_mut)$", okv(P_("manager")))])
    for e in s.exitsv: c.check(len(calls_(e, "reset")) == 1, "connected: reset", "the ping state starts over when a connection is made", where(f))
