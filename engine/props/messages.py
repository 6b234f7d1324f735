"""messages and events: dispatch to receivers, timeline buffering, sending, disconnection."""
from lib import *
import interp, os
from props import prop
from props.transport import I

MS = "lightyear_messages::"
PL = MS + "plugin::MessagePlugin::"
RC = MS + "receive::MessageReceiver::"
TB = MS + "receive::TimelineMessageBuffer::"
PE = MS + "receive_event::PendingTimelineEvents::"
SN = MS + "send::MessageSender::send_message_typed"
SLN = MS + "send::MessageSender::send_local_message_typed"
ET = MS + "send_trigger::EventSender::send_event_typed"
SLT = MS + "send_trigger::EventSender::send_local_trigger_typed"
RB = "lightyear_utils::ready_buffer::ReadyBuffer::"
GET = r"HashMap::get$"

def origin(v, pat):
    """the results of calls matching pat that the value is (part of): the innermost call at the root of its projections"""
    v = strip(v) if v.op == "&" else v
    while v.op in ("f", "&", "with", "*") or (v.op == "agg" and v.args[1] == "Some" and v.args[0].endswith("Option")):
        v = v.args[2][0] if v.op == "agg" else v.args[0]
        v = strip(v)
    return v if v.op == "call" and re.search(pat, v.args[0]) else None
def lookup(it, e, v):
    """(table field, key) of the table entry a value was read from"""
    o = origin(v, GET)
    if o is None: return None
    a = o.args[1]
    t = strip(a[0]); k = strip(a[1])
    return (str(t.args[2]) if t.op == "f" and len(t.args) > 2 else None), k
def tablename(v):
    """name of the table field a HashMap::get reads"""
    v = strip(v)
    return v.args[-1] if v.op == "f" else None
def fieldpath(v, o):
    """fields leading from o to v"""
    out = []
    while v is not o:
        if v.op == "f": out.append(str(v.args[-1])); v = v.args[0]
        elif v.op in ("&", "with", "*"): v = v.args[0]
        else: return None
    return tuple(reversed(out))
def get_call(v):
    return origin(v, GET)
def plain(v):
    """nothing in the value is a join, havocked or opaque"""
    return not any(x.op in ("hv", "phi", "stale", "copaque") for x in subvals(v))
def eqany(it, e, args, want):
    """some argument is the value `want`: True / None / False (a joined value passed by value may be it)"""
    args = [a for a in args]
    if any(a is want or same(it, e, a, want) is True for a in args): return True
    return None if any(a.op in ("phi", "?") for a in args) else False
def passes(it, e, wants, skip=0):
    """every value of `wants` is among the call's arguments"""
    out = True
    for w in wants:
        r = eqany(it, e, e.args[skip:], w)
        if r is False: return False
        if r is None: out = None
    return out

def qparts(f, name):
    """(data, filter) type strings of a query parameter of a system"""
    i = next((k for k, n in f.names.items() if n == name and k <= f.argc), None)
    if i is None: raise MissingAnchor("%s has no parameter %s" % (short(f), name))
    t = f.ltys[i] if isinstance(f.ltys[i], str) else f.prog.types[f.crate][f.ltys[i]]
    h, a = interp.typarse(t)
    if not h.endswith("Query"): raise MissingAnchor("%s: %s is not a query" % (short(f), name))
    a = [x if isinstance(x, str) else interp.tystr(x) for x in a]
    return a[0], (a[1] if len(a) > 1 else "()")
def requires(f, name, comp, without=False):
    """the query only yields entities with (without) the component: True / None / False"""
    data, filt = qparts(f, name)
    kind = "Without" if without else "With"
    p = r"(?:[\w:]*::)?%s\b" % comp
    ors = ""
    while True:
        m = re.search(r"(?:[\w:]*::)?Or<", filt)
        if not m: break
        d = 1; j = m.end()
        while d and j < len(filt): d += {"<": 1, ">": -1}.get(filt[j], 0); j += 1
        ors += filt[m.start():j]; filt = filt[:m.start()] + filt[j:]
    if re.search(r"filter::%s<%s>" % (kind, p), filt): return True
    if re.search(r"filter::%s<%s>" % ("With" if without else "Without", p), filt): return False
    if not without and re.search(r"(?:^|[(, ])&(mut )?%s" % p, re.sub(r"Option<[^<>]*>", "", data)): return True
    return None if re.search(p, data) or re.search(p, ors) else False

def narrowing(f, q):
    """components the query requires or excludes: {(with?, component)}; None when part of the filter is not understood"""
    data, filt = qparts(f, q)
    out = set()
    ors = re.findall(r"(?:[\w:]*::)?(?:Or|Changed|Added)<", filt)
    for k, x in re.findall(r"filter::(With|Without)<([\w:]+)", re.sub(r"(?:[\w:]*::)?Or<(?:[^<>]|<[^<>]*>)*>", "", filt)): out.add((k == "With", x.split("::")[-1]))
    d = re.sub(r"(?:[\w:]*::)?(?:Option|Has|AnyOf)<(?:[^<>]|<[^<>]*>)*>", "", data)
    for x in re.findall(r"&(?:mut )?(?:'\w+ )?([\w:]+)", d): out.add((True, x.split("::")[-1]))
    return out

# ------------------------------------------------------------------------------------------------ M01
def dispatch_tables(c, s, table, fnfield, wants):
    it = s.it
    def pred(e):
        f = e.args[0]
        g = get_call(f)
        if g is None: return False if plain(f) else None
        if tablename(g.args[1][0]) != table: return False
        key = strip(g.args[1][1])
        # the key is what the id read from the message is registered as
        kg = get_call(key)
        if kg is None: return False if plain(key) else None
        if tablename(kg.args[1][0]) != "id_map": return False
        idv = strip(kg.args[1][1])
        if origin(idv, r"from_bytes$") is None: return False if plain(idv) else None
        # the receiving component is the one registered with the same entry, on the entity the message came for
        comps = [origin(a, r"get_mut_by_id$") for a in e.args[1:]]
        comps = [x for x in comps if x is not None]
        if not comps: return False
        cid = strip(comps[0].args[1][1])
        if cid.op != "f" or cid.args[-1] != "component_id": return None
        cg = get_call(cid)
        if cg is None: return False if plain(cid) else None
        if tablename(cg.args[1][0]) != table: return False
        ent = origin(comps[0].args[1][0], r"Query::get_mut$")
        if ent is not None and same(it, e, ent.args[1][1], par(it, "entity")) is False: return False
        # the serialisation functions are those registered for the same id
        ser = [g2 for g2 in (get_call(a) for a in e.args[1:]) if g2 is not None]
        if not any(tablename(g2.args[1][0]) == "serialize_fns_map" for g2 in ser): return False
        if any(same(it, e, strip(g2.args[1][1]), key) is False for g2 in ser): return False
        return passes(it, e, [par(it, n) for n in wants], 1)
    s.each(r"dyncall::" + fnfield + "$", pred, "the message goes to the component and function registered for its id, on its entity, with its own channel, tick, id and timeline", tag=fnfield)

@prop("M01", floor=30, explain="""The dispatch of a received message is analysed from the raw bytes to the registered callback: which tables are read with which key, which component is looked up on which entity, and what is passed on;
then the typed callbacks down to the receiver's queues, and the loop that drains the channels.""")
def m01(c):
    P = c.P
    EV = [r"dyncall", GET, r"get_mut_by_id$", r"from_bytes$", r"Query::get_mut$"]
    W = ("entity", "channel_kind", "tick", "message_id", "target_timeline")
    tl = lambda n: (lambda it: [(deq(par(it, "target_timeline"), n), True)])
    for n, lab in ((0, "immediate"), (1, "timeline")):
        s = scen(c, lab, PL + "receive_message_bytes", assume=tl(n), events=EV, monitor=Auto(0, (r"dyncall::receive_(message|trigger)_fn$", lambda m, a: m + 1)))
        dispatch_tables(c, s, "receive_metadata", "receive_message_fn", W)
        dispatch_tables(c, s, "receive_trigger", "receive_trigger_fn", W + ("remote_peer_id",))
        cnt = lambda e: e.state.mon if e.state.mon != () else 0
        s.exits(lambda e: cnt(e) <= 1, "a message is delivered at most once", tag="at most once")
        s.exits(lambda e: cnt(e) == 1 if not must_err(e) else True, "a message that is not delivered is an error", tag="delivered or error")
        s.exits(lambda e: (has_call(e.val, r"dyncall") or e.val.op in ("phi", "?") or None) if cnt(e) == 1 else True, "the outcome of the delivery is returned", tag="outcome")
    # an id nothing is registered for
    for miss in ("id_map", "serialize_fns_map"):
        def stub(it, st, fr, a, sym, miss=miss): return NONE if tablename(it.normarg(st, a[0])) == miss else None
        s = scen(c, "no entry in " + miss, PL + "receive_message_bytes", events=EV[:1], stubs=[(GET, stub)])
        s.never(r"dyncall::receive_(message|trigger)_fn$", "nothing is called for an id without entry in " + miss)
        s.exits(lambda e: must_err(e), "it is an error", tag="error")
    # receiving from the channels and the host client's buffer: every message is passed on with what was stored with it
    s = scen(c, "drain", PL + "recv", events=[r"receive_message_bytes$", r"read_message$", r"channel_receives_mut$", r"models::push_into$"])
    it = s.it
    nxt = lambda v: origin(v, r"::next$|read_message$")
    def part(e):
        src = [(a, nxt(a)) for a in e.args]
        rd = [a for a, o in src if o is not None and o.args[0].endswith("read_message")]
        idx = lambda a: str(a.args[-1]) if a.op == "f" else None
        if rd: return {"0", "1", "2"} <= {idx(a) for a in rd}
        hb = [a for a, o in src if o is not None and has_field(o, "buffer")]
        if not hb: return None
        return {"0", "2"} <= {idx(a) for a in hb}
    s.each(r"receive_message_bytes$", part, "each message is passed on with its own bytes, tick and id", tag="message")
    def ent(e):
        item = [nxt(a) for a in e.args]
        q = [(a, o) for a, o in zip(e.args, item) if o is not None and not has_field(o, "buffer") and has_call(o, r"Query::iter_mut$|par_iter")]
        fs = {fieldpath(a, o) for a, o in q if not has_call(o, r"channel_receives_mut")}
        return True if {("0", "0"), ("0", "3", "0")} <= fs else (False if ("0", "0") in fs or ("0", "3", "0") in fs else None)
    s.each(r"receive_message_bytes$", ent, "a message is delivered on the entity of the connection it came from, with that connection's peer", tag="entity")
    c.tri(requires(s.f, "transport_query", "Connected"), "recv: connected only", "messages are only received on connected links", s.f.file)
    # after an error in the host client's buffer the remaining messages stay queued
    def kept(e):
        left = [x for x in e.state.facts.items() if x[0][0] == "d" and x[1] == 0]
        return None
    for e in s.ev(r"models::push_into$"): pass
    s.exhausts("every connection is served", src=r"iter_mut\(&transport_query|transport_query")
    # the typed callbacks
    DS = r"ErasedSerializeFns::deserialize$"
    for fn, pushes, q in ((RC + "receive_message_typed", r"MessageReceiver::push_received$", r"queue_received$"), (MS + "receive_event::receive_event_typed", r"PendingTimelineEvents::push$", r"PendingTimelineEvents::queue$")):
        evs = [DS, pushes, q, r"command_scope$", r"trigger$"]
        for bad in (False, True):
            s = scen(c, "bad bytes" if bad else "good bytes", fn, events=evs[1:], stubs=[(DS, (lambda it, st, fr, a, sym: errv(mk("p", "error"))) if bad else (lambda it, st, fr, a, sym: okv(mk("p", "message"))))],
                     monitor=Auto(0, (pushes + "|" + q + r"|command_scope$", lambda m, a: m + 1)))
            s.stubbed(DS)
            cnt = lambda e: e.state.mon if e.state.mon != () else 0
            if bad:
                s.exits(lambda e: cnt(e) == 0 and (must_err(e) or None), "bytes that do not decode deliver nothing and are an error", tag="nothing")
            else:
                s.exits(lambda e: cnt(e) == 1, "a decoded message is delivered exactly once", tag="once")
                wants = ["remote_tick", "channel_kind", "message_id"] + (["target_timeline"] if "message_typed" in fn else ["from"])
                for p in (pushes, q):
                    s.each(p, lambda e: passes(s.it, e, [par(s.it, n) for n in wants] + [mk("p", "message")]), "it is delivered with its own tick, channel, id" + (" and timeline" if "message_typed" in fn else " and sender"), tag=p)
                if "event_typed" in fn:
                    s.each(pushes + "|" + q, lambda e: passes(s.it, e, [mk("f", par(s.it, "target_timeline"), "Some", "0")]), "for its own timeline", tag="timeline")
                    s.each(r"command_scope$", lambda e: True if has(e.args[1], lambda v: v is mk("p", "message")) and has(e.args[1], lambda v: v is par(s.it, "from")) else (False if plain(e.args[1]) else None), "an immediate event is triggered with its sender", tag="trigger")
                    s.exits(lambda e: True, "", tag="end")
    # a receiver inserted for the first message
    for fn, pushes in ((RC + "queue_received", r"push_received$"), (PE + "queue", r"PendingTimelineEvents::push$")):
        fs = [f for f in P.fns.values() if f.name.startswith(fn + "::{closure") and f.names and f.name.count("{closure") == 2]
        for f in fs:
            s = scen(c, "lazily inserted receiver", f, events=[pushes, r"get_entity_mut$", r"insert$"])
            if not s.ev(pushes): continue
            s.each(pushes, lambda e: True, "the message is queued on the inserted receiver")
            s.each(r"get_entity_mut$", lambda e: True if leaves_of_self(e.args[1]) else None, "of the entity it was received for")
            s.exits(lambda e: True if any(True for _ in s.ev(pushes)) else False, "", tag="end")
    from props import messages_more as mm
    mm.lazily(c); mm.known_to_manager(c, RC, "receive_messages")

def leaves_of_self(v): return has(v, lambda x: x.op == "p")

# ------------------------------------------------------------------------------------------------ M02
LIM = 4096
LAGS = [(1000, 1100, True), (1000, 1101, False), (1000, 1099, True), (1000, 1000, True), (1000, 999, True), (1000, 0, True), (0, 100, True), (0, 101, False), (7, 7 + 2**31 - 1, False), (5, 5000, False)]
TICK = "lightyear_core::tick::Tick"
def tickv(P, n): return mk("agg", TICK, P.adts[TICK]["vars"][0][0], (I(n),))
def pos(f, **vals):
    """argument list with the named parameters given"""
    byname = {n: i for i, n in f.names.items() if i <= f.argc}
    out = [None] * f.argc
    for n, v in vals.items():
        if n not in byname: raise MissingAnchor("%s has no parameter %s" % (short(f), n))
        out[byname[n] - 1] = v
    return out
def lag(c, key, fn, stubs, base, tickp, deliver):
    """delivered iff the target tick is at most 100 ticks ahead of the timeline"""
    P = c.P; f = c.fn(fn)
    for cur, t, ok in LAGS:
        s = scen(c, "%s: tick %d at %d" % (key, t, cur), f, events=[deliver], stubs=[(r"TimelineMetadata::tick$", tickv(P, cur))] + stubs, assume=base, args=pos(f, **{tickp: tickv(P, t)}))
        s.stubbed(r"TimelineMetadata::tick$")
        far = lambda e: has(e.val, lambda x: x.op == "agg" and x.args[1] == "TimelineTooFarBehind")
        if ok:
            s.always(deliver, "a message for tick %d is accepted while the timeline is at %d" % (t, cur))
            s.none_exit(far, "a message for tick %d is not rejected while the timeline is at %d" % (t, cur), tag="rejection")
        else: s.never(deliver, "a message for tick %d is rejected while the timeline is at %d" % (t, cur))
@prop("M02", floor=60, explain="""The buffering of timeline messages and events: the key each is stored under, its order, the bound, the set that a release takes out and what happens to it; the releasing system must pass every receiver the
tick of the timeline it releases.""")
def m02(c):
    P = c.P
    # a message meant for a timeline waits, any other is ready at once
    push = r"TimelineMessageBuffer::push$|ReadyBuffer::push$"
    for n, lab in ((0, "immediate"), (1, "timeline")):
        s = scen(c, lab, RC + "push_received", assume=lambda it: [(deq(par(it, "target_timeline"), n), True)], events=[push, r"Vec::push$", r"HashMap::(entry|get_mut)$"])
        it = s.it
        data = lambda e: e.args[-1]
        if n:
            s.never(r"Vec::push$", "a message waiting for a timeline is not readable yet")
            s.each(push, lambda e: True if same(it, e, data_part(P, e, "data"), par(it, "data")) else (None if data_part(P, e, "data") is None else False), "the message waits", tag="waits")
            s.each(r"HashMap::(entry|get_mut)$", lambda e: same(it, e, strip(e.args[1]), mk("f", par(it, "target_timeline"), "Some", "0")), "in the buffer of its own timeline", tag="own timeline")
        else:
            s.never(push, "a message without timeline does not wait")
            s.each(r"Vec::push$", lambda e: data_part(P, e, "data") is par(it, "data") and tablename(e.args[0]) == "ready", "it is readable at once", tag="ready")
        for e_ in ("remote_tick", "channel_kind", "message_id"):
            s.each(push if n else r"Vec::push$", lambda e: same(it, e, data_part(P, e, e_), par(it, e_)) if data_part(P, e, e_) is not None else None, "it keeps its " + e_, tag=e_)
    # the buffers: key, order, bound
    for fn, ev, tickof in ((TB + "push", r"ReadyBuffer::push$", lambda it: mk("f", par(it, "message"), "", "remote_tick")), (PE + "push", r"ReadyBuffer::push$", lambda it: par(it, "target_tick"))):
        s = scen(c, "key", fn, events=[ev, r"HashMap::entry$"], writes=True)
        it = s.it
        seqp = lambda e: next((w for w in [tup(e.args[1], 1)] if w is not None), None)
        s.each(ev, lambda e: same(it, e, tup(e.args[1], 0), tickof(it)) if tup(e.args[1], 0) is not None else None, "a message waits under its own tick", tag="tick")
        s.each(ev, lambda e: rising(seqp(e)) if seqp(e) is not None else None, "and in order of arrival", tag="arrival")
        ws = [e for e in s.ev(None, "write") if wfield(e) == "next_sequence"]
        c.check(bool(ws), short(s.f) + ": next sequence", "the arrival number moves on", s.f.file)
        for e in ws:
            t = [x for x in leaves_f(e.val, "next_sequence")]
            c.tri(True if t and circstep(e.val, t[0]) else (None if not t else False), short(s.f) + ": sequence step", "every message gets the next arrival number", e.where())
        cap = [x for x in P.fns.values() if 0]
        for full in (False, True):
            def lenstub(it, st, fr, a, sym, full=full): return I(LIM if full else LIM - 1)
            s = scen(c, "full" if full else "room", fn, events=[ev], stubs=[(r"ReadyBuffer::len$", lenstub), (r"TimelineMessageBuffer::num_pending$", lenstub)],
                     assume=(lambda it: []) )
            k = "some" if fn.startswith(PE) else None
            if not full: s.always(ev, "the %dth message is accepted" % LIM)
            elif fn.startswith(PE):
                g = scen(c, "full buffer", fn, events=[ev], stubs=[(r"ReadyBuffer::len$", lenstub), (r"HashMap::get$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "buffer"))))])
                g.never(ev, "a full buffer takes no more messages"); g.exits(must_err, "and says so", tag="error")
            else:
                s.never(ev, "a full buffer takes no more messages"); s.exits(must_err, "and says so", tag="error")
    # what a release takes out
    for fn, tl in ((RC + "release_timeline_until", "pending"), (PE + "release_until", "timelines")):
        s = scen(c, "release", fn, events=[r"ReadyBuffer::(drain_until|pop_item|pop_until|drain|drain_after)$", r"HashMap::get_mut$", r"models::push_into$", r"command_scope$", r"Vec::push$"])
        it = s.it
        s.each(r"HashMap::get_mut$", lambda e: same(it, e, strip(e.args[1]), par(it, "timeline")) if tablename(e.args[0]) == tl else None, "only the released timeline's messages are taken", tag="timeline")
        s.each(r"ReadyBuffer::", lambda e: bound(it, e, e.args[1] if len(e.args) > 1 else None), "every message up to the timeline's tick is released, and no later one", tag="bound")
        out = r"models::push_into$|Vec::push$" if "receive::" in fn else r"command_scope$"
        s.each(out, lambda e: True if has_call(e.args[1], r"::next$") and has_call(e.args[1], r"ReadyBuffer") else None, "what is released is delivered", tag="delivered")
        g = scen(c, "timeline has entries", fn, events=[r"ReadyBuffer::drain_until$"], stubs=[(r"HashMap::get_mut$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "buffer"))))], must=[(r"ReadyBuffer::drain_until$", "drained")])
        g.exhausts("everything released is delivered", src=r"ReadyBuffer")
        if "receive_event" in fn:
            fs = lambda e: {str(x.args[-1]) for x in subvals(e.args[1]) if x.op == "f"}
            s.each(r"command_scope$", lambda e: {"trigger", "from"} <= fs(e), "an event is triggered with its own content and sender", tag="event")
    # what is taken out: exactly the entries up to the bound, in order
    for n in range(4):
        for due in range(n + 1): heap_drain(c, P, n, due)
    # the order of the buffer: the smallest key first
    for m_ in ("cmp", "partial_cmp"):
        for f in [P.fns[fid] for (tr, mm), fs in P.impl_methods.items() if mm == m_ for st_, fid, im in fs if "ItemWithReadyKey" in st_]:
            for less in (True, False):
                A_, B_ = (mk("p", f.names[i]) for i in (1, 2))
                def side(v): return next((z for z in (A_, B_) if endswith(v, "key") and has(v, lambda q: q is z)), None)
                def st(it, state, fr, a, sym, less=less):
                    if len(a) != 2: return None
                    x, y = (side(strip(it.normarg(state, z))) for z in a)
                    if {x, y} != {A_, B_} or x is y: return None
                    return result(it.cur_names, -1 if (x is A_) == less else 1)
                s = scen(c, "self %s" % ("smaller" if less else "larger"), c.fn(f.name), stubs=[(CMP, st)])
                want = "Greater" if less else "Less"
                s.exits(lambda e: ordname(e.val) == want if ordname(e.val) else None, "the entry with the smallest key comes out of the buffer first", tag="smallest first")
    # only messages close enough to the timeline are accepted
    lag(c, "remote", PL + "receive_message_bytes", [], lambda it: [(deq(par(it, "target_timeline"), 1), True)], "tick", r"dyncall::receive_(message|trigger)_fn$")
    for fn, d in ((SLN, r"dyncall::receive_local_message_fn$"), (SLT, r"dyncall::receive_local_trigger_fn$")):
        lag(c, "local", fn, [(r"ChannelRegistry::settings$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "settings"))))], lambda it: [(deq(mk("f", mk("p", "settings"), "", "timeline"), 1), True)], "tick", d)
    # the releasing system
    rel = r"dyncall::release_(timeline_)?fn$"
    NOW = mk("p", "tick of the timeline")
    def tickof(it, st, fr, a, sym):
        meta, ptr = origin(it.normarg(st, a[0]), r"::next$"), origin(it.normarg(st, a[1]), r"get_by_id$")
        own = ptr is not None and origin(strip(ptr.args[1][1]), r"::next$") is meta
        st.mon = (meta, own)
        return NOW
    s = scen(c, "system", PL + "release_timeline", events=[rel, r"get_mut_by_id$"], stubs=[(r"TimelineMetadata::tick$", tickof)])
    it = s.it
    s.stubbed(r"TimelineMetadata::tick$")
    def tick_of(e):
        if e.state.mon == (): return False
        meta, own = e.state.mon
        if meta is None: return None
        if not any(a is NOW for a in e.args): return False if any(has(a, lambda x: x is NOW) for a in e.args) or all(plain(a) for a in e.args[2:]) else None
        return own and any(a.op in ("f", "*") and origin(a, r"::next$") is meta for a in (strip(x) for x in e.args[2:]))
    s.each(rel, tick_of, "each receiver is released up to the tick that this connection's own instance of the timeline has reached", tag="tick")
    s.each(rel, lambda e: True if comp_of(e) else (False if comp_of(e) is False else None), "through the callback registered for that receiver", tag="callback")
    s.always(r"dyncall::release_timeline_fn$", "messages are released").always(r"dyncall::release_fn$", "events are released")
    c.tri(requires(s.f, "entities", "Connected"), "release_timeline: connected only", "only connected links are released", s.f.file)
    # unread ready messages are dropped at the end of the frame, waiting ones are kept
    s = scen(c, "clear", RC + "clear_typed", events=[r"::clear$|::drain$|::truncate$|mem::take$"], writes=True)
    s.each(r"::clear$|::drain$|::truncate$|mem::take$", lambda e: tablename(e.args[0]) == "ready" if tablename(e.args[0]) in ("ready", "pending") else None, "clearing unread messages leaves those waiting for a timeline", tag="clear")
    c.check(not [e for e in s.ev(None, "write") if "pending" in (wpath(e) or ())], "clear: pending", "clearing leaves those waiting", s.f.file)
    from props import messages_more as mm
    mm.exact_keys(c)

def data_part(P, e, n):
    v = aggfield(P, e.args[-1], n)
    return v
def tup(v, i):
    v = strip(v)
    return v.args[2][i] if v.op == "agg" and len(v.args[2]) > i else (v.args[1][i] if v.op == "tuple" else None)
def leaves_f(v, name): return [x for x in subvals(v) if x.op == "f" and x.args[-1] == name]
def circstep(v, t):
    from props.core import circeq
    return circeq(sub(v, I(1)), [(t, 1)], 64) is True or circ1(v, t)
def rising(v):
    """v grows with the arrival counter"""
    v = uncast(v)
    if tablename(v) == "next_sequence": return True
    from props.core import circ
    t, k = circ(v, 64)
    if len(t) == 1 and tablename(list(t)[0]) == "next_sequence": return list(t.values())[0] == 1
    return False if plain(v) and not any(x.op == "call" for x in t) else None
def circ1(v, t):
    from props.core import circ
    a, k = circ(v, 64)
    return a == {t: 1} and k == 1
def bound(it, e, v):
    if v is None: return False
    v = strip(v)
    a, b = tup(v, 0), tup(v, 1)
    if a is None: return None
    t = same(it, e, a, par(it, "tick"))
    if t is not True: return t
    return True if isint(b) and ival(b) == 2**64 - 1 else (False if isint(b) else None)
def has_lit(e, pat, d): return any(k[0] == "d" and f == d and k[1].op == "call" and re.search(pat, k[1].args[0]) for k, f in e.state.facts.items())
CMP = r"PartialOrd::(lt|le|gt|ge|partial_cmp)$|Ord::(cmp|max|min)$|::cmp$|::partial_cmp$"
ORDT = "core::cmp::Ordering"
def result(names, n):
    """outcome of a comparison call for an ordering n (-1, 0, 1)"""
    last = names[0].split("::")[-1]
    o = mk("agg", ORDT, {-1: "Less", 0: "Equal", 1: "Greater"}[n], ())
    if last == "cmp": return o
    if last == "partial_cmp": return some(o)
    return const({"lt": n < 0, "le": n <= 0, "gt": n > 0, "ge": n >= 0}[last]) if last in ("lt", "le", "gt", "ge") else None
def ordname(v):
    if v.op == "agg" and v.args[1] == "Some": v = v.args[2][0]
    return v.args[1] if v.op == "agg" and v.args[0].endswith("Ordering") else None
def heap_drain(c, P, n, due):
    """drain_until on a buffer of n entries of which the first `due` are not past the bound"""
    E = [mk("p", "entry%d" % i) for i in range(n)]
    def mon(st): return st.mon if st.mon != () else (0, ())
    def heapq(it, st, a): return endswith(strip(it.normarg(st, a)), "heap") if not strip(it.normarg(st, a)).op in ("phi", "hv", "stale") else True
    def peek(it, st, fr, a, sym): i = mon(st)[0]; return some(mk("&", E[i])) if i < n else NONE
    def pop(it, st, fr, a, sym):
        i, out = mon(st)
        if i >= n: return NONE
        st.mon = (i + 1, out); return some(E[i])
    def length(it, st, fr, a, sym): return I(n - mon(st)[0])
    def empty(it, st, fr, a, sym): return const(mon(st)[0] >= n)
    def push(it, st, fr, a, sym):
        v = a[1]; hit = [i for i in range(n) if has(v, lambda x: x is E[i])]
        i, out = mon(st); st.mon = (i, out + ((hit[0] if len(hit) == 1 else -1),)); return None
    def cmp_(it, st, fr, a, sym):
        if len(a) != 2: return None
        x, y = (strip(it.normarg(st, z)) for z in a)
        kx, ky = (next((i for i in range(n) if z is mk("f", E[i], "", "key")), None) for z in (x, y))
        if kx is not None and ky is not None: return result(it.cur_names, (kx > ky) - (kx < ky))
        if (kx is None) == (ky is None): return None
        i = kx if kx is not None else ky
        d = 1 if i >= due else (0 if i == due - 1 else -1)        # the last due entry is exactly at the bound
        return result(it.cur_names, d if kx is not None else -d)
    s = scen(c, "%d of %d due" % (due, n), RB + "drain_until", stubs=[(r"BinaryHeap::peek$", peek), (r"BinaryHeap::pop$", pop), (r"BinaryHeap::len$", length), (r"BinaryHeap::is_empty$", empty), (r"Vec::push$|models::push_into$", push), (CMP, cmp_)],
             assume=lambda it: [(ieq(mk("len", path(it, "self.heap")), I(n)), True)], events=[r"BinaryHeap::(push|drain|into_vec|clear|retain|append)$"])
    s.never(r"BinaryHeap::(push|drain|into_vec|clear|retain|append)$", "nothing else is taken from or put into the buffer")
    s.exits(lambda e: (mon(e.state) if n else (0, ())) == (due, tuple(range(due))), "a release takes exactly the entries up to the bound, earliest first", tag="exactly those due")
def comp_of(e):
    f = origin(e.args[0], GET + r"|::next$")
    m_ = [origin(a, r"get_mut_by_id$") for a in e.args[1:]]
    m_ = [x for x in m_ if x is not None]
    if f is None or not m_: return None
    cid = strip(m_[0].args[1][1])
    if f.args[0].endswith("next"): return origin(cid, r"::next$") is f
    key = strip(f.args[1][1])
    return origin(key, r"::next$") is origin(cid, r"::next$") or None

# ------------------------------------------------------------------------------------------------ M03
def writer_of(v): return None
def sending(c, fn, body):
    """the bytes handed to the transport are the id and one message, on every path, whatever happened to earlier messages"""
    P = c.P; f = c.fn(fn)
    TB_, SE, TW, TX = r"ToBytes::to_bytes$", r"ErasedSerializeFns::serialize$", r"Writer::(take_written|split|clear)$", r"Transport::send\w*$"
    res = {}
    for start in ("dirty", "clean"):
        def idw(m, a): return "id" if m in ("clean", "taken") else "!stale bytes"
        def msg(m, a): return "msg" if m == "id" else "!order"
        def take(m, a): return "taken" if m == "msg" else "clean"
        def send(m, a): return "clean" if m == "taken" else "!unwritten"       # sent once
        au = Auto(start, (TB_, idw), (SE, msg), (TW, take), (TX, send))
        s = scen(c, start, f, events=[TB_, SE, TW, TX], monitor=au)
        ends = [e for e in s.ev(None, "exit")]
        dirty_end = [e for e in ends if e.state.mon in ("id", "msg", "dirty")]
        res[start] = (au, s, dirty_end)
    au, s, _ = res["dirty"]
    if au.errs:
        au2, s2, dirty = res["clean"]
        # starting from an empty buffer is only sound when every exit and every failed message leaves it empty
        if not au2.errs and not dirty: au, s = au2, s2
    au.report(c, f, {"stale bytes": "a message is written behind nothing but an empty buffer, also after an earlier message failed", "order": "a message is its id followed by its own bytes", "unwritten": "what is sent is what was written"})
    it = s.it
    s.each(TB_, lambda e: same(it, e, strip(e.args[0]), par(it, "net_id")), "under the id it was registered with", tag="id")
    s.each(SE, lambda e: own(e.args[1], body), "the message itself is serialised", tag="body")
    g = scen(c, "message that cannot be serialised", f, events=[TX], stubs=[(SE, lambda it, st, fr, a, sym: errv(mk("p", "error")))]).stubbed(SE)
    g.never(TX, "only a message that was serialised is sent")
    s.each(TX, lambda e: own(e.args[1], "channel_kind") and (True if has_call(e.args[2], r"take_written") else None) and own(e.args[3], "priority"), "and sent on its own channel with its own priority", tag="sent")
    s.exhausts("a message that cannot be sent does not hold back those after it", src=r"drain|into_iter|take")
    return s
def own(v, what):
    """part `what` of the queued entry taken from the drained queue"""
    o = origin(v, r"::next$|::pop\w*$")
    if o is None: return False if plain(v) else None
    p = fieldpath(strip(v), o)
    if p is None: return None
    names = {"message": ("0",), "channel_kind": ("1",), "priority": ("3",)}
    last = p[-1]
    return last == what or (last in names.get(what, ()) or (None if last.isdigit() is False and last not in ("event", "channel_kind", "priority", "message") else False))

@prop("M03", floor=25, explain="""A typestate automaton follows the shared write buffer along every path of the typed send functions, started both with an empty buffer and with bytes left by a failed message: identifier, message, take, send.
The queue must be run to its end whatever the outcome of each message. The broadcast to several connections is followed the same way.""")
def m03(c):
    P = c.P
    sending(c, SN, "message"); sending(c, ET, "event")
    for fn in (SLN, SLT):
        s = scen(c, "local", fn, events=[r"dyncall::receive_local_(message|trigger)_fn$"])
        s.exhausts("a message that cannot be delivered locally does not hold back those after it", src=r"drain|into_iter|take")
    # what is queued
    s = scen(c, "queue", MS + "send::MessageSender::send_with_priority", events=[r"Vec::push$"])
    it = s.it
    s.each(r"Vec::push$", lambda e: tablename(e.args[0]) == "send" and any(x is par(it, "message") for x in subvals(e.args[1])) and any(x is par(it, "priority") for x in subvals(e.args[1])) and has_call(e.args[1], r"TypeId::of$"), "a message is queued behind the earlier ones, with its channel and priority")
    # broadcast
    g = c.fn(MS + "multi::MultiMessageSender::send_with_priority")
    SR, TW, TX = r"MessageRegistry::serialize$", r"Writer::(take_written|split|clear)$", r"Transport::send\w*$"
    for mapped in (False, True):
        for start in ("dirty", "clean"):
            au = Auto(start, (SR, lambda m, a: "!stale bytes" if m not in ("clean", "taken") else "msg"), (TW, lambda m, a: "taken" if m == "msg" else "clean" if m != "taken" else None), (TX, lambda m, a: "!unwritten" if m in ("dirty", "msg") else ("clean" if mapped else None)))
            s = scen(c, "mapped" if mapped else "shared", g, events=[SR, TW, TX], monitor=au, stubs=[(r"MessageRegistry::is_map_entities$", okv(const(mapped)))])
            s.stubbed(r"MessageRegistry::is_map_entities$")
            if not au.errs or start == "clean": break
            if start == "dirty" and au.errs:
                pass
        au.report(c, g, {"stale bytes": "a broadcast is written into an empty buffer, also after an earlier one failed", "unwritten": "what is sent is what was written"})
        it = s.it
        s.each(SR, lambda e: same(it, e, strip(e.args[1]), strip(par(it, "message"))), "the message itself is serialised", tag="body")
        if mapped: s.each(SR, lambda e: True if has_call(e.args[3], r"::next$") and has_field(e.args[3], "local_to_remote") else (False if plain(e.args[3]) else None), "with the entities as the recipient knows them", tag="mapped per recipient")
        s.each(TX, lambda e: (True if has_call(e.args[0], r"::next$") else None), "every recipient's transport gets it", tag="recipient")
        s.each(TX, lambda e: (True if has_call(e.args[-2], r"take_written") or e.args[-2].op in ("phi",) else None) and (same(it, e, e.args[-1], par(it, "priority"))), "with the given priority", tag="priority")
        OK = lambda it, st, fr, a, sym: okv(mk("p", "done"))
        s = scen(c, "mapped, serialisable" if mapped else "shared, serialisable", g, events=[TX], stubs=[(r"MessageRegistry::is_map_entities$", okv(const(mapped))), (r"MessageRegistry::metric_handles$", OK)] + ([] if mapped else [(SR, OK)]))
        s.exhausts("one recipient that cannot be served does not hold back the others", src=r"iter_many|iter_mut")
    # serialisation as the registry does it
    s = scen(c, "registry", MS + "registry::MessageRegistry::serialize", events=[r"ToBytes::to_bytes$", r"ErasedSerializeFns::serialize$"], must=[(r"ToBytes::to_bytes$", "id")])
    it = s.it
    s.each(r"ToBytes::to_bytes$", lambda e: (lambda g_: None if g_ is None else tablename(g_.args[1][0]) == "kind_map")(get_call(e.args[0])), "the id is the one the type is registered under", tag="id")
    s.each(r"ErasedSerializeFns::serialize$", lambda e: "id" in e.state.must and same(it, e, strip(e.args[1]), strip(par(it, "message"))), "the id comes before the message", tag="order")
    # the sending system: every sender component of a connection with the functions registered for it
    s = scen(c, "system", PL + "send", events=[r"dyncall::send_(message|trigger)_fn$"])
    it = s.it
    def sys(e):
        g_ = get_call(e.args[0])
        if g_ is None: return False if plain(e.args[0]) else None
        key = strip(g_.args[1][1])
        comp = [origin(a, r"get_mut_by_id$") for a in e.args[1:]]; comp = [x for x in comp if x is not None]
        if not comp: return False
        a, b = origin(key, r"::next$"), origin(strip(comp[0].args[1][1]), r"::next$")
        if a is None or b is None: return None
        tabs = {tablename(x.args[1][0]): strip(x.args[1][1]) for x in (get_call(z) for z in e.args[2:]) if x is not None}
        return a is b and {"serialize_fns_map", "kind_map"} <= set(tabs) and all(same(it, e, v, key) is not False for v in tabs.values())
    s.each(r"dyncall::send_(message|trigger)_fn$", sys, "each sender component is drained with the functions and id registered for its own type")
    s.always(r"dyncall::send_message_fn$", "messages are sent").always(r"dyncall::send_trigger_fn$", "events are sent")
    c.tri(requires(s.f, "transport_query", "Connected"), "send: connected only", "messages are only sent over connected links", s.f.file)
    c.tri(requires(s.f, "transport_query", "HostClient", without=True), "send: not the host client", "the host client's messages do not go over a transport", s.f.file)
    f2 = c.fn(PL + "send_local")
    c.tri(requires(f2, "manager_query", "Connected"), "send_local: connected only", "local messages are delivered only while connected", f2.file)
    c.tri(requires(f2, "manager_query", "HostClient"), "send_local: host client only", "only the host client's messages are delivered locally", f2.file)
    from props import messages_more as mm
    mm.exact_queue(c); mm.whole_queue(c, SN, "message", "messages", "queue of messages"); mm.whole_queue(c, ET, "event", "events", "queue of events")
    mm.known_to_manager(c, MS + "send::MessageSender::", "send_messages"); mm.known_to_manager(c, MS + "send_trigger::EventSender::", "send_triggers")

# ------------------------------------------------------------------------------------------------ M04
@prop("M04", floor=8, explain="""The observer of a disconnection and the command it queues are analysed: what is collected from the registry, and that the command clears the entity mapping and the list of receivers and removes every collected
component on every path on which the entity still exists. Local delivery is analysed down to the receiver's queue.""")
def m04(c):
    P = c.P
    f = c.fn(PL + "handle_disconnection")
    s = scen(c, "observer", f, events=[r"Commands::queue$", r"models::push_into$|Vec::push$|collect$"], stubs=[(r"get_resource$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "registry"))))])
    it = s.it
    s.always(r"Commands::queue$", "the cleanup is queued")
    q = s.ev(r"Commands::queue$")
    for e in q:
        v = e.args[1]
        c.tri(True if any(x.op == "f" and x.args[-1] == "entity" for x in subvals(v)) else None, "cleanup entity", "the cleanup concerns the entity that disconnected", e.where())
    src = set()
    for e in s.it.events:
        for a in list(e.args or ()) + ([e.val] if e.val is not None else []):
            for x in subvals(a):
                if x.op == "f" and x.args[-1] in ("receive_metadata", "receive_trigger"): src.add(x.args[-1])
    seen = {n for n in ("receive_metadata", "receive_trigger") if any(n in show(k[1]) for e in s.it.events for k in e.state.facts)} | src
    c.tri(True if {"receive_metadata", "receive_trigger"} <= seen else False, "collected", "the receivers of all messages and the pending queues of all events are collected", f.file)
    cl = [g for g in P.fns.values() if g.name.startswith(f.name + "::{closure") and g.names and any("world" == n for n in g.names.values())]
    c.check(bool(cl), "cleanup command", "the cleanup is a command on the world", f.file)
    for g in cl:
        for mgr in (True, False):
            CLR = r"::clear$"
            def gm(it, st, fr, a, sym): return some(mk("&", mk("p", "manager"))) if mgr else NONE
            s = scen(c, "with manager" if mgr else "no manager", g, events=[CLR, r"remove_by_id$", r"remove_by_ids$"], stubs=[(r"World::get_entity_mut$", lambda it, st, fr, a, sym: okv(mk("p", "entity"))), (r"EntityWorldMut::get_mut$", gm)], must=[(r"remove_by_id", "removed")],
                     monitor=lambda it, st, kind, info: setattr(st, "mon", tuple(sorted(set(st.mon) | {x for x in ("remote_to_local", "local_to_remote", "receive_messages", "entity_mapper") if has_field(strip(it.normarg(st, info[1][0])), x)}))) if kind == "call" and any(re.search(CLR, n) for n in info[0]) and info[1] else None)
            if mgr:
                s.exits(lambda e: ("receive_messages" in e.state.mon) and ("entity_mapper" in e.state.mon), "the entity mapping and the list of receivers are cleared", tag="cleared")
            s.each(r"remove_by_id", lambda e: True if has_call(e.args[1], r"::next$") else (False if plain(e.args[1]) else None), "the collected components are removed", tag="removed")
            s.exhausts("every collected component is removed")
    # both directions of the entity mapping are forgotten
    for h in [h for h in P.fns.values() if re.search(r"EntityMap\w*::clear$", h.name) and h.names]:
        s = scen(c, "clear", c.fn(h.name), events=[r"::clear$"])
        got = {tablename(x) for e in s.ev(r"::clear$") for x in e.args[:1]}
        if "Remote" in h.name: c.tri(True if len(s.ev(r"::clear$")) >= 2 else False, short(h) + ": both directions", "both directions of the mapping are forgotten", h.file)
    from props import messages_more as mm
    mm.cleanup_of(c)

# ------------------------------------------------------------------------------------------------ M05
@prop("M05", floor=20, explain="""Local delivery to the host client: the typed send and receive functions are analysed for what is passed along, at most one delivery, and that nothing is taken out of the message before capacity was checked.""")
def m05(c):
    P = c.P
    for fn, d, body in ((SLN, "receive_local_message_fn", "message"), (SLT, "receive_local_trigger_fn", "event")):
        s = scen(c, "local send", fn, events=[r"dyncall::" + d, GET, r"get_mut_by_id$"])
        it = s.it
        def pred(e):
            g_ = get_call(e.args[0])
            if g_ is None: return False if plain(e.args[0]) else None
            if tablename(g_.args[1][0]) != ("receive_metadata" if body == "message" else "receive_trigger"): return False
            comp = [origin(a, r"get_mut_by_id$") for a in e.args[1:]]; comp = [x for x in comp if x is not None]
            if not comp: return False
            cg = get_call(strip(comp[0].args[1][1]))
            if cg is not None and cg is not g_: return False
            if not any(has_call(a, r"::next$") and a.op == "&" and has(a, lambda x: x.op == "agg" and x.args[1] == "Some") for a in e.args[1:]): return None
            return passes(it, e, [par(it, "tick")], 1)
        s.each(r"dyncall::" + d, pred, "the message goes to the component registered for its type, with the current tick", tag=d)
        s.each(r"dyncall::" + d, lambda e: True if any(own(a, "channel_kind") for a in e.args[1:] if origin(a, r"::next$") is not None and a.op == "f") else None, "on its own channel", tag="channel")
    DC = r"Any::downcast_mut$"
    for fn, pushes, q in ((RC + "receive_local_message_typed", r"MessageReceiver::push_received$", r"queue_received$"), (MS + "receive_event::receive_local_event_typed", r"PendingTimelineEvents::push(_unchecked)?$", r"PendingTimelineEvents::queue$")):
        ev = [pushes, q, r"command_scope$"]
        name = "message" if "message_typed" in fn else "trigger"
        mon = lambda: Auto(0, (pushes + "|" + q + r"|command_scope$", lambda m, a: m + 1))
        cnt = lambda e: e.state.mon if e.state.mon != () else 0
        ok = lambda it, st, fr, a, sym: some(mk("&", mk("p", "slot")))
        s = scen(c, "message of the right type", fn, events=ev, stubs=[(DC, ok)], assume=lambda it: [(deq(mk("p", "slot"), 1), True)], monitor=mon())
        s.stubbed(DC)
        it = s.it
        s.exits(lambda e: cnt(e) == 1 or (cnt(e) == 0 and must_err(e)), "it is delivered exactly once or refused", tag="once")
        body = mk("f", mk("p", "slot"), "Some", "0")
        wants = ["remote_tick", "channel_kind", "message_id"] + (["target_timeline"] if name == "message" else ["from"])
        for p in (pushes, q):
            s.each(p, lambda e: passes(it, e, [par(it, n) for n in wants] + [body]), "with its own tick, channel, id and " + ("timeline" if name == "message" else "sender"), tag=p)
        if name == "trigger":
            s.each(r"command_scope$", lambda e: True if has(e.args[1], lambda v: v is body) and has(e.args[1], lambda v: v is par(it, "from")) else (False if plain(e.args[1]) else None), "an immediate event is triggered with its sender", tag="trigger")
            for n, lab in ((0, "immediate"), (1, "timeline")):
                s = scen(c, lab, fn, events=ev, stubs=[(DC, ok)], assume=lambda it: [(deq(mk("p", "slot"), 1), True), (deq(par(it, "target_timeline"), n), True)])
                if n: s.never(r"command_scope$", "an event waiting for a timeline is not triggered yet")
                else: s.never(pushes + "|" + q, "an immediate event does not wait")
        s = scen(c, "wrong type", fn, events=ev, stubs=[(DC, NONE)])
        s.never("|".join(ev), "a value of another type is not delivered"); s.exits(must_err, "it is an error", tag="error")
        s = scen(c, "already taken", fn, events=ev, stubs=[(DC, ok)], assume=lambda it: [(deq(mk("p", "slot"), 0), True)])
        s.never("|".join(ev), "a message is not delivered twice"); s.exits(must_err, "it is an error", tag="error")
    # a full buffer refuses before the message is taken
    for fn in (RC + "ensure_capacity", PE + "ensure_capacity"):
        for full in (False, True):
            ln = lambda it, st, fr, a, sym, full=full: I(LIM if full else LIM - 1)
            s = scen(c, "full" if full else "room", fn, stubs=[(r"ReadyBuffer::len$|num_pending$", ln), (r"HashMap::get$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "buffer"))))],
                     assume=(lambda it: [(deq(par(it, "target_timeline"), 1), True)]) if fn.startswith(RC) else None)
            s.exits(must_err if full else must_ok, "a full buffer refuses, any other accepts", tag="capacity")
    from props import messages_more as mm
    mm.local_timeline(c); mm.whole_queue(c, SLN, "message", "local messages", "local queue of messages"); mm.whole_queue(c, SLT, "event", "local events", "local queue of events")
