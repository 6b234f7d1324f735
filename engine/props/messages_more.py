"""parts of the message properties decided on small concrete situations: lazily inserted receivers, registration of components with the manager, order and completeness of the queues, reading a receiver"""
import re
from lib import *
from props.messages import *
from props.messages import MS, RC, PE, PL, SN, ET, SLN, SLT, RB, TB, I
from props.core import refuted

SOME_ = lambda v: some(mk("&", v))
NEUTRAL = r"(send|trigger|send_to_entities)_with_priority$"
PART = r"Iterator::(rev|take|skip|step_by|take_while|skip_while|map_while)\("
def agg_of(v, pat="closure"):
    v = strip(v)
    return v if v.op == "agg" and pat in str(v.args[0]) else next((x for x in subvals(v) if x.op == "agg" and pat in str(x.args[0])), None)
def env(v):
    """index of the captured variable v is"""
    v = strip(v)
    while v.op in ("*", "&"): v = strip(v.args[0])
    if v.op == "f" and str(v.args[2]).isdigit() and strip(v.args[0]).op in ("p", "*") and "self" in show(v.args[0]) or v.op == "f" and re.fullmatch(r"\(?\*?self\)?\.\d+", show(v)): return int(str(v.args[2]))
    return None


def whole_queue(c, fn, body, what, key):
    """every entry of the queue, first to last"""
    f = c.fn(fn)
    s = scen(c, key, f, events=[r"Vec::drain$|::split_off$|mem::take$|VecDeque::drain$", r"ErasedSerializeFns::serialize$|dyncall::receive_local"])
    for e in s.ev(r"Vec::drain$|VecDeque::drain$"):
        if "send" not in show(e.args[0]): continue
        r = strip(e.args[1])
        full = r.op == "agg" and "RangeFull" in str(r.args[0]) or show(r) == "RangeFull" or r.op == "agg" and r.args[0].endswith("RangeFrom") and isint(r.args[2][0]) and ival(r.args[2][0]) == 0
        c.tri(True if full else False if r.op == "agg" and "Range" in str(r.args[0]) else None, key + ": all of it", what + ": the whole queue is taken", e.where())
    for e in s.ev(r"ErasedSerializeFns::serialize$|dyncall::receive_local"):
        for a in e.args:
            o = origin(a, r"::next$|::next_back$|::pop\w*$")
            if o is None or "send" not in show(o): continue
            back = re.search(r"next_back$|::pop$", o.args[0]) or re.search(PART, show(o))
            c.check(not back, key + ": in order", what + ": first queued, first sent", e.where())


def lazily(c):
    """a receiver added for a first message keeps what another message put there before"""
    P = c.P
    for fn, pushes, names in ((RC + "queue_received", r"MessageReceiver::push_received$", ("message", "remote_tick", "channel_kind", "message_id", "target_timeline")), (PE + "queue", r"PendingTimelineEvents::push$", ("trigger", "from", "target_tick", "channel_kind", "message_id", "timeline"))):
        top = c.fn(fn)
        lv = [f for f in P.fns.values() if f.name.startswith(fn + "::{closure") and f.names and "CALLSITE" not in f.name]
        inner = [f for f in lv if any("world" == n for n in f.names.values())]
        if not inner: c.undecided(short(top) + ": command", "the queued command was not found"); continue
        f = inner[0]
        INS = r"EntityWorldMut::(insert|insert_if_new|insert_by_id)$"
        for there in (True, False):
            def contains(it, st, fr, a, sym): return const(there or "inserted" in (st.mon or ()))
            def get(it, st, fr, a, sym): return some(mk("&", mk("p", "receiver"))) if there or "inserted" in (st.mon or ()) else NONE
            def mon(it, st, kind, info):
                if kind != "call": return
                if any(re.search(INS, n) for n in info[0]): st.mon = (st.mon or ()) + ("inserted" if any(n.endswith("::insert") for n in info[0]) else "completed",)
                if any(re.search(pushes, n) for n in info[0]): st.mon = (st.mon or ()) + ("pushed",)
            s = scen(c, "receiver %s" % ("there" if there else "missing"), f, stubs=[(r"World::get_entity_mut$", lambda it, st, fr, a, sym: okv(mk("p", "entity"))), (r"EntityWorldMut::contains$", contains), (r"EntityWorldMut::get_mut$", get)], events=[pushes, INS, r"EntityWorldMut::entry$"], monitor=mon)
            key = short(top) + ": receiver " + ("there" if there else "missing")
            if s.ev(r"EntityWorldMut::entry$"): c.undecided(key, "entry"); continue
            for e in s.ev(None, "exit"):
                m = e.state.mon or ()
                if there: c.check("inserted" not in m, key + ": kept", "a receiver that is there is not replaced, and keeps what it holds", e.where())
                c.check(m.count("pushed") == 1, key + ": delivered", "the message is put into the receiver, once: %d" % m.count("pushed"), e.where())
        if names is None: continue
        # what was captured
        s1 = scen(c, "captured", top, events=[r"command_scope$"]); mid = [g for g in lv if g is not f and g.name.count("{closure") == 1]
        outer = [agg_of(e.args[1]) for e in s1.ev(r"command_scope$")]
        if len(mid) != 1 or not outer or outer[0] is None: c.undecided(short(top) + ": captured", "structure"); continue
        s2 = scen(c, "command", mid[0], events=[r"Commands::queue$"]); q = [agg_of(e.args[1]) for e in s2.ev(r"Commands::queue$")]
        if not q or q[0] is None: c.undecided(short(top) + ": captured", "command"); continue
        s = scen(c, "arguments", f, stubs=[(r"World::get_entity_mut$", lambda it, st, fr, a, sym: okv(mk("p", "entity"))), (r"EntityWorldMut::get_mut$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "receiver"))))], events=[pushes])
        def back(v):
            k = env(v)
            if k is None or k >= len(q[0].args[2]): return None
            j = env(q[0].args[2][k])
            if j is None or j >= len(outer[0].args[2]): return None
            return strip(outer[0].args[2][j])
        for e in s.ev(pushes):
            for n, a in zip(names, e.args[1:]):
                b = back(a)
                c.tri(None if b is None and env(a) is not None else True if b is not None and b.op == "p" and str(b.args[0]) == n else False if b is not None and b.op == "p" or a.op == "agg" or isint(a) else None, "%s: %s" % (short(top), n), "a message put into a new receiver keeps its %s: %s" % (n, show(a)[:40]), e.where())


def known_to_manager(c, ty, field):
    """a component announces itself to the manager of its entity, once"""
    P = c.P; top = c.fn(ty + "on_add_hook"); lv = [f for f in P.fns.values() if f.name.startswith(ty + "on_add_hook::{closure") and f.names and any(n == "world" for n in f.names.values())]
    if len(lv) != 1: c.undecided(short(top), "the queued command was not found"); return
    f = lv[0]; key0 = short(top)
    s0 = scen(c, "hook", top, events=[r"Commands::queue$"]); s0.always(r"Commands::queue$", "an added component is announced to the manager")
    caps = [agg_of(e.args[1]) for e in s0.ev(r"Commands::queue$")]
    for listed in (None, False, True):
        el = [mk("&", mk("p", "entry"))] if listed is not None else []
        def nxt(it, st, fr, a, sym):
            v = strip(it.normarg(st, a[0])); t = show(v)
            if v.op == "agg" and v.args[0].startswith("models::"): return None
            if field not in t or re.search(r"Iterator::\w+\(", t): return None
            k = sum(1 for m in (st.mon or ()) if m == "it")
            if k >= len(el): return NONE
            st.mon = (st.mon or ()) + ("it",); return some(el[k])
        def eq(it, st, fr, a, sym):
            if not any(has(it.normarg(st, x), lambda y: y is mk("p", "entry")) for x in a[:2]): return None
            if not any(has_call(it.normarg(st, x), r"TypeId::of$") for x in a[:2]): return None
            r = bool(listed); return const(not r if it.cur_names[0].endswith("::ne") else r)
        def mon(it, st, kind, info):
            if kind == "call" and any(re.search(r"Vec::(push|insert)$", n) for n in info[0]): st.mon = (st.mon or ()) + ("push",)
        s = scen(c, "listed" if listed else "another listed" if listed is False else "nothing listed", f, stubs=[(r"Iterator::next$|::next$", nxt), (r"PartialEq(<.*>)?::(eq|ne)$|TypeId::eq$", eq)], events=[r"Vec::(push|insert)$", r"EntityWorldMut::get_mut$", r"World::entity_mut$|get_entity_mut$"], monitor=mon)
        key = "%s: %s" % (key0, s.key)
        for e in s.ev(None, "exit"):
            m = e.state.mon or ()
            if m.count("it") != len(el): c.undecided(key + ": list", "the list was not walked"); continue
            gone = any(k[0] == "d" and v == 0 and k[1].op == "call" and re.search(r"get_mut$", k[1].args[0]) for k, v in e.state.facts.items()) or any(k[0] == "d" and v == 1 and k[1].op == "call" and re.search(r"get_entity_mut$", k[1].args[0]) for k, v in e.state.facts.items())
            if gone: continue
            c.check(m.count("push") == (0 if listed else 1), key, "a component is listed with the manager once: %d" % m.count("push"), e.where())
        for e in s.ev(r"Vec::(push|insert)$"):
            c.tri(True if has_field(strip(e.args[0]), field) else False if plain(e.args[0]) or has_field(strip(e.args[0]), "receive_messages") or has_field(strip(e.args[0]), "send_messages") or has_field(strip(e.args[0]), "send_triggers") else None, key0 + ": list", "in the list of its kind", e.where())
            v = strip(e.args[-1])
            if v.op != "agg" or len(v.args[2]) != 2: c.undecided(key0 + ": entry", show(v)[:60]); continue
            c.tri(True if has_call(v.args[2][0], r"TypeId::of$") else None, key0 + ": type", "under its own type", e.where())
            k = env(v.args[2][1]); b = strip(caps[0].args[2][k]) if k is not None and caps and caps[0] is not None and k < len(caps[0].args[2]) else None
            c.tri(None if b is None else True if endswith(b, "component_id") else False, key0 + ": component", "with its own component", e.where())


def dim(a, b, s, e):
    """a equals b on every way here: True / False / None"""
    r = same(s.it, e, a, b)
    if r is not None: return r
    fa = lambda v: aggfield(v, "0") if v.op == "agg" else fld(v, "0")
    x, y = fa(strip(a)), fa(strip(b))
    if x is None or y is None: return None
    r = same(s.it, e, x, y)
    if r is not None: return r
    if all(z.op not in ("call", "phi", "hv", "?", "stale") or z.op == "call" and re.search(r"(saturating|wrapping|checked)_(add|sub)(_signed)?$", z.args[0]) for z in subvals(x)):
        return False if s.it.assume(e.state.copy(), ieq(sub(x, y), const(0)), False) else None
    return None


def exact_keys(c):
    for fn, tickof in ((TB + "push", lambda it: mk("f", par(it, "message"), "", "remote_tick")), (PE + "push", lambda it: par(it, "target_tick"))):
        s = scen(c, "exact key", fn, events=[r"ReadyBuffer::push$"])
        for e in s.ev(r"ReadyBuffer::push$"):
            t = tup(e.args[1], 0)
            c.tri(None if t is None else dim(t, tickof(s.it), s, e), short(s.f) + ": exact tick", "a message waits under exactly its own tick", e.where())
    for fn in (RC + "release_timeline_until", PE + "release_until"):
        s = scen(c, "exact bound", fn, events=[r"ReadyBuffer::(drain_until|pop_item|pop_until|drain|drain_after)$", r"Vec::(clear|drain|truncate|remove|pop|swap_remove|insert)$"], writes=True)
        for e in s.ev(r"ReadyBuffer::"):
            t = tup(strip(e.args[1]), 0) if len(e.args) > 1 else None
            c.tri(None if t is None else dim(t, par(s.it, "tick"), s, e), short(s.f) + ": exact bound", "the release goes up to exactly the tick given", e.where())
        bad = [e for e in s.ev(None, "write") if wfield(e) == "ready"] + [e for e in s.ev(r"Vec::(clear|drain|truncate|remove|pop|swap_remove|insert)$") if tablename(e.args[0]) == "ready"]
        c.check(not bad, short(s.f) + ": readable stay", "what is readable already stays in front of what is released", bad[0].where() if bad else s.f.file)
    s = scen(c, "every timeline", PL + "release_timeline", events=[])
    s.exhausts("every connection's every timeline is released", src=r"TimelineRegistry|timeline_registry|entities")
    # a timeline the link has none of does not hold back the others
    REG = r"TimelineRegistry"
    def none_(it, st, fr, a, sym): return NONE
    def log(it, st, kind, info):
        if kind == "call" and any(re.search(r"(get_by_id|get_ref_by_id)$", n) for n in info[0]): st.mon = tuple(st.mon or ()) + ("look",) if len(st.mon or ()) < 6 else st.mon
    T = [mk("p", "timeline %d" % i) for i in range(2)]
    def nxt(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0])); t = show(v)
        if v.op == "agg" and v.args[0].startswith("models::"): return None
        if "timeline_registry" in t:
            k = sum(1 for m in st.mon or () if m == "tl")
            if k >= 2: return NONE
            st.mon = tuple(st.mon or ()) + ("tl",); return some(mk("agg", "()", "", (mk("&", mk("p", "kind %d" % k)), mk("&", T[k]))))
        if "entities" in t and "receive" not in t:
            k = sum(1 for m in st.mon or () if m == "ent")
            if k >= 1: return NONE
            st.mon = tuple(st.mon or ()) + ("ent",); return some(mk("agg", "()", "", (mk("p", "manager"), mk("p", "link"))))
        return None
    s = scen(c, "link without timelines", PL + "release_timeline", events=[], stubs=[(r"::next$", nxt), (r"FilteredEntity(Mut|Ref)\w*::get_by_id$|get_by_id$", none_)], monitor=log)
    for e in s.ev(None, "exit"):
        m = e.state.mon or ()
        if m.count("ent") != 1: c.undecided("link without timelines", "walk"); continue
        c.check(m.count("tl") == 2, "release_timeline: each timeline", "a timeline the link has none of does not hold back the others: %d" % m.count("tl"), e.where())


def exact_queue(c):
    """what is queued is exactly what was given"""
    for fn, ps in ((MS + "send::MessageSender::send_with_priority", ("message", "priority")), (MS + "send_trigger::EventSender::trigger_with_priority", ("event", "priority"))):
        f = c.fn(fn)
        s = scen(c, "entry", f, events=[r"Vec::(push|insert)$"])
        for e in s.ev(r"Vec::push$"):
            v = strip(e.args[1])
            if v.op != "agg": c.undecided(short(f) + ": entry", show(v)[:50]); continue
            for n in ps:
                p = next((mk("p", f.names[i]) for i in range(1, f.argc + 1) if f.names.get(i) == n), None)
                if p is None: continue
                x = [y for y in v.args[2] if has(y, lambda z: z is p)]
                c.tri(True if any(strip(y) is p for y in x) else False, "%s: %s" % (short(f), n), "it is queued with exactly the %s given" % n, e.where())
        c.check(not s.ev(r"Vec::insert$"), short(f) + ": behind", "behind those queued earlier", f.file)
    for g in (MS + "send::MessageSender::send", MS + "multi::MultiMessageSender::send", MS + "send_trigger::EventSender::trigger", MS + "server::ServerMultiMessageSender::send", MS + "server::ServerMultiMessageSender::send_to_entities"):
        f = next((h for h in c.P.fns.values() if h.name == g), None)
        if f is None: continue
        s = scen(c, "neutral", f, events=[NEUTRAL], no_inline=[NEUTRAL])
        s.always(NEUTRAL, "it is queued")
        for e in s.ev(NEUTRAL):
            v = strip(e.args[-1]); t = str(v.args[-1]) if v.op == "c" else None
            c.tri(None if t is None else float(t.rstrip("f32").rstrip("_") or 0) == 1.0 if re.match(r"^-?[\d.]+", t) else None, short(f) + ": neutral", "without a priority of its own it is sent with a priority of one: %s" % t, e.where())


def local_timeline(c):
    """a message delivered locally waits for the timeline of its channel"""
    T = mk("p", "settings")
    for fn, d in ((SLN, r"dyncall::receive_local_message_fn$"), (SLT, r"dyncall::receive_local_trigger_fn$")):
        for bound_ in (True, False):
            def settings(it, st, fr, a, sym):
                k = strip(it.normarg(st, a[1])) if len(a) > 1 else None
                st.mon = tuple(st.mon or ()) + ((k,),) if len(st.mon or ()) < 4 else st.mon
                return some(mk("&", T))
            s = scen(c, "channel %s" % ("with timeline" if bound_ else "without timeline"), fn, events=[d], stubs=[(r"ChannelRegistry::settings$", settings)], assume=lambda it: [(deq(mk("f", T, "", "timeline"), 1 if bound_ else 0), True)])
            key = "%s: %s" % (short(s.f), s.key)
            for e in s.ev(d):
                who = [x for a in e.args for x in subvals(a) if x.op == "agg" and str(x.args[0]).endswith("::PeerId")]
                if fn is SLT or fn == SLT: c.tri(None if not who else all(x.args[1] == "Local" for x in who), key + ": sender", "a local event comes from the local peer", e.where())
                last = [a for a in e.args[-1:]][0]; v = strip(last); tl = mk("f", T, "", "timeline")
                mine = [a for a in e.args if strip(a) is tl or has(a, lambda y: y is tl)]
                if bound_: c.tri(True if mine or v.op == "agg" and v.args[1] == "Some" and has(v, lambda y: y is T) else False if v is NONE or v.op == "agg" and v.args[1] == "None" else None, key + ": waits", "it waits for the timeline of its channel: %s" % show(v)[:50], e.where())
                else: c.tri(True if mine or v is NONE or v.op == "agg" and v.args[1] == "None" else False if v.op == "agg" and v.args[1] == "Some" else None, key + ": at once", "it does not wait for a timeline: %s" % show(v)[:50], e.where())
                for (k,) in e.state.mon or ():
                    c.tri(None if k is None else own(k, "channel_kind"), key + ": channel", "the channel looked at is its own", e.where())


def cleanup_of(c):
    """the command of a disconnection is given the receivers of the messages and those of the events"""
    f = c.fn(PL + "handle_disconnection"); SRC = ("receive_metadata", "receive_trigger")
    def srcs(v): return {n for n in SRC if has_field(v, n)}
    def into(it, st, fr, a, sym):
        t = strip(it.normarg(st, a[0])); st.mon = tuple(st.mon or ()) + ((t, tuple(sorted(srcs(it.normarg(st, a[1]))))),) if len(st.mon or ()) < 8 else st.mon
        return mk("agg", "()", "", ())
    col = lambda it, st, fr, a, sym: mk("call", "collected", (it.normarg(st, a[0]),), sym)
    s = scen(c, "what is cleaned up", f, events=[r"Commands::queue$"], stubs=[(r"get_resource$", lambda it, st, fr, a, sym: some(mk("&", mk("p", "registry")))), (r"Iterator(<.*>)?::collect$", col), (r"Extend(<.*>)?::extend$|Vec::(extend|push|append)$", into)])
    for e in s.ev(r"Commands::queue$"):
        v = agg_of(e.args[1])
        if v is None: c.undecided("cleaned up: command", show(e.args[1])[:60]); continue
        got = set(); known_ = False
        for x in v.args[2]:
            x = strip(x); got |= srcs(x)
            if has_call(x, r"^collected$|Vec::(new|with_capacity)$") or x.op == "agg": known_ = True
            for t, ss in e.state.mon or ():
                if t is x: got |= set(ss); known_ = True
        opaque = any(x.op not in ("p", "f", "agg", "call", "&", "*", "c") for x in map(strip, v.args[2]))
        c.tri(True if got == set(SRC) else None if opaque or not known_ else False, "cleaned up: all of them", "the receivers of every message and the waiting events of every event type are removed: %s" % sorted(got), e.where())
