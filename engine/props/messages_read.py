"""reading a receiver: what the user is handed of what arrived"""
import re
from lib import *
from props import prop
from props.messages import *
from props.messages import MS, RC, PE, PL, I
from props.messages_more import agg_of, PART
from props.core import refuted
from props.connection import target

MR = MS + "receive::MessageReceiver::"
def paramval_(g): return mk("p", g.names[2] if 2 in g.names else "arg2")
def own_field(v, arg, k):
    """v is field k of the argument, by value or through a reference"""
    v = strip(v)
    if v.op != "f" or v.args[2] != k: return False
    b = v.args[0]
    while b.op in ("*", "&"): b = b.args[0]
    return b is arg
def from_arg(v, arg): return has(v, lambda x: x is arg)
def item_field(q, e, got, arg, k):
    if got is None: return None
    if own_field(got, arg, k): return True
    got = strip(got)
    return False if got.op in ("c", "lin", "agg") or (got.op == "f" and from_arg(got, arg)) or isint(got) else None
TAKE = r"Vec::drain$|mem::take$|mem::replace$|Vec::split_off$|Vec::append$"
CUT = r"Iterator::(rev|take|skip|step_by|take_while|skip_while|map_while|filter|filter_map)\(|(Rev|Take|Skip|StepBy|TakeWhile|SkipWhile|MapWhile|Filter|FilterMap)\("
def on_ready(v): return tablename(v) == "ready"
def full_range(r):
    """True / False / None: the range is the whole of it"""
    r = strip(r)
    if "RangeFull" in show(r): return True
    if r.op != "agg" or "Range" not in str(r.args[0]): return None
    if r.args[0].endswith("RangeFrom"): return ival(r.args[2][0]) == 0 if isint(r.args[2][0]) else False
    if r.args[0].endswith("::Range"):
        lo, hi = r.args[2]
        if isint(lo) and ival(lo) > 0: return False
        return True if isint(lo) and (has_call(hi, r"Vec::len$") or hi.op == "len") and hi.op != "op" else False
    return False
def closure_fn(P, v):
    a = agg_of(v)
    return P.fns.get(a.args[0][8:]) if a is not None and str(a.args[0]).startswith("closure:") else None

@prop("M06", floor=20, explain="""The functions with which a user reads a receiver are evaluated over MIR: what the returned iterator is made of (the whole of what is ready, taken out of it, first to last, each item's own
data), what a filter is called with and what its answer decides, and what is counted. The system clearing unread messages is analysed for which receivers it clears and with which functions.""")
def m06(c):
    P = c.P
    # taken out, whole, first to last
    for n, data in (("receive", True), ("receive_with_tick", False)):
        f = c.fn(MR + n); s = scen(c, n, f, events=[TAKE])
        for e in s.ev(None, "exit"):
            v = e.val; key = n
            src = [x for x in subvals(v) if x.op == "call" and re.search(TAKE, x.args[0]) and any(on_ready(a) for a in x.args[1])]
            plain_ = [x for x in subvals(v) if x.op == "call" and re.search(r"::(iter|iter_mut|clone|to_vec)$", x.args[0]) and any(on_ready(a) for a in x.args[1])]
            c.tri(True if src else False if plain_ and not s.ev(r"::clear$|" + TAKE) else None, key + ": taken", "what is read is taken out of the receiver", e.where())
            for x in src:
                if x.args[0].endswith("drain"): c.tri(full_range(x.args[1][1]), key + ": all", "all that arrived is read", e.where())
                elif x.args[0].endswith("split_off"): c.tri(ival(x.args[1][1]) == 0 if isint(x.args[1][1]) else None, key + ": all", "all that arrived is read", e.where())
            c.check(not re.search(CUT, show(v)), key + ": in order", "what arrived is read first to last, with nothing left out", e.where())
            cl = [g for g in (closure_fn(P, x) for x in subvals(v) if x.op == "agg" and "closure" in str(x.args[0])) if g]
            for g in cl:
                q = scen(c, n + " item", c.fn(g.name)); arg = paramval_(g)
                for x in q.ev(None, "exit"):
                    w = strip(x.val)
                    if data: c.tri(True if own_field(w, arg, "data") else False if w.op in ("c", "agg") else None, key + ": item", "a message is handed over as it arrived", x.where())
                    else:
                        want = ("data", "remote_tick", "channel_kind", "message_id")
                        if w is arg: c.ok(key + ": item")
                        elif w.op == "with" and strip(w.args[0]) is arg: c.bad(key + ": item", "a message is handed over as it arrived", x.where())
                        elif w.op == "agg":
                            for k in want: c.tri(item_field(q, x, aggfield(P, w, k), arg, k), key + ": item " + k, "a message is handed over with its own " + k, x.where())
        if not s.ev(None, "exit"): c.undecided(n, "no exit")
    # the filter decides
    for n, meta in (("retain_messages", False), ("retain_received_messages", True)):
        f = c.fn(MR + n); s = scen(c, n, f, events=[r"Vec::(retain|retain_mut|extract_if|drain|clear|truncate|swap_remove|remove|dedup\w*)$"])
        calls = s.ev(r"Vec::(retain|retain_mut)$")
        if not calls: c.undecided(n, "filtered in another way"); continue
        for e in s.ev(r"Vec::(drain|clear|truncate|swap_remove|remove|dedup\w*)$"):
            if on_ready(e.args[0]): c.bad(n + ": nothing else", "nothing is dropped but what the filter refuses", e.where())
        for e in calls:
            c.tri(on_ready(e.args[0]) or None, n + ": queue", "what is filtered is what is ready", e.where())
            g = closure_fn(P, e.args[1])
            if g is None: c.undecided(n + ": filter", show(e.args[1])[:60]); continue
            arg = paramval_(g); c.fn(g.name)
            for answer in (True, False):
                asked = []
                def keep_(it, st, fr, a, sym): asked.append([it.normarg(st, x) for x in a[1:]]); return const(answer)
                q = scen(c, "%s filter %s" % (n, answer), g, stubs=[(r"^dyn(call|closure)$|Fn(Mut|Once)?(<.*>)?::call\w*$", keep_)])
                if not asked: c.undecided(n + ": decides", "the filter was not found"); continue
                for x in q.ev(None, "exit"): c.tri((x.val is const(answer)) if isbool(x.val) else None, n + ": decides", "a message stays exactly when the filter says so", x.where())
                for d in asked:
                    vals = [strip(v) for v in d] + [strip(y) for v in d if strip(v).op == "agg" and strip(v).args[0] == "()" for y in strip(v).args[2]]
                    c.tri(True if [v for v in vals if own_field(v, arg, "data")] else None, n + ": data", "the filter sees the message itself", short(g))
                    for a in vals:
                        if a.op == "agg" and str(a.args[0]).endswith("MessageMetadata"):
                            for k in ("remote_tick", "channel_kind", "message_id"): c.tri(item_field(q, None, aggfield(P, a, k), arg, k), n + ": " + k, "the filter sees the message's own " + k, short(g))
    # counted
    for k in (0, 1, 2, 1000):
        st = [(r"Vec::(is_empty)$|slice::is_empty$", lambda it, st, fr, a, sym: const(k == 0) if on_ready(it.normarg(st, a[0])) else None), (r"Vec::len$|slice::len$", lambda it, st, fr, a, sym: I(k) if on_ready(it.normarg(st, a[0])) else None)]
        s = scen(c, "has %d" % k, MR + "has_messages", stubs=st)
        for e in s.ev(None, "exit"): c.tri((e.val is const(k > 0)) if isbool(e.val) else None, "has_messages: %d" % k, "whether anything is there to be read is told", e.where())
        s = scen(c, "num %d" % k, MR + "num_messages", stubs=st)
        for e in s.ev(None, "exit"): c.tri((ival(e.val) == k) if isint(e.val) else None, "num_messages: %d" % k, "how many are there to be read is told", e.where())
    # cleared when unread
    f = c.fn(PL + "clear"); D = r"dyncall::\w*fn$|dyncall$"
    s = scen(c, "clearing", f, events=[D, r"get_mut_by_id$", r"Query::(get|get_mut)$"])
    calls = [e for e in s.ev(D) if e.names]
    for e in calls:
        names = [x for x in e.names if x.startswith("dyncall::")]
        c.check("dyncall::message_clear_fn" in names, "clearing: function", "unread messages are cleared by the function that clears: %s" % names, e.where())
        NX = r"::next$|::next_back$"
        look = [x for a in e.args for x in subvals(a) if x.op == "call" and re.search(r"HashMap::(get|get_mut|index)$", x.args[0])]
        comp = [x for a in e.args for x in subvals(a) if x.op == "call" and x.args[0].endswith("get_mut_by_id")]
        for x in look: c.tri(None if tablename(x.args[1][0]) is None else tablename(x.args[1][0]) == "receive_metadata", "clearing: table", "the functions are those registered for messages", e.where())
        for x in look:
            for y in comp:
                a, b = origin(x.args[1][1], NX), origin(y.args[1][1], NX)
                c.tri(None if a is None or b is None else a is b, "clearing: receiver", "each receiver is cleared by the functions of its own type", e.where())
    every_receiver(c, f, D)
    if not calls: c.undecided("clearing", "no clearing call found")
def every_receiver(c, f, D):
    """two links, with two receivers and one: each is cleared once, on its own link, by its own functions"""
    p = lambda n: mk("p", n); tup = lambda *v: mk("agg", "()", "", tuple(v))
    held = {"m0": ("a", "b"), "m1": ("c",)}
    links = [tup(p("e0"), mk("&", p("m0"))), tup(p("e1"), mk("&", p("m1")))]
    items = {m: [mk("&", tup(p("kind " + k), p("comp " + k))) for k in ks] for m, ks in held.items()}
    def iters(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0])); t = show(v)
        if re.match(r"(links|receivers of \w+)$", t): return v
        m = re.search(r"\b(m\d)\.receive_messages$", t)
        if m: return p("receivers of " + m.group(1))
        if v.op in ("p", "call", "f") and re.search(r"manager_query|^" + (f.names.get(1) or "manager_query") + "$", t): return p("links")
        return None
    def nxt(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0])); t = show(v)
        if v.op == "agg" and v.args[0].startswith("models::"): return None
        if t == "links": q = links
        elif t.startswith("receivers of "): q = items[t[13:]]
        else: return None
        k = sum(1 for m in st.mon or () if m == ("next", t))
        if k >= len(q): return NONE
        st.mon = (st.mon or ()) + (("next", t),); return some(q[k])
    def mon(it, st, kind, info):
        if kind == "call" and any(re.search(D, n) for n in info[0]) and len(st.mon or ()) < 20:
            t = " ".join(show(it.normarg(st, a)) for a in info[1])
            st.mon = (st.mon or ()) + (("clear", tuple(sorted(set(re.findall(r"\be\d\b", t)))), tuple(sorted(set(re.findall(r"kind (\w)", t)))), tuple(sorted(set(re.findall(r"comp (\w)", t))))),)
    s = scen(c, "two links", f, stubs=[(r"Query(<.*>)?::(iter|iter_mut|into_iter)$|HashMap(<.*>)?::iter$|Vec(<.*>)?::iter$|\[T\]::iter$|IntoIterator(<.*>)?::into_iter$", iters), (r"Iterator::next$", nxt)], monitor=mon, events=[D])
    for e in s.ev(None, "exit"):
        log = e.state.mon or (); got = sorted(m[1:] for m in log if m[0] == "clear")
        want = [(("e0",), ("a",), ("a",)), (("e0",), ("b",), ("b",)), (("e1",), ("c",), ("c",))]
        full = all(len(x) == 1 for m in got for x in m)
        c.tri(True if got == want else False if full and any(m[0] == "next" for m in log) else None, "clearing: every receiver", "every receiver of every link is cleared, once, by its own functions: %s" % [(" ".join(a), " ".join(k)) for a, k, _ in got], e.where())
    if not s.ev(None, "exit"): c.undecided("clearing: every receiver", "no exit")

# ------------------------------------------------------------------------------------------------ M07
UT = "lightyear_utils::registry::"
def both_maps(c):
    """a type gets the next free number, once, and the two tables agree"""
    P = c.P; f = c.fn(UT + "TypeMapper::add"); INS = r"HashMap(<.*>)?::(insert|insert_unique_unchecked)$"
    for there in (True, False):
        s = scen(c, "there" if there else "new", f, writes=True, events=[INS, r"::entry$|::contains_key$|HashMap(<.*>)?::get$"], stubs=[(r"::contains_key$", lambda it, st, fr, a, sym: const(there)), (r"HashMap(<.*>)?::get$", lambda it, st, fr, a, sym: (some(mk("&", mk("p", "there"))) if there else NONE) if tablename(it.normarg(st, a[0])) == "kind_map" else None)])
        key = "numbering: " + s.key
        for e in s.ev(r"::entry$"):
            if not there and tablename(e.args[0]) == "id_map" and refuted(e.interp, strip(e.args[1]), [(path(e.interp, "self.next_net_id"), 1)], 16): c.bad(key + ": same number", "the number leads back to the type", e.where())
        if s.ev(r"::entry$"): c.undecided(key, "entry"); continue
        asked = [e for e in s.ev(r"::contains_key$|::get$") if e.kind == "call"]
        ins = [e for e in s.ev(INS) if e.kind == "call"]; ws = [e for e in s.ev(None, "write") if wfield(e) == "next_net_id"]
        if there:
            c.check(not ins and not ws, key + ": kept", "registering a type again changes nothing", s.f.file); continue
        if not asked: c.undecided(key, "not asked"); continue
        tabs = {tablename(e.args[0]): e for e in ins}
        c.check({"kind_map", "id_map"} <= set(tabs), key + ": both tables", "a type and its number are found from each other", s.f.file)
        n0 = lambda v: strip(v).op == "f" and strip(v).args[2] == "next_net_id"
        if "kind_map" in tabs:
            e = tabs["kind_map"]; v = strip(e.args[2])
            if v.op == "agg" and len(v.args[2]) == 2:
                c.tri(True if n0(v.args[2][0]) else False if strip(v.args[2][0]).op in ("lin", "c") else None, key + ": number", "a new type gets the next free number", e.where())
                c.tri(True if has_call(v.args[2][1], r"type_name") else None, key + ": name", "a type is known by its own name", e.where())
        if "id_map" in tabs and "kind_map" in tabs:
            e, k = tabs["id_map"], tabs["kind_map"]
            c.tri(True if n0(e.args[1]) else False if strip(e.args[1]).op in ("lin", "c") else None, key + ": same number", "the number leads back to the type", e.where())
            c.tri(True if strip(e.args[2]) is strip(k.args[1]) else None, key + ": same type", "the number leads back to the type", e.where())
        if s.ev(None, "exit"): c.check(bool(ws), key + ": next", "no number is given twice", s.f.file)
        for e in ws:
            l = e.val; base = path(e.interp, "self.next_net_id")
            c.tri(decide(e.interp, e, ieq(l, add(base, I(1))), True) or (False if refuted(e.interp, l, [(base, 1), (I(1), 1)], 16) else None), key + ": next", "no number is given twice or left out", e.where())
    for n, tab, arg in (("kind", "id_map", "net_id"), ("net_id", "kind_map", "kind"), ("name", "kind_map", "kind")):
        s = scen(c, n, UT + "TypeMapper::" + n, events=[r"HashMap(<.*>)?::get$"])
        for e in s.ev(r"HashMap(<.*>)?::get$"):
            c.tri(tablename(e.args[0]) == tab if tablename(e.args[0]) else None, "lookup: " + n, "what is looked up is read from its own table", e.where())
            k = strip(e.args[1])
            while k.op in ("*", "&"): k = k.args[0]
            a_ = mk("p", s.f.names.get(2, arg))
            c.tri(True if k is a_ else False if k.op in ("c", "lin") or n == "kind" and refuted(e.interp, k, [(a_, 1)], 16) else None, "lookup: %s: key" % n, "what is looked up is asked for by its own key", e.where())
        for e in s.ev(None, "exit"):
            v = e.val
            if v.op == "agg" and v.args[1] == "Some":
                i = {"net_id": 0, "name": 1}.get(n)
                m = re.search(r"Some\.0\.(\d)$", show(strip(v.args[2][0])).lstrip("*&"))
                if i is not None: c.tri(int(m.group(1)) == i if m else None, "lookup: %s: what" % n, "what is looked up is returned", e.where())

def hashed(c):
    """the types registered, in their order, make up the hash of the protocol, which is final once asked for"""
    f = c.fn(UT + "RegistryHasher::hash"); S = mk("f", mk("*", mk("p", "self")), "", "hash"); P = c.P
    for done in (True, False):
        s = scen(c, "finished" if done else "open", f, assume=lambda it: [(deq(path(it, "self.hash"), 1 if done else 0), True)], events=[r"Hash::hash\w*$|Hasher::write\w*$", r"type_name$|TypeId::of$"])
        if done: c.check(not s.ev(None, "exit"), "hash: finished", "a type registered after the protocol is final is refused", f.file)
        else:
            hs = s.ev(r"Hash::hash\w*$|Hasher::write\w*$")
            c.check(bool(hs), "hash: counted", "every type registered counts into the hash", f.file)
            for e in hs:
                t = show(e.args[0]) + show(e.args[-1])
                c.tri(True if "type_name" in t else None, "hash: by name", "a type counts by its name", e.where())
    f = c.fn(UT + "RegistryHasher::finish")
    for done in (True, False):
        s = scen(c, "asked again" if done else "asked first", f, assume=lambda it: [(deq(path(it, "self.hash"), 1 if done else 0), True)], writes=True)
        for e in s.ev(None, "exit"):
            v = strip(e.val)
            if done: c.tri(True if v.op == "f" and "hash" in show(v) and not has_call(v, r"finish$") else False if has_call(v, r"finish$") or v.op == "c" else None, "finish: again", "the hash stays what it was", e.where())
            else:
                c.tri(True if v.op == "call" and v.args[0].endswith("finish") else False if v.op in ("c", "lin") else None, "finish: first", "the hash is that of all the types", e.where())
                w = post(e, path(s.it, "self.hash"))
                c.tri(True if w.op == "agg" and w.args[1] == "Some" and strip(w.args[2][0]) is v else False if w is path(s.it, "self.hash") or w is NONE else None, "finish: kept", "the hash is kept", e.where())

def channel_added(c):
    f = c.fn("lightyear_transport::channel::registry::ChannelRegistry::add_channel_with_timeline")
    H, INS, ADD = r"RegistryHasher::hash$", r"HashMap(<.*>)?::insert$", r"TypeMapper::add$"
    for there in (True, False):
        # asked before it is registered, and again after
        def get(it, st, fr, a, sym):
            if tablename(it.normarg(st, a[0])) not in ("kind_map",): return None
            return some(mk("&", mk("p", "entry"))) if there or "added" in (st.mon or ()) else NONE
        def mon(it, st, kind, info):
            if kind != "call": return
            ta = [re.sub(r".*::", "", str(x)) for x in (it.cur_ta or ())]
            for pat, tag in ((H, "hash " + (ta[-1] if ta else "?")), (ADD, "added")):
                if any(re.search(pat, n) for n in info[0]) and len(st.mon or ()) < 8: st.mon = (st.mon or ()) + (tag,)
        s = scen(c, "there" if there else "new", f, stubs=[(r"HashMap(<.*>)?::get$", get), (r"::contains_key$", lambda it, st, fr, a, sym: const(there))], events=[H, INS, ADD, r"timeline_kind$"], monitor=mon, no_inline=(ADD, H))
        key = "channel: " + s.key
        ins = [e for e in s.ev(INS) if tablename(e.args[0]) == "settings_map"]
        if there: c.check(not ins and not s.ev(H) and not s.ev(ADD), key + ": kept", "a channel registered again keeps its settings and its number, and counts once", f.file); continue
        c.check(bool(ins), key + ": settings", "a new channel gets its settings", f.file)
        for e in ins:
            v = strip(e.args[2]); arg = mk("p", f.names.get(2, "settings"))
            c.tri(True if has(v, lambda x: x is arg) else None if v.op not in ("c", "agg") else False, key + ": its settings", "a new channel gets the settings it is registered with", e.where())
            tl = aggfield(c.P, v, "timeline") if v.op == "agg" else next((x for q, x in v.args[1] if q[-1] == "timeline" or "timeline" in q), None) if v.op == "with" else None
            c.tri(None if v.op not in ("agg", "with") and v is not arg else True if tl is not None and has_call(tl, r"timeline_kind$") else False, key + ": timeline", "a channel bound to a timeline has it among its settings", e.where())
            c.tri(True if "ty(C)" in show(e.args[1]) or has_call(e.args[1], r"TypeMapper::add$") else None, key + ": its own", "settings are kept under the channel's own type", e.where())
        for e in s.ev(None, "exit"):
            m = e.state.mon or (); hs = [x[5:] for x in m if x.startswith("hash")]
            c.tri(True if sorted(hs) == ["C", "T"] else False if "?" not in hs and not [x for x in hs if x not in ("C", "T")] else None, key + ": hashed", "a channel and its timeline count into the hash of the protocol: %s" % hs, e.where())
            c.check("added" in m, key + ": numbered", "a new channel gets a number", e.where())

def directions(c):
    """who can send what is registered for a direction"""
    P = c.P; adt = "lightyear_connection::direction::NetworkDirection"
    V = {n: variant(P, adt, n) for n in ("ClientToServer", "ServerToClient", "Bidirectional")}
    REQ, OBS, REC = r"register_required_components\w*$", r"::add_observer$", r"::add_(client|server)_direction$"
    for ty, mod in (("MessageRegistration", "lightyear_messages::registry::"), ("TriggerRegistration", "lightyear_messages::trigger::"), ("ChannelRegistration", "lightyear_transport::channel::registry::")):
        snd = {"MessageRegistration": "MessageSender<M>", "TriggerRegistration": "EventSender<M>"}.get(ty)
        for side, mark, sends in (("client", "Client", "ClientToServer"), ("server", "ClientOf", "ServerToClient")):
            f = c.fn("%s%s::add_%s_direction" % (mod, ty, side)); got = {}
            for n in V:
                s = scen(c, n, f, assume=lambda it: [(deq(mk("p", f.names[2]), V[n]), True)], events=[REQ, OBS, REC], no_inline=(REC,))
                here = set(); rec = set(); odd = False
                for e in s.ev(REQ + "|" + OBS):
                    t = " ".join(str(x) for x in e.ta or ())
                    if snd:
                        if re.search(r"\b%s(?![\w])" % mark, t.split(" ")[0]) and re.search(r"::%s" % re.escape(snd), t): here.add("send")
                        else: here.add("other " + t[-60:])
                    else:
                        fs = [P.fns.get(x) or next((g for g in P.fns.values() if g.name == x), None) for x in re.findall(r"fn:([\w:]+)", t)]
                        for g in fs:
                            if g is None: odd = True; continue
                            b = scen(c, "channel", c.fn(g.name), events=[r"Transport::add_\w+_from_registry$"])
                            kinds = {("send" if re.search(r"send", x.names[0]) else "receive") for x in b.ev(r"Transport::add_\w+_from_registry$")}
                            sig = " ".join(t if isinstance(t, str) else g.ty(t) for t in (g.ltys[i] for i in range(1, g.argc + 1)))
                            who = {m for m in ("Client", "ClientOf", "LinkOf", "Server") if re.search(r"\b%s\b(?!::)" % m, sig)}
                            c.tri(True if who == {mark} else False if who and mark not in who else None, "direction: %s %s: whose" % (ty, side), "a channel is added to the links of that side: %s" % sorted(who), where_(g))
                            for x in b.ev(r"Transport::add_\w+_from_registry$"):
                                q = [y for y in subvals(x.args[0]) if y.op == "call" and re.search(r"Query(<.*>)?::(get|get_mut|get_unchecked|single_mut|iter_mut|get_inner)$", y.args[0])]
                                for y in q: c.tri(target(y.args[1][1]) if len(y.args[1]) > 1 else False, "direction: %s %s: entity" % (ty, side), "a channel is added to the link the event is about", x.where())
                                ta = [str(y) for y in x.ta or ()]
                                c.tri(True if "C" in ta else None, "direction: %s %s: channel" % (ty, side), "the channel added is the one registered", x.where())
                            here |= kinds
                        if not fs: odd = True
                for e in s.ev(REC):
                    d = e.args[1]; k = next((m for m in V if d.op == "agg" and d.args[1] == m), None)
                    if k is None: odd = True
                    else: rec.add(k)
                got[n] = (here, rec, odd)
            def closure(n, seen=()):
                h, r, o = got[n]
                for k in r:
                    if k not in seen + (n,): hh, oo = closure(k, seen + (n,)); h, o = h | hh, o or oo
                return set(h), o
            other = "ServerToClient" if sends == "ClientToServer" else "ClientToServer"
            want = {sends: {"send"}, other: set() if snd else {"receive"}, "Bidirectional": {"send"} if snd else {"send", "receive"}}
            for n in V:
                h, odd = closure(n)
                c.tri(None if odd else h == want[n], "direction: %s %s: %s" % (ty, side, n), "what is registered for a direction can be sent by the sending side, and only there: %s" % sorted(h), where_(f))
        f = c.fn("%s%s::add_direction" % (mod, ty))
        for n in V:
            def mon(it, st, kind, info):
                if kind == "call":
                    m = next((re.search(REC, x) for x in info[0] if re.search(REC, x)), None)
                    if m and len(st.mon or ()) < 6: st.mon = (st.mon or ()) + ((m.group(1), it.normarg(st, info[1][1])),)
            s = scen(c, "both sides %s" % n, f, assume=lambda it: [(deq(mk("p", f.names[2]), V[n]), True)], events=[REC], no_inline=(REC,), monitor=mon)
            for e in s.ev(None, "exit"):
                log = e.state.mon or ()
                for side in ("client", "server"):
                    ds = [d for m, d in log if m == side]; known_ = [m for d in ds for m in ([n] if strip(d) is mk("p", f.names[2]) else [d.args[1]] if d.op == "agg" else [])]
                    told = set(known_) | ({"ClientToServer", "ServerToClient"} if "Bidirectional" in known_ else set()) | ({"Bidirectional"} if {"ClientToServer", "ServerToClient"} <= set(known_) else set())
                    want = {n} if n != "Bidirectional" else {"ClientToServer", "ServerToClient", "Bidirectional"}
                    c.tri(None if len(known_) < len(ds) or not log else told == want, "direction: %s: %s: %s" % (ty, side, n), "a direction is made known to both sides: %s" % sorted(told), e.where())
def where_(f): return "%s (%s)" % (f.file, f.name)

@prop("M07", floor=45, explain="""The registration functions are evaluated over MIR: which tables are written under which key and number for a type that is new and for one that is there, what counts into the hash, and, for
each direction, what each side of messages, events and channels is made able to send and receive (required components and observers, through the observers' own bodies).""")
def m07(c):
    both_maps(c); hashed(c); channel_added(c); directions(c)

# ------------------------------------------------------------------------------------------------ M08
DYN, MAPE = r"^dyn(call|closure)$|Fn(Mut|Once)?(<.*>)?::call\w*$", r"::map_entities$"
def bare_(it, st, v):
    v = it.normarg(st, v)
    while v.op in ("&", "*"): v = it.normarg(st, v.args[0]) if v.op == "&" else v.args[0]
    return v
def translated(c, f, writes, maps, key):
    """what the function writes (or reads) and translates, in order"""
    P = c.P; c.fn(f.name)
    for fails in (False, True):
        def log(st, x): st.mon = (st.mon or ()) + (x,) if len(st.mon or ()) < 8 else st.mon
        def clone(it, st, fr, a, sym): return mk("p", "copy") if bare_(it, st, a[0]) is mk("p", f.names.get(2, "message")) else None
        def mapped(it, st, fr, a, sym): log(st, ("map", bare_(it, st, a[0]), bare_(it, st, a[1]))); return UNIT
        def fn_(it, st, fr, a, sym):
            vs = [bare_(it, st, x) for x in a[1:]]; vs = list(vs[0].args[2]) if len(vs) == 1 and vs[0].op == "agg" and vs[0].args[0] == "()" else vs
            log(st, ("do", vs[0] if vs else None, bare_(it, st, a[0])))
            return errv(mk("p", "failure")) if fails else okv(UNIT if writes else mk("p", "read"))
        s = scen(c, "fails" if fails else "works", f, stubs=[(r"Clone(<.*>)?::clone$", clone), (MAPE, mapped), (DYN, fn_)])
        for e in s.ev(None, "exit"):
            m = e.state.mon or (); did = [x for x in m if x[0] == "do"]; mp = [x for x in m if x[0] == "map"]
            if len(did) != 1: c.tri(False if len(did) > 1 else None, key + ": once", "it is %s exactly once" % ("written" if writes else "read"), e.where()); continue
            thing = mk("p", "copy") if writes else mk("p", "read"); own_ = mk("p", f.names.get(2, "message"))
            if fails:
                c.tri(must_err(e), key + ": reported", "a failure is reported", e.where()); continue
            c.tri(must_ok(e), key + ": done", "a success is reported", e.where())
            if not writes and e.val.op == "agg" and e.val.args[2]: c.tri(True if strip(e.val.args[2][0]) is thing else None, key + ": returned", "what was read is returned", e.where())
            if maps:
                order_ = [x[0] for x in m]
                c.check(len(mp) == 1, key + ": translated", "its entities are translated once: %s" % order_, e.where())
                if len(mp) == 1:
                    c.check(order_ == (["map", "do"] if writes else ["do", "map"]), key + ": when", "its entities are translated %s: %s" % ("before it is written" if writes else "after it is read", order_), e.where())
                    c.tri(True if mp[0][1] is thing else False if mp[0][1] is own_ else None, key + ": what", "the entities translated are those of %s" % ("the copy" if writes else "what was read"), e.where())
                    c.tri(True if mp[0][2] is mk("p", f.names.get(1, "mapper")) else None, key + ": mapping", "entities are translated by the mapping of the link", e.where())
                if writes: c.tri(True if did[0][1] is thing else False if did[0][1] is own_ else None, key + ": copy", "what is written is the translated copy", e.where())
            else:
                c.check(not mp, key + ": as it is", "what carries no entities is not translated", e.where())
                if writes: c.tri(True if did[0][1] is own_ else None, key + ": itself", "what is written is the message", e.where())
        if not s.ev(None, "exit"): c.undecided(key, "no exit")

def fnval(P, v):
    """the function a function value names"""
    for x in [v] + list(subvals(v)):
        for a in x.args:
            if isinstance(a, str):
                g = P.fns.get(a) or next((h for h in P.fns.values() if h.name == a), None)
                if g is not None: return g
    m = re.search(r"fn ([\w:]+)", show(v))
    if m: return next((h for h in P.fns.values() if h.name.endswith("::" + m.group(1)) and h.crate == "lightyear_messages"), None)
    return None

@prop("M08", floor=40, explain="""The functions a message or event type is registered with are followed from the registration: which components' ids and which functions are stored under which table and key, and, over MIR, in
which order and on what value the stored functions translate entities and write or read, when the inner function succeeds and when it fails.""")
def m08(c):
    P = c.P; A = r"MessageRegistry::add_map_entities$"
    for ty, mod in (("MessageRegistration", "lightyear_messages::registry::"), ("TriggerRegistration", "lightyear_messages::trigger::")):
        f = c.fn("%s%s::add_map_entities" % (mod, ty)); s = scen(c, "entities", f, events=[A], no_inline=(A,)); key = ty
        es = s.ev(A)
        c.tri(True if es else None, key + ": entities", "a type that carries entities is known to", f.file)
        for e in es:
            for i, w in ((1, True), (2, False)):
                g = fnval(P, e.args[i])
                if g is None: c.undecided(key + ": function", show(e.args[i])[:60]); continue
                translated(c, g, w, True, "%s: %s" % (key, "writing" if w else "reading"))
    f = c.fn("lightyear_messages::registry::MessageRegistry::add_map_entities")
    s = scen(c, "stored", f, writes=True, events=[r"ErasedSerializeFns::add_map_entities$", r"HashMap(<.*>)?::get_mut$"], no_inline=(r"ErasedSerializeFns::add_map_entities$",))
    ws = {wfield(e): e for e in s.ev(None, "write")}
    for i, k in ((2, "context_serialize"), (3, "context_deserialize")):
        if k in ws: c.tri(True if uncast(strip(ws[k].val)) is mk("p", f.names.get(i, k)) else False if any(x is mk("p", f.names.get(5 - i)) for x in subvals(ws[k].val)) else None, "stored: " + k, "the function given is the one used", ws[k].where())
        else: c.tri(False if ws else None, "stored: " + k, "the function given is the one used", f.file)
    c.tri(True if s.ev(r"ErasedSerializeFns::add_map_entities$") or "map_entities" in ws else False, "stored: known", "the type is known to carry entities", f.file)
    for e in s.ev(r"HashMap(<.*>)?::get_mut$"): c.tri(True if re.search(r"ty\(I\)", show(e.args[1])) else None, "stored: own", "the functions are those of the type", e.where())
    # events without entities
    F = "lightyear_messages::trigger::"; f = c.fn("<bevy_app::app::App as lightyear_messages::trigger::AppTriggerExt>::register_event_custom_serde")
    REG, INS, MSGREG = r"World::register_component$", r"HashMap(<.*>)?::insert$", r"MessageRegistry::register_(message|sender|receiver)$"
    def comp(it, st, fr, a, sym): return mk("p", "id of " + re.sub(r"[\w]+::", "", str((it.cur_ta or ["?"])[0])))
    for f, want in ((f, {"send_trigger_metadata": "EventSender<M>", "receive_trigger": "PendingTimelineEvents<M>"}), (c.fn("<bevy_app::app::App as lightyear_messages::registry::AppMessageExt>::register_message_custom_serde"), {"register_sender": "MessageSender<M>", "register_receiver": "MessageReceiver<M>"})):
        s = scen(c, "registered", f, stubs=[(REG, comp)], events=[INS, MSGREG], no_inline=(MSGREG,)); done = set(); key = short(f)
        for e in s.ev(INS + "|" + MSGREG):
            nm = e.names[0].split("::")[-1]; t = nm if nm != "insert" else tablename(e.args[0])
            if nm == "insert" and t in ("send_metadata", "receive_metadata"): t = {"send_metadata": "register_sender", "receive_metadata": "register_receiver"}[t]
            if nm == "register_message":
                for i, w in ((1, True), (2, False)):
                    x = strip(e.args[i])
                    fv = P.fns and next((g for g in (fnval(P, y) for y in (x.args[2] if x.op == "agg" else ())) if g), None)
                    if fv is not None: translated(c, fv, w, False, "%s: %s" % (key, "writing" if w else "reading"))
                    c.tri(True if has_field(x, "serialize" if w else "deserialize") else None, key + ": given " + ("write" if w else "read"), "the functions given are those registered", e.where())
                done.add("register_message"); continue
            if t not in want: continue
            done.add(t)
            v = e.args[2] if nm == "insert" else e.args[1]
            ids = {x.args[0] for x in subvals(v) if x.op == "p" and str(x.args[0]).startswith("id of ")} | ({v.args[0]} if v.op == "p" else set())
            c.tri(ids == {"id of " + want[t]} if ids else None, "%s: %s" % (key, t), "the component is that of the type: %s" % sorted(ids), e.where())
            if nm == "insert": c.tri(True if "ty(M)" in show(e.args[1]) else None, "%s: %s: own" % (key, t), "it is registered under its own type", e.where())
        for t in list(want) + ["register_message"]: c.tri(True if t in done else False if done else None, "%s: %s: done" % (key, t), "a type registered can be sent and received", f.file)
    for n, tab in (("register_sender", "send_metadata"), ("register_receiver", "receive_metadata")):
        f = c.fn("lightyear_messages::registry::MessageRegistry::" + n); s = scen(c, n, f, events=[INS])
        es = [e for e in s.ev(INS)]
        c.tri(True if any(tablename(e.args[0]) == tab for e in es) else None if not es else False, n + ": table", "a type is registered in the table of its kind", f.file)
        for e in es:
            v = strip(e.args[2]); k = aggfield(P, v, "component_id") if v.op == "agg" else None
            c.tri(None if k is None else True if strip(k) is mk("p", f.names.get(2, "component_id")) else None, n + ": component", "the component is the one given", e.where())
            c.tri(True if "ty(M)" in show(e.args[1]) else None, n + ": own", "it is registered under its own type", e.where())
