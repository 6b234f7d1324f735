"""transport channels: modes, unreliable sending, fragments, compression, reset."""
from lib import *
from props import prop
from props.transport import TR, I, CR, RST, step1, keyadt

CS = TR + "channel::send::"
CSN = CS + "ChannelSend::"
US = CS + "UnreliableSendState::"
CM = TR + "channel::builder::ChannelMode"
SS = CS + "SendState"
MD = TR + "packet::message::MessageData"
#            mode                          reliable acks  ids    receiver
MODES = {"UnorderedUnreliableWithAcks": (False, True, True, "UnreliableUnordered"), "UnorderedUnreliable": (False, False, False, "UnreliableUnordered"),
         "SequencedUnreliable": (False, False, True, "UnreliableSequenced"), "UnorderedReliable": (True, True, True, "ReliableUnordered"),
         "SequencedReliable": (True, True, True, "ReliableSequenced"), "OrderedReliable": (True, True, True, "ReliableOrdered")}

def uniq(xs):
    out = []
    for x in xs:
        if not any(x is y for y in out): out.append(x)
    return out

def initial(P, s, field, want=("c",)):
    """the values of a field of the constructed sender over all exits"""
    return uniq([aggfield(P, e.val, field) for e in s.ev(None, "exit")])
def facts_of(P, place, v, depth=3):
    """assumptions saying that `place` is shaped like the constructed value v (constants, enum variants)"""
    out = []
    if v is None: return out
    if v.op == "with": return facts_of(P, place, v.args[0], depth)
    if v.op != "agg": 
        if isbool(v): out.append((place, bval(v)))
        elif isint(v): out.append((ieq(place, v), True))
        return out
    a = P.adts.get(v.args[0]) or {"core::option::Option": {"enum": True, "vars": [["None", 0, []], ["Some", 1, [["0"]]]]}}.get(v.args[0])
    if not a or depth == 0: return out
    if a["enum"]: out.append((deq(place, next(d for n, d, _ in a["vars"] if n == v.args[1])), True))
    for n, d, fs in a["vars"]:
        if n == v.args[1] or not a["enum"]:
            for f, x in zip(fs, v.args[2]): out += facts_of(P, mk("f", place, v.args[1] if a["enum"] else "", f[0]), x, depth - 1)
    return out
SHAPES = ("delivery", "fragment_acks", "state")
def constructed(c, m):
    """the send state built for a mode, as assumptions about self.state"""
    P = c.P
    s = scen(c, m, CSN + "new", assume=lambda it: [(deq(fld(par(it, "settings"), "mode"), variant(P, CM, m)), True)])
    st = initial(P, s, "state")
    return s, st

# ------------------------------------------------------------------------------------------------ T07
@prop("T07", floor=60, explain="""Per channel mode, the sending and receiving halves are constructed symbolically; the state they start in is then assumed for the functions that buffer, track and expire messages, and
the two halves are compared: identifiers, acknowledgement tracking, resending, expiry.""")
def t07(c):
    P = c.P
    W = CSN + "watches_acks"
    for m, (rel, acks, ids, recv) in MODES.items():
        s, sts = constructed(c, m)
        kinds = {v.args[1] for v in sts if v.op == "agg"}
        c.check(kinds == {"Reliable" if rel else "Unreliable"}, m + ": sender", "the sender of a %s channel is %s" % (m, "reliable" if rel else "unreliable"), s.f.file)
        s.exits(lambda e: same(s.it, e, aggfield(P, e.val, "mode"), fld(par(s.it, "settings"), "mode")) if aggfield(P, e.val, "mode") is not None else None, "the mode is the configured one", tag="mode")
        s.exits(lambda e: endswith(aggfield(P, aggfield(P, e.val, "fragmenter"), "fragment_size"), "fragment_size") or aggfield(P, aggfield(P, e.val, "fragmenter"), "fragment_size") is mk("p", "fragment_size"), "messages are cut at the configured fragment size", tag="fragment size")
        for v in sts:
            if rel:
                x = aggfield(P, v.args[2][0], "settings") if v.op == "agg" else None
                c.check(x is not None and (has_field(x, "mode") or x.op == "phi"), m + ": resend settings", "the resend settings are the configured ones", s.f.file)
            else:
                x = aggfield(P, v.args[2][0], "retry_unsent_messages")
                c.check(endswith(x, "retry_unsent_messages"), m + ": retry setting", "the retry setting is the configured one", s.f.file)
                fa = aggfield(P, v.args[2][0], "fragment_acks")
                if acks: c.tri(fa.args[1] == "Some" if fa.op == "agg" else None, m + ": fragment acks", "an acknowledged channel tracks the acknowledgements of fragments", s.f.file)
        base = lambda it: [x for v in sts[:1] for x in facts_of(P, path(it, "self.state"), v)]
        w = scen(c, m, W, assume=base)
        w.exits(lambda e: same(w.it, e, e.val, const(acks)), "acknowledgements are watched exactly by reliable and acknowledged channels (%s)" % m, tag="watched")
        if not rel:
            for big in (False, True):
                L = lambda it: (mk("len", par(it, "message")), path(it, "self.fragmenter.fragment_size"))
                b = scen(c, m + (" fragmented" if big else " single"), CSN + "buffer_send_with_scratch", assume=base, events=[r"::push_back$|models::push_into$|::push$", r"build_fragments_for_message$", r"add_new_fragment_to_wait_for$"], writes=True,
                         no_inline=[r"FragmentSender::", r"FragmentAckReceiver::"])
                cmp_ = lambda e: [v for k, v in e.state.facts.items() if k[0] == "i" and len(k[1]) == 2 and any(endswith(x, "fragment_size") for x, _ in k[1])]
                isbig = lambda e: any((f[0] > 0 if next(q for x, q in k[1] if not endswith(x, "fragment_size")) > 0 else f[1] < 0) for k, f in e.state.facts.items() if k[0] == "i" and len(k[1]) == 2 and any(endswith(x, "fragment_size") for x, _ in k[1]))
                es = [e for e in b.ev(r"push") if isbig(e) == big and not (e.args[1].op == "agg" and "Message" not in e.args[1].args[0])]
                if not es: c.undecided(m + " buffering", "no buffering event (%s)" % big); continue
                nid = mk("f", mk("f", path(b.it, "self.state"), "Unreliable", "0"), "", "next_message_id")
                for e in es:
                    q = argfields(e, 0)[-1:]
                    sm = [x for x in subvals(e.args[1]) if x.op == "agg" and x.args[0] == MD]
                    if not sm: c.undecided(m + " content", show(e.args[1])); continue
                    d = sm[0]
                    if not big:
                        c.check(d.args[1] == "Single" and q == ["singles"], m + ": small whole", "a message that fits is sent whole", e.where())
                        i = aggfield(P, d.args[2][0], "id"); by = aggfield(P, d.args[2][0], "bytes")
                        t = (i.op == "agg" and i.args[1] == "Some") if i.op == "agg" else None
                        if ids: c.tri(t and same(b.it, e, i.args[2][0], nid) if t else t, m + ": id", "a message of a %s channel carries a fresh identifier" % m, e.where())
                        else: c.tri(None if t is None else True, m + ": id", "identifier known", e.where())
                        c.check(by is mk("p", "message"), m + ": whole payload", "the message is sent unchanged", e.where())
                    else: c.check(d.args[1] == "Fragment" and q == ["fragments"], m + ": big cut", "a message that does not fit is sent in fragments", e.where())
                    pr = [x for x in subvals(e.args[1]) if x.op == "agg" and x.args[0].endswith("::SendMessage")]
                    c.check(bool(pr) and aggfield(P, pr[0], "priority") is mk("p", "priority"), m + ": priority", "with the priority it was given", e.where())
                    pn = [x for x in subvals(e.args[1]) if x.op == "agg" and x.args[0].endswith("PendingSendMessage")]
                    c.check(bool(pn) and aggfield(P, pn[0], "committed") is FALSE and aggfield(P, pn[0], "fragment_started") is FALSE, m + ": fresh", "and as not sent yet", e.where())
                if big:
                    for e in b.ev(r"build_fragments_for_message$"):
                        c.tri(same(b.it, e, e.args[1], nid), m + ": fragment id", "the fragments carry the fresh identifier", e.where())
                    if acks:
                        ws = b.ev(r"add_new_fragment_to_wait_for$")
                        c.check(bool(ws), m + ": fragments awaited", "the fragments of an acknowledged message are awaited", b.f.file)
                        for e in ws:
                            c.tri(same(b.it, e, e.args[1], nid), m + ": awaited id", "under its identifier", e.where())
                            c.check(has(e.args[2], lambda x: x.op == "call" and "build_fragments" in x.args[0]) and e.args[2].op in ("len", "call"), m + ": awaited count", "as many as there are", e.where())
            b = scen(c, m + " ids", CSN + "buffer_send_with_scratch", assume=base, no_inline=[r"FragmentSender::", r"FragmentAckReceiver::"])
            nid = mk("f", mk("f", path(b.it, "self.state"), "Unreliable", "0"), "", "next_message_id")
            b.exits(lambda e: (step1(b.it, e, nid) if e.val.op == "agg" and e.val.args[1] == "Some" and same(b.it, e, e.val.args[2][0], nid) else (e.val is NONE or None if e.val.op == "agg" else None)), "an identifier is used once and reported to the caller", tag="id once")
            b.exits(lambda e: (e.val is not NONE) if ids else True, "a %s message has an identifier" % m if ids else "optional", tag="reported")
        # the receiving half
        r = scen(c, m, CR + "new", assume=lambda it: [(deq(fld(par(it, "settings"), "mode"), variant(P, CM, m)), True)])
        rs = initial(P, r, "state")
        c.check({v.args[1] for v in rs if v.op == "agg"} == {recv}, m + ": receiver", "the receiver of a %s channel delivers accordingly" % m, r.f.file)
        r.exits(lambda e: aggfield(P, e.val, "channel_kind") is mk("p", "channel_kind"), "the receiver belongs to its channel", tag="kind")
        # expiry of partial messages
        u = scen(c, m, CR + "update", assume=lambda it: [(deq(path(it, "self.state"), variant(P, RST, recv)), True)], events=[r"FragmentReceiver::cleanup$"], must=[(r"FragmentReceiver::cleanup$", "clean")])
        if rel: u.never(r"FragmentReceiver::cleanup$", "a reliable channel never gives up on a partly received message (%s)" % m)
        else:
            u.exits(lambda e: "clean" in e.state.must, "an unreliable channel gives up on partly received messages (%s)" % m, tag="expires")
            u.each(r"FragmentReceiver::cleanup$", lambda e: has_call(e.args[1], r"sub$") and has(e.args[1], lambda x: x is mk("p", "now")) or None, "when they are old", tag="age")
        u.exits(lambda e: same(u.it, e, post(e, path(u.it, "self.current_time")), mk("p", "now")), "the receiver's clock follows", tag="clock")
        FRG = r"FragmentReceiver::receive_fragment$"
        g = scen(c, m + " fragment", CR + "buffer_recv", assume=lambda it: [(deq(path(it, "self.state"), variant(P, RST, recv)), True), (deq(fld(par(it, "message"), "data"), variant(P, MD, "Fragment")), True)], events=[FRG])
        def stamp(e):
            t = e.args[3]
            if rel: return True if t is NONE else (False if t.op == "agg" else None)
            return (t.op == "agg" and t.args[1] == "Some" and endswith(t.args[2][0], "current_time")) if t.op == "agg" else None
        g.each(FRG, stamp, "a fragment is time-stamped exactly when its channel expires partial messages (%s)" % m, tag="stamp")
        g.each(FRG, lambda e: endswith(e.args[2], "remote_sent_tick") and endswith(e.args[4], "compression") and has(e.args[1], lambda x: endswith(x, "data")), "the fragment, its tick and the local compression setting are what was received", tag="inputs")
    # send frequency
    TF = r"Timer::(is_finished|just_finished|finished)$"
    s = scen(c, "frequency", CSN + "new")
    def tm(e):
        t = aggfield(P, e.val, "timer")
        z = [v for k, v in e.state.facts.items() if k[0] == "b" and has_field(k[1], "send_frequency")]
        if not z or t.op != "agg": return None
        return (t is NONE) == z[0] if t is NONE else (not z[0] and has_field(t.args[2][0], "send_frequency") and has(t.args[2][0], lambda x: x.op == "agg" and x.args[1] == "Repeating"))
    s.exits(tm, "a channel with a send frequency has a repeating timer of that period, others have none", tag="timer")
    for key, t, f in (("no timer", 0, None), ("finished", 1, True), ("waiting", 1, False)):
        s = scen(c, key, CSN + "collect_send_candidates", assume=lambda it: [(deq(path(it, "self.timer"), t), True)], stubs=[(TF, const(f))] if f is not None else [], events=[r"models::push_into$|::push$", r"collect_candidates$"], must=[(r"collect_candidates$", "col")])
        if f is not None and not s.hits.get(TF): c.undecided("frequency " + key, "timer not asked"); continue
        if f is False: s.never(r"push|collect_candidates$", "between its periods a channel offers nothing")
        else: s.exits(lambda e: "col" in e.state.must or None, "a due channel offers its messages (%s)" % key, tag="offers")
        z = scen(c, key, CSN + "finish_send", assume=lambda it: [(deq(path(it, "self.timer"), t), True), (deq(path(it, "self.state"), variant(P, SS, "Unreliable")), True)], stubs=[(TF, const(f))] if f is not None else [], events=[r"UnreliableSendState::finish_send$"])
        if z.ev(r"UnreliableSendState::finish_send$"): z.each(r"UnreliableSendState::finish_send$", lambda e: same(z.it, e, e.args[2], const(f is not False)), "unsent messages are settled only when the channel was due (%s)" % key, tag="due")
    u = scen(c, "update", CSN + "update", assume=lambda it: [(deq(path(it, "self.timer"), 1), True)], events=[r"Timer::tick$"], must=[(r"Timer::tick$", "tick")])
    u.exits(lambda e: "tick" in e.state.must, "the timer of a channel advances every frame", tag="ticks")
    u.each(r"Timer::tick$", lambda e: has_call(e.args[1], r"delta$"), "by the frame's duration", tag="delta")

# ------------------------------------------------------------------------------------------------ T15
SFO = CS + "SendFlushOutcome"
KEY = lambda P: keyadt(P)
@prop("T15", floor=24, explain="""The unreliable sender is evaluated: which queued messages are offered, what committing one changes, and, in the eight cases of (outcome of the flush, due or not, retry setting), which
messages stay queued.""")
def t15(c):
    P = c.P
    f = c.fn(US + "collect_candidates")
    NEW = r"SendCandidate::new$"
    s = scen(c, "offer", f, events=[NEW, r"models::push_into$|::push$"])
    kinds = {}
    for e in s.ev(NEW):
        k = e.args[2]
        if k.op != "agg": c.undecided("candidate key", show(k)); continue
        q = {"UnreliableSingle": "singles", "UnreliableFragment": "fragments"}.get(k.args[1]); kinds[k.args[1]] = 1
        idx, msg = k.args[2][0], e.args[3]
        com = [v for kk, v in e.state.facts.items() if kk[0] == "b" and endswith(kk[1], "committed")]
        c.check(bool(com) and com[0] is False, k.args[1] + ": unsent", "only messages not sent yet are offered", e.where())
        if idx.op == "f" and msg.op == "f":
            it_ = [x for x in subvals(idx) if x.op == "call" and x.args[0].endswith("next")]
            im = [x for x in subvals(msg) if x.op == "call" and x.args[0].endswith("next")]
            if it_ and im:
                en = [x for x in subvals(it_[0]) if x.op == "call" and x.args[0].endswith("enumerate")]
                c.check(it_[0] is im[0], k.args[1] + ": index of the message", "the key names the message offered", e.where())
                if en:
                    src = en[0].args[1][0]
                    src = strip(src)
                    c.check(src.op == "call" and re.search(r"::iter(_mut)?$|into_iter$", src.args[0]) is not None and has_field(src, q), k.args[1] + ": index into the queue", "the key is the position in the whole queue", e.where())
                else: c.undecided(k.args[1] + ": index into the queue", show(idx))
            else: c.undecided(k.args[1] + ": index", show(idx))
        else: c.undecided(k.args[1] + ": index", show(idx))
        c.check(endswith(e.args[0], "channel_kind") or e.args[0] is mk("p", "channel_kind"), k.args[1] + ": channel", "the candidate belongs to its channel", e.where())
    c.check(len(kinds) == 2, "both offered", "whole messages and fragments are offered", f.file)
    c.check(all(exhausted(e, q) for e in s.ev(None, "exit") for q in ("singles", "fragments")), "all offered", "the whole queue is offered", f.file)
    g = c.fn(US + "commit_send")
    for v, q in (("UnreliableSingle", "singles"), ("UnreliableFragment", "fragments")):
        GET = r"VecDeque::get_mut$|IndexMut[\w:<>]*::index_mut$"
        s = scen(c, v, g, writes=True, assume=lambda it: [(deq(par(it, "key"), next(d for n, d, _ in P.adts[keyadt(P)]["vars"] if n == v)), True)], events=[GET])
        w = [e for e in s.ev(None, "write") if wfield(e) == "committed"]
        c.check(bool(w) and all(e.val is TRUE for e in w), v + ": marked", "a message that was sent is marked as sent", g.file)
        gs = s.ev(GET)
        if gs: s.each(GET, lambda e: argfields(e, 0)[-1:] == [q] and (e.args[1].op == "f" and e.args[1].args[1] == v) or None, "the message marked is the one sent", tag="which")
        else: c.undecided(v + ": which", "queue access not recognised")
        if v == "UnreliableFragment":
            st = [e for e in s.ev(None, "write") if wfield(e) == "fragment_started"]
            c.check(bool(st) and all(e.val is TRUE for e in st), "message started", "once a fragment is sent, its message is marked as begun", g.file)
            for e in st:
                eq = any(k[0] in ("i", "b") and any(has_field(x, "message_id") for x in ([k[1]] if isinstance(k[1], V) else [t for t, _ in k[1]])) for k in e.state.facts)
                c.tri(True if eq else None, "message started: which", "only fragments of the same message", e.where())
    h = c.fn(US + "finish_send")
    RET, CLR, DIS = r"models::retained$", r"VecDeque::clear$", r"FragmentAckReceiver::discard_message$"
    for out in ("Complete", "BandwidthLimited", "StagingFailed"):
        for ready in (False, True):
            for retry in (False, True):
                s = scen(c, "%s ready=%d retry=%d" % (out, ready, retry), h, events=[RET, CLR, DIS], must=[(CLR, "clear")],
                         assume=lambda it: [(deq(par(it, "outcome"), variant(P, SFO, out)), True), (par(it, "was_ready"), ready), (path(it, "self.retry_unsent_messages"), retry)])
                drop = out == "BandwidthLimited" and ready and not retry
                k = "%s ready=%d retry=%d " % (out, ready, retry)
                def kept(e, com, started):
                    st = e.state.copy()
                    el = [x for kk in list(st.facts) for x in (subvals(kk[1]) if isinstance(kk[1], V) else ()) if x.op == "f" and x.args[2] in ("committed", "fragment_started")] + [x for x in subvals(e.args[1]) if x.op == "f" and x.args[2] in ("committed", "fragment_started")]
                    for x in el:
                        if not s.it.assume(st, x, com if x.args[2] == "committed" else started): return "skip"
                    return s.it.truth(st, e.args[1])
                for q in ("singles", "fragments"):
                    rs = [e for e in s.ev(RET) if argfields(e, 0)[-1:] == [q]]
                    cl = [e for e in s.ev(CLR) if argfields(e, 0)[-1:] == [q]]
                    if not rs and not cl: c.undecided(k + q, "what happens to the queue is not recognised"); continue
                    for com in (False, True):
                        for started in ((False, True) if q == "fragments" else (False,)):
                            want = not com and (not drop or (q == "fragments" and started))
                            got = {kept(e, com, started) for e in rs} - {"skip"}
                            if cl: got |= {False}
                            c.tri(None if None in got or not got else got == {want}, k + "%s sent=%d begun=%d" % (q, com, started), "a message stays queued exactly when it was not sent and is not to be dropped", h.file)
                if drop:
                    for e in s.ev(DIS):
                        fs = {x.args[2]: v for kk, v in e.state.facts.items() if kk[0] == "b" for x in [kk[1]] if x.op == "f"}
                        c.check(fs.get("fragment_started") is False, "forgotten: begun", "acknowledgements are forgotten only of messages none of whose fragments was sent", e.where())
                else: c.check(not s.ev(DIS), k + "forgotten", "acknowledgements are still awaited for messages that stay queued", h.file)
    FAR = TR + "channel::fragments::ack::FragmentAckReceiver::"
    # acknowledgements
    for ack_mode, fa, dl in (("acknowledged", 1, "UnorderedWithAcks"), ("unordered", 0, "Unordered"), ("sequenced", 0, "Sequenced")):
        s = scen(c, ack_mode, US + "receive_ack", assume=lambda it: [(deq(path(it, "self.fragment_acks"), fa), True), (deq(path(it, "self.delivery"), variant(P, CS + "UnreliableDelivery", dl)), True), (deq(fld(par(it, "ack"), "fragment_id"), 0), True)])
        s.exits(lambda e: same(s.it, e, e.val, const(fa == 1)), "acknowledging a whole message completes it exactly on acknowledged channels (%s)" % ack_mode, tag="whole")
    FAT = TR + "channel::fragments::ack::FragmentAckTracker::receive_ack"
    RFA = FAR + "receive_fragment_ack"
    GT, RM = r"HashMap::(get_mut|get)$", r"HashMap::remove$"
    s = scen(c, "unknown", RFA, stubs=[(GT, NONE)], events=[RM])
    if s.hits.get(GT): s.exits(lambda e: same(s.it, e, e.val, FALSE), "a fragment of a message no longer awaited completes nothing", tag="unknown")
    for done in (True, False):
        s = scen(c, "last=%s" % done, RFA, stubs=[(r"FragmentAckTracker::receive_ack$", const(done)), (GT, some(mk("p", "tracker")))], events=[RM, r"FragmentAckTracker::receive_ack$"], must=[(RM, "rm")])
        if not s.hits.get(r"FragmentAckTracker::receive_ack$"): c.undecided("tracker", "not asked"); continue
        s.exits(lambda e: same(s.it, e, e.val, const(done)), "a fragmented message is acknowledged exactly with its last fragment", tag="completes")
        if done: s.exits(lambda e: "rm" in e.state.must, "and is awaited no longer", tag="removed")
        else: s.never(RM, "a message with fragments outstanding stays awaited")
    t = c.fn(FAT)
    rk = uniq([k[1] for e in scen(c, "probe", t, writes=True).ev(None, "write") for k in e.state.facts if k[0] == "b" and has_field(k[1], "received")])
    if len(rk) != 1: c.undecided("counting", "the record of acknowledged fragments is not recognised"); return
    for was in (True, False):
        s = scen(c, "fragment known=%s" % was, t, writes=True, assume=lambda it: [(rk[0], was)])
        n, tot = path(s.it, "self.num_received_fragments"), path(s.it, "self.num_fragments")
        s.exits(lambda e: same(s.it, e, post(e, n), n if was else add(n, I(1))), "each fragment counts once", tag="counts once")
        s.exits(lambda e: same(s.it, e, e.val, ieq(post(e, n), tot)), "the message is complete exactly when all its fragments were acknowledged", tag="complete")
        wr = [e for e in s.ev(None, "write") if "received" in wpath(e)]
        c.check(was or (bool(wr) and all(e.val is TRUE for e in wr)), "fragment known=%s: remembered" % was, "an acknowledged fragment is remembered", t.file)

# ------------------------------------------------------------------------------------------------ T08
FRV = TR + "channel::fragments::receive::"
FSD = TR + "channel::fragments::send::FragmentSender::"
@prop("T08", floor=30, explain="""Cutting and reassembly of large messages: what every fragment says about itself, which fragments are refused, what accepting one changes, and when the message is complete.""",
      assume=["slice::chunks cuts a slice into consecutive pieces of the given length, the last one possibly shorter"])
def t08(c):
    P = c.P
    # sending
    f = c.fn(FSD + "build_fragments_with_compression")
    PU = r"models::push_into$|::push$"
    s = scen(c, "cut", f, events=[PU])
    es = [e for e in s.ev(PU) if e.args[1].op == "agg" and e.args[1].args[0].endswith("FragmentData")]
    if not es: c.undecided("cut", "fragments are built in another way")
    for e in es:
        d = e.args[1]; g = lambda n: uncast(aggfield(P, d, n))
        idx, num, by, cp = g("fragment_id"), g("num_fragments"), aggfield(P, d, "bytes"), aggfield(P, d, "compression")
        ch = [x for x in subvals(by) if x.op == "call" and re.search(r"chunks$", x.args[0])]
        c.check(aggfield(P, d, "message_id") is mk("p", "fragment_message_id"), "message id", "every fragment names its message", e.where())
        if not ch: c.undecided("pieces", show(by)); continue
        c.check(endswith(ch[0].args[1][1], "fragment_size") and has(ch[0].args[1][0], lambda x: x is mk("p", "fragment_bytes")), "pieces", "the message is cut into pieces of the fragment size", e.where())
        c.check(num.op in ("len",) and num.args[0] is ch[0] or (num.op == "call" and re.search(r"len$|count$|div_ceil$", num.args[0]) is not None) or None, "count", "every fragment carries the number of pieces", e.where()) if num.op in ("len", "call") else c.check(False, "count", "every fragment carries the number of pieces", e.where())
        c.check(idx.op == "f" and idx.args[2] == "0" and has_call(idx, r"enumerate$") and has_call(by, r"enumerate$") and [x for x in subvals(idx) if x.op == "call" and x.args[0].endswith("next")][:1] == [x for x in subvals(by) if x.op == "call" and x.args[0].endswith("next")][:1], "index", "a fragment's index is the position of its piece", e.where())
        if cp.op == "phi" or cp.op == "agg":
            z = [v for k, v in e.state.facts.items() if k[0] == "i"]
    for first in (True, False):
        IDXS = r"Iterator::next$"
        s2 = scen(c, "compression first=%s" % first, f, events=[PU], stubs=[(r"Enumerate[\w:<>]*next$|iterator::Iterator::next$", lambda it, st, fr, a, sym: some(mk("agg", "()", "", (I(0 if first else 3), mk("p", "piece")))) if has_call(a[0], r"enumerate$") else None)])
        es2 = [e for e in s2.ev(PU) if e.args[1].op == "agg" and e.args[1].args[0].endswith("FragmentData")]
        if not es2: c.undecided("compression tag", "iteration not recognised"); continue
        for e in es2:
            cp = aggfield(P, e.args[1], "compression")
            if cp.op == "agg": c.check((cp.args[1] == "Some") == first, "compression tag first=%s" % first, "exactly the first fragment says how the message is compressed", e.where())
            else: c.undecided("compression tag", show(cp))
    CF, BF, BC = r"compress_fragment$", r"FragmentSender::build_fragments$", r"FragmentSender::build_fragments_with_compression$"
    s = scen(c, "plain", FSD + "build_fragments", events=[BC])
    s.each(BC, lambda e: e.args[1] is mk("p", "fragment_message_id") and has(e.args[2], lambda x: x is mk("p", "fragment_bytes")) and (e.args[3].op != "agg" or e.args[3].args[1] == "None"), "an uncompressed message is cut as it is", tag="plain")
    s = scen(c, "for message", FSD + "build_fragments_for_message", events=[CF, BF, BC], stubs=[(CF, errv(mk("p", "nocompress")))])
    s.each(BF, lambda e: has(e.args[2], lambda x: x is mk("p", "message")) and e.args[1] is mk("p", "fragment_message_id"), "a message that cannot be compressed is sent as it is", tag="fallback")
    # receiving
    r = c.fn(FRV + "FragmentReceiver::receive_fragment")
    NEWC, INS, RM, CON, GM = r"FragmentConstructor::new$", r"HashMap::insert$", r"HashMap::remove$", r"HashMap::contains_key$", r"HashMap::get_mut$"
    RF, SC, DEC = r"FragmentConstructor::receive_fragment$", r"FragmentConstructor::set_compression$", r"decompress_fragment_payload$"
    EV = [NEWC, INS, RM, RF, SC, DEC]
    num = lambda it: fld(par(it, "fragment"), "num_fragments", "0"); idx = lambda it: fld(par(it, "fragment"), "fragment_id", "0")
    for key, ass in (("no fragments", lambda it: [(ieq(num(it), I(0)), True)]), ("index out of range", lambda it: [(le(num(it), idx(it)), True)])):
        s = scen(c, key, r, assume=ass, events=EV)
        s.exits(must_err, "a fragment with %s is refused" % key, tag="refused"); s.never("|".join((INS, RF)), "and changes nothing")
    TRK = mk("p", "tracker")
    ok = lambda it: [(le(num(it), idx(it)), False), (le(num(it), I(0)), False)]
    s = scen(c, "new message", r, assume=ok, events=EV, stubs=[(CON, FALSE)])
    if s.hits.get(CON):
        s.each(NEWC, lambda e: e.args[0] is mk("p", "remote_sent_tick") and uncast(e.args[1]) is uncast(num(s.it)) and endswith(e.args[2], "fragment_size"), "the first fragment of a message opens it with its tick, count and the agreed fragment size", tag="opened")
        s.each(INS, lambda e: endswith(strip(e.args[1]), "message_id") and has_call(e.args[2], r"FragmentConstructor::new$"), "under its own identifier", tag="key")
    else: c.undecided("new message", "lookup not recognised")
    s = scen(c, "known message", r, assume=ok, events=EV, stubs=[(CON, TRUE), (GM, some(TRK))])
    if s.hits.get(CON) and s.hits.get(GM):
        s.never(INS, "a message already open is not opened again")
        TN = fld(mk("*", TRK), "num_fragments")
        s1 = scen(c, "count changed", r, assume=lambda it: ok(it) + [(ieq(TN, num(it)), False)], events=EV, stubs=[(CON, TRUE), (GM, some(TRK))])
        s1.exits(must_err, "a fragment that disagrees about the number of fragments is refused", tag="refused"); s1.never(RF, "and not stored")
        same_ = lambda it: ok(it) + [(ieq(TN, num(it)), True)]
        s1 = scen(c, "first without compression", r, assume=lambda it: same_(it) + [(ieq(idx(it), I(0)), True), (deq(fld(par(it, "fragment"), "compression"), 0), True)], events=EV, stubs=[(CON, TRUE), (GM, some(TRK))])
        s1.exits(must_err, "a first fragment that does not say how the message is compressed is refused", tag="refused"); s1.never(RF, "and not stored")
        s1 = scen(c, "compression conflict", r, assume=lambda it: same_(it) + [(deq(fld(par(it, "fragment"), "compression"), 1), True)], events=EV, stubs=[(CON, TRUE), (GM, some(TRK)), (SC, errv(mk("p", "conflict")))])
        if s1.hits.get(SC): s1.exits(must_err, "a fragment that disagrees about compression is refused", tag="refused"); s1.never(RF, "and not stored")
        PAY = mk("agg", "()", "", (mk("p", "donetick"), mk("p", "donebytes")))
        for key, v in (("incomplete", NONE), ("complete", some(PAY))):
            s1 = scen(c, key, r, assume=same_, events=EV, stubs=[(CON, TRUE), (GM, some(TRK)), (RF, okv(v)), (SC, okv()), (DEC, okv(mk("p", "plain")))], must=[(RM, "rm")])
            if not s1.hits.get(RF): c.undecided(key, "storing not recognised"); continue
            if v is NONE: s1.exits(lambda e: e.val is okv(NONE) or is_err(e.val), "an incomplete message is not handed on", tag="waits"); s1.never(RM, "and stays open")
            else:
                s1.exits(lambda e: (is_err(e.val) and not "rm" in e.state.may) or (is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == "Some" and has(e.val, lambda x: x is mk("p", "donetick")) and has(e.val, lambda x: x is mk("p", "plain")) and "rm" in e.state.must), "a complete message is handed on with its tick and closed", tag="handed on")
                s1.each(DEC, lambda e: e.args[1] is mk("p", "donebytes") and e.args[2] is mk("p", "compression") and has_field(e.args[0], "compression"), "its bytes are what was collected, decompressed as the first fragment says", tag="content")
                s1.each(RM, lambda e: endswith(strip(e.args[1]), "message_id"), "the message closed is the one completed", tag="closed")
        st = scen(c, "stored", r, assume=same_, events=EV, stubs=[(CON, TRUE), (GM, some(TRK)), (SC, okv())])
        st.each(RF, lambda e: uncast(e.args[1]) is uncast(idx(st.it)) and has_field(e.args[2], "bytes") and e.args[3] is mk("p", "current_time"), "a fragment is stored under its own index", tag="stored")
    else: c.undecided("known message", "lookup not recognised")
    # the constructor
    q = c.fn(FRV + "FragmentConstructor::receive_fragment")
    n = lambda it: path(it, "self.num_fragments"); fi = lambda it: par(it, "fragment_index"); sz = lambda it: path(it, "self.fragment_size"); ln = lambda it: mk("len", par(it, "bytes"))
    CP, RZ = r"copy_from_slice$|extend_from_slice$|HashMap::insert$|BTreeMap::insert$", r"Vec::resize$"
    last = lambda it: (ieq(sub(fi(it), n(it)), I(-1)), True); inner = lambda it: (ieq(sub(fi(it), n(it)), I(-1)), False)
    for key, ass in (("inner too short", lambda it: [inner(it), (le(ln(it), sub(sz(it), I(1))), True)]), ("inner too long", lambda it: [inner(it), (le(ln(it), sz(it)), False)]), ("last too long", lambda it: [last(it), (le(ln(it), sz(it)), False)])):
        s = scen(c, key, q, assume=ass, events=[CP], writes=True)
        s.exits(must_err, "a fragment of the wrong size is refused (%s)" % key, tag="refused"); s.never(CP, "and not stored")
        w = [e for e in s.ev(None, "write") if wfield(e) in ("num_received_fragments", "received", "bytes")]
        c.check(not w, key + ": nothing", "and changes nothing", q.file)
    s0 = scen(c, "probe", q)
    rk = uniq([k[1] for e in s0.ev(None, "exit") for k in e.state.facts if k[0] == "b" and has_field(k[1], "received")] + [k[1] for e in scen(c, "probe2", q, writes=True).ev(None, "write") for k in e.state.facts if k[0] == "b" and has_field(k[1], "received")])
    if len(rk) != 1: c.undecided("stored once", "the record of received fragments is not recognised")
    else:
        for was in (True, False):
            for pos, ps in (("inner", inner), ("last", last)):
                s = scen(c, "%s received=%s" % (pos, was), q, assume=lambda it: [(rk[0], was), ps(it)] + ([(ieq(ln(it), sz(it)), True)] if pos == "inner" else [(le(ln(it), sz(it)), True)]), events=[CP, RZ], writes=True, must=[(CP, "stored")])
                cnt = path(s.it, "self.num_received_fragments")
                # the message is complete exactly when the count says so
                def fin(e):
                    if is_err(e.val): return True
                    if not is_ok(e.val) or e.val.args[2][0].op != "agg": return None
                    full = s.it.truth(e.state, ieq(post(e, cnt), n(s.it)))
                    return None if full is None else (e.val.args[2][0].args[1] == "Some") == full
                s.exits(fin, "the message is complete exactly when all fragments were received", tag="complete")
                if was:
                    s.never(CP, "a copy of a fragment is not stored again"); s.exits(lambda e: same(s.it, e, post(e, cnt), cnt), "and not counted again", tag="counted")
                else:
                    s.exits(lambda e: is_err(e.val) or "stored" in e.state.must, "a new fragment is stored (%s)" % pos, tag="stored")
                    s.exits(lambda e: True if is_err(e.val) else same(s.it, e, post(e, cnt), add(cnt, I(1))), "and counted once", tag="counted")
                    wr = [e for e in s.ev(None, "write") if "received" in wpath(e)]
                    c.check(bool(wr) and all(e.val is TRUE for e in wr), "%s remembered" % pos, "and remembered", q.file)
                    for e in s.ev(r"copy_from_slice$"):
                        if not e.rawargs: continue
                        tgt = e.args[0]
                        rg = [x for x in subvals(tgt) if x.op == "call" and x.args[0] == "slice" or x.op == "slice" or (x.op == "agg" and "Range" in x.args[0])]
                        mul_ = [x for x in subvals(tgt) if x.op == "bin" and x.args[0] == "Mul"]
                        c.tri(True if any(set(x.args[1:]) == {fi(s.it), sz(s.it)} for x in mul_) else (False if mul_ or known(tgt) else None), "%s offset" % pos, "a fragment is stored at its index times the fragment size", e.where())
                        c.check(has(e.args[1], lambda x: x is mk("p", "bytes")), "%s content" % pos, "its bytes are stored as received", e.where())
                    rz = s.ev(RZ)
                    if pos == "last" and s.ev(r"copy_from_slice$"):
                        for e in rz: c.tri(True if has(e.args[1], lambda x: x is ln(s.it)) and has(e.args[1], lambda x: x.op == "bin" and x.args[0] == "Mul") else (False if known(e.args[1]) else None), "message length", "the length of the message follows from its last fragment", e.where())
                        c.check(bool(rz), "message length set", "the last fragment fixes the length of the message", q.file)
                    elif pos == "inner": c.check(not rz, "inner length", "an inner fragment does not fix the length of the message", q.file)
        s = scen(c, "done", q)
        for e in s.ev(None, "exit"):
            if is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == "Some":
                c.check(has_field(e.val, "tick"), "done: tick", "a complete message keeps the tick of its first fragment", e.where())
    # compression agreement
    g = c.fn(FRV + "FragmentConstructor::set_compression")
    s = scen(c, "first said", g, assume=lambda it: [(deq(path(it, "self.compression"), 0), True)])
    s.exits(lambda e: is_ok(e.val) and same(s.it, e, post(e, path(s.it, "self.compression")), some(mk("p", "compression"))), "the compression said first is remembered", tag="remembered")
    s = scen(c, "said again", g, assume=lambda it: [(deq(path(it, "self.compression"), 1), True)])
    s.exits(lambda e: same(s.it, e, post(e, path(s.it, "self.compression")), path(s.it, "self.compression")), "and never replaced", tag="kept")
    ENUMC = [x for x in ("None", "Lz4")]
    FC = next(a for a in P.adts if a.endswith("::FragmentCompression"))
    for a_ in ENUMC:
        for b_ in ENUMC:
            s = scen(c, "%s then %s" % (a_, b_), g, assume=lambda it: [(deq(path(it, "self.compression"), 1), True), (deq(mk("f", path(it, "self.compression"), "Some", "0"), variant(P, FC, a_)), True), (deq(par(it, "compression"), variant(P, FC, b_)), True)])
            if a_ == b_: s.exits(must_ok, "agreeing about compression is fine", tag="agree")
            else: s.exits(must_err, "disagreeing about compression is refused", tag="conflict")
    # expiry
    for nm in (FRV + "FragmentReceiver::cleanup",):
        s = scen(c, "cleanup", nm, events=[r"models::retained$"])
        if not s.ev(r"models::retained$"): c.undecided("cleanup", "not a retain"); continue
        for e in s.ev(r"models::retained$"):
            none = any(k[0] == "d" and v == 0 and endswith(k[1], "last_received") for k, v in e.state.facts.items())
            if none: c.tri(True if e.args[1] is TRUE else (False if e.args[1] is FALSE else None), "cleanup: unstamped", "messages that do not expire are kept", e.where())
            else:
                v = e.args[1]
                c.tri(True if has_field(v, "last_received") and has(v, lambda x: x is mk("p", "cleanup_time")) else None, "cleanup: stamped", "a partial message expires by the time of its last fragment", e.where())

# ------------------------------------------------------------------------------------------------ T11
@prop("T11", floor=12, explain="""The reset of a transport is evaluated to its final state field by field: everything that belongs to a connection must be freshly built, nothing of the old state may survive, and the
configuration must be carried over. The observer that triggers it is followed from the disconnection.""")
def t11(c):
    P = c.P
    B = TR + "channel::builder::"
    f = c.fn(B + "Transport::reset")
    NI = [r"ChannelSend::new$", r"ChannelReceive::new$", r"PriorityManager::new$", r"BandwidthLimiter::new$", r"PacketBuilder::(with_nack_settings|new|default)$"]
    CLR = r"Vec::clear$|Vec::drain$|Vec::truncate$"
    s0 = s = scen(c, "reset", f, writes=True, no_inline=NI, events=[CLR, r"ChannelSend::new$", r"ChannelReceive::new$", r"with_nack_settings$"])
    sf = mk("*", mk("p", "self"))
    CONFIG = {"config", "nack_settings", "fragment_size", "compression"}
    def fresh(v):
        """True when v does not carry connection state of the old transport"""
        old = [x for x in subvals(v) if x.op == "f" and strip(x.args[0]) is strip(sf) or x is sf]
        bad = [x for x in subvals(v) if x.op == "f" and has(x, lambda y: y is sf) and x.args[2] in FIELDS]
        keep = [x for x in subvals(v) if x.op == "f" and x.args[2] in CONFIG and has(x, lambda y: y is sf)]
        return all(any(b is y for k in keep for y in subvals(k)) for b in bad)
    FIELDS = {"packet_manager", "packet_message_acks", "priority_manager", "bandwidth_limiter", "send_channel", "recv_channel", "senders", "receivers"}
    for fl, what in (("packet_manager", "packet ids, acknowledgements and staged packets"), ("packet_message_acks", "messages waiting for acknowledgement"), ("priority_manager", "queued candidates"),
                     ("bandwidth_limiter", "the bandwidth budget"), ("send_channel", "messages queued for sending"), ("recv_channel", "messages queued for sending")):
        pl = path(s.it, "self." + fl)
        s.exits(lambda e: (lambda v: False if v is pl else (fresh(v) if v.op != "with" else False))(post(e, pl)), "%s of the old connection are gone" % what, tag=fl)
    s.exits(lambda e: True if post(e, path(s.it, "self.send_channel")) is not path(s.it, "self.send_channel") and [x for x in subvals(post(e, path(s.it, "self.send_channel"))) if x.op == "call"][:1] == [x for x in subvals(post(e, path(s.it, "self.recv_channel"))) if x.op == "call"][:1] else None, "the two ends of the send queue belong together", tag="queue ends")
    for fl in ("compression", "fragment_size"):
        s.exits(lambda e: same(s.it, e, post(e, path(s.it, "self." + fl)), path(s.it, "self." + fl)), "the configuration survives (%s)" % fl, tag="keeps " + fl)
    s.exits(lambda e: has_field(post(e, path(s.it, "self.packet_manager")), "nack_settings") or None, "the loss settings survive", tag="keeps nack")
    for e in s.ev(r"with_nack_settings$"): c.check(has_field(e.args[0], "nack_settings"), "loss settings", "the loss settings survive a disconnection", e.where())
    for fl, ctor in (("receivers", "ChannelReceive"), ("senders", "ChannelSend")):
        w = [e for e in s.ev(None, "write") if e.val.op == "call" and e.val.args[0].endswith(ctor + "::new")] or [e for e in s.ev(None, "write") if has_call(e.val, ctor + "::new$")]
        c.check(bool(w), fl + " rebuilt", "every channel starts over", f.file)
        for e in w:
            c.check(has_field(e.val, "settings_map") or has_call(e.val, "settings") or not known(e.val), fl + " settings", "with its registered settings", e.where())
        c.check(all(exhausted(e, fl) for e in s.ev(None, "exit")), fl + " all", "no channel is left out", f.file)
    for e in s.ev(r"ChannelSend::new$"):
        c.check(endswith(e.args[4], "fragment_size"), "sender fragment size", "a rebuilt sender keeps the fragment size", e.where())
        c.check(endswith(strip(e.args[1]), "channel_id"), "sender id", "and its channel id", e.where())
    fs = path(s0.it, "self.fragment_size")
    rx = [e for e in s0.ev(None, "write") if has_call(e.val, r"ChannelReceive::new$")]
    c.check(any(wfield(e) == "fragment_size" for e in s0.ev(None, "write")) or any(has(e.val, lambda x: x is fs) for e in rx), "receiver fragment size", "a rebuilt receiver keeps the fragment size", f.file)
    # the trigger
    g = c.fn(TR + "plugin::TransportPlugin::handle_disconnection")
    RES = r"Transport::reset$"
    GET = r"Query::get_mut$|Query::get$"
    T = mk("p", "tr")
    s = scen(c, "disconnected", g, events=[RES], stubs=[(GET, okv(T))], must=[(RES, "reset")])
    if s.hits.get(GET):
        s.exits(lambda e: "reset" in e.state.must, "a disconnected transport starts over", tag="resets")
        s.each(RES, lambda e: has(e.args[0], lambda x: x is T), "the transport reset is the disconnected one", tag="which")
    else: c.undecided("disconnected", "lookup not recognised")
    obs = [k for k, t in [(kk, t) for kk, t in [(f_.name, f_) for f_ in [g]]]]
    hook = [(f_, l) for f_, l, t, k in callsites(P, r"App::add_observer$", {"lightyear_transport"}) if "handle_disconnection" in str(k) or "handle_disconnection" in str(t)]
    c.check(bool(hook), "registered", "the reset is triggered by disconnections", g.file)
    ty = [str(x) for x in g.ltys[:g.argc + 1]]
    c.check(any("Add" in x and "Disconnected" in x for x in ty), "trigger type", "the reset is triggered when the disconnected state is entered", g.file)
