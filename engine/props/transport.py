"""transport: packet headers, acknowledgements, loss, packets and fragments."""
from lib import *
from props import prop

TR = "lightyear_transport::"
HD = TR + "packet::header::"
HM = HD + "PacketHeaderManager::"
PT = TR + "packet::packet_type::PacketType"
PID = TR + "packet::packet::packetid_module::PacketId"
STATS = r"PacketStatsManager"
I = lambda n: const(n)

def intersects(iv, lo, hi): return iv[0] <= hi and iv[1] >= lo

# ------------------------------------------------------------------------------------------------ T01
@prop("T01", floor=24, explain="""The record of received packets is evaluated in exhaustive cases over the distance between the arriving id and the highest one; the outgoing header is traced
to that record; the reading of an incoming header is checked bit by bit: which sent packet each bit removes.""",
      assume=["ring buffer semantics of the ringbuffer crate", "fewer than 2^15 packets between the two ids compared"])
def t01(c):
    P = c.P
    f = c.fn(HD + "ReceiveBuffer::recv_packet")
    last = lambda it: path(it, "self.last_recv_packet_id")
    ID = lambda it: par(it, "id")
    EV = (r"::enqueue$|::push$|::push_back$", r"::fill$", r"::get_mut_signed$|::get_mut$|::set$")
    s = scen(c, "first packet", f, assume=lambda it: [(deq(last(it), 0), True)], events=EV, writes=True)
    s.exits(lambda e: same(s.it, e, post(e, last(s.it)), some(ID(s.it))), "the first packet becomes the highest received one", tag="highest")
    s.never(EV[0] + "|" + EV[1] + "|" + EV[2], "the first packet leaves the history empty")
    b = scen(c, "later packet", f, assume=lambda it: [(deq(last(it), 1), True)], events=EV, writes=True)
    L = mk("f", mk("f", last(b.it), "Some", "0"), "", "0")
    ds = {}
    for k, x in [(k, x) for e in b.it.events for k in e.state.facts if k[0] == "i" for x, _ in k[1]]:
        if x.op == "cast" and has(x, lambda y: y is mk("f", ID(b.it), "", "0") or y is ID(b.it)) and has(x, lambda y: endswith(y, "last_recv_packet_id")): ds[x] = 1
    if len(ds) != 1: c.undecided("distance", "the distance between the ids is not a single expression: %s" % [show(x) for x in ds])
    else:
        D = list(ds)[0]
        w = [x for x in subvals(D) if x.op == "call" or x.op == "bin"]
        # orientation: last - id is positive when the packet is older
        args = next((x.args[1] for x in w if x.op == "call"), ())
        rev = len(args) == 2 and has_field(args[1], "last_recv_packet_id")
        N = mul(D, I(-1)) if rev else D       # N > 0: older than the highest
        old = lambda it: (deq(last(it), 1), True)
        s = scen(c, "too old", f, assume=lambda it: [old(it), (le(N, I(32)), False), (le(N, I(32767)), True)], events=EV, writes=True)
        s.never(EV[0] + "|" + EV[1] + "|" + EV[2], "a packet more than 32 behind the highest one leaves the history alone")
        s.exits(lambda e: same(s.it, e, post(e, last(s.it)), last(s.it)), "a packet more than 32 behind leaves the highest id alone", tag="highest")
        for n in (1, 2, 31, 32):
            s1 = scen(c, "%d behind" % n, f, assume=lambda it: [old(it), (ieq(N, I(n)), True)], events=EV, writes=True, must=[(EV[2], "mark")])
            s1.exits(lambda e: "mark" in e.state.must and same(s1.it, e, post(e, last(s1.it)), last(s1.it)) is not False, "a packet at most 32 behind is marked and the highest id stays", tag="marked")
            s1.each(EV[2], lambda e: decide(s1.it, e, ieq(e.args[1], I(-n)), True), "the slot marked is the one %d before the newest entry" % n, tag="slot")
            s1.never(EV[0] + "|" + EV[1], "an older packet does not shift the history")
            c.check(any(e.val is TRUE for e in s1.ev(None, "write")), "%d behind: set" % n, "the slot is set", f.file)
        s = scen(c, "duplicate of the highest", f, assume=lambda it: [old(it), (ieq(N, I(0)), True)], events=EV, writes=True)
        s.never(EV[0] + "|" + EV[1] + "|" + EV[2], "a duplicate of the highest packet changes nothing")
        for n in (1, 2, 32, 33, 34, 1000):
            s2 = scen(c, "%d ahead" % n, f, assume=lambda it: [old(it), (ieq(N, I(-n)), True)], events=EV, writes=True, must=[(EV[0], "shift"), (EV[1], "clear")])
            s2.exits(lambda e: same(s2.it, e, post(e, last(s2.it)), some(ID(s2.it))), "a newer packet becomes the highest one", tag="highest")
            s2.never(EV[2], "a newer packet marks no old slot")
            enq = s2.ev(EV[0]); fills = s2.ev(EV[1])
            if n <= 32:
                s2.exits(lambda e: "shift" in e.state.must and "clear" not in e.state.may, "the history is shifted, not cleared, when the gap is at most 32", tag="shifted")
                ts = [e for e in enq if e.args[-1] is TRUE]
                c.check(len({(e.fn.name, e.bb) for e in ts}) >= 1, "%d ahead: old highest kept" % n, "the previous highest packet enters the history as received", f.file)
                fs = [e for e in enq if e.args[-1] is FALSE]
                c.check(len(ts) + len(fs) == len(enq), "%d ahead: entries" % n, "history entries are constants", f.file)
                for e in fs:
                    rng = [x for k in e.state.facts for x in (subvals(k[1]) if isinstance(k[1], V) else ()) if x.op == "agg" and "Range" in x.args[0]]
                    r = [x for x in rng if len(x.args[2]) == 2]
                    if r and isint(r[0].args[2][0]):
                        cnt = sub(r[0].args[2][1], r[0].args[2][0])
                        inc = 1 if "Inclusive" in r[0].args[0] else 0
                        z = numeval(cnt, {D: -n if not rev else n})
                        if z == n - 1 - inc: c.ok("%d ahead: gap" % n, "the skipped ids enter the history as missing")
                        elif z is not None: c.bad("%d ahead: gap" % n, "the number of skipped ids entered as missing is not the gap", e.where())
                        else: c.undecided("%d ahead: gap" % n, show(cnt))
                    else: c.undecided("%d ahead: gap" % n, "loop bound not recognised")
            elif n > 33:
                s2.exits(lambda e: "clear" in e.state.must or None, "the history is cleared when everything in it is out of reach", tag="cleared")
                c.check(all(e.args[-1] is FALSE for e in fills), "%d ahead: cleared to missing" % n, "a cleared history says missing", f.file)
    # the outgoing header
    g = c.fn(HM + "preview_send_packet_header")
    BITS = mk("p", "bits")
    for key, d in (("nothing received", 0), ("something received", 1)):
        s = scen(c, key, g, assume=lambda it: [(deq(path(it, "self.recv_buffer.last_recv_packet_id"), d), True)], stubs=[(r"::get_bitfield$", BITS)]).stubbed(r"::get_bitfield$")
        lr = path(s.it, "self.recv_buffer.last_recv_packet_id")
        exp = mk("agg", PID, "PacketId", (I(65535),)) if d == 0 else mk("f", lr, "Some", "0")
        num = lambda v: v.args[2][0] if v.op == "agg" else mk("f", v, "", "0")
        s.exits(lambda e: same(s.it, e, num(aggfield(P, e.val, "last_ack_packet_id")), num(exp)), "the header acknowledges the highest received id (65535 before the first)", tag="highest")
        s.exits(lambda e: aggfield(P, e.val, "ack_bitfield") is BITS and aggfield(P, e.val, "packet_id") is path(s.it, "self.next_packet_id") and aggfield(P, e.val, "tick") is mk("p", "tick")
                and aggfield(P, e.val, "packet_type") is mk("p", "packet_type"), "the header carries the history, the next packet id, the tick and the type", tag="fields")
    s = scen(c, "bitfield source", g, events=[r"::get_bitfield$"])
    s.each(r"::get_bitfield$", lambda e: has_field(e.args[0], "recv_buffer"), "the history of received packets is what is sent")
    # reading a header
    h = c.fn(HM + "process_recv_packet_header")
    REM = r"::(swap_|shift_)?remove(_full|_entry)?$"
    s = scen(c, "reading", h, events=[REM, r"::insert$", r"ReceiveBuffer::recv_packet$"], no_inline=[STATS, r"ReceiveBuffer::"], must=[(r"ReceiveBuffer::recv_packet$", "seen")])
    s.exits(lambda e: "seen" in e.state.must, "every accepted packet is recorded as received", tag="recorded")
    s.each(r"ReceiveBuffer::recv_packet$", lambda e: endswith(e.args[1], "packet_id") and has(e.args[1], lambda x: x is mk("p", "header")), "the id recorded is the packet's own id")
    LA = fld(par(s.it, "header"), "last_ack_packet_id"); BF = fld(par(s.it, "header"), "ack_bitfield")
    rem = [e for e in s.ev(REM) if "sent_packets_not_acked" in argfields(e, 0)]
    direct = looped = False
    for e in rem:
        k = strip(e.args[1])
        if k is LA: direct = True; continue
        n = uncast(k)
        a = n.args[1] if n.op == "call" and "sub" in n.args[0] else ((n.args[1], n.args[2]) if n.op == "bin" and "Sub" in n.args[0] else ())
        if len(a) == 2 and has(a[0], lambda x: x is LA):
            off = uncast(a[1])
            bits = [x.args[2] for kf, fv in e.state.facts.items() if kf[0] == "i" and len(kf[1]) == 1 and (fv[0] > 0 or 0 in fv[2]) for x in [kf[1][0][0]] if x.op == "bin" and x.args[0] == "BitAnd" and BF in x.args[1:]
                    for x in [next(y for y in x.args[1:] if y is not BF)] if x.op == "bin" and x.args[0] == "Shl" and x.args[1] is I(1)]
            shr = [x.args[1].args[2] for kf, fv in e.state.facts.items() if kf[0] == "i" and len(kf[1]) == 1 and (fv[0] > 0 or 0 in fv[2]) for x in [kf[1][0][0]] if x.op == "bin" and x.args[0] == "BitAnd" and I(1) in x.args[1:]
                    and any(y.op == "bin" and y.args[0] == "Shr" and y.args[1] is BF for y in x.args[1:])
                    for x in [mk("t", next(y for y in x.args[1:] if y.op == "bin"))] for _ in [0] for x in [mk("t", x.args[0], x.args[0])]]
            idx = [uncast(b) for b in bits]
            if not idx:
                if any(BF in list(subvals(x)) for x in leaves(e)): c.undecided("bit of an id", "form of the bit test not recognised")
                else: c.bad("bit of an id", "a sent packet is taken as acknowledged without looking at its bit", e.where())
                continue
            looped = True
            c.check(any(sub(off, i) is I(1) for i in idx), "bit of an id", "bit i-1 acknowledges the packet i before the highest one", e.where())
            rg = [x for x in subvals(off) if (x.op == "call" and "RangeInclusive" in x.args[0]) or (x.op == "agg" and "Range" in x.args[0])]
            if rg:
                r = rg[0]; aa = r.args[1] if r.op == "call" else r.args[2]
                if len(aa) >= 2 and isint(aa[0]) and isint(aa[1]):
                    base = ival(sub(off, [x for x in subvals(off) if x.op == "f" and x in list(subvals(idx[0]))][0])) if not isint(off) else 0
                    nx = [x for x in subvals(off) if x.op == "f" and x.args[1] == "Some"]
                    k0 = ival(sub(off, nx[0])) if nx else None
                    if k0 is not None:
                        lo = ival(aa[0]) + k0; hi = ival(aa[1]) + k0 - (0 if "Inclusive" in (r.args[0]) else 1)
                        c.check(lo == 1 and hi == 32, "all 32 bits", "all of the 32 earlier packets are looked at", e.where())
            else: c.undecided("all 32 bits", "loop bound not recognised")
        else:
            if known(k): c.bad("removed id", "a sent packet that the header does not name is taken as acknowledged", e.where())
            else: c.undecided("removed id", show(k))
    c.check(direct, "highest acknowledged", "the highest id named by the header acknowledges that packet", h.file)
    c.check(looped, "bits acknowledged", "the bits of the header acknowledge packets", h.file)
    s.exhausts("the whole bitfield is looked at", tag="bits")
    ins = [e for e in s.ev(r"::insert$") if "newly_acked_packets" in argfields(e, 0)]
    c.check(len(ins) >= 1, "newly acked", "acknowledged packets are reported", h.file)
    for e in ins:
        rm = [k[1] for k, fv in e.state.facts.items() if k[0] == "d" and fv == 1 and k[1].op == "call" and re.search(REM, k[1].args[0])]
        c.check(bool(rm) and any(strip(r.args[1][1]) is strip(e.args[1]) for r in rm), "reported once", "a packet is reported acknowledged only when it was outstanding, and is outstanding no longer", e.where())
    # which packets must be acknowledged
    for n, d in {"Data": 0, "DataFragment": 1, "DataCompressed": 2, "DataFragmentCompressed": 3, "AckOnly": 4}.items():
        s = scen(c, n, h, assume=lambda it: [(deq(fld(par(it, "header"), "packet_type"), variant(P, PT, n)), True)], no_inline=[STATS, r"ReceiveBuffer::"])
        ap = path(s.it, "self.ack_pending")
        if n == "AckOnly": s.exits(lambda e: same(s.it, e, post(e, ap), ap), "an acknowledgement alone asks for no acknowledgement", tag="no ack of acks")
        else: s.exits(lambda e: same(s.it, e, post(e, ap), TRUE), "a %s packet asks for an acknowledgement" % n, tag="ack owed")

# ------------------------------------------------------------------------------------------------ T02
def step1(it, e, place):
    """post(place) is pre + 1 (wrapping or not)"""
    v = post(e, place); v = v.args[2][0] if v.op == "agg" and len(v.args[2]) == 1 else v
    b = place if it.vty.get(place, "").startswith("u") else mk("f", place, "", "0")
    for x in (v, mk("f", v, "", "0")):
        if sub(x, b) is I(1): return True
        if x.op == "call" and re.search(r"wrapping_add$|saturating_add$", x.args[0]) and x.args[1] == (b, I(1)): return True
    v2 = post(e, mk("f", place, "", "0"))
    if v2.op == "call" and re.search(r"wrapping_add$", v2.args[0]) and v2.args[1] == (b, I(1)): return True
    if sub(v2, b) is I(1): return True
    if v is place or v2 is b or known(v2): return False
    return None

@prop("T02", floor=10, explain="""The two commits of a sent packet are evaluated to their final state; every writer of the packet counter and every writer of the set of outstanding packets in
the crate is enumerated; the receive system is run with a path monitor over packet ids and message ids.""")
def t02(c):
    P = c.P
    for fn, tracked in (("commit_send_packet", True), ("commit_send_ack_only", False)):
        s = scen(c, "commit", HM + fn, no_inline=[STATS], events=[r"::insert$|::insert_full$"], must=[(r"::insert$|::insert_full$", "ins")])
        nid = path(s.it, "self.next_packet_id")
        s.exits(lambda e: step1(s.it, e, nid), "committing a packet moves the packet id up by exactly one", tag="id steps")
        s.exits(lambda e: same(s.it, e, post(e, path(s.it, "self.ack_pending")), FALSE), "a committed packet carries the owed acknowledgements", tag="ack paid")
        if tracked:
            s.exits(lambda e: "ins" in e.state.must, "a committed data packet is outstanding", tag="outstanding")
            s.each(r"::insert$|::insert_full$", lambda e: "sent_packets_not_acked" in argfields(e, 0) and strip(e.args[1]) is mk("p", "packet_id") and e.args[2] is mk("p", "real"), "the packet is outstanding under its id and send time", tag="entry")
        else: s.never(r"::insert", "an acknowledgement alone is never outstanding (it would never be acknowledged)")
    allowed = {HM + "commit_send_packet", HM + "commit_send_ack_only"}
    for f, b, line, k, pl, last in field_writes(P, "next_packet_id", None, {"lightyear_transport"}):
        g = topfn(P, f)
        if g.name in allowed: continue
        s = scen(c, "id writer", g)
        nid = path(s.it, "self.next_packet_id")
        s.exits(lambda e: post(e, nid) is nid or step1(s.it, e, nid), "the packet id only ever moves up by one", tag="steps")
    # who may end the wait for a packet
    for f, b, t, k in callsites(P, r"(IndexMap|HashMap)::(swap_remove|shift_remove|remove|clear|retain|drain|pop|truncate|take)", {"lightyear_transport"}):
        pass
    s = scen(c, "acked", HM + "process_recv_packet_header", events=[r"::insert$|::push$"], no_inline=[STATS, r"ReceiveBuffer::"])
    for e in s.ev(r"::insert$|::push$"):
        af = argfields(e, 0)
        if not any("newly_acked" in x for x in af): continue
        rm = [k[1] for k, fv in e.state.facts.items() if k[0] == "d" and fv == 1 and k[1].op == "call" and re.search(r"remove", k[1].args[0])]
        c.check(bool(rm), "acked while outstanding", "a packet counts as acknowledged only by being taken out of the outstanding set", e.where())
    # lost packets leave the set
    a = Auto("keep", (r"::push$|::insert$", lambda m, args, it, st: "lost" if any("lost_packets" == x for x in placefields(it, st, args[0])) else None),
             (r"models::retained$", lambda m, args, it, st: ("keep" if m == "lost" and args[1] is FALSE or m == "keep" and args[1] is TRUE
                                                              else "!lost packet kept" if args[1] is TRUE else "!dropped packet not lost" if args[1] is FALSE else None)))
    u = c.fn(HM + "update")
    s = scen(c, "expiry", u, no_inline=[STATS, r"timeout$"], monitor=a, events=[r"models::retained$"])
    if s.ev(r"models::retained$"):
        a.report(c, u, {"lost packet kept": "a packet declared lost is no longer outstanding", "dropped packet not lost": "a packet taken out of the outstanding set without acknowledgement is declared lost"})
    else: c.undecided("expiry", "the expiry loop is not a retain over the outstanding packets")
    # message bookkeeping in the receive system
    g = c.fn(TR + "plugin::TransportPlugin::buffer_receive")
    NI = [r"PacketStats", r"HeaderManager::", r"PacketHeader as", r"ToBytes", r"ChannelReceive::", r"ChannelSend::", r"decompress", r"AckTracker"]
    for res in (True, False):
        s = scen(c, "message ack %s" % res, g, stubs=[(r"ChannelSend::receive_ack$", const(res))], events=[r"ChannelSend::receive_", r"::push$"], no_inline=NI)
        es = [e for e in s.ev(r"::push$") if "message_acks" in argfields(e, 0)]
        if res:
            c.check(len(es) > 0, "message acked", "a message whose acknowledgement is complete is reported acknowledged", g.file)
            for e in es: c.check(endswith(e.args[1], "message_id"), "message acked id", "the id reported is the message's", e.where())
        else: c.check(not es, "message acked once", "a message is reported acknowledged only when its channel says the acknowledgement completes it", es[0].where() if es else "")
    s = scen(c, "lists", g, events=[r"AckTracker::take$", r"ChannelSend::receive_", r"HeaderManager::update$", r"::drain$"], no_inline=NI)
    for which, pat in (("receive_ack", "newly_acked_packets"), ("receive_nack", "lost_packets")):
        es = s.ev(r"ChannelSend::%s$" % which)
        c.check(bool(es), which + " reached", "messages of %s reach their channel" % pat, g.file)
    c.check(len({(e.fn.name, e.bb) for e in s.ev(r"AckTracker::take$")}) >= 2, "mapping consumed", "the message list of a resolved packet is taken out, so it is used once", g.file)
    PRH = r"HeaderManager::process_recv_packet_header$"
    entity = lambda m, a, it, st: "recv" if not a or re.search(r"Query|iter_mut|par_iter", show(it.valof(st, a[0]))) else None
    b = Auto("recv", (r"models::unknown$|::next$", entity), (r"HeaderManager::update$", lambda m, a: "expired"), (PRH, lambda m, a: "!acks after expiry" if m == "expired" else None))
    s = scen(c, "order", g, no_inline=NI, monitor=b, events=[r"HeaderManager::update$", PRH])
    if s.ev(r"HeaderManager::update$") and s.ev(PRH): b.report(c, g, {"acks after expiry": "acknowledgements already received are read before packets are declared lost"})
    else: c.undecided("acks after expiry", "expiry or acknowledgement is not reached from the receive system")

# ------------------------------------------------------------------------------------------------ T16
DEC = [r"PacketHeader as [\w:]*ToBytes>::from_bytes$", r"FragmentData as [\w:]*ToBytes>::from_bytes$", r"SingleData as [\w:]*ToBytes>::from_bytes$", r"ChannelReceive::buffer_recv$", r"decompress_payload$"]
@prop("T16", floor=5, explain="""The receive system is run with each decoding or delivery step failing: when the system goes on to expire packets, the queue of received packets must have been
run to its end on every path.""")
def t16(c):
    g = c.fn(TR + "plugin::TransportPlugin::buffer_receive")
    NI = [r"PacketStats", r"HeaderManager::", r"ToBytes", r"ChannelReceive::", r"ChannelSend::", r"decompress", r"AckTracker"]
    UP = r"HeaderManager::update$"
    for d in DEC + [None]:
        st = [(d, errv(mk("p", "broken")))] if d else []
        s = scen(c, "failing %s" % d, g, stubs=st, events=[UP], no_inline=NI)
        if d and not s.hits.get(d): c.undecided("failing %s" % d, "the receive system does not call it any more"); continue
        es = s.ev(UP)
        if not es: c.undecided("failing %s" % d, "expiry is not reached from the receive system"); continue
        c.check(all(exhausted(e, r"drain|try_recv|recv|pop") for e in es), "failing %s" % d, "a packet that cannot be processed does not stop the packets received after it", next((e.where() for e in es if not exhausted(e, r"drain|try_recv|recv|pop")), ""))

# ------------------------------------------------------------------------------------------------ T03
@prop("T03", floor=6, explain="""The expiry of outstanding packets is evaluated in the four cases of (waited longer than the timeout or not) x (more than a third of the id space old or not); the timeout is
traced to its inputs; the round-trip sample reported for an acknowledged packet is traced to that packet's own send time.""")
def t03(c):
    u = c.fn(HM + "update")
    EL, LIM, AGE = mk("p", "elapsed"), mk("p", "limit"), mk("p", "age")
    RET = r"models::retained$"
    st = [(r"Duration::(saturating_sub|checked_sub|abs_diff)$|Duration as [\w:]*Sub(<[^>]*>)?>::sub$|Sub::sub$", lambda it, s, fr, a, sym: EL if not has(a[0], lambda x: endswith(x, "next_packet_id")) else None), (r"timeout$", LIM)]
    for late in (True, False):
        s = scen(c, "waited too long %s" % late, u, stubs=st, events=[RET], no_inline=[STATS], assume=lambda it: [(le(EL, LIM), not late)])
        if not all(s.hits.get(p) for p, _ in st): c.undecided("expiry", "the time waited or the timeout is computed in another way"); continue
        es = s.ev(RET)
        if not es: c.undecided("expiry", "not a retain over the outstanding packets"); continue
        if late: c.check(all(e.args[1] is FALSE for e in es), "late: lost", "a packet that has waited longer than the timeout is declared lost", es[0].where())
        else:
            keep = [e for e in es if e.args[1] is TRUE]
            c.check(bool(keep), "in time: kept", "a recent packet that has not waited longer than the timeout stays outstanding", es[0].where())
            for e in es:
                if e.args[1] is FALSE:
                    # only because of its age in ids
                    old = any(isinstance(f, tuple) and f[0] is not None and f[0] > 5000 and has(x, lambda y: endswith(y, "next_packet_id")) for k, f in e.state.facts.items() if k[0] == "i" for x, q in k[1]) or \
                          any(isinstance(f, tuple) and f[1] is not None and f[1] < -5000 and has(x, lambda y: endswith(y, "next_packet_id")) for k, f in e.state.facts.items() if k[0] == "i" for x, q in k[1])
                    c.check(old, "in time: lost", "a packet is declared lost early only when its id is about to become ambiguous", e.where())
    n = c.fn(TR + "packet::nack::PacketNackSettings::timeout")
    s = scen(c, "timeout", n)
    for fld_, what in (("rtt", "the round trip"), ("jitter", "the jitter"), ("rtt_multiplier", "its factor"), ("jitter_multiplier", "its factor"), ("minimum_timeout", "the floor"), ("maximum_timeout", "the ceiling")):
        s.some_exit(lambda e: has_field(e.val, fld_) or any(has_field(x, fld_) for x in leaves(e)), "the timeout depends on %s" % what, tag=fld_)
    h = c.fn(HM + "process_recv_packet_header")
    s = scen(c, "sample", h, events=[r"::insert$|::insert_full$|::push$"], no_inline=[STATS, r"ReceiveBuffer::"])
    for e in s.ev(r"::insert|::push$"):
        if not any("newly_acked" in x for x in argfields(e, 0)): continue
        v = e.args[-1]
        rem = [x for x in subvals(v) if x.op == "call" and re.search(r"remove", x.args[0])]
        dec = [k[1] for k, fv in e.state.facts.items() if k[0] == "d" and fv == 1 and k[1].op == "call" and re.search(r"remove", k[1].args[0])]
        samp = [x for x in subvals(v) if x.op == "call" and re.search(r"sub$", x.args[0]) and has(x, lambda y: y is mk("p", "real"))]
        c.check(bool(rem) and rem[0] in dec, "rtt sample source %s" % argfields(e, 0)[-1], "the round-trip sample is computed from the send time of the packet just acknowledged", e.where())
        c.tri(True if samp else (None if not known(v) else False), "rtt sample %s" % argfields(e, 0)[-1], "the sample is the current time minus the send time", e.where())

# ------------------------------------------------------------------------------------------------ T04
@prop("T04", floor=16, explain="""The send system is run with a typestate monitor over the life of a packet (staged, admitted, handed to the link, committed, its messages committed) and in scenarios for the
outcome of staging and admission.""")
def t04(c):
    g = c.fn(TR + "plugin::TransportPlugin::buffer_send")
    BN, BA, CQ = r"PacketBuilder::build_next_packet$", r"PacketBuilder::build_ack_only_packet$", r"BandwidthLimiter::consume_packet_quota$"
    PUSH, CP, CA = r"LinkSender::push(_back)?$", r"HeaderManager::commit_send_packet$", r"HeaderManager::commit_send_ack_only$"
    CS, TK, FS, WA = r"ChannelSend::commit_send$", r"PacketMessageAckTracker::track$", r"ChannelSend::finish_send$", r"ChannelSend::watches_acks$"
    EV = [BN, BA, CQ, PUSH, CP, CA, CS, TK, FS, WA, r"has_pending_ack$"]
    NI = [r"PacketBuilder::", r"PacketStats", r"PriorityManager::", r"ChannelSend::", r"send_mut_erased", r"LinkSender::"]
    def push(m, a, it, st):
        if m == "ackstaged": return "ackpushed"
        if m == "pushed": return "!two payloads for one packet"
        return "pushed" if m == "admitted" else ("!handed over unadmitted" if m == "staged" else "!handed over unstaged")
    def build(m, a): return "!link packet never committed" if m in ("pushed", "ackpushed") else "staged"
    a = Auto("idle", (BN, build), (BA, lambda m, a: "!link packet never committed" if m in ("pushed", "ackpushed") else "ackstaged"),
             (CQ, lambda m, a: "admitted" if m == "staged" else None), (PUSH, push),
             (CP, lambda m, a: "committed" if m == "pushed" else "!committed without entering the link"), (CA, lambda m, a: "idle" if m == "ackpushed" else "!committed without entering the link"),
             (CS, lambda m, a: None if m == "committed" else "!message committed without its packet"), (TK, lambda m, a: None if m == "committed" else "!message tracked without its packet"),
             (FS, lambda m, a: "!link packet never committed" if m in ("pushed", "ackpushed") else None))
    s = scen(c, "life of a packet", g, events=EV, no_inline=NI, monitor=a)
    for p in (BN, CQ, PUSH, CP, CS, TK, FS, BA, CA): c.check(bool(s.ev(p)), "reaches %s" % p, "the send system goes through %s" % p, g.file)
    a.report(c, g, {"handed over unadmitted": "a data packet enters the link only after its bandwidth was requested", "handed over unstaged": "only staged packets enter the link", "two payloads for one packet": "one payload per packet id",
                    "link packet never committed": "every packet entering the link takes its packet id", "committed without entering the link": "a packet id is taken only when a packet enters the link",
                    "message committed without its packet": "messages are committed only with their packet", "message tracked without its packet": "messages wait for an acknowledgement only of a packet that was sent"})
    s.each(CP, lambda e: endswith(e.args[1], "packet_id") if not e.args[1].op == "phi" else None, "the id committed is the staged packet's", tag="id")
    s.each(CS, lambda e: has_field(e.args[1], "commit") or endswith(e.args[1], "key") or None, "the message committed is the packet's", tag="key")
    s.each(TK, lambda e: endswith(e.args[1], "packet_id"), "messages are tracked under the packet that carries them", tag="tracked id")
    def mack(e):
        v = e.args[3]
        if v.op != "agg": return None
        m, f = aggfield(c.P, v, "message_id"), aggfield(c.P, v, "fragment_id")
        return has_field(m, "message") and endswith(f, "fragment_index")
    s.each(TK, mack, "the entry names the message and the fragment the packet carries", tag="tracked entry")
    Q = lambda v: (CQ, const(v))
    s = scen(c, "admission refused", g, events=EV, no_inline=NI, stubs=[Q(False)]).stubbed(CQ)
    s.never(CP, "a packet refused by the bandwidth limiter is not committed"); s.never(CS, "its messages are not committed")
    s.never(PUSH, "a packet refused by the bandwidth limiter does not enter the link", pred=lambda e: not any(k[0] == "d" and k[1].op == "call" and re.search(BA, k[1].args[0]) for k in e.state.facts))
    PK = mk("p", "packet")
    for key, val, q, out in (("all sent", okv(NONE), True, "Complete"), ("staging failed", errv(mk("p", "err")), True, "StagingFailed"), ("refused", okv(some(PK)), False, "BandwidthLimited")):
        s = scen(c, key, g, events=EV, no_inline=NI, stubs=[(BN, val), Q(q)]).stubbed(BN)
        def outc(e):
            v = e.args[1]
            return v.args[1] == out if v.op == "agg" and v.args[0].endswith("SendFlushOutcome") else None
        s.each(FS, outc, "channels are told the outcome %s" % out, tag="outcome")
    for pend in (True, False):
        s = scen(c, "ack pending %s" % pend, g, events=EV, no_inline=NI, stubs=[(BN, okv(NONE)), (r"has_pending_ack$", const(pend)), (BA, okv(mk("p", "ackpacket")))]).stubbed(r"has_pending_ack$")
        if pend: s.always(BA, "an owed acknowledgement is sent even when there is no data"); s.always(CA, "and committed")
        else: s.never(BA, "no acknowledgement packet when none is owed"); s.never(CA, "none committed")
    s = scen(c, "unwatched", g, events=EV, no_inline=NI, stubs=[(WA, FALSE)]).stubbed(WA)
    s.never(TK, "messages of channels without acknowledgements are not tracked")
    b = Auto("idle", (CS, lambda m, a: "msg"), (r"::push$", lambda m, a, it, st: "id" if m == "msg" and "messages_sent" in placefields(it, st, a[0]) else None), (TK, lambda m, a: "idle"),
             (r"::next$|::pop$|::finish_send$", lambda m, a: "!message not tracked" if m == "id" else None))
    s = scen(c, "watched", g, events=EV, no_inline=NI, stubs=[(WA, TRUE)], monitor=b)
    b.report(c, g, {"message not tracked": "every message with an id of an acknowledged channel is tracked under the packet that carries it"})

def all_fragments(c, f, GET, PEND, UM, REM):
    """messages of one to three fragments, each fragment acknowledged or not, acknowledged in every position"""
    P = c.P; FA = TR + "channel::send_reliable::FragmentAck"; MA = TR + "packet::message::MessageAck"
    if FA not in P.adts or MA not in P.adts or UM not in P.adts: c.undecided("fragments", "types of the reliable sender"); return
    rec = lambda adt, **kw: mk("agg", adt, P.adts[adt]["vars"][0][0], tuple(kw.get(n, mk("p", "some " + n)) for n, _ in P.adts[adt]["vars"][0][2]))
    un = 0
    for n in (1, 2, 3):
        for bits in range(1 << n):
            for i in range(n):
                if bits >> i & 1: continue
                key = "%d fragments, %s acknowledged, then %d" % (n, [k for k in range(n) if bits >> k & 1] or "none", i)
                frs = mk("agg", "[]", "", tuple(rec(FA, data=mk("p", "data %d" % k), acked=const(bool(bits >> k & 1))) for k in range(n)))
                pend = mk("agg", UM, "Fragmented", (frs,))
                fi = P.adts.get(TR + "packet::message::FragmentIndex")
                ack = rec(MA, message_id=mk("p", "the message"), fragment_id=some(mk("agg", TR + "packet::message::FragmentIndex", "FragmentIndex", (const(i),))))
                def mon(it, st, kind, info):
                    if kind == "call" and re.search(REM, info[0][0]): st.mon = st.mon + (("removed",),)
                s = scen(c, key, f, args=[None, mk("&", ack)], events=[REM], writes=True, monitor=mon, stubs=[(GET, some(PEND)), walk()],
                         init=lambda it, st, fr: it.wr(st, ("O", PEND), (("F", None, "message", 0),), pend))
                es = [e for e in s.it.events if e.kind == "exit"]
                whole = bits | 1 << i == (1 << n) - 1
                where = "%s:%s (%s)" % (f.file, f.line, f.name)
                if not es or any(not isbool(e.val) for e in es) or any(l.op != "deq" and not plainlit(l) for e in es for l, b in literals(e.state)): un += 1; continue
                for e in es:
                    gone = any(m[0] == "removed" for m in e.state.mon)
                    if gone == whole and bval(e.val) == whole: c.ok(key, "a fragmented message is done exactly when all its fragments are acknowledged")
                    else: c.bad(key, "a fragmented message is %s although its fragments are %s acknowledged" % ("dropped" if gone else "kept", "all" if whole else "not all"), where)
    if un: c.undecided("fragments", "%d cases not evaluated" % un)
def plainlit(l):
    """a condition on the given values only"""
    return not has_call(l, r"Iterator::|::next$") and not has(l, lambda x: x.op == "phi")


# ------------------------------------------------------------------------------------------------ T05
RS = TR + "channel::send_reliable::ReliableSendState::"
REMOVE = r"::(swap_|shift_)?remove(_entry)?$|::clear$|::retain$|::drain$|::extract_if$|::pop(_first|_last)?$|::truncate$|::take$|::replace$"
@prop("T05", floor=14, explain="""Every function of the reliable sender is searched for removals from its pending messages; acknowledgement handling is evaluated per shape of the pending message; candidate selection
and commit are evaluated per case of the last send time.""")
def t05(c):
    P = c.P
    removers = set()
    for f in list(P.fns.values()):
        if f.crate != "lightyear_transport" or not f.name.startswith(RS) or f.kind not in ("fn", "method", "assoc") and "__CALLSITE" in f.name or "{closure" in f.name or f.name.endswith("::new"): continue
        s = scen(c, "removals", f, events=[REMOVE], writes=True, no_inline=[r"FragmentSender"])
        hit = [e for e in s.ev(REMOVE) if argfields(e, 0)[-1:] == ["pending"]]
        if hit and "receive_ack" not in f.name: c.bad("removal in %s" % short(f), "only an acknowledgement takes a message out of the reliable sender", hit[0].where())
        else: c.ok("removal in %s" % short(f), "only an acknowledgement takes a message out of the reliable sender")
        if hit: removers.add(f.name)
        w = [e for e in s.ev(None, "write") if wfield(e) == "pending" and e.val.op in ("agg", "call")]
        c.check(not w, "replacement in %s" % short(f), "the pending messages are never replaced wholesale", w[0].where() if w else "")
    f = c.fn(RS + "receive_ack")
    PEND = mk("p", "pendingref")
    GET = r"HashMap::(get_mut|get|entry)$"
    UM = TR + "channel::send_reliable::UnackedMessage"
    REM = r"HashMap::remove(_entry)?$"
    s = scen(c, "unknown", f, events=[REM], stubs=[(GET, NONE)])
    if s.hits.get(GET):
        s.exits(lambda e: same(s.it, e, e.val, FALSE), "an acknowledgement of a message no longer pending completes nothing", tag="completes"); s.never(REM, "and removes nothing")
    msg = fld(mk("*", PEND), "message")
    s = scen(c, "single", f, events=[REM], stubs=[(GET, some(PEND))], assume=lambda it: [(deq(msg, variant(P, UM, "Single")), True), (deq(fld(mk("*", par(it, "ack")), "fragment_id"), 0), True)], must=[(REM, "rm")])
    if s.hits.get(GET):
        s.exits(lambda e: same(s.it, e, e.val, TRUE), "acknowledging an unfragmented message completes it", tag="completes")
        s.exits(lambda e: "rm" in e.state.must, "and it is no longer pending", tag="removed")
        s.each(REM, lambda e: endswith(strip(e.args[1]), "message_id"), "the message removed is the one acknowledged", tag="which")
    else: c.undecided("single", "pending lookup not recognised")
    s = scen(c, "fragmented", f, events=[REM], stubs=[(GET, some(PEND))], writes=True, assume=lambda it: [(deq(msg, variant(P, UM, "Fragmented")), True), (deq(fld(mk("*", par(it, "ack")), "fragment_id"), 1), True)], must=[(REM, "rm")])
    if s.hits.get(GET):
        wr = [e for e in s.ev(None, "write") if wfield(e) == "acked"]
        c.check(bool(wr) and all(e.val is TRUE for e in wr), "fragment marked", "the acknowledged fragment is marked", f.file)
        s.exits(lambda e: ("rm" in e.state.must) == (e.val is TRUE) if isbool(e.val) and (("rm" in e.state.must) == ("rm" in e.state.may)) else None, "a fragmented message is completed exactly when it is removed", tag="completed iff removed")
        for e in s.ev(REM):
            nf = [k for k, v in e.state.facts.items() if k[0] == "d" and v == 0 and k[1].op == "call" and re.search(r"::next$", k[1].args[0])]
            al = any(k[0] == "b" and has_call(k[1], r"all$") for k in e.state.facts)
            c.tri(True if nf or al else (False if not any(re.search(r"count|all|any|find", x) for x in s.it.seen_calls) else None), "all fragments", "the message is removed only after all its fragments were looked at", e.where())
    all_fragments(c, f, GET, PEND, UM, REM)
    # every message is retransmitted until then
    g = c.fn(RS + "collect_candidates")
    DEL, DIF = mk("p", "delay"), mk("p", "since")
    RD = r"ReliableSettings::resend_delay$"
    SS = r"Duration::(saturating_sub|checked_sub|abs_diff)$|Sub(<[^>]*>)?>?::sub$"
    NR = r"SendCandidate::new_reliable$"
    unsent = lambda e: any(k[0] == "d" and v == 0 and endswith(k[1], "last_sent") for k, v in e.state.facts.items())
    for early in (True, False):
        s = scen(c, "candidates early=%s" % early, g, stubs=[(RD, DEL), (SS, DIF)], events=[NR], assume=lambda it: [(le(DIF, DEL), early)])
        nr = s.ev(NR)
        if not nr: c.undecided("candidates", "candidates are not made by new_reliable"); continue
        if not s.hits.get(RD) or not s.hits.get(SS): c.undecided("resend", "delay not computed as expected"); continue
        kinds = {e.args[2].args[1] for e in nr if e.args[2].op == "agg"}
        for kd in ("ReliableSingle", "ReliableFragment"):
            es = [e for e in nr if e.args[2].op == "agg" and e.args[2].args[1] == kd]
            if early:
                c.check(bool(es), kd + " fresh", "a message never sent is a candidate", g.file)
                for e in es: c.check(unsent(e), kd + " early", "a message already sent is not sent again before the resend delay", e.where())
            else: c.check(any(not unsent(e) for e in es), kd + " resend", "a message sent but not acknowledged is a candidate again after the resend delay", g.file)
        for e in nr:
            acked = [v for k, v in e.state.facts.items() if k[0] == "b" and endswith(k[1], "acked")]
            if e.args[2].op == "agg" and e.args[2].args[1] == "ReliableFragment": c.check(bool(acked) and not acked[0], "acked fragment", "acknowledged fragments are not sent again", e.where())
    # commit records the send time
    h = c.fn(RS + "commit_send")
    SK = TR + "channel::send::SendMessageKey"
    for v in ("ReliableSingle", "ReliableFragment"):
        s = scen(c, v, h, writes=True, assume=lambda it: [(deq(par(it, "key"), next(d for n, d, _ in P.adts[keyadt(P)]["vars"] if n == v)), True)])
        w = [e for e in s.ev(None, "write") if wfield(e) == "last_sent" or "last_sent" in wpath(e)]
        c.check(bool(w) and all(same(s.it, e, e.val, some(mk("p", "sent_at"))) is not False for e in w), v + " sent", "committing records when the message was sent", h.file)
    # buffering
    b = c.fn(RS + "buffer_send")
    s = scen(c, "buffering", b, events=[r"HashMap::insert$"], no_inline=[r"FragmentSender"], must=[(r"HashMap::insert$", "ins")], writes=True)
    s.exits(lambda e: "ins" in e.state.must, "every message handed to a reliable channel becomes pending", tag="pending")
    nid = path(s.it, "self.next_message_id")
    s.each(r"HashMap::insert$", lambda e: same(s.it, e, e.args[1], nid), "under a fresh id", tag="id")
    s.exits(lambda e: step1(s.it, e, nid), "ids are used once", tag="id steps")
    s.exits(lambda e: same(s.it, e, e.val, nid), "the id reported is the id used", tag="id reported")
    for e in s.ev(r"HashMap::insert$"):
        v = aggfield(P, e.args[2], "message")
        if v is not None and v.op == "agg" and v.args[1] == "Single":
            c.check(aggfield(P, v, "bytes") is mk("p", "message") and aggfield(P, v, "last_sent") is NONE, "payload", "the message is stored whole and unsent", e.where())
def keyadt(P):
    return next(a for a in P.adts if a.endswith("::SendMessageKey"))

# ------------------------------------------------------------------------------------------------ T06
CR = TR + "channel::receive::ChannelReceive::"
RST = TR + "channel::receive::RecvState"
MD = TR + "packet::message::MessageData"
def dist(s, a, b):
    """the wrapping distance 'a ahead of b' appearing in the run (a positive value means a is newer than b), or None"""
    out = {}
    for e in s.it.events:
        for x in leaves(e):
            if x.op == "cast" and x.args[1].op == "call" and x.args[1].args[0].endswith("wrapping_sub"):
                p, q = x.args[1].args[1]
                if has_field(p, a) and has_field(q, b): out[x] = 1
                if has_field(p, b) and has_field(q, a): out[x] = -1
    return [(x, k) for x, k in out.items()]
@prop("T06", floor=40, explain="""Receiving and reading are evaluated per channel mode, per shape of the message (whole, completing fragment, incomplete fragment) and per position of its id relative to the
receiver's bookkeeping; every effect on that bookkeeping is compared with the delivery guarantee of the mode.""")
def t06(c):
    P = c.P
    f, r = c.fn(CR + "buffer_recv"), c.fn(CR + "read_message")
    FR = r"FragmentReceiver::receive_fragment$"
    CONT = r"(HashSet::contains|HashMap::contains_key|contains_key|::contains)$"
    ADD = r"::push_back$|::push$|(HashSet|HashMap)::insert$|BTreeMap::insert$|BTreeSet::insert$"
    COMP = mk("p", "complete")
    T, B = mk("f", COMP, "", "0"), mk("f", COMP, "", "1")
    def mode(key, v, shape, extra=lambda it: [], stubs=(), frag=True):
        sh = {"single": "Single"}.get(shape, "Fragment")
        def ass(it):
            d = fld(par(it, "message"), "data")
            out = [(deq(path(it, "self.state"), variant(P, RST, v)), True), (deq(d, variant(P, MD, sh)), True)]
            if sh == "Single" and frag: out.append((deq(mk("f", mk("f", d, "Single", "0"), "", "id"), 1), True))
            return out + extra(it)
        val = okv(some(mk("agg", "()", "", (T, B)))) if shape == "complete" else okv(NONE)
        return scen(c, key, f, assume=ass, stubs=[(FR, val)] + list(stubs), events=[ADD, CONT, r"::clear$"], writes=True)
    def touched(s, only=None):
        """fields of the receive state that change"""
        w = [e for e in s.ev(None, "write") if "state" in wpath(e) and (only is None or wfield(e) in only)]
        a = [e for e in s.ev(ADD) if "state" in argfields(e, 0) and (only is None or argfields(e, 0)[-1] in only)]
        return w + a
    MODES = ("UnreliableUnordered", "UnreliableSequenced", "ReliableUnordered", "ReliableOrdered", "ReliableSequenced")
    payload = {"single": ("remote_sent_tick", "bytes"), "complete": (T, B)}
    def carries(v, shape):
        a, b = payload[shape]
        sub_ = list(subvals(v))
        return (any(endswith(x, a) for x in sub_) and any(endswith(x, b) for x in sub_)) if isinstance(a, str) else (a in sub_ and b in sub_)
    # unordered, unreliable
    for shape in ("single", "complete"):
        s = mode("unordered %s" % shape, "UnreliableUnordered", shape, frag=False)
        s.each(ADD, lambda e: argfields(e, 0)[-1:] == ["ready"] and carries(e.args[1], shape), "every message of an unordered channel is handed on with its tick", tag="delivered")
        s.none_exit(lambda e: is_err(e.val), "no id is required", "an error")
    # no id
    for v in MODES[1:]:
        def noid(it):
            return [(deq(path(it, "self.state"), variant(P, RST, v)), True), (deq(fld(par(it, "message"), "data"), variant(P, MD, "Single")), True), (deq(mk("f", mk("f", fld(par(it, "message"), "data"), "Single", "0"), "", "id"), 0), True)]
        s = scen(c, "%s without id" % v, f, assume=noid, stubs=[(FR, okv(NONE))], events=[ADD], writes=True)
        s.exits(must_err, "a message without id on a %s channel is refused" % v, tag="refused")
        c.check(not touched(s), "%s without id: untouched" % v, "and changes nothing", f.file)
    # sequenced
    for v in ("UnreliableSequenced", "ReliableSequenced"):
        for shape in ("single", "complete", "incomplete"):
            base = mode("%s %s probe" % (v, shape), v, shape)
            ds = dist(base, "newest_seen", "message_id") + dist(base, "newest_seen", "id")
            ns = lambda it: mk("f", path(it, "self.state"), v, "newest_seen"); nc = lambda it: mk("f", path(it, "self.state"), v, "newest_completed")
            if not ds: c.undecided("%s %s" % (v, shape), "the order of the ids is computed in a way that is not recognised"); continue
            ahead = lambda k: [(le(I(1), mul(x, I(o))), True) if k > 0 else ((ieq(x, I(0)), True) if k == 0 else (le(mul(x, I(o)), I(-1)), True)) for x, o in ds]
            s = mode("%s %s older" % (v, shape), v, shape, lambda it: [(deq(ns(it), 1), True)] + ahead(1))
            t = touched(s)
            c.check(not t, "%s %s: older dropped" % (v, shape), "a message older than the newest one seen is dropped and changes nothing", t[0].where() if t else f.file)
            s = mode("%s %s newer" % (v, shape), v, shape, lambda it: [(deq(ns(it), 1), True), (deq(nc(it), 0), True)] + ahead(-1))
            wr = [e for e in s.ev(None, "write") if wfield(e) == "newest_seen"]
            c.check(bool(wr) and all(e.val.op == "agg" and e.val.args[1] == "Some" for e in wr), "%s %s: newer seen" % (v, shape), "a newer message becomes the newest one seen", f.file)
            def final_ready(e):
                x = post(e, mk("f", path(s.it, "self.state"), v, "ready"))
                if shape == "incomplete": return x is NONE or (None if x.op not in ("agg", "f", "p") else False)
                return (x.op == "agg" and x.args[1] == "Some" and carries(x, shape)) or (None if x.op not in ("agg", "f", "p") else False)
            s.exits(lambda e: None if is_err(e.val) else final_ready(e), "a newer message replaces whatever older one was waiting to be read", tag="replaces")
            s = mode("%s %s first" % (v, shape), v, shape, lambda it: [(deq(ns(it), 0), True), (deq(nc(it), 0), True)])
            wr = [e for e in s.ev(None, "write") if wfield(e) == "newest_seen"]
            c.check(bool(wr) and all(e.val.op == "agg" and e.val.args[1] == "Some" for e in wr), "%s %s: first seen" % (v, shape), "the first message becomes the newest one seen", f.file)
            if shape != "incomplete":
                s.exits(lambda e: None if is_err(e.val) else final_ready(e), "and can be read", tag="readable")
                wc = [e for e in s.ev(None, "write") if wfield(e) == "newest_completed"]
                c.check(bool(wc) and all(e.val.op == "agg" and e.val.args[1] == "Some" for e in wc), "%s %s: completed" % (v, shape), "a message handed on is remembered", f.file)
                # duplicates of the newest one
                p = mode("%s %s repeat probe" % (v, shape), v, shape, lambda it: [(deq(ns(it), 1), True)] + ahead(0))
                eqs = {k[1] for e in p.it.events for k in e.state.facts if k[0] in ("b",) and k[1].op in ("veq", "ieq") and has_field(k[1], "newest_completed")}
                if eqs:
                    s = mode("%s %s repeat" % (v, shape), v, shape, lambda it: [(deq(ns(it), 1), True)] + ahead(0) + [(x, True) for x in eqs])
                    t = touched(s)
                    c.check(not t, "%s %s: repeat dropped" % (v, shape), "a message already handed on is not handed on again", t[0].where() if t else f.file)
                else:
                    t = touched(p, ("ready",))
                    c.check(not t, "%s %s: repeat dropped" % (v, shape), "a message already handed on is not handed on again", t[0].where() if t else f.file)
    # reliable unordered / ordered
    for v in ("ReliableUnordered", "ReliableOrdered"):
        for shape in ("single", "complete", "incomplete"):
            base = mode("%s %s probe" % (v, shape), v, shape)
            ds = [(x, -o) for x, o in dist(base, "pending", "message_id") + dist(base, "pending", "id")]   # o>0: id ahead
            if not ds: c.undecided("%s %s" % (v, shape), "the order of the ids is computed in a way that is not recognised"); continue
            s = mode("%s %s behind" % (v, shape), v, shape, lambda it: [(le(mul(x, I(o)), I(-1)), True) for x, o in ds])
            t = touched(s)
            c.check(not t, "%s %s: behind" % (v, shape), "a message at an id already delivered is not delivered again", t[0].where() if t else f.file)
            for n in (0, 1, 7, 20000):
                s = mode("%s %s at %d" % (v, shape, n), v, shape, lambda it: [(ieq(mul(x, I(o)), I(n)), True) for x, o in ds], stubs=[(CONT, FALSE)])
                if not s.hits.get(CONT): c.undecided("%s membership" % v, "duplicates are recognised in another way")
                a = [e for e in s.ev(ADD) if "state" in argfields(e, 0)]
                if shape == "incomplete":
                    c.check(not a, "%s incomplete at %d" % (v, n), "an incomplete message is not handed on", a[0].where() if a else f.file); continue
                c.check(any(argfields(e, 0)[-1] == "ready" and any(carries(x, shape) for x in e.args[1:]) for e in a), "%s %s at %d: kept" % (v, shape, n), "a message not yet delivered is kept with its tick", f.file)
                if v == "ReliableUnordered": c.check(any(argfields(e, 0)[-1] == "received" for e in a), "%s %s at %d: remembered" % (v, shape, n), "and remembered, so that its copies are dropped", f.file)
            s = mode("%s %s copy" % (v, shape), v, shape, stubs=[(CONT, TRUE)])
            if s.hits.get(CONT):
                t = touched(s)
                c.check(not t, "%s %s: copy" % (v, shape), "a copy of a message already received is dropped", t[0].where() if t else f.file)
    # reading
    for v in MODES:
        st = lambda it: path(it, "self.state")
        rd = lambda key, extra=lambda it: [], **kw: scen(c, "read %s %s" % (v, key), r, assume=lambda it: [(deq(st(it), variant(P, RST, v)), True)] + extra(it), writes=True, **kw)
        pend = lambda it: mk("f", st(it), v, "pending")
        POP, RM = r"VecDeque::pop_front$", r"(HashMap|HashSet|BTreeMap)::remove$"
        M = mk("p", "msg")
        if v == "UnreliableUnordered":
            s = rd("", events=[r"VecDeque::pop"])
            s.each(r"VecDeque::pop", lambda e: e.name.endswith("pop_front"), "messages are read in the order they were completed", tag="front")
        elif v.endswith("Sequenced"):
            s = rd("")
            s.exits(lambda e: same(s.it, e, post(e, mk("f", st(s.it), v, "ready")), NONE), "a message read is gone", tag="once")
            for n in ("newest_seen", "newest_completed"):
                s.exits(lambda e: post(e, mk("f", st(s.it), v, n)) is mk("f", st(s.it), v, n), "reading does not forget which messages were delivered", tag=n)
        elif v == "ReliableOrdered":
            s = rd("missing", stubs=[(RM, NONE)])
            if s.hits.get(RM):
                s.exits(lambda e: same(s.it, e, e.val, NONE), "nothing is read before the next message in order has arrived", tag="waits")
                s.exits(lambda e: same(s.it, e, post(e, pend(s.it)), pend(s.it)), "and the position stays", tag="position")
                s = rd("present", stubs=[(RM, some(mk("agg", "()", "", (mk("p", "tick"), mk("p", "data")))))], events=[RM])
                s.each(RM, lambda e: same(s.it, e, strip(e.args[1]), pend(s.it)), "the message read is the next one in order", tag="which")
                s.exits(lambda e: step1(s.it, e, pend(s.it)), "the position moves by exactly one", tag="position")
                s.exits(lambda e: e.val.op == "agg" and e.val.args[1] == "Some" and has(e.val, lambda x: x is mk("p", "data")), "the message is handed over", tag="handed over")
            else: c.undecided("read ReliableOrdered", "how the next message is taken is not recognised")
        else:
            a = Auto("idle", (RM, lambda m, a: None))
            s = rd("", stubs=[(POP, some(mk("agg", "()", "", (mk("p", "id"), mk("p", "tick"), mk("p", "data"))))), (RM, FALSE)], events=[RM, POP])
            if s.hits.get(POP) and s.hits.get(RM):
                s.exits(lambda e: same(s.it, e, post(e, pend(s.it)), pend(s.it)), "the lowest undelivered id moves only past messages already delivered", tag="position")
                s = rd("advance", stubs=[(POP, some(mk("agg", "()", "", (mk("p", "id"), mk("p", "tick"), mk("p", "data")))))], events=[RM])
                s.each(RM, lambda e: argfields(e, 0)[-1:] == ["received"] and (endswith(strip(e.args[1]), "pending") or strip(e.args[1]).op == "phi" or None), "only the lowest undelivered id is moved past", tag="past")
            else: c.undecided("read ReliableUnordered", "how messages are taken is not recognised")
