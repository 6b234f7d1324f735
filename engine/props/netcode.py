"""netcode: packet authentication, handshake, admission, timeouts."""
from itertools import product
from lib import *
from props import prop

NC = "lightyear_netcode::"
RP = NC + "replay::ReplayProtection::"
READ = NC + "packet::Packet::read"
SRV = NC + "server::Server::"
CLI = NC + "client::Client::"
KIND = {"request": 0, "denied": 1, "challenge": 2, "response": 3, "keep-alive": 4, "payload": 5, "disconnect": 6}
ERRV = mk("p", "some_error")
READ_NI = (r"::read_from$", r"::chacha_(de|en)crypt$", r"ReplayProtection::", r"RequestPacket::(validate|decrypt_token_data)$")

def prefix_stub(kind, seqlen=2):
    b = const(kind if kind == 0 else (kind | seqlen << 4))
    return (r"::read_u8$", lambda it, st, fr, a, sym: okv(b))

def read_scen(c, key, kind, replay=None, stubs=(), seqlen=2, **kw):
    """Packet::read of a well-formed datagram of the given kind"""
    asm = []
    if replay is not None: asm.append((lambda it: deq(mk("p", "replay_protection"), 1 if replay else 0)))
    def assume(it):
        return [(f(it), True) for f in asm]
    return scen(c, key, READ, assume=assume, stubs=[prefix_stub(kind, seqlen)] + list(stubs), no_inline=READ_NI,
                events=(r"::chacha_decrypt$", r"::advance_sequence$", r"::is_already_received$", r"::validate$", r"::decrypt_token_data$"),
                **kw).stubbed(r"::read_u8$")

# ------------------------------------------------------------------------------------------------ N01
@prop("N01", floor=14, explain="""The acceptance test of the replay window is evaluated symbolically in four exhaustive cases over (sequence, highest, slot); the datagram
reader is evaluated for each replay-protected kind with the window answering 'seen' and 'not seen' and with authentication failing and succeeding; both endpoints'
calls of the reader are checked for the window they hand over.""",
      assume=["slots are written only by the function that advances the window (checked)", "sequence numbers stay below 2^64-257"])
def n01(c):
    f = c.fn(RP + "is_already_received")
    P = c.P
    def slotleaf(it, e):
        out = [x for k in e.state.facts for x in ([k[1]] if isinstance(k[1], V) else [t for t, _ in k[1]]) if has(x, lambda y: y.op == "idx")]
        for v in [e.val]: out += [x for x in subvals(v) if x.op == "idx"]
        return out
    # window size: length of the slot array
    a = P.adts.get(NC + "replay::ReplayProtection")
    if not a: raise MissingAnchor("replay window type")
    m = re.search(r"\[u64; (\d+)\]", str(a["vars"]) + str([c.P.ty("lightyear_netcode", f[1]) for v in a["vars"] for f in v[2] if isinstance(f[1], int)]))
    n = int(m.group(1)) if m else 256
    SEQ = lambda it: par(it, "sequence")
    top = lambda it: (le(SEQ(it), const(2**64 - 1 - n)), True)
    mrs = lambda it: path(it, "self.most_recent_sequence")
    # case 1: too old
    s = scen(c, "older than the window", f, assume=lambda it: [top(it), (le(add(SEQ(it), const(n)), mrs(it)), True)])
    s.exits(lambda e: decide(s.it, e, e.val, True), "a sequence number a full window or more behind the highest accepted one is rejected")
    # cases 2..4: inside the window
    base = lambda it: [top(it), (le(add(SEQ(it), const(n)), mrs(it)), False)]
    s0 = scen(c, "inside the window", f, assume=base)
    slots = set()
    for e in s0.ev(None, "exit"): slots |= set(slotleaf(s0.it, e))
    slots = {x for x in slots if x.op == "idx"}
    idxs = {x.args[1] for x in slots}
    if len(slots) != 1: c.undecided("slot", "slot expression not unique: %s" % [show(x) for x in slots])
    else:
        slot = slots.pop()
        i = slot.args[1]
        okidx = i.op == "bin" and ((i.args[0] == "Rem" and i.args[2] is const(n)) or (i.args[0] == "BitAnd" and i.args[2] is const(n - 1))) and n and SEQ(s0.it) in list(subvals(i))
        c.check(okidx, "slot index", "the slot of a sequence number is determined by the number modulo the window size", f.file)
        s = scen(c, "slot empty", f, assume=lambda it: base(it) + [(ieq(slot, const(2**64 - 1)), True)])
        s.exits(lambda e: decide(s.it, e, e.val, False), "a number inside the window whose slot is empty is let through")
        s2 = scen(c, "slot holds it", f, assume=lambda it: base(it) + [(ieq(slot, const(2**64 - 1)), False), (ieq(sub(slot, SEQ(it)), const(0)), True)])
        s2.exits(lambda e: decide(s2.it, e, e.val, True), "a number whose slot already holds it is rejected")
        s3 = scen(c, "slot holds an older one", f, assume=lambda it: base(it) + [(lt(slot, SEQ(it)), True)])
        s3.exits(lambda e: decide(s3.it, e, e.val, False), "a number newer than the one in its slot is let through")
        s4 = scen(c, "slot holds a newer one", f, assume=lambda it: base(it) + [(lt(SEQ(it), slot), True), (ieq(slot, const(2**64 - 1)), False)])
        s4.exits(lambda e: decide(s4.it, e, e.val, True), "a number older than the one in its slot is rejected")
    # advance
    g = c.fn(RP + "advance_sequence")
    for key, newer in (("newer than the highest", True), ("not newer than the highest", False)):
        s = scen(c, key, g, assume=lambda it: [(lt(mrs(it), SEQ(it)), newer)], writes=True)
        w = s.ev(None, "write")
        mw = [e for e in w if e.projs and str(e.projs[-1]).find("most_recent_sequence") >= 0]
        sw = [e for e in w if e not in mw]
        larger = lambda v: v is SEQ(s.it) or (v is mrs(s.it) and not newer) or (v.op == "max" and set(v.args) == {mrs(s.it), SEQ(s.it)})
        c.check(all(larger(e.val) if e in mw else e.val is SEQ(s.it) for e in w), "advance value " + key, "accepting a packet records exactly its sequence number", g.file)
        if newer: c.check(len(mw) >= 1, "advance moves", "the highest accepted number moves up", g.file)
        else: c.check(not any(e.val is SEQ(s.it) and decide(s.it, e, ieq(sub(e.val, mrs(s.it)), const(0)), True) is not True for e in mw), "advance monotone", "the highest accepted number never moves down", g.file)
        c.check(len(sw) >= 1, "advance slot " + key, "the accepted number is stored in its slot", g.file)
        s.exits(lambda e: "w:received_packet" in e.state.must and ("w:most_recent_sequence" in e.state.must or not newer), "the accepted number is recorded on every path", tag="recorded")
        if len(idxs) == 1 and sw:
            i = list(idxs)[0]
            c.check(any(i in list(subvals(x)) if isinstance(x, V) else str(i) in str(x) for e in sw for x in e.projs), "same slot " + key, "the number is stored in the slot the acceptance test looks at", g.file)
    # reader
    for kn in ("keep-alive", "payload", "disconnect"):
        k = KIND[kn]
        s = read_scen(c, kn + " already seen", k, True, [(r"is_already_received$", TRUE)])
        s.never(r"chacha_decrypt$", "a replayed %s packet is rejected before it is decrypted" % kn)
        s.never(r"advance_sequence$", "a replayed %s packet leaves the window alone" % kn)
        s.exits(must_err, "a replayed %s packet is rejected" % kn)
        s = read_scen(c, kn + " forged", k, True, [(r"is_already_received$", FALSE), (r"chacha_decrypt$", errv(ERRV))])
        s.never(r"advance_sequence$", "a %s packet that fails authentication leaves the window alone" % kn)
        s = read_scen(c, kn + " fresh", k, True, [(r"is_already_received$", FALSE), (r"chacha_decrypt$", okv())], must=[(r"advance_sequence$", "adv")])
        s.exits(lambda e: not ok_exit(e) or "adv" in e.state.must, "every accepted %s packet is recorded in the window" % kn, tag="recorded")
        s.some_exit(ok_exit, "a fresh authentic %s packet is accepted" % kn, "accept")
        s = read_scen(c, kn + " sequence", k, True)
        seen = s.ev(r"is_already_received$"); adv = s.ev(r"advance_sequence$"); dec = s.ev(r"chacha_decrypt$")
        ids = {e.args[1] for e in seen} | {e.args[1] for e in adv} | {e.args[2] for e in dec}
        c.check(seen and adv and dec and len(ids) == 1, "one sequence number " + kn, "the number tested, used as the nonce and recorded is the same", READ)
    # endpoints hand over their own window
    s = scen(c, "connected client", CLI + "recv_packet", assume=lambda it: [(deq(path(it, "self.state"), variant(P, NC + "client::ClientState", "Connected")), True), (le(mk("len", mk("p", "buf")), const(1)), False)],
             events=[r"Packet::read$"], no_inline=[r"Packet::read$", r"Client::process_packet$"])
    s.each(r"Packet::read$", lambda e: e.args[4].op == "agg" and e.args[4].args[1] == "Some" and has_field(e.args[4], "replay_protection"), "a connected client reads with its replay window", tag="window handed over")
    s = scen(c, "known client", SRV + "recv_packet", stubs=[(r"::read_u8$", okv(const(0x15)))], events=[r"Packet::read$"], no_inline=[r"Packet::read$", r"Server::process_packet$", r"find_by_entity$"])
    s.each(r"Packet::read$", lambda e: has_field(e.args[4], "replay_protection"), "the server reads with the client's replay window", tag="window handed over")

# ------------------------------------------------------------------------------------------------ N02
@prop("N02", floor=25, explain="""For every packet kind the reader is evaluated with authentication failing: no path may return a packet. The inputs of every AEAD seal and
open (associated data, nonce, key) are traced to the protocol id, the prefix byte, the sequence number and the key handed in, on both the writing and the reading side.""",
      assume=["the AEAD primitive of the chacha20poly1305 crate is correct"])
def n02(c):
    P = c.P
    for kn, k in KIND.items():
        if k == 0: continue
        for sl in (1, 8):
            s = read_scen(c, "%s/%d forged" % (kn, sl), k, None, [(r"chacha_decrypt$", errv(ERRV))], seqlen=sl)
            s.exits(must_err, "a %s datagram that fails authentication yields no packet" % kn)
            s = read_scen(c, "%s/%d" % (kn, sl), k, False, must=[(r"chacha_decrypt$", "dec")], seqlen=sl)
            s.exits(lambda e: is_err(e.val) or "dec" in e.state.must, "no %s packet is returned without decryption" % kn, tag="decrypted")
    s = scen(c, "aad", READ, stubs=[prefix_stub(5, 2)], no_inline=READ_NI + (r"Packet::aead$",), events=(r"chacha_decrypt$", r"Packet::aead$"))
    s.each(r"Packet::aead$", lambda e: strip(e.args[0]) is mk("p", "protocol_id") and e.args[1] is const(0x25), "the reader authenticates its own protocol id and the received prefix byte")
    s.each(r"chacha_decrypt$", lambda e: has_call(e.args[1], r"Packet::aead$") and strip(e.args[3]) is mk("p", "key") and has_call(e.args[2], r"read_|from_le_bytes") , "the reader opens with the associated data, the session key and the received sequence number")
    W = NC + "packet::Packet::write_encrypted"
    s = scen(c, "seal", W, events=(r"chacha_encrypt$", r"Packet::aead$", r"Packet::prefix$", r"::write_u8$", r"write_sequence$"), must=[(r"chacha_encrypt$", "enc")])
    s.exits(lambda e: is_err(e.val) or "enc" in e.state.must, "no packet is returned unsealed", tag="sealed")
    seq = mk("p", "sequence")
    s.each(r"Packet::aead$", lambda e: e.args[0] is mk("p", "protocol_id") and has_call(e.args[1], r"Packet::prefix$"), "the writer authenticates its protocol id and the prefix byte it sends")
    s.each(r"Packet::prefix$", lambda e: e.args[0] is mk("p", "kind") and e.args[1] is seq, "the prefix byte encodes the packet kind and sequence length")
    s.each(r"::write_u8$", lambda e: has_call(e.args[1], r"Packet::prefix$"), "the prefix byte is sent")
    s.each(r"write_sequence$", lambda e: e.args[1] is seq, "the sequence number is sent")
    s.each(r"chacha_encrypt$", lambda e: has_call(e.args[1], r"Packet::aead$") and e.args[2] is seq and strip(e.args[3]) is mk("p", "packet_key"), "the writer seals with the associated data, its sequence number and its key")
    s = scen(c, "content", NC + "packet::Packet::aead", events=(r"write_all$", r"::write_u64$", r"::write_u8$"), must=[(r"write_all$", "v"), (r"::write_u64$", "p"), (r"::write_u8$", "b")])
    s.exits(lambda e: is_err(e.val) or {"v", "p", "b"} <= e.state.must, "the associated data contains version, protocol id and prefix byte", tag="three parts")
    s.each(r"write_all$", lambda e: "NETCODE_VERSION" in show(e.args[1]), "the associated data contains the protocol version")
    s.each(r"::write_u64$", lambda e: e.args[1] is mk("p", "protocol_id"), "the associated data contains the protocol id")
    s.each(r"::write_u8$", lambda e: e.args[1] is mk("p", "prefix"), "the associated data contains the prefix byte")
    # each packet is written under its own kind
    vs = {"Request": 0, "Denied": 1, "Challenge": 2, "Response": 3, "KeepAlive": 4, "Payload": 5, "Disconnect": 6}
    for v, k in vs.items():
        if v == "Request": continue
        s = scen(c, "kind of " + v, NC + "packet::Packet::write", assume=lambda it: [(deq(par(it, "self"), variant(P, NC + "packet::Packet", v)), True)], events=[r"write_encrypted$"])
        s.each(r"write_encrypted$", lambda e: e.args[1] is const(k) and e.args[2] is seq and strip(e.args[3]) is mk("p", "packet_key") and e.args[4] is mk("p", "protocol_id"), "a %s packet is sealed under its own kind with the given sequence, key and protocol id" % v)
        s.exits(lambda e: is_err(e.val) or has_call(e.val, "write_encrypted"), "a %s packet is always sealed" % v)
    s = scen(c, "payload kind", NC + "packet::Packet::write_payload", events=[r"write_encrypted$"])
    s.each(r"write_encrypted$", lambda e: e.args[1] is const(5) and e.args[2] is seq and strip(e.args[3]) is mk("p", "packet_key") and e.args[4] is mk("p", "protocol_id"), "a payload is sealed under the payload kind with the given sequence, key and protocol id")
    for fn, prim in (("chacha_encrypt", "encrypt_in_place_detached"), ("chacha_decrypt", "decrypt_in_place_detached")):
        s = scen(c, "primitive", NC + "crypto::" + fn, events=[prim + "$", r"::write_u64$"], must=[(prim + "$", "x"), (r"::write_u64$", "n")])
        s.exits(lambda e: is_err(e.val) or {"x", "n"} <= e.state.must, "no success without running the AEAD", tag="runs")
        s.each(r"::write_u64$", lambda e: e.args[1] is mk("p", "nonce"), "the nonce is the number handed in")
        s.each(prim + "$", lambda e: has(e.args[0], lambda x: x is mk("p", "key")), "the key is the key handed in")
        s = scen(c, "primitive with data", NC + "crypto::" + fn, assume=lambda it: [(deq(mk("p", "associated_data"), 1), True)], events=[prim + "$"])
        s.each(prim + "$", lambda e: has(e.args[2], lambda x: x is mk("p", "associated_data")), "the associated data handed in is authenticated")
        s = scen(c, "primitive fails", NC + "crypto::" + fn, stubs=[(prim + "$", errv(ERRV))])
        s.exits(must_err, "an AEAD failure is reported")
    for fn, prim in (("xchacha_encrypt", "encrypt_in_place_detached"), ("xchacha_decrypt", "decrypt_in_place_detached")):
        s = scen(c, "primitive", NC + "crypto::" + fn, events=[prim + "$"], must=[(prim + "$", "x")])
        s.exits(lambda e: is_err(e.val) or "x" in e.state.must, "no success without running the AEAD", tag="runs")
        s.each(prim + "$", lambda e: has(e.args[0], lambda x: x is mk("p", "key")) and has(e.args[1], lambda x: x is mk("p", "nonce")), "key and nonce are the ones handed in")
        s = scen(c, "primitive fails", NC + "crypto::" + fn, stubs=[(prim + "$", errv(ERRV))])
        s.exits(must_err, "an AEAD failure is reported")

# ------------------------------------------------------------------------------------------------ N03
WR = r"packet::Packet::(write|write_payload)$"
@prop("N03", floor=14, explain="""Every call that seals or opens a packet in the client and in the server is enumerated from the call graph and its key argument traced to its
source; helpers that take the key as a parameter are followed to all their callers.""")
def n03(c):
    P = c.P
    keypos = {"write": 3, "write_payload": 3}
    seen = set()
    def keyok(side, v):
        v = strip(v)
        if side == "client": return endswith(v, "client_to_server_key")
        return endswith(v, "send_key") or endswith(v, "server_to_client_key")
    work = {}
    for f, b, t, k in callsites(P, WR, {"lightyear_netcode"}):
        g = topfn(P, f)
        if g.name.startswith(NC + "packet::"): continue
        work.setdefault(g.name, g)
    c.check(len(work) >= 6, "writers found", "the functions that seal packets are found from the call graph")
    done = set()
    def analyse(name, pat, pos):
        g = P.fn(name); side = "client" if "::client::" in name else "server"
        s = scen(c, "key", g, events=[pat], no_inline=[WR, r"::send_netcode_packet$", r"::send_to_addr$", r"LinkSender", r"::handle_request$", r"num_connected_clients$", r"mut_by|find_by|::read_from$"])
        es = s.ev(pat)
        if not es: c.bad("%s: key" % short(g), "seal call not reachable in analysis", g.file); return
        for e in es:
            v = strip(e.args[pos])
            if v.op == "p":   # parameter: follow to the callers
                idx = [i for i, n in sorted(g.names.items()) if n == v.args[0]]
                cs = callsites(P, re.escape(name) + "$", {"lightyear_netcode"})
                pn = idx[0] - 1 if idx else None
                for f, b, t, k in cs:
                    h = topfn(P, f)
                    if (h.name, name) in done: continue
                    done.add((h.name, name)); analyse(h.name, re.escape(name) + "$", pn)
                continue
            c.check(keyok(side, v), "%s: key %s" % (short(g), pat[-30:]), "the %s seals with its own sending key" % side, e.where())
    for n in sorted(work): analyse(n, WR, 3)
    # opening keys
    s = scen(c, "receive key", CLI + "recv_packet", events=[r"Packet::read$"])
    s.each(r"Packet::read$", lambda e: endswith(e.args[3], "server_to_client_key"), "the client opens with the server-to-client key")
    s.each(r"Packet::read$", lambda e: endswith(e.args[1], "protocol_id"), "the client reads under its protocol id", tag="protocol")
    for k in range(1, 7):
        s = scen(c, "receive key kind %d" % k, SRV + "recv_packet", stubs=[(r"::read_u8$", okv(const(0x10 | k)))], events=[r"Packet::read$"], no_inline=[r"find_by_entity$", r"Server::process_packet$"])
        s.each(r"Packet::read$", lambda e: endswith(e.args[3], "receive_key"), "the server opens a known client's packet with that client's receiving key")
        s.each(r"Packet::read$", lambda e: endswith(e.args[1], "protocol_id"), "the server reads under its protocol id", tag="protocol")
        s = scen(c, "unknown sender kind %d" % k, SRV + "recv_packet", stubs=[(r"::read_u8$", okv(const(0x10 | k))), (r"find_by_entity$", NONE)], events=[r"Packet::read$", r"process_packet$"])
        s.never(r"Packet::read$", "a packet other than a connection request from an unknown sender is dropped unread")
    s = scen(c, "request key", SRV + "recv_packet", stubs=[(r"::read_u8$", okv(const(0)))], events=[r"Packet::read$"], no_inline=[r"find_by_entity$", r"Server::process_packet$"])
    s.each(r"Packet::read$", lambda e: endswith(e.args[3], "private_key"), "connection requests are opened with the server's private key")
    # installation of the keys
    s = scen(c, "installed keys", SRV + "process_connection_request", events=[r"ConnectionCache::add$"], no_inline=[r"find_by|send_netcode_packet|num_connected|ChallengeToken|handle_request|server_addr_matches|find_or_insert|::read_from$"])
    a = c.fn(NC + "server::ConnectionCache::add")
    order = [n for i, n in sorted(a.names.items(), key=lambda x: int(x[0])) if int(i) <= a.argc]
    si, ri = order.index("send_key"), order.index("receive_key")
    s.each(r"ConnectionCache::add$", lambda e: endswith(e.args[si], "server_to_client_key") and endswith(e.args[ri], "client_to_server_key"), "the server sends with the server-to-client key and receives with the client-to-server key")
    s = scen(c, "stored keys", a, writes=True, events=[r"HashMap::insert$"])
    ins = [e for e in s.ev(r"HashMap::insert$") if has(e.args[2], lambda x: x.op == "agg" and str(x.args[0]).endswith("server::Connection"))]
    flds = [f[0] for f in P.adts[NC + "server::Connection"]["vars"][0][2]]
    for e in ins:
        ag = [x for x in subvals(e.args[2]) if x.op == "agg" and str(x.args[0]).endswith("server::Connection")][0]
        fl = ag.args[2]
        c.check(strip(fl[flds.index("send_key")]) is mk("p", "send_key") and strip(fl[flds.index("receive_key")]) is mk("p", "receive_key"), "stored keys", "both keys are stored under their own role", e.where())
    if not ins: c.bad("stored keys", "no connection entry is inserted", a.file)
    for e in s.ev(None, "write"):
        n = str(e.projs[-1]) if e.projs else ""
        for k in ("send_key", "receive_key"):
            if "'%s'" % k in n or n.endswith(k): c.check(strip(e.val) is mk("p", k), "updated " + k, "a re-requested session gets both keys under their own role", e.where())

# ------------------------------------------------------------------------------------------------ N04
@prop("N04", floor=14, explain="""Every function that seals a packet is analysed with a path monitor: on each path where a sealed packet is queued, the counter that was used as
its number is stepped by exactly one before the function returns, and it is stepped on no other value. All other assignments to the counters in the crate are enumerated
and must be increments (or the reset of a finished client connection). The two server ranges that share a key are compared.""",
      assume=["fewer than 2^62 packets are sent by one server process"])
def n04(c):
    P = c.P
    work = {}
    for f, b, t, k in callsites(P, WR, {"lightyear_netcode"}):
        g = topfn(P, f)
        if not g.name.startswith(NC + "packet::"): work[g.name] = g
    PUSH = r"LinkSender::push$|::Vec::push$|::push_back$"
    SP = 2
    for n, g in sorted(work.items()):
        used = {}
        def mon(it, st, kind, info):
            m = st.mon or ("idle", None)
            if kind == "call":
                names, args, fr, bb = info
                if any(re.search(WR, x) for x in names): st.mon = ("sealed", it.normarg(st, args[SP]))
                elif any(re.search(PUSH, x) for x in names):
                    if m[0] == "sealed": st.mon = ("queued", m[1])
                    elif m[0] == "stepped": st.mon = ("done", m[1])
                    elif m[0] in ("queued", "done"): st.mon = ("twice", m[1])
            elif kind == "write":
                fr, root, projs, v = info
                nm = [p[2] for p in projs if p[0] == "F"]
                if nm and nm[-1] == "sequence":
                    if m[1] is not None and sub(v, m[1]) is const(1):
                        st.mon = ({"sealed": "stepped", "queued": "done"}.get(m[0], "twice"), m[1])
                    else: st.mon = ("odd", m[1])
        s = scen(c, "nonce", g, events=[WR, PUSH], writes=True, monitor=mon, no_inline=[r"touch|mut_by|find_by"])
        s.each(WR, lambda e: endswith(e.args[SP], "sequence"), "a packet is sealed under a stored sequence counter", tag="number from a counter")
        bad = [e for e in s.ev(None, "exit") if e.state.mon and e.state.mon[0] in ("queued", "twice", "odd")]
        key = "%s: counter steps" % short(g)
        if bad: c.bad(key, "a queued packet's number is not followed by exactly one step of its counter (%s)" % bad[0].state.mon[0], bad[0].where())
        else:
            done = [e for e in s.ev(None, "exit") if e.state.mon and e.state.mon[0] == "done"]
            if done: c.ok(key, "each queued packet steps its counter by one")
            else: c.bad(key, "no path queues the sealed packet and steps its counter", g.file)
    # every other writer
    ws = {}
    for f, b, line, k, pl, last in field_writes(P, "sequence", None, {"lightyear_netcode"}):
        if not last: continue
        p = [x for x in pl[1:] if isinstance(x, list) and x[0] == "f"][-1]
        if not any(str(p[3]).endswith(x) for x in ("client::Client", "server::Server", "server::Connection")): continue
        g = topfn(P, f)
        ws.setdefault(g.name, g)
    for n, g in sorted(ws.items()):
        s = scen(c, "writer", g, writes=True, no_inline=[r"Packet::write", r"reset_connection", r"set_state"])
        for e in s.ev(None, "write"):
            if wfield(e) != "sequence": continue
            d = None
            v = e.val
            if v.op == "lin": d = lin_of(v)[1]
            if n.endswith("Client::reset") and isint(v): c.ok("%s: reset" % short(g), "only a finished client connection restarts its counter"); continue
            base = [x for x in subvals(v) if endswith(x, "sequence")]
            c.check(bool(base) and sub(v, base[-1]) is const(1) or any(sub(v, x) is const(1) for x in base), "%s: step" % short(g), "the counter only ever moves up by one", e.where())
    # the client only rewinds when the connection is over
    for f, b, t, k in callsites(P, r"client::Client::reset$", {"lightyear_netcode"}):
        g = topfn(P, f)
        s = scen(c, "reset target", g, events=[r"Client::reset$"], no_inline=[r"connect_to_next_server|send_netcode_packet"])
        for e in s.ev(r"Client::reset$"):
            ok = e.args[1].op == "agg" and e.args[1].args[1] not in ("SendingConnectionRequest", "SendingChallengeResponse", "Connected") or endswith(e.args[1], "should_disconnect_state")
            c.check(ok, "%s: reset target" % short(g), "the counter restarts only when the client leaves the connection", e.where())
    # disjoint ranges
    s = scen(c, "initial", SRV + "with_config")
    A = B = None
    for e in s.ev(None, "exit"):
        for x in subvals(e.val):
            if x.op == "agg" and str(x.args[0]).endswith("server::Server"):
                fl = [f[0] for f in P.adts[NC + "server::Server"]["vars"][0][2]]; A = x.args[2][fl.index("sequence")]
    s = scen(c, "initial", NC + "server::ConnectionCache::add", events=[r"HashMap::insert$"], writes=True)
    for e in s.ev(r"HashMap::insert$"):
        for x in subvals(e.args[2]):
            if x.op == "agg" and str(x.args[0]).endswith("server::Connection"):
                fl = [f[0] for f in P.adts[NC + "server::Connection"]["vars"][0][2]]; B = x.args[2][fl.index("sequence")]
    c.check(not any(wfield(e) == "sequence" for e in s.ev(None, "write")), "re-request keeps the counter", "a repeated connection request does not rewind the session's counter", "server.rs")
    c.check(A is not None and B is not None and isint(A) and isint(B) and abs(ival(A) - ival(B)) >= 1 << 48, "disjoint ranges", "handshake packets and session packets sealed with the same key draw their numbers from ranges that never meet", "server.rs")
    # challenge tokens
    s = scen(c, "challenge", SRV + "process_connection_request", events=[r"ChallengeToken::encrypt$"], writes=True, must=[(r"ChallengeToken::encrypt$", "ch")],
             no_inline=[r"find_by|send_netcode_packet|num_connected|ChallengeToken|handle_request|server_addr_matches|find_or_insert|ConnectionCache::add|::read_from$"])
    s.each(r"ChallengeToken::encrypt$", lambda e: any(endswith(a, "challenge_sequence") for a in e.args), "challenge tokens are sealed under the challenge counter")
    st = [e for e in s.ev(None, "write") if wfield(e) == "challenge_sequence"]
    c.check(bool(st) and all(any(endswith(x, "challenge_sequence") and sub(e.val, x) is const(1) for x in subvals(e.val)) for e in st), "challenge counter", "the challenge counter moves up by one per challenge", "server.rs")

# ------------------------------------------------------------------------------------------------ N05
@prop("N05", floor=12, explain="""The reader's connection-request branch and the token validation are evaluated case by case: wrong version, wrong protocol id, expired token,
failed token decryption; none may yield a request packet. Associated data of the private token are traced on both sides.""")
def n05(c):
    P = c.P
    V_ = NC + "packet::RequestPacket::validate"
    for key, stubs in (("validation fails", [(r"validate$", errv(ERRV))]), ("token does not open", [(r"decrypt_token_data$", errv(ERRV))])):
        s = read_scen(c, "request " + key, 0, None, stubs)
        s.exits(must_err, "a connection request whose %s is rejected" % key)
        if "validation" in key: s.never(r"decrypt_token_data$", "an invalid request is rejected before its token is opened")
    s = read_scen(c, "request", 0, None, must=[(r"validate$", "v"), (r"decrypt_token_data$", "d")])
    s.exits(lambda e: is_err(e.val) or {"v", "d"} <= e.state.must, "every accepted request was validated and opened", tag="both")
    s.some_exit(ok_exit, "a valid request is accepted", "accept")
    s.each(r"RequestPacket::validate$", lambda e: e.args[1] is mk("p", "protocol_id") and e.args[2] is mk("p", "timestamp"), "the request is validated against the reader's protocol id and clock")
    s.each(r"decrypt_token_data$", lambda e: strip(e.args[1]) is mk("p", "key"), "the token is opened with the reader's key")
    exp = lambda it: (path(it, "self.expire_timestamp"), mk("p", "current_timestamp"))
    s = scen(c, "expired", V_, assume=lambda it: [(le(*exp(it)), True)]); s.exits(must_err, "an expired request is invalid")
    s = scen(c, "protocol", V_, assume=lambda it: [(ieq(sub(path(it, "self.protocol_id"), mk("p", "protocol_id")), const(0)), False)]); s.exits(must_err, "a request for another protocol is invalid")
    s = scen(c, "all good", V_, assume=lambda it: [(le(*exp(it)), False), (ieq(sub(path(it, "self.protocol_id"), mk("p", "protocol_id")), const(0)), True)])
    s.some_exit(ok_exit, "an unexpired request for this protocol is valid", "valid")
    vf = [k for e in s.ev(None, "exit") if is_ok(e.val) for k in e.state.facts if has(k[1] if isinstance(k[1], V) else k[1][0][0], lambda x: endswith(x, "version_info"))]
    c.check(bool(vf), "version", "a request is only valid if its version was compared", c.fn(V_).file)
    s = scen(c, "token", NC + "packet::RequestPacket::decrypt_token_data", stubs=[(r"ConnectTokenPrivate::decrypt$", errv(ERRV))], events=[r"ConnectTokenPrivate::decrypt$"])
    s.exits(must_err, "a token that does not open is rejected")
    s.each(r"ConnectTokenPrivate::decrypt$", lambda e: any(endswith(a, "protocol_id") for a in e.args) and any(endswith(a, "expire_timestamp") for a in e.args) and any(endswith(a, "token_nonce") for a in e.args) and any(strip(a) is mk("p", "private_key") for a in e.args),
           "the token is opened under the request's protocol id, expiry and nonce and the server's key")
    for d in ("encrypt", "decrypt"):
        s = scen(c, "private token", NC + "token::ConnectTokenPrivate::" + d, events=[r"xchacha_%s$" % d, r"ConnectTokenPrivate::aead$"], no_inline=[r"ConnectTokenPrivate::aead$", r"::read_from$", r"::write_to$"])
        s.each(r"ConnectTokenPrivate::aead$", lambda e: e.args[0] is mk("p", "protocol_id") and e.args[1] is mk("p", "expire_timestamp"), "protocol id and expiry are authenticated with the token")
        s.each(r"xchacha_%s$" % d, lambda e: has_call(e.args[1], "ConnectTokenPrivate::aead$") and has(e.args[3], lambda x: x is mk("p", "private_key")), "the token is sealed with the private key and its associated data")
        s = scen(c, "private token fails", NC + "token::ConnectTokenPrivate::" + d, stubs=[(r"xchacha_%s$" % d, errv(ERRV))], no_inline=[r"::read_from$", r"::write_to$"])
        s.exits(must_err, "a token that cannot be authenticated is rejected")
    s = scen(c, "content", NC + "token::ConnectTokenPrivate::aead", events=[r"write_all$", r"::write_u64$"], must=[(r"write_all$", "v")])
    s.exits(lambda e: is_err(e.val) or "v" in e.state.must, "the version is authenticated", tag="version")
    vals = {str(e.args[1]) for e in s.ev(r"::write_u64$")}
    looped = any(e.args[1].op != "p" and not isint(e.args[1]) for e in s.ev(r"::write_u64$"))          # taken from a collection: which one is not followed
    c.tri(True if {"protocol_id", "expire_timestamp"} <= vals else None if looped else False, "token aad", "protocol id and expiry are authenticated", "token.rs")

# ------------------------------------------------------------------------------------------------ N06
REQ = SRV + "process_connection_request"; RSP = SRV + "process_connection_response"
REQ_NI = (r"find_by|send_netcode_packet$|num_connected_clients$|ChallengeToken::|handle_request$|server_addr_matches$|find_or_insert$|ConnectionCache::add$|::read_from$",)
REQ_EV = (r"ConnectionCache::add$", r"send_netcode_packet$", r"ChallengeToken::encrypt$")
CONNREF = mk("p", "conn"); CONN = mk("*", CONNREF)
def is_kind(e, i, v): return has(e.args[i], lambda x: x.op == "agg" and str(x.args[0]).endswith("packet::Packet") and x.args[1] == v)
def listed(c):
    """which token addresses are this server's"""
    P = c.P; f = c.fn(next((n for n in P.byname if n.endswith("server::server_addr_matches")), "lightyear_netcode::server::server_addr_matches")); wh = "%s:%s (%s)" % (f.file, f.line, f.name)
    names = [f.names[1], f.names[2]]; LO = {"unspecified": (True, False), "loopback": (False, True), "other": (False, False)}
    for port, fam, ip, a, b in product((True, False), (True, False), (True, False), LO, LO):
        if ip and (a != b or not fam): continue
        def side(it, st, a_):
            v = it.normarg(st, a_); h = [i for i, n in enumerate(names) if has(v, lambda y: y is mk("p", n))]
            return h[0] if len(h) == 1 else None
        def by(vals):
            def g(it, st, fr, ar, sym):
                i = side(it, st, ar[0]); return None if i is None else vals[i]
            return g
        def eq(it, st, fr, ar, sym):
            x, y = side(it, st, ar[0]), side(it, st, ar[1])
            if x is None or y is None or x == y: return None
            whole = not any(has(it.normarg(st, v), lambda z: z.op == "p" and str(z.args[0]).startswith("ip of ")) for v in ar[:2])
            return const((ip and (port or not whole)) != it.cur_names[0].endswith("::ne"))
        ips = [mk("agg", "ip", "ip", (mk("p", "ip of %d" % i), mk("p", names[i]))) for i in range(2)]
        s = scen(c, "", f, stubs=[(r"SocketAddr\w*::port$", by([const(1), const(1 if port else 2)])), (r"::is_ipv4$", by([TRUE, const(fam)])), (r"::is_ipv6$", by([FALSE, const(not fam)])), (r"SocketAddr\w*::ip$", by(ips)),
                                   (r"::is_unspecified$", by([const(LO[a][0]), const(LO[b][0])])), (r"::is_loopback$", by([const(LO[a][1]), const(LO[b][1])])), (r"PartialEq(<.*>)?::(eq|ne)$", eq)])
        want = port and fam and (ip or {a, b} == {"unspecified", "loopback"})
        tag = "listed address: %s port, %s family, %s, server %s, token %s" % ("same" if port else "other", "same" if fam else "other", "same ip" if ip else "other ip", a, b)
        for e in s.it.events:
            if e.kind == "exit": c.tri(None if not isbool(e.val) else bval(e.val) == want, tag, "a token lists this server when one of its addresses is the server's, the loopback and unspecified addresses standing for each other", wh)


@prop("N06", floor=20, explain="""The two admission steps of the server are evaluated under each refusal condition (full server, refusing handler, token for another server,
session or identity already connected, undecryptable or unknown challenge) and must neither register nor connect the client; the only writers of the connected flag are
enumerated; the connecting path must be guarded by the client limit.""")
def n06(c):
    P = c.P; listed(c)
    noaddr = lambda it: [(deq(mk("p", "server_addr"), 0), True)]
    N = mk("p", "n_connected")
    free = [(r"find_by_entity$", NONE), (r"find_by_id$", NONE), (r"find_or_insert$", TRUE)]
    room = lambda it: [(lt(N, path(it, "self.cfg.max_clients")), True)]
    full = lambda it: [(lt(N, path(it, "self.cfg.max_clients")), False)]
    def req(key, stubs, assume):
        return scen(c, key, REQ, stubs=stubs, assume=assume, events=REQ_EV, no_inline=REQ_NI)
    conn_fact = lambda it: [(mk("f", CONN, "", "connected"), True)]
    s = req("session already connected", [(r"find_by_entity$", some(CONNREF))] + free[1:], lambda it: noaddr(it) + conn_fact(it))
    s.never(REQ_EV[0], "a connected session is not registered again"); s.never(REQ_EV[2], "a connected session gets no challenge"); s.exits(must_err, "a request on a connected session is refused")
    s = req("identity already connected", [free[0], (r"find_by_id$", some(CONNREF)), free[2]], lambda it: noaddr(it) + conn_fact(it))
    s.never(REQ_EV[0], "a connected identity is not registered again"); s.never(REQ_EV[2], "a connected identity gets no challenge"); s.exits(must_err, "a request for a connected identity is refused")
    s = req("full", free + [(r"num_connected_clients$", N), (r"handle_request$", NONE)], lambda it: noaddr(it) + full(it))
    s.never(REQ_EV[0], "no client is registered while the server is full"); s.never(REQ_EV[2], "no challenge is sent while the server is full"); s.exits(must_err, "a request to a full server is refused")
    s.each(r"send_netcode_packet$", lambda e: is_kind(e, 1, "Denied") and "ServerFull" in show(e.args[1]), "the client is told the server is full")
    s = req("handler refuses", free + [(r"num_connected_clients$", N), (r"handle_request$", some(mk("p", "reason")))], lambda it: noaddr(it) + room(it))
    s.never(REQ_EV[0], "a client the handler refuses is not registered"); s.never(REQ_EV[2], "a client the handler refuses gets no challenge")
    s.each(r"send_netcode_packet$", lambda e: is_kind(e, 1, "Denied") and has(e.args[1], lambda x: x is mk("p", "reason")), "the client is told the handler's reason")
    s = req("other server", free + [(r"num_connected_clients$", N), (r"handle_request$", NONE), (r"server_addr_matches$", FALSE)], lambda it: [(deq(mk("p", "server_addr"), 1), True)] + room(it))
    s.never(REQ_EV[0], "a token for another server is not registered"); s.never(REQ_EV[2], "a token for another server gets no challenge")
    s = req("token in use", free[:2] + [(r"find_or_insert$", FALSE), (r"num_connected_clients$", N), (r"handle_request$", NONE)], lambda it: noaddr(it) + room(it))
    s.never(REQ_EV[0], "a token in use is not registered"); s.exits(must_err, "a token in use is refused")
    s = req("admissible", free + [(r"num_connected_clients$", N), (r"handle_request$", NONE), (r"ChallengeToken::encrypt$", okv(mk("p", "challenge"))), (r"send_netcode_packet$", okv())], lambda it: noaddr(it) + room(it))
    s.stubbed(r"num_connected_clients$", r"handle_request$", r"find_by_entity$", r"find_by_id$")
    s.always(REQ_EV[0], "an admissible request is registered"); s.each(r"send_netcode_packet$", lambda e: is_kind(e, 1, "Challenge"), "an admissible request is challenged")
    s.each(r"ConnectionCache::add$", lambda e: has_field(e.args[1], "client_id") and has_call(e.args[1], "read_from$"), "the client is registered under the token's identity")
    # response
    RNI = (r"num_connected_clients$|send_netcode_packet$|send_netcode_to_client$|ChallengeToken::|Server::on_connect$",)
    REV = (r"Connection::connect$", r"Server::on_connect$", r"send_netcode_packet$", r"send_netcode_to_client$")
    CH = mk("p", "challenge"); chok = (r"ChallengeToken::decrypt$", okv(CH))
    getc = [(r"HashMap::get$", some(CONNREF)), (r"HashMap::get_mut$", some(CONNREF))]
    def rsp(key, stubs, assume=None):
        return scen(c, key, RSP, stubs=stubs, assume=assume, events=REV, no_inline=RNI, writes=True)
    def noconn(s, why):
        s.never(REV[0], why); s.never(REV[1], why)
        w = [e for e in s.ev(None, "write") if wfield(e) == "connected"]
        c.check(not w, "%s: connected flag" % s.key, why, w[0].where() if w else "")
    s = rsp("forged challenge", [(r"ChallengeToken::decrypt$", errv(ERRV))]); noconn(s, "a response whose challenge does not open connects nobody"); s.exits(must_err, "a forged challenge is an error")
    s = rsp("unknown client", [chok, (r"HashMap::get$", NONE), (r"HashMap::get_mut$", NONE)]); noconn(s, "a response from an unregistered client connects nobody"); s.exits(must_err, "an unregistered client is an error")
    s = rsp("already connected", [chok] + getc, conn_fact); noconn(s, "a repeated response does not connect or announce the client again")
    pend = lambda it: [(mk("f", CONN, "", "connected"), False)]
    s = rsp("full", [chok] + getc + [(r"num_connected_clients$", N)], lambda it: pend(it) + full(it)); s.stubbed(r"num_connected_clients$", chok[0])
    noconn(s, "no client connects while the server is full"); s.exits(must_err, "a response to a full server is refused")
    s = rsp("admissible", [chok] + getc + [(r"num_connected_clients$", N)], lambda it: pend(it) + room(it))
    s.always(REV[0], "an admissible response connects the client")
    s = scen(c, "challenge key", RSP, events=[r"ChallengeToken::decrypt$"], no_inline=RNI)
    s.each(r"ChallengeToken::decrypt$", lambda e: has_field(e.args[0], "token") and endswith(e.args[2], "challenge_key"), "the challenge is opened with the server's challenge key")
    # connected flag writers
    for f, b, line, k, pl, last in field_writes(P, "connected", "server::Connection", {"lightyear_netcode"}):
        c.check(f.name.endswith("Connection::connect"), "flag writer %s" % short(topfn(P, f)), "the connected flag is set in one place only", "%s:%s" % (f.file, line))
    for f, b, t, k in callsites(P, r"server::Connection::connect$", {"lightyear_netcode"}):
        c.check(topfn(P, f).name == RSP, "connect caller %s" % short(topfn(P, f)), "only a completed handshake connects a client", "%s:%s" % (f.file, b))
    # the count
    s = scen(c, "counted clients", SRV + "num_connected_clients")
    cl = [f for f in P.fns.values() if f.name.startswith(SRV + "num_connected_clients::{closure")]
    for f in cl:
        it = c.run(f)
        c.check(all(endswith(e.val, "connected") for e in events(it, None, "exit")), "count filter", "exactly the connected clients are counted", f.file)
    s = scen(c, "new entry", NC + "server::ConnectionCache::add", events=[r"HashMap::insert$"])
    fl = [f[0] for f in P.adts[NC + "server::Connection"]["vars"][0][2]]
    for e in s.ev(r"HashMap::insert$"):
        for x in subvals(e.args[2]):
            if x.op == "agg" and str(x.args[0]).endswith("server::Connection"):
                c.check(x.args[2][fl.index("connected")] is FALSE, "registered is not connected", "a registered client starts out not connected", e.where())

# ------------------------------------------------------------------------------------------------ N07
PKTS = ["Request", "Denied", "Challenge", "Response", "KeepAlive", "Payload", "Disconnect"]
@prop("N07", floor=60, explain="""The client's packet handler is evaluated for all combinations of packet kind and connection state (7 x 10); its effects (state change, stored
challenge, requested disconnect, refreshed receive time, surfaced payload) must be exactly those of the handshake table. All places that move the client to Connected are enumerated.""")
def n07(c):
    P = c.P
    ST = P.adts.get(NC + "client::ClientState")
    if not ST: raise MissingAnchor("client state type")
    PP = CLI + "process_packet"
    EFF = {("Denied", "SendingConnectionRequest"): "deny", ("Denied", "SendingChallengeResponse"): "deny", ("Challenge", "SendingConnectionRequest"): "challenge",
           ("KeepAlive", "SendingChallengeResponse"): "connect", ("KeepAlive", "Connected"): "alive", ("Payload", "Connected"): "payload", ("Disconnect", "Connected"): "disconnect"}
    for pk in PKTS:
        for sname, sd, _ in ST["vars"]:
            eff = EFF.get((pk, sname), "ignore")
            s = scen(c, "%s while %s" % (pk, sname), PP, assume=lambda it: [(deq(mk("p", "packet"), variant(P, NC + "packet::Packet", pk)), True), (deq(path(it, "self.state"), sd), True)],
                     writes=True, events=[r"Client::set_state$", r"on_state_change"])
            W = {}
            for e in s.ev(None, "write"): W.setdefault(wfield(e), []).append(e)
            states = [e.args[1] for e in s.ev(r"set_state$")]
            k = "%s in %s" % (pk, sname)
            tgt = [x.args[1] if x.op == "agg" else show(x) for x in states]
            if eff == "challenge": c.check(tgt and set(tgt) == {"SendingChallengeResponse"}, k + ": state", "a challenge moves the client to answering it", PP)
            elif eff == "connect": c.check(tgt and set(tgt) == {"Connected"}, k + ": state", "the first keep-alive connects the client", PP)
            else: c.check(not tgt and not W.get("state"), k + ": state", "the packet leaves the connection state alone", PP)
            d = W.get("should_disconnect", [])
            if eff in ("deny", "disconnect"):
                c.check(d and all(e.val is TRUE for e in d), k + ": leaves", "the client leaves the connection", PP)
                t = [e.val for e in W.get("should_disconnect_state", [])]
                want = "ConnectionDenied" if eff == "deny" else "Disconnected"
                c.check(t and all(v.op == "agg" and v.args[1] == want for v in t), k + ": reason", "the reason is recorded", PP)
            else: c.check(not d, k + ": stays", "the packet does not end the connection", PP)
            if eff == "challenge":
                c.check(all(has_field(e.val, "sequence") for e in W.get("challenge_token_sequence", [])) and W.get("challenge_token_sequence") and W.get("challenge_token_data") and all(has_field(e.val, "token") for e in W.get("challenge_token_data", [])),
                        k + ": token", "the challenge to echo is the one received", PP)
            if eff == "connect": c.check(bool(W.get("id")) and all(has_field(e.val, "client_id") for e in W["id"]), k + ": id", "the client takes the identity the server confirmed", PP)
            else: c.check(not W.get("id"), k + ": id", "the identity is only taken from the connecting keep-alive", PP)
            if eff == "ignore": c.check(not W, k + ": no effect", "a packet out of place changes nothing", PP)
            elif "last_receive_time" in W: c.check(all(endswith(e.val, "time") for e in W["last_receive_time"]), k + ": heard", "a packet in place refreshes the receive time", PP)
            else: c.bad(k + ": heard", "a packet in place refreshes the receive time", PP)
            if eff == "payload": s.exits(lambda e: is_ok(e.val) and "Some" in show(e.val), "a payload of a connected client is surfaced")
            else: s.none_exit(lambda e: has(e.val, lambda x: x.op == "agg" and x.args[1] == "Some"), "nothing is surfaced", "a payload")
    for f, b, t, k in callsites(P, r"client::Client::set_state$", {"lightyear_netcode"}):
        g = topfn(P, f)
        if g.name == PP: c.ok("caller " + short(g), "known"); continue
        s = scen(c, "set_state", g, events=[r"set_state$"], no_inline=[r"reset_connection$"])
        s.each(r"set_state$", lambda e: not (e.args[1].op == "agg" and e.args[1].args[1] in ("Connected", "SendingChallengeResponse")), "the client only becomes connected by handling a packet", tag="set_state in " + short(g))
    ws = {topfn(P, f).name for f, b, l, k, pl, last in field_writes(P, "state", "client::Client", {"lightyear_netcode"}) if last}
    c.check(ws <= {CLI + "set_state"}, "state writers", "the connection state changes in one place only", str(ws))
    # what is sent in which state
    for sname, sd, _ in ST["vars"]:
        s = scen(c, "sends while " + sname, CLI + "send_packets", assume=lambda it: [(deq(path(it, "self.state"), sd), True)], events=[r"send_netcode_packet$"])
        want = {"SendingConnectionRequest": "Request", "SendingChallengeResponse": "Response", "Connected": "KeepAlive"}.get(sname)
        if want: s.each(r"send_netcode_packet$", lambda e: is_kind(e, 1, want), "the handshake step of this state is sent")
        else: s.never(r"send_netcode_packet$", "nothing is sent outside a connection")
    s = scen(c, "response", CLI + "send_packets", assume=lambda it: [(deq(path(it, "self.state"), variant(P, NC + "client::ClientState", "SendingChallengeResponse")), True)], events=[r"send_netcode_packet$"])
    s.each(r"send_netcode_packet$", lambda e: has_field(e.args[1], "challenge_token_sequence") and has_field(e.args[1], "challenge_token_data"), "the stored challenge is echoed")

# ------------------------------------------------------------------------------------------------ N08
@prop("N08", floor=14, explain="""Timeout decisions of both endpoints are evaluated in the cases {no timeout configured, deadline not passed, deadline passed} x connection state; every
packet handler that accepts a packet is checked to refresh the receive time with the current time.""",
      assume=["time is a finite, non-NaN number"])
def n08(c):
    P = c.P
    ST = {n: d for n, d, _ in P.adts[NC + "client::ClientState"]["vars"]}
    U = CLI + "update_state"
    # learn the two float comparisons from the code: deadline = last_receive_time + timeout < time ; expiry
    s0 = scen(c, "all", U, events=[r"Client::reset$"], no_inline=[r"connect_to_next_server$"])
    dl, ex = set(), set()
    for e in s0.it.events:
        for l, v in literals(e.state):
            if l.op in ("flt", "fle"):
                if has_field(l, "last_receive_time"): dl.add(l)
                elif has_field(l, "start_time"): ex.add(l)
    if len(dl) != 1 or len(ex) != 1: c.undecided("client deadline", "comparisons not recognised"); raise MissingAnchor("the client's timeout comparison")
    dl = dl.pop(); ex = ex.pop()
    def late(b, side_late, side_now):
        """truth value of the comparison b that means 'now' has passed the deadline"""
        x, y = b.args[0], b.args[1]
        if has_field(y, "time"): return True
        if has_field(x, "time"): return False
        return None
    t_late = late(dl, "last_receive_time", "time")
    form = [x for x in subvals(dl) if x.op == "bin" and x.args[0] == "Add"]
    c.check(t_late is not None and form and any(endswith(strip(y), "last_receive_time") for y in form[0].args[1:]) and has_field(form[0], "timeout_seconds"), "client deadline", "the deadline is the last receive time plus the token's timeout, compared with now", U)
    t_exp = None if late(ex, "start_time", "time") is None else not late(ex, "start_time", "time")   # value meaning "token not expired"
    TO = lambda it: path(it, "self.token.timeout_seconds")
    TERM = {"SendingConnectionRequest": "ConnectionRequestTimedOut", "SendingChallengeResponse": "ChallengeResponseTimedOut", "Connected": "ConnectionTimedOut"}
    for sn, sd in ST.items():
        base = lambda it: [(deq(path(it, "self.state"), sd), True), (path(it, "self.should_disconnect"), False), (ex, t_exp)]
        s = scen(c, "no timeout configured, " + sn, U, assume=lambda it: base(it) + [(le(TO(it), const(0)), True)], events=[r"Client::reset$", r"connect_to_next_server$"])
        s.never(r"Client::reset$|connect_to_next", "without a timeout the client never times out")
        s = scen(c, "deadline not passed, " + sn, U, assume=lambda it: base(it) + [(le(TO(it), const(0)), False), (dl, not t_late)], events=[r"Client::reset$", r"connect_to_next_server$"])
        s.never(r"Client::reset$|connect_to_next", "before the deadline the client stays as it is")
        s = scen(c, "deadline passed, " + sn, U, assume=lambda it: base(it) + [(le(TO(it), const(0)), False), (dl, t_late)], events=[r"Client::reset$", r"connect_to_next_server$"], stubs=[(r"connect_to_next_server$", errv(UNIT))])
        if sn in TERM: s.each(r"Client::reset$", lambda e: e.args[1].op == "agg" and e.args[1].args[1] == TERM[sn], "past the deadline the client leaves with the matching reason")
        else: s.never(r"Client::reset$", "a client outside a connection does not time out")
    # server
    K = SRV + "check_for_timeouts"
    getm = [(r"HashMap::get_mut$", some(CONNREF)), (r"HashMap::get$", some(CONNREF))]
    EV = (r"Server::on_disconnect$", r"ConnectionCache::remove$")
    CT = mk("f", CONN, "", "timeout"); CC = mk("f", CONN, "", "connected")
    getm += [(EV[0], UNIT), (EV[1], UNIT)]
    s0 = scen(c, "all", K, stubs=getm, events=EV, no_inline=[r"take_client_ids|recycle"])
    dls = {l for e in s0.it.events for l, v in literals(e.state) if l.op in ("flt", "fle") and has_field(l, "last_receive_time")}
    if len(dls) != 1: raise MissingAnchor("the server's timeout comparison (%d found)" % len(dls))
    d2 = dls.pop(); l2 = late(d2, "last_receive_time", "time")
    form = [x for x in subvals(d2) if x.op == "bin" and x.args[0] == "Add"]
    c.check(l2 is not None and form and has_field(form[0], "timeout"), "server deadline", "the deadline is the client's last receive time plus its timeout, compared with now", K)
    def tmo(key, assume):
        return scen(c, key, K, stubs=getm, assume=assume, events=EV, no_inline=[r"take_client_ids|recycle"])
    s = tmo("not connected", lambda it: [(CC, False)]); s.stubbed(r"HashMap::get_mut$") if not s.hits.get(r"HashMap::get$") else None
    s.never(r"on_disconnect$|remove$", "a client that is not connected does not time out")
    s = tmo("no timeout configured", lambda it: [(CC, True), (le(CT, const(0)), True)]); s.never(r"on_disconnect$|remove$", "a client without a timeout never times out")
    s = tmo("deadline not passed", lambda it: [(CC, True), (le(CT, const(0)), False), (d2, not l2)]); s.never(r"on_disconnect$|remove$", "a client is kept before its deadline")
    s = tmo("one not connected", lambda it: [(CC, False)]); s.exhausts("one client that is not due does not keep the others from being examined")
    s = tmo("one not due", lambda it: [(CC, True), (d2, not l2)]); s.exhausts("one client that is not due does not keep the others from being examined")
    s = tmo("deadline passed", lambda it: [(CC, True), (le(CT, const(0)), False), (d2, l2)]); s.always(r"on_disconnect$", "a client past its deadline is disconnected"); s.always(r"ConnectionCache::remove$", "a client past its deadline is removed")
    s = scen(c, "every update", SRV + "update_state", events=[r"check_for_timeouts$"], must=[(r"check_for_timeouts$", "t")], writes=True)
    s.exits(lambda e: "t" in e.state.must, "every update looks for timed out clients")
    # refreshed on receive
    for pk in ("KeepAlive", "Payload"):
        s = scen(c, pk + " heard", SRV + "process_packet", assume=lambda it: [(deq(mk("p", "packet"), variant(P, NC + "packet::Packet", pk)), True), (CC, True)], stubs=[(r"find_by_entity$", some(CONNREF)), (r"mut_by_id$", some(CONNREF))], writes=True, events=[r"mut_by_id$"])
        w = [e for e in s.ev(None, "write") if wfield(e) == "last_receive_time"]
        c.check(bool(w) and all(endswith(e.val, "time") for e in w), "%s refreshes" % pk, "a %s of a connected client refreshes its receive time" % pk, SRV + "process_packet")
        s.exits(lambda e: is_err(e.val) or "w:last_receive_time" in e.state.must, "every packet of a connected client refreshes its receive time", tag="always refreshed")
        s.each(r"mut_by_id$", lambda e: has(e.args[1], lambda x: x is mk("f", CONN, "", "client_id")), "the client that sent it is refreshed")
    for pk, sn in (("KeepAlive", "SendingChallengeResponse"), ("KeepAlive", "Connected"), ("Payload", "Connected"), ("Challenge", "SendingConnectionRequest")):
        s = scen(c, "%s while %s heard" % (pk, sn), CLI + "process_packet", assume=lambda it: [(deq(mk("p", "packet"), variant(P, NC + "packet::Packet", pk)), True), (deq(path(it, "self.state"), ST[sn]), True)], writes=True, no_inline=[r"set_state$"])
        s.exits(lambda e: is_err(e.val) or "w:last_receive_time" in e.state.must, "every packet the client acts on refreshes its receive time")
    ws = {topfn(P, f).name for f, b, l, k, pl, last in field_writes(P, "last_receive_time", None, {"lightyear_netcode"}) if last}
    c.check(ws <= {SRV + "touch_client", RSP, CLI + "process_packet", CLI + "reset_connection"}, "receive time writers", "the receive time is only refreshed when something was received or a connection (re)starts", str(sorted(ws)))
    s = scen(c, "accept", RSP, writes=True, no_inline=(r"num_connected_clients$|send_netcode|ChallengeToken::|on_connect$",), stubs=[(r"HashMap::get$", some(CONNREF)), (r"HashMap::get_mut$", some(CONNREF)), (r"ChallengeToken::decrypt$", okv(mk("p", "challenge")))])
    w = [e for e in s.ev(None, "write") if wfield(e) == "last_receive_time"]
    c.check(bool(w) and all(endswith(e.val, "time") for e in w), "accept refreshes", "a newly connected client starts with a fresh receive time", RSP)

# ------------------------------------------------------------------------------------------------ N09
@prop("N09", floor=14, explain="""Each function that announces a connection or a disconnection is analysed with a path monitor: the announcement and the change of the client table must
occur together, once, for the same client, on every path; the removal function must clear every table keyed by that client.""")
def n09(c):
    P = c.P
    s = scen(c, "announce", RSP, events=[r"Server::on_connect$", r"Connection::connect$"], must=[(r"Server::on_connect$", "told"), (r"Connection::connect$", "conn")], no_inline=(r"num_connected_clients$|send_netcode|ChallengeToken::",),
             stubs=[(r"send_netcode_to_client$", okv())])
    s.exits(lambda e: not is_ok(e.val) or ("told" in e.state.must) == ("conn" in e.state.must), "a client is announced exactly when it is connected", tag="paired")
    s.each(r"Server::on_connect$", lambda e: "conn" in e.state.must, "a client is connected before it is announced", tag="order")
    s.each(r"Server::on_connect$", lambda e: has_field(e.args[1], "client_id"), "the announced identity is the challenge's", tag="who")
    for f, b, t, k in callsites(P, r"server::Server::on_connect$", {"lightyear_netcode"}):
        c.check(topfn(P, f).name == RSP, "announcer " + short(topfn(P, f)), "connections are announced by the completed handshake only", "%s:%s" % (f.file, b))
    ways = [c.fn(SRV + w) for w in ("process_packet", "disconnect", "check_for_timeouts")]
    up, roots = callers_up(P, SRV + "on_disconnect", {g.name for g in ways})
    for g in ways: c.check(g.name in up, "way out: " + short(g), "timeouts, disconnect packets and local disconnects announce the end of a session", g.name)
    callers = {g.name: g for g in ways}
    callers.update(roots)
    OD, RM = r"Server::on_disconnect$", r"ConnectionCache::remove$"
    for n, g in sorted(callers.items()):
        def mon(it, st, kind, info):
            if kind != "call": return
            names, args, fr, bb = info
            m = st.mon
            for pat, me, other in ((OD, "told", "removed"), (RM, "removed", "told")):
                if any(re.search(pat, x) for x in names):
                    v = strip(it.normarg(st, args[1]))
                    if not m: st.mon = (me, v)
                    elif m[0] == other and m[1] is v: st.mon = ()
                    else: st.mon = ("odd", v)
        s = scen(c, "paired", g, events=[OD, RM], monitor=mon, no_inline=[r"process_connection_|touch_client|send_to_client|take_client_ids|recycle"],
                 stubs=[(r"HashMap::get_mut$", some(CONNREF)), (r"find_by_entity$", some(CONNREF))], assume=lambda it: [(mk("f", CONN, "", "connected"), True)])
        s.always(OD, "the end of a connected session is announced")
        s.always(RM, "the session's slot is freed")
        s.exits(lambda e: not e.state.mon, "announcing the end of a session and freeing its slot go together, for the same client", tag="paired")
        if n.endswith("::disconnect") or n.endswith("check_for_timeouts"):
            s = scen(c, "not connected", g, events=[OD, RM], no_inline=[r"send_to_client|take_client_ids|recycle"], stubs=[(r"HashMap::get_mut$", some(CONNREF))], assume=lambda it: [(mk("f", CONN, "", "connected"), False)])
            s.never(OD, "no end is announced for a session that was never connected")
    s = scen(c, "gone", SRV + "process_packet", assume=lambda it: [(deq(mk("p", "packet"), variant(P, NC + "packet::Packet", "Disconnect")), True)], stubs=[(r"find_by_entity$", NONE)], events=[OD, RM])
    s.never(OD, "a second disconnect packet announces nothing")
    R = NC + "server::ConnectionCache::remove"
    for key, cn in (("connected client", True), ("client in handshake", False)):
        s = scen(c, key, R, events=[r"HashMap::remove$"], stubs=[(r"HashMap::get$", some(CONNREF)), (r"HashMap::remove$", some(mk("p", "removed")))], assume=lambda it: [(mk("f", CONN, "", "connected"), cn)])
        for tab, keyf in (("clients", lambda a: strip(a) is mk("p", "client_id")), ("replay_protection", lambda a: strip(a) is mk("p", "client_id")), ("client_id_map", lambda a: has_field(a, "entity"))):
            es = [e for e in s.ev(r"HashMap::remove$") if has_field(e.args[0], tab)]
            c.check(bool(es) and all(keyf(e.args[1]) for e in es), "%s: %s cleared" % (key, tab), "freeing a slot clears every table of that client", R)
    s = scen(c, "lookup", NC + "server::ConnectionCache::find_by_entity")
    # graceful disconnect tells the peer
    s = scen(c, "tells the peer", SRV + "disconnect", events=[r"send_to_client$", RM], stubs=[(r"HashMap::get_mut$", some(CONNREF))], assume=lambda it: [(mk("f", CONN, "", "connected"), True)], must=[(RM, "rm")])
    s.each(r"send_to_client$", lambda e: is_kind(e, 1, "Disconnect") and "rm" not in e.state.must, "disconnect packets are sent before the session's keys are dropped")

# ------------------------------------------------------------------------------------------------ N10
@prop("N10", floor=12, explain="""The packet handlers and send functions of both endpoints are evaluated for sessions that are unknown, in handshake and connected; the receive loops are
checked to put back only what the packet reader returned.""")
def n10(c):
    P = c.P
    pay = lambda it: [(deq(mk("p", "packet"), variant(P, NC + "packet::Packet", "Payload")), True)]
    nothing = lambda e: is_err(e.val) or not has(e.val, lambda x: x.op == "agg" and x.args[1] == "Some" and x.args[0].endswith("Option")) and "?" not in show(e.val)[:4]
    s = scen(c, "unknown session", SRV + "process_packet", assume=pay, stubs=[(r"find_by_entity$", NONE)]).stubbed(r"find_by_entity$")
    s.exits(nothing, "a payload from an unknown session is not surfaced")
    s = scen(c, "session in handshake", SRV + "process_packet", assume=lambda it: pay(it) + [(mk("f", CONN, "", "connected"), False)], stubs=[(r"find_by_entity$", some(CONNREF))], no_inline=[r"touch_client$"])
    s.exits(nothing, "a payload from a session that has not completed the handshake is not surfaced")
    s = scen(c, "connected session", SRV + "process_packet", assume=lambda it: pay(it) + [(mk("f", CONN, "", "connected"), True)], stubs=[(r"find_by_entity$", some(CONNREF))], no_inline=[r"touch_client$"])
    s.exits(lambda e: is_ok(e.val) and has(e.val, lambda x: x.op == "agg" and x.args[1] == "Some"), "a payload of a connected session is surfaced")
    for pk in PKTS:
        if pk == "Payload": continue
        s = scen(c, pk, SRV + "process_packet", assume=lambda it: [(deq(mk("p", "packet"), variant(P, NC + "packet::Packet", pk)), True)], no_inline=[r"touch_client$|process_connection_|find_by_entity$|on_disconnect$|ConnectionCache::remove$"])
        if s.ev(None, "exit"): s.exits(nothing, "a %s packet surfaces nothing to the application" % pk)
    # send
    S = SRV + "send"
    EV = (r"send_payload_to_client$", r"send_to_client$")
    ll = lambda it: mk("len", mk("p", "buf"))
    s = scen(c, "unknown session", S, stubs=[(r"HashMap::get_mut$", NONE), (r"HashMap::get$", NONE)], events=EV); s.never(EV[0], "nothing is sent to an unknown session"); s.exits(must_err, "sending to an unknown session is an error")
    s = scen(c, "session in handshake", S, stubs=[(r"HashMap::get_mut$", some(CONNREF)), (r"HashMap::get$", some(CONNREF))], assume=lambda it: [(mk("f", CONN, "", "connected"), False)], events=EV); s.never(EV[0], "nothing is sent to a session in handshake"); s.exits(must_err, "sending to a session in handshake is an error")
    s = scen(c, "connected session", S, stubs=[(r"HashMap::get_mut$", some(CONNREF)), (r"HashMap::get$", some(CONNREF))], assume=lambda it: [(mk("f", CONN, "", "connected"), True), (le(ll(it), const(1)), True)], events=EV); s.always(EV[0], "a payload is sent to a connected session")
    s.each(EV[0], lambda e: strip(e.args[2]) is mk("p", "client_id") and strip(e.args[1]) is mk("p", "buf"), "the payload given is sent to the client given", tag="target")
    mx = c.P  # payload limit
    s = scen(c, "oversized", S, assume=lambda it: [(le(ll(it), const(1200)), False)], events=EV); s.never(EV[0], "an oversized payload is not sent"); s.exits(must_err, "an oversized payload is an error")
    s = scen(c, "oversized", CLI + "send", assume=lambda it: [(le(ll(it), const(1200)), False)], events=[r"send_payload_packet$"]); s.never(r"send_payload_packet$", "an oversized payload is not sent")
    for sn, sd, _ in P.adts[NC + "client::ClientState"]["vars"]:
        s = scen(c, "while " + sn, CLI + "send", assume=lambda it: [(deq(path(it, "self.state"), sd), True), (le(ll(it), const(1)), True)], events=[r"send_payload_packet$"])
        if sn == "Connected": s.always(r"send_payload_packet$", "a connected client sends payloads")
        else: s.never(r"send_payload_packet$", "a client that is not connected sends no payload")
    # loops
    for who in (SRV, CLI):
        s = scen(c, "receive loop", who + "recv_packets", stubs=[(r"recv_packet$", okv(some(mk("p", "decrypted")))), (r"LinkReceiver::pop$", some(mk("p", "datagram")))], events=[r"LinkReceiver::(push|push_raw)$", r"LinkReceiver::pop$", r"recv_packet$"])
        s.each(r"LinkReceiver::(push|push_raw)$", lambda e: has(e.args[1], lambda x: x is mk("p", "decrypted")), "only what the packet reader returned is put back for the application")
        s.each(r"recv_packet$", lambda e: strip(e.args[1]) is mk("p", "datagram"), "every received datagram goes through the packet reader")
        s = scen(c, "rejected datagram", who + "recv_packets", stubs=[(r"recv_packet$", okv(NONE))], events=[r"LinkReceiver::(push|push_raw)$"])
        s.never(r"LinkReceiver::(push|push_raw)$", "a datagram that yields no payload is dropped")
    s = scen(c, "failing datagram", SRV + "recv_packets", stubs=[(r"recv_packet$", errv(ERRV))], events=[r"LinkReceiver::(push|push_raw)$", r"handle_client_error$"])
    s.never(r"LinkReceiver::(push|push_raw)$", "a datagram that fails is dropped")


# ------------------------------------------------------------------------------------------------ N13 session tables
CCN = "lightyear_netcode::server::ConnectionCache"; CONNTY = "lightyear_netcode::server::Connection"
TABS = ("clients", "client_id_map", "replay_protection")
IDS = {"C": mk("p", "id C"), "X": mk("p", "id X")}; ENTS = {"E": mk("p", "entity E"), "F": mk("p", "entity F")}
def atom(v):
    v = uncast(strip(v))
    while v.op in ("&", "*"): v = uncast(strip(v.args[0]))
    return v
def tabof(v):
    fs = []; v = strip(v)
    while v.op in ("f", "*", "&") or (v.op == "call" and re.search(r"Deref(Mut)?::deref(_mut)?$", v.args[0])):
        if v.op == "call": v = strip(v.args[1][0]); continue
        if v.op == "f": fs.append(str(v.args[2]))
        v = strip(v.args[0])
    return next((x for x in fs if x in TABS), None)
def connval(P, ent, id_):
    return mk("agg", CONNTY, "Connection", tuple({"entity": ent, "client_id": id_}.get(n, mk("p", "its " + n)) for n, _ in P.adts[CONNTY]["vars"][0][2]))
def tables(P, sessions):
    """stubs: the three tables hold those sessions [(entity, id)]; changes are recorded"""
    init = {"clients": {IDS[i]: connval(P, ENTS[e], IDS[i]) for e, i in sessions}, "client_id_map": {ENTS[e]: IDS[i] for e, i in sessions}, "replay_protection": {IDS[i]: mk("p", "replay of " + i) for e, i in sessions}}
    def now(st, t):
        d = dict(init[t])
        for m in st.mon or ():
            if m[0] == "clear" and m[1] == t: d = {}
            elif m[0] == "put" and m[1] == t: d[m[2]] = m[3]
            elif m[0] == "del" and m[1] == t: d.pop(m[2], None)
        return d
    keys = set(IDS.values()) | set(ENTS.values())
    def op(it, st, fr, a, sym):
        t = tabof(it.normarg(st, a[0]))
        if t is None: return None
        o = it.cur_names[0].split("::")[-1]; d = now(st, t)
        if o == "clear": st.mon = (st.mon or ()) + (("clear", t),); return mk("agg", "()", "", ())
        if o in ("len", "is_empty"): return const(len(d)) if o == "len" else const(not d)
        k = atom(it.normarg(st, a[1]))
        if k not in keys: st.mon = (st.mon or ()) + (("unknown", t),); return None
        if o in ("get", "get_mut"): return some(mk("&", d[k])) if k in d else NONE
        if o == "contains_key": return const(k in d)
        if o == "insert":
            st.mon = (st.mon or ()) + (("put", t, k, atom(it.normarg(st, a[2]))),); return some(d[k]) if k in d else NONE
        if o == "remove":
            st.mon = (st.mon or ()) + (("del", t, k),); return some(d[k]) if k in d else NONE
        st.mon = (st.mon or ()) + (("unknown", t),); return None
    def eq(it, st, fr, a, sym):
        x, y = (atom(it.normarg(st, v)) for v in a[:2]); neg = it.cur_names[0].endswith("::ne")
        return const((x is y) != neg) if x in keys and y in keys else None
    return [(r"HashMap(<.*>)?::(get|get_mut|contains_key|insert|remove|clear|len|is_empty|entry|retain|drain|get_or_insert_with|remove_entry|extend)$", op), (r"cmp::PartialEq(<.*>)?::(eq|ne)$", eq)], now


def tstr(d): return {show(k): show(v)[:40] for k, v in d.items()}
@prop("N13", floor=100, explain="""The operations on the three session tables are executed symbolically on every table content distinguishable by the link and the identity given
(7 contents); the tables they leave are compared with the rule. Every other function that changes these tables or the identity of a session is enumerated.""")
def n13(c):
    P = c.P; where = lambda f: "%s:%s (%s)" % (f.file, f.line, f.name)
    CASES = [(), (("E", "C"),), (("E", "X"),), (("F", "C"),), (("E", "X"), ("F", "C")), (("F", "X"),), (("E", "C"), ("F", "X"))]
    def run(fn, ses, args=None, key="", pre=()):
        f = c.fn(fn); st_, now = tables(P, ses)
        def asm(it):
            ids = list(IDS.values()); es = list(ENTS.values())
            return [(ieq(ids[0], ids[1]), False), (ieq(es[0], es[1]), False)]
        s = scen(c, "%s%s on %s" % (short(f), key, ["%s:%s" % x for x in ses]), f, stubs=st_ + list(pre), monitor=Auto((), ("never matches$", lambda m, a: m)), writes=True, assume=asm, **({"args": args} if args else {}))
        return f, s, now
    def judge(f, s, now, tag, present, absent, untouched):
        ex = [e for e in s.it.events if e.kind == "exit"]
        if not ex: c.undecided(tag, "no exit"); return
        for e in ex:
            if any(m[0] == "unknown" for m in e.state.mon or ()): c.undecided(tag, "table change not followed"); return
            cl, em, rp = (now(e.state, t) for t in TABS)
            t = "%s %s %s" % (tstr(cl), tstr(em), tstr(rp))
            ok = set(cl) == set(rp) == {atom(v) for v in em.values()} and len(em) == len(cl)
            c.check(ok, tag + ": consistent", "every session has one link, one identity and one replay window: %s" % t, where(f))
            for k, v in em.items():
                x = cl.get(atom(v))
                if x is None: continue
                if x.op != "agg": c.undecided(tag + ": own link", show(x)); continue
                c.tri(True if atom(aggfield(P, x, "entity")) is k and atom(aggfield(P, x, "client_id")) is atom(v) else False if atom(aggfield(P, x, "entity")).op == "p" and atom(aggfield(P, x, "client_id")).op == "p" else None, tag + ": own link", "a session is found under its own link and its own identity: %s" % t, where(f))
            for en, i in present: c.check(em.get(ENTS[en]) is not None and atom(em[ENTS[en]]) is IDS[i], tag + ": present", "the session exists afterwards: %s" % t, where(f))
            for en, i in absent: c.check(IDS[i] not in cl and atom(em.get(ENTS[en], mk("p", "-"))) is not IDS[i], tag + ": gone", "the session is gone afterwards: %s" % t, where(f))
            for en, i in untouched: c.check(atom(em.get(ENTS[en], mk("p", "-"))) is IDS[i] and IDS[i] in cl, tag + ": others", "other sessions are not affected: %s" % t, where(f))
    fa = c.fn(CCN + "::add"); ty = [fa.ty(i) if not isinstance(fa.ltys[i], str) else fa.ltys[i] for i in range(1, fa.argc + 1)]
    args = [None] * fa.argc
    ei = next(i for i, t in enumerate(ty) if str(t).endswith("Entity")); ii = next(i for i, n in enumerate(range(1, fa.argc + 1)) if fa.names.get(n) == "client_id")
    args[ei] = ENTS["E"]; args[ii] = IDS["C"]
    for ses in CASES:
        f, s, now = run(CCN + "::add", ses, args)
        judge(f, s, now, "add on %s" % ["%s:%s" % x for x in ses], [("E", "C")], [x for x in ses if x == ("E", "X")], [x for x in ses if x == ("F", "X")])
        # what the session is made of
        for e in s.it.events:
            if e.kind != "exit" or any(m[0] == "unknown" for m in e.state.mon or ()): continue
            new = [m for m in e.state.mon if m[0] == "put" and m[1] == "clients"]
            tag = "add on %s" % ["%s:%s" % x for x in ses]
            for m in new:
                for n in ("send_key", "receive_key", "user_data", "timeout"):
                    v = aggfield(P, m[3], n); p = mk("p", n)
                    c.tri(None if v is None else True if has(v, lambda x: x is p) else False if v.op in ("p", "c") else None, "%s: %s" % (tag, n), "a session has the keys, time limit and data of the token presented: %s" % (show(v) if v is not None else "?"), where(f))
                for n in ("confirmed", "connected"):
                    v = aggfield(P, m[3], n); c.tri(None if v is None or not isbool(v) else not bval(v), "%s: %s" % (tag, n), "a new session is not connected before the challenge is answered", where(f))
            if not new:
                for n in ("send_key", "receive_key", "user_data", "timeout"):
                    ws = [x for x in s.it.events if x.kind == "write" and wpath(x)[-1:] == [n]]
                    c.check(any(has(x.val, lambda y: y is mk("p", n)) for x in ws), "%s: %s" % (tag, n), "a repeated request leaves the session with the keys, time limit and data of the token presented last", where(f))
    fr = c.fn(CCN + "::remove"); ar = [None] * fr.argc; ar[1] = IDS["C"]
    for ses in CASES:
        f, s, now = run(CCN + "::remove", ses, ar)
        judge(f, s, now, "remove on %s" % ["%s:%s" % x for x in ses], [], [x for x in ses if x[1] == "C"], [x for x in ses if x[1] != "C"])
    for ses in CASES[1:]:
        f, s, now = run(CCN + "::clear", ses); judge(f, s, now, "clear on %s" % ["%s:%s" % x for x in ses], [], list(ses), [])
    for fn, k, i in (("find_by_entity", ENTS["E"], "e"), ("mut_by_entity", ENTS["E"], "e"), ("find_by_id", IDS["C"], "i"), ("mut_by_id", IDS["C"], "i")):
        if CCN + "::" + fn not in P.byname: continue
        for ses in CASES:
            f = c.fn(CCN + "::" + fn); f, s, now = run(CCN + "::" + fn, ses, [None, mk("&", k) if i == "e" else k] + [None] * (f.argc - 2))
            want = next((x for x in ses if (x[0] == "E" if i == "e" else x[1] == "C")), None)
            for e in s.it.events:
                if e.kind != "exit": continue
                v = strip(e.val); tag = "%s on %s" % (fn, ["%s:%s" % x for x in ses])
                if any(m[0] == "unknown" for m in e.state.mon or ()): c.undecided(tag, "lookup not followed"); continue
                if want is None: c.tri(True if v is NONE else False if v.op == "agg" else None, tag, "there is no session of another", where(f))
                else:
                    x = atom(v.args[2][0]) if v.op == "agg" and v.args[1] == "Some" else None
                    c.tri(None if v.op != "agg" or x is not None and x.op != "agg" else x is not None and atom(aggfield(P, x, "client_id")) is IDS[want[1]], tag, "the session found is the one of that link or identity: %s" % show(v)[:80], where(f))
    # nobody else changes the tables or who a session belongs to
    MUT = r"HashMap(<.*>)?::(insert|remove|clear|entry|retain|drain|remove_entry|extend|try_insert|get_many_mut)$"
    seen = {}
    for f in sorted({x[0] for x in callsites(P, MUT, {"lightyear_netcode"})}, key=lambda f: f.name):
        s = scen(c, "tables", f, events=[MUT])
        for e in s.it.events:
            if e.kind != "call": continue
            t = tabof(e.args[0])
            if t: seen[(e.fn if isinstance(e.fn, str) else e.fn.name, t, e.line)] = e.where()
    for (fn, t, line), w in sorted(seen.items()):
        c.check(fn.startswith(CCN + "::"), "%s: %s:%s" % (fn.split("::")[-1], t, line), "the session tables change only through operations that keep them consistent: %s" % fn, w)
    n = len(seen)
    for fld_ in ("entity", "client_id"):
        for f, b, line, k, pl, last in field_writes(P, fld_, "server::Connection"):
            c.bad("%s: %s:%s" % (fld_, short(f), line), "the link and the identity of a session never change", "%s:%s (%s)" % (f.file, line, f.name))
    c.check(n >= 6, "table changes", "places that change the tables: %d" % n, CCN)
