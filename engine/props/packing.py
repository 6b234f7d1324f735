"""packets: packing messages into packets within the MTU, priority and bandwidth, taking packets apart."""
from lib import *
import values
from props import prop
from props.transport import I, PT, TR

PB = TR + "packet::packet_builder::PacketBuilder::"
MD_ = TR + "packet::message::MessageData"
CO = TR + "packet::compression::CompressionOutcome"

def payload_stubs():
    """the packet under construction: st.mon = (pieces written, metadata entries); lengths are PL<k> and ML<k>"""
    def m(st): return st.mon if st.mon else ((), ())
    def ispay(it, st, a): return "payload" in placefields(it, st, a)
    def w(it, st, fr, a, sym):
        i = 1 if len(a) > 1 and ispay(it, st, a[1]) else 0
        p, q = m(st); v = strip(it.normarg(st, a[1 - i])) if len(a) > 1 else UNIT
        st.mon = (p + (v,), q)
        return okv() if it.cur_names[0].endswith("write_to_payload") or it.cur_names[0].endswith("to_bytes") else UNIT
    def ln(it, st, fr, a, sym):
        f = placefields(it, st, a[0]); p, q = m(st)
        if "payload" in f:
            v = mk("p", "PL%d" % len(p)); it.vty[v] = "usize"; return v
        if "messages" in f:
            v = mk("p", "ML%d" % len(q)); it.vty[v] = "usize"; return v
        return None
    def trunc(it, st, fr, a, sym):
        f = placefields(it, st, a[0]); p, q = m(st); n = a[1]
        k = int(n.args[0][2:]) if n.op == "p" and re.match(r"[PM]L\d+$", n.args[0]) else None
        if "payload" in f: st.mon = (p[:k] if k is not None and n.args[0][0] == "P" else p + (mk("p", "cut at " + show(n)),), q)
        elif "messages" in f: st.mon = (p, q[:k] if k is not None and n.args[0][0] == "M" else q + (mk("p", "cut at " + show(n)),))
        else: return None
        return UNIT
    def push(it, st, fr, a, sym):
        if "messages" not in placefields(it, st, a[0]): return None
        p, q = m(st); st.mon = (p, q + (strip(it.normarg(st, a[1])),))
        return UNIT
    return [(r"packet_builder::write_to_payload$|ToBytes[\w:<>]*::to_bytes$|BytesMut::extend_from_slice$|BufMut::put_\w+$", w), (r"BytesMut::len$|Vec::len$|Buf::remaining$", ln), (r"(BytesMut|Vec)::truncate$", trunc),
            (r"Vec::push$", push), (r"AsMut[\w:<>]*::as_mut$|DerefMut[\w:<>]*::deref_mut$|AsRef[\w:<>]*::as_ref$", lambda it, st, fr, a, sym: a[0] if ispay(it, st, a[0]) else None)]

@prop("T09", floor=30, explain="""The function that tries to add one message to the packet under construction is evaluated with and without an open batch of the same channel and with a full one, recording the pieces appended and the metadata entered
on each path; a message that does not fit must leave everything as it was. The packing loop is run as a typestate: each cursor advance must belong to exactly one message packed. Every successful exit must have
compared the size with the MTU.""")
def t09(c):
    P = c.P
    f = c.fn(PB + "try_append_single_candidate")
    names = {v: k for k, v in f.names.items()}
    cand, batch, mtu, pk = (mk("p", f.names[names[n]]) if n in names else None for n in ("candidate", "batch", "mtu", "packet"))
    if None in (cand, batch, mtu, pk): raise MissingAnchor("parameters of try_append_single_candidate")
    C, B = mk("*", cand), mk("*", batch)
    data, ch = fld(C, "message", "data"), fld(C, "channel_id")
    single = variant(P, MD_, "Single")
    msg = mk("f", data, "Single", "0")
    prev = mk("f", B, "Some", "0")
    for key, conds, joins in (("no batch", [(deq(B, 0), True)], False), ("same channel", [(deq(B, 1), True), (ieq(fld(prev, "channel_id"), ch), True), (lt(fld(prev, "count"), I(255)), True)], True),
                              ("other channel", [(deq(B, 1), True), (ieq(fld(prev, "channel_id"), ch), False)], False), ("full batch", [(deq(B, 1), True), (ieq(fld(prev, "channel_id"), ch), True), (ieq(fld(prev, "count"), I(255)), True)], False)):
        s = scen(c, key, f, assume=lambda it: [(deq(data, single), True)] + conds, stubs=payload_stubs(), refine=6)
        PL = lambda e: mk("p", "PL%d" % len(e.state.mon[0]))
        n = 0
        for e in s.ev(None, "exit"):
            if not is_ok(e.val): continue
            v = e.val.args[2][0]; n += 1
            p, q = e.state.mon or ((), ())
            pay = post(e, fld(mk("*", pk), "payload")); ob = post(e, B)
            pay = pay if pay is not fld(mk("*", pk), "payload") else None
            if v is TRUE:
                c.tri(None if not p else strip(p[-1]) is msg, key + ": message", "the message itself is appended last", e.where())
                if not joins:
                    c.check(len(p) == 3 and p[0] is ch and isint(p[1]) and ival(p[1]) == 1, key + ": new batch", "a new batch starts with its channel and a count of one", e.where())
                    want = mk("p", "PL1")
                    got = ob.args[2][0] if ob.op == "agg" and ob.args[1] == "Some" else None
                    if got is None: c.undecided(key + ": batch", show(ob))
                    else:
                        c.tri(same(s.it, e, aggfield(P, got, "channel_id") or mk("p", "?"), ch), key + ": batch channel", "the open batch belongs to the message's channel", e.where())
                        c.check(aggfield(P, got, "count_offset") is want, key + ": batch offset", "the open batch remembers where its count was written", e.where())
                        c.check(aggfield(P, got, "count") is I(1), key + ": batch count", "the open batch holds one message", e.where())
                    c.check(pay is None, key + ": other counts", "the count of no other batch is touched", e.where())
                else:
                    c.check(len(p) == 1, key + ": joined", "a message of the open batch's channel is appended alone", e.where())
                    cnt = post(e, fld(prev, "count"))
                    c.tri(decide(s.it, e, ieq(cnt, add(fld(prev, "count"), I(1))), True), key + ": count", "the count of the batch grows by one", e.where())
                    c.tri(written_count(s.it, e, pay, fld(prev, "count_offset"), add(fld(prev, "count"), I(1))), key + ": count byte", "the count written in the packet is the number of messages", e.where())
                c.check(len(q) == 1, key + ": metadata", "exactly one metadata entry is recorded for the message", e.where())
                for x in q:
                    if x.op != "agg": c.undecided(key + ": metadata", show(x)); continue
                    cm = aggfield(P, x, "commit")
                    for fl, w in (("channel", ch), ("message", fld(msg, "id"))):
                        g = aggfield(P, x, fl)
                        c.tri(None if g is None else same(s.it, e, strip(g), w), key + ": metadata " + fl, "the metadata name the message packed", e.where())
                    for fl, w in (("channel_kind", fld(C, "channel_kind")), ("key", fld(C, "key"))):
                        g = aggfield(P, cm, fl) if cm is not None else None
                        c.tri(None if g is None else (strip(g) is w or same(s.it, e, strip(g), w)), key + ": commit " + fl, "what is committed later is the message packed", e.where())
                # the size was compared, or the compressed size was
                fits = decide(s.it, e, le(PL(e), mtu), True)
                comp = [k for k, x in e.state.facts.items() if k[0] == "d" and has_call(k[1], r"evaluate_packet_compression$") and k[1].op == "f"]
                okc = any(e.state.facts[k] == variant(P, CO, "Compressed") for k in comp)
                c.tri(True if fits is True or okc else False, key + ": fits", "a message is kept only when the packet fits the MTU, compressed or not", e.where())
            elif v is FALSE:
                c.check(not p, key + ": undone", "a message that does not fit is taken out of the packet again (%s)" % ", ".join(show(x)[:40] for x in p), e.where())
                c.check(not q, key + ": metadata undone", "the metadata of a message that does not fit are taken back", e.where())
                if joins:
                    c.tri(written_count(s.it, e, pay, fld(prev, "count_offset"), fld(prev, "count")), key + ": count undone", "the count written in the packet is restored", e.where())
                    r = same(s.it, e, post(e, fld(prev, "count")), fld(prev, "count"))
                    c.tri(r, key + ": batch undone", "the open batch is restored", e.where())
                else:
                    d = "Some" if "no batch" != key else "None"
                    same_b = ob is B or (ob.op == "agg" and ob.args[1] == d and (d == "None" or strip(ob.args[2][0]) is prev or same(s.it, e, ob.args[2][0], prev) is True))
                    c.tri(True if same_b else (None if ob.op in ("phi", "hv") else False), key + ": batch undone", "the open batch is restored", e.where())
                    if pay is not None: c.tri(written_count(s.it, e, pay, fld(prev, "count_offset"), fld(prev, "count")), key + ": count undone", "the count of no other batch is changed", e.where())
                fits = decide(s.it, e, le(mk("p", "PL%d" % (1 if joins else 3)), mtu), True)
                c.tri(None if fits is None else not fits, key + ": refused", "only a message that does not fit is left out", e.where())
            else: c.undecided(key, show(v))
        c.check(n >= 2, key + ": outcomes", "a message can be kept and left out", f.file)
    packing(c)
    acks(c)
    finish(c)
    frag_size(c)

def written_count(it, e, pay, off, want):
    """the payload differs from before at most in the count byte, which holds `want`"""
    if pay is None: return same(it, e, want, want) if False else (True if want.op == "f" else False)
    x = it.get(pay, ("I", off)) if pay.op in ("with", "agg") else None
    if x is None: return None
    if uncast(x) is want: return True
    if x.op in ("idx", "phi", "hv") or x.op == "f" and want.op != "f": return None
    return decide(it, e, ieq(uncast(x), want), True)

GET, TRY, MAX = r"(\[T\]|Vec|slice[\w:<>]*)::get$", r"PacketBuilder::try_append_single_candidate$", r"::max$"
def packing(c):
    """the packing loop: what is tried is what the cursor names; the cursor passes over exactly what was packed"""
    P = c.P
    f = c.fn(PB + "build_next_packet")
    names = {v: k for k, v in f.names.items()}
    def prm(n):
        if n not in names: raise MissingAnchor("parameter %s of build_next_packet" % n)
        return mk("p", n)
    CUR, mtu, comp, tick = mk("*", prm("cursor")), prm("mtu"), prm("compression"), prm("current_tick")
    idx, sidx = fld(CUR, "index"), fld(CUR, "single_index")
    C0 = mk("p", "CAND0"); D0 = fld(C0, "message", "data")
    single, frag = variant(P, MD_, "Single"), variant(P, MD_, "Fragment")
    NEWP, FIN = r"PacketBuilder::new_staged_packet$", r"PacketBuilder::finish_compression_aware_packet$"
    CANDS = prm("candidates")
    def here(it, st, fr): it.wr(st, ("O", CANDS), (("I", idx),), C0)     # `candidates[cursor.index]` is the same candidate
    def there(k): return [(lt(idx, mk("len", mk("*", CANDS))), k)]
    def get(it, st, fr, a, sym):
        i = a[1]
        if i is idx: return some(mk("&", C0))
        return None
    def mon(msgs):
        """try -> advance, exactly once each when it fits, never when it does not"""
        def g(it, st, kind, info):
            m = st.mon or ("before",)
            if kind == "call":
                ns, args, fr, bb = info
                if any(re.search(NEWP, n) for n in ns): st.mon = ("made",); return
                if any(re.search(TRY, n) for n in ns):
                    if m[0] == "tried" and fits[0] and it.recording: msgs.setdefault("packed twice", where(fr, bb))
                    st.mon = ("tried",)
            elif kind == "write":
                fr, root, projs, v = info
                nm = [str(p[2]) for p in projs if p[0] == "F"]
                if not nm or nm[-1] != ("index" if kind_[0] == "single" else "single_index") or root[0] == "L": return
                if m[0] == "before": return
                if v.op in ("call", "max") and has_call(v, MAX): return                       # the cursor of singles catches up
                if m[0] == "tried":
                    if not fits[0] and it.recording: msgs.setdefault("left out", where(fr, None))
                    st.mon = ("made",)
                elif m[0] == "made": st.mon = ("made",)
        return g
    def where(fr, bb): return "%s:%s (%s)" % (fr.fn.file, fr.fn.bb[bb][2] if bb is not None and fr.fn.bb[bb] else fr.fn.line, fr.fn.name)
    fits = [True]; kind_ = [None]
    for kind, d in (("single", single), ("fragment", frag)):
        for fits[0] in (True, False):
            key = "%s first, %s" % (kind, "all fit" if fits[0] else "nothing fits")
            msgs = {}; kind_[0] = kind
            s = scen(c, key, f, init=here, stubs=[(GET, get), (TRY, okv(values.TRUE if fits[0] else values.FALSE)), (FIN, okv(mk("p", "FINISHED")))], monitor=mon(msgs), writes=True, events=[TRY, NEWP, FIN, r"record_message_metadata$|Vec::push$", r"write_to_payload$"],
                     no_inline=[NEWP, r"write_to_payload$"], assume=lambda it: [(deq(D0, d), True), (lt(idx, sidx), False), (le(idx, I(2**62)), True)] + there(True))
            for m, what in (("packed twice", "a message that was packed is passed over before the next one is tried"), ("left out", "a message that was not packed is not passed over")):
                c.check(m not in msgs, "%s: %s" % (key, m), what, msgs.get(m, f.file))
            for e in s.ev(TRY):
                i = post(e, sidx if kind == "fragment" else idx)
                a = strip(e.args[1])
                gs = [x for x in subvals(e.args[1]) if x.op == "call" and re.search(GET, x.args[0])]
                c.tri(True if gs and gs[0].args[1][1] is i or a is C0 and i is idx else (None if i.op in ("phi", "hv", "lin") or not gs else False), key + ": tried", "the message tried is the one the cursor names", e.where())
                c.check(mtu in e.args, key + ": limit", "messages are packed against the MTU of the link", e.where())
                if kind == "single": c.check(comp in e.args or any(has(x, lambda y: y is comp) for x in e.args), key + ": compression", "what fits is judged with the compression that will be applied", e.where())
            if kind == "fragment":
                cfgs = [x for e in s.ev(TRY) for x in e.args if x.op == "agg" and x.args[0].endswith("CompressionConfig") or x is comp or x.op == "named" or x.op == "c"]
                for e in s.ev(None, "exit"):
                    if is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == "Some":
                        p = e.val.args[2][0].args[2][0]
                        fs = [k for k, x in e.state.facts.items() if k[0] == "i" and any(t is mtu for t, _ in k[1]) and any(t.op == "len" or t.op == "call" and t.args[0].endswith("len") for t, _ in k[1])]
                        ln = [t for k in fs for t, _ in k[1] if t is not mtu]
                        r = next((decide(s.it, e, le(t, mtu), True) for t in ln), None)
                        c.tri(True if r is True else False, key + ": fits", "a packet is handed out only when it fits the MTU", e.where())
                wr = s.ev(r"write_to_payload$")
                vs = [strip(e.args[0]) for e in wr if has(e.args[0], lambda y: y is C0)]
                c.check(fld(C0, "channel_id") in vs and mk("f", D0, "Fragment", "0") in vs, key + ": body", "the fragment follows its channel", f.file)
                sv = [(i_, v) for i_, v in enumerate(vs)]
                for e in s.ev(r"record_message_metadata$"):
                    ms = [strip(a) for a in e.args[1:]]
                    fr_ = mk("f", D0, "Fragment", "0")
                    def hasv(w): return any(strip(a) is w or a.op == "agg" and a.args[1] == "Some" and strip(a.args[2][0]) is w for a in ms)
                    c.check(hasv(fld(C0, "channel_id")), key + ": metadata channel", "the metadata name the channel of the fragment", e.where())
                    c.check(hasv(fld(fr_, "message_id")), key + ": metadata message", "the metadata name the message of the fragment", e.where())
                    c.check(hasv(fld(fr_, "fragment_id")), key + ": metadata fragment", "the metadata name the fragment", e.where())
                    cm = next((a for a in ms if a.op == "agg" and a.args[0].endswith("SendCommit")), None)
                    if cm is None: c.undecided(key, "commit")
                    else: c.check(strip(aggfield(P, cm, "key")) is fld(C0, "key") and strip(aggfield(P, cm, "channel_kind")) is fld(C0, "channel_kind"), key + ": commit", "what is committed later is the fragment packed", e.where())
                # the cursor passes over the fragment
                for e in s.ev(None, "exit"):
                    if is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == "Some":
                        c.tri(decide(s.it, e, ieq(post(e, idx), add(idx, I(1))), True), key + ": passed over", "the cursor passes over the fragment packed", e.where())
                pts = {e.args[1] for e in s.ev(NEWP) if e.args[1].op == "agg"}
                c.check(bool(pts) and all(x.args[1] == "DataFragment" for x in pts), key + ": type", "a fragment travels in a packet of its own type", f.file)
            else:
                pts = {e.args[1] for e in s.ev(NEWP) if e.args[1].op == "agg"}
                c.check(bool(pts) and all(x.args[1] == "Data" for x in pts), key + ": type", "single messages travel in a data packet", f.file)
                for e in s.ev(None, "exit"):
                    if is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == "Some":
                        p = e.val.args[2][0].args[2][0]
                        c.tri(True if p is mk("p", "FINISHED") else (None if p.op in ("phi", "hv") else False), key + ": finished", "a packet is handed out only after its final size was checked", e.where())
            for e in s.ev(NEWP): c.check(tick in e.args, key + ": tick", "a packet carries the current tick", e.where())
    # singles already packed behind a fragment are not packed again
    for kind, d in (("single", single), ("fragment", frag)):
        wrote = []
        s = scen(c, "already packed " + kind, f, init=here, stubs=[(GET, get), (TRY, okv(values.TRUE)), (FIN, okv(mk("p", "FINISHED")))], events=[NEWP, TRY], no_inline=[NEWP], assume=lambda it: [(deq(D0, d), True), (lt(idx, sidx), True), (le(sidx, I(2**62)), True)] + there(True))
        mk0 = [e for e in s.ev(TRY) if strip(e.args[1]) is C0]
        if kind == "single": c.check(not mk0, "already packed: skipped", "a message packed behind a fragment is not packed again", mk0[0].where() if mk0 else f.file)
        else: c.check(bool(s.ev(NEWP)), "fragment: not skipped", "a fragment is never passed over unpacked", f.file)
    s = scen(c, "singles packed further on", f, init=here, stubs=[(GET, get), (TRY, okv(values.TRUE))], writes=True, assume=lambda it: [(deq(D0, frag), True), (lt(add(idx, I(1)), sidx), True), (le(sidx, I(2**62)), True)] + there(True))
    for e in s.ev(None, "write"):
        if wfield(e) != "single_index": continue
        if os_dbg(): print(show(e.val), e.where())
        c.tri(False if decide(s.it, e, le(sidx, e.val), True) is False else True, "singles packed further on: kept", "the record of the singles already packed never moves back", e.where())
    s = scen(c, "nothing left", f, stubs=[(GET, lambda it, st, fr, a, sym: NONE)], assume=lambda it: [(lt(idx, sidx), False)] + there(False), events=[NEWP])
    s.exits(lambda e: True if is_ok(e.val) and e.val.args[2][0] is NONE else False, "no packet is built when nothing is left", tag="none")
    s.never(NEWP, "no packet is staged when nothing is left")

def acks(c):
    P = c.P
    f = c.fn(PB + "build_ack_only_packet"); names = set(f.names.values())
    mtu = mk("p", "mtu")
    if "mtu" not in names: raise MissingAnchor("mtu of build_ack_only_packet")
    NEWP = r"PacketBuilder::new_staged_packet$"
    hb = header_bytes(c)
    for key, ok, m in (("room", True, hb), ("no room", False, hb - 1)):
        s = scen(c, "ack only, " + key, f, events=[NEWP], no_inline=[NEWP], assume=lambda it: [(ieq(mtu, I(m)), True)])
        if ok:
            s.always(NEWP, "an acknowledgement is built when it fits", tag="built")
            s.each(NEWP, lambda e: e.args[1].op != "agg" or e.args[1].args[1] == "AckOnly", "an acknowledgement alone is marked as such", tag="type")
        else:
            s.never(NEWP, "no acknowledgement is built beyond the MTU", tag="built")
            s.exits(must_err, "an acknowledgement that does not fit is refused", tag="refused")
def header_bytes(c):
    """size of the header as written"""
    from props.wire import written, size_of
    w = c.fn("<lightyear_transport::packet::header::PacketHeader as lightyear_serde::ToBytes>::to_bytes")
    s, ex = written(c, w, "header")
    sizes = {size_of(e.state.mon) for e in ex}
    k = next(iter(sizes)) if len(sizes) == 1 else None
    if k is None or not isint(k): raise MissingAnchor("size of the packet header")
    return ival(k)

def finish(c):
    P = c.P
    f = c.fn(PB + "finish_compression_aware_packet"); mtu = mk("p", "mtu")
    A = P.adts[CO]
    OUT = mk("p", "OUTCOME")
    def ln(it, st, fr, a, sym):
        v = mk("p", "LEN"); it.vty[v] = "usize"; return v
    for name, d, fs in A["vars"]:
        for big in (True, False):
            s = scen(c, "%s, %s" % (name, "too large" if big else "fits"), f, stubs=[(r"compression::compress_packet$", okv(OUT)), (r"BytesMut::len$", ln)], assume=lambda it: [(deq(OUT, d), True), (le(mk("p", "LEN"), mtu), not big)])
            s.stubbed(r"compression::compress_packet$")
            if name == "Compressed": s.exits(must_ok, "a packet compressed within the MTU is handed out", tag="handed out")
            elif big: s.exits(must_err, "a packet that is not compressed and does not fit is refused", tag="refused")
            else: s.exits(must_ok, "a packet that fits is handed out", tag="handed out")
    # the compressed size is compared with the limit
    g = c.fn(TR + "packet::compression::evaluate_packet_compression"); cf = mk("p", "config")
    s = scen(c, "outcome", g, writes=False)
    for e in s.ev(None, "exit"):
        if is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == "Compressed":
            n = aggfield(P, e.val.args[2][0], "compressed_len")
            c.tri(None if n is None else decide(s.it, e, le(n, mtu), True), "compressed: fits", "a packet counts as compressed only when the result fits the MTU", e.where())

def frag_size(c):
    """the fragment size leaves room for the largest header, ids and length prefix"""
    P = c.P
    f = c.fn(TR + "packet::packet::fragment_size_for_min_mtu")
    arg = mk("p", f.names.get(1, "min_mtu"))
    s = scen(c, "fragment size", f, no_inline=[r"varint_len$"], writes=False)
    hb = header_bytes(c)
    # channel (4 bytes at most), message id 2, fragment id and count (4 bytes at least), compression 1
    n = 0
    for e in s.ev(None, "exit"):
        v = e.val
        if v.op != "agg" or v.args[1] != "Some": continue
        n += 1; x = v.args[2][0]
        # x <= saturating_sub(a, length prefix), and x >= 1, so that x <= a - length prefix
        r = None
        vl = {t for k, y in e.state.facts.items() if k[0] == "i" for z, _ in k[1] for t in subvals(z) if t.op == "call" and t.args[0].endswith("varint_len")}
        for t in vl:
            if uncast(t.args[1][0]) is not uncast(x): continue
            for sat in {z for k, y in e.state.facts.items() if k[0] == "i" for z, _ in k[1] if z.op == "call" and z.args[0].endswith("saturating_sub")}:
                a, b = sat.args[1][:2]
                if decide(s.it, e, le(x, sat), True) and decide(s.it, e, le(I(1), x), True): 
                    top = sub(a, b)                                   # x <= top
                    q = s.it.truth(e.state.copy(), le(add(add(top, t), I(hb + 4 + 2 + 4 + 4 + 1)), arg))
                    r = q if q is not None else r
            q = decide(s.it, e, le(add(add(x, t), I(hb + 4 + 2 + 4 + 4 + 1)), arg), True)
            if q: r = True
        if r is None and os_dbg(): print("frag", show(v), [(show_fact(k), y) for k, y in e.state.facts.items()])
        c.tri(r, "fragment size: fits", "a fragment of the size chosen fits the MTU with its header, ids and length", e.where())
def os_dbg():
    import os
    return os.environ.get("WDBG")
def show_fact(k): return " + ".join("%s*%s" % (n, show(t)) for t, n in k[1]) if k[0] == "i" else str(k[0])

# ------------------------------------------------------------------------------------------------ T10
HD_ = TR + "packet::packet_type::"
RCVNI = [r"PacketStats", r"HeaderManager::", r"ToBytes", r"ChannelReceive::", r"ChannelSend::", r"decompress", r"AckTracker"]
def tok(name, ok=True):
    def f(it, st, fr, a, sym):
        v = mk("p", "%s@%s" % (name, it.cur_bb))
        return okv(v) if ok else some(v)
    return f
@prop("T10", floor=30, explain="""The packet type codes are enumerated. The receive system is evaluated once per packet type with every decoding step succeeding, under a typestate over one packet: header, then
(for a fragment packet) channel and fragment, then batches until the packet is used up, each a channel, a count and that many messages; every decoded item must be given to the receiver of the channel read for it, with the tick of
the header, exactly once, before anything else is decoded.""")
def t10(c):
    P = c.P
    A = P.adts[HD_ + "PacketType"]
    to = next(f for f in P.fns.values() if f.name.startswith("<u8 as") and "From" in f.name and "PacketType" in f.name and f.name.endswith("::from")) if any(f.name.startswith("<u8 as") and "PacketType" in f.name for f in P.fns.values()) else None
    fro = next((f for f in P.fns.values() if "PacketType as core::convert::TryFrom" in f.name and f.name.endswith("::try_from")), None)
    def arg(f): return mk("p", f.names.get(1, "_1"))
    if to is None or fro is None: raise MissingAnchor("packet type codes")
    codes = {}
    for n, d, fs in A["vars"]:
        s = scen(c, "code of %s" % n, c.fn(to.name), assume=lambda it: [(deq(arg(c.fn(to.name)), d), True)])
        vs = {I(d) if e.val.op == "disc" and same(s.it, e, e.val, I(d)) else e.val for e in s.ev(None, "exit")}
        if len(vs) != 1 or not isint(next(iter(vs))): c.undecided("code of %s" % n, [show(v) for v in vs].__repr__()); continue
        codes[n] = ival(next(iter(vs)))
        s = scen(c, "type of %s" % n, c.fn(fro.name), assume=lambda it: [(ieq(arg(c.fn(fro.name)), I(codes[n])), True)])
        s.exits(lambda e: is_ok(e.val) and e.val.args[2][0].op == "agg" and e.val.args[2][0].args[1] == n, "the code written for a packet type is read as that type", tag="read back")
    c.check(len(set(codes.values())) == len(codes), "codes distinct", "no two packet types share a code", to.file)
    bad = next(k for k in range(255, 0, -1) if k not in codes.values())
    s = scen(c, "unknown code", c.fn(fro.name), assume=lambda it: [(ieq(arg(c.fn(fro.name)), I(bad)), True)])
    s.exits(must_err, "a code that no packet type uses is refused", tag="refused")
    # the classification of types
    for fname, yes in (("is_compressed", ("DataCompressed", "DataFragmentCompressed")), ("is_ack_eliciting", ("Data", "DataFragment", "DataCompressed", "DataFragmentCompressed"))):
        f = c.fn(HD_ + "PacketType::" + fname)
        for n, d, fs in A["vars"]:
            s = scen(c, "%s %s" % (fname, n), f, assume=lambda it: [(deq(arg(f), d), True)])
            s.exits(lambda e: decide(s.it, e, e.val, n in yes), "%s of %s" % (fname, n), tag="value")
    for fname, m in (("uncompressed_variant", {"DataCompressed": "Data", "DataFragmentCompressed": "DataFragment"}), ("compressed_variant", {"Data": "DataCompressed", "DataFragment": "DataFragmentCompressed"})):
        f = next((x for x in P.fns.values() if x.name == HD_ + "PacketType::" + fname), None)
        if f is None: continue
        f = c.fn(f.name)
        for n, d, fs in A["vars"]:
            if n == "AckOnly": continue
            s = scen(c, "%s %s" % (fname, n), f, assume=lambda it: [(deq(arg(f), d), True)])
            def good(e):
                v = e.val
                if v.op == "agg" and v.args[1] in ("Some", "None"):
                    if v.args[1] == "None": return n not in m
                    v = v.args[2][0]
                if strip(v) is arg(f): return n not in m
                return v.args[1] == m.get(n, n) if v.op == "agg" else None
            s.exits(good, "compressing keeps the kind of packet: %s" % n, tag="value")
    # taking a packet apart
    g = c.fn(TR + "plugin::TransportPlugin::buffer_receive")
    HDR, FRAG, ONE, NUM, PLAIN = (mk("p", x) for x in ("HDR", "FRAG", "ONE", "NUM", "PLAIN"))
    H, CHN, FR_, SD, U8, DEC_, BR, MORE, GM = (r"PacketHeader as [\w:]*ToBytes>::from_bytes$", r"<u16 as [\w:]*ToBytes>::from_bytes$", r"FragmentData as [\w:]*ToBytes>::from_bytes$", r"SingleData as [\w:]*ToBytes>::from_bytes$", r"read_u8$",
                                         r"decompress_payload$", r"ChannelReceive::buffer_recv$", r"Reader::has_remaining$|Buf[\w:<>]*::has_remaining$", r"HashMap::get_mut$")
    def recv(it, st, fr, a, sym):
        if "receivers" not in placefields(it, st, a[0]): return None
        return some(mk("rcv", strip(it.normarg(st, a[1]))))
    stubs = [(H, okv(HDR)), (CHN, tok("CH")), (FR_, okv(FRAG)), (SD, okv(ONE)), (U8, okv(NUM)), (DEC_, okv(PLAIN)), (GM, recv), (BR, okv(UNIT))]
    UP = r"HeaderManager::update$"
    def mon():
        # state: (phase, last channel, batch running)
        def ch(m, a, it, st):
            k = mk("p", "CH@%s" % it.cur_bb)
            if m[0] in ("S", "F"): return "!item dropped"
            if m[0] == "N" and m[2] == "loop": return "!batch cut short"
            return ("C", k, "")
        def frag(m, a): return "!item dropped" if m[0] in ("S", "F") else ("F", m[1], "") if m[0] == "C" else "!fragment without channel"
        def num(m, a): return ("N", m[1], "") if m[0] == "C" else ("!item dropped" if m[0] in ("S", "F") else "!count without channel")
        def one(m, a): return ("S", m[1], m[2]) if m[0] == "N" else "!item dropped" if m[0] == "S" else "!message outside a batch"
        def nxt(m, a, it, st):
            if m[0] != "N" or not a: return None
            r = it.valof(st, a[0]) if a[0].op != "agg" else a[0]
            if not has(r, lambda x: x is NUM) and not has(a[0], lambda x: x is NUM): return None
            return ("N", m[1], "asked")
        def dlv(m, a): return ("B" if m[0] == "F" else "N", m[1], "loop") if m[0] in ("S", "F") else "!delivered twice"
        def more(m, a): return "!item dropped" if m[0] in ("S", "F") else "!batch cut short" if m[0] == "N" and m[2] == "loop" else ("M", None, "")
        def dec(m, a): return ("D", None, "") if m[0] == "H" else "!decompressed late"
        def hdr(m, a): return "!item dropped" if m[0] in ("S", "F") else ("!packet left unread" if m[0] in ("H", "D", "C", "N", "B") else ("H", None, ""))
        def up(m, a): return "!item dropped" if m[0] in ("S", "F") else ("!packet left unread" if m[0] in ("H", "D", "C", "N", "B") else ("0", None, ""))
        return Auto(("0", None, ""), (H, hdr), (CHN, ch), (FR_, frag), (U8, num), (SD, one), (r"::next$", nxt), (BR, dlv), (MORE, more), (DEC_, dec), (UP, up))
    SAY = {"item dropped": "everything decoded is handed to its channel before more is decoded", "batch cut short": "a batch is read to its announced count", "fragment without channel": "a fragment is preceded by its channel", "count without channel": "a count is preceded by its channel",
           "message outside a batch": "messages are read inside a batch", "delivered twice": "everything decoded is handed over once", "decompressed late": "a compressed payload is unpacked before it is read", "packet left unread": "a packet is read to its end"}
    RM = [r"ReceiveMessage", ]
    for n, d, fs in A["vars"]:
        if n == "AckOnly": continue
        kind = mk("f", HDR, "", "packet_type")
        a = mon()
        s = scen(c, n, g, stubs=stubs + [(r"PacketHeader::get_packet_type$", mk("agg", HD_ + "PacketType", n, ()))], events=[BR, FR_, SD, CHN, U8, DEC_, UP, MORE], no_inline=RCVNI, monitor=a)
        s.stubbed(H)
        a.report(c, g, SAY)
        fr_, comp = "Fragment" in n, "Compressed" in n
        one, two = s.ev(FR_), s.ev(SD)
        c.check(bool(one) == fr_, n + ": fragment", "a fragment is decoded exactly from a fragment packet", one[0].where() if one else g.file)
        c.check(bool(two), n + ": messages", "the rest of the packet is decoded as batches of messages", g.file)
        c.check(bool(s.ev(DEC_)) == comp, n + ": unpacked", "exactly compressed payloads are unpacked", g.file)
        for e in s.ev(BR):
            m = e.args[1]
            if m.op != "agg": c.undecided(n + ": handed over", show(m)); continue
            data, tick = aggfield(P, m, "data"), aggfield(P, m, "remote_sent_tick")
            inner = data.args[2][0] if data is not None and data.op == "agg" and data.args[2] else data
            which = "Fragment" if inner is FRAG else "Single" if inner is ONE else None
            c.tri(None if which is None and not known(m) else which is not None and data.args[1] == which, n + ": what", "what is handed to a channel is what was decoded, as what it is", e.where())
            c.tri(tick is fld(HDR, "tick") or (None if tick is None or not known(tick) else False), n + ": tick", "a message carries the tick of the packet it came in", e.where())
            mo = e.state.mon
            r = strip(s.it.normarg(e.state, e.args[0]))
            k = r.args[0] if r.op == "rcv" else None
            last = mo[1] if isinstance(mo, tuple) and len(mo) == 3 else None
            c.tri(None if k is None or last is None else k is last, n + ": %s channel" % which, "a message is given to the receiver of the channel read for it", e.where())
        for e in s.ev(SD, "call"):
            rg = [x for k, v in e.state.facts.items() if k[0] == "d" and v == 1 and k[1].op == "call" and k[1].args[0].endswith("::next") for x in subvals(k[1]) if has(x, lambda y: y is NUM)]
            if not rg: c.undecided(n + ": count", "how the messages of a batch are counted"); continue
            agg = [x for x in rg if x.op == "agg" and "Range" in x.args[0]]
            if agg: c.check(agg[-1].args[0].endswith("::Range") and isint(agg[-1].args[2][0]) and ival(agg[-1].args[2][0]) == 0 and uncast(agg[-1].args[2][1]) is NUM, n + ": count", "as many messages are read as the batch announces", e.where())
            else: c.tri(False if any(x.op == "call" and "RangeInclusive" in x.args[0] for x in rg) else None, n + ": count", "as many messages are read as the batch announces", e.where())
        if comp:
            src = [e for e in s.ev(FR_ if fr_ else U8)]
            for e in src: c.tri(True if has(e.args[0], lambda x: x is PLAIN) else None if has(e.args[0], lambda x: x.op == "phi") else False, n + ": source", "a compressed packet is decoded from its unpacked payload", e.where())
            for e in s.ev(DEC_): c.tri(True if endswith(e.args[1], "compression") else None, n + ": config", "payloads are unpacked with the connection's compression", e.where())
    s = scen(c, "triggers", g, stubs=stubs, events=[r"Commands::trigger$"], no_inline=RCVNI)
    kinds = {}
    for e in s.ev(r"Commands::trigger$"):
        v = e.args[1]
        if v.op == "agg": kinds.setdefault(v.args[0].split("::")[-1], []).append((e, v))
    for e, v in kinds.get("PacketReceived", []): c.tri(aggfield(P, v, "remote_tick") is fld(HDR, "tick"), "PacketReceived tick", "a received packet is announced with its own tick", e.where())
    c.check("PacketReceived" in kinds, "PacketReceived", "every received packet is announced", g.file)

# ------------------------------------------------------------------------------------------------ T17
PM_ = TR + "packet::priority_manager::"
ORD = "core::cmp::Ordering"
def ordv(name): return mk("agg", ORD, name, ())
def comparator(c, v):
    """the function behind a comparator argument"""
    P = c.P
    if v.op == "agg" and v.args[0].startswith("closure:"):
        tail = v.args[0].split("::")[-2:]
        fs = [f for f in P.fns.values() if f.name.endswith("::".join(tail)) and "CALLSITE" not in f.name]
        top = v.args[0][8:].split("::{impl")[0]
        fs = [f for f in fs if f.name.startswith(top)]
        return P.fn(fs[0].name) if len(fs) == 1 else None
    m = re.match(r"fn ([\w:]+)$", show(v))
    if m:
        fs = [f for f in P.fns.values() if f.name.endswith("::" + m.group(1)) and "CALLSITE" not in f.name]
        return P.fn(fs[0].name) if len(fs) == 1 else None
    return None
@prop("T17", floor=24, explain="""The ordering of candidates is evaluated with priorities enabled and disabled; the comparison it sorts by is evaluated once per key of its lexicographic order, with every earlier key equal and
every later key unconstrained. The bandwidth limiter is evaluated per outcome of the rate limiter. In the send system, candidates are ordered after they were collected and before packets are built.""")
def t17(c):
    P = c.P
    f = c.fn(PM_ + "PriorityManager::prioritize")
    KEYS = (("priority", r"effective_priority"), ("kind", None), ("size", r"bytes_len|len\(|\.bytes"), ("order", r"send_order"))
    frag, single = variant(P, MD_, "Fragment"), variant(P, MD_, "Single")
    for on in (True, False):
        s = scen(c, "priorities %s" % ("on" if on else "off"), f, assume=lambda it: [(path(it, "self.config.enabled"), on)], events=[r"::sort"], no_inline=[r"settings_from_net_id$"], writes=True, must=[(r"::sort", "sorted")])
        ws = [e for e in s.ev(None, "write") if wfield(e) == "effective_priority"]
        c.check(bool(ws), "effective priority set, %s" % on, "every candidate is given its effective priority", f.file)
        for e in ws:
            if not on: c.tri(True if e.val.op in ("c", "f64", "float") or show(e.val) in ("0.0", "0") else None if not known(e.val) else False, "off: flat", "without priorities all candidates count the same", e.where())
            else:
                fs = [l for l in leaves(e)] if False else []
                okk = has(e.val, lambda x: x.op == "f" and endswith(x, "priority") and has_field(x, "message")) and has(e.val, lambda x: x.op == "f" and endswith(x, "priority") and has_call(x, "settings"))
                c.tri((okk and e.val.op == "bin" and e.val.args[0] == "Mul") or (None if not known(e.val) and not okk else False), "on: product", "the effective priority is the message's times its channel's", e.where())
                sc = [x for x in subvals(e.val) if x.op == "call" and "settings" in x.args[0]]
                for x in sc: c.tri(True if any(endswith(strip(y), "channel_id") for y in x.args[1]) else None, "on: channel", "the channel priority is that of the candidate's channel", e.where())
        s.exits(lambda e: "sorted" in e.state.must, "candidates are put in order", tag="sorted")
        for e in s.ev(r"::sort"):
            if not re.search(r"sort(_unstable)?_by$", e.name) or len(e.args) < 2: c.undecided("comparison", e.name); continue
            g = comparator(c, e.args[1])
            if g is None: c.undecided("comparison", show(e.args[1])); continue
            c.fn(g.name)
            ps = [g.names[i] for i in sorted(g.names) if i <= len(g.args if hasattr(g, "args") else g.names) and g.names[i]]
            ps = [mk("p", g.names[i]) for i in sorted(k for k in g.names if (k in (1, 2) if "{closure" not in g.name else k in (2, 3)))]
            if len(ps) != 2: c.undecided("comparison", str(g.names)); continue
            A_, B_ = ps
            def root(v):
                x = [y for y in subvals(v) if y in (A_, B_)]
                return x[0] if x and all(y is x[0] for y in x) else None
            def cmpstub(rank):
                def st(it, state, fr, a, sym):
                    if len(a) != 2: return None
                    x, y = (it.normarg(state, z) for z in a)
                    rx, ry = root(x), root(y)
                    if rx is None or ry is None or rx is ry: return None
                    t = show(x)
                    for k, p in KEYS:
                        if p and re.search(p, t):
                            r = rank.get(k)
                            if r is None: return None
                            r = r if rx is A_ else -r
                            return ordv({-1: "Less", 0: "Equal", 1: "Greater"}[r])
                    return None
                return st
            def expect(key, rank, kinds, want, what):
                # rank: key -> -1 (a smaller), 0, 1
                da, db = fld(mk("*", A_), "message", "data"), fld(mk("*", B_), "message", "data")
                ass = lambda it: [(deq(da, kinds[0]), True), (deq(db, kinds[1]), True)] if kinds else []
                q = scen(c, "%s, %s" % ("on" if on else "off", key), g, assume=ass, stubs=[(r"::(total_cmp|cmp|partial_cmp)$", cmpstub(rank)), (r"partial_cmp$", cmpstub(rank))])
                def judge(x):
                    v = x.val
                    if v.op == "agg" and v.args[1] in ("Less", "Equal", "Greater"): return v.args[1] == want
                    return None
                q.exits(judge, what, tag="first")
            for lo in (-1, 1):
                W = {-1: "Less", 1: "Greater"}
                if on:
                    for kinds in ((frag, frag), (single, single), (frag, single), (single, frag)): expect("priority %d %s%s" % (lo, kinds[0], kinds[1]), {"priority": lo}, kinds, W[-lo], "the higher priority goes first")
                z = {"priority": 0}
                expect("fragment order %d" % lo, dict(z, order=lo), (frag, frag), W[lo], "fragments keep the order in which they were handed over")
                expect("same size order %d" % lo, dict(z, size=0, order=lo), (single, single), W[lo], "messages of one size keep the order in which they were handed over")
                expect("size %d" % lo, dict(z, size=lo), (single, single), W[lo], "smaller messages go first")
            expect("fragment first", z, (frag, single), "Less", "fragments go before whole messages"); expect("fragment first'", z, (single, frag), "Greater", "fragments go before whole messages")
    # limiter
    q = c.fn(PM_ + "BandwidthLimiter::consume_packet_quota"); CN = r"check_n$"
    en = lambda it: path(it, "self.enabled")
    s = scen(c, "limiter off", q, assume=lambda it: [(en(it), False)], events=[CN])
    s.exits(lambda e: e.val is values.TRUE or (None if e.val is not values.FALSE else False), "without priorities no packet is held back", tag="admitted")
    for key, v, want in (("room", okv(okv(UNIT)), True), ("no room", okv(errv(mk("p", "later"))), False), ("never fits", errv(mk("p", "cap")), False)):
        s = scen(c, "limiter " + key, q, assume=lambda it: [(en(it), True), (le(mk("p", q.names.get(2, "packet_bytes")), I(65535)), True), (le(I(1), mk("p", q.names.get(2, "packet_bytes"))), True)], stubs=[(CN, v)], events=[CN])
        if not s.hits.get(CN): c.undecided("limiter", "the quota is taken in another way"); break
        s.exits(lambda e: decide(s.it, e, e.val, want), "a packet is admitted exactly when its bytes are within the quota: %s" % key, tag="admitted")
        for e in s.ev(CN): c.tri(True if has(e.args[1], lambda x: x is mk("p", q.names.get(2, "packet_bytes"))) and not any(x.op in ("lin", "bin") for x in subvals(e.args[1])) else None if not known(e.args[1]) else False, "limiter bytes", "the packet is charged its own size", e.where())
    n = c.fn(PM_ + "BandwidthLimiter::new")
    s = scen(c, "limiter set up", n, events=[r"RateLimiter::direct"])
    for e in s.ev(None, "exit"):
        v = aggfield(P, e.val, "enabled") if e.val.op == "agg" else None
        c.tri(None if v is None else endswith(v, "enabled"), "limiter switch", "the limiter is on exactly when configured", e.where())
    for e in s.ev(r"RateLimiter::direct"): c.tri(True if endswith(e.args[0], "bandwidth_quota") else None if not known(e.args[0]) else False, "limiter quota", "the limiter enforces the configured quota", e.where())
    # the send system
    g = c.fn(TR + "plugin::TransportPlugin::buffer_send")
    NI = [r"PacketBuilder::", r"PacketStats", r"PriorityManager::", r"ChannelSend::", r"send_mut_erased", r"LinkSender::"]
    COL, PRI, BN, CLR, CQ = r"ChannelSend::collect_send_candidates$", r"PriorityManager::prioritize$", r"PacketBuilder::build_next_packet$", r"PriorityManager::clear$", r"BandwidthLimiter::consume_packet_quota$"
    a = Auto("new", (CLR, lambda m, a: "clear"), (COL, lambda m, a: None if m in ("clear", "collecting") else "!stale candidates"), (PRI, lambda m, a: "ordered" if m == "clear" else "!candidates ordered twice"), (BN, lambda m, a: None if m == "ordered" else "!packed out of order"))
    s = scen(c, "frame", g, no_inline=NI, monitor=a, events=[COL, PRI, BN, CLR, CQ])
    for p in (PRI, BN): c.check(bool(s.ev(p)), "reaches %s" % p, "candidates are ordered and packed", g.file)
    a.report(c, g, {"stale candidates": "the candidates of a frame replace those of the last", "packed out of order": "packets are built from ordered candidates", "candidates ordered twice": "candidates are ordered once"})
    for e in s.ev(CQ):
        c.tri(True if has(e.args[1], lambda x: x.op == "len" or x.op == "call" and x.args[0].endswith("len")) and has_field(e.args[1], "payload") else None, "frame: bytes", "a packet is charged the size of its payload", e.where())
    # waiting reliable messages gain priority
    h = c.fn(TR + "channel::send_reliable::ReliableSendState::collect_candidates")
    s = scen(c, "waiting", h, writes=True, events=[r"::push$|models::push_into"])
    ws = [e for e in s.ev(None, "write") if wfield(e) == "accumulated_priority"]
    c.check(bool(ws), "waiting: grows", "a reliable message waiting to be sent gains priority every frame", h.file)
    for e in ws: c.tri(True if has_field(e.val, "accumulated_priority") and has_field(e.val, "base_priority") and e.val.op == "bin" and e.val.args[0] == "Add" else None if has(e.val, lambda x: x.op == "phi") or has_field(e.val, "accumulated_priority") else False, "waiting: by its own", "in proportion to its own priority", e.where())
