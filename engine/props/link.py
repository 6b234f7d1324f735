"""Links: state hooks, server membership, packet queues, the link conditioner and the UDP transport."""
import re
from fractions import Fraction
from lib import *
import interp
from props import prop
from props.messages import plain, qparts
from props.connection import (paramval, SELF, LK, STATES, hooks, exclusive, hookent, play, recorder, TRIG, EC, did, must, nothing, ins, rem, is_variant, reason, case, observes,
                              qname, filters, event, item, seqs, frozen, entity_of, Each, need, target, one, got)

LS = LK + "server::"
WGET = r"World\w*(<.*>)?::(get|get_mut)$|Entity\w*(<.*>)?::(get|get_mut|contains)$"
def held(given):
    """stub: which components the entities asked about have, by component type"""
    def g(it, st, fr, a, sym):
        n = it.cur_names[0]; ts = [x for x in it.cur_ta or ()]
        T = next((t for t in ts for k in given if re.sub("<.*", "", t) == k), None)
        if T is None: return None
        b = given[re.sub("<.*", "", T)]
        if re.search(r"::contains$", n): return const(bool(b))
        return some(mk("p", "own " + T.split("::")[-1]) if b is True else mk("&", b)) if b else NONE
    return (WGET, g)


def wrote(field):
    """monitor part: assignments to that field, as ("write", root, (value,))"""
    def g(it, st, kind, info):
        if kind != "write": return
        fr, root, projs, v = info
        fs = [p[2] for p in (projs or ()) if p[0] == "F"]
        if fs and fs[-1] == field: st.mon = tuple(m for m in st.mon if m[0] != "write") + (("write", root, (v,)),)
    return g


def play2(c, key, f, field, extra=(), events=(), **kw):
    ex = list(TRIG) + list(extra); r = recorder(ex); w = wrote(field); kw["stubs"] = list(kw.get("stubs", ())) + SELF
    def mon(it, st, kind, info): r(it, st, kind, info); w(it, st, kind, info)
    s = scen(c, key, f, monitor=mon, writes=True, events=[EC] + [p for p, _ in ex] + list(events), **kw)
    s.exitsv = [e for e in s.it.events if e.kind == "exit"]
    return s


def ent_is(p):
    """command on the entity satisfying p"""
    return lambda n: None if n is None else p(strip(n))


@prop("L01", floor=40, explain="the hooks of the three link states, of the server component and of the membership relation are executed symbolically with each component present and absent; commands, the recorded state and the server's list on every path are compared with the rule")
def l01(c):
    P = c.P
    exclusive(c, LK)
    for st in ("Linking", "Linked", "Unlinked"):
        for h in hooks(c, LK + st):
            f = c.fn(h); hookent(f)
            for up in ((False, True) if st == "Linking" else (None,)):
                given = {LK + "Link": True}
                if up is not None: given[LK + "Linked"] = up
                s = play2(c, "link up" if up else "link present", f, "state", stubs=[held(given)])
                if up:
                    nothing(c, s, "a link that is up ignores a late announcement that it is being established", ops=("insert", "remove", "despawn", "write"))
                else:
                    must(c, s, {"recorded as %s" % st: ("write", lambda n, a, st=st: is_variant("LinkState", st)(a[0]))}, "the state recorded in the link is the one entered last")
            s = play2(c, "no link", f, "state", stubs=[held({LK + "Link": False, **({LK + "Linked": False} if st == "Linking" else {})})])
            must(c, s, {"leaves " + o: rem(LK + o, lambda n, f=f: None if n is None else ctx_entity(f, n)) for o in STATES[LK][st]}, "the states are exclusive whatever else the entity has")
    # a server starts unlinked
    for h in hooks(c, LS + "Server"):
        f = c.fn(h); hookent(f)
        for n in range(8):
            g = {LK + st: bool(n >> i & 1) for i, st in enumerate(("Linking", "Linked", "Unlinked"))}
            s = play(c, "server with %s" % ([k.split("::")[-1] for k, b in g.items() if b] or "no state"), f, stubs=[held(g)])
            if n: nothing(c, s, "a server given a state keeps it")
            else: must(c, s, {"starts unlinked": ins(LK + "Unlinked", lambda n, f=f: None if n is None else ctx_entity(f, n), reason(P, is_variant("UnlinkReason", "Initial")))}, "a server that has no state yet starts unlinked")
    members(c)


def ctx_entity(f, v):
    """v is the entity the hook runs for"""
    v = strip(v)
    if v.op == "f" and strip(v.args[0]).op == "p": return str(v.args[2]) == "entity"
    if v.op == "p": return v.args[0] == "entity"
    return False if plain(v) else None


def named_server(v):
    """v is the server the entity's own relation names"""
    v = strip(v)
    if v.op == "f" and str(v.args[2]) == "server": return True
    if v.op == "f" and strip(v.args[0]).op == "p": return False
    if v.op in ("p", "c", "agg"): return False
    return None


ADD = r"RelationshipSourceCollection::(add|insert)$|vec::Vec(<.*>)?::push$"
DEL = r"RelationshipSourceCollection::remove$|vec::Vec(<.*>)?::(swap_remove|remove|retain)$"
SRV = mk("p", "the server"); ME = mk("p", "the link")
def is_v(w):
    return lambda n: None if n is None else True if strip(n) is w else False if strip(n).op in ("p", "agg", "c") or plain(strip(n)) else None
def members(c):
    """a server's list of links: who joins, who leaves"""
    hs = {n: list(hooks(c, LS + "LinkOf", (n,))) for n in ("on_add", "on_insert", "on_discard", "on_replace", "on_remove")}
    c.check(bool(hs["on_insert"]), "joining a server is observed", "a server's list gains the entities that name it", LS + "LinkOf")
    c.check(bool(hs["on_discard"] + hs["on_replace"]), "leaving a server is observed", "a server's list loses the entities that no longer name it", LS + "LinkOf")
    ex = [(ADD, "add"), (DEL, "del"), (r"::collection_mut_risky$", "list")]
    def world(found, server, own):
        def gm(it, st, fr, a, sym):
            e = strip(it.normarg(st, a[1]))
            base = mk("call", "bevy_ecs::world::World::entity_mut", (mk("p", "world"), e), None)
            if e is ME: return okv(base)
            return okv(base) if found else errv(mk("f", base, "Err", "0"))
        def eq(it, st, fr, a, sym):
            x, y = (strip(it.normarg(st, v)) for v in a[:2]); neg = it.cur_names[0].endswith("::ne")
            while x.op in ("*", "&"): x = strip(x.args[0])
            while y.op in ("*", "&"): y = strip(y.args[0])
            return const((x is y) != neg) if x in (ME, SRV) and y in (ME, SRV) else None
        return [(r"World\w*(<.*>)?::get_entity(_mut)?$", gm), (r"cmp::PartialEq(<.*>)?::(eq|ne)$", eq), held({LS + "LinkOf": mk("agg", LS + "LinkOf", "", (own,)), LS + "Server": server})]
    MODES = ("Run", "RunIfNotLinked", "Skip")
    RHM = "bevy_ecs::relationship::RelationshipHookMode"
    def ctx(f, md):
        """the hook's arguments, for the link entity in that mode"""
        i = hookent(f); a = c.P.adts.get("bevy_ecs::lifecycle::HookContext")
        if not a: raise MissingAnchor("hook context")
        v = {"entity": ME, "relationship_hook_mode": mk("agg", RHM, MODES[md], ())}
        return [None] * (i - 1) + [mk("agg", "bevy_ecs::lifecycle::HookContext", "HookContext", tuple(v.get(n, mk("p", "context " + n)) for n, _ in a["vars"][0][2]))]
    joined = lambda n, a: None if len(a) < 2 else is_v(ME)(a[1])
    for h in hs["on_insert"]:
        f = c.fn(h)
        for key, kw, cmds, none in (
            ("its server is there", dict(found=True, server=True, own=SRV), {"joins the list": ("add", joined)}, ("remove", "del", "despawn")),
            ("its server has no list yet", dict(found=True, server=False, own=SRV), {"joins a new list": ("add", joined), "which the server gets": ins(LS + "Server", is_v(SRV))}, ("remove", "del", "despawn")),
            ("its server does not exist", dict(found=False, server=False, own=SRV), {"gives up the relation": rem(LS + "LinkOf", is_v(ME))}, ("add", "insert", "del", "despawn")),
            ("it names itself", dict(found=True, server=True, own=ME), {"gives up the relation": rem(LS + "LinkOf", is_v(ME))}, ("add", "insert", "del", "despawn"))):
            s = play(c, key, f, extra=ex, args=ctx(f, 0), stubs=world(**kw))
            must(c, s, cmds, "a server's list is the entities that name it")
            nothing(c, s, "a server's list is the entities that name it", ops=none)
        s = play(c, "hook skipped", f, extra=ex, args=ctx(f, 2), stubs=world(True, True, SRV))
        nothing(c, s, "the engine keeps the list itself", ops=("add", "del", "insert", "remove"))
    for h in hs["on_discard"] + hs["on_replace"]:
        f = c.fn(h)
        s = play(c, "its server is there", f, extra=ex, args=ctx(f, 0), stubs=world(True, True, SRV))
        must(c, s, {"leaves the list": ("del", joined)}, "a server's list is the entities that name it")
        nothing(c, s, "a server's list is the entities that name it", ops=("add", "insert"))


# ------------------------------------------------------------------------------------------------ L02 conditioner
LC = LK + "conditioner::LinkConditioner::"; LCC = LK + "conditioner::LinkConditionerConfig::"
CFG = ("good_loss", "bad_loss", "good_to_bad", "bad_to_good", "incoming_latency", "incoming_jitter")
def cfgfield(v):
    """the configuration field a value is (None: not one)"""
    v = strip(v)
    while v.op in ("*", "&", "cast"): v = strip(v.args[-1] if v.op == "cast" else v.args[0])
    return str(v.args[2]) if v.op == "f" and str(v.args[2]) in CFG else None
def chance(l, back=False):
    """(draw, field) when the literal compares a random draw with a configured probability: draw < field"""
    if l.op in ("flt", "<.") or "<." in l.op: a, b = l.args[:2]
    else: return None
    a = strip(a); b = strip(b)
    if back: a, b = b, a
    if a.op == "call" and a.args[0] == "draw" and cfgfield(b): return a, cfgfield(b)
    return None
def touches(l, *names):
    return has(l, lambda x: (x.op == "f" and str(x.args[2]) in names) or (x.op == "p" and any(str(x.args[0]) == "ms of " + n for n in names)))


@prop("L02", floor=120, explain="the conditioner's treatment of one packet is executed symbolically in both loss states with the random draws left open; path by path the probability compared, the next state, the drop and the release time are compared with the configuration, and the queues around it are followed packet by packet")
def l02(c):
    one_packet(c); around(c); settings(c)


def one_packet(c):
    P = c.P; f = c.fn(LC + "condition_packet"); where = "%s:%s (%s)" % (f.file, f.line, f.name)
    def mon(it, st, kind, info):
        if kind == "write":
            if any(p[0] == "F" and p[2] == "state" for p in info[2] or ()): st.mon = tuple(m for m in st.mon if m[0] != "state") + (("state", info[3]),)
        elif kind == "call":
            names, args = info[0], info[1]; a = tuple(it.normarg(st, x) for x in args); n = names[0]
            if re.search(r"Duration::from_\w+$", n): r = ("delay", n.split("::")[-1], a[0])
            elif re.search(r"ReadyBuffer(<.*>)?::push$", n): r = ("push",) + a
            elif re.search(r"::random_range$", n) and not show(a[1]).count(".0"): r = ("jitter", a[1])
            else: return
            if r not in st.mon: st.mon = st.mon + (r,)
    def ms(it, st, fr, a, sym):
        x = cfgfield(it.normarg(st, a[0])); return mk("p", "ms of " + x) if x else None
    def draw(it, st, fr, a, sym): return mk("call", "draw", (it.normarg(st, a[1]),), sym)
    ST = P.adts[LK + "conditioner::LinkConditionerState"]
    for cur, nxt, loss, trans in (("Good", "Bad", "good_loss", "good_to_bad"), ("Bad", "Good", "bad_loss", "bad_to_good")):
        s = scen(c, cur, f, writes=True, monitor=mon, events=[r"ReadyBuffer(<.*>)?::push$", r"Duration::from_\w+$", r"random_range$"], stubs=[(r"Duration::as_millis$", ms), (r"::random_range$", draw)],
                 assume=lambda it: [(deq(path(it, "self.state"), variant(P, LK + "conditioner::LinkConditionerState", cur)), True)])
        es = [e for e in s.it.events if e.kind == "exit"]
        for e in s.ev(r"::random_range$"):
            r = strip(e.args[1])
            if r.op != "agg" or not r.args[0].endswith("::Range") or ".0" in show(r): continue
            lo, hi = r.args[2]
            c.check(e.interp.truth(e.state, lt(lo, hi)) is True, "in the %s state: the jitter's range is not empty" % cur.lower(), "drawing from an empty range stops the program: %s" % show(r), e.where())
        if not es: c.undecided(cur, "no exit"); continue
        for e in es:
            lits = literals(e.state); ch = [(chance(l), b) for l, b in lits if chance(l)]
            used = {x[1]: (x[0], b) for x, b in ch}
            push = [m for m in e.state.mon if m[0] == "push"]; st = [m for m in e.state.mon if m[0] == "state"]
            tag = "in the %s state, %s, %s" % (cur.lower(), "kept" if push else "dropped", "state left" if st else "state kept")
            txt = ", ".join(("" if b else "!") + show(l)[-60:] for l, b in lits if touches(l, *CFG))
            for k in used:
                c.check(k in (loss, trans), "%s: uses %s" % (tag, k), "the chances are those of the state the link is in: %s" % txt, where)
            open_ = any(touches(l, "good_loss", "bad_loss", "good_to_bad", "bad_to_good") and not chance(l) for l, b in lits)
            # dropped exactly when the draw is under the loss probability
            if loss in used: c.check(used[loss][1] == (not push), "%s: against its chance" % tag, "a packet is lost exactly when the draw is under the loss probability: %s" % txt, where)
            elif any((chance(l, True) or (0, 0))[1] == loss for l, b in lits): c.bad("%s: against its chance" % tag, "a packet is lost exactly when the draw is under the loss probability, so never with probability zero: %s" % txt, where)
            elif open_: c.undecided("%s: against its chance" % tag, txt)
            else: c.bad("%s: against its chance" % tag, "a packet is lost with the probability configured for the state: %s" % txt, where)
            if trans in used: c.check(used[trans][1] == bool(st), "%s: state against its chance" % tag, "the state changes exactly when the draw is under the transition probability: %s" % txt, where)
            elif open_: c.undecided("%s: state against its chance" % tag, txt)
            else: c.bad("%s: state against its chance" % tag, "the state changes with the probability configured for it: %s" % txt, where)
            if st:
                r = is_variant("LinkConditionerState", nxt)(st[0][1]); c.tri(r, "%s: state reached" % tag, "leaving one state enters the other", where)
            if loss in used and trans in used: c.check(used[loss][0] is not used[trans][0], "%s: own draws" % tag, "loss and transition are decided by draws of their own", where)
            for d in {x[0] for x, _ in ch}:
                r = strip(d.args[1][0]); ok = r.op == "agg" and [show(strip(x)) for x in r.args[2]] == ["0.0", "1.0"]
                c.tri(True if ok else False if r.op == "agg" and all(plain(strip(x)) for x in r.args[2]) else None, "%s: uniform draw" % tag, "draws are uniform over 0..1: %s" % show(r), where)
            if push: release(c, e, tag, push, where)


def evalms(v, env):
    """a value over the latency, the jitter and the draw at one point (None: not computable)"""
    v = strip(v)
    while v.op == "cast": v = strip(v.args[-1] if isinstance(v.args[-1], type(v)) else v.args[1])
    if v.op == "p" and str(v.args[0]).startswith("ms of "): return env.get(str(v.args[0])[6:])
    if v.op == "call" and v.args[0] == "draw": return env["draw"]
    if isint(v): return ival(v)
    if v.op == "lin":
        xs = [evalms(x, env) for x, _ in v.args[0]]
        return None if None in xs else v.args[1] + sum(k * x for (_, k), x in zip(v.args[0], xs))
    if v.op in ("bin", "*", "min", "max"):
        op = v.args[0] if v.op == "bin" else v.op; xs = [evalms(x, env) for x in (v.args[1:] if v.op == "bin" else v.args)]
        if None in xs or len(xs) != 2: return None
        a, b = xs
        return {"Div": lambda: int(a / b) if b else None, "Mul": lambda: a * b, "*": lambda: a * b, "Shr": lambda: a >> b if 0 <= b < 64 else None, "Rem": lambda: a % b if b and a >= 0 else None, "min": lambda: min(a, b), "max": lambda: max(a, b), "Sub": lambda: a - b, "Add": lambda: a + b}.get(str(op), lambda: None)()
    return None
def samples(lits, drawn):
    """points (latency, jitter, draw) the literals of a path allow, as far as they can be computed"""
    out = []
    for L in (0, 1, 2, 7, 40, 100):
        for J in (0, 1, 5, 60):
            for D in (sorted({-J, -1, 0, 1, J - 1} & set(range(-J, J))) if drawn and J else [0]):
                if drawn and not J: continue
                env = {"incoming_latency": L, "incoming_jitter": J, "draw": D}; ok = True
                for l, b in lits:
                    if l.op == "le": x = evalms(mk("lin", l.args[0], l.args[1]), env); y = None if x is None else x <= 0
                    elif l.op == "ieq": x, z = (evalms(a, env) if hasattr(a, "op") else None for a in l.args[:2]); y = None if x is None or z is None else x == z
                    else: continue
                    if y is not None and y != b: ok = False; break
                if ok: out.append((env, L + (D if drawn else 0)))
    return out


def release(c, e, tag, push, where):
    """the release time of a packet kept"""
    it = e.interp; L = mk("p", "ms of incoming_latency"); J = mk("p", "ms of incoming_jitter")
    c.check(len(push) == 1, tag + ": queued once", "a packet that is not lost is queued once", where)
    _, q, at, pk = push[0]
    c.tri(True if strip(pk).op == "p" and strip(pk).args[0] in e.fn.names.values() else False if plain(strip(pk)) else None, tag + ": the packet itself", "the packet received is the one queued", where)
    j = [m for m in e.state.mon if m[0] == "jitter"]; d = [m for m in e.state.mon if m[0] == "delay"]
    rng = None
    if j:
        r = strip(j[0][1])
        if r.op == "agg" and r.args[0].endswith("Range") and len(r.args[2]) == 2:
            lo, hi = (nocast(x) for x in r.args[2]); rng = True
            c.check(ieq(lo, sub(const(0), J)) is TRUE and ieq(hi, J) is TRUE if known_ms(lo) and known_ms(hi) else True, tag + ": spread", "the jitter is spread evenly around the latency: %s" % show(r), where)
    else:
        z = [l for l, b in literals(e.state) if touches(l, "incoming_jitter")]
        c.check(bool(z), tag + ": no jitter", "the jitter is left out only when it is zero", where)
    want = L if not j else None
    v = strip(at)
    now = lambda x: strip(x).op == "p" and str(strip(x).args[0]) == "instant"
    if now(v):
        lits = literals(e.state); zero = any(touches(l, "incoming_latency") and b for l, b in lits) and (not all(l.op in ("le", "ieq") for l, b in lits if touches(l, "incoming_latency", "incoming_jitter")) or not any(tot > 0 for _, tot in samples(lits, bool(j))))
        c.check(zero, tag + ": at once", "a packet is released at once only when the delay comes out as zero", where)
    elif (v.op == "bin" and v.args[0] == "DAdd") or (v.op == "call" and v.args[0].endswith("::add")):
        a = v.args[1:3] if v.op == "bin" else v.args[1][:2]
        x = next((y for y in a if not now(y)), None)
        if not any(now(y) for y in a) or x is None: c.check(False if all(strip(y).op in ("p", "f") for y in a) else True, tag + ": counted from arrival", "the delay counts from the arrival: %s" % show(v), where); return
        if d and d[0][1] == "from_millis":
            t = nocast(d[0][2]); tt, k = lin_of(t)
            terms = {show(y): n for y, n in tt}
            draws = {show(y): n for y, n in tt if strip(y).op == "call" and strip(y).args[0] == "draw"}
            if all(known_ms(y) for y, _ in tt):
                ok = k == 0 and terms.get(show(L)) == 1 and (len(draws) == 1 and set(draws.values()) == {1} if j else not draws) and len(terms) == (2 if j else 1)
                c.check(ok, tag + ": delayed by the latency", "the release is the arrival plus the latency and the jitter drawn: %s" % show(t), where)
            else:
                pts = [(evalms(d[0][2], env), tot) for env, tot in samples(literals(e.state), bool(j)) if tot > 0]
                if pts and any(x is not None and x != tot for x, tot in pts): c.bad(tag + ": delayed by the latency", "the release is the arrival plus the latency and the jitter drawn: %s" % show(t), where)
                elif pts and all(x == tot for x, tot in pts): c.ok(tag + ": delayed by the latency", "the release is the arrival plus the latency and the jitter drawn")
                else: c.undecided(tag + ": delayed by the latency", show(t))
        elif cfgfield(x): c.check(cfgfield(x) == "incoming_latency", tag + ": delayed by the latency", "the release is the arrival plus the latency: %s" % show(x), where)
        else: c.undecided(tag + ": delayed by the latency", show(x))
    else: c.undecided(tag + ": release", show(v))


def nocast(v):
    """integer value with its casts taken off, sums rebuilt"""
    v = strip(v)
    while v.op == "cast": v = strip(v.args[-1] if isinstance(v.args[-1], type(v)) else v.args[1])
    t, k = lin_of(v)
    if len(t) == 1 and t[0][0] is v: return v
    r = const(k)
    for x, n in t: r = add(r, mul(const(n), nocast(x)))
    return r
def known_ms(v):
    return all(x.op == "p" and str(x.args[0]).startswith("ms of ") or (x.op == "call" and x.args[0] == "draw") for x, _ in lin_of(v)[0])


def order(s, op, want, why, c, tag):
    """on every path the commands of that kind are exactly these, in this order"""
    f = s.f; where = "%s:%s (%s)" % (f.file, f.line, f.name)
    if not s.exitsv: c.undecided(tag, "no exit"); return
    for e in s.exitsv:
        got = [m for m in e.state.mon if m[0] == op]
        rs = [w(m[2]) for w, m in zip(want, got)]
        if len(got) != len(want) or any(r is False for r in rs): c.bad(tag, "%s: %s" % (why, [show(m[2][-1])[:60] for m in got]), where); return
        if any(r is None for r in rs): c.undecided(tag, why); return
    c.ok(tag, why)
def rootpath(v):
    """field names from the root of a place-like value"""
    fs = []; v = strip(v)
    while v.op in ("f", "*", "&") or (v.op == "call" and re.search(r"Deref(Mut)?::deref(_mut)?$", v.args[0])):
        if v.op == "call": v = strip(v.args[1][0]); continue
        if v.op == "f" and not str(v.args[2]).isdigit(): fs.append(str(v.args[2]))
        v = strip(v.args[0])
    return v, tuple(reversed(fs))
PKS = [mk("p", "P%d" % i) for i in range(3)]
def counted(pat, vals, last=NONE):
    """stub: successive calls return the given values, then `last`"""
    def g(it, st, fr, a, sym):
        k = sum(1 for m in st.mon if m[0] == "ask")
        st.mon = st.mon + (("ask", k, ()),)
        return some(vals[k]) if k < len(vals) else last
    return (pat, g)
POP = r"LinkConditioner(<.*>)?::pop_packet$"; COND = r"LinkConditioner(<.*>)?::condition_packet$"
BACK = r"VecDeque(<.*>)?::push_back$"; FRONT = r"VecDeque(<.*>)?::push_front$"
isv = lambda w: (lambda v: True if strip(v) is w else False if strip(v).op in ("p", "agg") or plain(strip(v)) else None)


def around(c):
    P = c.P
    # arriving packets go through the conditioner when there is one
    f = c.fn(LK + "LinkReceiver::push"); ex = [(COND, "cond"), (BACK, "back"), (FRONT, "front")]
    cf = lambda it: path(it, "self.conditioner")
    val = lambda v: True if strip(v) is paramval(f, 2) else False if strip(v).op == "p" else None
    s = play(c, "conditioner set", f, extra=ex, assume=lambda it: [(deq(cf(it), 1), True)])
    order(s, "cond", [lambda a: val(a[1])], "a packet arriving on a conditioned link is conditioned", c, "push: conditioned")
    nothing(c, s, "and not available before its time", ops=("back", "front"))
    order(s, "cond", [lambda a: True if strip(a[2]) is paramval(f, 3) else False if strip(a[2]).op == "p" else None], "its delay counts from its arrival", c, "push: arrival time")
    s = play(c, "no conditioner", f, extra=ex, assume=lambda it: [(deq(cf(it), 0), True)])
    order(s, "back", [lambda a: val(a[1])], "without a conditioner a packet is available at once, after those before it", c, "push: direct")
    nothing(c, s, "and passes once", ops=("cond", "front"))
    # packets whose time has come
    f = c.fn(LC + "pop_packet"); PI = r"ReadyBuffer(<.*>)?::pop_item$"
    s = play(c, "a packet is due", f, extra=[(PI, "pop")], stubs=[(PI, some(mk("agg", "()", "", (mk("p", "its time"), PKS[0]))))])
    if s.hits.get(PI):
        order(s, "pop", [lambda a: True if strip(a[1]) is paramval(f, 2) else False if strip(a[1]).op == "p" else None], "packets are taken by the time given", c, "pop_packet: time")
        for e in s.exitsv: c.tri(True if same(s.it, e, e.val, some(PKS[0])) else False if e.val.op in ("agg", "p") else None, "pop_packet: the packet due", "the packet taken is the one that was due", f.file)
    s = play(c, "nothing is due", f, stubs=[(PI, NONE)])
    for e in s.exitsv:
        if s.hits.get(PI): c.tri(True if e.val is NONE else False if e.val.op == "agg" else None, "pop_packet: nothing due", "no packet leaves before its time", f.file)
    f = c.fn(LK + "LinkPlugin::apply_link_conditioner")
    link = mk("p", "item Link")
    for n in range(3):
        for has_c in (True, False):
            if not has_c and n: continue
            key = "%d packets due" % n if has_c else "no conditioner"
            s = play(c, key, f, extra=[(POP, "pop"), (BACK, "back"), (FRONT, "front")], stubs=[counted(POP, PKS[:n])] + seqs((r"Query", [link])),
                     assume=lambda it: [(deq(mk("f", mk("f", mk("*", link) if False else link, "", "recv"), "", "conditioner"), 1 if has_c else 0), True)])
            if not s.exitsv or not any(m[0] == "it" for e in s.exitsv for m in e.state.mon): c.undecided("apply: " + key, "links not iterated as expected"); continue
            order(s, "back", [lambda a, k=k: isv(PKS[k])(a[1]) if rootpath(a[0])[0] is not link or rootpath(a[0])[1][-2:] == ("recv", "buffer") else False for k in range(n)], "packets whose time has come are handed to the link in the order they come out", c, "apply: %s: delivered" % key)
            nothing(c, s, "and nothing else", ops=("front",))
            if has_c:
                for e in s.exitsv: c.check(sum(1 for m in e.state.mon if m[0] == "ask") == n + 1, "apply: %s: all" % key, "packets are taken until none is due", "%s:%s (%s)" % (f.file, f.line, f.name))
    server_conditioner(c)


def server_conditioner(c):
    """a link of a server takes the server's conditioner, with the packets it already received"""
    P = c.P; f = c.fn(LS + "add_server_link_conditioner"); observes(c, f, "Add", "LinkOf")
    ql = qname(f, "LinkOf", "Link"); qs = qname(f, "Server")
    filters(c, f, ql, need=("LinkOf", "Link")); filters(c, f, qs, need=("Server",))
    PUSH = r"LinkReceiver::(push|push_raw)$"; DRAIN = r"LinkReceiver::drain$"
    link = mk("p", "item Link"); srv = mk("p", "SRV"); cfg = mk("p", "the server's")
    wr = wrote("conditioner")
    for there in (True, False):
        for given in (True, False):
            for own in (True, False):
                if not there and (given or own): continue
                key = "%s, %s" % (("server conditioned" if given else "server not conditioned") if there else "server unknown", "link has its own" if own else "link has none")
                lk = mk("agg", LK + "Link", "Link", tuple(mk("agg", LK + "LinkReceiver", "LinkReceiver", tuple((some(mk("p", "its own")) if own else NONE) if n == "conditioner" else mk("p", "its " + n) for n, _ in P.adts[LK + "LinkReceiver"]["vars"][0][2])) if n == "recv" else mk("p", "its " + n) for n, _ in P.adts[LK + "Link"]["vars"][0][2]))
                sv = mk("agg", LS + "Server", "Server", tuple((some(cfg) if given else NONE) if n == "conditioner" else mk("p", "its " + n) for n, _ in P.adts[LS + "Server"]["vars"][0][2]))
                def q(it, st, fr, a, sym):
                    p = strip(it.normarg(st, a[0])); n = str(p.args[0]) if p.op == "p" else None
                    if n == ql: return okv(mk("agg", "()", "", (mk("&", mk("agg", LS + "LinkOf", "LinkOf", (srv,))), lk)))
                    if n == qs: return okv(mk("&", sv)) if there else errv(mk("p", "no such"))
                    return None
                rec = recorder(list(TRIG) + [(PUSH, "requeue"), (DRAIN, "drain")])
                def mon(it, st, kind, info):
                    rec(it, st, kind, info)
                    if kind == "write" and any(p[0] == "F" and p[2] == "conditioner" for p in info[2] or ()): st.mon = st.mon + (("write", None, (info[3],)),)
                s = scen(c, key, f, monitor=mon, writes=True, events=[PUSH, DRAIN], stubs=[(r"system::query::Query::(get|get_mut)$", q)] + [(r"Iterator::collect$", lambda it, st, fr, a, sym: mk("agg", "[]", "", tuple(PKS[:2])) if has_call(it.normarg(st, a[0]), r"LinkReceiver::drain$") else None), walk()] + seqs((r"LinkReceiver::drain|its buffer", PKS[:2])))
                s.exitsv = [e for e in s.it.events if e.kind == "exit"]
                if there and given and not own:
                    order(s, "write", [lambda a: None if strip(a[0]).op != "agg" else (True if has(a[0], lambda x: x is cfg) else False)], "a link without a conditioner takes its server's", c, "server: %s: conditioner" % key)
                    order(s, "requeue", [lambda a, k=k: isv(PKS[k])(a[1]) for k in range(2)], "packets that arrived before are conditioned too, in order", c, "server: %s: packets" % key)
                    for e in s.exitsv:
                        ops = [m[0] for m in e.state.mon if m[0] in ("write", "requeue", "drain")]
                        c.tri(None if "write" not in ops or "drain" not in ops else ops.index("drain") < ops.index("write") < (ops.index("requeue") if "requeue" in ops else 99), "server: %s: in order" % key, "the packets are requeued through the new conditioner", f.file)
                    c.check(not any("push_raw" in n for e in s.it.events if e.kind == "call" for n in e.names), "server: %s: conditioned" % key, "packets that arrived before are conditioned too", f.file)
                else: nothing(c, s, "a link keeps what it has when its server does not condition, or it has its own", ops=("write", "requeue", "drain"))


class Ratio:
    """quotient of polynomials over named quantities"""
    def __init__(self, n, d): self.n = n; self.d = d
    @staticmethod
    def num(x): return Ratio({(): x} if x else {}, {(): Fraction(1)})
    @staticmethod
    def var(x): return Ratio({(x,): Fraction(1)}, {(): Fraction(1)})
    @staticmethod
    def pm(a, b):
        out = {}
        for x, m in a.items():
            for y, n in b.items():
                k = tuple(sorted(x + y)); out[k] = out.get(k, 0) + m * n
        return {k: v for k, v in out.items() if v}
    @staticmethod
    def pa(a, b, s=1):
        out = dict(a)
        for k, v in b.items(): out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}
    def __mul__(self, o): return Ratio(self.pm(self.n, o.n), self.pm(self.d, o.d))
    def __truediv__(self, o): return Ratio(self.pm(self.n, o.d), self.pm(self.d, o.n))
    def __add__(self, o): return Ratio(self.pa(self.pm(self.n, o.d), self.pm(o.n, self.d)), self.pm(self.d, o.d))
    def __sub__(self, o): return Ratio(self.pa(self.pm(self.n, o.d), self.pm(o.n, self.d), -1), self.pm(self.d, o.d))
    def eq(self, o): return not self.pa(self.pm(self.n, o.d), self.pm(o.n, self.d), -1)
def ratio(v, env):
    """the float expression as a quotient of polynomials (None: other operations)"""
    v = strip(v)
    while v.op in ("*", "&"): v = strip(v.args[0])
    if v.op == "bin" and v.args[0] in ("Div", "Mul", "Add", "Sub", "DDiv", "DMul", "DAdd", "DSub"):
        a, b = (ratio(x, env) for x in v.args[1:3])
        if a is None or b is None: return None
        o = v.args[0].lstrip("D") if v.args[0] not in ("Div", "DDiv") else "Div"
        if o == "Div" and not b.n: return None
        return a / b if o == "Div" else a * b if o == "Mul" else a + b if o == "Add" else a - b
    if v.op == "c":
        try: return Ratio.num(Fraction(re.sub(r"_?f(32|64)$", "", str(v.args[1]))))
        except ValueError: return None
    if v.op == "f" and strip(v.args[0]).op in ("p", "*") and str(v.args[2]) in env: return env[str(v.args[2])]
    if v.op == "p": return Ratio.var(str(v.args[0]))
    if v.op == "f": return Ratio.var("." + str(v.args[2]))
    return None


def settings(c):
    P = c.P; where = lambda f: "%s:%s (%s)" % (f.file, f.line, f.name)
    N = [n for n, _ in P.adts[LK + "conditioner::LinkConditionerConfig"]["vars"][0][2]]
    def result(name, key="settings"):
        f = c.fn(LCC + name); s = scen(c, key, f, no_inline=[r"panic|format|Arguments"])
        es = [e for e in s.it.events if e.kind == "exit"]
        return f, s, es
    def val(e, n): return aggfield(P, e.val, n)
    def setting(name, want, why):
        f, s, es = result(name)
        if not es: c.undecided(name, "no exit"); return
        for e in es:
            for n in N:
                v = val(e, n); k = "%s: %s" % (name, n)
                r = ratio(v, {}) if v is not None else None
                w = want.get(n, "." + n)
                if w is None: continue
                if r is None: c.undecided(k, show(v) if v is not None else "?"); continue
                c.check(r.eq(w if isinstance(w, Ratio) else Ratio.var(w)), k, "%s: %s" % (why, show(v)[:100]), where(f))
    arg = lambda name, i: str(c.fn(LCC + name).names[i])
    setting("with_incoming_latency", {"incoming_latency": arg("with_incoming_latency", 2)}, "the latency given is the one configured, and nothing else changes")
    setting("with_incoming_jitter", {"incoming_jitter": arg("with_incoming_jitter", 2)}, "the jitter given is the one configured, and nothing else changes")
    p = arg("with_fixed_loss", 2)
    setting("with_fixed_loss", {"good_loss": p, "bad_loss": p, "good_to_bad": None, "bad_to_good": None}, "with a fixed loss both states lose with that probability")
    half = lambda n: Ratio.var("." + n) / Ratio.num(Fraction(2))
    setting("half", {n: half(n) for n in ("incoming_latency", "incoming_jitter", "good_loss", "bad_loss")}, "each direction gets half of the delay and loss, with the same bursts")
    # the burst settings have the mean loss and the mean burst length asked for
    one = Ratio.num(Fraction(1)); zero = Ratio.num(Fraction(0))
    fm, sm, em = result("mean_loss")
    for name, bad, low in (("with_gilbert_elliott_loss", lambda a: Ratio.var(a[3]), lambda a: Ratio.var(a[4])), ("with_gilbert_loss", lambda a: Ratio.var(a[3]), lambda a: zero), ("with_simple_gilbert_loss", lambda a: one, lambda a: zero)):
        f, s, es = result(name); a = {i - 1: str(f.names[i]) for i in range(2, f.argc + 1)}
        for e in es:
            r = {n: ratio(val(e, n), {}) if val(e, n) is not None else None for n in N}
            if any(r[n] is None for n in ("good_loss", "bad_loss", "good_to_bad", "bad_to_good")): c.undecided(name, "not a quotient of polynomials"); continue
            c.check(r["bad_loss"].eq(bad(a)) and r["good_loss"].eq(low(a)), name + ": losses", "the losses of the two states are those asked for", where(f))
            c.check(r["bad_to_good"].n and (one / r["bad_to_good"]).eq(Ratio.var(a[2])), name + ": burst length", "a burst of losses has the mean length asked for", where(f))
            t = r["good_to_bad"] + r["bad_to_good"]; sb = r["good_to_bad"] / t
            c.check(((one - sb) * r["good_loss"] + sb * r["bad_loss"]).eq(Ratio.var(a[1])), name + ": mean loss", "the long-run share of packets lost is the one asked for", where(f))
            for n in ("incoming_latency", "incoming_jitter"):
                if r[n] is not None: c.check(r[n].eq(Ratio.var("." + n)), name + ": " + n, "the delay is not affected", where(f))
    g = Ratio.var(".good_loss"); b = Ratio.var(".bad_loss"); gb = Ratio.var(".good_to_bad"); bg = Ratio.var(".bad_to_good")
    conds = {l for parts in sm.it.nodes.values() for st in parts.values() for l, x in literals(st) if l.op == "flt"}
    if len(conds) == 1:
        l = conds.pop(); rs = [ratio(x, {}) for x in l.args]
        for t in (True, False):
            s = scen(c, "mean_loss %s" % t, fm, assume=lambda it: [(l, t)])
            for e in s.it.events:
                if e.kind != "exit": continue
                r = ratio(e.val, {}); k = "mean_loss: %s%s" % ("" if t else "not ", show(l))
                if r is None or any(x is None for x in rs): c.undecided(k, show(e.val)[:100]); continue
                lt, rt = rs; up = lt.eq(zero) and rt.eq(gb + bg)          # 0 < transitions
                if not up: c.undecided(k, "condition not recognised"); continue
                want = (one - gb / (gb + bg)) * g + gb / (gb + bg) * b if t else g
                c.check(r.eq(want), k, "the mean loss weighs the two states by the time spent in them: %s" % show(e.val)[:80], where(fm))
    else: c.undecided("mean_loss", "%d conditions" % len(conds))


# ------------------------------------------------------------------------------------------------ L03 UDP
UC = "lightyear_udp::UdpPlugin::"; US = "lightyear_udp::server::ServerUdpPlugin::"; UIO = "lightyear_udp::UdpIo"; USIO = "lightyear_udp::server::ServerUdpIo"
TAKE = r"BufferPool::take$"; HAND = r"BufferPool::split_for_handoff$"; RECY = r"BufferPool::recycle$"; RECV = r"UdpSocket::recv(_from)?$"; PUSHQ = r"LinkReceiver::(push|push_raw)$"
BUF = lambda k: mk("p", "buffer%d" % k); ADDR = lambda k: mk("p", "address%d" % k); HANDED = lambda b: mk("call", "handed on", (b,), None)
EK = "core::io::error::ErrorKind"
def socket(script):
    """stubs: the socket returns the outcomes listed, one after the other; buffers of the pool are told apart"""
    n = lambda st, tag: sum(1 for m in st.mon if m[0] == tag)
    def take(it, st, fr, a, sym):
        k = n(st, "take"); st.mon = st.mon + (("take", None, (BUF(k),)),); return BUF(k)
    def recv(it, st, fr, a, sym):
        k = n(st, "recv"); st.mon = st.mon + (("recv", k, (it.normarg(st, a[1]),)),)
        o = script[k] if k < len(script) else "WouldBlock"
        if isinstance(o, tuple): return okv(mk("agg", "()", "", (mk("p", "length%d" % k), o[0])))
        return errv(mk("p", "error " + o))
    def kind(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0]))
        while v.op in ("&", "*"): v = strip(v.args[0])
        return mk("agg", EK, v.args[0].split()[1], ()) if v.op == "p" and str(v.args[0]).startswith("error ") else None
    def eq(it, st, fr, a, sym):
        x, y = (strip(it.normarg(st, v)) for v in a[:2])
        while x.op in ("*", "&"): x = strip(x.args[0])
        while y.op in ("*", "&"): y = strip(y.args[0])
        if x.op == y.op == "agg" and x.args[0].endswith("ErrorKind") and y.args[0].endswith("ErrorKind"): return const((x.args[1] == y.args[1]) != it.cur_names[0].endswith("::ne"))
        return None
    def hand(it, st, fr, a, sym):
        b = strip(it.normarg(st, a[1])); st.mon = st.mon + (("hand", None, (b,)),); return HANDED(b)
    def rec(it, st, fr, a, sym):
        st.mon = st.mon + (("recycle", None, (strip(it.normarg(st, a[1])),)),); return mk("agg", "()", "", ())
    def sock(it, st, fr, a, sym):
        v = it.normarg(st, a[0])
        return some(mk("p", "the socket")) if re.search(r"\bsocket\b", show(v)[-40:]) else None
    def asm(it, st, fr, a, sym):
        return const(0) if show(strip(it.normarg(st, a[0]))).lstrip("&*").startswith("buffer") else None
    def touch(it, st, fr, a, sym):
        b = it.normarg(st, a[0])
        while b.op in ("*", "&"): b = strip(b.args[0])
        if b.op != "p" or not str(b.args[0]).startswith("buffer"): return None
        if it.cur_names[0].endswith(("advance_mut", "set_len")): st.mon = st.mon + (("grow", None, (b, strip(it.normarg(st, a[1])))),)
        return mk("agg", "()", "", ())
    def bytes_of(it, st, fr, a, sym):
        b = it.normarg(st, a[0])
        while b.op in ("*", "&"): b = strip(b.args[0])
        return mk("p", "bytes of %s" % b.args[0]) if b.op == "p" and str(b.args[0]).startswith("buffer") else None
    unit = mk("agg", "()", "", ())
    return [(TAKE, take), (RECV, recv), (r"(BufMut|BytesMut)(<.*>)?::(advance_mut|set_len|reserve|clear|resize)$", touch), (r"(DerefMut|Deref)(<.*>)?::deref(_mut)?$|BytesMut::(as_mut_ptr|spare_capacity_mut|chunk_mut)$", bytes_of), (PUSHQ, unit), (r"reclaim_pending$", unit), (r"io::error::Error::kind$", kind), (r"cmp::PartialEq(<.*>)?::(eq|ne)$", eq), (HAND, hand), (RECY, rec), (r"option::Option(<.*>)?::as_(mut|ref)$", sock), (r"BytesMut::len$", asm)]


def buffers(c, s, key):
    """every buffer taken from the pool goes back to it or on to the link, once; recorded on every path that ends"""
    where = "%s:%s (%s)" % (s.f.file, s.f.line, s.f.name)
    for e in s.exitsv:
        t = [m[2][0] for m in e.state.mon if m[0] == "take"]; g = [m[2][0] for m in e.state.mon if m[0] in ("recycle", "hand")]
        if any(x.op != "p" for x in g): c.undecided(key + ": buffers", "%s" % [show(x) for x in g]); continue
        c.check(sorted(map(show, t)) == sorted(map(show, g)), key + ": buffers", "every buffer taken from the pool is given back or handed on, once: taken %s, given %s" % ([show(x) for x in t], [show(x) for x in g]), where)
        for i, m in enumerate(m for m in e.state.mon if m[0] == "recv"):
            bs = sorted({str(v.args[0]) for v in subvals(m[2][0]) if v.op == "p" and str(v.args[0]).startswith("bytes of ")})
            c.tri((bs == ["bytes of buffer%d" % i]) if bs else None, key + ": read into", "packet %d is read into the buffer taken for it: %s" % (i, bs), where)
            n = next((v.args[1][1] for v in subvals(m[2][0]) if v.op == "call" and re.search(r"from_raw_parts(_mut)?$", str(v.args[0])) and len(v.args[1]) > 1), None)
            if n is not None:
                for cap in (MTU, MTU + 500):
                    x = numeval(n, {v: cap for v in subvals(n) if v.op == "call" and str(v.args[0]).endswith("::capacity")})
                    c.tri(None if x is None else MTU <= x <= cap, key + ": room, capacity %d" % cap, "a whole packet fits where it is read to, and no more than the buffer holds: %s" % show(n), where)
        for m in e.state.mon:
            if m[0] == "grow": c.tri(uncast(m[2][1]) is mk("p", "length" + str(m[2][0].args[0])[6:]) if uncast(m[2][1]).op in ("p", "c") else False if has(m[2][1], lambda v: v.op == "lin" and (v.args[1] or any(k != 1 for _, k in v.args[0])) and has(v, lambda x: x.op == "p" and str(x.args[0]).startswith("length"))) else None, key + ": length", "the packet has the length read: %s" % show(m[2][1]), where)
        hd = [show(m[2][0]) for m in e.state.mon if m[0] == "hand"]; gr = [show(m[2][0]) for m in e.state.mon if m[0] == "grow"]
        c.check(hd == gr or not gr, key + ": filled", "every packet handed on has been filled: %s, %s" % (hd, gr), where)


MTU = 1472      # the largest datagram an Ethernet frame carries
OK = lambda k: (ADDR(k),)
SCRIPTS = [("nothing arrived", []), ("one packet", [OK(0)]), ("three packets", [OK(0), OK(1), OK(2)]), ("a reset between packets", [OK(0), "ConnectionReset", OK(2)]), ("an error after a packet", [OK(0), "Other", OK(2)]), ("an error", ["Other"]), ("a reset", ["ConnectionReset"])]
def arrivals(script):
    """indices of the packets read in one pass"""
    out = []
    for i, o in enumerate(script):
        if isinstance(o, tuple): out.append(i)
        elif o != "ConnectionReset": break
    return out


@prop("L03", floor=180, explain="the UDP systems are executed symbolically with the socket returning every kind of result, with every state of the address table; buffers, queues, table entries, spawned links and sends are compared with the rule")
def l03(c):
    P = c.P
    # client side
    f = c.fn(UC + "receive"); q = qname(f, "Link", "UdpIo"); filters(c, f, q, need=("Link", "UdpIo", "Linked"))
    link = mk("p", "item Link"); io = mk("p", "item UdpIo")
    for key, script in SCRIPTS:
        s = play(c, "client: " + key, f, extra=[(PUSHQ, "push")], stubs=socket(script) + seqs((r"Query", [mk("agg", "()", "", (link, io))])))
        if not s.exitsv or not any(m[0] == "recv" for e in s.exitsv for m in e.state.mon): c.undecided("client: " + key, "the socket is not read as expected"); continue
        buffers(c, s, "client: " + key)
        order(s, "push", [lambda a, k=k: None if strip(a[1]).op != "call" else (strip(a[1]) is HANDED(BUF(k)) and rootpath(a[0])[0] is link) for k in arrivals(script)], "every packet the socket has is queued on the link, in order", c, "client: %s: queued" % key)
    udp_link(c, UC, "UdpIo", "LocalAddr"); udp_link(c, US, "ServerUdpIo", "LocalAddr")
    udp_send(c)
    udp_server(c)


def udp_link(c, pre, IO, LA):
    """a socket is bound when a link starts, dropped when it ends"""
    P = c.P; f = c.fn(pre + "link"); observes(c, f, "LinkStart"); q = qname(f, IO)
    filters(c, f, q, need=(IO,), without=("Linking", "Linked"))
    BIND = r"UdpSocket::bind$"; NB = r"UdpSocket::set_nonblocking$"
    io = mk("p", "item io"); bound = mk("p", "the socket")
    for key, kw in (("bound", {}), ("no address", dict(addr=False)), ("not bound", dict(bind=False)), ("still blocking", dict(nb=False)), ("not a socket link", dict(there=False))):
        addr, bind, nb, there = (kw.get(n, True) for n in ("addr", "bind", "nb", "there"))
        def gm(it, st, fr, a, sym):
            return okv(mk("agg", "()", "", (io, some(mk("&", mk("agg", "lightyear_link::LA", "LA", (mk("p", "local address"),)))) if addr else NONE))) if there else errv(mk("p", "no such"))
        def bd(it, st, fr, a, sym):
            st.mon = st.mon + (("bind", None, (strip(it.normarg(st, a[0])),)),); return okv(bound) if bind else errv(mk("p", "in use"))
        def sn(it, st, fr, a, sym):
            st.mon = st.mon + (("nonblocking", None, (strip(it.normarg(st, a[1])),)),); return okv(mk("agg", "()", "", ())) if nb else errv(mk("p", "failed"))
        s = play2(c, pre + key, f, "socket", stubs=[(r"Query(<.*>)?::(get|get_mut)$", gm), (BIND, bd), (NB, sn), (r"UdpSocket::local_addr$", okv(mk("p", "bound address")))])
        tag = "%s: %s" % (IO, key)
        if not s.exitsv: c.undecided(tag, "no exit"); continue
        if key == "bound":
            must(c, s, {"binds its own address": ("bind", lambda n, a: "local address" in show(a[0]) if n is None else None), "reads without waiting": ("nonblocking", lambda n, a: True if isbool(a[0]) and bval(a[0]) else False if isbool(a[0]) else None),
                        "keeps the socket": ("write", lambda n, a: True if has(a[0], lambda v: v is bound) else False if a[0] is NONE else None), "is up": ins(LK + "Linked")}, "a link that starts has a socket that never blocks, and is up")
        else:
            nothing(c, s, "a link whose socket could not be set up does not come up" if there else "only socket links are concerned", ops=("insert", "write", "trigger"))
            if there: c.check(all(is_err(e.val) is not False for e in s.exitsv), tag + ": reported", "the failure is reported", "%s:%s (%s)" % (f.file, f.line, f.name))
    f = c.fn(pre + "unlink"); observes(c, f, "Unlink"); q = qname(f, IO); filters(c, f, q, need=(IO,), without=("Unlinked",))
    s = play2(c, pre + "unlinked", f, "socket", stubs=[(r"Query(<.*>)?::(get|get_mut)$", okv(io))])
    must(c, s, {"drops its socket": ("write", lambda n, a: True if a[0] is NONE else False if a[0].op == "agg" else None)}, "a link that is brought down has no socket")
    s = play2(c, pre + "not concerned", f, "socket", stubs=[(r"Query(<.*>)?::(get|get_mut)$", errv(mk("p", "no such")))])
    nothing(c, s, "only the link named is brought down", ops=("write", "insert"))


def udp_send(c):
    P = c.P; SENDTO = r"UdpSocket::send(_to)?$"
    link = mk("p", "item Link"); link2 = mk("p", "second Link"); io = mk("p", "item io")
    pa = lambda k: mk("&", mk("agg", "PeerAddr", "PeerAddr", (ADDR(k),)))
    def cut(v):
        """the bytes sent are a part of the packet (None: unclear)"""
        while strip(v).op in ("*", "&"): v = strip(v).args[0]
        if strip(v).op == "p": return False
        sl = [x for x in subvals(v) if x.op == "slice"]
        if sl:
            x = sl[0]; kind = str(x.args[1]); b = [strip(y) for y in x.args[2]]
            full = kind.endswith("RangeFull") or kind.endswith("RangeFrom") and isint(b[0]) and ival(b[0]) == 0 or kind.endswith("RangeTo") and b[0].op in ("len", "call") and "len" in show(b[0])[:12]
            return False if full else True if all(isint(y) or y.op in ("min", "max", "lin", "bin") for y in b) else None
        rs = [strip(x.args[1][1]) for x in subvals(v) if x.op == "call" and re.search(r"::index(_mut)?$|::get(_unchecked)?$|::slice$|split_at$", str(x.args[0])) and len(x.args[1]) > 1]
        if not rs: return None
        ws = [whole(x) if not (x.op == "agg" and x.args[0].endswith("RangeTo")) else (True if strip(x.args[2][0]).op == "call" and strip(x.args[2][0]).args[0].endswith("::len") else False if strip(x.args[2][0]).op in ("c", "min", "lin") or isint(x.args[2][0]) else None) for x in rs]
        return True if any(w is False for w in ws) else False if all(w is True for w in ws) else None
    def sent(p, k):
        def g(a):
            if not (has(a[1], lambda v: v is p) or has(a[1], lambda v: v in PKS)): return None
            if not has(a[2], lambda v: v is ADDR(k)) or not has(a[1], lambda v: v is p): return False
            w = cut(a[1]); return None if w is None else not w
        return g
    LIMIT = r"Iterator(<.*>)?::(take|step_by|take_while|map_while|skip|skip_while|last|nth)$"
    def unlimited(s, key):
        for e in s.exitsv:
            for m in e.state.mon:
                if m[0] == "limit" and has(m[2][0], lambda v: v.op == "call" and str(v.args[0]).endswith("drain")):
                    c.tri(False if len(m[2]) > 1 and isint(m[2][1]) else None, key + ": all of them", "what is taken off the queue is sent, however much it is: %s" % show(m[2][0])[:60], "%s:%s (%s)" % (s.f.file, s.f.line, s.f.name))
    def asref(it, st, fr, a, sym): return it.normarg(st, a[0]) if any(has(it.normarg(st, a[0]), lambda v, p=p: v is p) for p in PKS) else None
    sk = lambda ok: [(SENDTO, okv(mk("p", "sent")) if ok else errv(mk("p", "lost"))), (r"convert::AsRef(<.*>)?::as_ref$", asref)] + socket([])
    f = c.fn(UC + "send"); q = qname(f, "Link", "UdpIo"); filters(c, f, q, need=("Link", "UdpIo", "PeerAddr", "Linked"))
    for ok in (True, False):
        for n in (0, 1, 3):
            key = "client: %d to send%s" % (n, "" if ok else ", refused")
            s = play(c, key, f, extra=[(SENDTO, "send"), (r"LinkSender::drain$", "drain"), (LIMIT, "limit")], stubs=sk(ok) + seqs((r"drain|item Link", PKS[:n]), (r"Query", [mk("agg", "()", "", (link, io, pa(0)))])))
            unlimited(s, key)
            if not any(m[0] == "it" for e in s.exitsv for m in e.state.mon): c.undecided(key, "not iterated as expected"); continue
            order(s, "send", [sent(PKS[k], 0) for k in range(n)], "every packet queued is sent to the peer, in order, whatever happens to one", c, key)
    f = c.fn(US + "send"); qs = qname(f, "ServerUdpIo", "Server"); ql = qname(f, "Link", "PeerAddr")
    filters(c, f, qs, need=("ServerUdpIo", "Server", "Linked")); filters(c, f, ql, need=("Link", "PeerAddr", "UdpLinkOfIO"))
    srv = mk("p", "SRV")
    for first in (True, False):
        for ok in (True, False):
            key = "server: two links%s%s" % ("" if first else ", the first not over udp", "" if ok else ", refused")
            def gm(it, st, fr, a, sym):
                p = strip(it.normarg(st, a[0])); n = str(p.args[0]) if p.op == "p" else None
                if n != ql: return None
                v = strip(it.normarg(st, a[1]))
                while v.op in ("*", "&"): v = strip(v.args[0])
                if v is E2[0]: return okv(mk("agg", "()", "", (link, pa(0)))) if first else errv(mk("p", "no such"))
                if v is E2[1]: return okv(mk("agg", "()", "", (link2, pa(1))))
                return None
            s = play(c, key, f, extra=[(SENDTO, "send"), (LIMIT, "limit")], stubs=sk(ok) + [(r"Query(<.*>)?::(get|get_mut)$", gm)] + seqs((r"second Link", PKS[1:3]), (r"item Link", PKS[:1]), (r"collection|SRV", [mk("&", E2[0]), mk("&", E2[1])]), (r"Query", [mk("agg", "()", "", (io, mk("&", srv)))])))
            unlimited(s, key)
            if not any(m[0] == "it" and m[1] == 0 for e in s.exitsv for m in e.state.mon): c.undecided(key, "not iterated as expected"); continue
            order(s, "send", ([sent(PKS[0], 0)] if first else []) + [sent(PKS[k], 1) for k in (1, 2)], "every packet queued on a link of the server is sent to that link's peer, whatever happens to the others", c, key)


E2 = [mk("p", "first link"), mk("p", "second link")]
def same_entry(v, i):
    v = strip(v)
    while v.op in ("*", "&"): v = strip(v.args[0])
    return v is mk("p", "entry%d" % i) if v.op == "p" else None
def udp_server(c):
    P = c.P; f = c.fn(US + "receive"); q = qname(f, "ServerUdpIo"); filters(c, f, q, need=("ServerUdpIo", "Linked"))
    LOS = "lightyear_udp::server::LinkOfStatus"; HE = next((n for n in P.adts if re.search(r"hash_map::Entry$|hashbrown::map::Entry$", n)), None)
    where = "%s:%s (%s)" % (f.file, f.line, f.name)
    ent = mk("p", "the link"); srv = mk("p", "the server"); io = mk("p", "item io"); link = mk("p", "item Link"); new = mk("p", "new link")
    GET = r"HashMap(<.*>)?::(entry|get|get_mut)$"
    for status, found in (("absent", None), ("spawning", None), ("spawned", "link"), ("spawned", "no link"), ("spawned", "gone")):
        for key0, script in SCRIPTS[:3] + SCRIPTS[4:5]:
            if len([o for o in script if isinstance(o, tuple)]) > 1 and status == "absent": continue      # the table changes on the way
            key = "server: address %s%s: %s" % (status, ", entity: " + found if found else "", key0)
            def entry(it, st, fr, a, sym):
                if not it.cur_names[0].endswith("::entry"): return None
                k = sum(1 for m in st.mon if m[0] == "lookup"); st.mon = st.mon + (("lookup", None, (strip(it.normarg(st, a[1])),)),)
                nm = next((n for n in it.P.adts if n.endswith("::Entry") and "hash" in n), "hashbrown::map::Entry")
                return mk("agg", nm, "Vacant" if status == "absent" else "Occupied", (mk("p", "entry%d" % k),))
            def val(it, st, fr, a, sym):
                return mk("&", mk("agg", LOS, "Spawning" if status == "spawning" else "Spawned", (ent,)))
            def gm(it, st, fr, a, sym):
                v = strip(it.normarg(st, a[1]))
                while v.op in ("*", "&"): v = strip(v.args[0])
                if v is not ent: return None
                return okv(some(link)) if found == "link" else okv(NONE) if found == "no link" else errv(mk("p", "no such"))
            def opt(it, st, fr, a, sym):
                v = strip(it.normarg(st, a[0]))
                while v.op in ("*", "&"): v = strip(v.args[0])
                return v if v is NONE or v == some(link) else None
            def sp(it, st, fr, a, sym):
                st.mon = st.mon + (("spawn", None, (it.normarg(st, a[1]),)),); return new
            ids = lambda it, st, fr, a, sym: new if has(it.normarg(st, a[0]), lambda v: v is new) else None
            REM = r"OccupiedEntry(<.*>)?::(remove|remove_entry)$"; VI = r"VacantEntry(<.*>)?::(insert|insert_entry)$"
            s = play(c, key, f, extra=[(PUSHQ, "push"), (REM, "forget"), (VI, "enter"), (r"try_despawn$|EntityCommands(<.*>)?::despawn$", "gone")],
                     stubs=[(GET, entry), (r"OccupiedEntry(<.*>)?::(get|get_mut|into_mut)$", val), (r"Query(<.*>)?::(get|get_mut)$", gm), (r"Commands(<.*>)?::spawn$", sp), (r"EntityCommands(<.*>)?::id$", ids)] + [(p, (lambda it, st, fr, a, sym, g=g: opt(it, st, fr, a, sym) or g(it, st, fr, a, sym)) if "as_" in p else g) for p, g in socket(script)]
                           + seqs((r"Query", [mk("agg", "()", "", (srv, io))]), (r"connected_addresses", [])))
            if not s.exitsv or not any(m[0] == "recv" for e in s.exitsv for m in e.state.mon): c.undecided(key, "the socket is not read as expected"); continue
            n = arrivals(script); buffers(c, s, key)
            order(s, "lookup", [lambda a, k=k: isv(ADDR(k))(a[0]) for k in n], "the link is the one of the address a packet came from", c, key + ": by address") if status != "absent" or n else None
            handed = lambda k: (lambda a: None if strip(a[1]).op != "call" else strip(a[1]) is HANDED(BUF(k)))
            if found == "link":
                order(s, "push", [lambda a, k=k: handed(k)(a) if rootpath(a[0])[0] is link else False if rootpath(a[0])[0].op == "p" else None for k in n], "packets are queued on the link of their address, in order", c, key + ": queued")
                nothing(c, s, "a link that is there stays", ops=("forget", "spawn", "despawn", "enter", "gone"))
            elif found == "no link":
                order(s, "forget", [lambda a, i=i: same_entry(a[0], i) for i in range(len(n))], "an address whose entity has no link is forgotten", c, key + ": forgotten"); nothing(c, s, "its packets go nowhere else", ops=("push", "spawn", "enter"))
            elif found == "gone":
                order(s, "forget", [lambda a, i=i: same_entry(a[0], i) for i in range(len(n))], "an address whose entity is gone is forgotten, so that the peer can come back", c, key + ": forgotten"); nothing(c, s, "its packets go nowhere else", ops=("push", "spawn", "enter"))
            elif status == "spawning":
                nothing(c, s, "packets of a link being set up in this pass wait for the peer to repeat them", ops=("push", "forget", "spawn", "enter", "gone"))
            elif n:
                order(s, "enter", [lambda a: None if strip(a[1]).op != "agg" else (strip(a[1]).args[1] == "Spawning" and has(a[1], lambda v: v is new))], "a packet from an unknown address registers that address with the link it gets", c, key + ": registered")
                order(s, "push", [handed(0)], "the first packet is queued on the new link", c, key + ": queued")
                def spawned(a):
                    bundle = lambda: strip(a[0])
                    parts = {v.args[0]: v for v in subvals(a[0]) if v.op == "agg"}
                    names = {str(n).split("<")[0] for n in parts}
                    txt = show(a[0])
                    ok = [LS + "LinkOf" in names, any(n.endswith("::Linked") for n in names) or "Linked" in txt, "PeerAddr" in txt, "UdpLinkOfIO" in txt]
                    if not all(ok): return None if not plain(a[0]) else False
                    if not has(parts[LS + "LinkOf"], lambda v: v is srv): return False
                    pa = next((v for n, v in parts.items() if str(n).endswith("PeerAddr")), None)
                    if pa is None: return None
                    v = strip(pa.args[2][0]) if len(pa.args) > 2 and pa.args[2] else pa
                    if v is ADDR(0): return True
                    if not has(v, lambda x: x is ADDR(0)): return False
                    return False if v.op == "call" and re.search(r"SocketAddr\w*::new$", str(v.args[0])) and any(isint(x) for x in v.args[1]) else None
                order(s, "spawn", [spawned], "the new link belongs to this server, is up, and has the address of the packet", c, key + ": new link")
                nothing(c, s, "a new link is kept", ops=("forget", "gone"))
    # what a pass set up is in use from the next pass on
    for st0 in ("Spawning", "Spawned"):
        ref = mk("p", "entry status")
        s = play2(c, "server: pass over, %s" % st0, f, "", stubs=socket([]) + seqs((r"connected_addresses", [mk("agg", "()", "", (mk("&", ADDR(0)), ref))]), (r"Query", [mk("agg", "()", "", (srv, io))])),
                  assume=lambda it: [(deq(mk("*", ref), variant(P, LOS, st0)[0] if isinstance(variant(P, LOS, st0), tuple) else variant(P, LOS, st0)), True)])
        evs = [e for e in s.it.events if e.kind == "write" and e.val is not None and e.val.op == "agg" and e.val.args[0] == LOS]
        if st0 == "Spawning":
            ok = [e for e in evs if e.val.args[1] == "Spawned"]
            c.check(bool(evs) and len(ok) == len(evs) and all(has(e.val, lambda v: v.op == "f") for e in ok), "server: pass over: in use", "a link set up in a pass is in use from the next", where)
        else: c.check(all(e.val.args[1] == "Spawned" for e in evs), "server: pass over: kept", "a link in use stays in use", where)


# ------------------------------------------------------------------------------------------------ L04 queues, packet size, buffers
DRAINS = r"VecDeque(<.*>)?::drain$"
def whole(v):
    """the range covers the whole queue"""
    v = strip(v)
    if v.op == "agg" and v.args[0].endswith("RangeFull") or (v.op in ("c", "named") and "RangeFull" in show(v)) or show(v) in ("RangeFull", "..", "()"): return True
    if v.op == "agg" and v.args[0].endswith("::Range"):
        lo, hi = v.args[2]
        return True if isint(lo) and ival(lo) == 0 and has_call(hi, r"::len$") else False if all(isint(x) for x in v.args[2]) or isint(lo) and ival(lo) else None
    if v.op == "agg" and "Range" in v.args[0]: return True if isint(v.args[2][0]) and v.args[0].endswith("RangeFrom") and ival(v.args[2][0]) == 0 else False
    return None


@prop("L04", floor=35, explain="every operation of the two packet queues, of the packet-size setting and of the buffer pool is executed symbolically; the queue end it works on, the values stored and the buffers kept are compared with the rule")
def l04(c):
    P = c.P
    ops = [(BACK, "back"), (FRONT, "front"), (r"VecDeque(<.*>)?::pop_front$", "pop_front"), (r"VecDeque(<.*>)?::pop_back$", "pop_back"), (DRAINS, "drain"), (r"VecDeque(<.*>)?::(clear|truncate|remove|swap\w*|rotate\w*|insert|append|extend|retain|split_off)$", "other")]
    arg = lambda f, i: (lambda a: isv(paramval(f, i))(a[1]) if own_q(a) else None)
    own_q = lambda a: rootpath(a[0])[0].op in ("p", "*") and str(rootpath(a[0])[0].args[0]) == "self"
    def queue(name, adt):
        def run(m, op, preds, why, ret=None):
            f = c.fn(LK + adt + "::" + m); k = "%s.%s" % (name, m)
            s = play(c, k, f, extra=ops, assume=lambda it: [(deq(path(it, "self.conditioner"), 0), True)] if adt == "LinkReceiver" and m == "push" else [])
            order(s, op, [p(f) for p in preds], why, c, k); nothing(c, s, why, ops=tuple(o for _, o in ops if o != op))
            if ret:
                for e in s.exitsv: c.tri(ret(s, e), k + ": result", why, "%s:%s (%s)" % (f.file, f.line, f.name))
        q = lambda f: lambda a: own_q(a) or None
        run("pop", "pop_front", [q], "packets leave in the order they came", lambda s, e: True if has_call(e.val, r"pop_front$") and e.val.op == "call" else False if e.val.op == "agg" or e.val is NONE else None)
        run("drain", "drain", [lambda f: lambda a: whole(a[1]) if own_q(a) else None], "taking everything leaves nothing behind", lambda s, e: True if e.val.op == "call" and has_call(e.val, DRAINS) else None)
        run("push", "back", [lambda f: arg(f, 2)], "packets are queued after those before them")
        return run
    rr = queue("received", "LinkReceiver"); rs = queue("to send", "LinkSender")
    rr("push_raw", "back", [lambda f: arg(f, 2)], "packets are queued after those before them")
    rs("push_front", "front", [lambda f: arg(f, 2)], "a packet that could not be sent goes back before the others")
    f = c.fn(LK + "Link::send"); s = play(c, "Link.send", f, extra=[(r"LinkSender::push(_\w+)?$", "push"), (r"LinkReceiver::push(_raw)?$", "recv")] + ops)
    one_of = [m for e in s.exitsv for m in e.state.mon if m[0] in ("push", "back", "front", "recv")]
    order(s, "push", [lambda a: isv(paramval(f, 2))(a[1]) if "send" in rootpath(a[0])[1] else False if rootpath(a[0])[1] else None], "a packet sent is queued for sending", c, "Link.send")
    for m in one_of: c.check(m[0] != "recv", "Link.send: direction", "a packet sent is not one received", f.file)
    for e in s.exitsv: c.check(not any(has_call(m[2][0], r"push_front$") or m[0] == "front" for m in e.state.mon), "Link.send: order", "packets are sent in order", f.file)
    sizes(c); pool(c)


def sizes(c):
    P = c.P; LM = LK + "mtu::LinkMtu"
    N = [n for n, _ in P.adts[LM]["vars"][0][2]]
    where = lambda f: "%s:%s (%s)" % (f.file, f.line, f.name)
    f = c.fn(LM + "::new"); s = scen(c, "new", f)
    for e in s.it.events:
        if e.kind == "exit":
            for n in ("mtu", "min_mtu"):
                v = aggfield(P, e.val, n); c.tri(None if v is None else isv(paramval(f, 1))(v), "LinkMtu::new: " + n, "a link starts with the smallest packet size it guarantees", where(f))
    f = c.fn(LM + "::set_mtu")
    for n in ("mtu", "min_mtu"): c.check(n in N, "LinkMtu: " + n, "the packet size and its minimum are kept", LM)
    for below in (True, False):
        s = scen(c, "below the minimum" if below else "allowed", f, writes=True, assume=lambda it: [(lt(uncast(paramval(f, 2)), path(it, "self.min_mtu")), below)])
        for e in s.it.events:
            if e.kind != "exit": continue
            m = uncast(post(e, path(s.it, "self.mtu"))); lo = uncast(post(e, path(s.it, "self.min_mtu")))
            c.tri(same(s.it, e, lo, path(s.it, "self.min_mtu")), "set_mtu: %s: minimum" % below, "the guaranteed minimum never changes: %s" % show(lo), where(f))
            if below:
                c.tri(is_err(e.val), "set_mtu: below: refused", "a size below the guaranteed minimum is refused", where(f))
                c.tri(same(s.it, e, m, path(s.it, "self.mtu")), "set_mtu: below: unchanged", "a refused size changes nothing: %s" % show(m), where(f))
            else:
                c.tri(is_ok(e.val), "set_mtu: allowed: accepted", "a size from the minimum up is accepted", where(f))
                c.tri(same(s.it, e, m, paramval(f, 2)), "set_mtu: allowed: set", "the size accepted is the one in use: %s" % show(m), where(f))
    for adt, g in ((LM, "mtu"), (LM, "min_mtu"), (LK + "Link", "mtu"), (LK + "Link", "min_mtu")):
        f = c.fn(adt + "::" + g); s = scen(c, "get", f)
        for e in s.it.events:
            if e.kind == "exit":
                r, fs = rootpath(e.val); c.tri((fs[-1] == g) if fs else None, "%s::%s" % (adt.split("::")[-1], g), "the size reported is the one in use: %s" % show(e.val), where(f))
    for n in ("mtu", "min_mtu"):
        for f, *_ in field_writes(P, n, "mtu::LinkMtu", None): c.check(f.name.startswith(LM) , "LinkMtu.%s: writers" % n, "packet sizes change only through the checked setter: %s" % f.name, where(f))


BP = "lightyear_core::buffer_pool::BufferPool"
def pool(c):
    P = c.P; where = lambda f: "%s:%s (%s)" % (f.file, f.line, f.name)
    cap = lambda it: path(it, "self.buffer_capacity")
    PUSH = r"vec::Vec(<.*>)?::(push|insert|extend|append|resize\w*|extend_from_slice)$|models::push_into$"; WC = r"BytesMut::with_capacity$"; TR = r"BytesMut::try_reclaim$"
    n = 0
    for f in sorted((f for f in P.fns.values() if f.crate == "lightyear_core" and "BytesMut" in " ".join(str(f.ty(i)) for i in range(1, len(f.ltys))) and "buffer_pool" in f.name and f.kind != "closure"), key=lambda f: f.name):
        s = scen(c, "pool", c.fn(f.name), events=[PUSH, WC, TR, r"BytesMut::(clear|split\w*|set_len|truncate|capacity|len)$"], no_inline=[r"BytesMut::"])
        for e in s.it.events:
            if e.kind != "call" or not any(re.search(PUSH, x) for x in e.names): continue
            r, fs = rootpath(e.args[0])
            if not fs or fs[-1] != "ready": continue
            n += 1; v = strip(e.args[1]); k = "%s: ready:%s" % (short(f), e.line)
            if v.op == "call" and re.search(WC, v.args[0]):
                c.tri(deq_(s.it, e, v.args[1][0], cap(s.it)), k, "a buffer kept ready can hold a whole packet: %s" % show(v), e.where()); continue
            lits = [(l, b) for l, b in literals(e.state) if has_call(l, TR)]
            c.check(any(b and l.op != "not" for l, b in lits), k, "a buffer is ready again only when its memory is its own and holds a whole packet: %s" % [("" if b else "!") + show(l)[-60:] for l, b in lits], e.where())
            for l, b in lits:
                for t in subvals(l):
                    if t.op == "call" and re.search(TR, t.args[0]): c.tri(deq_(s.it, e, t.args[1][1], cap(s.it)), k + ": whole", "the room asked for is that of a whole packet", e.where())
    c.check(n >= 2, "ready buffers", "places that make a buffer ready: %d" % n, BP)
    # taking
    f = c.fn(BP + "::take")
    CL = r"BytesMut::(clear|truncate)$"
    for has_one in (True, False):
        POPV = r"vec::Vec(<.*>)?::(pop|swap_remove|remove)$"
        b = mk("p", "ready buffer")
        s = play(c, "take: " + ("one ready" if has_one else "none ready"), f, extra=[(CL, "clear"), (WC, "new")], stubs=[(POPV, some(b) if has_one else NONE), (CL, mk("agg", "()", "", ())), (r"BytesMut::capacity$", mk("p", "its capacity"))])
        for e in s.exitsv:
            ops = [m for m in e.state.mon if m[0] in ("clear", "new")]; v = strip(e.val)
            if v is b: c.tri(any(m[0] == "clear" and has(m[2][0], lambda x: x is b) for m in ops) or None if ops else False, "take: empty", "a buffer taken holds nothing of an earlier packet", where(f))
            elif v.op == "call" and re.search(WC, v.args[0]): c.tri(same(s.it, e, v.args[1][0], cap(s.it)), "take: new", "a new buffer holds a whole packet: %s" % show(v), where(f))
            else: c.undecided("take: %s" % has_one, show(v))
    # handing on gives exactly what was read, keeping the rest
    f = c.fn(BP + "::split_for_handoff"); SP = r"BytesMut::split(_to|_off)?$"
    s = play(c, "split", f, extra=[(SP, "split")])
    for e in s.exitsv:
        v = strip(e.val); sp = [m for m in e.state.mon if m[0] == "split"]
        if v.op == "call" and re.search(SP, v.args[0]):
            c.check(v.args[0].endswith("split") or v.args[0].endswith("split_to") and has_call(v.args[1][1], r"::len$"), "split_for_handoff: packet", "a packet handed on is exactly what was read: %s" % show(v), where(f))
        elif v is paramval(f, 2): c.ok("split_for_handoff: packet", "the whole buffer is handed on")
        else: c.undecided("split_for_handoff: packet", show(v))
    f = c.fn(BP + "::set_buffer_capacity")
    s = scen(c, "changed", f, writes=True, assume=lambda it: [(ieq(cap(it), paramval(f, 2)), False)], events=[r"vec::Vec(<.*>)?::(clear|truncate|drain)$"])
    s2 = play(c, "changed", f, extra=[(r"vec::Vec(<.*>)?::clear$", "clear")], assume=lambda it: [(ieq(cap(it), paramval(f, 2)), False)])
    must(c, s2, {"forgets ready buffers": ("clear", lambda n, a: "ready" in rootpath(a[0])[1] if n is None else None), "forgets used buffers": ("clear", lambda n, a: "pending" in rootpath(a[0])[1] if n is None else None)}, "buffers of another size are not used again")
    for e in s.it.events:
        if e.kind == "exit": c.tri(same(s.it, e, post(e, cap(s.it)), paramval(f, 2)), "set_buffer_capacity: set", "the size given is the one used", where(f))


def deq_(it, e, a, b):
    a, b = uncast(strip(a)), uncast(strip(b))
    r = same(it, e, a, b)
    if r is not None: return r
    ra, rb = rootpath(a), rootpath(b)
    if ra[1] and ra[1][-1] == rb[1][-1]: return True
    return False if isint(a) else None


# ------------------------------------------------------------------------------------------------ L05 in-process channel
CBP = "lightyear_crossbeam::CrossbeamPlugin::"
TRYS = r"crossbeam_channel::.*Sender(<.*>)?::(try_send|send)$"; TRYR = r"crossbeam_channel::.*Receiver(<.*>)?::(try_recv|recv)$"
@prop("L05", floor=30, explain="the in-process transport is executed symbolically with the channel accepting, refusing and closing at every position; what is queued, put back and announced is compared with the rule")
def l05(c):
    P = c.P
    CIO = "lightyear_crossbeam::CrossbeamIo"
    link = mk("p", "item Link"); io = mk("p", "item io"); ent = mk("p", "the link entity")
    unl = event(LK + "Unlink", entity=lambda v: isv(ent)(v), reason=is_variant("UnlinkReason", "TransportError"))
    # receive
    f = c.fn(CBP + "receive"); filters(c, f, qname(f, "Link", "CrossbeamIo"), need=("Link", "CrossbeamIo", "Linked"))
    TE = "crossbeam_channel::err::TryRecvError"; SE = "crossbeam_channel::err::TrySendError"
    unit = mk("agg", "()", "", ())
    for key, n, end in (("nothing", 0, "Empty"), ("one", 1, "Empty"), ("three", 3, "Empty"), ("closed", 0, "Disconnected"), ("two, then closed", 2, "Disconnected")):
        def tr(it, st, fr, a, sym):
            k = sum(1 for m in st.mon if m[0] == "recv"); st.mon = st.mon + (("recv", k, (it.normarg(st, a[0]),)),)
            return okv(PKS[k]) if k < n else errv(mk("agg", TE, end, ()))
        s = play(c, "receive: " + key, f, extra=[(PUSHQ, "push")], stubs=[(TRYR, tr), (PUSHQ, unit), (r"recv_payload_from_bytes$", lambda it, st, fr, a, sym: it.normarg(st, a[0]))] + seqs((r"Query", [mk("agg", "()", "", (ent, link, mk("&", io)))])))
        if not any(m[0] == "recv" for e in s.exitsv for m in e.state.mon): c.undecided("receive: " + key, "the channel is not read as expected"); continue
        order(s, "push", [lambda a, k=k: isv(PKS[k])(a[1]) if rootpath(a[0])[0] is link else False if rootpath(a[0])[0].op == "p" else None for k in range(n)], "every packet the channel holds is queued on the link, in order", c, "receive: %s: queued" % key)
        for e in s.exitsv:
            c.check(sum(1 for m in e.state.mon if m[0] == "recv") == n + 1, "receive: %s: all" % key, "the channel is read until it is empty", f.file)
            for m in e.state.mon:
                if m[0] == "recv": c.tri("receiver" in rootpath(m[2][0])[1] or has(m[2][0], lambda v: v is io) if rootpath(m[2][0])[1] or has(m[2][0], lambda v: v is io) else None, "receive: own channel", "a link reads its own channel", f.file)
        if end == "Disconnected": must(c, s, {"the link is taken down": unl}, "a link whose peer is gone is taken down, after what it had sent")
        else: nothing(c, s, "an empty channel is not an error", ops=("trigger", "insert", "remove", "despawn"))
    # send
    f = c.fn(CBP + "send"); filters(c, f, qname(f, "IOQuery") if 0 else f.names[1], need=("Linked",))
    POPS = r"LinkSender::pop$"; FR = r"LinkSender::push_front$|VecDeque(<.*>)?::push_front$"; BK = r"LinkSender::push$|VecDeque(<.*>)?::push_back$"; DR = r"LinkSender::drain$"
    for key, out in (("nothing", []), ("two", ["Ok", "Ok"]), ("closed at once", ["Disconnected"]), ("closed after one", ["Ok", "Disconnected"]), ("full", ["Full"]), ("full after one", ["Ok", "Full"])):
        N = 3 if key != "nothing" else 0
        if key == "two": N = 2
        def ts(it, st, fr, a, sym):
            k = sum(1 for m in st.mon if m[0] == "send"); v = it.normarg(st, a[1]); st.mon = st.mon + (("send", k, (it.normarg(st, a[0]), v)),)
            o = out[k] if k < len(out) else "Ok"
            return okv(unit) if o == "Ok" else errv(mk("agg", SE, o, (v,)))
        item = mk("agg", "lightyear_crossbeam::IOQueryItem", "IOQueryItem", ())
        nm = next((x for x in P.adts if re.search(r"lightyear_crossbeam::\w*IOQueryItem$", x)), None)
        if nm is None: raise MissingAnchor("item of the crossbeam query")
        vals = {"entity": ent, "link": link, "crossbeam_io": mk("&", io), "helper": NONE}
        item = mk("agg", nm, P.adts[nm]["vars"][0][0], tuple(vals.get(x, mk("p", "its " + x)) for x, _ in P.adts[nm]["vars"][0][2]))
        s = play(c, "send: " + key, f, extra=[(FR, "front"), (BK, "back"), (DR, "drain")], stubs=[(TRYS, ts), counted(POPS, PKS[:N]), (FR, unit), (DR, mk("p", "drained"))] + seqs((r"Query", [item])))
        if N and not any(m[0] == "send" for e in s.exitsv for m in e.state.mon): c.undecided("send: " + key, "packets are not sent as expected"); continue
        want = len([o for o in out]) if out and out[-1] != "Ok" else N
        order(s, "send", [lambda a, k=k: isv(PKS[k])(a[1]) for k in range(want)], "packets are sent in order until the channel refuses", c, "send: %s: sent" % key)
        nothing(c, s, "packets are not sent again behind the others", ops=("back",))
        if out and out[-1] == "Full":
            order(s, "front", [lambda a: isv(PKS[want - 1])(a[1])], "a packet the channel could not take is sent first the next time", c, "send: %s: kept" % key)
            nothing(c, s, "a full channel is not a broken one", ops=("trigger", "drain"))
        elif out and out[-1] == "Disconnected":
            must(c, s, {"the link is taken down": unl}, "a link whose peer is gone is taken down"); nothing(c, s, "nothing is kept for a peer that is gone", ops=("front",))
        else: nothing(c, s, "packets taken by the channel are not announced or kept", ops=("front", "trigger"))
    f = c.fn(CBP + "link"); observes(c, f, "LinkStart")
    for ok in (True, False):
        s = play(c, "link: %s" % ok, f, stubs=[(r"Query(<.*>)?::(get|get_mut)$", okv(unit) if ok else errv(mk("p", "no such"))), (r"Query(<.*>)?::contains$", const(ok))])
        if ok: must(c, s, {"is up": ins(LK + "Linked")}, "an in-process link is up as soon as it starts")
        else: nothing(c, s, "only in-process links are concerned")
    # the two ends of a pair are connected to each other
    f = c.fn(CIO + "::new_pair"); UB = r"crossbeam_channel::.*(unbounded|bounded)$"
    def ub(it, st, fr, a, sym):
        k = sum(1 for m in st.mon if m[0] == "chan"); st.mon = st.mon + (("chan", k, ()),)
        return mk("agg", "()", "", (mk("p", "sender %d" % k), mk("p", "receiver %d" % k)))
    s = play(c, "pair", f, stubs=[(UB, ub)], inline=None) if 0 else play(c, "pair", f, stubs=[(UB, ub)])
    for e in s.exitsv:
        v = strip(e.val)
        if v.op != "agg" or len(v.args[2]) != 2: c.undecided("pair", show(v)); continue
        d = [{n: show(aggfield(P, x, n)) if aggfield(P, x, n) is not None else "?" for n in ("sender", "receiver")} for x in map(strip, v.args[2])]
        if any(not re.match(r"(sender|receiver) \d$", t) for x in d for t in x.values()): c.undecided("pair", str(d)); continue
        k = lambda t: t.split()[1]
        c.check(k(d[0]["sender"]) == k(d[1]["receiver"]) and k(d[1]["sender"]) == k(d[0]["receiver"]) and k(d[0]["sender"]) != k(d[1]["sender"]), "pair: crossed", "what one end sends the other receives: %s" % d, "%s:%s (%s)" % (f.file, f.line, f.name))
