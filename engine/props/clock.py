"""The clocks that follow a peer: speed and jumps, the estimate of the peer's clock, input delay, who is followed."""
import re
from itertools import product
from lib import *
import interp
from props import prop
from props.core import impl
from props.connection import (seqs, observes, qname, filters)
from props.ecs import (ecs, place, handlers, CLIENTG)
from props.sync import (SY, where, P_, log, sc, calls_, is_, named, deep, fx, coeffs, atleast, minmax, num)
from props.link import Ratio, ratio

TS = SY + "timeline::sync::"; TI_ = SY + "timeline::input::"; TR_ = SY + "timeline::remote::"; SYNCED = TI_ + "LocalTimelineSync"; TRAIT = TS + "TimelineSync"
SA = TS + "SyncAdjustment"
def method(c, trait, ty, m):
    fs = [c.P.fns[i] for t, i, im in c.P.impl_methods.get((trait, m), []) if t.split("<")[0] == ty]
    if len(fs) != 1: raise MissingAnchor("%s for %s" % (m, ty))
    c.fn(fs[0].name); return fs[0]
ARITH = [(r"ops::arith::Add(<.*>)?::add$", lambda it, st, fr, a, sym: plus_(it, st, a, "+")), (r"ops::arith::Sub(<.*>)?::sub$", lambda it, st, fr, a, sym: plus_(it, st, a, "-"))]
def plus_(it, st, a, op):
    return mk("call", op, tuple(it.normarg(st, x) for x in a), None)
def terms(v, k=1, out=None):
    """sum of clock values as {term: coefficient}"""
    out = {} if out is None else out
    v = deep(v)
    if v.op == "call" and v.args[0] in ("+", "-") and len(v.args[1]) == 2:
        terms(v.args[1][0], k, out); terms(v.args[1][1], k if v.args[0] == "+" else -k, out)
    else: out[v] = out.get(v, 0) + k
    return out
def callname(v, pat):
    v = deep(v)
    return v.op == "call" and re.search(pat, v.args[0]) is not None
def measured(v):
    """the clock value whose number this is, or None"""
    v = deep(v)
    if v.op != "call" or not re.search(r"::to_(f32|f64|i32|num)$", v.args[0]): return None
    v = deep(v.args[1][0])
    while v.op == "f" and str(v.args[2]) == "value" or v.op == "call" and re.search(r"::round\w*$", v.args[0]): v = deep(v.args[0] if v.op == "f" else v.args[1][0])
    return v
F0 = mk("c", "f", "0.0")


# ------------------------------------------------------------------------------------------------ C05 the controller
@prop("C05", floor=50, explain="the controller is executed symbolically for every sign of the current and the previous error and every region it can fall in; the streak, the adjustment and the speed as a formula are compared with the rule on every path, and so are the synchronisation step and the speed it sets")
def c05(c):
    adjustment(c); speed(c); step(c); local(c)


def adjustment(c):
    P = c.P; f = c.fn(TS + "SyncContext::speed_adjustment"); cfg, off = named(f, 2), named(f, 3)
    field = lambda n: fld(mk("*", cfg), n)
    mag = mk("call", "f32::abs", (off,), None); beyond, out = mk("flt", field("max_error_margin"), mag), mk("flt", field("error_margin"), mag)
    thr = field("consecutive_errors_threshold"); old = lambda it: path(it, "self.consecutive_errors"); prev = lambda it: path(it, "self.previous_error_sign")
    for sign, last, region in product((True, False), (True, False), ("within", "between", "beyond")):
        key = "%s, %s after %s" % (region, "ahead" if sign else "behind", "ahead" if last else "behind")
        stubs = [(r"is_sign_positive$", const(sign)), (r"is_sign_negative$", const(not sign))]
        pos = []
        if region != "within":
            pos = [(mk("flt", F0, off), sign), (mk("flt", off, F0), not sign), (mk("flt", field("max_error_margin"), off), sign and region == "beyond"), (mk("flt", field("error_margin"), off), sign)]
        asm = lambda it: [(prev(it), last), (beyond, region == "beyond"), (out, region != "within")] + pos
        s = sc(c, key, f, (), stubs, assume=asm)
        for e in s.exitsv:
            v = e.val; st_ = post(e, old(s.it))
            if v.op != "agg" or v.args[0] != SA: c.undecided(key, show(v)[:80]); continue
            got = v.args[1]; extra = [l for l, b in literals(e.state) if l.op in ("flt", "fle") and l not in (beyond, out) and l not in [x for x, _ in pos] and has(l, lambda y: y is off)]
            if extra: c.undecided(key, "also depends on %s" % show(extra[0])[:80]); continue
            zero = isint(st_) and ival(st_) == 0
            if region == "beyond":
                c.check(got == "Resync", key + ": jump", "an error beyond the maximum is corrected by a jump: %s" % got, where(f)); c.tri(True if zero else False if isint(st_) or st_ is old(s.it) else None, key + ": streak", "and ends the streak", where(f)); continue
            if region == "within":
                c.check(got == "DoNothing", key + ": left alone", "an error within the margin changes nothing: %s" % got, where(f)); c.tri(True if zero else False if isint(st_) or st_ is old(s.it) else None, key + ": streak", "and ends the streak", where(f)); continue
            sg = post(e, prev(s.it))
            c.tri(True if sg is const(sign) or isbool(sg) and bval(sg) == sign else False if isbool(sg) else same(s.it, e, sg, const(sign)), key + ": direction", "the direction of the error is remembered", where(f))
            if got == "Resync": c.bad(key + ": no jump", "an error up to the maximum is not corrected by a jump", where(f)); continue
            base = lin_of(st_); flip = sign != last
            if flip:
                lo, hi = s.it.lrange(e.state, st_)
                c.tri(True if hi is not None and hi <= 1 else False if has(st_, lambda y: y is old(s.it)) else None, key + ": streak", "an error in the other direction starts a new streak: %s" % show(st_)[:60], where(f))
                tl, th = s.it.lrange(e.state, thr)
                if got == "SpeedAdjust": c.check(th is not None and th <= 1, key + ": not yet", "the speed changes only after the configured number of errors in the same direction", where(f))
            else:
                r = st_.op == "call" and st_.args[0].endswith("saturating_add") and deep(st_.args[1][0]) is old(s.it) and isint(st_.args[1][1]) and ival(st_.args[1][1]) == 1 or st_ is add(old(s.it), const(1)) or st_.op == "saturating_add"
                if not r:
                    lo, hi = s.it.lrange(e.state, old(s.it)); r = True if st_ is old(s.it) and lo == 255 or isint(st_) and ival(st_) == 255 and lo in (254, 255) else False if isint(st_) or st_ is old(s.it) else None
                c.tri(r, key + ": streak", "an error in the same direction lengthens the streak by one: %s" % show(st_)[:60], where(f))
                lo, hi = s.it.lrange(e.state, sub(st_, thr))
                if got == "SpeedAdjust": c.tri(True if lo is not None and lo >= 0 else False, key + ": long enough", "the speed changes only after the configured number of errors in the same direction", where(f))
                else: c.tri(True if hi is not None and hi < 0 else False, key + ": not ignored", "a streak of the configured length changes the speed", where(f))
            if got != "SpeedAdjust": continue
            at = {}; G = Ratio.var("g"); q = fx(v.args[2][0], {field("speedup_factor"): num(1) + G}, at)
            if q is None or not all(nonneg(x, off) for x in at.values()): c.undecided(key + ": speed", show(v)[:150]); continue
            d = (num(1) / q if sign else q) - num(1)
            good = all(x >= 0 for x in d.n.values()) and all(x >= 0 for x in d.d.values()); moved = any(x > 0 for x in d.n.values())
            c.check(good and moved, key + ": speed", "the clock slows down when it is ahead of its target and speeds up when it is behind: %s" % show(v)[:130], where(f))


def nonneg(v, off):
    v = deep(v)
    if v is off: return False
    if v.op == "call" and re.search(r"::(abs|clamp)$", v.args[0]):
        a = v.args[1]
        return v.args[0].endswith("abs") or (deep(a[1]).op == "c" and float(re.sub(r"_?f(32|64)$", "", str(deep(a[1]).args[1]))) >= 0)
    o, xs = minmax(v)
    if o: return any(nonneg(x, off) for x in xs) if o == "max" else all(nonneg(x, off) for x in xs)
    return v.op in ("f", "c") and not has(v, lambda y: y is off)


def speed(c):
    """what the adjustment does to the speed"""
    f = c.fn(TRAIT + "::speed_adjustment"); off = named(f, 3); SETS_ = r"TimelineSync::set_relative_speed$"; R = P_("ratio"); CUR = P_("current speed")
    for n, v in (("SpeedAdjust", mk("agg", SA, "SpeedAdjust", (R,))), ("DoNothing", mk("agg", SA, "DoNothing", ())), ("Resync", mk("agg", SA, "Resync", ()))):
        asked = []
        def adj(it, st, fr, a, sym): asked.append(it.normarg(st, a[2])); return v
        s = sc(c, "speed: " + n, f, ((SETS_, "set"),), [(r"SyncContext::speed_adjustment$", adj), (r"TimelineSync::relative_speed$", CUR)], no_inline=[SETS_])
        c.check(bool(asked) and all(is_(x, off) is not False for x in asked), "speed: error", "the error judged is the one given", where(f))
        for e in s.exitsv:
            c.tri(True if e.val is v else False if e.val.op == "agg" else None, "speed: %s: reported" % n, "the adjustment is reported as decided", where(f))
            st_ = [deep(a[1]) for a in calls_(e, "set")]
            if n == "SpeedAdjust": c.tri(len(st_) == 1 and is_(st_[0], R), "speed: set", "the speed decided on is set", where(f))
            elif n == "Resync": c.check(not st_, "speed: jump", "a jump leaves the speed", where(f))
            else:
                for x in st_:
                    at = {}; q = coeffs(fx(x, {CUR: Ratio.var("v")}, at)); q = {k: y for k, y in q.items() if y} if q is not None else None
                    if q is None or at: c.undecided("speed: decay", show(x)[:90]); continue
                    k = q.get("v", 0)
                    c.check(set(q) <= {"v", None} and 0 <= k < 1 and q.get(None, 0) + k == 1, "speed: decay", "within the margin the speed moves towards normal, not past it: %s" % show(x)[:90], where(f))
                if not st_:
                    near = [(l, b) for l, b in literals(e.state) if l.op in ("flt", "fle") and has(l, lambda y: y is CUR)]
                    c.check(bool(near), "speed: decays", "away from normal the speed does not stay", where(f))


def step(c):
    f = c.fn(TRAIT + "::sync"); now, remote, cfg, pm, td = (named(f, i) for i in range(2, 7)); N = P_("samples"); OBJ = P_("objective"); J = P_("jump")
    need = None
    rules = ((r"TimelineSync::set_synced$", "synced"), (r"TimelineSync::resync$", "resync"), (r"TimelineSync::speed_adjustment$", "adjust"))
    kinds = [(False, None), (True, "Resync"), (True, "SpeedAdjust"), (True, "DoNothing")]
    for synced, adj in kinds:
        v = mk("agg", SA, adj or "Resync", (P_("ratio"),) if adj == "SpeedAdjust" else ())
        key = "synced, %s" % adj if synced else "not synced"
        errs = []
        def askadj(it, st, fr, a, sym): errs.append(it.normarg(st, a[2])); return v
        s = sc(c, "sync: " + key, f, rules, ARITH + [(r"PingManager::latency_samples_recv$", N), (r"TimelineSync::sync_objective$", OBJ), (r"TimelineSync::is_synced$", const(synced)), (r"TimelineSync::speed_adjustment$", askadj), (r"TimelineSync::resync$", J)], no_inline=[r"TimelineSync::speed_adjustment$"])
        done = 0
        for e in s.exitsv:
            lits = [(l, b) for l, b in literals(e.state) if has(l, lambda y: y is N)]
            hs = [y for l, b in lits for y in subvals(l) if endswith(y, "handshake_pings")]
            if not hs: c.bad("sync: enough pings", "nothing is adjusted before the configured number of answered pings", where(f)); continue
            lo, hi = s.it.lrange(e.state, sub(N, uncast(hs[0])))
            ss, rs, as_ = calls_(e, "synced"), calls_(e, "resync"), calls_(e, "adjust")
            if lo is None or lo < 0:
                c.check(not ss and not rs and not as_ and e.val is NONE, "sync: too few pings", "nothing is adjusted before the configured number of answered pings", where(f))
                c.tri(True if hi is not None and hi < 0 else False, "sync: enough pings", "with the configured number of answered pings it is adjusted", where(f)); continue
            done += 1
            c.check(bool(ss) and all(isbool(strip(a[1])) and bval(strip(a[1])) for a in ss), key + ": synchronised", "from then on the clock counts as synchronised", where(f))
            jump = not synced or adj == "Resync"
            if jump:
                c.check(len(rs) == 1 and is_(rs[0][1], now) is True and is_(rs[0][2], OBJ) is True, key + ": jump", "the clock jumps from where it is to its target", where(f))
                c.tri(True if e.val.op == "agg" and e.val.args[1] == "Some" and deep(e.val.args[2][0]) is J else False if e.val.op == "agg" else None, key + ": reported", "the jump is reported, by its distance", where(f))
            else: c.check(not rs and e.val is NONE, key + ": no jump", "without a jump decided on there is none", where(f))
            if synced: c.check(len(as_) == 1, key + ": judged once", "the error is judged once", where(f))
            else: c.check(len(as_) <= 1, key + ": first", "", where(f))
        for x in errs:
            y = measured(x); t = terms(y) if y is not None else None
            c.tri(None if t is None else t == {now: 1, OBJ: -1}, "sync: error", "the error is how far the clock is ahead of its target: %s" % show(x)[:80], where(f))
        if not done: c.undecided("sync: " + key, "no path with enough pings")


def local(c):
    P = c.P
    f = method(c, TRAIT, SYNCED, "resync"); now, obj = named(f, 2), named(f, 3)
    s = sc(c, "distance", f, (), ARITH)
    for e in s.exitsv:
        y = measured(e.val); t = terms(y) if y is not None else None
        c.tri(None if t is None else t == {obj: 1, now: -1}, "distance of a jump", "a jump is the distance from the clock to its target: %s" % show(e.val)[:80], where(f))
    f = method(c, TRAIT, SYNCED, "reset"); s = sc(c, "reset", f)
    for e in s.exitsv:
        v = post(e, path(s.it, "self.is_synced")); c.tri(isbool(v) and not bval(v) if v.op in ("c", "f") else None, "reset: unsynchronised", "a clock that starts over is not synchronised", where(f))
        v = deep(post(e, path(s.it, "self.relative_speed"))); c.tri(float(str(v.args[1]).split("_")[0].replace("f32", "")) == 1.0 if v.op == "c" else False if v.op == "f" else None, "reset: speed", "it runs at normal speed", where(f))
        v = post(e, path(s.it, "self.controller.consecutive_errors")); c.tri(ival(v) == 0 if isint(v) else False if v.op == "f" else None, "reset: streak", "it has no streak", where(f))
    for n, field in (("set_synced", "is_synced"), ("set_relative_speed", "relative_speed")):
        f = method(c, TRAIT, SYNCED, n); s = sc(c, n, f)
        for e in s.exitsv: c.tri(is_(post(e, path(s.it, "self." + field)), named(f, 2)), n, "what is set is what is kept", where(f))
    for n, field in (("is_synced", "is_synced"), ("relative_speed", "relative_speed"), ("sync_context", "controller")):
        f = method(c, TRAIT, SYNCED, n); s = sc(c, n, f)
        for e in s.exitsv: c.tri(is_(deep(e.val), deep(path(s.it, "self." + field))), n, "what is asked for is what is kept: %s" % show(e.val), where(f))


# ------------------------------------------------------------------------------------------------ C06 the estimate of the peer's clock
from props.connection import observes, qname, item, seqs, narrowing, requires
from props.messages import qparts
MUL = [(r"ops::arith::Mul(<.*>)?::mul$", lambda it, st, fr, a, sym: plus_(it, st, a, "*")), (r"TickDelta::from_duration$", lambda it, st, fr, a, sym: plus_(it, st, a, "ticks"))]
CTX = "self.0.context."


@prop("C06", floor=38, explain="the update of the estimate is executed symbolically for too few samples, for older, equal and newer ticks, for the first and for later ones; the new offset as a sum of clock values, the smoothing weight as a formula, and the systems that advance and reset the estimate are compared with the rule")
def c06(c):
    remote_update(c); weight(c); remote_rest(c)


def half(v, R):
    """v is half of R"""
    v = deep(v)
    if v.op in ("bin", "call") and not (v.op == "bin" and v.args[0] not in ("DDiv", "Div", "DMul", "Mul")): pass
    xs = [deep(x) for x in (v.args[1:] if v.op == "bin" else v.args[1] if v.op == "call" else [])]
    if len(xs) == 2 and xs[0] is R and isint(xs[1]): return (v.args[0] in ("DDiv", "Div") or str(v.args[0]).endswith("div")) and ival(xs[1]) == 2
    if v is R: return False
    return None


def remote_update(c):
    f = c.fn(TR_ + "RemoteTimeline::update"); tick, pm, td = (named(f, i) for i in range(2, 5)); N, R, A, J = P_("samples"), P_("round trip"), P_("weight"), P_("jitter"); asked = []
    def wt(it, st, fr, a, sym): asked.append(it.normarg(st, a[1])); return A
    stubs = ARITH + MUL + [(r"PingManager::latency_samples_recv$", N), (r"PingManager::rtt$", R), (r"PingManager::jitter$", J), (r"RemoteTimeline::ema_alpha$", wt)]
    at = lambda it, n: path(it, CTX + n)
    fields_ = ("received_packet", "last_received_tick", "offset", "first_estimate")
    def ticklit(it): return mk("f", mk("f", at(it, "last_received_tick"), "Some", "0"), "", "0")
    for key in ("nothing received before", "older", "equal", "newer"):
        for first in (True, False):
            if key == "nothing received before" and not first: continue
            def assume(it):
                out = [(at(it, "first_estimate"), first), (deq(at(it, "last_received_tick"), 0 if key.startswith("nothing") else 1), True)]
                d = sub(fld(tick, "0"), ticklit(it))
                return out + ([] if key.startswith("nothing") else [(le(d, const(-1)), True)] if key == "older" else [(ieq(d, const(0)), True)] if key == "equal" else [(le(const(1), d), True)])
            tag = "%s%s" % (key, ", first estimate" if first else "")
            s = sc(c, tag, f, (), stubs, assume=assume)
            done = 0
            for e in s.exitsv:
                lits = [l for l, b in literals(e.state) if has(l, lambda y: y is N)]
                need = [y for l in lits for y in subvals(l) if endswith(y, "handshake_pings")]
                now_ = {n: post(e, at(s.it, n)) for n in fields_}
                kept = [same(s.it, e, now_[n], at(s.it, n)) for n in fields_]
                keeps = False if False in kept else None if None in kept else True
                if not need: c.bad("enough samples", "nothing is estimated before the configured number of answered pings", where(f)); continue
                lo, hi = s.it.lrange(e.state, sub(N, uncast(need[0])))
                if lo is None or lo < 0:
                    c.tri(keeps, "too few samples", "nothing is estimated before the configured number of answered pings", where(f))
                    c.check(hi is not None and hi < 0, "enough samples: estimated", "with the configured number of answered pings it is estimated", where(f)); continue
                done += 1
                if key == "older": c.tri(keeps, "older tick", "a packet carrying an older tick changes nothing", where(f)); continue
                v = now_["received_packet"]; c.tri(bval(v) if isbool(v) else None if v.op != "f" else False, tag + ": received", "the packet is noted", where(f))
                v = now_["last_received_tick"]; c.tri(True if v.op == "agg" and v.args[1] == "Some" and deep(v.args[2][0]) is tick else False if v.op in ("agg", "f") else None, tag + ": tick", "its tick is the last one received", where(f))
                v = now_["first_estimate"]; c.tri(not bval(v) if isbool(v) else False if first else same(s.it, e, v, const(False)), tag + ": not first any more", "only the first estimate is taken unsmoothed", where(f))
                o = now_["offset"]; old = at(s.it, "offset")
                if o is old: c.bad(tag + ": offset", "the estimate follows the packet", where(f)); continue
                def raw(v):
                    """tick received plus half a round trip, relative to the local count"""
                    t = terms(v)
                    if len(t) != 3: return False if len(t) < 3 or all(x.op == "call" and x.args[0] == "ticks" or has(x, lambda y: y is tick) or endswith(x, "now") or endswith(x, "offset") for x in t) else None
                    got = {}
                    for x, k in t.items():
                        if x.op == "call" and x.args[0] == "ticks":
                            h = half(x.args[1][0], R)
                            if h is None or not deep(x.args[1][1]) is td: return h if h is False else None
                            got["delay"] = k if h else 99
                        elif has(x, lambda y: y is tick): got["tick"] = k
                        elif endswith(x, "now"): got["now"] = k
                    return got == {"delay": 1, "tick": 1, "now": -1} if len(got) == 3 else None
                if first: c.tri(raw(o), tag + ": offset", "the first estimate is the tick received and half a round trip: %s" % show(o)[:110], where(f)); continue
                t = terms(o); parts = []
                for x, k in t.items():
                    if x.op != "call" or x.args[0] != "*" or k != 1: parts = None; break
                    a, b = x.args[1]
                    q = coeffs(fx(b, {A: Ratio.var("a")}, {})); parts.append((deep(a), {k_: y for k_, y in q.items() if y} if q is not None else None))
                if not parts or len(parts) != 2 or any(q is None for _, q in parts): c.undecided(tag + ": offset", show(o)[:120]); continue
                olds = [q for a, q in parts if a is old]; news = [(a, q) for a, q in parts if a is not old]
                if len(olds) != 1: c.undecided(tag + ": offset", show(o)[:120]); continue
                c.tri(raw(news[0][0]), tag + ": new value", "a later packet counts with its tick and half a round trip: %s" % show(news[0][0])[:100], where(f))
                c.check(olds[0] == {None: 1, "a": -1} and news[0][1] == {"a": 1}, tag + ": smoothed", "the estimate moves from the previous one towards the new value by the weight: %s" % show(o)[:110], where(f))
            if not done: c.undecided(tag, "no path with enough samples")


    for v in asked: c.tri(True if has(v, lambda y: y is J) and not has(v, lambda y: y is R) else False if has(v, lambda y: y is R) or v.op == "c" else None, "weight: by jitter", "the weight depends on the jitter measured: %s" % show(v)[:60], where(f))


def weight(c):
    f = c.fn(TR_ + "RemoteTimeline::ema_alpha"); j = named(f, 2); s = sc(c, "weight", f)
    for e in s.exitsv:
        lo, hi = path(s.it, CTX + "min_ema_alpha"), path(s.it, CTX + "max_ema_alpha"); at = {}
        q = fx(e.val, {lo: Ratio.var("m"), hi: Ratio.var("M")}, at)
        if q is None or len(at) != 1: c.undecided("weight", show(e.val)[:120]); continue
        n, x = next(iter(at.items()))
        if not (x.op == "call" and x.args[0].endswith("::clamp") and [float(str(deep(y).args[1])) if deep(y).op == "c" else None for y in x.args[1][1:3]] == [0.0, 1.0]): c.bad("weight: bounded", "the weight stays between its least and its greatest value: %s" % show(e.val)[:110], where(f)); continue
        at0 = {}; sl = coeffs(fx(x.args[1][0], {j: Ratio.var("j")}, at0)) or {}
        up = sl.get("j", 0)
        def val(k):
            out = {}
            for mono, co in q.n.items():
                if n in mono:
                    if k == 0: continue
                    mono = tuple(y for y in mono if y != n)
                out[mono] = out.get(mono, 0) + co
            return {m: y for m, y in out.items() if y}
        ends = (val(0), val(1)) if up > 0 else (val(1), val(0)) if up < 0 else (None, None)
        c.check(q.d == {(): 1} and ends == ({("M",): 1}, {("m",): 1}), "weight", "the weight goes from its greatest value without jitter to its least with much of it: %s" % show(e.val)[:110], where(f))


def remote_rest(c):
    P = c.P
    RT = TR_ + "RemoteTimeline"; TT = TS + "SyncTargetTimeline"
    f = method(c, TT, RT, "current_estimate"); s = sc(c, "estimate", f, (), ARITH)
    for e in s.exitsv:
        t = terms(e.val); k = {("offset" if endswith(x, "offset") else "now" if endswith(x, "now") else show(x)[:60]): y for x, y in t.items()}
        c.tri(k == {"offset": 1, "now": 1} if all(x.op == "f" for x in t) else None, "estimate", "the estimate is the local count and its offset: %s" % k, where(f))
    f = method(c, TT, RT, "received_packet"); s = sc(c, "received", f)
    for e in s.exitsv: c.tri(is_(e.val, path(s.it, CTX + "received_packet")), "received", "whether a packet arrived is as noted", where(f))
    f = method(c, TT, RT, "is_initialized"); s = sc(c, "initialised", f)
    for e in s.exitsv:
        d = decide(s.it, e, deq(path(s.it, CTX + "last_received_tick"), 1), True)
        v = e.val
        if isbool(v): c.tri(None if d is None else d == bval(v), "initialised", "an estimate exists once a packet counted", where(f))
        else: c.tri(True if v is deq(path(s.it, CTX + "last_received_tick"), 1) or has(v, lambda y: endswith(y, "last_received_tick")) and v.op == "deq" and v.args[1] == 1 else None, "initialised", show(v)[:60], where(f))
    # a new connection
    f = c.fn(RT + "::handle_connect"); observes(c, f, "Add", "Connected"); T = P_("timeline")
    s = sc(c, "connected", f, (), [(r"system::query::Query::get_mut$", okv(mk("&", T)))])
    for e in s.exitsv:
        rd = lambda n: s.it.rd(e.state, ("O", T), tuple(("F", None, x, 0) for x in ("0", "context", n)))
        w = {wfield(x): x.val for x in s.it.events if x.kind == "write"}
        for n, good in (("received_packet", lambda v: isbool(v) and not bval(v)), ("first_estimate", lambda v: isbool(v) and bval(v)), ("last_received_tick", lambda v: v is NONE), ("offset", lambda v: not has(v, lambda y: y.op == "p"))):
            c.check(n in w and good(strip(w[n])), "connected: " + n, "the estimate of a new connection starts from nothing: %s" % (show(w[n])[:50] if n in w else "kept"), where(f))
    # each packet
    f = c.fn(TR_ + "update_remote_timeline"); observes(c, f, "PacketReceived"); pm = P_("ping manager"); trig = f.names[1]
    asked = []
    def get(it, st, fr, a, sym): asked.append(it.normarg(st, a[1])); return okv(mk("agg", "()", "", (mk("&", T), mk("&", pm))))
    UP = r"RemoteTimeline::update$"
    s = sc(c, "packet", f, ((UP, "update"),), [(r"system::query::Query::get_mut$", get)])
    for e in s.exitsv:
        us = calls_(e, "update"); c.check(len(us) == 1, "packet: counted", "each packet counts once", where(f))
        for a in us:
            c.tri(is_(a[0], T), "packet: link", "for the link it arrived on", where(f)); c.tri(is_(a[2], pm), "packet: delay", "with the delay of that link", where(f))
            c.tri(True if endswith(deep(a[1]), "remote_tick") else False if deep(a[1]).op in ("p", "f", "c") else None, "packet: tick", "with the tick it carries: %s" % show(a[1])[:60], where(f))
    c.check(bool(asked) and all(endswith(deep(x), "entity") or "entity" in show(x) for x in asked), "packet: link", "for the link it arrived on", where(f))
    # the passing of time
    f = c.fn(TR_ + "advance_remote_timeline"); q = qname(f, "RemoteTimeline"); AD = r"::apply_duration$"; X, Y = P_("timeline 0"), P_("timeline 1")
    rb = next((f.names[i] for i in range(1, f.argc + 1) if "Rollback" in (f.ltys[i] if isinstance(f.ltys[i], str) else f.ty(f.ltys[i]))), None)
    for back in (True, False):
        s = sc(c, "advance, rollback %s" % back, f, ((AD, "apply"),), seqs((r"Query", [mk("&", X), mk("&", Y)])), assume=(lambda it: [(deq(P_(rb), 1 if back else 0), True)]) if rb else None, no_inline=[AD], paths=False)
        for e in s.exitsv:
            got = calls_(e, "apply")
            if back: c.check(not got, "rollback: stands still", "the estimate does not move while the past is replayed", where(f)); continue
            who = [deep(a[0]) for a in got]
            c.tri(None if any(x not in (X, Y) for x in who) else sorted(map(show, who)) == [show(X), show(Y)], "advance: each", "every link's estimate advances once: %s" % [show(x)[:30] for x in who], where(f))
            for a in got: c.tri(True if callname(a[1], r"Time(<.*>)?::delta$") else False if deep(a[1]).op in ("c", "p") else None, "advance: by", "by the time that has passed: %s" % show(a[1])[:50], where(f))
    n = narrowing(f, q)
    c.check(n <= {(True, "Linked"), (True, "RemoteTimeline")}, "advance: all", "every linked estimate advances: %s" % sorted(n), where(f))
    f = c.fn(TR_ + "reset_received_packet_remote_timeline"); q = qname(f, "RemoteTimeline")
    s = sc(c, "forget packets", f, (), seqs((r"Query", [mk("&", X)])), paths=False)
    for e in s.exitsv:
        ws = [strip(x.val) for x in s.it.events if x.kind == "write" and wfield(x) == "received_packet"]
        c.check(bool(ws) and all(isbool(x) and not bval(x) for x in ws), "forget packets", "a packet counts until the clocks have been adjusted to it", where(f))


# ------------------------------------------------------------------------------------------------ C07 input delay and the prediction window
def window(c):
    """when a peer stops simulating ahead of what is confirmed, and when it goes on"""
    P = c.P; f = c.fn(TI_ + "PredictionWindowWait::update"); now, conf, m = named(f, 2), named(f, 3), named(f, 4); D = P_("depth"); H = 2
    def minus(it, st, fr, a, sym):
        st.mon = st.mon + (("sub", it.normarg(st, a[0]), it.normarg(st, a[1])),); return D
    def sat(it, st, fr, a, sym):
        x, y = (it.normarg(st, v) for v in a[:2])
        if x is m and isint(y):
            k = it.truth(st, le(y, x))
            return sub(x, y) if k else const(0) if k is False else None
        return None
    bands = [("small", b) for b in ("below zero", "at zero", "above zero", "just full", "full")] + [("large", b) for b in ("resumable", "just resumable", "nearly full", "just full", "full")]
    for origin, confirmed, waiting, (size, band) in product(("unknown", "here", "earlier"), (False, True), (False, True), bands):
        key = "window: origin %s, %s, %s, %s window %s" % (origin, "confirmed" if confirmed else "nothing confirmed", "waiting" if waiting else "running", size, band)
        if origin == "unknown" and waiting and not confirmed: continue
        def asm(it):
            og = path(it, "self.origin_tick"); o = fld(mk("f", og, "Some", "0"), "0") if False else None
            a = [(deq(og, 0 if origin == "unknown" else 1), True), (deq(conf, 1 if confirmed else 0), True), (path(it, "self.waiting"), waiting)]
            if size == "small": a += [(le(m, const(H)), True), (lt(const(0), m), True)] + {"below zero": [(lt(D, const(0)), True)], "at zero": [(ieq(D, const(0)), True)], "just full": [(ieq(sub(D, m), const(0)), True), (le(m, D), True), (lt(const(0), D), True)], "above zero": [(lt(const(0), D), True), (lt(D, m), True)], "full": [(lt(m, D), True), (lt(const(0), D), True)]}[band]
            else: a += [(lt(const(H), m), True)] + {"resumable": [(lt(D, sub(m, const(H))), True), (lt(D, m), True)], "just resumable": [(ieq(sub(D, sub(m, const(H))), const(0)), True), (lt(D, m), True), (le(D, sub(m, const(H))), True), (le(sub(m, const(H)), D), True)], "just full": [(ieq(sub(D, m), const(0)), True), (le(m, D), True), (le(D, m), True), (lt(sub(m, const(H)), D), True)], "nearly full": [(lt(sub(m, const(H)), D), True), (lt(D, m), True)], "full": [(lt(m, D), True), (lt(const(0), D), True)]}[band]
            if origin != "unknown": a.append((ieq(sub(fld(now, "0"), fld(variantfield(og), "0")), const(0)), origin == "here"))
            return a
        s = sc(c, key, f, (), [(r"ops::arith::Sub(<.*>)?::sub$", minus), (r"::saturating_sub$", sat)], assume=asm)
        start = origin in ("unknown", "here") and not confirmed
        want = False if start else band in ("above zero", "nearly full", "just full", "full") if waiting else band in ("just full", "full")
        for e in s.exitsv:
            it = s.it; og = path(it, "self.origin_tick")
            got = boolof(it, e.state, post(e, path(it, "self.waiting"))); ch = boolof(it, e.state, e.val)
            c.tri(None if got is None else got == want, key + ": waiting", "simulation waits once the window is used up, and goes on only when %d ticks of it are free again: %s" % (H, got), where(f))
            c.tri(None if ch is None else ch == (want != waiting), key + ": changed", "a change is reported exactly when there is one", where(f))
            subs = [x for x in e.state.mon if x[0] == "sub"]
            if len(subs) == 1:
                fr_ = variantfield(conf) if confirmed else now if origin == "unknown" else variantfield(og)
                okd = subs[0][1] is now and strip(subs[0][2]) in (fr_, fld(fr_, "0")) or same(it, e, subs[0][2], fr_) is True and subs[0][1] is now
                c.tri(True if okd else False if subs[0][2] is now and not start or subs[0][1] is not now and subs[0][2] is now or known_term(subs[0][2], now, conf, og) and not (origin == "here" and subs[0][2] is now) else None, key + ": depth", "the depth is counted from the confirmed tick, or from the first tick seen while none is: %s - %s" % (show(subs[0][1]), show(subs[0][2])), where(f))
            c.tri(is_(post(e, path(it, "self.prediction_depth")), D), key + ": reported depth", "the depth reported is the one measured", where(f))
            o2 = post(e, og); keep = o2 is og
            c.tri((True if keep else same_origin(s, e, o2, og)) if origin != "unknown" else (True if o2.op == "agg" and o2.args[1] == "Some" and strip(o2.args[2][0]) is now else False if o2 is og or o2 is NONE else None), key + ": origin", "the first tick seen is remembered", where(f))


def same_origin(s, e, v, og):
    """v is the origin already there, rebuilt or not"""
    if v is NONE: return False
    if v.op != "agg" or v.args[1] != "Some": return None
    x = strip(v.args[2][0]); o = variantfield(og)
    if x is o or deep(x) is o: return True
    d = same(s.it, e, fld(x, "0"), fld(o, "0")) if x.op != "agg" else same(s.it, e, aggfield(x, "0"), fld(o, "0")) if aggfield(x, "0") is not None else None
    return True if d is True else False if refd(s, e, x, o) else None


def refd(s, e, x, o):
    a = x if x.op != "agg" else None
    return a is not None and s.it.assume(e.state.copy(), ieq(sub(fld(a, "0"), fld(o, "0")), const(0)), False) and all(y.op in ("f", "p", "*", "&", "agg") for y in subvals(a))


def sweeps(*srcs):
    """seqs, where every iteration of a query starts from its first element"""
    def iters(it, st, fr, a, sym):
        v = deep(it.normarg(st, a[0]))
        if v.op == "p" and str(v.args[0]).startswith("iteration "): return v
        for i, (p, elems) in enumerate(srcs):
            if v.op == "p" and re.search(p, show(v)):
                n = sum(1 for m in st.mon if m[0] == "iter"); st.mon = st.mon + (("iter", None, ()),); return P_("iteration %d.%d" % (i, n))
        return None
    def nxt(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0])); t = show(v)
        if v.op == "agg" and v.args[0].startswith("models::"): return None
        m = re.search(r"iteration (\d+)\.(\d+)", t)
        if m is None or re.search(r"Iterator::(take|skip|step_by|rev|peekable|cycle|scan|flat_map|flatten|chunks\w*|nth|last|filter|map|filter_map)\(", t): return None
        es = srcs[int(m.group(1))][1]; k = sum(1 for m_ in st.mon if m_[0] == "at" and m_[1] == m.group(0))
        if k >= len(es): return NONE
        st.mon = st.mon + (("at", m.group(0), ()),); return some(es[k])
    return [(r"Query(<.*>)?::(iter|iter_mut|into_iter)$|IntoIterator(<.*>)?::into_iter$", iters), (r"Iterator::next$", nxt)]


def boolof(it, st, v):
    """the truth of v on this path, looking into comparisons of truths"""
    k = it.truth(st, v)
    if k is not None: return k
    if v.op == "not": k = boolof(it, st, v.args[0]); return None if k is None else not k
    if v.op in ("veq", "xor", "or", "and") or v.op == "bin" and v.args[0] in ("BitXor", "Eq", "Ne", "BitAnd", "BitOr"):
        op = v.op if v.op != "bin" else v.args[0]; x, y = (boolof(it, st, w) for w in v.args[-2:])
        if x is None or y is None: return None
        return {"veq": x == y, "Eq": x == y, "Ne": x != y, "xor": x != y, "BitXor": x != y, "or": x or y, "BitOr": x or y, "and": x and y, "BitAnd": x and y}[op]
    return None
def variantfield(o): return mk("f", o, "Some", "0")
def known_term(v, now, conf, og): return strip(v) in (now, variantfield(conf), variantfield(og))


def delay(c):
    """how many ticks of delay inputs get for one link"""
    P = c.P; f = c.fn(TI_ + "InputDelayConfig::input_delay_ticks"); stats, scfg, tick = named(f, 2), named(f, 3), named(f, 4); JM = r"SyncConfig::jitter_margin$"; M = P_("margin")
    me = lambda it, n: path(it, "self." + n); MIN, BEF, PRE = "minimum_input_delay_ticks", "maximum_input_delay_before_prediction", "maximum_predicted_ticks"
    plus = lambda it, st, fr, a, sym: add(it.normarg(st, a[0]), it.normarg(st, a[1]))
    ST = [(JM, M), (r"u(16|32|64|size)::saturating_add$|num::<impl u\d+>::saturating_add$|::saturating_add$", plus)]
    probe = sc(c, "delay", f, ((JM, "margin"),), ST, assume=lambda it: [(le(me(it, MIN), me(it, BEF)), True), (ieq(me(it, PRE), const(0)), False)])
    seen = {}
    for e in probe.exitsv:
        for v in [e.val] + [l for l, b in literals(e.state)]:
            for x in subvals_deep(v):
                if x.op == "cast" and has(x, lambda y: y is M or y.op == "f" and str(y.args[2]) == "rtt"): seen[x] = 1
        for a in calls_(e, "margin"):
            c.tri(all3_([is_(a[0], scfg), field_of(a[1], "jitter", stats), is_(a[2], tick)]), "delay: margin", "the margin is that of this link's jitter", where(f))
    R = [x for x in seen if not any(y is not x and has(y, lambda z: z is x) for y in seen)]
    if len(R) != 1: c.undecided("delay: round trip", "the number of ticks of a round trip was not found: %d" % len(R)); return
    R = R[0]; v = deep(R); ups = [y.args[0] for y in subvals(R) if y.op == "call" and re.search(r"(^|::)(ceil|floor|round|trunc|round_ties_even|div_ceil|div_euclid)$", y.args[0])]
    c.tri(True if len(ups) == 1 and ups[0].endswith("ceil") else False if not ups or not any(u.endswith("ceil") for u in ups) else None, "delay: rounded up", "a round trip that is not a whole number of ticks takes one more: %s" % ups, where(f))
    while v.op == "cast" or v.op == "call" and re.search(r"(^|::)(ceil|floor|round|trunc)$", v.args[0]): v = deep([x for x in (v.args[1] if v.op == "call" else v.args) if isinstance(x, V)][0])
    q = v.args[-2:] if v.op == "bin" and v.args[0] == "Div" else None
    if q is None: c.undecided("delay: ratio", show(v)[:80])
    else:
        okd = has(q[1], lambda y: y is tick) and not has(q[1], lambda y: y is M)
        inner = sumof(q[0])
        c.tri(None if inner is None else (len(inner) == 2 and inner.get(M) == 1 and any(k is not M and field_of(k, "rtt", stats) and w == 1 for k, w in inner.items())), "delay: round trip", "what is covered is the round trip and the margin for jitter: %s" % (inner and {show(k)[:40]: w for k, w in inner.items()}), where(f))
        c.check(okd, "delay: in ticks", "the round trip is counted in ticks, rounded up", where(f))
    for lock in (False, True):
        T = lambda it: add(R, const(2)) if lock else R
        for reg, facts, want in (("within the least", lambda it: [(le(T(it), me(it, MIN)), True), (le(T(it), me(it, BEF)), True), (le(T(it), add(me(it, BEF), me(it, PRE))), True)], lambda it: me(it, MIN)),
                                 ("up to the delay allowed", lambda it: [(lt(me(it, MIN), T(it)), True), (le(T(it), me(it, BEF)), True), (le(T(it), add(me(it, BEF), me(it, PRE))), True)], T),
                                 ("up to what prediction covers", lambda it: [(lt(me(it, BEF), T(it)), True), (lt(me(it, MIN), T(it)), True), (le(T(it), add(me(it, BEF), me(it, PRE))), True)], lambda it: me(it, BEF)),
                                 ("beyond", lambda it: [(lt(me(it, BEF), T(it)), True), (lt(me(it, MIN), T(it)), True), (lt(add(me(it, BEF), me(it, PRE)), T(it)), True)], lambda it: sub(T(it), me(it, PRE)))):
            if lock and reg == "up to what prediction covers": continue
            key = "delay: %s%s" % (reg, ", lockstep" if lock else "")
            s = sc(c, key, f, (), ST, assume=lambda it: [(le(me(it, MIN), me(it, BEF)), True), (ieq(me(it, PRE), const(0)), lock)] + ([] if lock else [(lt(const(0), me(it, PRE)), True)]) + facts(it))
            for e in s.exitsv:
                a, b = lin_of(e.val), lin_of(want(s.it))
                d = sub(e.val, want(s.it)); plain_ = all(t is R or t in [me(s.it, n) for n in (MIN, BEF, PRE)] for t, k in lin_of(d)[0])
                c.tri(True if same(s.it, e, e.val, want(s.it)) is True else False if plain_ and s.it.assume(e.state.copy(), ieq(d, const(0)), False) else None, key, "the delay is the least one that leaves no more than the allowed prediction: %s" % show(e.val)[:60], where(f))
    def satsum(it, st, fr, a, sym):
        x, y = (it.normarg(st, w) for w in a[:2]); r = mk("call", "saturating sum", (x, y), None); it.vty[r] = "u16"
        for w in (x, y): it.assume(st, le(w, r), True)
        return r
    s = sc(c, "delay: overflow", f, (), [(JM, M), (r"saturating_add$", satsum)], assume=lambda it: [(le(me(it, MIN), me(it, BEF)), True)])
    n = 0
    for e in s.it.events:
        if e.kind != "assert": continue
        n += 1; v = e.val
        if v is None or v.op != "ovf" or v.args[0] not in ("Add", "Sub"): c.undecided("delay: overflow", show(v)[:80] if v is not None else "assert"); continue
        x, y = v.args[1], v.args[2]; lo, hi = s.it.lrange(e.state, (add if v.args[0] == "Add" else sub)(x, y))
        if v.args[0] == "Sub":
            for z in {t for k_ in e.state.facts for t in subvals(k_[1] if isinstance(k_[1], V) else const(0))} | {t for k_ in e.state.facts if not isinstance(k_[1], V) for t, n_ in k_[1]}:
                lo = max(lo, s.it.lrange(e.state, sub(x, z))[0] + s.it.lrange(e.state, sub(z, y))[0])
        free = all(any(has(w, lambda z: z is k) for k in (R, f_self(s.it))) or isint(w) for w in (x, y))
        c.tri(True if 0 <= lo and hi <= 65535 else False if free else None, "delay: overflow, " + re.sub(r"\(ceil.*as u16\)", "round trip", show(v))[:60], "no configuration or round trip overflows the computation: %s" % re.sub(r"\(ceil.*as u16\)", "round trip", show(v))[:90], e.where())
    if not n: c.check(True, "delay: overflow", "no configuration or round trip overflows the computation", where(f))


def f_self(it): return strip(path(it, "self.maximum_predicted_ticks")).args[0]
def subvals_deep(v): return list(subvals(v))
def sumof(v):
    """the sum a converted duration consists of"""
    v = deep(v)
    for _ in range(8):
        if v.op == "cast" or v.op == "call" and re.search(r"::(as_\w+|to_\w+|into|from)$", v.args[0]):
            v = deep([x for x in (v.args[1] if v.op == "call" else v.args) if isinstance(x, V)][0]); continue
        break
    ts, k = lin_of(v)
    return None if k else dict(ts)
def field_of(v, n, base):
    v = deep(v)
    if v.op == "f" and str(v.args[2]) == n and strip(v.args[0]) is base: return True
    return False if v.op in ("p", "f", "c") else None
def all3_(xs): return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


TICKS = (r"TickDelta::from_duration$", lambda it, st, fr, a, sym: mk("call", "ticks", tuple(it.normarg(st, x) for x in a), None))
def margin(c):
    """the allowance for jitter, and where the local clock is meant to be"""
    P = c.P; f = c.fn(TS + "SyncConfig::jitter_margin"); jit, tick = named(f, 2), named(f, 3); me = lambda n: fld(mk("*", named(f, 1)), n)
    s = sc(c, "margin", f, (), ARITH)
    for e in s.exitsv:
        ts = {k: n for k, n in terms(e.val).items()}; v = deep(e.val)
        parts_ = list(terms(v)) if v.op == "call" and v.args[0] in ("+", "-") else [k for k, n in lin_of(v)[0]]
        good = lambda x, p, q: has(x, lambda y: y is p) and has(x, lambda y: y is q)
        kinds = [("jitter" if good(x, jit, me("jitter_multiple")) else "tick" if good(x, tick, me("jitter_margin")) else "?") for x in parts_]
        made = all(y in (jit, tick, strip(named(f, 1))) for x in parts_ for y in subvals(x) if y.op == "p") and not any(y.op == "call" and not re.search(r"mul|Mul|Add|add|^[+-]$", y.args[0]) for x in parts_ for y in subvals(x))
        if made: kinds = ["wrong" if k == "?" else k for k in kinds]
        plain_ = made or all(x.op in ("call", "bin") and re.search(r"mul(_f32|_f64)?$|DMul$|Mul", x.args[0]) for x in parts_)
        c.tri(True if sorted(kinds) == ["jitter", "tick"] and plain_ and all(n == 1 for n in ts.values()) else None if "?" in kinds or not plain_ else False, "margin", "the allowance is the jitter and the tick, each times its factor: %s" % show(e.val)[:120], where(f))
    f = method(c, TRAIT, SYNCED, "sync_objective"); remote, cfg, pm, tick = (named(f, i) for i in (2, 3, 4, 5)); JM = r"SyncConfig::jitter_margin$"; M = P_("margin"); CE = r"current_estimate$"; EST = P_("estimate")
    RTT, JIT = P_("rtt"), P_("jitter")
    s = sc(c, "objective", f, ((JM, "margin"), (CE, "estimate")), ARITH + [TICKS, (JM, M), (CE, EST), (r"PingManager::rtt$", RTT), (r"PingManager::jitter$", JIT)])
    for e in s.exitsv:
        ts = terms(e.val); bad = []; un = []; got = {}
        for t, n in ts.items():
            k = "?"
            if t is EST: k = "estimate"
            elif t.op == "call" and t.args[0] == "ticks":
                x = deep(t.args[1][0]); tk = is_(t.args[1][1], tick)
                if tk is False: bad.append(t)
                hf = half(x, RTT)
                if hf is not None: k = "delay" if hf else "wrong delay"
                elif x is M: k = "margin"
                elif has(x, lambda y: y is tick) and has(x, lambda y: y is fld(fld(mk("*", cfg), "sync"), "error_margin")): k = "error"
                elif all(y in (RTT, JIT, M, tick, cfg, EST) for y in subvals(x) if y.op == "p"): k = "not expected"
            elif has(t, lambda y: y.op == "f" and str(y.args[2]) == "input_delay_ticks"): k = "input"
            elif not has(t, lambda y: y.op == "p"):
                ns = [ival(y) for y in subvals(t) if isint(y)]
                if len(ns) == 1: k = "one" if ns[0] == 1 else "not one"
            got[k] = got.get(k, 0) + n
        want = {"estimate": 1, "delay": 1, "margin": 1, "one": 1, "error": 1, "input": -1}
        c.tri(False if bad else True if got == want else None if "?" in got else False, "objective", "the target is the peer's clock half a round trip ahead, plus the margins and one tick, less the input delay: %s" % got, where(f))
        for a in calls_(e, "margin"): c.tri(all3_([is_(a[1], JIT), is_(a[2], tick)]), "objective: margin", "the margin is that of the measured jitter", where(f))
        for a in calls_(e, "estimate"): c.tri(is_(a[0], remote), "objective: estimate", "the clock aimed at is that of the peer followed", where(f))


def recompute(c):
    """whose delay counts"""
    P = c.P; f = c.fn(TI_ + "LocalTimelineSync::recompute_input_delay"); cfg, top, links, p2p, tick = (named(f, i) for i in (2, 3, 4, 5, 6))
    P2 = next(a for a in P.adts if a.endswith("p2p::P2P")); NT = next(a for a in P.adts if a.endswith("::NetworkTopology")); E = [P_("E%d" % i) for i in range(3)]; IDT = r"InputDelayConfig::input_delay_ticks$"
    el = lambda i, s: mk("agg", "()", "", (E[i], mk("&", mk("agg", P2, s, ()))))
    def case(key, states, topo, members, delays, want):
        """states: of the peer links; topo: variant; delays: of the links that exist"""
        def get(it, st, fr, a, sym):
            if strip(it.normarg(st, a[0])) is not links and not has(it.normarg(st, a[0]), lambda y: y is links): return None
            x = deep(it.normarg(st, a[1]))
            if x not in E: return None
            i = E.index(x); return okv(mk("&", P_("link %d" % i))) if i in delays else errv(P_("missing"))
        def dl(it, st, fr, a, sym):
            x = deep(it.normarg(st, a[1])); l = next((y for y in subvals(x) if y.op == "p" and str(y.args[0]).startswith("link ")), None)
            return const(delays[int(str(l.args[0]).split()[1])]) if l is not None else None
        asm = lambda it: [(deq(mk("*", top), variant(P, NT, topo)), True)]
        src = [(str(p2p.args[0]), [el(i, s) for i, s in enumerate(states)])]
        SQ = seqs((str(top.args[0]), [mk("&", E[i]) for i in members])); fall = SQ[0][1]; (ip, iters), (np, nxt) = sweeps(*src)
        def either(it, st, fr, a, sym):
            r = nxt(it, st, fr, a, sym); return r if r is not None else fall(it, st, fr, a, sym)
        SW = [(ip, iters), (np, either)]
        s = sc(c, key, f, ((IDT, "delay"),), SW + [(r"Query(<.*>)?::get$", get), (IDT, dl)], assume=asm, init=lambda it, st, fr: single(it, st, top, topo, members, E), parts=200)
        tag = "delay of: " + key
        for e in s.exitsv:
            r = boolof(s.it, e.state, e.val); v = post(e, path(s.it, "self.input_delay_ticks"))
            c.tri(None if r is None else r == (want is not None), tag + ": known", "a delay is set only when every link it has to cover is known: %s" % r, where(f))
            if want is None: c.tri(True if v is path(s.it, "self.input_delay_ticks") else False if isint(v) else None, tag + ": kept", "otherwise the delay stays what it was: %s" % show(v)[:60], where(f))
            else: c.tri(ival(v) == want if isint(v) else False if v is path(s.it, "self.input_delay_ticks") else None, tag, "the delay covers the slowest of the links it is for: %s" % show(v)[:60], where(f))
            for a in calls_(e, "delay"):
                c.tri(all3_([field_of(a[0], "input_delay_config", cfg), field_of(a[2], "sync", cfg), is_(a[3], tick)]), tag + ": configuration", "the delay of a link is computed from the configuration", where(f))
    C, J, I = "Candidate", "Joined", "Inactive"
    case("the first of two candidates", [C, C], "Undefined", [], {0: 5, 1: 3}, 5); case("the second of two candidates", [C, C], "Undefined", [], {0: 3, 1: 5}, 5); case("a candidate among others", [J, C, I], "Undefined", [], {0: 9, 1: 4, 2: 8}, 4)
    case("candidates before the session", [C, J], "P2P", [1], {0: 2, 1: 7}, 2); case("a candidate without link", [C, C], "Undefined", [], {0: 5}, None); case("the first candidate without link", [C, C], "P2P", [1], {1: 5}, None)
    case("no candidate, no network", [J, I], "Undefined", [], {0: 5, 1: 5}, None); case("a session", [J, J], "P2P", [0, 1], {0: 3, 1: 6}, 6); case("a session, other order", [J, J], "P2P", [0, 1], {0: 6, 1: 3}, 6)
    case("a session, one link gone", [J, J], "P2P", [0, 1], {0: 6}, None); case("a client", [], "Client", [0], {0: 4}, 4); case("a client without link", [], "Client", [0], {}, None); case("a host", [], "HostClient", [2, 0], {0: 4, 2: 9}, 4)
    case("a server", [], "Server", [0], {0: 4}, None)
    RC = r"LocalTimelineSync::recompute_input_delay$"
    for n, update in (("recompute_input_delay_on_config_update", True), ("recompute_input_delay_on_local_timeline_shift", False)):
        f = c.fn(TI_ + "InputTimelineConfig::" + n)
        pr = {k: next((P_(f.names[i]) for i in range(1, f.argc + 1) if re.search(p, str(f.ltys[i]))), None) for k, p in (("cfg", r"Res<.*InputTimelineConfig"), ("me", r"ResMut<.*LocalTimelineSync"), ("meta", r"NetworkingMetadata"), ("links", r"Query<&.*link::Link"), ("p2p", r"P2P"), ("tick", r"TickDuration"))}
        if any(v is None for v in pr.values()): raise MissingAnchor("parameters of " + n)
        for known_ in (True, False):
            s = sc(c, n, f, ((RC, "recompute"),), [(RC, const(known_))], no_inline=[RC])
            for e in s.exitsv:
                cs = calls_(e, "recompute"); tag = "%s, %s" % ("configuration" if update else "jump", "known" if known_ else "not known")
                c.check(len(cs) == 1, tag + ": recomputed", "the delay is recomputed when the %s" % ("configuration changes" if update else "clock jumps"), where(f))
                for a in cs: c.tri(all3_([True if has(a[i], lambda y: y is pr[k]) else False for i, k in enumerate(("me", "cfg", "meta", "links", "p2p", "tick"))]), tag + ": inputs", "it is recomputed from what is in force", where(f))
                w = [(r_, v) for r_, v in written(s, e) if r_.endswith("input_delay_ticks")]
                if update and not known_: c.tri(True if len(w) == 1 and has(w[0][1], lambda y: y.op == "f" and str(y.args[2]) == "minimum_input_delay_ticks") else False if not w or all(isint(v) or v.op == "f" for _, v in w) else None, tag + ": least", "before the links are known the least delay applies", where(f))
                else: c.check(not w, tag + ": untouched", "nothing else sets the delay", where(f))


def single(it, st, top, topo, members, E):
    """the entities named by a topology that names single links"""
    base = it.wr
    for n, i in {"Client": (("0", 0),), "Server": (("0", 0),), "HostClient": (("server", 0), ("client", 1))}.get(topo, ()):
        it.wr(st, ("O", top), (("F", topo, n, i),), E[members[i]])
def written(s, e):
    """(path, value) of the fields this function has written on its way here"""
    return [(".".join(str(p[2]) for p in x.projs if isinstance(p, tuple) and p[0] == "F"), x.val) for x in s.it.events if x.kind == "write" and x.projs and all(k in e.state.must or True for k in ())]


def gate(c):
    """whoever asks for the synchronised clock gets it only while it is synchronised"""
    P = c.P; T = next((t for t, i, im in P.impl_methods.get(("bevy_ecs::system::system_param::SystemParam", "get_param"), ()) if "SyncedLocalTimeline" in t), None)
    if T is None: raise MissingAnchor("SyncedLocalTimeline::get_param")
    f = next(P.fns[i] for t, i, im in P.impl_methods[("bevy_ecs::system::system_param::SystemParam", "get_param")] if t == T); c.fn(f.name) if f.name in P.byname else None
    for synced in (True, False):
        s = sc(c, "synchronised clock", f, (), [(r"LocalTimelineSync::is_synced$", const(synced)), (r"SystemParam(<.*>)?::get_param$", okv(P_("resource")))])
        if synced: s.some_exit(lambda e: is_ok(e.val), "a synchronised clock is handed out", "synchronised clock: given")
        else: s.exits(lambda e: is_err(e.val), "an unsynchronised clock is not handed out", tag="synchronised clock: withheld")
    f = c.fn(TI_ + "LocalTimelineSync::is_synced"); s = sc(c, "is synced", f, ())
    for e in s.exitsv: c.tri(e.val is path(s.it, "self.is_synced") or None if not isbool(e.val) else False, "is synced", "whether it is synchronised is what is reported", where(f))


@prop("C07", floor=400, explain="the window is executed for every order of confirmed, first and current tick; the delay for every order of the round trip against the minimum and the allowed prediction, its result as a sum over ticks; margin and target as sums over the clock; the recomputation for every topology and every mix of known and unknown links")
def c07(c):
    window(c); delay(c); margin(c); recompute(c); gate(c)


# ------------------------------------------------------------------------------------------------ C08 who the clock follows
PLUG = TS + "LocalTimelineSyncPlugin::"; TRIGGER = r"Commands::trigger$"; RESYNC = r"::resync$"; ADJ = r"::speed_adjustment$"; SHIFT = "LocalTimelineShift"; DIVERGED = "P2PTimelineDiverged"
def events_(e):
    """the events announced on the path, by type name"""
    out = []
    for a in calls_(e, "trigger"):
        v = strip(a[-1]); out.append((v.args[0].split("::")[-1] if v.op == "agg" else "?", v))
    return out
MATH = ("max", "min", "un", "-", "+", "*", "/", "neg", "%", "as", "cast")
def exactly(v, want):
    """the value is `want`, is computed from it, or is something else altogether"""
    v = deep(v)
    if v is want or strip(v) is want: return True
    if v.op in ("c", "p") or isint(v): return False
    if any(x is want for x in subvals(v)):
        def arith(x):
            x = strip(x)
            if x is want or x.op == "c" or isint(x): return True
            if x.op == "lin": return all(arith(y) for y, k in x.args[0])
            return (x.op in MATH or x.op == "call" and re.search(r"::(max|min|abs|clamp|wrapping_\w+|saturating_\w+|neg|mul|add|sub|div)$", str(x.args[0]))) and all(arith(y) for y in x.args for y in (y if isinstance(y, tuple) else (y,)) if hasattr(y, "op"))
        return False if arith(v) else None
    return None
def silent(e): return not calls_(e, "trigger")
def one_client(c):
    f = c.fn(PLUG + "sync_client_server"); names = [str(f.names[i]) for i in range(1, f.argc + 1)]
    sync = next(P_(f.names[i]) for i in range(1, f.argc + 1) if str(f.ltys[i]).endswith("LocalTimelineSync")); now = next(P_(f.names[i]) for i in range(1, f.argc + 1) if str(f.ltys[i]).endswith("TickInstant"))
    remote = next((P_(f.names[i]) for i in range(1, f.argc + 1) if re.match(r"&[A-Z]\w*$", str(f.ltys[i]))), None); SYNC = r"TimelineSync(<.*>)?::sync$"; D = P_("delta")
    for got, res in ((False, NONE), (True, NONE), (True, some(D))):
        s = sc(c, "server followed", f, ((TRIGGER, "trigger"), (SYNC, "sync")), [(r"received_packet$", const(got)), (SYNC, res)], paths=False)
        tag = "server: " + ("no packet" if not got else "no jump" if res is NONE else "jump")
        for e in s.exitsv:
            cs = calls_(e, "sync"); ev = events_(e)
            c.check(len(cs) == (1 if got else 0), tag + ": adjusted", "the clock is adjusted once for the packets of a frame, and not without one", where(f))
            for a in cs:
                c.tri(all3_([is_(a[0], sync), True if strip(a[1]) is now else False if not has(a[1], lambda y: y is now) else None] + ([is_(a[2], remote)] if remote is not None else [])), tag + ": inputs", "the local clock is compared with the clock of the server", where(f))
            c.tri(None if any(n == "?" for n, _ in ev) else [n for n, _ in ev] == ([SHIFT] if res is not NONE else []), tag + ": announced", "a jump is announced once, and nothing else is: %s" % [n for n, _ in ev], where(f))
            for n, v in ev:
                if n == SHIFT: c.tri(exactly(aggfield(c.P, v, "delta"), D), tag + ": distance", "the jump announced is the distance to the target", where(f))


def peers(c):
    P = c.P; f = c.fn(PLUG + "sync_p2p_peers"); pn = [P_(f.names[i]) for i in range(1, f.argc + 1)]
    by = lambda pat: next((P_(f.names[i]) for i in range(1, f.argc + 1) if re.search(pat, str(f.ltys[i]))), None)
    it_, sync, now, synced_ = by(r"Iterator"), by(r"LocalTimelineSync$"), by(r"TickInstant$"), by(r"^bool$"); D = P_("delta"); E = [P_("E%d" % i) for i in range(3)]; L = [P_("lead %d" % i) for i in range(3)]
    if None in (it_, sync, now, synced_): raise MissingAnchor("parameters of sync_p2p_peers")
    ESTS = [P_("est %d" % i) for i in range(3)]; DELTA = lambda v: strip(v) is D
    def which(v, pre): return next((int(str(x.args[0]).split()[1]) for x in subvals(v) if x.op == "p" and str(x.args[0]).startswith(pre)), None)
    def case(key, spec, order, ahead, synced, adj=None):
        """spec: per peer 'g' followed and heard, 'q' followed but quiet, 'u' not estimated yet, 'm' no longer connected; order: peers from least to most ahead; ahead: the last of them leads"""
        def get(it, st, fr, a, sym):
            x = deep(it.normarg(st, a[1]))
            if x not in E: return None
            i = E.index(x); return errv(P_("missing")) if spec[i] == "m" else okv(mk("agg", "()", "", (mk("&", P_("remote %d" % i)), mk("&", P_("pings %d" % i)))))
        def q(fn):
            def g(it, st, fr, a, sym):
                i = which(it.normarg(st, a[0]), "remote "); return None if i is None else fn(i)
            return g
        def lead(it, st, fr, a, sym):
            v = it.normarg(st, a[0]); i = which(v, "est "); t = terms(v)
            if i is None: return None
            if t != {now: 1, ESTS[i]: -1}: st.mon = st.mon + (("odd", None, (v,)),)
            return L[i]
        facts = [(synced_, synced)]
        for i, a in enumerate(order):
            for b in order[i + 1:]: facts += [(mk("flt", L[a], L[b]), True), (mk("flt", L[b], L[a]), False)]
        live = [i for i in order if spec[i] in "gq"]
        for i in order: facts += [(mk("flt", F0, L[i]), ahead and i == order[-1]), (mk("flt", L[i], F0), not (ahead and i == order[-1]))]
        stubs = seqs((r"\b%s\b" % it_.args[0], [E[i] for i in range(len(spec))])) + ARITH + [(r"Query(<.*>)?::get$", get), (r"is_initialized$", q(lambda i: const(spec[i] in "gq"))), (r"received_packet$", q(lambda i: const(spec[i] in "gu"))),
                 (r"current_estimate$", q(lambda i: ESTS[i])), (r"::to_f(32|64)$", lead), (RESYNC, D)] + ([(ADJ, mk("agg", SA, adj, (P_("ratio"),) if adj == "SpeedAdjust" else ()))] if adj else [])
        s = sc(c, key, f, ((TRIGGER, "trigger"), (ADJ, "adjust"), (RESYNC, "resync")), stubs, assume=lambda it: facts, paths=False, parts=300)
        tag = "peers: " + key; heard = any(spec[i] == "g" for i in range(len(spec))); ready = bool(spec) and all(x in "gq" for x in spec) and heard
        worst = live[-1] if live else None; up = ahead and worst is not None and worst == order[-1]
        sf, sp = fld(mk("*", sync), "is_synced"), fld(mk("*", sync), "relative_speed")
        for e in s.exitsv:
            if any(m[0] == "odd" for m in e.state.mon): c.bad(tag + ": lead", "how far a peer is led is the distance between the clocks", where(f)); continue
            ev = events_(e); rs, ad = calls_(e, "resync"), calls_(e, "adjust"); names = [n for n, _ in ev]
            if "?" in names: c.undecided(tag, "event not followed"); continue
            y = post(e, sf)
            if not synced:
                c.check(len(rs) == (1 if ready else 0) and names == ([SHIFT] if ready else []), tag + ": start", "the first alignment happens once, when every peer is estimated and one was heard: %s" % names, where(f)); c.check(not ad, tag + ": not paced", "a clock that is not aligned yet is not paced", where(f))
                c.tri((isbool(y) and bval(y) == True) if ready and (isbool(y) or y is sf) else (y is sf or (isbool(y) and bval(y) == False)) if isbool(y) or y is sf else None, tag + ": synchronised", "the clock is synchronised by its alignment, and not before", where(f))
                for a in rs:
                    want = ESTS[worst] if up else now
                    c.tri(all3_([is_(a[0], sync), is_(a[1], now), is_(a[2], want)]), tag + ": target", "a clock ahead of its peers goes back to the one furthest behind, any other stays: %s" % show(a[2])[:50], where(f))
                for n, v in ev:
                    if n == SHIFT: c.tri(exactly(aggfield(P, v, "delta"), D), tag + ": distance", "the jump announced is the distance to the target", where(f))
                if ready:
                    v = post(e, sp); c.tri(True if v is mk("c", "f", "1.0") else False if v is sp or v.op == "c" else None, tag + ": speed", "an alignment restores normal speed: %s" % show(v)[:40], where(f))
            else:
                do = heard and any(spec[i] == "g" for i in live)
                c.check(not rs and SHIFT not in names, tag + ": never jumps", "a running session never jumps", where(f))
                c.check(len(ad) == (1 if do else 0), tag + ": paced", "one pacing decision is taken in a frame in which a peer was heard, and none otherwise", where(f))
                c.check(names == ([DIVERGED] if do and adj == "Resync" else []), tag + ": divergence", "an error beyond the maximum is reported, and only that: %s" % names, where(f))
                for a in ad:
                    v = strip(a[2]); ok_ = v is L[worst] and up or v is F0 and not up or (v.op in ("max", "call") and {x for x in subvals(v) if x is not v} == {L[worst], F0} and "max" in str(v.args[0] if v.op == "call" else "max"))
                    c.tri(True if ok_ else False if v in L or v is F0 or all(x in L or x is F0 or x is v for x in subvals(v)) else None, tag + ": by whom", "the pace follows the peer led most, and never speeds up: %s" % show(v)[:60], where(f)); c.tri(is_(a[0], sync), tag + ": of the clock", "the clock paced is the local one", where(f))
                for n, v in ev:
                    if n == DIVERGED: c.tri(all3_([is_(aggfield(P, v, "limiting_link"), E[worst]), is_(aggfield(P, v, "lead"), L[worst])]), tag + ": named", "the peer named is the one led most", where(f))
                if do and adj == "Resync":
                    v = post(e, sp); c.tri(True if v is mk("c", "f", "1.0") else False if v is sp or v.op == "c" else None, tag + ": speed", "a clock that diverged runs at normal speed: %s" % show(v)[:40], where(f))
                c.tri(True if y is sf else bval(y) if isbool(y) else None, tag + ": stays", "a running session stays synchronised", where(f))
    for synced in (False, True):
        w = "running" if synced else "starting"
        for adj in (("DoNothing", "Resync", "SpeedAdjust") if synced else (None,)):
            k = "%s%s, " % (w, ", " + adj if adj else "")
            for ahead in (True, False):
                a = "ahead" if ahead else "behind"
                case(k + "one, " + a, "g", [0], ahead, synced, adj); case(k + "second led most, " + a, "gg", [0, 1], ahead, synced, adj); case(k + "first led most, " + a, "gg", [1, 0], ahead, synced, adj)
                case(k + "quiet one led most, " + a, "gq", [0, 1], ahead, synced, adj); case(k + "middle of three, " + a, "gqg", [0, 2, 1], ahead, synced, adj)
            case(k + "nobody", "", [], False, synced, adj); case(k + "all quiet", "qq", [0, 1], True, synced, adj); case(k + "one not estimated", "gu", [1, 0], True, synced, adj); case(k + "one not estimated, led most", "ug", [1, 0], True, synced, adj)
            case(k + "one gone", "gm", [1, 0], True, synced, adj); case(k + "first gone", "mg", [0, 1], True, synced, adj); case(k + "only one not estimated", "u", [0], True, synced, adj); case(k + "quiet and not estimated", "qu", [1, 0], True, synced, adj)


def dispatch(c):
    """whom the clock follows in each topology, and when it starts over"""
    P = c.P; f = c.fn(PLUG + "sync_timelines"); by = lambda pat: next((P_(f.names[i]) for i in range(1, f.argc + 1) if re.search(pat, str(f.ltys[i]))), None)
    meta, sync, p2p, remotes, lt = by(r"NetworkingMetadata"), by(r"LocalTimelineSync>"), by(r"Query<.*p2p::P2P"), by(r"Query<.*PingManager"), by(r"Res<lightyear_core::timeline::LocalTimeline>")
    if None in (meta, sync, p2p, remotes, lt): raise MissingAnchor("parameters of sync_timelines")
    P2 = next(a for a in P.adts if a.endswith("p2p::P2P")); E = [P_("E%d" % i) for i in range(3)]; S = [P_("state %d" % i) for i in range(3)]; NOW = P_("instant"); ONE = PLUG + "sync_client_server"
    ITER = r"Query(<.*>)?::(iter|iter_mut|into_iter)$|IntoIterator(<.*>)?::into_iter$"
    def case(key, states, changed, topo, members, topo_changed, synced, follow, reset, kind):
        """follow: entities looked up; kind: how ('one' / 'peers' / None)"""
        def iters(it, st, fr, a, sym):
            v = deep(it.normarg(st, a[0]))
            if v is p2p:
                n = sum(1 for m in st.mon if m[0] == "iter"); st.mon = st.mon + (("iter", None, ()),); return P_("iteration %d" % n)
            if v.op == "p" and str(v.args[0]).startswith("iteration "): return v
            return None
        def nxt(it, st, fr, a, sym):
            v = strip(it.normarg(st, a[0]))
            if v.op == "agg" and v.args[0].startswith("models::"): return None
            t = show(v); m = re.search(r"iteration (\d+)", t)
            if re.search(r"Iterator::(take|skip|step_by|rev|nth|last|filter|map)\(", t): return None
            key_ = m.group(0) if m else "members" if has(v, lambda y: y is meta) else None
            if key_ is None: return None
            es = [mk("agg", "()", "", (E[i], mk("&", S[i]))) for i in range(len(states))] if m else [mk("&", E[i]) for i in members]
            k = sum(1 for m_ in st.mon if m_[0] == "at" and m_[1] == key_)
            if k >= len(es): return NONE
            st.mon = st.mon + (("at", key_, ()),); return some(es[k])
        def is_changed(it, st, fr, a, sym):
            v = it.normarg(st, a[0]); i = next((i for i in range(3) if has(v, lambda y: y is S[i])), None)
            return const(i in changed) if i is not None else const(topo_changed) if has(v, lambda y: y is meta) else None
        def look(it, st, fr, a, sym):
            if not has(it.normarg(st, a[0]), lambda y: y is remotes): return None
            x = single_of(deep(it.normarg(st, a[1])), topo, members, E); st.mon = st.mon + (("look", None, (x,)),)
            i = E.index(x) if x in E else None
            return None if i is None else okv(mk("agg", "()", "", (mk("&", P_("remote %d" % i)), mk("&", P_("pings %d" % i)))))
        mode = fld(meta, "mode"); unit = mk("agg", "()", "", ())
        asm = lambda it: [(deq(mode, variant(P, NT_(P), topo)), True), (fld(sync, "is_synced"), synced)] + [(deq(S[i], variant(P, P2, x)), True) for i, x in enumerate(states)]
        s = sc(c, key, f, ((r"sync_client_server$", "one"), (ADJ, "adjust"), (RESYNC, "resync"), (r"(LocalTimelineSync|TimelineSync(<.*>)?)::reset$", "reset"), (TRIGGER, "trigger")),
               [(ITER, iters), (r"Iterator::next$", nxt), (r"::is_changed$", is_changed), (r"Query(<.*>)?::get$", look), (r"LocalTimeline::instant$", NOW), (r"sync_client_server$", unit), (r"is_initialized$", const(True)), (r"received_packet$", const(True)),
                (r"current_estimate$", lambda it, st, fr, a, sym: P_("est")), (r"::to_f(32|64)$", lambda it, st, fr, a, sym: P_("lead")), (RESYNC, P_("delta")), (ADJ, mk("agg", SA, "DoNothing", ())), (r"(LocalTimelineSync|TimelineSync(<.*>)?)::reset$", unit)] + ARITH,
               assume=asm, paths=False, parts=400, no_inline=[r"sync_client_server$"])
        tag = "following: " + key
        for e in s.exitsv:
            looked = [m[2][0] for m in e.state.mon if m[0] == "look"]
            if any(x not in E for x in looked): c.undecided(tag, "lookup not followed: %s" % [show(x)[:40] for x in looked]); continue
            got = [E.index(x) for x in looked]; ones, rs, ad, rt = (calls_(e, k) for k in ("one", "resync", "adjust", "reset"))
            c.check(sorted(set(got)) == sorted(follow), tag + ": who", "the clock follows the server, the candidates of a starting session or the peers of a running one: %s" % got, where(f))
            c.check(bool(rt) == reset, tag + ": starting over", "the clock starts over when those it follows change" if reset else "the clock starts over only when those it follows change", where(f))
            now_synced = (synced if not reset else synced and topo == "P2P")
            c.check(len(ones) == (1 if kind == "one" else 0), tag + ": server", "only the clock of a client follows a server", where(f))
            for a in ones: c.tri(all3_([True if any(strip(x) is NOW for x in a) else False, True if any(has(x, lambda y: y is P_("remote %d" % follow[0])) for x in a) else False, True if any(has(x, lambda y: y is P_("pings %d" % follow[0])) for x in a) else False]), tag + ": its clock", "the clock and the round trip compared are those of the server", where(f))
            if kind == "peers": c.check(bool(rs) == (not now_synced) and bool(ad) == now_synced, tag + ": phase", "a clock that is not aligned yet is aligned, an aligned one is paced", where(f))
            else: c.check(not rs and not ad, tag + ": alone", "with nothing to follow the clock is not adjusted", where(f))
            y = final(s, e, f, sync, "is_synced"); want = True if kind == "peers" and not now_synced else True if topo == "HostClient" and not any(x == "Candidate" for x in states) else now_synced
            g = boolof(s.it, e.state, y)
            if ones: continue
            c.tri(None if g is None else g == want, tag + ": synchronised", "a change of those followed leaves the clock unsynchronised, unless a session is running; a host is always synchronised: %s" % g, where(f))
    C, J, I = "Candidate", "Joined", "Inactive"
    for y in (True, False):
        w = "synchronised" if y else "not synchronised"
        case("client, " + w, [], [], "Client", [0], False, y, [0], False, "one"); case("client, changed, " + w, [], [], "Client", [0], True, y, [0], True, "one"); case("client with idle links, " + w, [I, J], [0, 1], "Client", [2], False, y, [2], False, "one")
        case("session, " + w, [J, J], [], "P2P", [0, 1], False, y, [0, 1], False, "peers"); case("session, changed, " + w, [J, J], [], "P2P", [0, 1], True, y, [0, 1], True, "peers"); case("session, links moved, " + w, [J, J, I], [0, 2], "P2P", [0, 1], False, y, [0, 1], False, "peers")
        case("candidates, " + w, [C, C], [], "Undefined", [], False, y, [0, 1], False, "peers"); case("a candidate among others, " + w, [J, C, I], [0], "Undefined", [], False, y, [1], False, "peers"); case("new candidate, " + w, [C, C], [1], "Undefined", [], False, y, [0, 1], True, "peers")
        case("candidates, changed, " + w, [C, J], [], "Undefined", [], True, y, [0], True, "peers"); case("candidate in a session, " + w, [J, C], [1], "P2P", [0], False, y, [1], True, "peers")
        case("host, " + w, [], [], "HostClient", [0, 1], False, y, [], False, None); case("host, changed, " + w, [], [], "HostClient", [0, 1], True, y, [], True, None); case("server, " + w, [], [], "Server", [0], False, y, [], False, None); case("nothing, changed, " + w, [], [], "Undefined", [], True, y, [], True, None)


def final(s, e, f, p, name):
    """the value a field of a resource has at the end of the path, where the resource is the parameter itself"""
    i = next(i for i in range(1, f.argc + 1) if p is P_(f.names[i])); a = post(e, fld(p, name))
    if a is not fld(p, name): return a
    for r in e.state.store:
        if r[0] == "L" and r[2] == i:
            ty = str(f.ltys[i]); ad = next((x for x in s.it.P.adts if ty.endswith(x + ">") or ty == x), None)
            fs = {x[0]: x[1] for vs in s.it.P.adts[ad]["vars"] for x in vs[2]} if ad else {}
            if name in fs: return s.it.rd(e.state, r, (("F", None, name, fs[name]),))
    return a
def NT_(P): return next(a for a in P.adts if a.endswith("::NetworkTopology"))
def single_of(x, topo, members, E):
    """the entity a field of the topology names"""
    i = {("Client", "0"): 0, ("Server", "0"): 0, ("HostClient", "server"): 0, ("HostClient", "client"): 1}.get((topo, str(x.args[2]))) if x.op == "f" and str(x.args[1]) == topo else None
    return x if i is None else E[members[i]]


def gametime(c):
    """the speed of game time in each topology"""
    P = c.P; f = c.fn(PLUG + "update_virtual_time"); by = lambda pat: next((P_(f.names[i]) for i in range(1, f.argc + 1) if re.search(pat, str(f.ltys[i]))), None)
    meta, wait, sync, p2p = by(r"NetworkingMetadata"), by(r"PredictionWindowWait"), by(r"LocalTimelineSync>"), by(r"Query<.*p2p::P2P")
    if None in (meta, wait, sync, p2p): raise MissingAnchor("parameters of update_virtual_time")
    P2 = next(a for a in P.adts if a.endswith("p2p::P2P")); S = [P_("state %d" % i) for i in range(3)]; SPEED = P_("speed asked for"); SET = r"set_relative_speed(_f64)?$"
    def case(topo, states, waiting, synced):
        stubs = seqs((r"\b%s\b" % p2p.args[0], [mk("&", S[i]) for i in range(len(states))])) + [(r"PredictionWindowWait::is_waiting$", const(waiting)), (r"::relative_speed$", SPEED), (r"::is_synced$", const(synced))]
        key = "%s%s%s%s" % (topo, " with " + ", ".join(states) if states else "", ", window used up" if waiting else "", "" if synced else ", not synchronised")
        s = sc(c, key, f, ((SET, "set"), (r"::(pause|unpause|set_max_delta)$", "other")), stubs, assume=lambda it: [(deq(fld(meta, "mode"), variant(P, NT_(P), topo)), True)] + [(deq(S[i], variant(P, P2, x)), True) for i, x in enumerate(states)], paths=False, parts=300)
        p2p_ = topo == "P2P" or "Candidate" in states
        want = "0.0" if synced and waiting and (topo == "Client" or p2p_) else "asked" if p2p_ or synced and topo in ("Client", "HostClient") else "1.0"
        for e in s.exitsv:
            a = calls_(e, "set"); c.check(not calls_(e, "other"), "game time: %s: only its speed" % key, "game time is neither paused nor capped here", where(f))
            if not a: c.bad("game time: %s: set" % key, "the speed of game time is set in every frame", where(f)); continue
            v = strip(a[-1][-1]); lits = {float(str(v.args[1]).split("_")[0].replace("f32", "").replace("f64", ""))} if v.op == "c" and v.args[0] == "f" else None
            got = True if (v is SPEED) == (want == "asked") and (lits is None or want != "asked" and lits == {float(want)}) and (lits or v is SPEED) else False if lits or v is SPEED or v.op == "f" else exactly(v, SPEED)
            c.tri(got, "game time: %s: speed" % key, "the speed the clock asks for while it follows someone, none while the window is used up, normal otherwise: %s" % show(v)[:40], where(f))
    for synced in (True, False):
        for waiting in (True, False):
            for topo in ("Client", "HostClient", "Server", "P2P", "Undefined", "Invalid"): case(topo, [], waiting, synced)
            case("P2P", ["Joined", "Joined"], waiting, synced); case("Undefined", ["Inactive", "Candidate"], waiting, synced); case("Undefined", ["Candidate"], waiting, synced); case("Undefined", ["Joined"], waiting, synced); case("Client", ["Inactive"], waiting, synced)


def connections(c):
    """what a connection does to the clock"""
    P = c.P
    for m, comp, tag, want in (("handle_connect", "Connected", "reset", "starts over"), ("handle_host_client", "HostClient", "set", True), ("handle_disconnect", "Disconnected", "set", False)):
        f = c.fn(PLUG + m); observes(c, f, "Add", comp); q = qname(f, "Client"); filters(c, f, q, need=("Client",), without=("P2P",))
        trig = next(P_(f.names[i]) for i in range(1, f.argc + 1) if re.search(r"\bOn<", str(f.ltys[i])))
        for hit in (True, False):
            def look(it, st, fr, a, sym):
                if not has(it.normarg(st, a[0]), lambda y: y is P_(q)): return None
                st.mon = st.mon + (("look", None, (deep(it.normarg(st, a[1])),)),); return okv(mk("agg", "()", "", ())) if hit else errv(P_("not one"))
            def within(it, st, fr, a, sym):
                if not has(it.normarg(st, a[0]), lambda y: y is P_(q)): return None
                st.mon = st.mon + (("look", None, (deep(it.normarg(st, a[1])),)),); return const(hit)
            s = sc(c, "%s %s" % (m, hit), f, ((r"LocalTimelineSync::reset$|TimelineSync(<.*>)?::reset$", "reset"), (r"::set_synced$", "set")), [(r"Query(<.*>)?::(get|get_mut)$", look), (r"Query(<.*>)?::contains$", within), (r"::reset$|::set_synced$", mk("agg", "()", "", ()))], paths=False)
            for e in s.exitsv:
                rs, st = calls_(e, "reset"), calls_(e, "set"); tg = "%s: %s" % (m, "a client" if hit else "any other link")
                if not hit: c.check(not rs and not st, tg + ": not concerned", "only the link of a client concerns the clock", where(f)); continue
                for mm in e.state.mon:
                    if mm[0] == "look": c.tri(True if has(mm[2][0], lambda y: y is trig) else None, tg + ": which", "the link that changed is the one looked up", where(f))
                if tag == "reset": c.check(len(rs) >= 1, tg + ": starts over", "a new connection starts the clock over", where(f)); c.check(all(isbool(strip(a[1])) and not bval(strip(a[1])) for a in st), tg + ": unsynchronised", "a new connection is not synchronised yet", where(f))
                else:
                    ws = st[-1:] if not rs else st; v = strip(ws[-1][1]) if ws else None
                    c.tri((None if not isbool(v) else bval(v) == want) if v is not None else (not want and bool(rs)), tg + ": synchronised", "a host is synchronised at once, a lost connection is not", where(f))


def shift(c):
    """a jump is applied once"""
    P = c.P; f = c.fn(PLUG + "handle_local_timeline_shift"); trig = next(P_(f.names[i]) for i in range(1, f.argc + 1) if re.search(r"\bOn<", str(f.ltys[i])))
    s = sc(c, "jump", f, ((r"LocalTimeline::apply_delta$", "apply"), (r"LocalTimeline::(apply_duration|set_\w+)$", "other")), [(r"LocalTimeline::apply_delta$", mk("agg", "()", "", ()))], paths=False)
    for e in s.exitsv:
        a = calls_(e, "apply"); c.check(len(a) == 1 and not calls_(e, "other"), "jump: once", "a jump moves the tick once", where(f))
        for x in a:
            v = deep(x[-1]); c.tri(True if v.op == "f" and v.args[2] == "delta" and has(v, lambda y: y is trig) else False if v.op == "f" else exactly(v, fld(mk("*", mk("*", trig)), "delta")) if not any(x.op == "f" and x.args[2] == "delta" for x in subvals(v)) else exactly(v, next(x for x in subvals(v) if x.op == "f" and x.args[2] == "delta")), "jump: distance", "a jump moves the tick by the distance announced: %s" % show(v)[:60], where(f))
    fs = [g for g in handlers(P)[0] if re.search(SHIFT, str(g.ltys[1])) and any("ResMut<" in str(g.ltys[i]) and "timeline::LocalTimeline>" in str(g.ltys[i]) for i in range(1, g.argc + 1))]
    c.check([g.name for g in fs] == [f.name], "jump: one observer", "only one observer of a jump moves the tick: %s" % [short(g) for g in fs], where(f))


def driven(c):
    E = ecs(c)
    for g0 in (CLIENTG, TS + "LocalTimelineSyncPlugin"):
        cl = E.closure(g0)
        for name, sched in ((PLUG + "sync_timelines", "PostUpdate"), (PLUG + "update_virtual_time", "Last")): place(c, E, E.graph(cl, sched), name, sched, g0.split("::")[-1])
    cl = E.closure(CLIENTG)
    reg = E.observers(cl)
    for n in (PLUG + "handle_connect", PLUG + "handle_host_client", PLUG + "handle_disconnect", PLUG + "handle_local_timeline_shift", TR_ + "update_remote_timeline", TR_ + "RemoteTimeline::handle_connect"):
        c.check(c.fn(n).name in reg, "client: %s listens" % n.split("::", 2)[-1], "what happens to a connection reaches the clock", where(c.fn(n)))
    REC = TI_ + "InputTimelineConfig::recompute_input_delay_on_"
    for n in ("local_timeline_shift", "config_update"): c.check(c.fn(REC + n).name in reg, "client: input delay on %s" % n, "the input delay is computed again when its inputs change", where(c.fn(REC + n)))
    for n, sched in (("lightyear_sync::timeline::remote::advance_remote_timeline", "PreUpdate"), ("lightyear_sync::timeline::remote::reset_received_packet_remote_timeline", "Last")): place(c, E, E.graph(cl, sched), c.fn(n).name, sched, "ClientPlugins")


@prop("C08", floor=450, explain="each function that moves the clock is executed symbolically for every topology and up to three peers (followed, quiet, not estimated, gone) in every order of their leads; calls to the controller, announcements and the speed set are logged per path and compared with the table of the property; registrations are read off the plugins")
def c08(c):
    one_client(c); peers(c); dispatch(c); gametime(c); connections(c); shift(c); driven(c)
