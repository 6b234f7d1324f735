"""Connection and link life cycle: component hooks, observers and systems, seen as the commands they issue."""
import re
from lib import *
import interp
from props import prop
from props.ecs import ecs, CLIENTG, SERVERG
from props.messages import requires, narrowing, qparts, origin, plain, pos

CN = "lightyear_connection::client::"; SV = "lightyear_connection::server::"; LK = "lightyear_link::"
HOOK = "bevy_ecs::component::Component"


def hooks(c, T, names=("on_add", "on_insert")):
    """functions the component runs when it is added / inserted, by hook name"""
    out = {}
    for n in names:
        for t, fid, im in c.P.impl_methods.get((HOOK, n), ()):
            if t != T: continue
            s = scen(c, "hooks", c.P.fns[fid])
            for e in s.it.events:
                if e.kind == "exit":
                    for x in subvals(e.val):
                        if x.op == "fn": out.setdefault(x.args[0], set()).add(n)
    return out


def entity_of(v):
    """the entity an EntityCommands value stands for"""
    for _ in range(12):
        v = strip(v)
        if v.op == "call":
            last = v.args[0].split("::")[-1]
            if re.search(r"Commands::(entity|get_entity)$", v.args[0]): return strip(v.args[1][1])
            if v.args[1]: v = v.args[1][0]; continue
            return None
        if v.op in ("f", "*", "&"): v = v.args[0]; continue
        return None
    return None


def parts(v, ty=None):
    """components of a bundle value: [(type, value or None)]"""
    v0 = v; v = strip(v)
    if v.op == "agg" and v.args[0] in ("()", "tuple", ""):
        ts = interp.tysplit(ty[1:-1]) if ty and ty.startswith("(") else []
        if len(ts) != len(v.args[2]): ts = [None] * len(v.args[2])
        return [p for x, t in zip(v.args[2], ts) for p in parts(x, t)]
    if v.op == "agg": return [(v.args[0], v)]
    if ty and ty.startswith("("): return [(t, None) for t in interp.tysplit(ty[1:-1])]
    if ty: return [(interp.typarse(ty)[0], v)]
    if v.op == "call" and v.args[0].endswith("Default::default") and v.args[1] and strip(v.args[1][0]).op == "ty":
        return [(interp.typarse(strip(v.args[1][0]).args[0])[0], v)]
    return [("?", v)]


EC = r"EntityCommands::(insert|try_insert|insert_if_new|remove|try_remove|despawn|try_despawn)$"
SELF = [(r"EntityCommands::(insert|try_insert|insert_if_new|remove|try_remove)$", lambda it, st, fr, a, sym: a[0])]      # these hand back the commands they were called on
def recorder(extra=()):
    """monitor: the commands issued along the path, in order, without repetitions"""
    def mon(it, st, kind, info):
        if kind != "call": return
        names, args, fr, bb = info
        n = next((x for x in names if re.search(EC, x)), None)
        a = [it.normarg(st, x) for x in args]
        r = None
        if n:
            op = n.split("::")[-1]; op = op.replace("try_", "")
            ent = entity_of(a[0])
            if op in ("insert", "insert_if_new"): r = (op, ent, tuple(parts(a[1], it.cur_ta[0] if it.cur_ta else None)))
            elif op == "remove":
                t = it.cur_ta[0] if it.cur_ta else "?"
                r = ("remove", ent, tuple(interp.tysplit(t[1:-1])) if t.startswith("(") else (t,))
            else: r = ("despawn", ent, ())
        else:
            for pat, op in extra:
                if any(re.search(pat, x) for x in names): r = (op, None, tuple(a)); break
        if r is not None and r not in st.mon: st.mon = st.mon + (r,)
    return mon


TRIG = [(r"Commands::trigger$", "trigger"), (r"DeferredWorld::trigger", "trigger"), (r"collections::hash_map::HashMap::insert$|hash_map::HashMap<.*>::insert$", "map_insert"), (r"hash_map::HashMap::remove$", "map_remove")]
def play(c, key, f, extra=(), events=(), **kw):
    """run f recording its commands"""
    ex = list(TRIG) + list(extra); kw["stubs"] = list(kw.get("stubs", ())) + SELF
    s = scen(c, key, f, monitor=recorder(ex), events=[EC] + [p for p, _ in ex] + list(events), **kw)
    s.exitsv = [e for e in s.it.events if e.kind == "exit"]
    return s


def inserted(e, T, ent=None):
    """(value,) when the path inserted T (on ent)"""
    for op, n, ps in e.state.mon:
        if op == "insert" and (ent is None or n == ent):
            for t, v in ps:
                if t == T or t.split("<")[0] == T: return (v,)
    return None


def removed(e, ent):
    return {t for op, n, ts in e.state.mon if op == "remove" and n == ent for t in ts}


def name(it, i): return it


def paramval(f, i):
    return mk("p", f.names[i])


STATES = {
    CN: {"Connected": ("Connecting", "Disconnecting", "Disconnected"), "Connecting": ("Connected", "Disconnecting", "Disconnected"),
         "Disconnecting": ("Connected", "Connecting", "Disconnected"), "Disconnected": ("Connecting", "Disconnecting", "Connected")},
    SV: {a: tuple(b for b in ("Starting", "Started", "Stopping", "Stopped") if b != a) for a in ("Starting", "Started", "Stopping", "Stopped")},
    LK: {a: tuple(b for b in ("Linking", "Linked", "Unlinked") if b != a) for a in ("Linking", "Linked", "Unlinked")},
}


def hookent(f):
    """the entity a hook runs for"""
    i = next((i for i in range(1, f.argc + 1) if "HookContext" in f.ltys[i]), None)
    if i is None: raise MissingAnchor("%s is not a component hook" % short(f))
    return i


def is_ent(f, v):
    """v is context.entity"""
    if v is None: return None
    v = strip(v)
    if v.op == "f" and str(v.args[2]) == "entity" and strip(v.args[0]).op == "p": return True
    if v.op == "f" and strip(v.args[0]).op == "p": return False
    return None


def exclusive(c, mod):
    for st, others in STATES[mod].items():
        T = mod + st
        hs = hooks(c, T)
        c.check(bool(hs), "%s has a hook" % T, "entering a state leaves the others", T)
        total = {}
        for h in hs:
            f = c.fn(h); hookent(f)
            s = play(c, "enter " + st, f)
            if not s.exitsv: c.undecided(T, "no exit"); continue
            for e in s.exitsv:
                # a link that is already up ignores a late Linking
                if st == "Linking" and any(b and l.op == "deq" and has_call(l, r"World::get$") and has(l, lambda x: x.op == "ty" and x.args[0].endswith("::Linked")) and l.args[1] == 1 for l, b in literals(e.state)): continue
                got = set(); odd = False
                for op, n, ts in e.state.mon:
                    if op == "remove":
                        if is_ent(f, n): got |= set(ts)
                        elif is_ent(f, n) is None: odd = True
                key = "%s: entering %s" % (short(f), st)
                for o in others:
                    if mod + o in got: c.ok(key + " removes " + o, "the states are exclusive")
                    elif odd: c.undecided(key + " removes " + o, "unknown entity")
                    else: c.bad(key + " removes " + o, "an entity is in one state at a time: [%s]" % ", ".join(("" if b else "!") + show(l)[-60:] for l, b in literals(e.state)), "%s:%s (%s)" % (f.file, f.line, f.name))
                c.check(T not in got, key + " keeps " + st, "the state entered stays", "%s:%s (%s)" % (f.file, f.line, f.name))
                for op, n, ps in e.state.mon:
                    if op == "insert":
                        for t, v in ps: c.check(t not in {mod + o for o in others}, key + " does not enter %s" % t, "the states are exclusive", f.name)


@prop("K01", floor=40, explain="the component hooks of the eight connection states are executed symbolically; on every path the other states of the group are removed from the same entity")
def k01(c):
    exclusive(c, CN); exclusive(c, SV)
    # the initial state: what a client component requires
    for T in ("lightyear_netcode::client_plugin::NetcodeClient",):
        req = required(c, T)
        c.check(CN + "Disconnected" in req, "%s starts disconnected" % T, "a client entity is in a connection state from the start", T)


def required(c, T):
    out = set()
    for t, fid, im in c.P.impl_methods.get((HOOK, "register_required_components"), ()):
        if t == T:
            s = scen(c, "required", c.P.fns[fid], events=[r"register_required"])
            for e in s.it.events:
                if e.kind == "call" and e.ta: out.add(e.ta[0])
    return out


# ------------------------------------------------------------------------------------------------ observers as condition -> commands
QGET = r"system::query::Query::(get|get_mut|single|single_mut|contains)$"
def on_query(sel):
    """stub for query lookups: sel = {parameter: True found / False not found}; others stay open"""
    def g(it, st, fr, a, sym):
        q = strip(it.normarg(st, a[0])); n = str(q.args[0]) if q.op == "p" else None
        if n not in sel or sel[n] is None: return None
        base = mk("call", "bevy_ecs::system::query::Query::get", tuple(it.normarg(st, x) for x in a), None)
        return okv(mk("f", base, "Ok", "0")) if sel[n] else errv(mk("f", base, "Err", "0"))
    return g
# the entity looked up still exists
ALIVE = (r"Commands::get_entity$", lambda it, st, fr, a, sym: okv(mk("call", "bevy_ecs::system::Commands::entity", tuple(it.normarg(st, x) for x in a), None)))
def case(c, key, f, sel, extra=(), **kw):
    return play(c, key, f, extra=extra, stubs=[(r"system::query::Query::(get|get_mut|single|single_mut)$", on_query(sel)), ALIVE] + kw.pop("stubs", []), **kw)


def observes(c, f, kind, *comps):
    """the observer runs for that event (and component)"""
    t = f.ltys[1] if isinstance(f.ltys[1], str) else f.ty(f.ltys[1])
    h, a = interp.typarse(t)
    a = [x if isinstance(x, str) else interp.tystr(x) for x in a]
    c.check(bool(a) and a[0].split("::")[-1] == kind, "%s: runs on %s" % (short(f), kind), "the observer reacts to the right event: %s" % t, "%s:%s (%s)" % (f.file, f.line, f.name))
    if comps:
        got = set(x.split("::")[-1] for x in (interp.tysplit(a[1][1:-1]) if a[1].startswith("(") else [a[1]])) if len(a) > 1 else set()
        for k in comps: c.check(k in got, "%s: runs on %s of %s" % (short(f), kind, k), "the observer reacts to the right component: %s" % t, "%s:%s (%s)" % (f.file, f.line, f.name))


def target(v):
    """v is the entity the event is about: True / False / None"""
    if v is None: return None
    v = strip(v)
    if v.op == "f" and str(v.args[2]) == "entity":
        r = strip(v.args[0])
        if r.op == "p": return True
        return False if plain(v) else None
    if v.op == "call" and re.search(r"event_target$|::entity$|::target$", v.args[0]): return True
    return False if plain(v) else None


def did(e, op, pred):
    """a recorded command of this kind satisfies pred: True, False (certainly none does) or None"""
    r = False
    for o, n, a in e.state.mon:
        if o != op: continue
        x = pred(n, a)
        if x is True: return True
        if x is None: r = None
    return r


def ins(T, ent=target, val=None):
    """command inserting component T on an entity satisfying ent, with a value satisfying val"""
    def p(n, ps):
        r = False
        for t, v in ps:
            if t == T or t.split("<")[0] == T:
                a = [ent(n)] + ([val(v)] if val and v is not None else [None] if val else [])
                if all(x is True for x in a): return True
                if any(x is False for x in a): continue
                r = None
            elif t == "?": r = None
        return r
    return "insert", p
def rem(T, ent=target):
    def p(n, ts):
        if any(t == T for t in ts): return ent(n)
        return False
    return "remove", p
def event(T, **fields):
    """command triggering event T with those fields"""
    def p(n, a):
        r = False
        for v in a[1:]:
            v = strip(v)
            if v.op == "agg" and v.args[0] == T:
                xs = []
                for k, w in fields.items():
                    x = aggfield(p.P, v, k)
                    xs.append(None if x is None else w(x))
                if all(x is True for x in xs): return True
                if not any(x is False for x in xs): r = None
            elif v.op != "agg": r = None
        return r
    return "trigger", p


def must(c, s, cmds, why, where=None, pred=None):
    """every exit (satisfying pred) has issued the commands {label: (op, predicate)}"""
    f = s.f; es = [e for e in s.exitsv if pred is None or pred(e)]
    for lab, (op, p) in cmds.items():
        p.P = c.P
        k = "%s: %s: %s" % (short(f), s.key, lab)
        if not es: c.undecided(k, "no exit"); continue
        rs = [(e, did(e, op, p)) for e in es]
        bad = [e for e, r in rs if r is False]
        if bad: c.bad(k, "%s; path: [%s]" % (why, ", ".join(("" if b else "!") + show(l)[-60:] for l, b in literals(bad[0].state))[-200:]), "%s:%s (%s)" % (f.file, f.line, f.name))
        elif any(r is None for _, r in rs): c.undecided(k, why)
        else: c.ok(k, why)


def nothing(c, s, why, ops=("insert", "remove", "despawn", "trigger", "map_insert", "map_remove"), but=None):
    """no command of that kind is issued on any path"""
    f = s.f
    for e in s.exitsv:
        x = [m for m in e.state.mon if m[0] in ops and not (but and but(m))]
        if x:
            c.bad("%s: %s: changes nothing" % (short(f), s.key), "%s: %s" % (why, [(o, str(a)[:60]) for o, n, a in x][:3]), "%s:%s (%s)" % (f.file, f.line, f.name)); return
    if s.exitsv: c.ok("%s: %s: changes nothing" % (short(f), s.key), why)
    else: c.undecided("%s: %s: changes nothing" % (short(f), s.key), "no exit")


class Each:
    """typestate per loop iteration: the commands issued for one element, checked when the next element is asked for"""
    def __init__(self, nextpat, needs, extra=()):
        self.rec = recorder(list(TRIG) + list(extra)); self.watching = (EC, nextpat) + tuple(p for p, _ in list(TRIG) + list(extra)); self.np = re.compile(nextpat); self.needs = needs; self.errs = {}; self.un = set(); self.n = 0
    def __call__(self, it, st, kind, info):
        if kind == "call":
            names, args, fr, bb = info
            a = [it.normarg(st, x) for x in args]
            if any(self.np.search(n) for n in names) and not any(re.search(r"::into_iter$|::iter$", n) for n in names):
                if st.mon and st.mon[0] == "in":
                    self.n += 1
                    for lab, p in self.needs.items():
                        r = p(it, st, st.mon[1:])
                        if r is False and it.recording: self.errs.setdefault(lab, "%s:%s (%s)" % (fr.fn.file, fr.fn.bb[bb][2] if fr.fn.bb[bb] else fr.fn.line, fr.fn.name))
                        elif r is None: self.un.add(lab)
                st.mon = ("in",); return
        self.rec(it, st, kind, info)
    def report(self, c, f, key, why):
        for lab in self.needs:
            k = "%s: %s: each: %s" % (short(f), key, lab)
            if lab in self.errs: c.bad(k, why, self.errs[lab])
            elif not self.n or lab in self.un: c.undecided(k, why)
            else: c.ok(k, why)
def need(op, p, skip=None):
    """iteration predicate: a command of that kind was issued for the element (unless skip(st))"""
    def g(it, st, cmds):
        p.P = it.P if hasattr(it, "P") else it.prog
        r = False
        for m in cmds:
            if m[0] != op: continue
            x = p(m[1], m[2])
            if x is True: return True
            if x is None: r = None
        if r is False and skip and skip(it, st): return True
        return r
    return g


def fld_is(*path, root=None):
    """value predicate: the named field path (of a parameter)"""
    def g(v):
        fs = []; v = strip(v)
        while v.op in ("f", "*", "&"):
            if v.op == "f" and str(v.args[2]) not in ("0",): fs.append(str(v.args[2]))
            v = strip(v.args[0])
        fs = tuple(reversed(fs))
        if fs[-len(path):] == path: return True if root is None else (re.search(root, show(v)) is not None)
        return False if plain(v) or v.op in ("p", "call", "c", "agg") else None
    return g
def is_variant(adt, var, *args):
    """value predicate: enum value adt::var(args..)"""
    def g(v):
        v = strip(v)
        if v.op != "agg": return None
        if not v.args[0].endswith(adt) or v.args[1] != var: return False
        rs = [p(x) for p, x in zip(args, v.args[2])]
        return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    return g
def reason(P, p):
    """value predicate: struct with field `reason` satisfying p"""
    def g(v):
        v = strip(v)
        if v.op != "agg": return None
        x = aggfield(P, v, "reason")
        return None if x is None else p(x)
    return g


# ------------------------------------------------------------------------------------------------ K02
MAPG = r"HashMap(<.*>)?::(get|contains_key|get_mut)$"
def peer_key_of(f, v):
    """v is the RemoteId of the hook's own entity"""
    v0 = strip(v)
    calls = [x for x in subvals(v0) if x.op == "call" and re.search(r"World::get(_mut)?$|EntityRef::get$|World::entity$", x.args[0])]
    if any(re.search(r"RemoteId", show(a)) for x in calls for a in x.args[1]) and calls:
        rs = [is_ent(f, a) for x in calls for a in x.args[1][1:2]]
        return True if all(r is True for r in rs) else False if any(r is False for r in rs) else None
    if v0.op == "agg": return False
    return None


@prop("K02", floor=9, explain="the hooks that change the peer table are executed symbolically; insertions use the entity's own remote id, removals are guarded by the table naming that entity, and no other code changes the table")
def k02(c):
    P = c.P
    server = lambda v: (strip(v).args[1] == "Server") if strip(v).op == "agg" else None
    peer = {}
    hs = sorted(hooks(c, CN + "Connected"))
    for h in hs:
        f = c.fn(h); hookent(f); peer[h] = "ins"
        s = play(c, "with the table", f, stubs=[(r"DeferredWorld::get_resource_mut$|World::get_resource_mut$", lambda it, st, fr, a, sym: some(mk("f", sym, "Some", "0")))])
        must(c, s, {"maps the peer to the entity": ("map_insert", lambda n, a: all3([peer_key_of(f, a[1]), is_ent(f, a[2])]))}, "the table leads from a connected peer to its entity")
    for h in sorted(hooks(c, CN + "Disconnected")): own_removal(c, h, peer, None)
    for h in sorted(hooks(c, SV + "Started")):
        f = c.fn(h); peer[h] = "ins"
        s = play(c, "enter Started", f)
        must(c, s, {"maps the server": ("map_insert", lambda n, a: all3([server(a[1]), is_ent(f, a[2])]))}, "the table leads to the started server")
    for h in sorted(hooks(c, SV + "Stopped")): own_removal(c, h, peer, server)
    for st in ("Starting", "Started", "Stopping", "Stopped"):
        d = hooks(c, SV + st, ("on_despawn", "on_remove"))
        c.check(bool(d), "%s: despawn forgets the server" % st, "the table does not lead to an entity that is gone", SV + st)
        for h in sorted(d): own_removal(c, h, peer, server)
    # nobody else changes the table
    for f in sorted(P.fns.values(), key=lambda f: f.name):
        if not f.name.startswith(("lightyear_", "<lightyear_")) or "CALLSITE" in f.name or "::test" in f.name: continue
        for b, line, k, pl in places(f):
            if any(isinstance(p, list) and p[0] == "f" and p[2] == "peer_map" for p in pl[1:]):
                t = topfn(P, f).name
                if t in peer or k in ("copy", "move", "ref", "use"): continue
                if k in ("mutref", "refmut", "write", "dest", "call"): c.check(reaches(P, t, peer), "%s changes the peer table" % short(f), "only the connection hooks do", "%s:%s (%s)" % (f.file, line, f.name))


def reaches(P, t, roots):
    """t is only called, directly or through helpers, from the hooks"""
    if not P.fn(t, opt=True): return False
    up, left = callers_up(P, t, set(roots))
    return bool(up & set(roots)) and not left


def all3(xs):
    return True if all(x is True for x in xs) else False if any(x is False for x in xs) else None


def bare(v):
    """value without references, as text"""
    return re.sub(r"[&*]|#\d+", "", show(strip(v)))
def eqstub(neg):
    """comparison of entities (or options of them) by structure: `other` differs from every entity of the hook"""
    def g(it, st, fr, a, sym):
        x, y = (bare(it.normarg(st, v)) for v in a[:2])
        if x == y: r = True
        elif "other" in (x + y) or ("None" in x) != ("None" in y): r = False
        else: return None
        return const(r != neg)
    return g
EQS = [(r"cmp::PartialEq(<.*>)?::eq$", eqstub(False)), (r"cmp::PartialEq(<.*>)?::ne$", eqstub(True))]


def own_removal(c, h, peer, keypred):
    """the hook removes the entry of its peer exactly when the table names its entity"""
    f = c.fn(h); hookent(f); peer[h] = "rem"
    me = mk("f", mk("p", f.names[hookent(f)]), None, "entity")
    where = "%s:%s (%s)" % (f.file, f.line, f.name)
    def run(key, got):
        mine = lambda it, st, fr, a, sym: some(mk("&", mk("f", mk("call", "bevy_ecs::world::World::get", tuple(it.normarg(st, x) for x in a) + (mk("ty", (it.cur_ta or ["?"])[0]),), None), "Some", "0")))
        return play(c, key, f, stubs=[(r"HashMap(<.*>)?::get$", some(mk("&", got))), (r"HashMap(<.*>)?::contains_key$", const(True)), (r"World::get$", mine)] + EQS, events=[r"::(retain|extract_if|remove_entry|entry|remove_if)$", MAPG])
    for key, got in (("its own entry", me), ("the entry of another entity", mk("p", "other"))):
        s = run(key, got)
        odd = s.ev(r"::(retain|extract_if|remove_entry|entry|remove_if)$")
        k = "%s: %s" % (short(f), key)
        if not s.exitsv or odd: c.undecided(k, "other form of removal"); continue
        for e in s.exitsv:
            rs = [(keypred(m[2][1]) if keypred else peer_key_of(f, m[2][1])) for m in e.state.mon if m[0] == "map_remove"]
            back = any(m[0] == "map_insert" for m in e.state.mon)
            if got is me:
                if any(r is True for r in rs): c.ok(k + ": removed", "the table forgets a peer that disconnects")
                elif any(r is None for r in rs): c.undecided(k + ": removed", "key")
                else: c.bad(k + ": removed", "the table forgets a peer that disconnects", where)
            elif rs and not back: c.bad(k + ": kept", "another entity's entry is kept", where)
            elif rs: c.undecided(k + ": kept", "removed and put back")
            else: c.ok(k + ": kept", "another entity's entry is kept")


# ------------------------------------------------------------------------------------------------ K05 coupling of link and connection
CCP = "lightyear_connection::client::ConnectionPlugin::"; SCP = "lightyear_connection::server::ConnectionPlugin::"
RCP = "lightyear_raw_connection::client::RawConnectionPlugin::"; RSP = "lightyear_raw_connection::server::RawConnectionPlugin::"
LINKSTART = "lightyear_link::LinkStart"; UNLINK = "lightyear_link::Unlink"
def from_unlinked(v):
    """the reason read from the entity's own Unlinked component"""
    v = strip(v)
    if v.op == "f" and str(v.args[2]) == "reason": return True if has_call(v, r"Query::") else None
    if v.op == "agg": return False
    return None
def trig_reason(v):
    """the reason carried by the event"""
    v = strip(v)
    if any(x.op == "f" and str(x.args[2]) == "reason" for x in subvals(v)): return True
    if v.op == "agg" or (v.op == "call" and v.args[0].endswith("Default::default")): return False
    return None


def filters(c, f, q, need=(), without=(), also=()):
    allowed = {(True, x) for x in need} | {(False, x) for x in without} | {(not x.startswith("!"), x.lstrip("!")) for x in also}
    t = f.ltys[1] if isinstance(f.ltys[1], str) else f.ty(f.ltys[1])
    if re.search(r"\bOn<", t): allowed |= {(True, x.split("::")[-1]) for x in re.findall(r"[\w:]+", t)}
    for w, x in sorted(narrowing(f, q) - allowed):
        c.bad("%s: not only %s %s" % (short(f), "with" if w else "without", x), "the rule is for every such entity, %s %s as well" % ("without" if w else "with", x), "%s:%s (%s)" % (f.file, f.line, f.name))
    c.ok("%s: for all of %s" % (short(f), q), "the rule is not narrowed to part of the entities")
    for x in need:
        r = requires(f, q, x)
        k = "%s: only with %s" % (short(f), x)
        (c.ok if r else c.undecided if r is None else c.bad)(*((k, "the rule is about entities with that component") + (("%s:%s (%s)" % (f.file, f.line, f.name),) if r is False else ())))
    for x in without:
        r = requires(f, q, x, without=True)
        k = "%s: only without %s" % (short(f), x)
        (c.ok if r else c.undecided if r is None else c.bad)(*((k, "the rule is about entities without that component") + (("%s:%s (%s)" % (f.file, f.line, f.name),) if r is False else ())))


def qname(f, *types):
    """the query parameter whose data or filter mentions all the types"""
    for i in range(1, f.argc + 1):
        t = f.ltys[i] if isinstance(f.ltys[i], str) else f.ty(f.ltys[i])
        if "query::Query<" in t and all(re.search(r"\b%s\b" % x, t) for x in types): return f.names[i]
    raise MissingAnchor("%s has no query over %s" % (short(f), ", ".join(types)))


@prop("K05", floor=30, explain="each observer that couples links and connections is executed symbolically with its query matching and not matching; the commands on every path are compared with the rule")
def k05(c):
    P = c.P
    for fn in (CCP + "connect", SCP + "start"):
        f = c.fn(fn); observes(c, f, "Connect" if "client" in fn else "Start")
        must(c, play(c, "requested", f), {"starts the link": event(LINKSTART, entity=target)}, "connecting or starting opens the link of the same entity")
    f = c.fn(CCP + "disconnect_if_link_fails"); observes(c, f, "Add", "Unlinked"); q = qname(f, "Unlinked")
    s = case(c, "link lost", f, {q: True})
    must(c, s, {"disconnected with the link's reason": ins(CN + "Disconnected", val=reason(P, is_variant("DisconnectedReason", "LinkFailed", from_unlinked)))}, "a connection does not outlive its link")
    nothing(c, case(c, "not concerned", f, {q: False}), "entities that are already disconnected keep their reason, and servers are stopped instead")
    filters(c, f, q, without=("Disconnected", "Server"))
    f = c.fn(SCP + "stop_if_link_fails"); observes(c, f, "Add", "Unlinked"); q = qname(f, "Started")
    must(c, case(c, "link lost", f, {q: True}), {"stopped": ins(SV + "Stopped")}, "a server does not outlive its link")
    nothing(c, case(c, "not concerned", f, {q: False}), "only started servers stop")
    filters(c, f, q, need=("Server", "Started"))
    # the link itself
    f = c.fn("lightyear_link::LinkPlugin::unlink"); observes(c, f, "Unlink")
    s = play(c, "entity alive", f, stubs=[ALIVE])
    must(c, s, {"unlinked with the reason given": ins(LK + "Unlinked", val=reason(P, trig_reason))}, "unlinking is recorded with its reason")
    f = c.fn("lightyear_link::server::Server::unlinked"); observes(c, f, "Add", "Unlinked"); q = qname(f, "Server", "Unlinked")
    el = lambda v: elem(v)
    ad = Each(r"Iterator::next$|::next$", {
        "told to unlink, for the server's reason": need("trigger", event(UNLINK, entity=elem, reason=from_unlinked)[1]),
        "despawned": need("despawn", lambda n, a: elem(n))})
    s = scen(c, "server link lost", f, monitor=ad, stubs=[ALIVE, (r"system::query::Query::(get|get_mut)$", on_query({q: True}))])
    ad.report(c, f, "server link lost", "clients do not outlive the server's link"); s.exhausts("every client link of the server is closed")
    nothing(c, case(c, "not a server", f, {q: False}), "only a server closes client links")
    # connection layers where link and connection are one
    f = c.fn(RCP + "on_linked"); observes(c, f, "Add", "Linked"); q = qname(f, "RawClient")
    filters(c, f, q, need=("RawClient",), also=("LocalAddr",))
    must(c, case(c, "linked", f, {q: True}), {"connected": ins(CN + "Connected"), "local id: its own or else its address": ins(LID, val=own_or(is_variant("PeerId", "Raw", lambda v: True if has_call(v, r"Query::get") else None))), "remote id: its own or else the server": ins(RID, val=own_or(is_variant("PeerId", "Server")))}, "a raw client is connected as soon as it is linked, with both ids")
    nothing(c, case(c, "not a raw client", f, {q: False}), "other entities are left alone")
    f = c.fn(RCP + "on_disconnect"); observes(c, f, "Disconnect"); q = qname(f, "RawClient")
    must(c, case(c, "requested", f, {q: True}), {"unlinks": event(UNLINK, entity=target, reason=is_variant("UnlinkReason", "UserRequested"))}, "disconnecting a raw client closes its link")
    nothing(c, case(c, "not a raw client", f, {q: False}), "other entities are left alone")
    filters(c, f, q, need=("RawClient",), also=("!Disconnected",))
    f = c.fn(RSP + "on_server_linked"); observes(c, f, "Add", "Linked"); q = qname(f, "RawServer")
    must(c, case(c, "linked", f, {q: True}), {"started": ins(SV + "Started")}, "a raw server is started as soon as it is linked")
    nothing(c, case(c, "not a raw server", f, {q: False}), "other entities are left alone")
    f = c.fn(RSP + "on_link_of_linked"); observes(c, f, "Add", "Linked"); ql = qname(f, "LinkOf"); qs = qname(f, "RawServer")
    s = case(c, "client linked", f, {ql: True, qs: True})
    must(c, s, {"connected": ins(CN + "Connected"), "is a client of the server": ins("lightyear_connection::client_of::ClientOf"),
                "local id is the server": ins(LID, val=ctor0(is_variant("PeerId", "Server"))), "remote id is its address": ins(RID, val=ctor0(is_variant("PeerId", "Raw", lambda v: True if has_call(v, r"Query::get") and fieldend(v, "0") else None)))},
         "a client of a raw server is connected as soon as it is linked, under its address")
    nothing(c, case(c, "other server", f, {ql: True, qs: False}), "clients of other servers are left alone")
    nothing(c, case(c, "not a client link", f, {ql: False}), "other entities are left alone")
    f = c.fn(RSP + "on_stop"); observes(c, f, "Stop"); q = qname(f, "RawServer")
    must(c, case(c, "requested", f, {q: True}), {"unlinks": event(UNLINK, entity=target, reason=is_variant("UnlinkReason", "ServerStopped")), "stopping": ins(SV + "Stopping")}, "stopping a raw server closes its link")
    nothing(c, case(c, "not a raw server", f, {q: False}), "other entities are left alone")


LID = "lightyear_core::id::LocalId"; RID = "lightyear_core::id::RemoteId"
def ctor0(p):
    """value predicate on the content of a tuple struct"""
    def g(v):
        v = strip(v)
        if v.op == "agg" and v.args[2]: return p(v.args[2][0])
        return None
    return g
def own_or(p):
    """value predicate: read from the entity, or a tuple struct with such content"""
    def g(v):
        v = strip(v)
        if v.op == "agg": return ctor0(p)(v)
        return True if has_call(v, r"Query::get") else None
    return g
def fieldend(v, n): v = strip(v); return v.op == "f" and str(v.args[2]) == n
def elem(v):
    """v is the element the loop is at"""
    if v is None: return None
    v = strip(v)
    while v.op in ("f", "*", "&"):
        if v.op == "f" and str(v.args[1]) not in ("Some", "None") and not (str(v.args[2]) in ("0", "entity")): return False if plain(v) else None
        v = strip(v.args[0])
    if v.op == "call" and re.search(r"::next$", v.args[0]): return True
    if v.op == "p": return False
    return None


# ------------------------------------------------------------------------------------------------ systems over given elements
def item(f, q, given):
    """one element of the query parameter q, laid out as its data type says: {component regex: value (bool for Has / presence)}"""
    data, _ = qparts(f, q)
    ts = interp.tysplit(data[1:-1]) if data.startswith("(") else [data]
    out = []
    for t in ts:
        m = re.match(r"(?:[\w:]*::)?(Option|Has)<(.*)>$", t)
        base = re.sub(r"^&(mut )?", "", m.group(2) if m else t)
        v = next((w for p, w in given.items() if re.search(r"(^|::)%s$" % p, base)), None)
        if v is None: v = mk("p", "item " + base.split("::")[-1])
        if m and m.group(1) == "Has": v = const(v) if isinstance(v, bool) else v
        elif m: v = NONE if v is False else some(mk("p", "item " + base.split("::")[-1])) if v is True else some(v)
        out.append(v)
    return mk("agg", "()", "", tuple(out)) if data.startswith("(") else out[0]
def seqs(*srcs):
    """stub for iterators: [(pattern on the iterated value, elements)]; each is yielded in order, then None"""
    def g(it, st, fr, a, sym):
        v = strip(it.normarg(st, a[0])); s = show(v)
        if v.op == "agg" and v.args[0].startswith("models::"): return None
        if re.search(r"Iterator::(take|skip|step_by|rev|peekable|cycle|scan|flat_map|flatten|chunks\w*|nth|last)\(", s): return None
        for i, (p, elems) in enumerate(srcs):
            if re.search(p, s):
                k = sum(1 for m in st.mon if m[0] == "it" and m[1] == i)
                if k >= len(elems): return NONE
                st.mon = st.mon + (("it", i, k),)
                return some(elems[k])
        v = strip(it.normarg(st, a[0]))
        if v.op == "agg" and v.args[0].endswith("::Range") and all(isint(x) for x in v.args[2]):
            lo, hi = (ival(x) for x in v.args[2]); key = "%s %s" % (s, fr.ctx)
            k = sum(1 for m in st.mon if m[0] == "range" and m[1] == key)
            if lo + k >= hi: return NONE
            st.mon = st.mon + (("range", key, k),); return some(const(lo + k))
        return None
    return [(r"Iterator::next$|::next$", g)]


# ------------------------------------------------------------------------------------------------ K08 netcode client
NCP = "lightyear_netcode::client_plugin::NetcodeClientPlugin::"
NST = "lightyear_netcode::client::ClientState"
ENT = mk("p", "E0")
is_e0 = lambda v: None if v is None else (True if strip(v) is ENT else False if strip(v).op in ("p", "agg") or plain(v) else None)
def frozen(c, s, sel, tag, why):
    """iteration followed the given elements to the end"""
    if not s.exitsv: c.undecided(tag, "no exit"); return False
    if not all(sum(1 for m in e.state.mon if m[0] == "it") == sel for e in s.exitsv): c.undecided(tag, why); return False
    return True


@prop("K08", floor=60, explain="the client's systems are evaluated for one client entity in every combination of handshake state and connection state; commands and calls on each path are compared with the mapping")
def k08(c):
    P = c.P
    f = c.fn(NCP + "receive"); q = qname(f, "NetcodeClient")
    filters(c, f, q, need=("Linked",), without=("HostClient",), also=("NetcodeClient", "Link"))
    busy = ("Connected", "SendingConnectionRequest", "SendingChallengeResponse")
    reasonp = lambda var: reason(P, is_variant("DisconnectedReason", *(("ByPeer", lambda v: v is NONE) if var == "Disconnected" else ("TransportError",))))
    for name, disc, _ in P.adts[NST]["vars"]:
        for connecting in (True, False):
            for disconnected in (True, False):
                el = item(f, q, {"Entity": ENT, "Connecting": connecting, "Disconnected": disconnected})
                key = "%s%s%s" % (name, ", connecting" if connecting else "", ", disconnected" if disconnected else "")
                s = play(c, key, f, extra=[(r"Client(<.*>)?::try_update$", "update")], stubs=seqs((r"query::Query::|Query", [el])) + [(r"Client(<.*>)?::try_update$", okv(mk("agg", NST, name, ())))])
                if not frozen(c, s, 1, "receive: " + key, "the clients are not iterated as expected"): continue
                must(c, s, {"updates the connection": ("update", lambda n, a: True)}, "every linked client is updated each frame")
                if name == "Connected" and connecting:
                    must(c, s, {"connected": ins(CN + "Connected", ent=is_e0), "local id from the token": ins(LID, ent=is_e0, val=ctor0(is_variant("PeerId", "Netcode", lambda v: fieldend(v, "id") or None))), "remote id is the server": ins(RID, ent=is_e0, val=ctor0(is_variant("PeerId", "Server")))}, "the end of the handshake connects the entity")
                elif name not in busy and not disconnected:
                    must(c, s, {"disconnected, with the reason": ins(CN + "Disconnected", ent=is_e0, val=reasonp(name))}, "the end of the session disconnects the entity, and says why")
                    nothing(c, s, "and does not connect it", ops=("insert",), but=lambda m: all(t != CN + "Connected" for t, v in m[2]))
                else: nothing(c, s, "the entity's state already agrees")
    # a failed update changes nothing by itself
    el = item(f, q, {"Entity": ENT, "Connecting": True, "Disconnected": False})
    # sending: every queued payload is handed over once, then the protocol's own packets
    g = c.fn(NCP + "send"); q = qname(g, "NetcodeClient"); filters(c, g, q, need=("Linked",), without=("HostClient",), also=("NetcodeClient", "Link"))
    sends(c, g, q, r"Client(<.*>)?::send$", r"Client(<.*>)?::drain_send_netcode_packets$", {}, "client")
    # requests
    g = c.fn(NCP + "connect"); observes(c, g, "Connect"); q = qname(g, "NetcodeClient"); filters(c, g, q, without=("Connected",), also=("NetcodeClient", "Link"))
    ex = [(r"netcode::client::Client(<.*>)?::connect$|client::Client::connect$", "call connect"), (r"client::Client(<.*>)?::disconnect$", "call disconnect")]
    must(c, case(c, "requested", g, {q: True}, extra=ex), {"starts the handshake": ("call connect", lambda n, a: True), "connecting": ins(CN + "Connecting")}, "a connect request starts a handshake")
    nothing(c, case(c, "not concerned", g, {q: False}, extra=ex), "connected clients are left alone", ops=("insert", "remove", "trigger", "call connect"))
    g = c.fn(NCP + "disconnect"); observes(c, g, "Disconnect"); q = qname(g, "NetcodeClient"); filters(c, g, q, without=("Disconnected",), also=("NetcodeClient", "Link"))
    s = case(c, "requested", g, {q: True}, extra=ex, stubs=[(r"client::Client(<.*>)?::disconnect$", okv())])
    must(c, s, {"tells the peer": ("call disconnect", lambda n, a: True), "disconnected by the user": ins(CN + "Disconnected", val=reason(P, is_variant("DisconnectedReason", "UserRequested")))}, "a disconnect request ends the session")
    nothing(c, case(c, "not concerned", g, {q: False}, extra=ex), "disconnected clients are left alone", ops=("insert", "remove", "trigger", "call disconnect"))


def sends(c, f, q, sendpat, ctlpat, given, who):
    """payloads queued on the link are popped once each and handed to the protocol, then its own packets follow"""
    PQ = r"VecDeque(<.*>)?::(pop_front|pop_back|pop|len|push_back|push_front|drain|clear|is_empty)$|VecDeque(<.*>)?::len$"
    PAY = [mk("p", "payload%d" % i) for i in range(3)]
    for n in (0, 2):
        for fail in ((), (0,)):
            if fail and not n: continue
            log = []
            def q_(it, st, fr, a, sym):
                m = it.cur_names[0].split("::")[-1]
                k = sum(1 for x in st.mon if x[0] == "pop")
                if m == "len": return mk("c", n - k, "usize") if False else const(n - k)
                if m == "is_empty": return const(n - k == 0)
                if m == "pop_front":
                    if k >= n: return NONE
                    st.mon = st.mon + (("pop", k, ()),); return some(PAY[k])
                return None
            def snd(it, st, fr, a, sym):
                vs = [it.normarg(st, x) for x in a]
                k = next((i for i, p in enumerate(PAY) for v in vs if has(v, lambda x: x is p)), None)
                st.mon = st.mon + (("sent", k, tuple(vs)),)
                return errv(mk("p", "failure")) if k in fail else okv()
            def ctl(it, st, fr, a, sym):
                st.mon = st.mon + (("control", None, tuple(it.normarg(st, x) for x in a)),)
                return okv() if re.search("Result", it.cur_names[0]) else None
            el = item(f, q, dict({"Entity": ENT}, **given))
            key = "%d queued%s" % (n, ", the first fails" if fail else "")
            s = scen(c, key, f, stubs=seqs((r"Query", [el])) + [(PQ, q_), (sendpat, snd), (ctlpat, ctl)], no_inline=(PQ, sendpat, ctlpat), events=[PQ, sendpat, ctlpat, r"mem::(take|replace|swap)$"])
            es = [e for e in s.it.events if e.kind == "exit"]
            k = "%s: %s" % (short(f), key)
            if not es or any(sum(1 for m in e.state.mon if m[0] == "it") != 1 for e in es): c.undecided(k, "iteration"); continue
            other = s.ev(r"VecDeque(<.*>)?::(drain|pop_back|iter|into_iter|split_off|append)$|mem::(take|replace|swap)$")
            for e in es:
                seq = [(m[0], m[1]) for m in e.state.mon if m[0] in ("sent", "control")]
                ss = [b for a_, b in seq if a_ == "sent"]
                if other and ss != list(range(n)): c.undecided(k + ": each payload once, in order", "the queue is emptied in another way")
                else: c.check(ss == list(range(n)), k + ": each payload once, in order", "what is queued is handed to the protocol once: %s" % seq, "%s:%s (%s)" % (f.file, f.line, f.name))
                c.check(bool(seq) and seq[-1][0] == "control", k + ": then the protocol's packets", "requests, keep-alives and disconnects leave whatever happens to the payloads", "%s:%s (%s)" % (f.file, f.line, f.name))


# ------------------------------------------------------------------------------------------------ K07 netcode server
NSP = "lightyear_netcode::server_plugin::NetcodeServerPlugin::"
def is_p(name): return lambda v: None if v is None else (True if strip(v) is mk("p", name) else False if strip(v).op in ("p", "agg") or plain(v) else None)


@prop("K07", floor=60, explain="the server's systems are evaluated for one server and its links, pending announcements and stop requests in every combination; commands and calls on each path are compared with the mapping")
def k07(c):
    P = c.P
    f = c.fn(NSP + "receive"); qs = qname(f, "NetcodeServer"); ql = qname(f, "LinkOf")
    filters(c, f, qs, without=("Stopped",), also=("NetcodeServer", "Server", "!SkipNetcode", "Link", "RemoteId")); filters(c, f, ql, need=("LinkOf",), without=("HostClient",), also=("NetcodeServer", "Server", "!SkipNetcode", "Link", "RemoteId"))
    RX = r"server::(Netcode)?Server(<.*>)?::receive$"; UP = r"server::(Netcode)?Server(<.*>)?::update_state$"
    I_ = lambda n: mk("p", n)
    conn = mk("agg", "()", "", (I_("id1"), I_("E1"), I_("data1"))); disc = mk("agg", "()", "", (I_("id2"), I_("E2")))
    for nc in (0, 1):
        for nd in (0, 1):
            for stopping in (False, True):
                for check, addr in ((False, False), (True, False), (True, True)):
                    key = "%d connected, %d gone%s%s" % (nc, nd, ", stopping" if stopping else "", "" if not check else ", address checked and %s" % ("known" if addr else "unknown"))
                    el = item(f, qs, {"Entity": I_("SRV"), "Stopping": stopping, "LocalAddr": addr})
                    ls = [item(f, ql, {"Entity": I_("L0")})] if not (nc or nd) else []
                    srcs = [(r"server_query", [el]), (r"link_query", ls), (r"\.connections\b", [conn] * nc), (r"\.disconnections\b", [disc] * nd)]
                    extra = [(RX, "receive"), (UP, "update")]
                    NS = el.args[2][[i for i, t in enumerate(interp.tysplit(qparts(f, qs)[0][1:-1])) if "NetcodeServer" in t][0]]
                    s = play(c, key, f, extra=extra, no_inline=(RX, UP), stubs=seqs(*srcs) + [(RX, okv(mk("p", "no errors"))), (UP, mk("agg", "()", "", ()))] + [ALIVE],
                             assume=lambda it: [(fld(NS, "server_addr_check"), check)])
                    k = "receive: " + key
                    if not s.exitsv or any([sum(1 for m in e.state.mon if m[0] == "it" and m[1] == i) for i in range(4)] != [1, len(ls), nc, nd] for e in s.exitsv): c.undecided(k, "the sessions are not iterated as expected"); continue
                    must(c, s, {"time passes": ("update", lambda n, a: True)}, "the protocol is updated each frame")
                    if ls and (not check or addr): must(c, s, {"packets are processed": ("receive", lambda n, a: True)}, "the packets of every link are processed")
                    if ls and check and not addr: nothing(c, s, "without a known address no packet is processed", ops=("receive",))
                    if nc: must(c, s, {"connected": ins(CN + "Connected", ent=is_p("E1")), "under the id announced": ins(RID, ent=is_p("E1"), val=ctor0(is_variant("PeerId", "Netcode", is_p("id1")))), "local id is the server": ins(LID, ent=is_p("E1"), val=ctor0(is_variant("PeerId", "Server"))),
                                       "is a client of the server": ins("lightyear_connection::client_of::ClientOf", ent=is_p("E1")), "with its token's data": ins("lightyear_netcode::auth::TokenUserData" if False else next(a for a in P.adts if a.endswith("::TokenUserData")), ent=is_p("E1"), val=ctor0(is_p("data1")))}, "an announced session becomes a connected client, on the link it arrived on")
                    else: nothing(c, s, "nobody is connected without an announcement", ops=("insert",), but=lambda m: all(t != CN + "Connected" for t, v in m[2]))
                    if nd:
                        must(c, s, {"disconnected by the peer": ins(CN + "Disconnected", ent=is_p("E2"), val=reason(P, is_variant("DisconnectedReason", "ByPeer"))), "despawned": ("despawn", lambda n, a: is_p("E2")(n))}, "the end of a session disconnects and removes the client")
                        for e in s.exitsv:
                            o = [m[0] for m in e.state.mon if (m[0] == "insert" and any(t == CN + "Disconnected" for t, v in m[2])) or m[0] == "despawn"]
                            c.check(o[:2] == ["insert", "despawn"], "%s: %s: disconnected before it is removed" % (short(f), key), "observers see the disconnection of an entity that still exists", "%s:%s (%s)" % (f.file, f.line, f.name))
                    else: nothing(c, s, "nobody is removed without an announcement", ops=("despawn",))
                    if stopping: must(c, s, {"closes the link": event(UNLINK, entity=is_p("SRV"), reason=is_variant("UnlinkReason", "ServerStopped")), "stopped": ins(SV + "Stopped", ent=is_p("SRV"))}, "a stop request ends in a stopped server")
                    else: nothing(c, s, "a server that was not asked to stop keeps running", ops=("trigger", "insert"), but=lambda m: not (m[0] == "trigger" or any(t == SV + "Stopped" for t, v in m[2])))
    # sending
    g = c.fn(NSP + "send"); qs = qname(g, "NetcodeServer"); ql = qname(g, "LinkOf")
    filters(c, g, qs, without=("Stopped",), also=("NetcodeServer", "Server", "!SkipNetcode", "Link", "RemoteId")); filters(c, g, ql, need=("LinkOf",), without=("HostClient",), also=("NetcodeServer", "Server", "!SkipNetcode", "Link", "RemoteId"))
    server_sends(c, g, qs, ql)
    # requests
    g = c.fn(NSP + "start"); observes(c, g, "Start"); q = qname(g, "NetcodeServer")
    must(c, case(c, "requested", g, {q: True}), {"started": ins(SV + "Started")}, "a start request starts the server")
    nothing(c, case(c, "other server", g, {q: False}), "other servers are left alone")
    g = c.fn(NSP + "reset_on_stopped"); observes(c, g, "Add", "Stopped"); q = qname(g, "NetcodeServer")
    ex = [(r"NetcodeServer::reset$|server::Server(<.*>)?::reset$", "reset")]
    must(c, case(c, "stopped", g, {q: True}, extra=ex), {"sessions are reset": ("reset", lambda n, a: True)}, "a stopped server keeps no session")
    f = c.fn("lightyear_netcode::server_plugin::NetcodeServer::reset")
    ex = [(r"server::Server(<.*>)?::reset$", "reset"), (r"::(clear|drain|truncate)$|mem::take$", "cleared")]
    cl = lambda n: ("cleared", lambda _, a: True if any(has_field(x, n) for x in a) else False)
    must(c, play(c, "reset", f, extra=ex, no_inline=(r"server::Server(<.*>)?::reset$",)), {"sessions": ("reset", lambda n, a: True), "pending connections": cl("connections"), "pending disconnections": cl("disconnections")}, "nothing of the old run is announced in the next")
    g = c.fn(NSP + "stop"); observes(c, g, "Stop"); q = qname(g, "NetcodeServer"); ql = qname(g, "ClientOf")
    filters(c, g, q, without=("Stopped",), also=("NetcodeServer", "Server", "!SkipNetcode", "Link", "RemoteId")); filters(c, g, ql, need=("ClientOf", "Connected"), without=("HostClient",), also=("NetcodeServer", "Server", "!SkipNetcode", "Link", "RemoteId"))
    DX = r"server::Server(<.*>)?::disconnect$"
    for n in (0, 2):
        ls = [item(g, ql, {"Entity": I_("E%d" % i), "RemoteId": mk("&", mk("agg", RID, "RemoteId", (mk("agg", "lightyear_core::id::PeerId", "Netcode", (I_("id%d" % i),)),)))}) for i in range(n)]
        s = case(c, "%d clients" % n, g, {q: True}, extra=[(DX, "bye")], no_inline=(DX,), stubs=seqs((re.escape(ql), ls)) + [(DX, okv())])
        if not s.exitsv or any(sum(1 for m in e.state.mon if m[0] == "it") != n for e in s.exitsv): c.undecided("stop: %d clients" % n, "the clients are not iterated as expected"); continue
        must(c, s, {"stopping": ins(SV + "Stopping", ent=lambda v: True)}, "a stop request is recorded")
        for i in range(n):
            must(c, s, {"client %d is told" % i: ("bye", lambda n_, a, i=i: True if any(is_p("id%d" % i)(x) is True for x in a) else None if not all(plain(x) or strip(x).op in ("p", "c") for x in a[1:2]) else False), "client %d is disconnecting" % i: ins(CN + "Disconnecting", ent=is_p("E%d" % i))}, "every connected client is told before the server stops")
    nothing(c, case(c, "not concerned", g, {q: False}, extra=[(DX, "bye")]), "servers that are stopped already are left alone", ops=("insert", "trigger", "bye"))


def server_sends(c, f, qs, ql):
    """payloads of connected clients go through the session once each; others are dropped; the protocol's packets always follow"""
    PQ = r"VecDeque(<.*>)?::(pop_front|len|is_empty|drain|clear)$"
    SND = r"server::Server(<.*>)?::send$"; KA = r"::send_keepalives$"; NP = r"::send_netcode_packets$"
    PAY = [mk("p", "payload%d" % i) for i in range(2)]
    pid = lambda k: mk("agg", RID, "RemoteId", (mk("agg", "lightyear_core::id::PeerId", k, (mk("p", "idA"),) if k == "Netcode" else ()),))
    for connected, disconnecting, remote in ((True, False, "Netcode"), (True, False, "Server"), (False, False, None), (False, True, "Netcode"), (False, False, "Netcode")):
        for fail in ((), (0,)):
            if fail and not (connected and remote == "Netcode"): continue
            n = 2
            def q_(it, st, fr, a, sym):
                m = it.cur_names[0].split("::")[-1]; k = sum(1 for x in st.mon if x[0] == "pop")
                if not has_field(it.normarg(st, a[0]), "send"): return None
                if m == "len": return const(n - k)
                if m == "is_empty": return const(n - k == 0)
                if m == "pop_front":
                    if k >= n: return NONE
                    st.mon = st.mon + (("pop", k, ()),); return some(PAY[k])
                if m in ("drain", "clear"): st.mon = st.mon + (("dropped", None, ()),)
                return None
            def snd(it, st, fr, a, sym):
                vs = [it.normarg(st, x) for x in a]
                k = next((i for i, p in enumerate(PAY) for v in vs if has(v, lambda x: x is p)), None)
                st.mon = st.mon + (("sent", k, tuple(vs)),)
                return errv(mk("p", "failure")) if k in fail else okv()
            def note(tag, r=None):
                def g(it, st, fr, a, sym): st.mon = st.mon + ((tag, None, tuple(it.normarg(st, x) for x in a)),); return r
                return g
            el = item(f, qs, {"Entity": mk("p", "SRV")})
            given = {"Entity": mk("p", "E1"), "Connected": connected, "Disconnecting": disconnecting, "RemoteId": mk("&", pid(remote)) if remote else False}
            le = item(f, ql, given)
            key = "%s%s%s%s" % ("connected" if connected else "not connected", ", disconnecting" if disconnecting else "", ", id %s" % remote if remote else "", ", the first fails" if fail else "")
            s = scen(c, key, f, stubs=seqs((r"server_query", [el]), (r"client_query", [le])) + [(PQ, q_), (SND, snd), (KA, note("keepalive", okv())), (NP, note("control", mk("agg", "()", "", ())))], no_inline=(PQ, SND, KA, NP), events=[PQ, SND, KA, NP, r"mem::(take|replace|swap)$"])
            es = [e for e in s.it.events if e.kind == "exit"]; k = "%s: %s" % (short(f), key); where = "%s:%s (%s)" % (f.file, f.line, f.name)
            if not es or any([sum(1 for m in e.state.mon if m[0] == "it" and m[1] == i) for i in (0, 1)] != [1, 1] for e in es): c.undecided(k, "the links are not iterated as expected"); continue
            other = s.ev(r"mem::(take|replace|swap)$")
            for e in es:
                seq = [(m[0], m[1]) for m in e.state.mon if m[0] in ("sent", "control", "keepalive", "dropped")]
                ss = [b for a_, b in seq if a_ == "sent"]; names = [a_ for a_, b in seq]
                if connected and remote == "Netcode":
                    if other and ss != [0, 1]: c.undecided(k + ": each payload once, in order", "the queue is emptied in another way")
                    else: c.check(ss == [0, 1], k + ": each payload once, in order", "what is queued for a connected client goes through its session once: %s" % seq, where)
                    ids = [m for m in e.state.mon if m[0] == "sent"]
                    c.check(all(any(is_p("idA")(v) is True for v in m[2]) for m in ids), k + ": through its own session", "each payload is sealed for the client it is queued for", where)
                    c.check("dropped" not in names, k + ": nothing dropped", "payloads of connected clients are not dropped", where)
                    c.check("keepalive" in names, k + ": keep-alive", "a connected client is kept alive", where)
                    kas = [m for m in e.state.mon if m[0] == "keepalive"]
                    for m in kas:
                        x = [strip(v) for v in m[2] if strip(v).op not in ("agg",)]
                        if any(v is mk("p", "idA") for v in x): c.check(True, k + ": its own keep-alive", "the keep-alive is sealed for the client it is sent to", where)
                        elif any(has(v, lambda y: y is mk("p", "idA")) for v in x): c.bad(k + ": its own keep-alive", "the keep-alive is sealed for the client it is sent to", where)
                else:
                    c.check(not ss, k + ": no payload", "payloads cross only established sessions: %s" % seq, where)
                    if not disconnecting and not connected and not other: c.check("dropped" in names or sum(1 for m in e.state.mon if m[0] == "pop") == n, k + ": payloads dropped", "what was queued before the session is not sent in the clear", where)
                    if disconnecting: c.check("dropped" not in names, k + ": packets kept", "the disconnect packets of a client being removed still leave", where)
                c.check("control" in names, k + ": the protocol's packets", "challenges, denials and disconnects leave for every link", where)
                if "control" in names and "sent" in names: c.check(names.index("control") > max(i for i, x in enumerate(names) if x == "sent"), k + ": protocol packets last", "they follow the payloads", where)
                cs = [m for m in e.state.mon if m[0] == "control"]
                c.check(all(any(is_p("E1")(v) is True for v in m[2]) for m in cs), k + ": protocol packets of this link", "each link sends its own packets", where)


# ------------------------------------------------------------------------------------------------ K06 clients being removed
@prop("K06", floor=8, explain="the system is executed symbolically on zero, one and two disconnecting clients; the commands on each path are compared with the rule")
def k06(c):
    f = c.fn("lightyear_connection::server::ConnectionPlugin::disconnect"); q = qname(f, "Disconnecting")
    filters(c, f, q, need=("Disconnecting", "ClientOf"))
    for n in (0, 1, 2):
        s = play(c, "%d clients" % n, f, stubs=[ALIVE] + seqs((re.escape(q), [mk("p", "E%d" % i) for i in range(n)])))
        if not frozen(c, s, n, "disconnect: %d clients" % n, "the clients are not iterated as expected"): continue
        for i in range(n):
            ent = is_p("E%d" % i)
            must(c, s, {"client %d disconnected" % i: ins(CN + "Disconnected", ent=ent, val=reason(c.P, is_variant("DisconnectedReason", "UserRequested"))), "client %d removed" % i: ("despawn", lambda m, a, ent=ent: ent(m))}, "every disconnecting client of a server is disconnected and removed")
            for e in s.exitsv:
                o = [m[0] for m in e.state.mon if m[0] in ("insert", "despawn") and ent(m[1]) is True]
                if sorted(o) == ["despawn", "insert"]: c.check(o == ["insert", "despawn"], "%d clients: client %d is disconnected before it is removed" % (n, i), "observers see the disconnection of an entity that still exists", "%s:%s (%s)" % (f.file, f.line, f.name))
        if n == 0: nothing(c, s, "nobody else is touched")


# ------------------------------------------------------------------------------------------------ K09 host client
HP = "lightyear_connection::host::HostPlugin::"; HC = "lightyear_connection::host::HostClient"; HSV = "lightyear_connection::host::HostServer"; CO = "lightyear_connection::client_of::ClientOf"
def got(sel):
    """stub for query lookups: {parameter: {entity name: element, or False when the query does not match it}}; an entity not named is not matched"""
    def g(it, st, fr, a, sym):
        q = strip(it.normarg(st, a[0])); n = str(q.args[0]) if q.op == "p" else None
        if n not in sel: return None
        x = strip(it.normarg(st, a[1])) if len(a) > 1 else None
        if x is not None and x.op == "f" and str(x.args[2]) == "entity" and strip(x.args[0]).op == "p": k = "target"
        elif x is not None and x.op == "p": k = str(x.args[0])
        elif x is not None and x.op == "call" and re.search(r"event_target$|::entity$|::target$", x.args[0]): k = "target"
        elif x is None: k = "target"
        else: return None
        v = sel[n].get(k, False)
        nm = it.cur_names[0].split("::")[-1]
        if nm == "contains": return const(v is not False)
        return errv(mk("p", "no match")) if v is False else okv(v)
    return [(r"system::query::Query::(get|get_mut|single|single_mut|contains)$", g), ALIVE]
def one(op, *preds):
    """one command of that kind satisfies every predicate"""
    def p(n, a):
        for x in preds: x.P = p.P
        return all3([x(n, a) for x in preds])
    return op, p
def host_of(ent):
    """a component value HostServer { client: ent }"""
    def g(v):
        v = strip(v)
        return ent(v.args[2][0]) if v.op == "agg" and v.args[2] else None
    return g
def link_to(f, q, name, extra=None):
    lo = mk("&", mk("agg", "lightyear_link::server::LinkOf", "LinkOf", (mk("p", name),)))
    return item(f, q, dict({"LinkOf": lo}, **(extra or {})))


@prop("K09", floor=30, explain="the observers that make a client of the same app a host client are executed symbolically for every combination of server and client state; the commands on each path are compared with the rule")
def k09(c):
    P = c.P; SRVP = is_p("SRV")
    f = c.fn(HP + "connect"); observes(c, f, "Connect"); q = qname(f, "LinkOf"); qs = qname(f, "Server")
    filters(c, f, q, need=("Client",), without=("HostClient",), also=("LinkOf", "Server")); filters(c, f, qs, need=("Server",), also=("LinkOf", "Server"))
    local = ctor0(is_variant("PeerId", "Local"))
    for started in (True, False, None):
        for linked in (True, False):
            sv = {"SRV": item(f, qs, {"Started": started})} if started is not None else {}
            s = play(c, "%s, %s" % ("linked" if linked else "no link", {True: "started", False: "not started", None: "no such server"}[started]), f, stubs=got({q: {"target": link_to(f, q, "SRV")} if linked else {}, qs: sv}))
            if not linked or started is None: nothing(c, s, "clients without a server in the same app connect in another way"); continue
            if started:
                must(c, s, {"connected at once, as host": one("insert", ins(CN + "Connected")[1], ins(HC)[1]), "local id": ins(LID, val=local), "remote id": ins(RID, val=local), "client of the server": ins(CO),
                            "server's host": ins(HSV, ent=SRVP, val=host_of(target))}, "a client in the app of a started server is connected at once")
                nothing(c, s, "and does not wait", ops=("insert",), but=lambda m: all(t != CN + "Connecting" for t, v in m[2]))
            else:
                must(c, s, {"waits": ins(CN + "Connecting")}, "a client whose server is not started yet waits for it")
                nothing(c, s, "and is not connected", ops=("insert",), but=lambda m: all(t not in (CN + "Connected", HC, HSV) for t, v in m[2]))
    f = c.fn(HP + "disconnect"); observes(c, f, "Disconnect"); q = qname(f, "LinkOf")
    s = play(c, "host", f, stubs=got({q: {"target": link_to(f, q, "SRV")}}))
    must(c, s, {"no host any more": rem(HC), "disconnected by the user": ins(CN + "Disconnected", val=reason(P, is_variant("DisconnectedReason", "UserRequested"))), "the server has no host": rem(HSV, ent=SRVP)}, "a host that disconnects leaves its server")
    nothing(c, play(c, "not concerned", f, stubs=got({q: {}})), "other clients are left alone")
    filters(c, f, q, need=("Client",), also=("LinkOf", "Server"))
    f = c.fn(HP + "check_if_host_on_client_change"); observes(c, f, "Add", "Connected", "LinkOf"); q = qname(f, "LinkOf"); qs = qname(f, "Started")
    filters(c, f, q, need=("Client", "Connected"), without=("HostClient",), also=("LinkOf", "Server")); filters(c, f, qs, need=("Started",), also=("LinkOf", "Server"))
    for linked in (True, False):
        for started in (True, False):
            s = play(c, "%s, server %s" % ("connected client" if linked else "other", "started" if started else "not started"), f, stubs=got({q: {"target": link_to(f, q, "SRV")} if linked else {}, qs: {"SRV": item(f, qs, {})} if started else {}}))
            if linked and started: must(c, s, {"becomes the host": ins(HC), "server's host": ins(HSV, ent=SRVP, val=host_of(target))}, "a connected client linked to a server of the same app is its host")
            else: nothing(c, s, "nothing changes for others")
    f = c.fn(HP + "check_if_host_on_server_change"); observes(c, f, "Add", "Started"); qs = qname(f, "Server"); q = qname(f, "Client")
    filters(c, f, qs, need=("Started",), also=("LinkOf", "Server")); filters(c, f, q, need=("Client",), without=("HostClient",), also=("LinkOf", "Server"))
    nothing(c, play(c, "not a started server", f, stubs=got({qs: {}})), "nothing happens before the server is started")
    KINDS = [("connected", {"Connected": True, "Connecting": False}), ("connecting", {"Connected": False, "Connecting": True}), ("idle", {"Connected": False, "Connecting": False}), ("not a client", None)]
    for i, (n0, k0) in enumerate(KINDS):
        for j, (n1, k1) in enumerate(KINDS):
            ents = [mk("&", mk("p", "E%d" % k)) for k in range(2)]
            cl = {"E%d" % k: item(f, q, x) for k, x in ((0, k0), (1, k1)) if x is not None}
            key = "%s, then %s" % (n0, n1)
            s = play(c, key, f, stubs=got({qs: {"target": item(f, qs, {})}, q: cl}) + seqs((r"Server|" + re.escape(qs), ents)))
            if not frozen(c, s, 2, "server started: " + key, "the clients are not iterated as expected"): continue
            for k, x in ((0, k0), (1, k1)):
                ent = is_p("E%d" % k)
                mine = lambda m, ent=ent: ent(m[1]) is True or (m[0] == "trigger" and any(has(a, lambda y: y is mk("p", "E%d" % k)) for a in m[2])) or any(t == HSV and v is not None and has(v, lambda y: y is mk("p", "E%d" % k)) for t, v in (m[2] if m[0] == "insert" else ()))
                if x and x["Connecting"]: must(c, s, {"client %d connects again" % k: event(CN + "Connect", entity=ent)}, "a waiting client connects when the server is started")
                elif x and x["Connected"]: must(c, s, {"client %d is the host" % k: ins(HC, ent=ent), "the server's host is client %d" % k: ins(HSV, val=host_of(ent))}, "a connected client becomes the host when the server is started")
                else:
                    hit = [m for e in s.exitsv for m in e.state.mon if m[0] in ("insert", "remove", "trigger", "despawn") and mine(m)]
                    c.check(not hit, "%s: client %d untouched" % (key, k), "other entities are left alone: %s" % [str(h)[:80] for h in hit[:1]], "%s:%s (%s)" % (f.file, f.line, f.name))


# ------------------------------------------------------------------------------------------------ K10 network topology
NT = "lightyear_connection::network_topology::"
VECN = r"(?:SmallVec|Vec)(?:<.*>)?::(new|with_capacity|new_const)$|models::new_collection$"
def lists(srcs):
    """stubs: the queries {parameter: elements} as concrete sequences, and the collections built from them as bags (mon: open, it, new, push)"""
    def opn(it, st, fr, a, sym):
        x = strip(it.normarg(st, a[0]))
        if x.op != "p": return None
        n = str(x.args[0])
        if n.startswith("iter:"): return x
        if n not in srcs: return None
        k = sum(1 for m in st.mon if m[0] == "open" and m[1] == n)
        st.mon = st.mon + (("open", n, k),)
        return mk("p", "iter:%s:%d" % (n, k))
    def nx(it, st, fr, a, sym):
        x = strip(it.normarg(st, a[0]))
        if x.op != "p" or not str(x.args[0]).startswith("iter:"): return None
        n = str(x.args[0]); el = srcs[n.split(":")[1]]
        k = sum(1 for m in st.mon if m[0] == "it" and m[1] == n)
        if k >= len(el): return NONE
        st.mon = st.mon + (("it", n, k),); return some(el[k])
    def empty(it, st, fr, a, sym):
        x = strip(it.normarg(st, a[0]))
        if x.op == "p" and str(x.args[0]) in srcs: return const(not srcs[str(x.args[0])])
        return bag(it, st, fr, a, sym)
    def bag(it, st, fr, a, sym):
        last = it.cur_names[0].split("::")[-1]
        if re.search(VECN, it.cur_names[0]):
            k = sum(1 for m in st.mon if m[0] == "new"); st.mon = st.mon + (("new", k),); return mk("p", "bag:%d" % k)
        x = strip(it.normarg(st, a[0])) if a else None
        if x is None or x.op != "p" or not str(x.args[0]).startswith("bag:"): return None
        n = [m for m in st.mon if m[0] == "push" and m[1] == str(x.args[0])]
        if last in ("push", "push_into", "insert", "push_back"):
            st.mon = st.mon + (("push", str(x.args[0]), it.normarg(st, a[-1])),); return mk("agg", "()", "", ())
        if last == "len": return const(len(n))
        if last == "is_empty": return const(not n)
        if last.startswith("sort") or last in ("reserve", "shrink_to_fit"): return mk("agg", "()", "", ())
        return None
    return [(r"Query(<.*>)?::(iter|iter_mut)$|::into_iter$", opn), (r"::next$", nx), (r"Query(<.*>)?::is_empty$", empty),
            (VECN + r"|::(push|len|is_empty|sort\w*|reserve|shrink_to_fit)$|models::push_into$", bag)]


@prop("K10", floor=100, explain="the system that infers the topology is evaluated symbolically for every combination of ready clients, servers and peer-to-peer links up to two of each and compared with the table; the observers that mark it stale and its place in the frame are checked")
def k10(c):
    P = c.P
    f = c.fn(NT + "refresh_network_topology")
    qc, qs = qname(f, "LinkOf"), qname(f, "Started")
    qn = [f.names.get(i) for i in range(1, f.argc + 1) if re.search(r"Query<", str(f.ltys[i])) and f.names.get(i) not in (qc, qs)]
    qb = next((n for n in qn if requires(f, n, "Client", without=True)), None)
    qp = next((n for n in qn if n != qb and re.search(r"P2P\b", qparts(f, n)[0])), None)
    if not (qp and qb): c.undecided("topology", "the queries are laid out in another way"); return
    filters(c, f, qc, need=("Client", "Connected")); filters(c, f, qs, need=("Server", "Started")); filters(c, f, qb, need=("HostClient", "Connected"), without=("Client",))
    P2 = "lightyear_connection::p2p::P2P"
    lk = lambda n: mk("&", mk("agg", "lightyear_link::server::LinkOf", "LinkOf", (mk("p", n),)))
    def client(n, p2p=False, host=False, link=None): return (n, p2p, host, link)
    def celem(x): return item(f, qc, {"Entity": mk("p", x[0]), "P2P": x[1], "HostClient": x[2], "LinkOf": lk(x[3]) if x[3] else False})
    def pelem(x): return item(f, qp, {"Entity": mk("p", x[0]), "P2P": mk("&", mk("agg", P2, x[1], ())), "Connected": x[2]})
    KC = [("client", {}), ("host of S1", dict(host=True, link="S1")), ("host of S9", dict(host=True, link="S9")), ("host of none", dict(host=True)), ("peer", dict(p2p=True)), ("peer and host", dict(p2p=True, host=True, link="S1"))]
    def expected(cs, ss, ps, bs):
        if bs: return ("Invalid", None)
        act = [p for p in ps if p[1] != "Inactive"]
        if act:
            if ss or any(not x[1] or x[2] for x in cs): return ("Invalid", None)
            j = sorted(p[0] for p in ps if p[1] == "Joined" and p[2])
            return ("Undefined", ()) if not j or any(p[1] == "Candidate" for p in ps) else ("P2P", j)
        cv = [x for x in cs if not x[1]]
        if len(cv) > 1 or len(ss) > 1: return ("Invalid", None)
        if not cv: return ("Server", (ss[0],)) if ss else ("Undefined", ())
        x = cv[0]
        if not ss: return ("Invalid", None) if x[2] else ("Client", (x[0],))
        return ("HostClient", (ss[0], x[0])) if x[2] and x[3] == ss[0] else ("Invalid", None)
    cases = []
    cl1 = [[]] + [[("C1",) + client("C1", **k)[1:]] for _, k in KC]
    for ss in ([], ["S1"], ["S1", "S2"]):
        for cs in cl1: cases.append((cs, ss, [], []))
        for a in (0, 1, 4):
            for b in (0, 1, 4): cases.append(([client("C1", **KC[a][1]), client("C2", **KC[b][1])], ss, [], []))
    for cs in cl1[:2]:
        for ss in ([], ["S1"]): cases.append((cs, ss, [], ["B1"]))
    kinds = [("Inactive", False), ("Inactive", True), ("Candidate", False), ("Candidate", True), ("Joined", False), ("Joined", True)]
    for k in kinds:
        for cs in (cl1[0], cl1[1], cl1[2], cl1[5], cl1[6]):
            for ss in ([], ["S1"]): cases.append((cs, ss, [("L1",) + k], []))
    for k in kinds:
        for l in kinds: cases.append(([], [], [("L1",) + k, ("L2",) + l], []))
    META = lambda v: has_field(v, "mode")
    for cs, ss, ps, bs in cases:
        want = expected(cs, ss, ps, bs)
        srcs = {qc: [celem(x) for x in cs], qs: [mk("p", n) for n in ss], qp: [pelem(x) for x in ps], qb: [mk("p", n) for n in bs]}
        def cmp_(neg):
            g0 = eqstub(neg)
            def g(it, st, fr, a, sym):
                if any(META(it.normarg(st, v)) for v in a[:2]): return const(neg)
                x, y = (strip(it.normarg(st, v)) for v in a[:2])
                if x.op == "p" and y.op == "p" and re.match(r"[CSLB]\d$", str(x.args[0])) and re.match(r"[CSLB]\d$", str(y.args[0])): return const((x is y) != neg)
                return g0(it, st, fr, a, sym)
            return g
        def mon(it, st, kind, info):
            if kind == "write":
                fr, root, projs, v = info
                n = [str(p[2]) for p in projs or () if p[0] == "F"]
                if n[-1:] == ["mode"] or n[-1:] == ["dirty"]: st.mon = tuple(m for m in st.mon if m[:2] != ("w", n[-1])) + (("w", n[-1], it.normarg(st, v) if n[-1] == "mode" else v),)
        key = "clients %s, servers %s%s%s" % ([KC[[k for _, k in KC].index({a: b for a, b in (("p2p", x[1]), ("host", x[2]), ("link", x[3])) if b})][0] for x in cs], ss, ", peers %s" % [(p[1], "connected" if p[2] else "") for p in ps] if ps else "", ", host without client" if bs else "")
        s = scen(c, key, f, stubs=lists(srcs) + [(r"cmp::PartialEq(<.*>)?::eq$", cmp_(False)), (r"cmp::PartialEq(<.*>)?::ne$", cmp_(True))], writes=True, monitor=mon)
        es = [e for e in s.it.events if e.kind == "exit"]
        k = "topology: " + key; why = "the topology is the one the ready peers form (%s)" % want[0]
        if not es: c.undecided(k, "no exit"); continue
        res = []
        for e in es:
            w = [m[2] for m in e.state.mon if m[:2] == ("w", "mode")]
            v = strip(w[-1]) if w else None
            if v is None: res.append((False, "not updated")); continue
            if v.op != "agg": res.append((None, "")); continue
            ok = v.args[1] == want[0]
            if ok and want[0] == "P2P":
                x = strip(v.args[2][0])
                if x.op != "p" or not str(x.args[0]).startswith("bag:"): ok = None
                else: ok = sorted(str(strip(m[2]).args[0]) for m in e.state.mon if m[0] == "push" and m[1] == str(x.args[0])) == want[1]
            elif ok and want[1]:
                xs = [strip(x) for x in v.args[2]]
                ok = None if any(x.op != "p" for x in xs) else [str(x.args[0]) for x in xs] == list(want[1]) if len(xs) == 1 else sorted(str(x.args[0]) for x in xs) == sorted(want[1]) and all(aggfield(P, v, n) is not None and strip(aggfield(P, v, n)) is mk("p", m) for n, m in zip(("server", "client"), want[1]))
            res.append((ok, show(v)[:100]))
        bad = [r for r in res if r[0] is False]
        if bad: c.bad(k, "%s: %s" % (why, bad[0][1]), "%s:%s (%s)" % (f.file, f.line, f.name))
        elif any(r[0] is None for r in res): c.undecided(k, why)
        else: c.ok(k, why)
        for e in es:
            d = [strip(m[2]) for m in e.state.mon if m[:2] == ("w", "dirty")]
            if d and bval(d[-1]) is True: c.bad("topology settles: " + key, "a topology that was just inferred is not stale", "%s:%s (%s)" % (f.file, f.line, f.name)); break
    # only that system sets it
    for g, b, line, k, pl, direct in field_writes(P, "mode", "NetworkingMetadata"):
        if k in ("write", "dest", "mutref", "refmut", "call") and g.crate.startswith("lightyear") and "::test" not in g.name:
            t = topfn(P, g).name
            roots = {f.name, "lightyear_p2p::session::start_session_before_agreed_tick"}; c.check(t in roots or reaches(P, t, roots), "%s sets the topology" % short(g), "the topology is only set by inferring it, or by starting an agreed session", "%s:%s (%s)" % (g.file, line, g.name))
    # staleness
    comps = ("Client", "Server", "HostClient", "LinkOf", "P2P", "Connected", "Disconnected", "Started", "Stopped")
    marks = {"Insert": set(), "Remove": set()}
    obs, E = None, ecs(c)
    reg = set()
    for p in E.closure(CLIENTG) + E.closure(SERVERG):
        for r in E.regs.get(p, ()):
            if r.kind == "add_observer" and not r.cond: reg |= {x.args[0] for x in subvals(r.val) if x.op == "fn"}
    for g in P.fns.values():
        if g.kind != "fn" or not g.argc or not g.name.startswith("lightyear_connection::") or g.name not in reg: continue
        t = g.ltys[1] if isinstance(g.ltys[1], str) else ""
        h, a = interp.typarse(t)
        if h.split("::")[-1] != "On" or len(a) < 2: continue
        a = [x if isinstance(x, str) else interp.tystr(x) for x in a]
        kind = a[0].split("::")[-1]
        if kind not in ("Insert", "Add", "Remove", "Discard", "Despawn"): continue
        if not any("NetworkingMetadata" in str(g.ltys[i]) for i in range(1, g.argc + 1)): continue
        def mon(it, st, k, info):
            if k == "write":
                n = [str(p[2]) for p in info[2] or () if p[0] == "F"]
                if n[-1:] == ["dirty"]: st.mon = (("dirty", strip(info[3])),)
        s = scen(c, "stale", g, writes=True, monitor=mon)
        es = [e for e in s.it.events if e.kind == "exit"]
        if es and all(e.state.mon and bval(e.state.mon[0][1]) is True for e in es):
            cs = {x.split("::")[-1] for x in (interp.tysplit(a[1][1:-1]) if a[1].startswith("(") else [a[1]])}
            if kind in marks: marks[kind] |= cs
    for kind, verb in (("Insert", "gained or replaced"), ("Remove", "lost")):
        for x in comps:
            c.check(x in marks[kind], "stale when %s is %s" % (x, verb), "a change of the ready peers makes the topology stale", "%smark_dirty_on_%s" % (NT, kind.lower()))
    # recomputed within the frame
    for g0 in (CLIENTG, SERVERG):
        g = E.graph(E.closure(g0), "PostUpdate"); name = f.name; what = g0.split("::")[-1]
        rs = g.systems.get(name)
        if not rs: c.bad("%s: recomputed in PostUpdate" % what, "a stale topology is recomputed within the frame", f.name); continue
        c.ok("%s: recomputed in PostUpdate" % what, "a stale topology is recomputed within the frame")
        for x in [x for n in g.above("sys:" + name) for x in g.runif.get(n, ())]:
            fs = [y.args[0] for y in subvals(x) if y.op == "fn"]
            cf = P.fn(fs[0], opt=True) if len(fs) == 1 else None
            if cf is None: c.undecided("%s: run condition" % what, show(x)[:80]); continue
            s = scen(c, "stale", cf, assume=lambda it: [(path(it, "metadata.dirty"), True)])
            vals = [e.val for e in s.it.events if e.kind == "exit"]
            if any(bval(strip(v)) is False for v in vals) or any(strip(v).op == "not" for v in vals): c.bad("%s: runs while stale" % what, "a stale topology is recomputed", "%s:%s (%s)" % (cf.file, cf.line, cf.name))
            elif vals and all(bval(strip(v)) is True or has_field(v, "dirty") for v in vals): c.ok("%s: runs while stale" % what, "a stale topology is recomputed")
            else: c.undecided("%s: runs while stale" % what, "%s" % [show(v) for v in vals][:2])
        c.check(g.before("sys:" + name, "set:ConnectionSystems::Send"), "%s: before the connections send" % what, "what is sent in a frame is sent under the topology of that frame", rs[0].where)
