"""What the plugins register: the schedule graph, the observers and the plugin closure, read off
the symbolic execution of every `Plugin::build` / `Plugin::finish` / `PluginGroup::build`."""
import re
from lib import *
import interp
from props import prop
from props.messages import requires, narrowing, qparts, origin

OURS = re.compile(r"^<?lightyear")
CALLS = {"configure_sets": r"app::App::configure_sets$", "add_systems": r"app::App::add_systems$",
         "add_observer": r"app::App::add_observer$", "add_plugins": r"app::App::add_plugins$",
         "group_add": r"PluginGroupBuilder::add$"}
KEEP = ("in_set", "before", "after", "chain", "run_if", "distributive_run_if", "ambiguous_with", "ambiguous_with_all",
        "chain_ignore_deferred", "before_ignore_deferred", "after_ignore_deferred", "into_configs", "with_name", "build_system")


class Reg:
    __slots__ = ("kind", "plugin", "fn", "sched", "val", "cond", "where", "ta")
    def __repr__(self): return "%s %s %s%s" % (self.plugin.split("::")[-1], self.kind, show(self.val)[:60], " COND" if self.cond else "")


def reaching(P, pats):
    """names of our functions that (transitively) call something matching"""
    r = re.compile("|".join(pats)); up = {}
    seed = set()
    for f in P.fns.values():
        if not OURS.match(f.name): continue
        for b, x in enumerate(f.bb):
            if not x or x[1][0] != "call" or not isinstance(x[1][1], dict) or "k" not in x[1][1]: continue
            k = x[1][1]["k"]
            if r.search(k["fn"]): seed.add(f.id)
            for n in (k.get("res"), k.get("id")):
                if n: up.setdefault(n, set()).add(f.id)
    todo = list(seed)
    while todo:
        for p in up.get(todo.pop(), ()):
            if p not in seed: seed.add(p); todo.append(p)
    return {P.fns[i].name for i in seed if i in P.fns}


def typeof(v):
    v = strip(v)
    if v.op == "agg": return v.args[0]
    return None


def node(v):
    """key of a schedule-graph node, None when it is not understood"""
    v = strip(v)
    if v.op == "fn": return "sys:" + v.args[0]
    if v.op == "agg" and v.args[0].startswith("closure"): return "sys:" + v.args[0]
    if v.op in ("agg", "c", "zst", "ctor"): return "set:" + show(v)
    return None


class Graph:
    """ordering of one schedule, with the union of the configurations of a set of plugins"""
    def __init__(self):
        self.after = {}      # node -> set of nodes that come after
        self.sup = {}        # node -> sets it is in
        self.sub = {}
        self.systems = {}    # system name -> [Reg]
        self.runif = {}      # node -> [condition values]
        self.bad = []
    def edge(self, a, b): self.after.setdefault(a, set()).add(b)
    def member(self, m, s): self.sup.setdefault(m, set()).add(s); self.sub.setdefault(s, set()).add(m)
    def add(self, r):
        for n in self.items(r.val, r):
            if r.kind == "add_systems": self.systems.setdefault(n[4:], []).append(r)
    def items(self, v, r):
        """nodes of a configuration value; records its constraints"""
        v = strip(v)
        if v.op == "agg" and v.args[0] in ("()", "tuple", ""):
            return [n for x in v.args[2] for n in self.items(x, r)]
        if v.op == "call":
            last = v.args[0].split("::")[-1]; a = v.args[1]
            if last in ("in_set", "before", "after", "before_ignore_deferred", "after_ignore_deferred", "run_if", "distributive_run_if"):
                m = self.items(a[0], r)
                if "run_if" in last:
                    for n in m: self.runif.setdefault(n, []).append(a[1])
                    return m
                for s in self.items(a[1], r):
                    for n in m:
                        if last == "in_set": self.member(n, s)
                        elif last.startswith("before"): self.edge(n, s)
                        else: self.edge(s, n)
                return m
            if last in ("chain", "chain_ignore_deferred"):
                x = strip(a[0])
                inner = x
                while inner.op == "call" and inner.args[0].split("::")[-1] in ("in_set", "before", "after", "run_if", "distributive_run_if", "ambiguous_with"): inner = strip(inner.args[1][0])
                m = self.items(x, r)
                if inner.op == "agg" and inner.args[0] in ("()", "tuple", ""):
                    gs = [Graph.items(Graph(), y, r) for y in inner.args[2]]
                    for p, q in zip(gs, gs[1:]):
                        for i in p:
                            for j in q: self.edge(i, j)
                return m
            fs = [x for x in subvals(v) if x.op == "fn" and OURS.match(x.args[0]) and "{closure" not in x.args[0]]
            if last in KEEP or "FunctionSystem" in v.args[0] or "SystemState" in v.args[0]:
                names = {x.args[0] for x in fs}
                if len(names) == 1: return ["sys:" + names.pop()]
                if a: return self.items(a[0], r)
        n = node(v)
        if n is None: self.bad.append((show(v)[:80], r)); return []
        return [n]
    def within(self, n):
        """n and everything inside it"""
        out = {n}; todo = [n]
        while todo:
            for m in self.sub.get(todo.pop(), ()):
                if m not in out: out.add(m); todo.append(m)
        return out
    def above(self, n):
        out = {n}; todo = [n]
        while todo:
            for m in self.sup.get(todo.pop(), ()):
                if m not in out: out.add(m); todo.append(m)
        return out
    def before(self, a, b):
        """a always runs before b"""
        seen = set(); todo = [a]
        goal = self.above(b)
        while todo:
            n = todo.pop()
            for x in ({s for w in self.within(n) for s in self.above(w)} if n != a else self.above(a)):
                for y in self.after.get(x, ()):
                    if y in goal: return True
                    if y not in seen: seen.add(y); todo.append(y)
        return False


class Ecs:
    def __init__(self, c):
        P = c.P
        self.P = P
        self.regs = {}       # plugin type -> [Reg]
        self.undecided = []
        reach = reaching(P, list(CALLS.values()))
        only = ["^" + re.escape(n) + "$" for n in reach]
        self.builders = []
        for f in sorted(P.fns.values(), key=lambda f: f.name):
            m = re.match(r"<(.*) as bevy_app::plugin(?:_group)?::Plugin(?:Group)?>::(build|finish)$", f.name)
            if not m or not OURS.match(f.name) or not f.bb or "CALLSITE" in f.name: continue
            self.run(c, f, interp.typarse(m.group(1))[0], only)
    def run(self, c, f, plugin, only):
        if (plugin, f.name) in self.builders: return
        self.builders.append((plugin, f.name))
        rules = [(re.compile(p), k) for k, p in CALLS.items()]
        def kind(names):
            for r, k in rules:
                if any(r.search(n) for n in names): return k
            return None
        def mon(it, st, k, info):
            if k == "call":
                names, args, fr, bb = info
                q = kind(names)
                if q: st.mon = st.mon + ((q, fr.fn.id, bb, fr.ctx),) if (q, fr.fn.id, bb, fr.ctx) not in st.mon else st.mon
        added = lambda it, st, fr, a, s: mk("call", "is_plugin_added", (mk("ty", ",".join(it.cur_ta)),), None)
        s = scen(c, "registrations", f, events=list(CALLS.values()), stubs=[(r"App::is_plugin_added$", added)] + [(p, lambda it, st, fr, a, s: a[0] if a else None) for p in CALLS.values()],
                 inline_only=only, monitor=mon, writes=False)
        exits = [e for e in s.it.events if e.kind == "exit"]
        if not exits: self.undecided.append((plugin, "no exit"))
        out = self.regs.setdefault(plugin, [])
        for e in s.it.events:
            if e.kind != "call": continue
            q = kind(e.names)
            if not q: continue
            r = Reg(); r.kind = q; r.plugin = plugin; r.fn = f; r.where = e.where(); r.ta = e.ta
            if q in ("configure_sets", "add_systems"): r.sched = show(strip(e.args[1])); r.val = e.args[2]
            else: r.sched = None; r.val = e.args[1]
            r.cond = None
            key = (q, e.fn.id, e.bb, e.ctx)
            for x in exits:
                if key in x.state.mon: continue
                if not self.excused(q, r, literals(x.state)): r.cond = [("" if b else "!") + show(l)[:80] for l, b in literals(x.state)]
            out.append(r)
    def excused(self, q, r, lits):
        for l, b in lits:
            if l.op == "call" and l.args[0] == "is_plugin_added" and b:
                t = strip(l.args[1][0]).args[0]
                if q == "add_plugins":
                    if any(interp.typarse(x)[0] == interp.typarse(t)[0] for x in self.plugins(r.val)): return True
                if t.endswith("CorePlugins"): return True     # SharedPlugins already added
            if has_call(l, "World::remove_resource|remove_resource"): return True   # finish() runs once
        return False
    def plugins(self, v):
        v = strip(v)
        if v.op == "agg" and v.args[0] in ("()", "tuple", ""): return [t for x in v.args[2] for t in self.plugins(x)]
        t = typeof(v)
        if v.op == "call" and v.args[0].endswith("Default::default") and v.args[1]:
            x = strip(v.args[1][0])
            if x.op == "ty": return [interp.typarse(x.args[0])[0]]
        if t is None and v.op in ("c", "zst", "ctor"): t = str(v.args[0])
        return [t] if t else []
    def closure(self, *roots):
        seen = []; todo = list(roots)
        while todo:
            p = todo.pop(0)
            if p in seen: continue
            seen.append(p)
            for r in self.regs.get(p, ()):
                if r.kind in ("add_plugins", "group_add") and not r.cond:
                    for t in self.plugins(r.val):
                        if t not in seen: todo.append(t)
        return seen
    def graph(self, plugins, sched):
        g = Graph()
        for p in plugins:
            for r in self.regs.get(p, ()):
                if r.kind in ("configure_sets", "add_systems") and r.sched == sched and not r.cond: g.add(r)
        return g
    def observers(self, plugins):
        out = {}
        for p in plugins:
            for r in self.regs.get(p, ()):
                if r.kind == "add_observer" and not r.cond:
                    for x in subvals(r.val):
                        if x.op == "fn": out.setdefault(x.args[0], r)
        return out


_ecs = {}
def ecs(c):
    if id(c.P) not in _ecs: _ecs[id(c.P)] = Ecs(c)
    return _ecs[id(c.P)]


# ------------------------------------------------------------------------------------------------ schedules
SYNC = "lightyear_sync::"
IO = [  # plugin, receive system, send system
    ("lightyear_udp::UdpPlugin", "lightyear_udp::UdpPlugin::receive", "lightyear_udp::UdpPlugin::send"),
    ("lightyear_udp::server::ServerUdpPlugin", "lightyear_udp::server::ServerUdpPlugin::receive", "lightyear_udp::server::ServerUdpPlugin::send"),
    ("lightyear_crossbeam::CrossbeamPlugin", "lightyear_crossbeam::CrossbeamPlugin::receive", "lightyear_crossbeam::CrossbeamPlugin::send"),
    ("lightyear_aeronet::AeronetPlugin", "lightyear_aeronet::AeronetPlugin::receive", "lightyear_aeronet::AeronetPlugin::send"),
]
CONN = [
    ("lightyear_netcode::client_plugin::NetcodeClientPlugin", "lightyear_netcode::client_plugin::NetcodeClientPlugin::receive", "lightyear_netcode::client_plugin::NetcodeClientPlugin::send"),
    ("lightyear_netcode::server_plugin::NetcodeServerPlugin", "lightyear_netcode::server_plugin::NetcodeServerPlugin::receive", "lightyear_netcode::server_plugin::NetcodeServerPlugin::send"),
    ("lightyear_connection::client::ConnectionPlugin", None, None),      # no connection layer of its own
]
LINKP = "lightyear_link::LinkPlugin"; TRANSP = "lightyear_transport::plugin::TransportPlugin"; MSGP = "lightyear_messages::plugin::MessagePlugin"
PINGP = "lightyear_sync::ping::plugin::PingPlugin"; P2PP = "lightyear_p2p::session::P2PSessionPlugin"
COND = "lightyear_link::LinkPlugin::apply_link_conditioner"
TRX, TTX = TRANSP + "::buffer_receive", TRANSP + "::buffer_send"
MRX, MTX, MREL, MCLEAR, MLOCAL = (MSGP + "::" + n for n in ("recv", "send", "release_timeline", "clear", "send_local"))
PRX, PTX = PINGP + "::receive", PINGP + "::send"
P2PD, P2PS = "lightyear_p2p::session::drive_session", "lightyear_p2p::session::start_session_before_agreed_tick"
INC = "lightyear_core::timeline::increment_local_tick"
CLIENTG, SERVERG = "lightyear::client::ClientPlugins", "lightyear::server::ServerPlugins"


def sysname(c, n):
    return c.fn(n).name


def stacks(E):
    """(description, plugins): every transport x connection combination on its own, and the two plugin groups"""
    for io, irx, itx in IO:
        for cn, crx, ctx in CONN:
            yield ("%s over %s" % (cn.split("::")[-1], io.split("::")[-1]), E.closure(io, cn, MSGP, PINGP, P2PP), irx, itx, crx, ctx)
    for g, conns in ((CLIENTG, CONN[:1]), (SERVERG, CONN[1:2])):
        cl = E.closure(g)
        for io, irx, itx in IO:
            if io not in cl: continue
            for cn, crx, ctx in conns: yield ("%s, %s" % (g.split("::")[-1], io.split("::")[-1]), cl, irx, itx, crx, ctx)


def place(c, E, g, name, sched, what):
    """the system is registered, unconditionally and without a run condition"""
    rs = g.systems.get(name)
    if not rs:
        where = next((r.where for p in E.regs for r in E.regs[p] if r.kind == "add_systems" and any(x.op == "fn" and x.args[0] == name for x in subvals(r.val))), "")
        c.bad("%s: %s runs in %s" % (what, name.split("::", 1)[1], sched), "every layer of the stack is driven once per frame, in its schedule", where or name)
        return False
    if len({(r.fn.id, r.where) for r in rs}) > 1:
        c.bad("%s: %s is registered once" % (what, name), "a layer is driven once per frame", rs[0].where); return False
    conds = [x for n in g.above("sys:" + name) for x in g.runif.get(n, ())]
    if conds:
        c.bad("%s: %s runs every frame" % (what, name), "no run condition may suspend a layer: %s" % show(conds[0])[:80], rs[0].where); return False
    c.ok("%s: %s driven in %s" % (what, name, sched), "once per run, unconditionally")
    return True


def ordered(c, E, g, seq, sched, what, why):
    seq = [s for s in seq if s]
    if g.bad:
        c.undecided("%s %s" % (what, sched), "configuration not understood: %s" % g.bad[0][0])
    ok = [s for s in seq if place(c, E, g, s, sched, what)]
    for a, b in zip(ok, ok[1:]):
        r = g.systems[b][0]
        if g.before("sys:" + a, "sys:" + b):
            if g.before("sys:" + b, "sys:" + a): c.bad("%s: %s and %s ordered both ways" % (what, a, b), why, r.where)
            else: c.ok("%s: %s < %s" % (what, a, b), why)
        elif not g.bad:
            c.bad("%s: %s runs before %s" % (what, a.split("::", 1)[1], b.split("::", 1)[1]), why, r.where)


LAYERS = {   # the entities each layer serves: what its queries may require ("!": exclude)
    "lightyear_udp::UdpPlugin::receive": "Link Linked UdpIo", "lightyear_udp::UdpPlugin::send": "Link Linked PeerAddr UdpIo",
    "lightyear_udp::server::ServerUdpPlugin::receive": "Linked ServerUdpIo Server Link UdpLinkOfIO", "lightyear_udp::server::ServerUdpPlugin::send": "Linked Server ServerUdpIo Link PeerAddr UdpLinkOfIO LinkOf",
    "lightyear_crossbeam::CrossbeamPlugin::receive": "CrossbeamIo Link Linked", "lightyear_crossbeam::CrossbeamPlugin::send": "CrossbeamIo Link Linked",
    "lightyear_aeronet::AeronetPlugin::receive": "AeronetLinkOf Session Link Linked", "lightyear_aeronet::AeronetPlugin::send": "AeronetLinkOf Session Link Linked",
    CONN[0][1]: "!HostClient Link Linked NetcodeClient", CONN[0][2]: "!HostClient Link Linked NetcodeClient",
    CONN[1][1]: "!Stopped NetcodeServer Server !HostClient !SkipNetcode Link LinkOf", CONN[1][2]: "!Stopped NetcodeServer Server !HostClient !SkipNetcode Link LinkOf",
    COND: "Link Linked", TRX: "!HostClient Link Linked Transport", TTX: "!HostClient Link Linked Transport",
    MRX: "Connected MessageManager RemoteId Transport", MTX: "!HostClient Connected MessageManager Transport", MREL: "Connected MessageManager",
    PRX: "!HostClient Connected Link MessageReceiver PingManager", PTX: "!HostClient Connected MessageSender PingManager",
}
def served(c, *fns):
    """each layer handles every entity it is there for: its queries require and exclude nothing else"""
    for n in fns:
        if n not in LAYERS: continue
        f = c.fn(n); allowed = {(not x.startswith("!"), x.lstrip("!")) for x in LAYERS[n].split()}
        for i in range(1, f.argc + 1):
            if "query::Query<" not in str(f.ltys[i]) or not f.names.get(i): continue
            bad = sorted(narrowing(f, f.names[i]) - allowed)
            for w, x in bad: c.bad("%s: not only %s %s" % (n.split("::", 1)[1], "with" if w else "without", x), "the layer serves entities %s %s as well" % ("without" if w else "with", x), "%s:%s (%s)" % (f.file, f.line, f.name))
            if not bad: c.ok("%s: %s" % (n, f.names[i]), "the layer serves every entity it is there for")


@prop("E01", floor=60, explain="the ordering graph of PreUpdate is read off every plugin's build/finish; for every transport x connection stack each receive layer is reachable from the one below it")
def e01(c):
    E = ecs(c); n = 0
    for what, pl, irx, itx, crx, ctx in stacks(E):
        g = E.graph(pl, "PreUpdate"); n += 1
        base = [irx, COND, crx, TRX, MRX]
        why = "what arrived on the wire climbs every layer within the frame"
        ordered(c, E, g, base + [PRX], "PreUpdate", what, why)
        if P2PP in pl: ordered(c, E, g, [MRX, P2PD], "PreUpdate", what, "a session message is acted upon in the frame it arrives")
        ordered(c, E, g, [MRX, MREL], "PreUpdate", what, "messages received this frame can be released this frame")
        if irx == IO[3][1] and not g.before("set:IoSystems::Poll", "sys:" + irx):
            c.bad("%s: socket polled before the link reads it" % what, why, irx)
    for g0 in (CLIENTG,):
        g = E.graph(E.closure(g0), "PreUpdate")
        ordered(c, E, g, ["lightyear_sync::timeline::remote::advance_remote_timeline", MREL], "PreUpdate", g0.split("::")[-1], "messages wait for the timeline value of this frame")
    served(c, *[x[1] for x in IO], COND, CONN[0][1], CONN[1][1], TRX, MRX, MREL, PRX)
    c.note("%d stacks" % n)


@prop("E02", floor=60, explain="the ordering graph of PostUpdate is read off every plugin's build/finish; for every transport x connection stack each send layer reaches the one below it")
def e02(c):
    E = ecs(c); n = 0
    for what, pl, irx, itx, crx, ctx in stacks(E):
        g = E.graph(pl, "PostUpdate"); n += 1
        why = "what was queued this frame leaves in this frame"
        ordered(c, E, g, [PTX, MTX, TTX, ctx, itx], "PostUpdate", what, why)
        if itx == IO[3][2] and not g.before("sys:" + itx, "set:IoSystems::Flush"):
            c.bad("%s: socket flushed after the link wrote to it" % what, why, itx)
    served(c, *[x[2] for x in IO], CONN[0][2], CONN[1][2], TTX, MTX, PTX)
    c.note("%d stacks" % n)


PARAM = re.compile(r"system::query::Query<|system::(?:commands::)?(?:parallel_scope::)?(?:Commands|ParallelCommands)\b|Commands\b|change_detection::params::Res|Res(Mut)?<|Local<|Message(Writer|Reader)<|Single<|ParamSet<")
def handlers(P):
    """(observers, systems) of the library, by their signature"""
    obs, sysm = [], []
    for f in P.fns.values():
        if f.kind != "fn" or not f.argc or not OURS.match(f.name) or "::test" in f.name or not f.bb or "CALLSITE" in f.name: continue
        ts = [f.ltys[i] for i in range(1, f.argc + 1)]
        if any(not isinstance(t, str) for t in ts): continue
        if re.match(r"bevy_ecs::observer::system_param::On<|bevy_ecs::observer::.*\bOn<", ts[0]): obs.append(f)
        elif f.ltys[0] in ("()",) and all(PARAM.search(t) and not t.startswith("&") for t in ts): sysm.append(f)
    return obs, sysm


def given(P):
    """names of functions handed over as values: generic arguments and operands"""
    out = {}
    for f in P.fns.values():
        for b, x in enumerate(f.bb):
            if not x or x[1][0] != "call" or not isinstance(x[1][1], dict) or "k" not in x[1][1]: continue
            k = x[1][1]["k"]
            for i in k.get("ta", []):
                t = f.ty(i) if isinstance(i, int) else ""
                for n in re.findall(r"fn:([\w:<> ]+?)(?=[<,)>]|$)", t or ""): out.setdefault(n, []).append((f, k["fn"]))
    return out


@prop("E03", floor=70, explain="every function whose signature makes it an observer or a system is looked up among the registrations of the plugins that the client / server groups (or the feature's own plugin) bring in")
def e03(c):
    P = c.P; E = ecs(c)
    obs, sysm = handlers(P)
    registered = {}
    for p in E.regs:
        for r in E.regs[p]:
            if r.kind in ("add_observer", "add_systems") and not r.cond:
                for x in subvals(r.val):
                    if x.op == "fn": registered.setdefault(x.args[0], []).append(r)
                    if x.op == "agg" and x.args[0].startswith("closure"): pass
    val = given(P); callers = P.callers()
    groups = set(E.closure(CLIENTG)) | set(E.closure(SERVERG))
    for f in sorted(obs + sysm, key=lambda f: f.name):
        called = callers.get(f.id) or callers.get("name:" + f.name)
        what = "%s is registered" % f.name
        why = "a handler the library defines is driven by the app"
        rs = [r for r in registered.get(f.name, ()) if (f in obs) == (r.kind == "add_observer")]
        if rs:
            c.ok(what, why)
            # a handler of the stack itself must be reached from the groups a user adds
            if any(r.plugin in groups for r in rs): c.ok(what + " by the plugin groups", why)
        elif called: continue                                   # an ordinary helper
        elif any("add_observer" in k or "add_systems" in k or "observe" in k for g, k in val.get(f.name, ())):
            c.ok(what, why)                                     # registered outside a plugin
        elif any(OURS.match(g.name) for g, k in val.get(f.name, ())) and not (registered.get(f.name)): c.undecided(what, "handed over as a value: %s" % val[f.name][0][1])
        else: c.bad(what, why, "%s:%s (%s)" % (f.file, f.line, f.name))
    for p in sorted(E.regs):
        for r in E.regs[p]:
            if r.kind in ("add_observer", "add_systems"):
                c.check(not r.cond, "%s registers %s unconditionally" % (p.split("::", 1)[1], show(r.val)[:50]), "a handler is registered on every path of the plugin: %s" % (r.cond,), r.where)
    need = {p for p, _, _ in IO + CONN[:2]} | {LINKP, TRANSP, MSGP, PINGP, P2PP, "lightyear_connection::client::ConnectionPlugin", "lightyear_connection::server::ConnectionPlugin",
            "lightyear_connection::host::HostPlugin", "lightyear_connection::network_topology::NetworkTopologyPlugin", "lightyear_link::server::ServerLinkPlugin", "lightyear_core::timeline::TimelinePlugin"}
    for p in sorted(need):
        c.check(p in groups, "%s is brought in" % p, "the client or server group adds the layer", p)
    for g, ps in ((CLIENTG, [LINKP, TRANSP, MSGP, PINGP, P2PP, CONN[0][0], IO[0][0], IO[2][0], IO[3][0], "lightyear_sync::timeline::sync::LocalTimelineSyncPlugin", "lightyear_core::timeline::TimelinePlugin"]),
                  (SERVERG, [LINKP, TRANSP, MSGP, PINGP, CONN[1][0], IO[1][0], IO[2][0], IO[3][0], "lightyear_link::server::ServerLinkPlugin", "lightyear_connection::server::ConnectionPlugin", "lightyear_core::timeline::TimelinePlugin"])):
        cl = E.closure(g)
        for p in ps: c.check(p in cl, "%s brings in %s" % (g.split("::")[-1], p), "the group drives the layer", g)


@prop("E04", floor=8, explain="the ordering graphs of Last, FixedFirst and the frame: the buffers are cleared before local messages are queued, and clients are removed after their last packets left")
def e04(c):
    E = ecs(c); P = c.P
    for g0 in (CLIENTG, SERVERG, MSGP):
        g = E.graph(E.closure(g0), "Last")
        ordered(c, E, g, [MCLEAR, MLOCAL], "Last", g0.split("::")[-1], "what is queued locally at the end of a frame is still there in the next one")
    D = "lightyear_connection::server::ConnectionPlugin::disconnect"
    for g0 in (SERVERG, CONN[1][0]):
        g = E.graph(E.closure(g0), "Last")
        place(c, E, g, c.fn(D).name, "Last", g0.split("::")[-1])
    for g0 in (CLIENTG, SERVERG, "lightyear_core::plugin::CorePlugins"):
        cl = E.closure(g0)
        g = E.graph(cl, "FixedFirst")
        place(c, E, g, c.fn(INC).name, "FixedFirst", g0.split("::")[-1])
        n = [(p, r.sched) for p in cl for r in E.regs.get(p, ()) if r.kind == "add_systems" and any(x.op == "fn" and x.args[0] == INC for x in subvals(r.val))]
        c.check(len(set(n)) == 1, "%s: the tick advances in one place" % g0.split("::")[-1], "once per fixed step: %s" % n, INC)
    g = E.graph(E.closure(CLIENTG), "FixedFirst")
    ordered(c, E, g, [P2PS, INC], "FixedFirst", "ClientPlugins", "a session starts on the agreed tick, not one later")
