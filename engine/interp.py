"""Path-partitioned forward dataflow over the inlined MIR supergraph of one entry function.

No solver and no execution: values are hash-consed terms, facts are canonical literals and interval bounds on linear
combinations, states are merged at joins unless their enum/bool skeleton or monitor state differs (ESP-style)."""
import heapq, re
from values import *
import values
from facts import logtag, Program, MissingAnchor, fmt_place
import models

INT_RANGE = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
             "u128": (0, 2**128 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1),
             "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "char": (0, 0x10ffff), "bool": (0, 1)}
FLOATS = ("f32", "f64")
INF = float("inf")

class State:
    __slots__ = ("store", "facts", "must", "may", "mon")
    def __init__(self):
        self.store = {}; self.facts = {}; self.must = EMPTY; self.may = EMPTY; self.mon = ()
    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store); s.facts = dict(self.facts); s.must = self.must; s.may = self.may; s.mon = self.mon
        return s

class Frame:
    __slots__ = ("ctx", "fn", "parent", "cbb", "dest", "target", "prefix", "depth", "env", "dropflags", "inloop", "clsself")

class Event:
    __slots__ = ("kind", "name", "fn", "bb", "line", "args", "state", "ctx", "tag", "res", "root", "projs", "val", "names", "ta", "interp", "site", "rawargs")
    def where(self): return "%s:%s (%s)" % (self.fn.file, self.line, self.fn.name)

class Config:
    """policy hooks for one analysis"""
    max_depth = 9
    max_blocks = 400          # callee size bound for inlining
    part_cap = 28
    node_cap = 60000
    refine = 0
    paths = False   # no merging at joins of states reached under different conditions (loop-free code)
    def is_event(self, names): return False     # recorded and not inlined
    def watch(self, names): return False        # recorded, but still inlined / opaque as usual
    def no_inline(self, names): return False
    def on_call(self, it, st, fr, names, args, site): return None   # may return a V (result), no further effect
    def must_key(self, names): return None
    def step(self, it, st, kind, info): return None   # monitor transition: may set st.mon
    watch_writes = False
    split = ()                # predicates over literal keys that are added to the partition key

class TooBig(Exception): pass

def typarse(s):
    """(head, [arguments]) of a printed type"""
    s = s.strip()
    if s.startswith("(") and s.endswith(")"): return ("()", [typarse(x) for x in tysplit(s[1:-1])])
    if s.startswith("&mut "): return ("&mut", [typarse(s[5:])])
    if s.startswith("&"): return ("&", [typarse(s[1:])])
    i = s.find("<")
    if i <= 0 or not s.endswith(">"): return (s, [])
    return (s[:i], [typarse(x) for x in tysplit(s[i + 1:-1])])
def tysplit(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        elif ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    return [x.strip() for x in out + [cur] if x.strip()]
def tystr(t):
    h, a = t
    if h == "()": return "(" + ", ".join(tystr(x) for x in a) + ")"
    if h in ("&", "&mut"): return h + (" " if h == "&mut" else "") + tystr(a[0])
    return h + ("<" + ", ".join(tystr(x) for x in a) + ">" if a else "")

PURE = re.compile("|".join([
    r"::(len|is_empty|is_some|is_none|contains|contains_key|get|first|last|peek|front|back|capacity|remaining_mut)$",
    r"^core::cmp::", r"^core::ops::arith::", r"^core::ops::bit::", r"^core::convert::", r"^core::num::",
    r"^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64|bool|char|str)::", r"^core::time::Duration::",
    r"^core::ops::index::Index::index$", r"^\[T\]::(iter|len|get|first|last|contains|binary_search.*|as_ptr|to_vec|split_at|chunks.*)$",
    r"^core::any::", r"^core::mem::size_of", r"::(iter|values|keys|into_iter|drain|as_slice|as_bytes|as_ref|id|entity|index|position|elapsed|delta|timer|bits|to_bits|partition_point|partition_dedup)$",
    r"^core::default::Default::default$", r"::(new|with_capacity|from_bits|from_raw_u32|empty)$", r"^bevy_ecs::entity::", r"::(to_le_bytes|from_le_bytes|to_be_bytes|from_be_bytes)$",
    r"^core::iter::", r"^core::range::", r"^core::ops::range::", r"^bytes::.*::(len|slice|slice_ref|is_empty|copy_from_slice|from_static)$", r"^fixed::",
    r"^core::net::", r"^core::fmt::", r"^alloc::fmt::", r"^core::hint::must_use$", r"^core::hash::", r"^core::any::type_name$", r"^core::option::", r"^core::result::", r"^core::cell::.*::(get|borrow)$",
]))
IMPURE = re.compile(r"(Instant::now|SystemTime::now|rand|random|UNIX_EPOCH|Receiver::(try_recv|recv)|recv_from|AtomicU|Atomic::(load|fetch))")

SMART = re.compile(r"(?:bevy_ecs::[\w:]*::)?(ResMut|Mut|NonSendMut|Single|MutUntyped)<")
class Interp:
    def __init__(self, prog, cfg):
        self.P = prog; self.cfg = cfg; self.M = models.get()
        self.frames = []; self.fkey = {}; self.nids = {}; self.vty = {}
        self.events = []; self.recording = False
        self.lost = set(); self.split = set(); self.wanted = set()
        self.visits = 0
        self.inlined = set(); self.seen_calls = set()
        self.opaque = {}
        self.loopctx = {}
        self.hvnames = {}

    # ------------------------------------------------------------ ids
    def nid(self, ctx, bb):
        k = (ctx, bb)
        n = self.nids.get(k)
        if n is None:
            n = self.nids[k] = len(self.nids)
        return n
    def callsym(self, ctx, bb): return 2 * self.nid(ctx, bb) + 1
    def phisym(self, ctx, bb): return 2 * self.nid(ctx, bb)

    def frame(self, parent, cbb, fn, dest, target, env):
        key = (parent.ctx if parent else -1, cbb, fn.id)
        f = self.fkey.get(key)
        if f is None:
            f = Frame(); f.ctx = len(self.frames); f.fn = fn; f.parent = parent; f.cbb = cbb; f.dest = dest
            f.target = target; f.depth = parent.depth + 1 if parent else 0
            f.prefix = (parent.prefix + (parent.fn.rpo[cbb],)) if parent else ()
            f.env = env; f.dropflags = self.dropflags(fn)
            self.frames.append(f); self.fkey[key] = f
        return f
    def dropflags(self, fn):
        r = getattr(fn, "_lassign", None)
        if r is not None: return r
        out = set()
        cand = {}
        for b in fn.rpo:
            t = fn.bb[b][1]
            if t[0] == "switch" and isinstance(t[1], list) and len(t[1]) == 1 and fn.ltys[t[1][0]] == "bool":
                l = t[1][0]
                tgt = [x for _, x in t[2]] + [t[3]]
                isd = t[3] is not None and fn.bb[t[3]] and fn.bb[t[3]][1][0] == "drop" and not fn.bb[t[3]][0]
                cand.setdefault(l, []).append(isd)
        for l, v in cand.items():
            if any(v) and l not in fn.names: out.add(l)
        fn._lassign = out
        return out

    # ------------------------------------------------------------ places
    def default(self, root):
        if root[0] == "O": return root[1].args[0] if root[1].op == "&" else mk("*", root[1])
        return mk("hv", -1, "undef%s_%s" % (root[1], root[2]))
    def rd(self, st, root, projs):
        v = st.store.get(root)
        if v is None: v = self.default(root)
        for p in projs: v = self.get(v, p)
        return v
    def get(self, v, p):
        k = p[0]
        if k == "F":
            if v.op == "agg":
                if p[1] is None or v.args[1] == p[1] or not v.args[1] or v.args[0].startswith("closure:"):
                    fs = v.args[2]
                    if p[3] < len(fs): return fs[p[3]]
                    return mk("f", v, p[1] or "", p[2])
                return mk("bot", p[2])
            if v.op == "with":
                for q, x in v.args[1]:
                    if q[0] == "F" and q[1] == p[1] and q[3] == p[3]: return x
                return self.get(v.args[0], p)
            return mk("f", v, p[1] or "", p[2])
        if k == "I":
            i = p[1]
            if v.op == "agg" and v.args[0] == "[]" and isint(i) and 0 <= ival(i) < len(v.args[2]): return v.args[2][ival(i)]
            if v.op == "repeat": return v.args[0]
            if v.op == "with":
                unk = False
                for q, x in v.args[1]:
                    if q[0] == "I":
                        if q[1] is i: return x
                        if not (isint(q[1]) and isint(i)): unk = True
                    elif q[0] == "S": unk = True
                if not unk: return self.get(v.args[0], p)
            return mk("idx", v, i)
        if k == "S":
            if v.op == "with":
                for q, x in v.args[1]:
                    if q == p: return x
            return mk("slice", v, p[1], p[2], p[3])
        if k == "C":
            return mk("idxe", v, p[1])
        return mk("proj", v, str(p))
    def put(self, v, projs, new):
        if not projs: return new
        p = projs[0]
        old = self.get(v, p)
        sub_ = self.put(old, projs[1:], new)
        if sub_ is old: return v
        if v.op == "agg" and p[0] == "F" and p[3] < len(v.args[2]) and (p[1] is None or p[1] == v.args[1] or not v.args[1]):
            fs = list(v.args[2]); fs[p[3]] = sub_
            return mk("agg", v.args[0], v.args[1], tuple(fs))
        if v.op == "agg" and v.args[0] == "[]" and p[0] == "I" and isint(p[1]) and 0 <= ival(p[1]) < len(v.args[2]):
            fs = list(v.args[2]); fs[ival(p[1])] = sub_
            return mk("agg", "[]", "", tuple(fs))
        base, ups = (v.args[0], dict(v.args[1])) if v.op == "with" else (v, {})
        if p[0] in ("I", "S"):
            clash = [q for q in ups if q[0] in ("I", "S") and q != p and not (q[0] == "I" and p[0] == "I" and isint(q[1]) and isint(p[1]))]
            if clash:
                base = v; ups = {}
        if self.get(base, p) is sub_ and base.op != "with": ups.pop(p, None)
        else: ups[p] = sub_
        if not ups: return base
        return mk("with", base, tuple(sorted(ups.items(), key=lambda kv: repr((kv[0][0], show_proj(kv[0]))))))
    def wr(self, st, root, projs, val):
        if projs:
            v = st.store.get(root)
            if v is None: v = self.default(root)
            st.store[root] = self.put(v, projs, val)
        else: st.store[root] = val

    def place(self, st, fr, pl):
        root = ("L", fr.ctx, pl[0]); projs = (); var = None
        for p in pl[1:]:
            if p == "*":
                v = self.rd(st, root, projs)
                root, projs = self.deref(v)
            elif p[0] == "f":
                projs = projs + (("F", var, p[2], p[1]),); var = None
            elif p[0] == "d": var = p[2]
            elif p[0] == "i":
                projs = projs + (("I", self.rd(st, ("L", fr.ctx, p[1]), ())),)
            elif p[0] == "c":
                projs = projs + ((("C", p[1]) if p[2] else ("I", const(p[1]))),)
            elif p[0] == "s": projs = projs + (("S", p[1], p[2], p[3]),)
        return root, projs
    def deref(self, v):
        if v.op == "ref": return v.args[0], v.args[1]
        if v.op == "&":   # normalised pure argument; content known
            return ("O", v), ()
        return ("O", v), ()
    def mkref(self, root, projs):
        if root[0] == "O" and not projs: return root[1]
        return mk("ref", root, projs)
    def tyof_place(self, fr, pl):
        for p in reversed(pl[1:]):
            if isinstance(p, list) and p[0] == "f":
                if pl[-1] is p: return fr.fn.ty(p[4])
                return None
        if len(pl) == 1: return fr.fn.ltys[pl[0]]
        return None
    def read_place(self, st, fr, pl):
        if len(pl) == 1:
            v = st.store.get(("L", fr.ctx, pl[0]))
            if v is None: v = self.default(("L", fr.ctx, pl[0]))
        else:
            root, projs = self.place(st, fr, pl)
            v = self.rd(st, root, projs)
        if v not in self.vty and v.op not in ("c", "agg"):
            t = self.tyof_place(fr, pl)
            if t: self.vty[v] = t
        return v

    # ------------------------------------------------------------ operands / rvalues
    def constop(self, st, fr, o):
        if "k" in o: return self.fnval(fr, o["k"])
        if "c" in o:
            c = o["c"]
            if isinstance(c, (bool, int)): return const(c)
            if isinstance(c, float): return const(c)
            return const(str(c))
        if "s" in o: return const(str(o["s"]))
        if "v" in o:
            x = o["v"]
            return self.constval(st, fr, x)
        if "prom" in o: return self.promoted(st, fr, o["prom"])
        if "cp" in o: return mk("cparam", str(o["cp"]))
        t = fr.fn.ty(o["t"]) if "t" in o else ""
        if t == "()" : return UNIT
        nm = o.get("named") or o.get("static")
        if nm: return mk("named", str(nm))
        if t.startswith("closure:"): return mk("agg", t, "", ())
        if t.startswith("fn:"): return mk("zst", t)
        if "o" in o and len(o) == 2:
            adt = self.P.adts.get(t)
            if adt and not adt["enum"] and len(adt["vars"]) == 1 and not adt["vars"][0][2]: return mk("agg", t, adt["vars"][0][0], ())
            return mk("copaque", t)
        return mk("copaque", repr(sorted(o.items(), key=str)))
    def constval(self, st, fr, x):
        if isinstance(x, dict) and "adt" in x:
            fs = [self.constval(st, fr, y) for y in x.get("f", [])]
            if x["adt"] in ("()", "tuple"): return mk("agg", "()", "", tuple(fs))
            return mk("agg", x["adt"], x.get("var") or "", tuple(fs))
        if isinstance(x, dict): return self.constop(st, fr, x)
        if isinstance(x, (bool, int, float)): return const(x)
        if isinstance(x, list): return mk("agg", "()", "", tuple(self.constval(st, fr, y) for y in x))
        return const(str(x))
    def promoted(self, st, fr, pr):
        f = self.P.fns.get("%s::promoted%s" % (pr[0], pr[1])) or self.M.fns.get("%s::promoted%s" % (pr[0], pr[1]))
        if f is None: return mk("prom", pr[0], pr[1])
        pf = self.frame(None, ("prom", f.id), f, None, None, {})
        pf.prefix = (0,)
        bb = 0
        for _ in range(40):
            x = f.bb[bb]
            for s in x[0]: self.stmt(st, pf, s, bb)
            t = x[1]
            if t[0] == "return": break
            if t[0] == "goto": bb = t[1]; continue
            if t[0] == "call" and t[4] is not None:
                args = [self.operand(st, pf, a) for a in t[2]]
                nm = t[1]["k"]["fn"] if isinstance(t[1], dict) and "k" in t[1] else "?"
                k = t[1].get("k") if isinstance(t[1], dict) else None
                ta = self.subst(fr, f.ty(k["ta"][0])) if k and k.get("ta") and isinstance(k["ta"][0], int) else None
                if nm == "core::mem::size_of" and ta in SIZES: v = const(SIZES[ta])
                elif k and k.get("ctor"): v = mk("agg", k["ctor"][0], k["ctor"][1], tuple(args))
                else: v = mk("call", nm, tuple(self.normarg(st, a) for a in args), None)
                r, p = self.place(st, pf, t[3]); self.wr(st, r, p, v)
                bb = t[4]; continue
            if t[0] == "assert": bb = t[5]; continue
            break
        return self.rd(st, ("L", pf.ctx, 0), ())
    def fnval(self, fr, k):
        if k.get("ctor"): return mk("ctor", k["ctor"][0], k["ctor"][1])
        tas = tuple(self.subst(fr, fr.fn.ty(i)) for i in k.get("ta", []) if isinstance(i, int))
        return mk("fn", k["fn"], k["id"], k.get("res") or "", k.get("tr") or "", tas)
    def subst(self, fr, t):
        if not fr.env: return t
        if t in fr.env: return fr.env[t]
        for g, c in fr.env.items():
            if g in t: t = re.sub(r"(?<![\w:])%s(?![\w:])" % re.escape(g), lambda m: c, t)
        return t
    def operand(self, st, fr, o):
        if isinstance(o, list): return self.read_place(st, fr, o)
        return self.constop(st, fr, o)
    def opty(self, fr, o):
        if isinstance(o, list):
            return self.tyof_place(fr, o)
        if isinstance(o, dict) and "t" in o: return fr.fn.ty(o["t"])
        return None

    def isfloatty(self, t): return t in FLOATS
    def rvalue(self, st, fr, rv, bb):
        k = rv[0]
        if k == "use": return self.operand(st, fr, rv[1])
        if k in ("ref", "raw", "addr"):
            root, projs = self.place(st, fr, rv[1])
            t = self.tyof_place(fr, rv[1])
            if t:
                v = self.rd(st, root, projs)
                if v.op not in ("c", "agg") and v not in self.vty: self.vty[v] = t
            return self.mkref(root, projs)
        if k == "bin":
            a = self.operand(st, fr, rv[2]); b = self.operand(st, fr, rv[3])
            ty = fr.fn.ty(rv[4]) if len(rv) > 4 and isinstance(rv[4], int) else self.opty(fr, rv[2])
            return self.binop(rv[1], a, b, ty, self.opty(fr, rv[2]) or ty)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if isbool(a) or self.boolish(fr, rv[2], a): return notv(a)
                return mk("un", "Not", a)
            if rv[1] == "Neg":
                t = self.opty(fr, rv[2])
                if t in INT_RANGE: return sub(const(0), a)
                return mk("un", "Neg", a)
            if rv[1] == "PtrMetadata": return self.lenof(st, a)
            return mk("un", rv[1], a)
        if k == "cast":
            return self.cast(st, fr, rv)
        if k == "disc":
            root, projs = self.place(st, fr, rv[1])
            return self.disc(self.rd(st, root, projs), fr.fn.ty(rv[2]) if len(rv) > 2 and isinstance(rv[2], int) else None)
        if k == "agg":
            fs = tuple(self.operand(st, fr, o) for o in rv[-1])
            kind = rv[1]
            if kind == "tuple": return mk("agg", "()", "", fs)
            if kind == "array": return mk("agg", "[]", "", fs)
            nm = rv[2]
            if kind == "closure" or isinstance(nm, list):
                if isinstance(nm, list): nm, var = nm[0], nm[1]
                else: var = rv[3] if len(rv) > 4 else ""
            else: var = rv[3] if len(rv) > 4 else ""
            if kind == "closure": return mk("agg", "closure:" + nm, "", fs)
            return mk("agg", nm, var or "", fs)
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return mk("repeat", v, str(rv[2]) if len(rv) > 2 else "")
        if k == "static": return mk("static", str(rv[1]))
        if k == "len":
            root, projs = self.place(st, fr, rv[1]); return self.lenof(st, self.mkref(root, projs))
        return mk("rv", k, repr(rv[1:]))
    def boolish(self, fr, o, a):
        return self.opty(fr, o) == "bool" or a.op in ("le", "ieq", "deq", "not", "and", "flt", "fle", "veq")
    def lenof(self, st, a):
        if a.op == "ref":
            v = self.rd(st, a.args[0], a.args[1])
            return self.lenval(v)
        return self.lenval(mk("*", a) if a.op not in ("&",) else a.args[0])
    def lenval(self, v):
        if v.op == "agg" and v.args[0] == "[]": return const(len(v.args[2]))
        if v.op == "with" and all(q[0] in ("I", "S") for q, _ in v.args[1]): return self.lenval(v.args[0])
        if v.op == "repeat" and v.args[1].isdigit(): return const(int(v.args[1]))
        t = self.vty.get(v)
        if t:
            m = re.match(r"\[.*; (\d+)\]$", t)
            if m: return const(int(m.group(1)))
        r = mk("len", v); self.vty[r] = "usize"
        return r
    def cast(self, st, fr, rv):
        op = rv[1]; v = self.operand(st, fr, op)
        ty = fr.fn.ty(rv[2]); kind = rv[3]; fty = fr.fn.ty(rv[4]) if len(rv) > 4 and isinstance(rv[4], int) else None
        if kind.startswith("int"):
            return self.intcast(v, fty, ty)
        if kind.startswith(("coerce", "ptr", "transmute_ref")): return v
        if kind.startswith("float") or kind.startswith("int_to_float"):
            return mk("cast", ty, v)
        return mk("cast", ty, v)
    def intcast(self, v, fty, ty):
        a, b = INT_RANGE.get(fty), INT_RANGE.get(ty)
        if b is None: return mk("cast", ty, v)
        if isint(v):
            n = ival(v)
            if b[0] <= n <= b[1]: return v
            m = b[1] - b[0] + 1
            return const((n - b[0]) % m + b[0])
        if bval(v) is not None: return const(1 if bval(v) else 0)
        if fty == "bool" or v.op in BOOLOPS:
            r = mk("cast", ty, v); self.vty[r] = ty
            return r
        if a and b[0] <= a[0] and a[1] <= b[1]: return v
        if v.op == "cast" and v.args[0] == ty: return v
        t = INT_RANGE.get(self.vty.get(v))
        if t and b[0] <= t[0] and t[1] <= b[1]: return v
        r = mk("cast", ty, v); self.vty[r] = ty
        if v.op == "bits":
            q = self.fold(r, ty)
            if q is not None: return q
        return r
    def disc(self, v, adtty=None):
        if v.op == "agg":
            a = self.P.adts.get(v.args[0]) or self.M.adts.get(v.args[0])
            if a:
                for n, d, _ in a["vars"]:
                    if n == v.args[1]: return const(d)
        if v.op == "with":
            b = v.args[0]
            if b.op == "agg": return self.disc(b)
            # payload updates do not change the variant
            if all(q[0] == "F" and q[1] for q, _ in v.args[1]): return mk("disc", b)
        return mk("disc", v)

    CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
    def binop(self, op, a, b, ty, opty):
        if op.endswith("WithOverflow"):
            r = self.arith(op[:-12], a, b, opty if opty in INT_RANGE or opty in FLOATS else ty)
            return mk("agg", "()", "", (r, mk("ovf", op[:-12], a, b)))
        if op in self.CMP: return self.cmpop(op, a, b, opty or ty)
        return self.arith(op.replace("Unchecked", ""), a, b, ty or opty)
    def arith(self, op, a, b, ty):
        if self.isfloatty(ty):
            if op in ("Add", "Mul"): a, b = sorted((a, b), key=lambda v: v.id)
            return mk("bin", op, a, b)
        if op == "Add": r = add(a, b)
        elif op == "Sub": r = sub(a, b)
        elif op == "Mul": r = mul(a, b)
        else:
            x, y = ival(a), ival(b)
            if ty == "bool" or (op in ("BitAnd", "BitOr", "BitXor") and (isbool(a) or isbool(b) or a.op in BOOLOPS or b.op in BOOLOPS)):
                if op == "BitAnd": return andv(a, b)
                if op == "BitOr": return orv(a, b)
                if op == "BitXor":
                    if bval(a) is not None: return b if not bval(a) else notv(b)
                    if bval(b) is not None: return a if not bval(b) else notv(a)
            if x is not None and y is not None and y >= 0:
                try:
                    if op == "BitAnd": return const(x & y)
                    if op == "BitOr": return const(x | y)
                    if op == "BitXor": return const(x ^ y)
                    if op == "Shl":
                        r = x << y
                        if ty in INT_RANGE and INT_RANGE[ty][0] == 0: r &= INT_RANGE[ty][1]
                        return const(r)
                    if op == "Shr": return const(x >> y)
                    if op == "Div" and y and x >= 0: return const(x // y)
                    if op == "Rem" and y and x >= 0: return const(x % y)
                except Exception: pass
            if op == "Shl" and x is None and y is not None and False: pass
            if op in ("BitOr", "BitXor") and (x == 0 or y == 0): return b if x == 0 else a
            if op in ("Shl", "Shr") and y == 0: return a
            if op in ("BitAnd", "BitOr", "BitXor"): a, b = sorted((a, b), key=lambda v: v.id)
            r = mk("bin", op, a, b)
            if op in ("BitAnd", "Shr") and (x is not None or y is not None) or a.op == "bits" and isint(b):
                q = self.fold(r, ty)
                if q is not None: return q
        if ty and r.op not in ("c",): self.vty.setdefault(r, ty)
        return r
    # ---- bit provenance: which bit of which value each bit of an expression is
    def isboolv(self, v): return isbool(v) or v.op in BOOLOPS or self.vty.get(v) == "bool"
    def width(self, v):
        m = re.match(r"u(8|16|32|64)$", self.vty.get(v) or "")
        return int(m.group(1)) if m else None
    def bits(self, v, d=0):
        """64 entries: 0, 1, (value, bit) or None"""
        if isint(v): return [(ival(v) >> k) & 1 for k in range(64)] if ival(v) >= 0 else [None] * 64
        if v.op == "bits": return list(v.args[0]) + [0] * (64 - len(v.args[0]))
        if v.op == "cast" and d < 12:
            m = re.match(r"u(8|16|32|64|size)$", v.args[0])
            if self.isboolv(v.args[1]): return [(v.args[1], 0)] + [0] * 63
            if m:
                w = 64 if m.group(1) == "size" else int(m.group(1))
                return self.bits(v.args[1], d + 1)[:w] + [0] * (64 - w)
        if v.op == "un" and v.args[0] == "Not" and d < 12:
            return [None if b is None or isinstance(b, tuple) else 1 - b for b in self.bits(v.args[1], d + 1)]
        if v.op == "bin" and d < 12:
            op, a, b = v.args
            if op in ("BitAnd", "BitOr", "BitXor"):
                x, y = self.bits(a, d + 1), self.bits(b, d + 1); out = []
                for p, q in zip(x, y):
                    if op == "BitAnd": r = 0 if p == 0 or q == 0 else (q if p == 1 else (p if q == 1 else (p if p is not None and p == q else None)))
                    elif op == "BitOr": r = 1 if p == 1 or q == 1 else (q if p == 0 else (p if q == 0 else (p if p is not None and p == q else None)))
                    else: r = q if p == 0 else (p if q == 0 else (p ^ q if p in (0, 1) and q in (0, 1) else None))
                    out.append(r)
                return out
            if op in ("Shl", "Shr") and isint(b) and 0 <= ival(b) < 64:
                x = self.bits(a, d + 1); n = ival(b)
                if op == "Shr": return x[n:] + [0] * n
                w = self.width(v) or 64
                return (([0] * n + x)[:w] + [0] * 64)[:64]
        w = self.width(v)
        return [(v, k) for k in range(w)] + [0] * (64 - w) if w else [(v, k) for k in range(64)]
    def fold(self, v, ty):
        bs = self.bits(v)
        if all(b in (0, 1) and b is not None for b in bs): return const(sum(b << k for k, b in enumerate(bs)))
        if isinstance(bs[0], tuple) and bs[0][0] is not v and bs[0][1] == 0:
            x = bs[0][0]
            if self.isboolv(x): return mk("cast", ty, x) if all(b == 0 for b in bs[1:]) else None
            w = self.width(x)
            if w and all(b == (x, k) for k, b in enumerate(bs[:w])) and all(b == 0 for b in bs[w:]): return x
        return None
    def iszero(self, v):
        """truth value of v == 0 when the bits say so"""
        if v.op not in ("bin", "cast", "bits"): return None
        bs = self.bits(v)
        if any(b == 1 for b in bs): return FALSE
        nz = [b for b in bs if b != 0]
        if not nz: return TRUE
        if len(nz) == 1 and nz[0] is not None and self.isboolv(nz[0][0]): return notv(nz[0][0])
        return None
    def cmpop(self, op, a, b, ty):
        for p, q in ((a, b), (b, a)):
            if op in ("Eq", "Ne") and p.op in ("bin", "cast") and isint(q) and ival(q) == 0:
                z = self.iszero(p)
                if z is not None: return z if op == "Eq" else notv(z)
        if self.isfloatty(ty):
            if op == "Lt": return mk("flt", a, b)
            if op == "Gt": return mk("flt", b, a)
            if op == "Ge": return notv(mk("flt", a, b))
            if op == "Le": return notv(mk("flt", b, a))
            r = mk("veq", *sorted((a, b), key=lambda v: v.id))
            return r if op == "Eq" else notv(r)
        if op in ("Eq", "Ne"):
            r = self.eqv(a, b, ty)
            return r if op == "Eq" else notv(r)
        if op == "Lt": return lt(a, b)
        if op == "Gt": return lt(b, a)
        if op == "Le": return le(a, b)
        return le(b, a)
    def eqv(self, a, b, ty=None):
        if a is b and not self.isfloatty(ty): return TRUE
        for x, y in ((a, b), (b, a)):
            k = bval(x)
            if k is not None: return y if k else notv(y)
        if ty == "bool" or a.op in BOOLOPS: return mk("veq", *sorted((a, b), key=lambda v: v.id))
        if isint(a) or isint(b) or ty in INT_RANGE: 
            if a.op == "disc" and isint(b): return deq(a.args[0], ival(b))
            if b.op == "disc" and isint(a): return deq(b.args[0], ival(a))
            return ieq(a, b)
        if a.op == "c" and b.op == "c": return TRUE if a is b else FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == "agg":
                adt = self.P.adts.get(x.args[0])
                if adt and adt["enum"]:
                    if y.op == "agg" and y.args[1] != x.args[1]: return FALSE
                    d = self.disc(x)
                    if not x.args[2] and isint(d): return deq(y, ival(d))
        if a.op == "agg" and b.op == "agg" and a.args[:2] == b.args[:2] and len(a.args[2]) == len(b.args[2]):
            r = TRUE
            for x, y in zip(a.args[2], b.args[2]): r = andv(r, self.eqv(x, y, self.vty.get(x) or self.vty.get(y)))
            return r
        a2, b2 = self.scalars(a, b)
        if a2 is not a or b2 is not b: return ieq(a2, b2)
        return mk("veq", *sorted((a, b), key=lambda v: v.id))
    def scalar(self, v):
        """newtype around an integer -> the integer"""
        t = self.vty.get(v)
        if v.op == "agg" and len(v.args[2]) == 1 and not (self.P.adts.get(v.args[0]) or {"enum": True})["enum"]:
            x = v.args[2][0]
            if isint(x) or self.vty.get(x) in INT_RANGE or x.op == "lin": return x
        if t:
            a = self.P.adts.get(t)
            if a and not a["enum"] and len(a["vars"]) == 1 and len(a["vars"][0][2]) == 1:
                ft = a["vars"][0][2][0][1]
                ft = self.P.types[a["crate"]][ft] if isinstance(ft, int) else ft
                if ft in INT_RANGE:
                    x = self.get(v, ("F", None, a["vars"][0][2][0][0], 0)); self.vty.setdefault(x, ft); return x
        return v
    def scalars(self, a, b):
        """both sides of a comparison; they are of one type, so what is known of one is known of the other"""
        a2, b2 = self.scalar(a), self.scalar(b)
        for x, x2, y, y2 in ((a, a2, b, b2), (b, b2, a, a2)):
            if x2 is not x and y2 is y and not isint(y) and re.match(r"[A-Z]\w?$", self.vty.get(y) or "T") and y.op in ("p", "f", "*", "idx"):
                t = x.args[0] if x.op == "agg" else self.vty.get(x)
                if t:
                    self.vty[y] = t; y3 = self.scalar(y)
                    if y3 is not y: return (x2, y3) if x is a else (y3, x2)
        return a2, b2
    def ordcmp(self, op, a, b):
        """a <op> b for possibly non-integer operands (total order)"""
        a, b = self.scalars(a, b)
        return {"lt": lt(a, b), "gt": lt(b, a), "le": le(a, b), "ge": le(b, a)}[op]

    # ------------------------------------------------------------ facts
    def trange(self, v):
        t = self.vty.get(v)
        if t in INT_RANGE: return INT_RANGE[t]
        if v.op == "bin" and v.args[0] == "BitAnd":
            for x in v.args[1:]:
                if isint(x) and ival(x) >= 0: return (0, ival(x))
        if v.op == "bin" and v.args[0] == "Rem" and isint(v.args[2]) and ival(v.args[2]) > 0: return (0, ival(v.args[2]) - 1)
        if v.op == "len": return (0, 2**63 - 1)
        return (-INF, INF)
    def bounds(self, st, T, deep=True):
        """interval of the linear combination T"""
        f = st.facts.get(("i", T))
        lo, hi = (f[0], f[1]) if f else (-INF, INF)
        if len(T) == 1 and T[0][1] == 1:
            r = self.vrange(st, T[0][0])
            return (max(lo, r[0]), min(hi, r[1]))
        l2 = h2 = 0
        for v, c in T:
            a, b = self.bounds(st, ((v, 1),), False)
            if c > 0: l2 += c * a; h2 += c * b
            else: l2 += c * b; h2 += c * a
        lo, hi = max(lo, l2), min(hi, h2)
        if deep and len(T) >= 2:
            for key, g in st.facts.items():
                if key[0] != "i": continue
                T1 = key[1]
                if T1 == T: continue
                if not any(t[0] is u[0] for t in T1 for u in T): continue
                for s in (1, -1):
                    R = mklin(T + tuple((t, -s * c) for t, c in T1), 0)
                    rt, rk = lin_of(R)
                    if len(rt) > max(1, len(T) - 1) and len(rt) >= len(T): continue
                    Tn, fl = norm_T(rt)
                    a, b = self.bounds(st, Tn, False) if Tn else (0, 0)
                    if fl: a, b = -b, -a
                    ga, gb = (g[0], g[1]) if s == 1 else (-g[1], -g[0])
                    lo = max(lo, a + ga + rk); hi = min(hi, b + gb + rk)
        for v, c in T:                        # max(a, b) >= a, b; min(a, b) <= a, b; each is one of the two
            if v.op not in ("max", "min"): continue
            rest = tuple((w, d) for w, d in T if w is not v)
            al = []; 
            for x in v.args:
                rt, rk = lin_of(mklin(rest + ((x, c),), 0)) if x.op not in ("lin", "c") else lin_of(add(mklin(rest, 0), mul(x, const(c))))
                if any(w.op in ("max", "min") for w, _ in rt) and not deep: al = None; break
                Tn, fl = norm_T(rt)
                a, b = self.bounds(st, Tn, deep) if Tn else (0, 0)
                if fl: a, b = -b, -a
                al.append((a + rk, b + rk))
            if not al: continue
            los, his = [x[0] for x in al], [x[1] for x in al]
            if (v.op == "max") == (c > 0): lo = max(lo, max(los)); hi = min(hi, max(his))
            else: hi = min(hi, min(his)); lo = max(lo, min(los))
        return lo, hi
    def vrange(self, st, v, d=0):
        lo, hi = self.trange(v)
        f = st.facts.get(("i", ((v, 1),)))
        if f: lo, hi = max(lo, f[0]), min(hi, f[1])
        if d > 4: return lo, hi
        o = v.op
        if o == "disc":
            g = st.facts.get(("d", v.args[0]))
            if isinstance(g, int): return g, g
        if o == "bin":
            op, a, b = v.args
            if not (self.vty.get(v) in FLOATS):
                la, ha = self.lrange(st, a, d + 1); lb, hb = self.lrange(st, b, d + 1)
                if op == "BitAnd" and la >= 0 and lb >= 0: lo, hi = max(lo, 0), min(hi, ha, hb)
                elif op == "Shr" and la >= 0 and lb >= 0 and lb == hb and hb < 200: lo, hi = max(lo, 0), min(hi, ha if ha == INF else int(ha) >> int(hb))
                elif op == "Rem" and la >= 0 and hb < INF and lb > 0: lo, hi = max(lo, 0), min(hi, hb - 1, ha)
                elif op == "Div" and la >= 0 and lb >= 1: lo, hi = max(lo, 0), min(hi, ha if ha == INF else ha // lb)
                elif op == "Mul" and la >= 0 and lb >= 0: lo, hi = max(lo, la * lb), min(hi, ha * hb if ha < INF and hb < INF else INF)
        elif o == "cast" and self.isboolv(v.args[1]): lo, hi = max(lo, 0), min(hi, 1)
        elif o == "cast" and v.args[0] in INT_RANGE:
            la, ha = self.lrange(st, v.args[1], d + 1)
            r = INT_RANGE[v.args[0]]
            if r[0] <= la and ha <= r[1]: lo, hi = max(lo, la), min(hi, ha)
        elif o == "min":
            for x in v.args:
                hi = min(hi, self.lrange(st, x, d + 1)[1])
        elif o == "max":
            for x in v.args:
                lo = max(lo, self.lrange(st, x, d + 1)[0])
        return lo, hi
    def lrange(self, st, v, d=0):
        t, k = lin_of(v)
        if not t: return k, k
        if len(t) == 1 and t[0][1] == 1 :
            a, b = self.vrange(st, t[0][0], d + 1)
            return a + k, b + k
        Tn, fl = norm_T(t)
        a, b = self.bounds(st, Tn, d < 2)
        if fl: a, b = -b, -a
        return a + k, b + k

    def truth(self, st, b):
        """True / False / None"""
        k = bval(b)
        if k is not None: return k
        o = b.op
        if o == "not":
            r = self.truth(st, b.args[0])
            return None if r is None else not r
        if o == "and":
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x is False or y is False: return False
            if x and y: return True
            return None
        if o == "le":
            lo, hi = self.bounds(st, b.args[0])
            if hi <= b.args[1]: return True
            if lo > b.args[1]: return False
            return None
        if o == "ieq":
            T, k = b.args
            lo, hi = self.bounds(st, T)
            if lo == hi == k: return True
            if k < lo or k > hi: return False
            f = st.facts.get(("i", T))
            if f and k in f[2]: return False
            return None
        if o == "deq":
            x, n = b.args
            d = self.disc(x)
            if isint(d): return ival(d) == n
            f = st.facts.get(("d", d.args[0]))
            if f is None:
                c = self.cmpof(d.args[0])
                if c is not None: return self.truth(st, self.cmpdisc(c, n))
                return None
            if isinstance(f, int): return f == n
            return False if n in f[1] else None
        f = st.facts.get(("b", b))
        if f is not None: return f
        if o == "veq":
            for x, y in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if x.op == "agg":
                    d = self.disc(x)
                    if isint(d) and self.truth(st, deq(y, ival(d))) is False: return False
            p, q = self.kdisc(st, b.args[0]), self.kdisc(st, b.args[1])
            if p is not None and q is not None:
                if p != q: return False
                if self.fieldless(b.args[0], p) or self.fieldless(b.args[1], q): return True
        if o == "flt":
            # a<b known => !(b<a)
            if st.facts.get(("b", mk("flt", b.args[1], b.args[0]))): return False
        return None
    def kdisc(self, st, x):
        """known discriminant of an enum value"""
        d = self.disc(x)
        if isint(d): return ival(d)
        f = st.facts.get(("d", d.args[0])) if d.op == "disc" else None
        return f if isinstance(f, int) else None
    def isenum(self, *xs):
        for x in xs:
            a = self.P.adts.get(x.args[0] if x.op == "agg" else re.sub(r"<.*", "", self.vty.get(x) or ""))
            if a and a["enum"]: return True
        return False
    def fieldless(self, x, d):
        a = self.P.adts.get(x.args[0] if x.op == "agg" else re.sub(r"<.*", "", self.vty.get(x) or ""))
        return bool(a and a["enum"] and a.get("local", True) and any(n == d and not fs for _, n, fs in a["vars"]))
    def cmpof(self, x):
        if x.op == "call" and x.args[0] in ("core::cmp::Ord::cmp",): return x
        return None
    def cmpdisc(self, c, n):
        a, b = c.args[1]
        a = a.args[0] if a.op == "&" else a; b = b.args[0] if b.op == "&" else b
        a, b = self.scalar(a), self.scalar(b)
        if n in (-1, 255): return lt(a, b)
        if n == 1: return lt(b, a)
        return ieq(a, b)
    def assume(self, st, b, val):
        """adds the literal; False if contradictory"""
        r = self.truth(st, b)
        if r is not None: return r == val
        o = b.op
        if o == "not": return self.assume(st, b.args[0], not val)
        if o == "and":
            if val: return self.assume(st, b.args[0], True) and self.assume(st, b.args[1], True)
            x, y = self.truth(st, b.args[0]), self.truth(st, b.args[1])
            if x: return self.assume(st, b.args[1], False)
            if y: return self.assume(st, b.args[0], False)
            st.facts[("b", b)] = False
            return True
        self.note(st, b)
        if o == "le":
            T, k = b.args
            f = st.facts.get(("i", T), (-INF, INF, EMPTY))
            if val: f = (f[0], min(f[1], k), f[2])
            else: f = (max(f[0], k + 1), f[1], f[2])
            st.facts[("i", T)] = self.shrink(f)
            return True
        if o == "ieq":
            T, k = b.args
            f = st.facts.get(("i", T), (-INF, INF, EMPTY))
            if val: f = (k, k, EMPTY)
            else:
                lo, hi = self.bounds(st, T)
                f = (f[0] if f[0] > -INF or lo != k else lo, f[1], f[2] | {k})
            st.facts[("i", T)] = self.shrink(f)
            return True
        if o == "deq":
            x, n = b.args
            d = self.disc(x)
            if d.op != "disc": return True
            x = d.args[0]
            c = self.cmpof(x)
            if c is not None:
                if not self.assume(st, self.cmpdisc(c, n), val): return False
            f = st.facts.get(("d", x))
            if val: st.facts[("d", x)] = n
            else:
                ex = (f[1] if f else EMPTY) | {n}
                st.facts[("d", x)] = ("not", ex)
                t = self.vty.get(x)
                rem = self.remaining(x, t, ex)
                if rem is not None:
                    if not rem: return False
                    if len(rem) == 1:
                        st.facts[("d", x)] = rem[0]
                        if c is not None: self.assume(st, self.cmpdisc(c, rem[0]), True)
            return True
        st.facts[("b", b)] = val
        if o == "veq":
            for x, y in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                d = self.kdisc(st, x)
                if d is not None and (val or self.fieldless(x, d) or self.fieldless(y, d)) and self.isenum(x, y):
                    if not self.assume(st, deq(y, d), val): return False
        if o == "veq" and val:
            for x, y in ((b.args[0], b.args[1]), (b.args[1], b.args[0])):
                if x.op == "agg":
                    d = self.disc(x)
                    if isint(d): self.assume(st, deq(y, ival(d)), True)
                    var = x.args[1] if (self.P.adts.get(x.args[0]) or {"enum": 0})["enum"] else None
                    for i, fv in enumerate(x.args[2]):
                        self.assume(st, self.eqv(fv, self.get(y, ("F", var, str(i), i)), self.vty.get(fv)), True)
        return True
    def remaining(self, x, t, ex):
        if self.cmpof(x) is not None: return [n for n in (-1, 0, 1) if n not in ex and not (n == -1 and 255 in ex)]
        if not t: return None
        t = re.sub(r"<.*", "", t)
        a = self.P.adts.get(t)
        if not a or not a["enum"]: return None
        return [d for _, d, _ in a["vars"] if d not in ex]
    def shrink(self, f):
        lo, hi, ne = f
        while lo in ne: lo += 1
        while hi in ne: hi -= 1
        return (lo, hi, ne)
    def note(self, st, b):
        if b in self.lost and b not in self.split: self.wanted.add(b)
    def holds(self, st, b): return self.truth(st, b) is True

    # ------------------------------------------------------------ joins
    def livefilter(self, st, fr, bb):
        live = fr.fn.live.get(bb, ()); bor = fr.fn.borrowed; ctx = fr.ctx
        dead = [r for r in st.store if r[0] == "L" and r[1] == ctx and r[2] not in live and r[2] not in bor]
        for r in dead: del st.store[r]
    def pkey(self, st, fr, bb):
        items = []
        for r, v in st.store.items():
            if r[0] == "L" and v.skel is not None:
                if r[2] in self.frames[r[1]].dropflags: continue
                items.append((r[1], r[2], v.skel))
        lits = tuple(sorted((b.id, t) for b in self.split for t in (self.truth(st, b),) if t is not None))
        if self.cfg.paths: lits += (frozenset(st.facts.items()),)
        return (tuple(sorted(items, key=repr)), lits, st.mon)
    def entering(self, st, fr, bb):
        """stale symbols of this join are renamed / their facts dropped"""
        sym = self.phisym(fr.ctx, bb)
        self.kill(st, sym, lambda r, path: mk("phi", sym, path))
    def kill(self, st, sym, repl):
        for k in [k for k in st.facts if self.fact_has(k, sym)]: del st.facts[k]
        for r in list(st.store):
            if r[0] == "O" and sym in r[1].syms: del st.store[r]; continue
            v = st.store[r]
            if sym in v.syms: st.store[r] = self.ren(v, sym, repl, r, "")
    def ren(self, v, sym, repl, r, path):
        if sym not in v.syms: return v
        p = rootname(r) + path
        if v.op == "phi" and v.args[0] == sym and v.args[1] == p: return v
        if v.op == "agg":
            return mk("agg", v.args[0], v.args[1], tuple(self.ren(x, sym, repl, r, path + ".%d" % i) for i, x in enumerate(v.args[2])))
        if v.op == "with" and sym not in v.args[0].syms and all(not (q[0] == "I" and sym in q[1].syms) for q, _ in v.args[1]):
            return mk("with", v.args[0], tuple((q, self.ren(x, sym, repl, r, path + "." + show_proj(q))) for q, x in v.args[1]))
        x = repl(r, p)
        if v in self.vty: self.vty.setdefault(x, self.vty[v])
        return x
    def fact_has(self, k, sym):
        x = k[1]
        if isinstance(x, V): return sym in x.syms
        return any(sym in t.syms for t, _ in x)
    def join(self, a, b, fr, bb):
        """a := a join b ; returns (state, changed)"""
        sym = self.phisym(fr.ctx, bb)
        store = {}; changed = False
        sa, sb = a.store, b.store
        newphi = []
        for r, v in sa.items():
            w = sb.get(r)
            if w is v: store[r] = v; continue
            if w is None:
                if r[0] == "O": w = self.default(r)
                else: changed = True; continue
            m = self.jv(v, w, sym, r, "", newphi)
            store[r] = m
            if m is not v: changed = True
        for r, w in sb.items():
            if r[0] == "O" and r not in sa:
                m = self.jv(self.default(r), w, sym, r, "", newphi)
                if m is not self.default(r): store[r] = m; changed = True
        facts = {}
        for k, f in a.facts.items():
            g = b.facts.get(k)
            if g is None:
                if k[0] == "i":
                    lo, hi = self.bounds(b, k[1])
                    if lo > -INF or hi < INF:
                        lo, hi = (lo if lo < f[0] else f[0]), (hi if hi > f[1] else f[1])
                        if fr.fn.loopheads and bb in fr.fn.loopheads:   # widen
                            lo = f[0] if lo >= f[0] else -INF; hi = f[1] if hi <= f[1] else INF
                        if lo > -INF or hi < INF:
                            facts[k] = (lo, hi, EMPTY)
                            if facts[k] != f: changed = True
                            continue
                changed = True
                self.lose(k, f); continue
            if g == f: facts[k] = f; continue
            if k[0] == "i":
                lo, hi, ne = min(f[0], g[0]), max(f[1], g[1]), f[2] & g[2]
                if bb in fr.fn.loopheads:
                    lo = f[0] if lo >= f[0] else -INF; hi = f[1] if hi <= f[1] else INF
                if (lo, hi, ne) != f: changed = True
                if lo > -INF or hi < INF or ne: facts[k] = (lo, hi, ne)
                self.lose(k, f)
            elif k[0] == "d":
                m = None
                if isinstance(f, int):
                    if isinstance(g, int): m = None
                    else: m = None
                elif isinstance(g, int):
                    if g not in f[1]: m = f
                else:
                    i = f[1] & g[1]
                    m = ("not", i) if i else None
                if m is not None: facts[k] = m
                if m != f: changed = True
                self.lose(k, f); self.lose(k, g)
            else:
                changed = True; self.lose(k, f)
        for k, g in b.facts.items():
            if k not in a.facts:
                if k[0] == "i":
                    lo, hi = self.bounds(a, k[1])
                    # information a already implies is kept only if a proves it; a is authoritative for convergence
                self.lose(k, g)
        # intervals of fresh phis
        for p, v, w in newphi:
            ra, rb = self.lrange(a, v), self.lrange(b, w)
            lo, hi = min(ra[0], rb[0]), max(ra[1], rb[1])
            tr = self.trange(p)
            k = ("i", ((p, 1),))
            if bb in fr.fn.loopheads:
                continue
            if (lo > tr[0] or hi < tr[1]) and (lo > -INF or hi < INF): facts[k] = (lo, hi, EMPTY)
        must = a.must & b.must; may = a.may | b.may
        if must != a.must or may != a.may: changed = True
        n = State(); n.store = store; n.facts = facts; n.must = must; n.may = may; n.mon = a.mon
        if changed and facts == a.facts and store == sa and must == a.must and may == a.may: changed = False
        return n, changed
    def lose(self, k, f):
        if k[0] == "b": self.lost.add(k[1])
        elif k[0] == "d" and isinstance(f, int): self.lost.add(deq(k[1], f))
        elif k[0] == "i":
            lo, hi, ne = f
            if lo == hi: self.lost.add(mk("ieq", k[1], lo))
            else:
                if hi < INF: self.lost.add(mk("le", k[1], hi))
                if lo > -INF: self.lost.add(mk("le", k[1], lo - 1))
    def jv(self, v, w, sym, r, path, newphi):
        if v is w: return v
        pname = rootname(r) + path
        if v.op == "phi" and v.args[0] == sym and v.args[1] == pname: 
            if sym not in w.syms: newphi.append((v, v, w)) if False else None
            return v
        if v.op == "agg" and w.op == "agg" and v.args[:2] == w.args[:2] and len(v.args[2]) == len(w.args[2]):
            return mk("agg", v.args[0], v.args[1], tuple(self.jv(x, y, sym, r, path + ".%d" % i, newphi) for i, (x, y) in enumerate(zip(v.args[2], w.args[2]))))
        bv = v.args[0] if v.op == "with" else v
        bw = w.args[0] if w.op == "with" else w
        if bv is bw and (v.op == "with" or w.op == "with"):
            ku = dict(v.args[1]) if v.op == "with" else {}
            kw = dict(w.args[1]) if w.op == "with" else {}
            out = {}
            ok = True
            for q in list(ku) + [q for q in kw if q not in ku]:
                if q[0] in ("I", "S") and not (q in ku and q in kw):
                    ok = False; break
                x = ku.get(q); y = kw.get(q)
                if x is None: x = self.get(bv, q)
                if y is None: y = self.get(bv, q)
                out[q] = self.jv(x, y, sym, r, path + "." + show_proj(q), newphi)
            if ok:
                return mk("with", bv, tuple(sorted(out.items(), key=lambda kv: repr((kv[0][0], show_proj(kv[0]))))))
        p = mk("phi", sym, pname)
        t = self.vty.get(v) or self.vty.get(w)
        if t is None and (isbool(v) or isbool(w)): t = "bool"
        if t is None and r[0] == "L" and not path:
            fr = self.frames[r[1]]; t = fr.fn.ltys[r[2]]
        if t: self.vty.setdefault(p, t)
        newphi.append((p, v, w))
        return p

    # ------------------------------------------------------------ main loop
    def run(self, fn, setup=None, args=None):
        for attempt in range(1 + self.cfg.refine):
            self.seed = {}
            self.reset_run()
            self._run(fn, setup, args)
            # second pass: loop-carried places get their phi on first arrival, so that facts learned in the body are named alike in every round
            seed = {}
            for (ctx, bb), parts in self.nodes.items():
                heads = self.frames[ctx].fn.loopheads
                if not heads or bb not in heads: continue
                sym = self.phisym(ctx, bb)
                for key, x in parts.items():
                    tpl = {r: v for r, v in x.store.items() if sym in v.syms}
                    if tpl: seed.setdefault((ctx, bb), {})[key] = tpl
            if seed:
                self.seed = seed
                self.reset_run()
                self._run(fn, setup, args)
            if not self.wanted or attempt == self.cfg.refine: break
            self.split |= set(list(self.wanted)[:6])
            # split literals mention run-specific symbol numbers: numbering is deterministic per (ctx, bb) intern order, so keep tables
        self.record()
        return self
    def reset_run(self):
        self.nodes = {}; self.heap = []; self.queued = set(); self.wanted = set(); self.lost = set()
        self.events = []; self.recording = False; self.exits = []; self.smart = set()
    def _run(self, fn, setup, args):
        fr = self.frame(None, 0, fn, None, None, {})
        self.entry = fr
        st = State()
        for i in range(1, fn.argc + 1):
            v = args[i - 1] if args and i - 1 < len(args) and args[i - 1] is not None else mk("p", fn.names.get(i) or ("self" if i == 1 and fn.kind == "closure" else "arg%d" % i))
            st.store[("L", fr.ctx, i)] = v
            self.vty.setdefault(v, fn.ltys[i])
            if SMART.match(str(fn.ltys[i])): self.smart.add(("L", fr.ctx, i))
        if setup: setup(self, st, fr)
        self.push(fr, 0, st)
        steps = 0
        while self.heap:
            _, ctx, bb, key = heapq.heappop(self.heap)
            if (ctx, bb, key) not in self.queued: continue
            self.queued.discard((ctx, bb, key))
            st = self.nodes[(ctx, bb)].get(key)
            if st is None: continue
            steps += 1
            if steps > self.cfg.node_cap: raise TooBig("%s: more than %d block visits" % (fn.name, self.cfg.node_cap))
            self.block(self.frames[ctx], bb, st.copy())
        self.visits += steps
    def push(self, fr, bb, st):
        if self.recording: return
        self.livefilter(st, fr, bb)
        fn = fr.fn
        if len(fn.preds[bb]) > 1 or (bb == 0 and fr.parent is not None):
            self.entering(st, fr, bb)
        key = self.pkey(st, fr, bb)
        n = self.nodes.setdefault((fr.ctx, bb), {})
        if key not in n and len(n) >= self.cfg.part_cap:
            # collapse to monitor-only partitions
            key = ("*", st.mon)
        old = n.get(key)
        tpl = self.seed.get((fr.ctx, bb), {}).get(key) if self.seed else None
        if tpl:
            sym = self.phisym(fr.ctx, bb)
            for r, w in tpl.items():
                v = st.store.get(r)
                if v is None:
                    if r[0] != "O": continue
                    v = self.default(r)
                if v is not w: st.store[r] = self.jv(v, w, sym, r, "", [])
        if old is None:
            n[key] = st
        else:
            j, ch = self.join(old, st, fr, bb)
            if not ch: return
            n[key] = j
        if (fr.ctx, bb, key) not in self.queued:
            self.queued.add((fr.ctx, bb, key))
            heapq.heappush(self.heap, (fr.prefix + (fn.rpo[bb],), fr.ctx, bb, key) if False else HeapItem(fr.prefix + (fn.rpo[bb],), fr.ctx, bb, key))
    def record(self):
        self.recording = True; self.events = []; self.exits = []
        for (ctx, bb), parts in list(self.nodes.items()):
            for key, st in list(parts.items()):
                self.block(self.frames[ctx], bb, st.copy())
        self.recording = False

    # ------------------------------------------------------------ transfer
    def ev(self, kind, fr, bb, st, line, tag, **kw):
        e = Event(); e.kind = kind; e.fn = fr.fn; e.bb = bb; e.ctx = fr.ctx; e.state = st.copy(); e.line = line; e.tag = tag; e.interp = self
        e.name = None; e.args = (); e.res = None; e.root = e.projs = e.val = None; e.names = (); e.ta = (); e.site = None; e.rawargs = ()
        for k, v in kw.items(): setattr(e, k, v)
        self.events.append(e)
        return e
    def stmt(self, st, fr, s, bb):
        if s[0] == "=":
            pl = s[1]
            v = self.rvalue(st, fr, s[2], bb)
            if len(pl) == 1:
                st.store[("L", fr.ctx, pl[0])] = v
                if v.op not in ("c", "agg") and v not in self.vty: self.vty[v] = fr.fn.ltys[pl[0]]
            else:
                root, projs = self.place(st, fr, pl)
                self.write(st, fr, root, projs, v, bb, s[3] if len(s) > 3 else None, s[4] if len(s) > 4 else None)
        elif s[0] == "dead":
            st.store.pop(("L", fr.ctx, s[1]), None)
        elif s[0] == "sd":
            root, projs = self.place(st, fr, s[1])
            self.wr(st, root, projs, mk("hv", self.callsym(fr.ctx, bb), "sd"))
    def guards(self, root):
        """a local holding a smart reference to something outside the function"""
        if root[0] != "L": return root in self.smart
        if root in self.smart: return True
        lt = self.frames[root[1]].fn.ltys
        r = root[2] < len(lt) and bool(SMART.match(str(lt[root[2]])))
        if r: self.smart.add(root)
        return r
    def write(self, st, fr, root, projs, v, bb, line, tag):
        if self.cfg.watch_writes and (root[0] == "O" or (projs and self.guards(root))):
            self.cfg.step(self, st, "write", (fr, root, projs, v))
            if self.recording:
                self.ev("write", fr, bb, st, line, tag, root=root, projs=projs, val=v)
            for p in reversed(projs or ()):
                if p[0] == "F":
                    k = "w:" + str(p[2])
                    st.must = st.must | {k}; st.may = st.may | {k}
                    break
        self.wr(st, root, projs, v)
    def block(self, fr, bb, st):
        x = fr.fn.bb[bb]
        stmts, t, line, tag = x
        for s in stmts: self.stmt(st, fr, s, bb)
        k = t[0]
        if k == "goto": self.push(fr, t[1], st)
        elif k == "switch":
            if isinstance(t[1], list) and len(t[1]) == 1 and t[1][0] in fr.dropflags:
                z = [b for v, b in t[2] if v == 0]
                self.push(fr, z[0] if z else t[3], st); return
            if logtag(tag):
                j = fr.fn.ipdom.get(bb)
                if j is not None:
                    self.push(fr, j, st); return
            self.switch(fr, bb, st, t)
        elif k == "return": self.ret(fr, bb, st, line, tag)
        elif k == "drop": self.push(fr, t[2], st)
        elif k == "assert":
            if self.recording:
                ops = [self.operand(st, fr, o) for o in t[4]]
                self.ev("assert", fr, bb, st, line, tag, name=t[3], args=tuple(ops), val=self.operand(st, fr, t[1]), res=t[2])
            c = self.operand(st, fr, t[1])
            if c.op != "ovf":
                if not self.assume(st, c, bool(t[2])): return
            self.push(fr, t[5], st)
        elif k == "call": self.call(fr, bb, st, t, line, tag)
        elif k == "unreachable": pass
    def switch(self, fr, bb, st, t):
        v = self.operand(st, fr, t[1])
        cases = t[2]; other = t[3]
        ty = fr.fn.ty(t[4]) if len(t) > 4 and isinstance(t[4], int) else None
        if isbool(v) or ty == "bool" or v.op in BOOLOPS:
            for n, b in cases:
                s2 = st.copy()
                if self.assume(s2, v, bool(n)): self.push(fr, b, s2)
            if other is not None:
                vals = {bool(n) for n, _ in cases}
                for x in (True, False):
                    if x not in vals:
                        s2 = st.copy()
                        if self.assume(s2, v, x): self.push(fr, other, s2)
            return
        def lit(n):
            if v.op == "disc": return deq(v.args[0], n)
            return ieq(v, const(n))
        if isint(v):
            for n, b in cases:
                if n == ival(v): self.push(fr, b, st); return
            if other is not None: self.push(fr, other, st)
            return
        rest = st.copy(); alive = True
        for n, b in cases:
            s2 = rest.copy()
            if self.assume(s2, lit(n), True):
                self.push(fr, b, s2)
            if not self.assume(rest, lit(n), False): alive = False; break
        if alive and other is not None and not self.dead_end(fr, other): self.push(fr, other, rest)
    def dead_end(self, fr, b):
        x = fr.fn.bb[b]
        return x and x[1][0] == "unreachable"
    def ret(self, fr, bb, st, line, tag):
        v = st.store.get(("L", fr.ctx, 0), UNIT if fr.fn.ltys[0] == "()" else self.default(("L", fr.ctx, 0)))
        if fr.parent is None:
            if self.recording:
                self.exits.append(self.ev("exit", fr, bb, st, line, tag, val=v))
            return
        for r in [r for r in st.store if r[0] == "L" and r[1] == fr.ctx]: del st.store[r]
        if fr.target is None: return
        self.cfg.step(self, st, "return", (fr, v))
        root, projs = self.place(st, fr.parent, fr.dest)
        if projs or root[0] == "O": self.write(st, fr.parent, root, projs, v, fr.cbb, line, tag)
        else: self.wr(st, root, projs, v)
        self.push(fr.parent, fr.target, st)
    def havoc(self, st, root, projs, sym, n):
        old = self.rd(st, root, projs)
        v = mk("hv", sym, n)
        t = self.vty.get(old)
        if t: self.vty.setdefault(v, t)
        self.wr(st, root, projs, v)
    def normarg(self, st, a, d=0):
        if a.op == "ref": return mk("&", self.normarg(st, self.rd(st, a.args[0], a.args[1]), d + 1)) if d < 4 else a
        if a.op == "agg" and d < 4 and any(x.op in ("ref", "agg") for x in a.args[2]):
            return mk("agg", a.args[0], a.args[1], tuple(self.normarg(st, x, d + 1) for x in a.args[2]))
        r = ("O", a)
        if r in st.store: return mk("&", self.normarg(st, st.store[r], d + 1)) if d < 4 else a
        if a.op in ("p",) and (self.vty.get(a) or "").startswith("&"): return mk("&", mk("*", a))
        return a
    def finish(self, fr, bb, st, t, res, line, tag):
        if t[4] is None: return
        root, projs = self.place(st, fr, t[3])
        if len(t[3]) == 1 and res.op not in ("c", "agg"):
            self.vty.setdefault(res, fr.fn.ltys[t[3][0]])
        if root[0] == "O": self.write(st, fr, root, projs, res, bb, line, tag)
        else: self.wr(st, root, projs, res)
        self.push(fr, t[4], st)

    def call(self, fr, bb, st, t, line, tag):
        sym = self.callsym(fr.ctx, bb)
        if self.in_loop(fr, bb):
            self.kill(st, sym, lambda r, p: mk("stale", sym, p))
        fo = t[1]
        args = [self.operand(st, fr, a) for a in t[2]]
        if logtag(tag):
            res = mk("call", "log", (), sym)
            self.finish(fr, bb, st, t, res, line, tag); return
        argtys = [self.opty(fr, a) for a in t[2]]
        if isinstance(fo, dict) and "k" in fo:
            fv = self.fnval(fr, fo["k"])
            kd = fo["k"]
        else:
            fv = self.operand(st, fr, fo); kd = None
        self.dispatch(fr, bb, st, t, fv, kd, args, argtys, line, tag, 0)

    def resolve(self, st, fr, fv, args, argtys):
        """-> (names, Fn or None, spread args)"""
        name, fid, res, tr, tas = fv.args
        f = self.P.fns.get(res) or (self.P.fns.get(fid) if not tr else None) or self.M.fns.get(res) or (self.M.fns.get(fid) if not tr else None)
        names = [name]
        if f is None and tr:
            m = name.split("::")[-1]
            # dispatch on the abstract receiver, then on the substituted self type
            adt = None
            if args:
                v = args[0]
                for _ in range(3):
                    if v.op == "ref": v = self.rd(st, v.args[0], v.args[1])
                    else: break
                if v.op == "agg" and not v.args[0].startswith(("closure:", "()", "[]")): adt = v.args[0]
                elif v.op == "with" and v.args[0].op == "agg": adt = v.args[0].args[0]
            cands = []
            if adt: cands.append(adt)
            if tas: cands.append(re.sub(r"<.*", "", tas[0]))
            for c in cands:
                for pr in (self.M, self.P):
                    for s, i, im in pr.impl_methods.get((tr, m), []):
                        if re.sub(r"<.*", "", s) == c and i in pr.fns and pr.fns[i].argc == len(args):
                            f = pr.fns[i]; break
                    if f: break
                if f: break
            if f is None and fid in self.P.fns and not any(i != fid for s, i, im in self.P.impl_methods.get((tr, m), [])):
                f = self.P.fns[fid]         # a provided method that no implementation in the program replaces
        if f is not None and f.name != name: names.append(f.name)
        if tr: names.append(tr)
        return names, f
    def in_loop(self, fr, bb):
        k = (fr.ctx, bb)
        r = self.loopctx.get(k)
        if r is None:
            r = bb in self.cyclic(fr.fn) or (fr.parent is not None and self.in_loop(fr.parent, fr.cbb))
            self.loopctx[k] = r
        return r
    _cyc = {}
    def cyclic(self, fn):
        c = self._cyc.get(id(fn))
        if c is None:
            c = set()
            for h in fn.loopheads:
                # blocks on a cycle through h: backward from latches
                body = {h}; work = [b for b in fn.rpo for s in fn.succ(b) if s == h and fn.rpo[h] <= fn.rpo[b]]
                while work:
                    b = work.pop()
                    if b in body: continue
                    body.add(b); work.extend(p for p in fn.preds[b] if p in fn.rpo)
                c |= body
            self._cyc[id(fn)] = c
        return c

    def dispatch(self, fr, bb, st, t, fv, kd, args, argtys, line, tag, d):
        sym = self.callsym(fr.ctx, bb)
        cfg = self.cfg
        if fv.op == "zst":
            fv = self.zstfn(fv)
        if fv.op == "ctor":
            self.finish(fr, bb, st, t, mk("agg", fv.args[0], fv.args[1], tuple(args)), line, tag); return
        if fv.op == "fn":
            name = fv.args[0]
            # closure / fn value calls
            if name in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call") and args:
                cv = args[0]
                ref = cv
                for _ in range(4):
                    if cv.op == "ref": cv = self.rd(st, cv.args[0], cv.args[1])
                    elif ("O", cv) in st.store: ref = cv; cv = st.store[("O", cv)]
                    else: break
                tup = args[1] if len(args) > 1 else UNIT
                targs = list(tup.args[2]) if tup.op == "agg" and tup.args[0] == "()" else [tup]
                if cv.op == "agg" and cv.args[0].startswith("closure:"):
                    f = self.P.fns.get(cv.args[0][8:]) or self.M.fns.get(cv.args[0][8:])
                    if f is not None and f.argc == 1 + len(targs):
                        a0 = cv
                        if f.ltys[1].startswith("&"):
                            if ref.op == "ref": a0 = ref
                            elif ref is not cv: a0 = ref
                            else:
                                r = ("L", fr.ctx, -1 - bb)
                                st.store[r] = cv; a0 = mk("ref", r, ())
                        # closure by reference through several refs: find the innermost
                        if f.ltys[1].startswith("&") and ref.op == "ref":
                            a0 = ref
                            for _ in range(4):
                                inner = self.rd(st, a0.args[0], a0.args[1]) if a0.op == "ref" else a0
                                if inner.op == "ref": a0 = inner
                                else: break
                        self.enter(fr, bb, st, t, f, [a0] + targs, None, line, tag); return
                elif cv.op in ("fn", "ctor", "zst") and d < 4:
                    self.dispatch(fr, bb, st, t, cv, None, targs, [None] * len(targs), line, tag, d + 1); return
                r = cfg.on_call(self, st, fr, ["dynclosure"], [cv] + targs, sym)
                if r is not None: self.finish(fr, bb, st, t, r, line, tag); return
                self.opaque_call(fr, bb, st, t, "dyncall", ["dyncall"], [cv] + targs, [None] * (1 + len(targs)), line, tag, fv); return
            names, f = self.resolve(st, fr, fv, args, argtys)
            if self.recording: self.seen_calls.update(names)
            ent = None
            self.cur_bb = bb; self.cur_ta = fv.args[4]
            if cfg.is_event(names):
                r = cfg.on_call(self, st, fr, names, args, sym)
                if r is not None:
                    if self.recording:
                        self.ev("call", fr, bb, st, line, tag, name=names[0], names=names, args=tuple(self.normarg(st, a) for a in args), rawargs=tuple(args), ta=fv.args[4], res=r, site=sym)
                    cfg.step(self, st, "call", (names, args, fr, bb))
                    mk_ = cfg.must_key(names)
                    if mk_ is not None: st.must = st.must | {mk_}; st.may = st.may | {mk_}
                    self.finish(fr, bb, st, t, r, line, tag); return
                self.opaque_call(fr, bb, st, t, names[0], names, args, argtys, line, tag, fv, event=True); return
            if cfg.watch(names):
                cfg.step(self, st, "call", (names, args, fr, bb))
                if self.recording:
                    self.ev("call", fr, bb, st, line, tag, name=names[0], names=names, args=tuple(self.normarg(st, a) for a in args), rawargs=tuple(args), ta=fv.args[4])
            r = cfg.on_call(self, st, fr, names, args, sym)
            if r is NORETURN: return   # the call cannot return
            if r is not None:
                mk_ = cfg.must_key(names)
                if mk_ is not None: st.must = st.must | {mk_}; st.may = st.may | {mk_}
                self.finish(fr, bb, st, t, r, line, tag); return
            nat = self.native(st, fr, bb, names, f, args, argtys, fv, t)
            if nat is not None:
                if nat is NORETURN: return
                self.finish(fr, bb, st, t, nat, line, tag); return
            mf = models.lookup(names, fv, argtys)
            if mf is not None and not (mf == "models::coll_extend" and f is not None):
                m = self.M.fn(mf)
                if m.argc == len(args):
                    self.enter(fr, bb, st, t, m, args, fv, line, tag); return
            if f is not None and name != "models::push_into" and not cfg.no_inline(names) and self.can_inline(fr, f):
                self.enter(fr, bb, st, t, f, args, fv, line, tag); return
            # unmodelled higher-order call with a closure: run the closure 0..n times
            cl = [a for a in args if self.closure_of(st, a) is not None]
            if cl and f is None and name.split("::")[-1] not in ("add_observer", "add_systems", "queue", "register_required_components_with", "new", "observe", "spawn"):
                c = self.closure_of(st, cl[0])
                cf = self.P.fns.get(c.args[0][8:]) or self.M.fns.get(c.args[0][8:])
                if cf is not None and cf.argc - 1 <= 3:
                    m = self.M.fn("models::ho%d" % (cf.argc - 1))
                    # opaque effect on the other &mut args first
                    self.havoc_args(st, fr, args, argtys, sym)
                    self.enter(fr, bb, st, t, m, [cl[0]], None, line, tag); return
            self.opaque_call(fr, bb, st, t, name, names, args, argtys, line, tag, fv)
            return
        fl = fv
        while fl.op in ("*", "&") and isinstance(fl.args[0], V): fl = fl.args[0]
        names = ["dyncall"] + (["dyncall::%s" % fl.args[2]] if fl.op == "f" else [])
        self.cur_bb = bb
        if self.recording: self.seen_calls.update(names)
        if cfg.is_event(names) or cfg.watch(names):
            r = cfg.on_call(self, st, fr, names, [fv] + args, sym)
            if r is not None:
                if self.recording and cfg.is_event(names):
                    self.ev("call", fr, bb, st, line, tag, name=names[-1], names=names, args=tuple(self.normarg(st, a) for a in [fv] + args), rawargs=tuple([fv] + args), ta=(), res=r, site=sym)
                cfg.step(self, st, "call", (names, [fv] + args, fr, bb))
                self.finish(fr, bb, st, t, r, line, tag); return
            self.opaque_call(fr, bb, st, t, "dyncall", names, [fv] + args, [None] + argtys, line, tag, fv, event=True); return
        r = cfg.on_call(self, st, fr, names, [fv] + args, sym)
        if r is not None: self.finish(fr, bb, st, t, r, line, tag); return
        self.opaque_call(fr, bb, st, t, "dyncall", names, [fv] + args, [None] + argtys, line, tag, fv)
    def zstfn(self, fv):
        t = fv.args[0]
        m = re.match(r"fn:([^<]+)", t)
        name = m.group(1) if m else t
        c = self.P.byname.get(name)
        if c: return mk("fn", name, c[0].id, "", "", ())
        return mk("fn", name, name, "", "", ())
    def closure_of(self, st, a):
        for _ in range(3):
            if a.op == "ref": a = self.rd(st, a.args[0], a.args[1])
            else: break
        if a.op == "agg" and a.args[0].startswith("closure:"): return a
        return None
    def can_inline(self, fr, f):
        if fr.depth >= self.cfg.max_depth: return False
        if len(f.bb) > self.cfg.max_blocks: return False
        p = fr; n = 0
        while p is not None:
            if p.fn is f: return False
            p = p.parent
        return True
    def enter(self, fr, bb, st, t, f, args, fv, line, tag):
        p = fr; n = 0
        while p is not None:
            if p.fn is f: n += 1
            p = p.parent
        if n >= 3 or fr.depth > self.cfg.max_depth + 6:
            self.opaque_call(fr, bb, st, t, f.name, [f.name], args, [None] * len(args), line, tag, fv); return
        env = {}
        if fv is not None and fv.op == "fn" and f.gen:
            tas = fv.args[4]
            imp = self.impl_of(f) if fv.args[3] and f.id != fv.args[1] else None
            if imp is not None: env = self.unify(f, imp, tas)
            elif len(tas) == len(f.gen): env = dict(zip(f.gen, tas))
            elif f.id != fv.args[1] and fv.args[3] and tas:
                # trait method resolved to an impl: unify self type arguments when simple
                env = {}
            env = {g: c for g, c in env.items() if g != c}
        if f.kind == "closure" and fr.env: env = dict(fr.env)
        nf = self.frame(fr, bb, f, t[3], t[4], env)
        nf.env = env
        for i, a in enumerate(args):
            st.store[("L", nf.ctx, i + 1)] = a
            if a.op not in ("c", "agg"): self.vty.setdefault(a, f.ltys[i + 1])
        self.inlined.add(f.name)
        self.push(nf, 0, st)
    def impl_of(self, f):
        t = getattr(f.prog, "_impl_of", None)
        if t is None:
            t = f.prog._impl_of = {i: im for im in f.prog.impls for n, i in im["items"]}
        return t.get(f.id)
    def unify(self, f, im, tas):
        """generic parameters of an impl method, from the self type it was called on and the trailing method arguments"""
        env = {}; gens = set(f.gen)
        def go(p, c):
            if p[0] in gens and not p[1]: env.setdefault(p[0], tystr(c)); return
            if p[0] == c[0] and len(p[1]) == len(c[1]):
                for x, y in zip(p[1], c[1]): go(x, y)
        try: go(typarse(im["self_s"]), typarse(tas[0]))
        except (IndexError, ValueError): pass
        for i in range(1, min(len(f.gen), len(tas) - 1) + 1):
            if f.gen[-i] in env: break
            env[f.gen[-i]] = tas[-i]
        return env
    def havoc_args(self, st, fr, args, argtys, sym):
        for i, (a, ty) in enumerate(zip(args, argtys)):
            if ty is None: ty = self.vty.get(a) or ""
            if ty.startswith("&mut") or (a.op == "agg" and "&mut" in ty):
                self.havoc_val(st, a, sym, str(i), 0)
    def havoc_val(self, st, a, sym, n, d):
        if d > 3: return
        if a.op == "ref":
            old = self.rd(st, a.args[0], a.args[1])
            if old.op == "ref" or (old.op == "agg" and old.args[0].startswith("closure:")):
                self.havoc_val(st, old, sym, n, d + 1)   # &mut &mut T: the pointee
                return
            self.havoc(st, a.args[0], a.args[1], sym, n)
        elif a.op == "agg":
            for j, x in enumerate(a.args[2]):
                if x.op in ("ref", "agg"): self.havoc_val(st, x, sym, n + "." + str(j), d + 1)
        elif a.op not in ("c", "fn"):
            self.havoc(st, ("O", a), (), sym, n)
    def opaque_call(self, fr, bb, st, t, name, names, args, argtys, line, tag, fv, event=False):
        sym = self.callsym(fr.ctx, bb)
        cfg = self.cfg
        na = tuple(self.normarg(st, a) for a in args)
        tas = fv.args[4] if fv is not None and fv.op == "fn" else ()
        pure = not event and bool(PURE.search(name)) and not IMPURE.search(name) and not any((ty or "").startswith("&mut") for ty in argtys)
        if pure and not args and not name.endswith(("::default", "::new")): pure = name.startswith("core::")
        nm = name
        if pure and fv is not None and fv.op == "fn" and (name in ("core::default::Default::default", "core::any::TypeId::of", "core::any::type_name", "core::convert::Into::into", "core::convert::From::from", "core::mem::size_of") or name.endswith("::new") or (tas and name.startswith("bevy_ecs::world::"))):
            nm = name
            res = mk("call", nm, na + ((mk("ty", ",".join(tas)),) if tas else ()), None)
        else:
            res = mk("call", nm, na, None if pure else sym)
        if event and self.recording:
            self.ev("call", fr, bb, st, line, tag, name=name, names=names, args=na, rawargs=tuple(args), ta=tas, res=res, site=sym)
        if event:
            cfg.step(self, st, "call", (names, args, fr, bb))
        mk_ = cfg.must_key(names)
        if mk_ is not None:
            st.must = st.must | {mk_}; st.may = st.may | {mk_}
        if not event: self.opaque[name] = self.opaque.get(name, 0) + 1
        if not pure: self.havoc_args(st, fr, args, argtys, sym)
        self.finish(fr, bb, st, t, res, line, tag)

    # ------------------------------------------------------------ std semantics handled natively
    def valof(self, st, a):
        if a.op == "ref": return self.rd(st, a.args[0], a.args[1])
        if a.op == "&": return a.args[0]
        r = st.store.get(("O", a))
        return r if r is not None else mk("*", a)
    def native(self, st, fr, bb, names, f, args, argtys, fv, t):
        name = names[0]; last = name.split("::")[-1]
        tas = fv.args[4]
        if name in ("core::mem::size_of", "core::mem::size_of_val") and tas and tas[0] in SIZES: return const(SIZES[tas[0]])
        # local impls of operators are inlined, except derived ones
        local = f is not None and f.crate != "models" and not f.d.get("derived")
        if name in ("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
                    "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "[T]::as_ref", "alloc::string::String::as_str", "str::as_bytes", "alloc::string::String::as_bytes", "alloc::boxed::Box::as_ref",
                    "bevy_ecs::change_detection::params::Mut::into_inner", "bevy_ecs::change_detection::Mut::into_inner", "smallvec::SmallVec::as_slice", "smallvec::SmallVec::as_mut_slice", "core::array::as_slice"):
            return None if local else args[0]
        if last in ("into_inner", "as_mut", "bypass_change_detection", "reborrow", "by_ref", "as_deref_mut", "as_deref") and name.startswith(("bevy_ecs", "core::iter")): return args[0]
        if name == "core::option::Option::as_slice": return None
        if name in ("core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "core::option::Option::cloned_") or (name == "core::option::Option::cloned" and False):
            if local: return None
            return self.valof(st, args[0])
        if name == "core::hint::must_use" or name == "core::convert::identity" or name == "core::hint::black_box": return args[0]
        if name in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
            if local: return None
            a, b = self.valof(st, args[0]), self.valof(st, args[1])
            for _ in range(2):
                a = self.valof(st, a) if a.op in ("ref", "&") else a
                b = self.valof(st, b) if b.op in ("ref", "&") else b
            r = self.eqv(a, b, self.vty.get(a) or self.vty.get(b))
            return r if last == "eq" else notv(r)
        if name.startswith("core::cmp::PartialOrd::") and last in ("lt", "le", "gt", "ge"):
            ra, rb = args[0], args[1]; ty = tas[0] if tas else ""; ty2 = tas[1] if len(tas) > 1 else ty
            while ty.startswith("&") and ty2.startswith("&"):
                ty, ty2 = re.sub(r"^&(mut )?", "", ty), re.sub(r"^&(mut )?", "", ty2)
                ra, rb = self.valof(st, ra), self.valof(st, rb)
            if self.local_ord(ty):
                if local: return None
                g = self.M.fn("models::pord_" + last)
                self.enter(fr, bb, st, t, g, [ra, rb], mk("fn", fv.args[0], fv.args[1], "", "", (ty, ty2)), None, None); return NORETURN
            a, b = self.valof(st, ra), self.valof(st, rb)
            ta = self.vty.get(a) or self.vty.get(b)
            if ta in FLOATS or ty in FLOATS:
                return self.cmpop({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[last], a, b, ta or ty)
            return self.ordcmp(last, a, b)
        if name == "core::cmp::Ord::cmp" or name == "core::cmp::PartialOrd::partial_cmp":
            if local: return None
            a, b = self.valof(st, args[0]), self.valof(st, args[1])
            c = mk("call", "core::cmp::Ord::cmp", (mk("&", a), mk("&", b)), None)
            self.vty.setdefault(c, "core::cmp::Ordering")
            return c if last == "cmp" else mk("agg", "core::option::Option", "Some", (c,))
        if name in ("core::cmp::Ord::max", "core::cmp::max"): return self.minmax("max", args, st)
        if name in ("core::cmp::Ord::min", "core::cmp::min"): return self.minmax("min", args, st)
        if name in ("core::cmp::Ord::clamp",): return self.minmax("min", [self.minmax("max", [args[0], args[1]], st), args[2]], st)
        if name in ("core::convert::From::from", "core::convert::Into::into", "core::convert::TryInto::try_into_"):
            if len(tas) == 2:
                a, b = (tas[1], tas[0]) if last == "from" else (tas[0], tas[1])
                if a == b: return args[0]
                if a in INT_RANGE and b in INT_RANGE: return self.intcast(args[0], a, b)
                if last == "into" and f is None:
                    # Into -> From impl in the repo
                    for s, i, im in self.P.impl_methods.get(("core::convert::From", "from"), []):
                        g = self.P.fns.get(i)
                        if g is not None and g.ltys[0] == b and g.argc == 1 and g.ltys[1] == a and not g.d.get("derived"):
                            if self.can_inline(fr, g):
                                self.enter(fr, bb, st, t, g, args, None, None, None); return NORETURN
            return None
        if name in ("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into") and len(tas) >= 2:
            a, b = (tas[1], tas[0]) if last == "try_from" else (tas[0], tas[1])
            if a in INT_RANGE and b in INT_RANGE:
                v = args[0]; ra, rb = INT_RANGE[a], INT_RANGE[b]
                if rb[0] <= ra[0] and ra[1] <= rb[1]: return mk("agg", "core::result::Result", "Ok", (v,))
                # partial: branch on range
                ok = andv(le(const(rb[0]), v) if ra[0] < rb[0] else TRUE, le(v, const(rb[1])) if ra[1] > rb[1] else TRUE)
                return self.branch2(fr, bb, st, t, ok, mk("agg", "core::result::Result", "Ok", (v,)), mk("agg", "core::result::Result", "Err", (mk("tryfromint"),)))
            return None
        if name in ("core::ops::arith::Add::add", "core::ops::arith::Sub::sub", "core::ops::arith::Mul::mul", "core::ops::arith::Div::div", "core::ops::arith::Rem::rem"):
            if local: return None
            tt = tas[0] if tas else None
            a, b = args
            if a.op == "ref": a = self.valof(st, a)
            if b.op == "ref": b = self.valof(st, b)
            if tt in INT_RANGE or tt in FLOATS: return self.arith(name.split("::")[-2], a, b, tt)
            r = mk("bin", "D" + name.split("::")[-2], a, b)
            if tt and "Duration" in tt and last in ("add", "sub"):
                r = add(a, b) if last == "add" else sub(a, b)
            return r
        if name in ("core::ops::arith::AddAssign::add_assign", "core::ops::arith::SubAssign::sub_assign", "core::ops::arith::MulAssign::mul_assign", "core::ops::arith::DivAssign::div_assign", "core::ops::bit::BitOrAssign::bitor_assign", "core::ops::bit::BitAndAssign::bitand_assign"):
            if local: return None
            r0, p0 = self.deref(args[0])
            old = self.rd(st, r0, p0); b = args[1]
            if b.op == "ref": b = self.valof(st, b)
            op = name.split("::")[-2][:-6]
            tt = tas[0] if tas else None
            if tt in INT_RANGE or tt in FLOATS or tt == "bool": v = self.arith(op, old, b, tt)
            elif tt and "Duration" in tt and op in ("Add", "Sub"): v = add(old, b) if op == "Add" else sub(old, b)
            else: v = mk("bin", "D" + op, old, b)
            if v not in self.vty and tt: self.vty[v] = tt
            self.write(st, fr, r0, p0, v, bb, None, None)
            return UNIT
        m = re.match(r"^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|isize)::(\w+)$", name)
        if m: return self.intmethod(st, fr, bb, t, m.group(1), m.group(2), args)
        if name in ("core::mem::replace", "core::mem::take", "core::mem::swap"):
            r0, p0 = self.deref(args[0])
            old = self.rd(st, r0, p0)
            if last == "swap":
                r1, p1 = self.deref(args[1]); o2 = self.rd(st, r1, p1)
                self.write(st, fr, r0, p0, o2, bb, None, None); self.write(st, fr, r1, p1, old, bb, None, None)
                return UNIT
            new = args[1] if last == "replace" else mk("call", "core::default::Default::default", ((mk("ty", ",".join(tas)),) if tas else ()), None)
            if last == "take" and tas:
                if tas[0] in INT_RANGE: new = const(0)
                elif tas[0] == "bool": new = FALSE
                elif tas[0].startswith("core::option::Option"): new = mk("agg", "core::option::Option", "None", ())
            self.write(st, fr, r0, p0, new, bb, None, None)
            return old
        if name == "core::default::Default::default" and tas and f is None:
            if tas[0] in INT_RANGE: return const(0)
            if tas[0] == "bool": return FALSE
            if tas[0].startswith("core::option::Option<"): return mk("agg", "core::option::Option", "None", ())
            if tas[0] in FLOATS: return const(0.0)
        if name == "core::ops::try_trait::FromResidual::from_residual":
            a = args[0]
            if a.op == "agg" and a.args[1] == "Err": 
                e = a.args[2][0]
                rt = fr.fn.ltys[t[3][0]] if len(t[3]) == 1 else ""
                return mk("agg", "core::result::Result", "Err", (self.errconv(fr, bb, e, rt),))
            if a.op == "agg" and a.args[1] == "None": return mk("agg", "core::option::Option", "None", ())
            rt = fr.fn.ltys[t[3][0]] if len(t[3]) == 1 else ""
            if rt.startswith("core::result::Result"): return mk("agg", "core::result::Result", "Err", (mk("f", a, "Err", "0"),))
            if rt.startswith("core::option::Option"): return mk("agg", "core::option::Option", "None", ())
            return None
        if name == "core::ops::try_trait::Try::from_output":
            rt = fr.fn.ltys[t[3][0]] if len(t[3]) == 1 else ""
            if rt.startswith("core::option"): return mk("agg", "core::option::Option", "Some", (args[0],))
            return mk("agg", "core::result::Result", "Ok", (args[0],))
        if last in ("len",) and len(args) == 1 and f is None: 
            return self.lenof(st, args[0])
        if last == "is_empty" and len(args) == 1 and f is None and not name.startswith(("crossbeam", "core::ops::range")):
            return ieq(self.lenof(st, args[0]), const(0))
        if name in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut") and f is None:
            r0, p0 = self.deref(args[0]); i = args[1]
            if tas and len(tas) > 1 and tas[1] == "usize" or self.vty.get(i) == "usize" or isint(i):
                return self.mkref(r0, p0 + (("I", i),))
            if i.op == "agg" and "Range" in i.args[0]:
                return self.mkref(r0, p0 + (("S", i.args[0].split("::")[-1], i.args[2], ""),))
            return self.mkref(r0, p0 + (("I", i),))
        if name == "core::iter::traits::iterator::Iterator::next" and f is None:
            v = self.valof(st, args[0])
            if v.op == "ref": v = self.valof(st, v)
            sym = self.callsym(fr.ctx, bb)
            r = mk("call", "core::iter::traits::iterator::Iterator::next", (v,), sym)
            return r
        if name == "core::iter::traits::collect::IntoIterator::into_iter" and f is None:
            v = args[0]
            if v.op == "agg" and (self.M.adts.get(v.args[0])): return v
            ty = (tas[0] if tas else None) or self.vty.get(v) or ""
            if ty.startswith("core::option::Option<"): return mk("agg", "models::OptIter", "OptIter", (v,))
            return v if v.op != "ref" else mk("call", "iter", (self.normarg(st, v),), None)
        if name == "models::opaque": return mk("hv", self.callsym(fr.ctx, bb), "o")
        if name == "models::unknown":
            r = mk("hv", self.callsym(fr.ctx, bb), "u"); self.vty[r] = "bool"; return r
        if name == "models::elem":
            return mk("call", "elem", (self.normarg(st, args[0]),), self.callsym(fr.ctx, bb))
        if name == "models::new_collection": return mk("call", "new_collection", (), None)
        if name in ("core::panicking::panic", "core::panicking::panic_fmt"): return None
        if name in ("bool::not",): return notv(args[0])
        if name == "core::ops::bit::Not::not" and (tas and tas[0] == "bool" or args[0].op in BOOLOPS): return notv(args[0])
        if name == "core::ops::range::RangeInclusive::contains" or name == "core::ops::range::Range::contains":
            rg = self.valof(st, args[0]); x = self.valof(st, args[1])
            if rg.op == "call" and rg.args[0].endswith("RangeInclusive::new"):
                lo, hi = rg.args[1][0], rg.args[1][1]
                return andv(le(lo, x), le(x, hi))
            if rg.op == "agg" and rg.args[0].endswith("::Range"):
                return andv(le(rg.args[2][0], x), lt(x, rg.args[2][1]))
        return None
    def local_ord(self, t):
        """the type has a hand-written order of its own in the repository"""
        for s, i, im in self.P.impl_methods.get(("core::cmp::Ord", "cmp"), []) + self.P.impl_methods.get(("core::cmp::PartialOrd", "partial_cmp"), []):
            if s == t and not im.get("derived"): return True
        return False
    def minmax(self, op, args, st=None):
        if all(isint(a) for a in args): return const((max if op == "max" else min)(ival(a) for a in args))
        a, b = args
        if a is b: return a
        if st is not None and (isint(a) or isint(b) or self.vty.get(a) in INT_RANGE):
            k = self.truth(st, le(a, b))
            if k is None and self.truth(st, le(b, a)) is True: k = False
            if k is not None: return b if k == (op == "max") else a
        r = mk(op, *sorted(args, key=lambda v: v.id))
        t = self.vty.get(args[0]) or self.vty.get(args[1])
        if t: self.vty.setdefault(r, t)
        return r
    def errconv(self, fr, bb, e, rt):
        m = re.match(r"core::result::Result<(.*)>$", rt or "")
        if not m: return e
        # last type argument
        dep = 0; cut = 0
        for i, ch in enumerate(m.group(1)):
            if ch in "<([": dep += 1
            elif ch in ">)]": dep -= 1
            elif ch == "," and dep == 0: cut = i + 1
        et = m.group(1)[cut:].strip()
        et = self.subst(fr, et)
        for s, i, im in self.P.impl_methods.get(("core::convert::From", "from"), []):
            g = self.P.fns.get(i)
            if g is None or g.ltys[0] != et or g.argc != 1: continue
            src = None
            if e.op == "agg": src = e.args[0]
            else: src = self.vty.get(e)
            if src and re.sub("<.*", "", g.ltys[1]) == re.sub("<.*", "", src):
                # thiserror #[from]: single aggregate
                for b in g.bb:
                    if not b: continue
                    for s_ in b[0]:
                        if s_[0] == "=" and s_[1] == [0] and s_[2][0] == "agg": 
                            nm = s_[2][2]; var = s_[2][3] if len(s_[2]) > 4 else ""
                            if isinstance(nm, list): nm, var = nm
                            return mk("agg", nm, var, (e,))
        return e
    def branch2(self, fr, bb, st, t, cond, a, b):
        k = self.truth(st, cond)
        if k is True: return a
        if k is False: return b
        for val, res in ((True, a), (False, b)):
            s2 = st.copy()
            if self.assume(s2, cond, val):
                self.finish(fr, bb, s2, t, res, None, None)
        return NORETURN
    def intmethod(self, st, fr, bb, t, ty, m, args):
        R = INT_RANGE.get(ty)
        if m == "is_positive": return lt(const(0), args[0])
        if m == "is_negative": return lt(args[0], const(0))
        if m in ("checked_add", "checked_sub", "checked_mul"):
            a, b = args
            r = {"checked_add": add, "checked_sub": sub, "checked_mul": mul}[m](a, b)
            self.vty.setdefault(r, ty)
            ok = TRUE
            if m == "checked_sub" and R[0] == 0: ok = le(b, a)
            elif m == "checked_add": ok = le(r, const(R[1])) if R[0] == 0 else mk("ckok", m, a, b)
            else: ok = mk("ckok", m, a, b)
            return self.branch2(fr, bb, st, t, ok, mk("agg", "core::option::Option", "Some", (r,)), mk("agg", "core::option::Option", "None", ()))
        if m == "abs_diff" or m == "pow" or m.startswith(("wrapping", "saturating", "overflowing", "leading", "trailing", "count", "rotate", "is_power", "next_", "div_ceil", "rem_euclid", "to_", "from_", "midpoint", "ilog", "min_value", "max_value", "swap", "abs", "signum", "unsigned", "cast", "is_multiple")):
            if len(args) == 2 and all(isint(a) for a in args):
                x, y = ival(args[0]), ival(args[1])
                if m == "saturating_sub": return const(max(R[0], x - y))
                if m == "saturating_add": return const(min(R[1], x + y))
                if m == "wrapping_sub": return const((x - y) % (R[1] + 1)) if R[0] == 0 else mk("im", ty, m, *args)
                if m == "wrapping_add": return const((x + y) % (R[1] + 1)) if R[0] == 0 else mk("im", ty, m, *args)
            if R and len(args) == 2 and m in ("saturating_add", "saturating_sub", "wrapping_add", "wrapping_sub", "saturating_add_signed", "wrapping_add_signed", "saturating_sub_unsigned", "saturating_add_unsigned"):
                lin = (add if "_add" in m else sub)(*args)
                lo, hi = self.lrange(st, lin)
                if lo >= R[0] and hi <= R[1]:
                    self.vty.setdefault(lin, ty); return lin
                if m.startswith("saturating") and lo >= R[1]: return const(R[1])
                if m.startswith("saturating") and hi <= R[0]: return const(R[0])
            r = mk("call", ty + "::" + m, tuple(args), None)
            self.vty.setdefault(r, ty)
            if R and R[0] == 0 and m in ("saturating_add", "saturating_sub"):
                x, y = args
                if m == "saturating_add":
                    self.assume(st, le(x, r), True); self.assume(st, le(r, add(x, y)), True)
                else:
                    self.assume(st, le(r, x), True); self.assume(st, le(sub(x, y), r), True)
            return r
        return None

class HeapItem:
    __slots__ = ("k", "t")
    def __init__(self, k, ctx, bb, key): self.k = k; self.t = (k, ctx, bb, key)
    def __lt__(self, o): return self.k < o.k
    def __iter__(self): return iter(self.t)

NORETURN = object()
SIZES = {"u8": 1, "i8": 1, "bool": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "char": 4, "u64": 8, "i64": 8, "f64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "()": 0}
BOOLOPS = ("le", "ieq", "deq", "not", "and", "flt", "fle", "veq", "ordcall")

def rootname(r):
    if r[0] == "L": return "%s_%s" % (r[1], r[2])
    return "o%d" % r[1].id

def analyze(prog, fn, cfg, setup=None, args=None):
    it = Interp(prog, cfg)
    it.run(fn, setup, args)
    return it
