"""Hash-consed symbolic values (value numbering) and canonical boolean/linear forms."""
import re

class V:
    __slots__ = ("op", "args", "id", "syms", "_s", "skel", "_lin")
    def __repr__(self): return show(self)

_tab = {}
EMPTY = frozenset()

def _syms(x, out):
    if isinstance(x, V):
        if x.syms: out |= x.syms
    elif isinstance(x, tuple):
        for y in x: _syms(y, out)

def mk(op, *args):
    key = (op, args)
    # bool/int confusion in python dict keys is avoided by tagging constants
    v = _tab.get(key)
    if v is not None: return v
    v = V(); v.op = op; v.args = args; v.id = len(_tab); v._s = None; v._lin = None
    s = set()
    if op in ("phi", "hv", "stale"): s.add(args[0])
    elif op == "call" and args[2] is not None: s.add(args[2])
    for a in args: _syms(a, s)
    v.syms = frozenset(s) if s else EMPTY
    v.skel = _skel(v)
    _tab[key] = v
    return v

def reset():
    pass

ENUMISH = re.compile(r"(^|::)(Option|Result|ControlFlow|Poll|Ordering|Cow|Entry)$")
ENUMS = set()   # adt names that are enums (filled by the program loader)

def _skel(v):
    """partition skeleton: only bools and enum variants (to a small depth)"""
    if v.op == "c" and v.args[0] == "b": return v.args[1][0]
    if v.op == "agg":
        adt, var, fs = v.args
        sub = tuple(f.skel for f in fs) if len(fs) <= 6 else ()
        if not any(sub): sub = ()
        d = _depth(sub)
        if d >= 4: sub = ()
        if adt in ENUMS or ENUMISH.search(adt): return (var, sub)
        if sub: return ("", sub)
        return None
    return None
def _depth(s):
    if isinstance(s, tuple): return 1 + max([_depth(x) for x in s], default=0)
    return 0

def const(x):
    if isinstance(x, bool): return mk("c", "b", "true" if x else "false")
    if isinstance(x, int): return mk("c", "i", x)
    if isinstance(x, float): return mk("c", "f", repr(x))
    return mk("c", "s", x)
TRUE = const(True); FALSE = const(False)
UNIT = mk("agg", "()", "", ())
def isint(v): return v.op == "c" and v.args[0] == "i"
def ival(v): return v.args[1] if v.op == "c" and v.args[0] == "i" else None
def isbool(v): return v.op == "c" and v.args[0] == "b"
def bval(v): return v.args[1] == "true" if v.op == "c" and v.args[0] == "b" else None

def agg(adt, variant, fields): return mk("agg", adt, variant, tuple(fields))

# ---------------------------------------------------------------- linear forms
def lin_of(v):
    """(tuple of (V, coef) sorted, const)"""
    if v.op == "c" and v.args[0] == "i": return ((), v.args[1])
    if v.op == "lin": return v.args
    return (((v, 1),), 0)
def mklin(terms, k):
    d = {}
    for t, c in terms:
        d[t] = d.get(t, 0) + c
    ts = tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda x: x[0].id))
    if not ts: return const(k)
    if len(ts) == 1 and ts[0][1] == 1 and k == 0: return ts[0][0]
    return mk("lin", ts, k)
def add(a, b, s=1):
    ta, ka = lin_of(a); tb, kb = lin_of(b)
    return mklin(ta + tuple((t, s * c) for t, c in tb), ka + s * kb)
def sub(a, b): return add(a, b, -1)
def mul(a, b):
    x, y = ival(a), ival(b)
    if x is not None and y is None: a, b, x, y = b, a, y, x
    if y is not None:
        ta, ka = lin_of(a)
        return mklin(tuple((t, c * y) for t, c in ta), ka * y)
    return mk("bin", "Mul", *sorted((a, b), key=lambda v: v.id))

# ---------------------------------------------------------------- booleans
def notv(b):
    k = bval(b)
    if k is not None: return FALSE if k else TRUE
    if b.op == "not": return b.args[0]
    return mk("not", b)
def norm_T(ts):
    """sign-normalise: first coefficient positive. Returns (T, flipped)"""
    if ts and ts[0][1] < 0: return tuple((t, -c) for t, c in ts), True
    return ts, False
def le(a, b):
    """a <= b over integers"""
    t, k = lin_of(sub(a, b))           # t + k <= 0
    if not t: return TRUE if k <= 0 else FALSE
    T, fl = norm_T(t)
    if not fl: return mk("le", T, -k)  # T <= -k
    # -T + k <= 0  <=> T >= k <=> not (T <= k-1)
    return notv(mk("le", T, k - 1))
def lt(a, b): return le(add(a, const(1)), b)
def ieq(a, b):
    t, k = lin_of(sub(a, b))
    if not t: return TRUE if k == 0 else FALSE
    T, fl = norm_T(t)
    return mk("ieq", T, k if fl else -k)
def andv(a, b):
    for x, y in ((a, b), (b, a)):
        k = bval(x)
        if k is True: return y
        if k is False: return FALSE
    if a is b: return a
    return mk("and", *sorted((a, b), key=lambda v: v.id))
def orv(a, b): return notv(andv(notv(a), notv(b)))
def deq(x, n): return mk("deq", x, n)

# ---------------------------------------------------------------- printing
def _short(n):
    n = re.sub(r"<(.+) as (.+)>::(\w+)$", lambda m: m.group(1).split("::")[-1] + "::" + m.group(3), n)
    p = n.split("::")
    return "::".join(p[-2:]) if len(p) > 1 and p[-2][:1].isupper() or (len(p) > 1 and p[-2].startswith("[")) else p[-1]
def show(v, depth=0):
    if not isinstance(v, V): return str(v)
    if v._s is not None: return v._s
    if depth > 14: return "…"
    o, a = v.op, v.args
    s = lambda x: show(x, depth + 1)
    if o == "c": r = str(a[1]) if a[0] != "s" else repr(a[1])
    elif o == "p": r = a[0]
    elif o == "*": r = s(a[0]) if a[0].op in ("p",) else "*" + s(a[0])
    elif o == "f": r = s(a[0]) + ("@" + a[1] if a[1] else "") + "." + str(a[2])
    elif o == "idx": r = "%s[%s]" % (s(a[0]), s(a[1]))
    elif o == "ref": r = "&" + show_place(a[0], a[1], depth)
    elif o == "&": r = "&" + s(a[0])
    elif o == "call": r = "%s(%s)%s" % (_short(a[0]), ", ".join(s(x) for x in a[1]), "" if a[2] is None else "#%d" % a[2])
    elif o == "agg":
        r = (a[0].split("::")[-1] + ("::" + a[1] if a[1] and a[1] != a[0].split("::")[-1] else "")) if a[0] != "()" else ""
        if a[0].startswith("closure:"): r = "closure"
        r += "(" + ", ".join(s(x) for x in a[2]) + ")" if a[2] or not r else ""
    elif o == "lin":
        r = ""
        for t, c in a[0]:
            m = s(t) if abs(c) == 1 else "%d*%s" % (abs(c), s(t))
            r += (" - " if c < 0 else (" + " if r else "")) + m
        if a[1]: r += (" - " if a[1] < 0 else " + ") + str(abs(a[1]))
        r = "(" + r + ")"
    elif o in ("le", "ieq"):
        l = mklin(a[0], 0)
        r = "%s %s %s" % (s(l), "<=" if o == "le" else "==", a[1])
    elif o == "not": r = "!(" + s(a[0]) + ")"
    elif o == "and": r = "(%s && %s)" % (s(a[0]), s(a[1]))
    elif o == "deq": r = "disc(%s)==%s" % (s(a[0]), a[1])
    elif o == "disc": r = "disc(%s)" % s(a[0])
    elif o in ("flt", "fle", "veq"): r = "(%s %s %s)" % (s(a[0]), {"flt": "<.", "fle": "<=.", "veq": "=="}[o], s(a[1]))
    elif o == "bin": r = "%s(%s, %s)" % (a[0], s(a[1]), s(a[2]))
    elif o == "un": r = "%s(%s)" % (a[0], s(a[1]))
    elif o == "cast": r = "(%s as %s)" % (s(a[1]), a[0])
    elif o == "with": r = s(a[0]) + "{" + ", ".join("%s:=%s" % (show_proj(p), s(x)) for p, x in a[1]) + "}"
    elif o == "phi": r = "φ%d[%s]" % (a[0], a[1] if isinstance(a[1], str) else "")
    elif o == "hv": r = "?%d%s" % (a[0], "" if len(a) < 2 else "[%s]" % (a[1],))
    elif o == "fn": r = "fn " + _short(a[0])
    else: r = o + "(" + ", ".join(s(x) if isinstance(x, V) else str(x) for x in a) + ")"
    if len(r) > 600: r = r[:600] + "…"
    if depth == 0 or len(r) < 200: v._s = r
    return r
def show_proj(p):
    if p[0] == "F": return (p[1] + "." if p[1] else "") + str(p[2])
    if p[0] == "I": return "[%s]" % show(p[1])
    return str(p[0])
def show_place(root, projs, depth=0):
    if root[0] == "L": r = "_%s.%s" % (root[1], root[2])
    elif root[0] == "O": r = "*" + show(root[1], depth + 1) if root[1].op != "p" else show(root[1], depth + 1)
    else: r = str(root)
    for p in projs: r += ("." if p[0] == "F" else "") + show_proj(p)
    return r

def subvals(v, seen=None):
    """all sub-values"""
    if seen is None: seen = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, V):
            if x in seen: continue
            seen.add(x); yield x
            st.extend(x.args)
        elif isinstance(x, tuple): st.extend(x)
