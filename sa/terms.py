"""Hash-consed provenance terms (the abstract value domain)."""
import sys

sys.setrecursionlimit(20000)
MAXDEPTH = 30
_tab = {}
_n = [0]


class T:
    __slots__ = ("tag", "a", "depth", "ref", "uid")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid

    def __hash__(self):
        # not the address: the order of sets must not change from run to run
        return self.uid


def _scan(a, d, r):
    for x in a:
        if isinstance(x, T):
            if x.depth > d:
                d = x.depth
            r = r or x.ref
        elif isinstance(x, (tuple, frozenset)):
            d, r = _scan(x, d, r)
    return d, r


def mk(tag, *a):
    key = (tag, a)
    t = _tab.get(key)
    if t is not None:
        return t
    d, r = _scan(a, 0, tag == "Ref")
    t = T()
    t.tag = tag
    t.a = a
    t.depth = d + 1
    t.ref = r
    if t.depth > MAXDEPTH and tag not in ("A", "Tup"):
        t2 = mk("Top", "deep")
        _tab[key] = t2
        return t2
    _n[0] += 1
    t.uid = _n[0]
    _tab[key] = t
    return t


def K(kind, v=None):
    return mk("K", kind, v)


TRUE = K("bool", True)
FALSE = K("bool", False)
UNIT = mk("Tup")
MOVED = mk("Moved")
OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"


def Bool(b):
    return TRUE if b else FALSE


def A(path, var, names=(), vals=()):
    return mk("A", path, var, tuple(names), tuple(vals))


def Some(x):
    return A(OPT, "Some", ("0",), (x,))


NONE = A(OPT, "None")


def Ok(x):
    return A(RES, "Ok", ("0",), (x,))


def Err(x):
    return A(RES, "Err", ("0",), (x,))


def C(name, *args):
    return mk("C", name, tuple(args))


def Acc(base, item):
    if base.tag == "Acc":
        s = base.a[1]
        if item in s:
            return base
        return mk("Acc", base.a[0], s | {item})
    return mk("Acc", base, frozenset([item]))


def strip(t):
    """drop mutation history / in-place updates"""
    while t.tag in ("Acc", "Upd"):
        t = t.a[0]
    return t


def kids(x):
    for y in (x.a if isinstance(x, T) else x):
        if isinstance(y, T):
            yield y
        elif isinstance(y, (tuple, frozenset)):
            yield from kids(y)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(kids(x))


def contains(t, pred):
    for x in subterms(t):
        if pred(x):
            return True
    return False


_subsets = {}


def subset(t):
    """cached set of all subterms"""
    r = _subsets.get(t)
    if r is None:
        r = frozenset(subterms(t))
        _subsets[t] = r
    return r


_sub_cache = {}


def has_sub(t, s):
    k = (t, s)
    r = _sub_cache.get(k)
    if r is None:
        r = s in set(subterms(t))
        _sub_cache[k] = r
    return r


def isC(t, *names):
    """opaque call term whose callee name ends with one of names"""
    return t.tag == "C" and any(name_is(t.a[0], n) for n in names)


def name_is(full, n):
    return full == n or full.endswith("::" + n)


def is_k(t, kind=None, v=None):
    return t.tag == "K" and (kind is None or t.a[0] == kind) and (v is None or t.a[1] == v)


def strs(t):
    """all string constants inside a term"""
    out = set()
    for x in subset(t):
        if x.tag == "K" and x.a[0] in ("str", "bytes"):
            out.add(x.a[1])
        elif x.tag == "Fmt":
            out.update(y for y in x.a if isinstance(y, str))
    return out


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ",".join(sorted(show(x, d) for x in t)) + "}"
        return str(t)
    if d > 8:
        return ".."
    a = t.a
    g = t.tag
    if g == "K":
        return repr(a[1]) if a[1] is not None else a[0]
    if g == "A":
        p = a[0].split("::")[-1]
        nm = p if a[1] == p else p + "::" + a[1]
        if not a[3]:
            return nm
        return nm + "(" + ", ".join("%s" % show(v, d + 1) if n.isdigit() else "%s: %s" % (n, show(v, d + 1)) for n, v in zip(a[2], a[3])) + ")"
    if g == "Tup":
        return "(" + ", ".join(show(x, d + 1) for x in a) + ")"
    if g == "Arr":
        return "[" + ", ".join(show(x, d + 1) for x in a) + "]"
    if g == "C":
        nm = "::".join(a[0].split("::")[-2:])
        return nm + "(" + ", ".join(show(x, d + 1) for x in a[1]) + ")"
    if g == "F":
        return show(a[0], d + 1) + "." + a[1]
    if g == "P":
        return show(a[0], d + 1) + "?" + a[1] + ("" if a[2] in (0, "0") else "." + str(a[2]))
    if g == "V":
        return show(a[0], d + 1) + " as " + a[1]
    if g == "Arg":
        return "$" + str(a[1] or a[0])
    if g == "Static":
        return "static " + a[0].split("::")[-1]
    if g == "Elem":
        return "each(" + show(a[0], d + 1) + ")"
    if g == "Bin":
        return "(%s %s %s)" % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if g == "Un":
        return "%s(%s)" % (a[0], show(a[1], d + 1))
    if g == "Acc":
        return show(a[0], d + 1) + "<<{" + "; ".join(sorted(n.split("::")[-1] + "(" + ",".join(show(x, d + 2) for x in ar) + ")" for n, ar in a[1])) + "}"
    if g == "Iter":
        return "iter:%s(%s)" % (a[0], ", ".join(show(x, d + 1) for x in a[1:]))
    if g == "Clo":
        return "|closure %s|" % a[0].split("::", 1)[-1]
    if g == "FnV":
        return "fn " + a[0].split("::")[-1]
    if g == "Fmt":
        return "fmt!(" + " ".join(repr(x) if isinstance(x, str) else show(x, d + 1) for x in a) + ")"
    return g + "(" + ", ".join(show(x, d + 1) for x in a) + ")"
