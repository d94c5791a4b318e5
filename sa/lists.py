"""What operations on texts and lists give when it is known of how many pieces the text is made.

A text known to consist of n pieces with a separator between them, none in them, is the term Seg(text, sep, 0, n); a stretch
of it from piece i to piece j (not included) is Seg(text, sep, i, j). Lists with known elements are Arr terms.
"""
from terms import *


def seg(t, sep, i, j):
    return mk("Seg", t, sep, i, j)


def k_int(t):
    return t.a[1] if t.tag == "K" and t.a[0] == "int" and isinstance(t.a[1], int) else None


def char(t):
    return t.a[1] if t.tag == "K" and isinstance(t.a[1], str) else None


def text_model(is_text, sep, n):
    """is_text(term): this is a text made of n pieces"""
    some = lambda v: A("std::option::Option", "Some", ("0",), [v])
    none = A("std::option::Option", "None", (), [])
    tup = lambda *x: mk("Tup", *x)

    def as_seg(t):
        if t.tag == "Seg" and t.a[1] == sep:
            return t
        return seg(t, sep, 0, n) if is_text(t) else None

    def strs(E, st, m, args, k):
        s = as_seg(E.resolve(st, args[0]))
        if s is None or len(args) < 2:
            return None
        xs = [E.resolve(st, x) for x in args[1:]]
        if char(xs[-1]) != sep:
            return None
        t, _, i, j = s.a
        one = lambda a, b: seg(t, sep, a, b)
        it = lambda l: E.ret(st, mk("Iter", "src", mk("Arr", *l)), k)
        c = j - i
        if m == "split":
            return it([one(a, a + 1) for a in range(i, j)])
        if m == "rsplit":
            return it([one(a, a + 1) for a in reversed(range(i, j))])
        if m in ("splitn", "rsplitn") and len(xs) == 2 and k_int(xs[0]) is not None:
            w = k_int(xs[0])
            if w == 0:
                return it([])
            w = min(w, c)
            if m == "splitn":
                return it([one(i + a, i + a + 1) for a in range(w - 1)] + [one(i + w - 1, j)])
            return it([one(j - a - 1, j - a) for a in range(w - 1)] + [one(i, j - w + 1)])
        if m == "split_once":
            return E.ret(st, some(tup(one(i, i + 1), one(i + 1, j))) if c > 1 else none, k)
        if m == "rsplit_once":
            return E.ret(st, some(tup(one(i, j - 1), one(j - 1, j))) if c > 1 else none, k)
        if m == "contains":
            return E.ret(st, Bool(c > 1), k)
        if m == "matches":
            return it([K("str", sep)] * (c - 1))
        return None

    def rng(E, x, length):
        if x.tag != "A" or not x.a[0].startswith("std::ops::Range"):
            return None
        d = dict(zip(x.a[2], x.a[3]))
        lo = k_int(d["start"]) if "start" in d else 0
        hi = k_int(d["end"]) if "end" in d else length
        if lo is None or hi is None:
            return None
        if "Inclusive" in x.a[0]:
            hi += 1
        return (lo, hi) if 0 <= lo <= hi <= length else None

    def lists(E, st, name, m, args, k):
        v = E.autoderef(st, args[0])
        r = args[0]
        if v.tag == "Iter" and m == "count" and v.a[0] == "src" and v.a[1].tag == "Arr":
            return E.ret(st, K("int", len(v.a[1].a)), k)
        if v.tag == "Iter" and m == "len" and v.a[0] == "src" and v.a[1].tag == "Arr":
            return E.ret(st, K("int", len(v.a[1].a)), k)
        if v.tag == "Iter" and m in ("next_back", "nth", "last") and v.a[0] == "src" and v.a[1].tag == "Arr":
            xs = list(v.a[1].a)
            put = lambda l: E.store_ref(st, r, mk("Iter", "src", mk("Arr", *l))) if r.tag == "Ref" else None
            if m == "last":
                return E.ret(st, some(xs[-1]) if xs else none, k)
            if m == "next_back":
                put(xs[:-1])
                return E.ret(st, some(xs[-1]) if xs else none, k)
            i = k_int(E.resolve(st, args[1]))
            if i is None:
                return None
            put(xs[i + 1:])
            return E.ret(st, some(xs[i]) if i < len(xs) else none, k)
        if v.tag != "Arr":
            return None
        xs = list(v.a)
        a = [E.resolve(st, x) for x in args[1:]]
        ints = [k_int(x) for x in a]

        def put(l):
            E.store_ref(st, r, mk("Arr", *l))
        vec = name.startswith("std::vec::Vec::")
        if m == "len" and not a:
            return E.ret(st, K("int", len(xs)), k)
        if m == "is_empty" and not a:
            return E.ret(st, Bool(not xs), k)
        if m in ("first", "last") and not a:
            return E.ret(st, some(xs[0 if m == "first" else -1]) if xs else none, k)
        if m in ("split_first", "split_last") and not a:
            return E.ret(st, none if not xs else some(tup(xs[0], mk("Arr", *xs[1:])) if m == "split_first" else tup(xs[-1], mk("Arr", *xs[:-1]))), k)
        if m == "get" and ints and ints[0] is not None:
            return E.ret(st, some(xs[ints[0]]) if ints[0] < len(xs) else none, k)
        if m == "split_at" and ints and ints[0] is not None and ints[0] <= len(xs):
            return E.ret(st, tup(mk("Arr", *xs[:ints[0]]), mk("Arr", *xs[ints[0]:])), k)
        if m in ("index", "index_mut") and a:
            w = rng(E, a[0], len(xs))
            if w is not None:
                return E.ret(st, mk("Arr", *xs[w[0]:w[1]]), k)
            if ints[0] is not None:
                if ints[0] < len(xs):
                    return E.ret(st, xs[ints[0]], k)
                if E.cb_panic:
                    E.cb_panic(E, st, name, tuple(a))
                return []
        if r.tag != "Ref":
            return None
        if vec and m == "remove" and ints and ints[0] is not None and ints[0] < len(xs):
            x = xs.pop(ints[0])
            put(xs)
            return E.ret(st, x, k)
        if vec and m == "swap_remove" and ints and ints[0] is not None and ints[0] < len(xs):
            x, xs[ints[0]] = xs[ints[0]], xs[-1]
            put(xs[:-1])
            return E.ret(st, x, k)
        if vec and m == "insert" and ints and ints[0] is not None and ints[0] <= len(xs):
            xs.insert(ints[0], a[1])
            put(xs)
            return E.ret(st, UNIT, k)
        if vec and m == "pop" and not a:
            if not xs:
                return E.ret(st, none, k)
            put(xs[:-1])
            return E.ret(st, some(xs[-1]), k)
        if vec and m in ("truncate", "split_off") and ints and ints[0] is not None and ints[0] <= len(xs):
            put(xs[:ints[0]])
            return E.ret(st, UNIT if m == "truncate" else mk("Arr", *xs[ints[0]:]), k)
        if vec and m == "push" and len(a) == 1:
            put(xs + a)
            return E.ret(st, UNIT, k)
        if vec and m == "drain" and a:
            w = rng(E, a[0], len(xs))
            if w is not None:
                put(xs[:w[0]] + xs[w[1]:])
                return E.ret(st, mk("Iter", "src", mk("Arr", *xs[w[0]:w[1]])), k)
        if m == "reverse" and not a:
            put(xs[::-1])
            return E.ret(st, UNIT, k)
        if m == "swap" and len(ints) == 2 and None not in ints and max(ints) < len(xs):
            xs[ints[0]], xs[ints[1]] = xs[ints[1]], xs[ints[0]]
            put(xs)
            return E.ret(st, UNIT, k)
        return None

    def model(E, st, name, args, k):
        m = name.rsplit("::", 1)[-1]
        if not args:
            return None
        if name.startswith("str::"):
            return strs(E, st, m, args, k)
        if name.startswith(("std::vec::Vec::", "slice::", "std::iter::", "std::ops::Index")):
            return lists(E, st, name, m, args, k)
        return None
    return model
