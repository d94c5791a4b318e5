"""Common machinery of the rules: contexts, path collection, obligations, evidence."""
import math
import json, os, re, time
from terms import *
from facts import Program, callee_names
from engine import Engine, CheckError, norm_name, subst

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("SA_EVIDENCE", os.path.join(VERIF, "evidence"))


class Stop(Exception):
    """an anchor is missing: nothing further can be decided by this rule group"""


class Path:
    """one explored abstract path of a function: how it ended, what was assumed, what it did"""
    __slots__ = ("end", "v", "facts", "evs", "heap", "site", "env0", "env1", "over", "into", "site0")

    def __init__(self, end, v, st, site=None):
        self.end = end          # "ret" | "panic"
        self.into = self.site0 = None
        self.v = v
        self.facts = dict(st.facts)
        self.evs = [x.ev for x in st.trace]
        self.site = site

    def ok(self):
        return self.end == "ret" and self.v.tag == "A" and self.v.a[1] == "Ok"

    def err(self):
        return self.end == "ret" and self.v.tag == "A" and self.v.a[1] == "Err"

    def val(self, i=0):
        return self.v.a[3][i]

    def calls(self, *names):
        return [e for e in self.evs if e.kind == "call" and e.is_(*names)]

    def has(self, *names):
        return bool(self.calls(*names))

    def left_early(self):
        """(of an iteration) the loop was left before its iterator was exhausted, other than by an error"""
        if self.end == "next":
            a, b = bare(self.into), bare(self.over)
            return a is not b and not (a.tag == b.tag == "Iter" and a.a[0] == b.a[0] == "src" and a.a[1].tag == b.a[1].tag == "Arr")
        return self.end == "ret" and not self.err()

    def index(self, *names):
        for i, e in enumerate(self.evs):
            if e.kind == "call" and e.is_(*names):
                return i
        return None

    def show(self):
        return "%s %s | %s | %s" % (self.end, show(self.v) if isinstance(self.v, T) else self.v,
                                    "; ".join("%s=%s" % (show(a), b) for a, b in self.facts.items()),
                                    "; ".join(map(str, self.evs)))


_prog = [None]
_base = [None]


def program():
    if _prog[0] is None:
        _prog[0] = Program(os.path.join(BUILD, "facts.json"))
    return _prog[0]


def base_fns():
    if _base[0] is None:
        with open(os.path.join(HERE, "base_fns.txt")) as f:
            _base[0] = set(f.read().split("\n"))
    return _base[0]


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.p = program()
        self.repo = REPO
        self.violations = []     # (key, message)
        self.obs = []            # (rule, construct, ok)
        self.fns = set()
        self.blocks = 0
        self.npaths = 0
        self.nevents = 0
        self.rules = {}
        self.assumptions = []
        self.extra = {}

    # ---- obligations
    def ob(self, rule, construct, ok, msg=""):
        """one proof obligation: rule id, the construct it is about, the verdict"""
        if isinstance(construct, list):
            construct = " / ".join(map(str, construct))
        self.obs.append((rule, construct, bool(ok)))
        if not ok:
            self.violations.append(("%s @ %s" % (rule, construct), msg))
        return ok

    def rule(self, rid, text):
        self.rules[rid] = text

    def fail(self, rule, construct, msg):
        self.ob(rule, construct, False, msg)

    def floor(self, name, n, least):
        """an empty or shrunken scope must not pass silently"""
        self.ob("scope", name, n >= least, "only %d of at least %d %s were found" % (n, least, name))

    # ---- anchors
    def fn(self, regex, **kw):
        fs = self.p.find(regex, **kw)
        if len(fs) != 1:
            self.fail("anchor", regex, "expected exactly one function matching %r, found %r" % (regex, [f.path for f in fs]))
            raise Stop()
        return fs[0]

    def method(self, trait, self_re, name):
        fs = self.p.impl_fns(trait, self_re, name)
        if len(fs) != 1:
            self.fail("anchor", "impl %s for %s::%s" % (trait, self_re, name), "expected exactly one, found %r" % [f.path for f in fs])
            raise Stop()
        return fs[0]

    # ---- exploration
    def explore(self, fn, inline=(), keep=None, interesting=None, on_event=None, on_return=None, on_panic=None,
                args=None, init=None, limit=400000, opaque_extra=(), **kw):
        base = base_fns()
        inl = [re.compile(x) for x in inline]
        opq = [re.compile(x) for x in opaque_extra]

        def opaque(f):
            if any(x.search(f.path) for x in opq):
                return True
            if any(x.search(f.path) for x in inl):
                return False
            return f.path in base
        e = Engine(self.p, opaque=opaque, interesting=interesting if interesting else (lambda ev: False),
                   keep_facts=keep, on_event=on_event, on_return=on_return, on_panic=on_panic, limit=limit, **kw)
        self.fns.add(fn.path)
        e.run(fn, args=args, init=init)
        self.blocks += e.stats["blocks"]
        self.nevents += e.stats["events"]
        for i in e.inlined:
            self.fns.add(self.p.fns[i].path)
        return e

    def paths(self, fn, inline=(), interesting=None, keep=None, args=None, init=None, limit=400000, **kw):
        """every abstract path of fn (joined where nothing relevant differs)"""
        out = []

        def onret(E, st, v):
            out.append(Path("ret", v, st))

        def onpanic(E, st, name, a):
            out.append(Path("panic", name, st, E.site(st.frames[-1])))
        if interesting is None:
            interesting = lambda ev: True
        self.explore(fn, inline=inline, interesting=interesting, keep=keep, on_return=onret, on_panic=onpanic,
                     args=args, init=init, limit=limit, **kw)
        self.npaths += len(out)
        return out

    def iterations(self, fn, over, inline=(), interesting=None, keep=None, across=None, args=None, init=None, limit=400000, exits=None, after=None, old=False, forget=False, between=None, past=None, havoc=False, **kw):
        """every abstract iteration of the loops of fn over an iterator satisfying `over`: facts and events since
        the element was taken; end is "next" (went on to the next element), "ret" or "panic". `after` collects the
        ways to return once an iterator is exhausted (env0: the variables when it was found to be; over: the iterator).
        With `old`, what the variables hold of the elements before the one taken is made of Old terms. With `havoc`
        it is one Loop term per variable instead. With `forget`, what was put into the arguments for earlier elements is left out. `between` collects the ways from the end of
        an iterator to the next element of another. `past` tells which facts about elements are remembered once their
        loop is left, as facts about Past(iterator, site) (2: both values were seen); Done(iterator, site): it was exhausted.
        """
        out = []
        seen = set()
        keepf = across or (lambda t: t.tag == "Arg")
        if past:
            hist = lambda t: t.tag in ("At", "Done", "NoElem") or any(x.tag == "Past" for x in subset(t))
            keepf = (lambda f: lambda t: hist(t) or f(t))(keepf)
            if keep:
                keep = (lambda f: lambda t: hist(t) or past(t) or f(t))(keep)
        at = lambda st: "%s:%s" % (st.frames[-1].fn.id, st.frames[-1].bb)

        def remember(st, itv, site):
            for t, v in list(st.facts.items()):
                if past(t) and not any(x.tag == "Past" for x in subset(t)):
                    for x in subset(t):
                        if x.tag == "Elem" and isinstance(x.a[0], T) and x.a[0] in subset(itv):
                            k = subst(t, x, mk("Past", itv, site))
                            st.facts[k] = v if st.facts.get(k, v) == v else 2

        def onexhaust(E, st, itv):
            if past:
                st.facts = dict(st.facts)
                st.facts[mk("Done", itv, at(st))] = True

        def onquant(E, st, itv, all_):
            site = at(st)
            st.facts = dict(st.facts)
            remember(st, itv, site)
            if all_:
                st.facts[mk("Done", itv, site)] = True
        names = {p[0] for n, p in fn.names if len(p) == 1}
        vnames = {p[0]: "%s_%d" % (n, p[0]) for n, p in fn.names if len(p) == 1}

        def envof(st, exact=False):
            if not st.frames:
                return {}
            env = {l: v for l, v in st.frames[0].env.items() if l in names}
            if exact and st.frames[0].pre:
                for l, (n, w, _) in st.frames[0].pre.items():
                    if l in env and w in subset(env[l]):
                        env[l] = subst(env[l], w, n)
            return env

        def add(p, st):
            p.env0 = dict(st.aux[1])
            p.over = st.aux[2]
            p.site0 = st.aux[3] if len(st.aux) > 3 else None
            p.env1 = envof(st, True)
            k = (p.end, p.v, frozenset(p.facts.items()), tuple(e.key() for e in p.evs), st.aux, frozenset(p.env1.items()))
            if k not in seen:
                seen.add(k)
                (out if st.aux[0] == "iter" else between if p.end == "next" else after).append(p)

        def onnext(E, st, itv):
            if past:
                st.facts = dict(st.facts)
                was = st.facts.get(mk("At", itv))
                if was:
                    remember(st, itv, was)
                st.facts[mk("At", itv)] = at(st)
            if not over(itv):
                return False
            if st.aux and (st.aux[0] == "iter" or st.aux[0] == "done" and between is not None):
                q = Path("next", None, st)
                q.into = itv
                add(q, st)
            if forget and st.heap:
                st.heap = {t: v for t, v in st.heap.items() if not (t.tag == "Arg" and v.tag in ("Acc", "Fix", "Top"))}
            for fr in st.frames[:1]:
                fr.pre = None
                src = set()
                x = itv
                while isinstance(x, T) and x not in src:
                    src.add(x)
                    x = x.a[1] if x.tag in ("Iter", "Thin") and len(x.a) > 1 else x.a[1][0] if isC(x, "keys", "values", "into_keys", "into_values", "rev") and len(x.a[1]) == 1 else None
                if havoc:
                    for l, v in list(fr.env.items()):
                        if l in names and any(x.tag == "Loop" or x.tag == "Elem" and x.a[0] in src for x in subset(v)):
                            fr.env[l] = mk("Loop", vnames[l])
                if old:
                    for l, v in list(fr.env.items()):
                        for x in subset(v):
                            if x.tag == "Elem" and x.a[0] in src:
                                v = subst(v, x, mk("Old", x.a[0]))
                        fr.env[l] = v
            st.aux = ("iter", frozenset(envof(st).items()), itv, at(st))
            if exits is not None:
                exits.append(envof(st))
            st.trace = ()
            st.facts = {t: v for t, v in st.facts.items() if keepf(t)}
            return True

        def onret(E, st, v):
            if st.aux and (st.aux[0] == "iter" or after is not None):
                add(Path("ret", v, st), st)

        def onpanic(E, st, name, a):
            if st.aux and st.aux[0] == "iter":
                add(Path("panic", name, st, E.site(st.frames[-1])), st)
        self.explore(fn, inline=inline, interesting=interesting or (lambda ev: True), keep=keep, on_return=onret, on_panic=onpanic,
                     args=args, init=init, limit=limit, on_next=onnext, on_exhaust=onexhaust, on_quant=onquant if past else None, **kw)
        self.npaths += len(out)
        return out

    def interesting(self, *names):
        return lambda ev: ev.kind == "call" and ev.is_(*names)

    # ---- sources outside the compiled Linux program
    def read(self, rel):
        p = os.path.join(self.repo, rel)
        try:
            with open(p, "rb") as f:
                return f.read().decode("utf-8", "surrogateescape")
        except OSError as e:
            self.fail("anchor", rel, "cannot read: %s" % e)
            raise Stop()

    # ---- lazily built statics
    def static_regex(self, path):
        """the pattern text a lazily initialised regex static is built from"""
        out = set()
        for fn in self.p.fns.values():
            if fn.kind == "Closure" and (fn.parent == path or fn.path.startswith(path + "::{closure")):
                for p in self.paths(fn):
                    for e in p.evs:
                        if e.kind == "call" and e.is_("Regex::new", "RegexBuilder::new"):
                            out.add(e.args[0].a[1] if e.args[0].tag == "K" else None)
        return out.pop() if len(out) == 1 else None

    # ---- who-calls
    def callers(self, *names, include_tests=False):
        """[(fn, block, term, fref)] of every call in the crate to one of names"""
        out = []
        for fn in self.p.fns.values():
            if fn.kind not in ("Fn", "AssocFn", "Closure"):
                continue
            if not include_tests and is_test(fn):
                continue
            for f, bi, t, fr in self.p.call_sites(fn):
                ns = [norm_name(x) for x in callee_names(fr)]
                if any(name_is(n, m) for n in ns for m in names):
                    out.append((fn, bi, t, fr))
        return out


def is_test(fn):
    return "::test::" in fn.path or "::tests::" in fn.path or "test_util" in fn.path


def root_fn(p, fn):
    while fn.kind == "Closure" and fn.parent and fn.parent in p.fns:
        fn = p.fns[fn.parent]
    return fn


# ---- facts ------------------------------------------------------------------------------
def fact(st_or_path, pred):
    """facts (term, value) satisfying pred(term, value)"""
    return [(t, v) for t, v in st_or_path.facts.items() if pred(t, v)]


def is_var(v, name):
    return v == ("v", name)


def walk(t):
    return subset(t)


def callsin(t, *names):
    return [x for x in subset(t) if x.tag == "C" and any(name_is(x.a[0], n) for n in names)]


def fmt_pieces(t):
    """flatten a formatted/concatenated string into literal pieces and terms"""
    t = strip(t)
    if t.tag == "Fmt":
        out = []
        for x in t.a:
            if isinstance(x, str):
                out.append(x)
            else:
                out.append(x)
        return out
    if t.tag == "K":
        return [t.a[1]]
    return [t]


_peel = {}


def peel(t):
    """project fields out of structs through mutation histories: (S{f: x}<<h).f -> x"""
    r = _peel.get(t)
    if r is not None:
        return r
    if t.tag == "F":
        b = peel(t.a[0])
        while b.tag in ("Acc", "Upd"):
            b = b.a[0]
        if b.tag == "A" and t.a[1] in b.a[2]:
            r = b.a[3][b.a[2].index(t.a[1])]
        else:
            r = mk("F", peel(t.a[0]), *t.a[1:])
    elif t.tag in ("K", "Arg"):
        r = t
    else:
        r = mk(t.tag, *_peel_args(t.a))
    _peel[t] = r
    return r


def _peel_args(a):
    out = []
    for e in a:
        if isinstance(e, T):
            out.append(peel(e))
        elif isinstance(e, tuple):
            out.append(tuple(_peel_args(e)))
        elif isinstance(e, frozenset):
            out.append(frozenset(_peel_args(e)))
        else:
            out.append(e)
    return out


def okfact(p, *names, arg=None):
    """is there a fact `<call to name> is Ok` (optionally whose arguments satisfy arg)?"""
    for t, v in p.facts.items():
        if v == ("v", "Ok") and t.tag == "C" and any(name_is(t.a[0], n) for n in names):
            if arg is None or arg(t.a[1]):
                return t
    return None


MUTATORS = ("std::fs::rename", "std::fs::write", "std::fs::copy", "std::fs::remove_file", "std::fs::remove_dir_all",
            "std::fs::remove_dir", "std::fs::create_dir", "std::fs::create_dir_all", "std::fs::hard_link",
            "std::fs::File::create", "std::fs::File::create_new", "std::fs::File::set_len", "std::fs::OpenOptions::open",
            "std::os::unix::fs::symlink", "std::fs::soft_link", "std::fs::set_permissions",
            "tempfile::NamedTempFile::persist", "tempfile::NamedTempFile::persist_noclobber",
            "tempfile::NamedTempFile::new_in", "tempfile::NamedTempFile::new", "tempfile::tempdir_in", "tempfile::tempdir",
            "tempfile::TempDir::new", "tempfile::TempDir::new_in", "tempfile::tempfile", "tempfile::tempfile_in",
            "tempfile::TempDir::into_path", "tempfile::TempDir::keep", "tempfile::NamedTempFile::keep",
            "tempfile::TempPath::persist", "tempfile::TempPath::keep")


def constructions(ctx, adt_suffix):
    """[(fn, span)] of every literal construction of the struct/enum outside derived code"""
    out = []
    for fn in ctx.p.fns.values():
        if fn.derived or is_test(fn):
            continue
        for b in fn.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s[0] == "=" and s[2].get("r") == "agg":
                    out.extend([(fn, s[3])] if agg_is(s[2], adt_suffix) else [])
    return out


def agg_is(r, suffix):
    import json
    p = r.get("p") or (r.get("k") or {}).get("p") if isinstance(r.get("k"), dict) else r.get("p")
    return isinstance(p, str) and name_is(p, suffix)


# ---- linear arithmetic over terms -------------------------------------------------------
ADD = ("checked_add", "saturating_add", "wrapping_add", "Add::add", "checked_add_signed", "checked_add_unsigned")
SUB = ("checked_sub", "wrapping_sub", "Sub::sub")
THRU = ("TryFrom::try_from", "try_from", "TryInto::try_into", "try_into", "From::from", "Into::into", "from", "into")
_INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")


def lin(t):
    """t as a linear form {atom: coefficient, None: constant}; checked/plain/saturating additions and
    conversions between integer types are read as the exact operation (saturating_sub is not)"""
    t = strip(peel(t))
    if t.tag == "K" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool):
        return {None: t.a[1]} if t.a[1] else {}
    if t.tag == "P" and t.a[1] in ("Some", "Ok") and t.a[0].tag == "C":
        nm = t.a[0].a[0]
        if nm.rsplit("::", 1)[-1] in ("checked_add", "checked_sub", "checked_add_signed", "try_from", "try_into", "checked_mul"):
            return lin(t.a[0])
    if t.tag == "F" and t.a[1] == "0" and t.a[0].tag == "Bin":
        return lin(t.a[0])
    if t.tag == "Bin":
        o = t.a[0].replace("WithOverflow", "").replace("Unchecked", "")
        if o == "Add":
            return ladd(lin(t.a[1]), lin(t.a[2]))
        if o == "Sub":
            return ladd(lin(t.a[1]), lin(t.a[2]), -1)
        if o == "Mul":
            for x, y in ((lin(t.a[1]), lin(t.a[2])), (lin(t.a[2]), lin(t.a[1]))):
                if set(y) == {None}:
                    return ladd({}, x, y[None])
    if t.tag == "C" and len(t.a[1]) == 2:
        if any(name_is(t.a[0], n) for n in ADD):
            return ladd(lin(t.a[1][0]), lin(t.a[1][1]))
        if any(name_is(t.a[0], n) for n in SUB):
            return ladd(lin(t.a[1][0]), lin(t.a[1][1]), -1)
    if t.tag == "C" and len(t.a[1]) == 1:
        ln = t.a[0].split("::")
        if ln[-1] in ("try_from", "try_into", "from", "into") and ln[-2:-1] and ln[-2] in _INTS + ("TryFrom", "TryInto", "From", "Into"):
            return lin(t.a[1][0])
        if ln[-1] in ("unsigned_abs", "wrapping_neg"):
            return ladd({}, lin(t.a[1][0]), -1)
    if t.tag == "Un" and t.a[0] == "Neg":
        return ladd({}, lin(t.a[1]), -1)
    if t.tag in ("Cast",):
        return lin(t.a[-1] if isinstance(t.a[-1], T) else t.a[0])
    return {t: 1}


def ladd(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if r[x] == 0:
            del r[x]
    return r


def lsub(a, b):
    return ladd(a, b, -1)


def lconst(l):
    return l.get(None, 0) if all(k is None for k in l) else None


def ineqs(facts):
    """every comparison known on a path as `form >= 0`"""
    out = []
    items = facts.items() if isinstance(facts, dict) else facts
    for t, v in items:
        if t.tag == "Bin" and isinstance(v, bool) and t.a[0] in ("Lt", "Le", "Gt", "Ge", "Eq"):
            a, b = lin(t.a[1]), lin(t.a[2])
            op = t.a[0]
            if op == "Eq":
                if v:
                    out += [lsub(a, b), lsub(b, a)]
                continue
            if not v:
                op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
            d = {"Lt": (b, a, 1), "Le": (b, a, 0), "Gt": (a, b, 1), "Ge": (a, b, 0)}[op]
            f = lsub(d[0], d[1])
            if d[2]:
                f = ladd(f, {None: -1})
            g = math.gcd(*(c for x, c in f.items() if x is not None)) if len(f) > 1 or None not in f else 0
            if g > 1:
                f = {x: c // g for x, c in f.items() if c // g}
            out.append(f)
    return out


def min_ineqs(*terms):
    """x >= min(x, y) for every minimum mentioned"""
    out = []
    for t in terms:
        for x in subset(peel(t)):
            if x.tag == "C" and x.a[0].rsplit("::", 1)[-1] == "min" and len(x.a[1]) == 2:
                for y in x.a[1]:
                    out.append(lsub(lin(y), {x: 1}))
                    if isC(strip(y), "unwrap_or") and is_k(strip(y).a[1][1], "int"):
                        z = strip(y).a[1][0]
                        out.append(lsub(lin(mk("P", z, "Ok", "0")), {x: 1}))
            if x.tag == "C" and x.a[0].rsplit("::", 1)[-1] == "clamp" and len(x.a[1]) == 3:
                out.append(lsub({x: 1}, lin(x.a[1][1])))
                out.append(lsub(lin(x.a[1][2]), {x: 1}))
    return out


def entails(known, goal):
    """goal >= 0 follows from at most two of the known forms (plus a non-negative constant)"""
    c = lconst(goal)
    if c is not None and c >= 0:
        return True
    for i, f in enumerate(known):
        r = lsub(goal, f)
        c = lconst(r)
        if c is not None and c >= 0:
            return True
        for g in known[i:]:
            c = lconst(lsub(r, g))
            if c is not None and c >= 0:
                return True
    return False


def lshow(l):
    return " + ".join("%s%s" % ("" if c == 1 else "%d*" % c, "1" if k is None else show(k)) for k, c in sorted(l.items(), key=lambda kv: -1 if kv[0] is None else kv[0].uid)) or "0"


# ---- terms without their mutation history --------------------------------------------------
_bare = {}


def bare(t):
    """the term with every mutation history removed, at every depth"""
    r = _bare.get(t)
    if r is None:
        u = strip(t)
        while u.tag == "Idx" and u.a[1].tag in ("A", "K") and "RangeFull" in show(u.a[1]):
            u = strip(u.a[0])
        while u.tag == "Thin" and u.a[0] == "rev":
            u = strip(u.a[1])
        r = u if u.tag in ("K", "Arg") else mk(u.tag, *_bare_args(u.a))
        _bare[t] = r
    return r


def _bare_args(a):
    out = []
    for e in a:
        if isinstance(e, T):
            out.append(bare(e))
        elif isinstance(e, tuple):
            out.append(tuple(_bare_args(e)))
        elif isinstance(e, frozenset):
            out.append(frozenset(_bare_args(e)))
        else:
            out.append(e)
    return out


def history(t):
    """the set of (method, args) mutations a value went through"""
    out = set()
    while t.tag in ("Acc", "Upd"):
        if t.tag == "Acc":
            out |= set(t.a[1])
        t = t.a[0]
    return out


def clofn(ctx, v):
    """the functions a closure or function value stands for"""
    if v.a[0] in ctx.p.fns:
        return [ctx.p.fns[v.a[0]]]
    return [f for f in ctx.p.fns.values() if f.path == v.a[0]]


THIN = ("take", "skip", "step_by", "take_while", "skip_while", "map_while", "zip")


def drops(ctx, it, pure=None):
    """how elements get lost on the way through an iterator's adaptors: [(adaptor, Path of the predicate that drops
    the element) or (adaptor, None) when the adaptor loses elements by position]"""
    out = []
    it = strip(it)
    while it.tag == "Iter" and it.a[0] != "src":
        m = it.a[0]
        if m in THIN:
            out.append((m, None))
        if m in ("filter", "filter_map", "flat_map"):
            v = strip(it.a[2])
            fs = clofn(ctx, v) if v.tag in ("Clo", "FnV") else []
            e = mk("Elem", it.a[1])
            if len(fs) != 1:
                out.append((m, None))
            else:
                for p in ctx.paths(fs[0], args=([v, e] if v.tag == "Clo" else [e]), **({"pure": pure} if pure else {})):
                    r = strip(p.v) if p.end == "ret" else None
                    if r is None:
                        continue
                    if r.tag == "A" and r.a[1] == "Some" or is_k(r, "bool", True):
                        continue
                    b = bval(p, r)
                    if b is True:
                        continue
                    if m == "filter" and b is None and not is_k(r, "bool"):
                        p.facts = dict(p.facts)
                        neg = False
                        while r.tag == "Un" and r.a[0] == "Not" or r.tag == "Not":
                            r, neg = strip(r.a[-1]), not neg
                        p.facts[r] = neg
                    if m in ("filter_map", "flat_map") and r.tag in ("C", "F", "P", "Elem", "Arg"):
                        p.facts = dict(p.facts)
                        p.facts[r] = ("v", "None")
                    out.append((m, p))
        it = strip(it.a[1]) if isinstance(it.a[1], T) else it
        if not isinstance(it, T):
            break
    return out


def sort_order(ctx, t, key):
    """"asc"/"desc" when the last sort in t's history, and the directions it is then read in, order it by a key
    satisfying key(term over the element); None when it is not sorted that way"""
    rev = sum(1 for x in subset(t) if x.tag in ("Iter", "Thin") and x.a[0] == "rev" or x.tag == "C" and x.a[0].rsplit("::", 1)[-1] == "rev")
    srt = []
    for x in subset(t):
        if x.tag == "Acc":
            for m, ar in x.a[1]:
                ln = m.rsplit("::", 1)[-1]
                if ln.startswith("sort"):
                    srt.append((ln, ar))
                if ln == "reverse":
                    rev += 1
    if len(set(srt)) != 1:
        return None
    ln, ar = srt[0]
    desc = rev % 2 == 1
    if "by_key" in ln or "by_cached_key" in ln:
        v = strip(ar[-1])
        if v.tag in ("Clo", "FnV"):
            fn = clofn(ctx, v)
            if len(fn) != 1:
                return None
            r = [strip(p.v) for p in ctx.paths(fn[0]) if p.end == "ret"]
            if len(r) != 1:
                return None
            v = r[0]
        neg = v.tag == "A" and v.a[0].endswith("Reverse")
        if neg:
            v = strip(v.a[3][0])
        return ("desc" if desc != neg else "asc") if key(v) else None
    if ln in ("sort_keys", "sort_unstable_keys"):
        return ("desc" if desc else "asc") if key(mk("F", mk("Elem", strip(t)), "0")) else None
    if ln in ("sort", "sort_unstable"):
        # tuples are ordered by their first component
        tups = [bare(ar[-1]) for x in subset(t) if x.tag == "Acc" for m, ar in x.a[1] if m.rsplit("::", 1)[-1] == "push"]
        if not tups or any(v.tag != "Tup" for v in tups) or not key(mk("F", mk("Elem", strip(t)), "0")):
            return None
        return "desc" if desc else "asc"
    if ln in ("sort_by", "sort_unstable_by"):
        v = strip(ar[-1])
        swap = False
        if isC(v, "reverse"):
            swap, v = True, strip(v.a[1][0])
        if not (isC(v, "cmp") or isC(v, "partial_cmp")) or len(v.a[1]) != 2:
            return None
        second = [any(y.tag == "Elem2" for y in subset(bare(w))) for w in v.a[1]]
        if not all(key(x) for x in map(strip, v.a[1])) or second[0] == second[1]:
            return None
        rev2 = second[0]
        return "desc" if desc != (rev2 != swap) else "asc"
    return None


def bval(p, t):
    """the truth value of t on the path p, or None"""
    t = strip(t)
    if t.tag == "K" and isinstance(t.a[1], bool):
        return t.a[1]
    if t.tag == "Un" and t.a[0] == "Not":
        v = bval(p, t.a[1])
        return None if v is None else not v
    v = p.facts.get(t)
    if isinstance(v, bool):
        return v
    if t.tag == "Bin" and t.a[0] in ("Eq", "Ne"):
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if y.tag in ("K", "A"):
                f = p.facts.get(x)
                if f is None:
                    f = next((w for z, w in p.facts.items() if bare(z) is bare(x)), None)
                val = y.a[1]
                if isinstance(f, tuple):
                    if f[0] in ("i", "v"):
                        return (f[1] == val) == (t.a[0] == "Eq")
                    if f[0] in ("ni", "nv") and val in f[1]:
                        return t.a[0] == "Ne"
    return None


# ---- character classes ----------------------------------------------------------------------
ASCII = [chr(i) for i in range(128)]
_CLS = {
    "is_ascii_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_control": lambda c: ord(c) < 32 or ord(c) == 127,
    "is_ascii_alphanumeric": lambda c: c.isalnum(), "is_alphanumeric": lambda c: c.isalnum(),
    "is_ascii_alphabetic": lambda c: c.isalpha(), "is_alphabetic": lambda c: c.isalpha(),
    "is_ascii_digit": lambda c: c.isdigit(), "is_numeric": lambda c: c.isdigit(),
    "is_ascii_lowercase": lambda c: "a" <= c <= "z", "is_lowercase": lambda c: "a" <= c <= "z",
    "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_uppercase": lambda c: "A" <= c <= "Z",
    "is_ascii_punctuation": lambda c: 32 < ord(c) < 127 and not c.isalnum(),
    "is_ascii_graphic": lambda c: 32 < ord(c) < 127,
    "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c", "is_whitespace": lambda c: c in " \t\n\r\x0b\x0c",
    "is_ascii_hexdigit": lambda c: c in "0123456789abcdefABCDEF",
    "is_ascii": lambda c: True,
}


def ceval(ctx, t, x, c):
    """the value of term t where x is the character c; None when it cannot be told"""
    t = strip(t)
    if t is x:
        return c
    if t.tag == "K":
        return t.a[1]
    if t.tag == "Cast":
        return ceval(ctx, [y for y in t.a if isinstance(y, T)][0], x, c)
    if t.tag in ("P", "Ref", "Deref") and isinstance(t.a[0], T):
        return ceval(ctx, t.a[0], x, c)
    if t.tag == "Un" and t.a[0] == "Not":
        v = ceval(ctx, t.a[1], x, c)
        return None if v is None else not v
    if t.tag == "Bin":
        a, b = ceval(ctx, t.a[1], x, c), ceval(ctx, t.a[2], x, c)
        if a is None or b is None:
            return None
        o = t.a[0]
        if isinstance(a, str) and isinstance(b, int):
            a = ord(a)
        if isinstance(b, str) and isinstance(a, int):
            b = ord(b)
        try:
            return {"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b,
                    "Ge": lambda: a >= b, "BitOr": lambda: a | b, "BitAnd": lambda: a & b}[o]()
        except (KeyError, TypeError):
            return None
    if t.tag == "C":
        ln = t.a[0].rsplit("::", 1)[-1]
        if ln in _CLS and len(t.a[1]) == 1:
            v = ceval(ctx, t.a[1][0], x, c)
            v = chr(v) if isinstance(v, int) and not isinstance(v, bool) else v
            return _CLS[ln](v) if isinstance(v, str) and len(v) == 1 and ord(v) < 128 else None
        if ln in ("to_ascii_lowercase", "to_ascii_uppercase") and len(t.a[1]) == 1:
            v = ceval(ctx, t.a[1][0], x, c)
            v = chr(v) if isinstance(v, int) and not isinstance(v, bool) else v
            return None if v is None else (v.lower() if "lower" in ln else v.upper())
        if ln in ("contains",) and len(t.a[1]) == 2:
            v = ceval(ctx, t.a[1][1], x, c)
            s = strip(t.a[1][0])
            if v is not None and s.tag == "Arr":
                return any(ceval(ctx, y, x, c) == v for y in s.a)
            if v is not None and is_k(s, "str"):
                return v in s.a[1]
    return None


def consistent(ctx, p, x, c):
    """can the path be taken when x is the character c? (facts that say nothing about it are ignored)"""
    for t, v in p.facts.items():
        w = ceval(ctx, t, x, c)
        if w is None:
            continue
        if isinstance(v, tuple):
            ws = (w, ord(w)) if isinstance(w, str) and len(w) == 1 else (w, chr(w)) if isinstance(w, int) and not isinstance(w, bool) else (w,)
            if v[0] == "i" and v[1] not in ws or v[0] == "ni" and any(y in v[1] for y in ws):
                return False
        elif w != v:
            return False
    return True


def charpred(ctx, t):
    """the ASCII characters a pattern / predicate term certainly matches, and those it possibly matches"""
    t = strip(t)
    if t.tag == "K" and t.a[0] == "char":
        return {t.a[1]}, {t.a[1]}
    if t.tag == "K" and t.a[0] == "str" and len(t.a[1]) == 1:
        return {t.a[1]}, {t.a[1]}
    if t.tag == "Arr":
        s = {c for k in t.a for c in charpred(ctx, k)[0]}
        return s, s
    if t.tag == "FnV":
        f = _CLS.get(t.a[0].rsplit("::", 1)[-1])
        if f:
            s = {c for c in ASCII if f(c)}
            return s, s
    if t.tag in ("Clo", "FnV"):
        fn = clofn(ctx, t)
        if len(fn) == 1:
            ps = ctx.paths(fn[0])
            must, may = set(), set()
            for c in ASCII:
                vals = set()
                for p in ps:
                    xs = {y for q in list(p.facts) + [p.v] if isinstance(q, T) for y in subset(q) if y.tag == "Arg"}
                    xs = [y for y in xs if y.a[1] != "self"] or [mk("Arg", 0, None)]
                    if consistent(ctx, p, xs[0], c):
                        vals.add(ceval(ctx, p.v, xs[0], c) if p.end == "ret" else False)
                if vals == {True}:
                    must.add(c)
                if vals != {False}:
                    may.add(c)
            return must, may
    return set(), set(ASCII)


CHARS = ("chars", "bytes", "as_bytes", "char_indices")


def str_elem(t, v):
    """t is the generic element of the characters/bytes of the string v"""
    if t.tag != "Elem":
        return False
    x = strip(t.a[0])
    while x.tag == "Iter" or x.tag == "C" and x.a[0].rsplit("::", 1)[-1] in CHARS + ("iter",):
        x = strip(x.a[1] if x.tag == "Iter" else x.a[1][0])
    return x is v


def str_domain(ctx, ps, v):
    """what the accepting paths ps know about the string v, as (characters it may contain, may start with,
    may end with, may it be empty).  A character class domain: nothing is run."""
    el = {x for p in ps for t in p.facts for x in subset(t) if str_elem(x, v)}
    anyc, first, last, empty = set(), set(), set(), False

    def mentions(t, e):
        return e in subset(t)
    for p in ps:
        skip = any(t.tag == "NoElem" and str_elem(mk("Elem", t.a[0]), v) for t in p.facts)
        for e in el:
            if not any(mentions(t, e) for t in p.facts):
                rest = frozenset((t, x) for t, x in p.facts.items() if t.tag != "NoElem")
                if any(any(mentions(t, e) for t in q.facts) and frozenset((t, x) for t, x in q.facts.items() if not mentions(t, e) and t.tag != "NoElem") == rest for q in ps):
                    skip = True     # the same path with no element at all: only the empty string gets here
        a, f, l, em = set(ASCII), set(ASCII), set(ASCII), True
        for t, x in p.facts.items():
            ln = t.a[0].rsplit("::", 1)[-1] if t.tag == "C" else ""
            if t.tag == "C" and len(t.a[1]) == 2 and strip(t.a[1][0]) is v:
                must, may = charpred(ctx, t.a[1][1])
                if ln == "contains" and x is False or ln in ("find", "rfind") and x == ("v", "None"):
                    a -= must
                elif ln == "ends_with":
                    l = l - must if x is False else l & may
                    em = em and x is False
                elif ln == "starts_with":
                    f = f - must if x is False else f & may
                    em = em and x is False
                elif ln in ("contains",) and x is True:
                    em = False
            if t.tag == "C" and t.a[1] and strip(t.a[1][0]) is v:
                if ln == "is_empty" and x is False or ln == "len" and isinstance(x, tuple) and (x[0] == "ni" and 0 in x[1] or x[0] == "i" and x[1]):
                    em = False
                if ln in ("is_empty",) and x is True:
                    a, f, l = set(), set(), set()
            if t is v and isinstance(x, tuple) and x[0] in ("ns", "ni") and "" in x[1] or t.tag == "Bin" and t.a[0] == "Eq" and x is False and \
                    any(is_k(strip(y), "str", "") for y in t.a[1:]) and any(strip(y) is v for y in t.a[1:]):
                em = False
            for z in subset(t):
                if z.tag == "C" and z.a[1] and z.a[0].rsplit("::", 1)[-1] in ("last", "first", "next_back", "next") and str_elem(mk("Elem", z.a[1][0]), v):
                    zs = mk("P", z, "Some", "0")
                    end = z.a[0].rsplit("::", 1)[-1] in ("last", "next_back")
                    if t is z and x == ("v", "Some"):
                        em = False
                    elif t is z and x == ("v", "None"):
                        a, f, l = set(), set(), set()
                    elif zs in subset(t):
                        s = {c for c in ASCII if _agrees(ctx, t, x, zs, c)}
                        if end:
                            l &= s
                        else:
                            f &= s
        for q in ineqs(p.facts):
            if q.get(None, 0) < 0 and len(q) == 2 and all(k is None or k.tag == "C" and k.a[0].endswith("::len") and strip(k.a[1][0]) is v and c == 1 for k, c in q.items()):
                em = False
        for e in el:
            if any(t.tag == "Exists" and str_elem(mk("Elem", t.a[0]), v) for t in p.facts):
                continue
            if any(mentions(t, e) for t in p.facts):
                a = {c for c in a if consistent(ctx, p, e, c) and consistent(ctx, p, mk("F", e, "1"), c)}
        if skip:
            empty = empty or em
            continue
        anyc |= a
        first |= f & a
        last |= l & a
        empty = empty or em
    return anyc, first, last, empty


def _agrees(ctx, t, x, s, c):
    w = ceval(ctx, t, s, c)
    if w is None:
        return True
    if isinstance(x, tuple):
        ws = (w, ord(w)) if isinstance(w, str) and len(w) == 1 else (w,)
        return any(y == x[1] for y in ws) if x[0] in ("i", "s") else not any(y in x[1] for y in ws)
    return w == x
