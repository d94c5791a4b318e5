"""Path-sensitive abstract interpretation of MIR (ESP-style property simulation).

The abstract value of a place is a *provenance term*: where the value came from
(parameters, constants, results of opaque calls, fields, generic elements of collections).
Local callees and closures are inlined virtually, so helper extraction is invisible.
Branches on terms are recorded as facts and prune contradictory paths; no solver is used.
Loops converge because mutation history is kept as a set and a state already seen at a
join point is not explored again.
"""
import os, re
from terms import *
from facts import decode_fmt


class CheckError(Exception):
    pass


class Frame:
    __slots__ = ("fn", "env", "bb", "k", "prom", "tsub", "vis", "pre")

    def __init__(self, fn, env, bb, k, tsub=None):
        self.fn = fn
        self.env = env
        self.bb = bb
        self.k = k
        self.prom = None
        self.tsub = tsub
        self.vis = None
        self.pre = None      # local -> (value, what it was widened to) since the current iteration began

    def clone(self):
        f = Frame(self.fn, dict(self.env), self.bb, self.k, self.tsub)
        f.vis = self.vis
        f.pre = self.pre
        return f


class State:
    __slots__ = ("frames", "facts", "heap", "trace", "aux")

    def __init__(self):
        self.frames = []
        self.facts = {}
        self.heap = {}
        self.trace = ()
        self.aux = None

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.facts = dict(self.facts)
        s.heap = dict(self.heap)
        s.trace = self.trace
        s.aux = self.aux
        return s

    def key(self):
        return (
            tuple((f.fn.id, f.bb, f.k, frozenset(f.env.items()), frozenset(f.pre.items()) if f.pre else None) for f in self.frames),
            frozenset(self.facts.items()),
            frozenset(self.heap.items()),
            self.trace,
            self.aux,
        )


class Event:
    __slots__ = ("kind", "name", "rname", "args", "site", "ret", "f", "fnid", "targs", "rawargs", "tys")

    def __init__(self, kind, name, args, site, fnid):
        self.kind = kind
        self.name = name
        self.args = args
        self.site = site
        self.fnid = fnid
        self.ret = None
        self.f = None
        self.rname = name
        self.targs = ()
        self.rawargs = ()
        self.tys = ()

    def key(self):
        return (self.kind, self.name, self.args)

    def is_(self, *names):
        return any(name_is(self.name, n) or name_is(self.rname, n) for n in names)

    def __repr__(self):
        return "%s(%s) @%s" % ("::".join(self.name.split("::")[-2:]), ", ".join(show(a) for a in self.args), self.site)


_norm_cache = {}


def norm_name(p):
    """canonical callee name: generics dropped, `<impl X>` replaced by X"""
    r = _norm_cache.get(p)
    if r is not None:
        return r
    s = p
    # inherent impls printed as  path::<impl Type>::method
    m = re.match(r"^(.*)::<impl (.*)>::([A-Za-z_0-9]+)$", s)
    if m:
        ty = m.group(2)
        ty = {"[T]": "slice", "[u8]": "slice", "[T; N]": "array", "[V]": "slice"}.get(ty, ty)
        s = ty + "::" + m.group(3)
    else:
        s = strip_generics(s)
    if s.startswith("<") and " as " in s:
        # <X as Trait>::m  -> Trait::m   (callers use the unresolved name; this is only a fallback)
        depth = 0
        for i, c in enumerate(s):
            if c == "<":
                depth += 1
            elif c == ">" and s[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    head, tail = s[1:i], s[i + 1:]
                    j = head.rfind(" as ")
                    s = strip_generics(head[j + 4:]) + tail
                    break
    _norm_cache[p] = s
    return s


def strip_generics(s):
    out = []
    i = 0
    depth = 0
    while i < len(s):
        if s.startswith("::<", i) and depth == 0:
            # only a turbofish if not `::<impl`
            d = 0
            j = i + 2
            while j < len(s):
                if s[j] == "<":
                    d += 1
                elif s[j] == ">" and s[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    r = "".join(out)
    if not r.startswith("<"):
        r2 = []
        d = 0
        for k, c in enumerate(r):
            if c == "<":
                d += 1
            elif c == ">" and (k == 0 or r[k - 1] != "-"):
                d -= 1
                continue
            if d == 0:
                r2.append(c)
        r = "".join(r2)
    return r


def ty_norm(s):
    s = re.sub(r"'[A-Za-z_{}]+\s*", "", s)
    s = s.replace("<>", "").replace("& ", "&")
    s = re.sub(r"<, ", "<", s)
    return s.strip()


def ty_unify(pat, conc, params):
    """does the concrete type string match a pattern with generic parameter names?"""
    if pat == conc:
        return True
    rx = re.escape(pat)
    for p in params:
        rx = re.sub(r"(?<![A-Za-z0-9_])" + re.escape(p) + r"(?![A-Za-z0-9_])", ".+", rx)
    return re.fullmatch(rx, conc) is not None


def upvars(fn):
    """a closure's captures: index -> name"""
    ups = {}
    for n, p in fn.names:
        if p[0] == 1:
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "f":
                    ups[e[1]] = n
                    break
    return ups


_BASE_ARGS = []


def base_names(fn):
    """a function's parameters that have been renamed: name now -> name on the tree the rules were written for"""
    if not _BASE_ARGS:
        d = {}
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_args.txt")) as f:
            for l in f.read().splitlines():
                path, names, _ = l.split("\t")
                d.setdefault(path, []).append(names.split(","))
        _BASE_ARGS.append(d)
    base = _BASE_ARGS[0].get(fn.path)
    if not base or len(base) != 1:
        return {}
    cur = arg_names(fn)
    new, old = [n for n in cur if n not in base[0]], [n for n in base[0] if n not in cur]
    return dict(zip(new, old)) if len(new) == len(old) else {}


def arg_names(fn):
    ups = upvars(fn) if fn.kind == "Closure" else {}
    return [fn.local_names.get(i + 1, "") for i in range(fn.argc)] + [ups[i] for i in sorted(ups)]


TRANSPARENT = {
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
    "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::borrow::BorrowMut::borrow_mut",
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::boxed::Box::new", "std::rc::Rc::new",
    "std::sync::Arc::new", "std::string::String::as_str", "std::vec::Vec::as_slice", "std::path::PathBuf::as_path",
    "str::as_bytes", "std::string::String::as_bytes", "std::path::Path::as_os_str", "std::path::Path::to_path_buf",
    "slice::into_vec", "slice::to_vec", "std::path::PathBuf::into_os_string", "std::hint::must_use",
    "std::path::Path::new", "std::ffi::OsStr::to_os_string", "std::string::String::into_bytes",
    "std::cell::RefCell::borrow_mut", "std::cell::RefCell::borrow", "std::cell::RefCell::new", "std::cell::Cell::new",
    "std::vec::Vec::as_mut_slice", "std::boxed::box_new", "std::boxed::box_assume_init_into_vec_unsafe",
    "std::boxed::Box::into_inner", "std::string::String::into_boxed_str", "std::vec::Vec::into_boxed_slice",
    "std::borrow::Cow::into_owned", "std::borrow::Cow::to_mut", "std::ffi::OsString::as_os_str",
    "std::path::Path::into_path_buf", "std::mem::MaybeUninit::assume_init", "std::boxed::Box::assume_init",
    "str::to_string", "str::to_owned", "std::option::Option::as_ref", "std::option::Option::as_mut",
    "std::option::Option::as_deref", "std::option::Option::as_deref_mut", "std::option::Option::cloned",
    "std::option::Option::copied", "std::result::Result::as_ref", "std::result::Result::as_mut", "std::result::Result::as_deref",
    "std::result::Result::cloned", "std::result::Result::copied", "typed_path::Path::new", "std::ffi::OsStr::new",
    "std::convert::identity", "std::rc::Rc::clone", "std::sync::Arc::clone", "std::vec::Vec::into_boxed_slice",
    "std::string::String::into_string", "std::array::as_slice", "array::as_slice", "regex::Match::as_str",
    "std::boxed::Box::leak", "std::iter::Iterator::by_ref",
    "std::io::Read::by_ref", "std::io::Write::by_ref", "std::boxed::Box::new_uninit_",
}
# these return an independent copy of what they are given
OWNING_RX = re.compile(r"::(to_owned|to_path_buf|to_os_string|to_vec|to_string|into_owned)$")
TRANSPARENT_RX = re.compile(r"^(std|core|alloc)::.*::(into_vec|to_vec|into_boxed_slice)$")

# adaptors that lose elements by position, or change their order
LOSSY = ("rev", "skip", "take", "step_by", "take_while", "skip_while", "map_while")

NO_ADD = re.compile(r"(^|::)(sort\w*|reverse|reserve|shrink_to_fit|dedup\w*|clear|retain|truncate|pop|drain)$")


def empty_vec(t):
    """t is a list that was made empty and to which nothing was added"""
    if t.tag == "Acc":
        return all(NO_ADD.search(m) for m, _ in t.a[1]) and empty_vec(t.a[0])
    return t.tag == "C" and t.a[0] in ("std::vec::Vec::new", "std::vec::Vec::with_capacity")


def is_len(t):
    return t.tag == "C" and LEN.match(t.a[0]) is not None


def emptiness(t):
    """len(x) == 0 is x.is_empty()"""
    return mk("C", t.a[0][:-len("len")] + "is_empty", t.a[1])


EMPTY = re.compile(r"(std::vec::Vec|std::string::String|std::path::PathBuf|std::collections::\w+|indexmap::\w+|std::ffi::OsString)$")
LEN = re.compile(r"(std|slice|str|indexmap)::(.*::)?len$")
ERRWRAP = ("wrap_err", "wrap_err_with", "context", "with_context", "map_err", "suggestion", "note", "with_note",
           "with_suggestion")

# operations that read mutable external state or advance a cursor: a second evaluation may differ
# calls whose meaning depends on an explicit type argument
TYPED = re.compile(r"(ArtifactInfo::is|inner_as|pick_pinned_binary|get_artifact|get_metadata|get_locally_built_\w+|locally_built_\w+|downcast_ref|convert::TryFrom::try_from|\bis_some_and_never)$")
IMPURE = re.compile(
    r"(^std::(fs|io|process|env|time|net|thread)::|^tempfile::|^fs2::|^ureq::|::next$|::next_back$|::read$|::read_to_end$|"
    r"::pop$|::pop_front$|::now$|^zip::|^tar::|::lock$|::send$|::recv$|::exists$|::is_dir$|::is_file$|::metadata$|"
    r"::read_dir$|::fill_buf$|^posy::|^std::ops::Fn|^std::path::Path::(exists|is_|canonicalize|read_dir|metadata|symlink_metadata))")


REC = mk("Rec")


def widen_term(a, b, n):
    """a, b, n: values of one variable at three successive visits of a loop head"""
    if n is b or b is a:
        return n
    if n.tag == b.tag == "Iter" and n.a[0] == b.a[0] == "src" and n.a[1].tag == b.a[1].tag == "Arr" and len(n.a[1].a) < len(b.a[1].a):
        return n
    if n.tag == "Arr" and b.tag == "Arr" and len(n.a) == len(b.a) + 1:
        return n
    if n.tag == b.tag == a.tag:
        if n.tag == "K":
            if n.a[0] == b.a[0] == a.a[0] and all(isinstance(x.a[1], int) and not isinstance(x.a[1], bool) for x in (a, b, n)):
                return mk("Fix", a, frozenset([mk("Bin", "Add", REC, K(n.a[0], n.a[1] - b.a[1]))]))
            return n
        if n.tag in ("A", "Tup") and n.a[:2] == b.a[:2] == a.a[:2] if n.tag == "A" else n.tag == "Tup" and len(n.a) == len(b.a) == len(a.a):
            if n.tag == "A":
                vs = tuple(widen_term(x, y, z) if x is not y and y is not z else z for x, y, z in zip(a.a[3], b.a[3], n.a[3]))
                return mk("A", n.a[0], n.a[1], n.a[2], vs)
            return mk("Tup", *[widen_term(x, y, z) if x is not y and y is not z else z for x, y, z in zip(a.a, b.a, n.a)])
    if b.tag == "Fix":
        if b in subset(n):
            step = subst(n, b, REC)
            return b if step in b.a[1] else fixpoint(b.a[0], b.a[1] | {step})
        if n.tag == "Fix" and n.a[0] is b.a[0]:
            return n if b.a[1] <= n.a[1] else fixpoint(b.a[0], b.a[1] | n.a[1])
        same = [x for x in subset(n) if x.tag == "Fix" and x.a[0] is b.a[0]]
        if same:
            st = b.a[1]
            for x in same:
                st = st | x.a[1]
            for x in sorted(same, key=lambda x: -x.depth):
                n = subst(n, x, REC)
            return fixpoint(b.a[0], st | {n})
        return n
    if a.tag in ("Tup",) or (a.tag == "A" and not a.a[3]):
        return n
    if b.depth > a.depth and n.depth > b.depth and b in subset(n) and a in subset(b):
        step = subst(n, b, REC)
        if subst(step, REC, a) is b:
            return fixpoint(a, frozenset([step]))
        return fixpoint(a, frozenset([step, subst(b, a, REC)]))
    return n


def fixpoint(init, steps):
    if init.tag == "Fix":
        init, steps = init.a[0], init.a[1] | steps
    if len(steps) > 12:
        steps = frozenset([mk("Top", "step")])
    return mk("Fix", init, steps)


def subst(t, x, y, memo=None):
    memo = {} if memo is None else memo
    if t is x:
        return y
    r = memo.get(t)
    if r is None:
        r = mk(t.tag, *_subst_args(t.a, x, y, memo))
        memo[t] = r
    return r


def _subst_args(a, x, y, memo):
    out = []
    for e in a:
        if isinstance(e, T):
            out.append(subst(e, x, y, memo))
        elif isinstance(e, tuple):
            out.append(tuple(_subst_args(e, x, y, memo)))
        elif isinstance(e, frozenset):
            out.append(frozenset(_subst_args(e, x, y, memo)))
        else:
            out.append(e)
    return out


class Engine:
    def __init__(self, prog, opaque=(), interesting=None, limit=150000, inline_depth=14, drops=False,
                 keep_facts=None, on_event=None, on_return=None, on_drop=None, on_panic=None, max_visits=None,
                 transparent=(), pure=None, on_assert=None, on_exhaust=None, on_next=None, on_quant=None, model=None):
        self.p = prog
        self.opaque = opaque if callable(opaque) else [re.compile(x) for x in opaque]
        self.interesting = interesting
        self.limit = limit
        self.inline_depth = inline_depth
        self.drops = drops
        self.keep_facts = keep_facts
        self.cb_event = on_event
        self.cb_return = on_return
        self.cb_drop = on_drop
        self.cb_panic = on_panic
        self.cb_assert = on_assert
        self.cb_exhaust = on_exhaust
        self.cb_quant = on_quant
        self.cb_next = on_next
        self.model = model
        self.transparent = TRANSPARENT | set(transparent)
        self.pure_rx = re.compile(pure) if pure else None
        self.fnvals = {}
        self.texts = set()
        self.stats = {"blocks": 0, "states": 0, "returns": 0, "events": 0, "joins": 0}
        self.inlined = set()
        self.truncated = False
        self._conv = None
        self._opq = {}
        self.sites = set()

    # ------------------------------------------------------------------ memory
    def frame(self, st, depth):
        return st.frames[depth]

    def read_proj(self, st, v, proj, i=0):
        n = len(proj)
        while i < n:
            e = proj[i]
            i += 1
            if e == "*":
                v = self.deref(st, v)
            elif e[0] == "f":
                v = self.field(st, v, e[2], e[1])
            elif e[0] == "v":
                v = self.downcast(st, v, e[2])
            elif e[0] == "i":
                v = self.index(st, v, None)
            elif e[0] == "it":
                v = self.index(st, v, e[1])
            elif e[0] == "ci":
                v = self.cindex(st, v, e[1], e[2])
            elif e[0] == "ss":
                v = self.autoderef(st, v)
                n_ = len(v.a) if v.tag == "Arr" else -1
                to = n_ - e[2] if e[3] else e[2]
                v = mk("Arr", *v.a[e[1]:to]) if 0 <= e[1] <= to <= n_ else mk("Sub", v, e[1], e[2], e[3])
            else:
                v = mk("Top", "proj")
        return v

    def deref(self, st, v):
        if v.tag == "Ref":
            d, l, proj, m = v.a
            base = st.frames[d].env.get(l)
            if base is None:
                return mk("Top", "uninit")
            return self.read_proj(st, base, proj)
        if st.heap:
            h = st.heap.get(v)
            if h is not None:
                return h
        if v.tag == "K" and v.a[0] == "ref":
            return v.a[1]
        return v

    def autoderef(self, st, v):
        k = 0
        while v.tag == "Ref" and k < 20:
            v = self.deref(st, v)
            k += 1
        return v

    def field(self, st, v, name, idx):
        v = self.autoderef(st, v)
        t = v.tag
        if t == "A":
            names, vals = v.a[2], v.a[3]
            if name in names:
                return vals[names.index(name)]
            if idx < len(vals):
                return vals[idx]
            return mk("Top", "field")
        if t in ("Tup",):
            if idx < len(v.a):
                return v.a[idx]
            return mk("Top", "tup")
        if t == "Clo":
            if idx + 1 < len(v.a):
                return v.a[idx + 1]
            return mk("Top", "clo")
        if t == "Upd":
            if v.a[1] == name:
                return v.a[2]
            return self.field(st, v.a[0], name, idx)
        if t == "V":
            r = mk("P", v.a[0], v.a[1], name)
        else:
            r = mk("F", v, name)
        if st.heap:
            h = st.heap.get(r)
            if h is not None:
                return h
        return r

    def downcast(self, st, v, var):
        v = self.autoderef(st, v)
        if v.tag == "A":
            return v
        if v.tag == "Acc" and v.a[0].tag == "A":
            # mutated through a method; keep payload provenance
            inner = v.a[0]
            return A(inner.a[0], inner.a[1], inner.a[2], [Acc(x, i) for x in inner.a[3] for i in list(v.a[1])[:1]])
        if v.tag == "Upd":
            return v
        return mk("V", v, var)

    def index(self, st, v, it):
        v = self.autoderef(st, v)
        if it is not None and it.tag == "K" and isinstance(it.a[1], int):
            return self.cindex(st, v, it.a[1], False)
        if it is not None:
            return mk("Idx", v, it)
        return mk("Elem", v)

    def cindex(self, st, v, off, from_end):
        v = self.autoderef(st, v)
        if v.tag in ("Arr",):
            k = (len(v.a) - off) if from_end else off
            if 0 <= k < len(v.a):
                return v.a[k]
        return mk("Idx", v, K("int", -off if from_end else off))

    def read_place(self, st, fr, p):
        v = fr.env.get(p[0])
        if v is None:
            return mk("Top", "uninit")
        if len(p) == 1:
            return v
        return self.read_proj(st, v, self.proj(fr, p))

    def proj(self, fr, p):
        out = []
        for e in p[1:]:
            if e == "*":
                out.append("*")
            elif e[0] == "i":
                it = fr.env.get(e[1])
                out.append(("it", it) if it is not None else ("i", 0))
            else:
                out.append(tuple(e))
        return tuple(out)

    def resolve(self, st, t, d=0):
        """replace references by the current value of their referent, deeply"""
        if not t.ref:
            if t.tag in ("F", "P", "Arg") and st.heap:
                return st.heap.get(t, t)
            return t
        if d > 12:
            return mk("Top", "deep")
        if t.tag == "Ref":
            return self.resolve(st, self.deref(st, t), d + 1)
        return mk(t.tag, *[self._res(st, x, d + 1) for x in t.a])

    def _res(self, st, x, d):
        if isinstance(x, T):
            return self.resolve(st, x, d)
        if isinstance(x, tuple):
            return tuple(self._res(st, y, d) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self._res(st, y, d) for y in x)
        return x

    def write_place(self, st, fr, p, v):
        if len(p) == 1:
            fr.env[p[0]] = v
            return
        d = st.frames.index(fr)
        self.write_at(st, d, p[0], self.proj(fr, p), v)

    def write_at(self, st, d, l, proj, v):
        # follow derefs of references to find the storage
        env = st.frames[d].env
        base = env.get(l)
        if base is None:
            base = mk("Top", "uninit")
        cur = base
        for i, e in enumerate(proj):
            if e == "*":
                if cur.tag == "Ref":
                    d2, l2, pr2, m = cur.a
                    return self.write_at(st, d2, l2, pr2 + tuple(proj[i + 1:]), v)
                if cur.tag in ("A", "Tup", "Upd", "Acc", "Arr", "Clo", "Top", "K", "Moved"):
                    continue  # boxed value: storage is inline
                # opaque pointer: heap cell keyed by its term
                tgt = cur
                rest = proj[i + 1:]
                tgt2 = self.read_proj_cell(st, tgt, rest)
                if tgt2 is not None:
                    st.heap[tgt2] = v
                    self.emit(st, "store", "store", (tgt2, self.resolve(st, v)))
                return
            cur = self.read_proj(st, cur, (e,))
        env[l] = self.update(st, base, proj, v)

    def read_proj_cell(self, st, v, proj):
        for e in proj:
            if e == "*":
                if v.tag == "Ref":
                    return None
                continue
            if e[0] == "f":
                v = mk("P", v.a[0], v.a[1], e[2]) if v.tag == "V" else mk("F", v, e[2])
            elif e[0] == "v":
                v = mk("V", v, e[2])
            elif e[0] == "it":
                v = mk("Idx", v, e[1])
            else:
                v = mk("Elem", v)
        return v

    def update(self, st, base, proj, v):
        if not proj:
            return v
        e, rest = proj[0], proj[1:]
        if e == "*":
            return self.update(st, base, rest, v)
        if e[0] == "v":
            return self.update(st, self.downcast(st, base, e[2]), rest, v)
        if e[0] == "f":
            cur = self.field(st, base, e[2], e[1])
            nv = self.update(st, cur, rest, v)
            if base.tag == "A":
                names, vals = base.a[2], list(base.a[3])
                k = names.index(e[2]) if e[2] in names else e[1]
                if k < len(vals):
                    vals[k] = nv
                    return mk("A", base.a[0], base.a[1], names, tuple(vals))
            if base.tag == "Tup" and e[1] < len(base.a):
                vals = list(base.a)
                vals[e[1]] = nv
                return mk("Tup", *vals)
            if base.tag == "Clo" and e[1] + 1 < len(base.a):
                vals = list(base.a)
                vals[e[1] + 1] = nv
                return mk("Clo", *vals)
            b = base
            while b.tag == "Upd" and b.a[1] == e[2]:
                b = b.a[0]
            if base.tag == "V":
                b = base
            return mk("Upd", b, e[2], nv)
        # index write
        cur = self.read_proj(st, base, (e,))
        nv = self.update(st, cur, rest, v)
        idx = e[1] if e[0] == "it" and isinstance(e[1], T) else K("int", 0)
        return Acc(base, ("[]=", (idx, self.resolve(st, nv))))

    # ------------------------------------------------------------------ constants
    def const(self, st, fr, c):
        k = c["c"]
        if k == "str":
            return K("str", c["v"] if isinstance(c["v"], str) else tuple(c["v"]))
        if k == "bytes":
            v = c.get("v")
            return K("bytes", v if isinstance(v, str) else (tuple(v) if v is not None else None))
        if k in ("int", "bool", "char"):
            return TRUE if c["v"] is True else FALSE if c["v"] is False else K(k, c["v"])
        if k == "ref":
            return self.const(st, fr, c["v"])
        if k == "tuple":
            return mk("Tup", *[self.const(st, fr, x) for x in c["v"]])
        if k == "arr":
            return mk("Arr", *[self.const(st, fr, x) for x in c["v"]])
        if k == "adt":
            p = c["p"]
            var = c["var"]
            a = self.p.adt(p)
            if var == 0:
                var = a["variants"][0]["name"] if a else p.split("::")[-1]
            names = ()
            if a:
                for v in a["variants"]:
                    if v["name"] == var:
                        names = tuple(f["name"] for f in v["fields"])
            return A(p, var, names, [self.const(st, fr, x) for x in c["v"]])
        if k == "fn":
            f = c["f"]
            key = f.get("rid") or f["id"]
            targs = tuple(self.p.ty(t) for t in f.get("targs", ()))
            t = mk("FnV", key, targs)
            self.fnvals[t] = f
            return t
        if k == "zst":
            ty = self.p.tyo(c["ty"])
            if ty.get("k") == "tuple":
                return UNIT
            if ty.get("k") == "closure":
                return mk("Clo", ty["p"])
            if ty.get("k") == "fndef":
                t = mk("FnV", ty["p"], ())
                return t
            if ty.get("k") == "adt":
                a = self.p.adt(ty["p"])
                if a and len(a["variants"]) >= 1:
                    return A(ty["p"], a["variants"][0]["name"])
            return mk("K", "zst", ty["s"])
        if k == "static":
            return mk("Static", c["path"])
        if k == "const":
            v = c.get("v")
            if v is not None:
                x = self.const(st, fr, v)
                if not any(y.tag == "Top" for y in subset(x)):
                    return x
            fn = self.p.fns.get(c["id"])
            if fn is not None and fn.kind == "Const" or (fn is not None and fn.kind == "AssocConst"):
                return self.eval_const_body(fn, fn.body, fn)
            t = mk("Const", c["path"])
            if c.get("targs"):
                t = mk("Const", c["path"], tuple(self.p.ty(x) for x in c["targs"]))
            return t
        if k == "promoted":
            fn = self.p.fns.get(c["id"])
            if fn is None:
                return mk("Top", "promoted")
            return self.eval_const_body(fn, fn.promoted[c["n"]], fn)
        if k == "scalar":
            return mk("K", "scalar", c["v"])
        if k == "enum?":
            return mk("Top", "enum")
        return mk("Top", k)

    _cb_cache = {}

    def eval_const_body(self, fn, body, owner):
        """straight-line constant bodies (promoteds, consts); calls become opaque terms"""
        key = id(body)
        r = Engine._cb_cache.get(key)
        if r is not None:
            return r
        st = State()
        env = {}

        class _F:
            pass

        f2 = _ConstFn(fn, body)
        fr = Frame(f2, env, 0, None)
        st.frames.append(fr)
        bb = 0
        seen = set()
        while True:
            if bb in seen:
                break
            seen.add(bb)
            blk = body["blocks"][bb]
            for s in blk["s"]:
                if s[0] == "=":
                    self.write_place(st, fr, s[1], self.rvalue(st, fr, s[2]))
            t = blk["t"]
            if t["t"] == "goto" or t["t"] == "drop" or t["t"] == "assert":
                bb = t["to"]
            elif t["t"] == "call":
                args = [self.resolve(st, self.operand(st, fr, a)) for a in t["args"]]
                k = t["f"].get("k")
                if k and k["c"] == "fn":
                    nm = norm_name(k["f"]["path"])
                    if nm in self.transparent and args:
                        v = args[0]
                    else:
                        v = C(nm, *args)
                else:
                    v = mk("Top", "constcall")
                self.write_place(st, fr, t["d"], v)
                if t["to"] is None:
                    break
                bb = t["to"]
            else:
                break
        v = env.get(0, mk("Top", "const"))
        v = self.resolve(st, v)
        Engine._cb_cache[key] = v
        return v

    def static_init(self, path):
        """value term of a static's initialiser"""
        for fn in self.p.by_path.get(path, ()):
            if fn.kind == "Static":
                return self.eval_const_body(fn, fn.body, fn)
        return None

    # ------------------------------------------------------------------ operands / rvalues
    def operand(self, st, fr, o):
        if "p" in o:
            p = o["p"]
            v = self.read_place(st, fr, p)
            if o.get("m"):
                if len(p) == 1:
                    fr.env[p[0]] = MOVED
                elif self.drops:
                    self.write_moved(st, fr, p)
            return v
        return self.const(st, fr, o["k"])

    def write_moved(self, st, fr, p):
        # only inside this frame's own storage (not through references)
        if "*" in p[1:]:
            return
        base = fr.env.get(p[0])
        if base is None:
            return
        if base.tag in ("A", "Tup", "Clo"):
            try:
                fr.env[p[0]] = self.update(st, base, self.proj(fr, p), MOVED)
            except Exception:
                pass

    def rvalue(self, st, fr, r):
        k = r["r"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            return self.ref(st, fr, r["p"], r["mut"])
        if k == "agg":
            vals = [self.operand(st, fr, o) for o in r["ops"]]
            kk = r["k"]
            if kk == "tuple":
                return mk("Tup", *vals)
            if kk == "array":
                return mk("Arr", *vals)
            if kk == "adt":
                return A(r["p"], r["var"], r["fn"], vals)
            if kk == "closure":
                return mk("Clo", r["p"], *vals)
            return mk("Top", "agg")
        if k == "discr":
            v = self.autoderef(st, self.read_place(st, fr, r["p"]))
            return mk("Discr", v, r["ty"])
        if k == "bin":
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(st, r["op"], a, b)
        if k == "un":
            v = self.operand(st, fr, r["o"])
            if r["op"] == "Not":
                return self.not_(v)
            if r["op"] == "PtrMetadata":
                w = self.autoderef(st, v)
                if w.tag == "Arr":
                    return K("int", len(w.a))
                return C("slice::len", self.resolve(st, v))
            if r["op"] == "Neg" and v.tag == "K" and isinstance(v.a[1], int):
                return K("int", -v.a[1])
            return mk("Un", r["op"], v)
        if k == "cast":
            v = self.operand(st, fr, r["o"])
            if v.tag == "K" and v.a[0] in ("int",):
                return v
            if r["kind"] == "IntToInt" and self.narrows(fr, r):
                return mk("C", "narrow::as_" + self.p.ty(r["ty"]), (v,))
            if r["kind"].startswith("PointerCoercion(ReifyFnPointer") or r["kind"].startswith("PointerCoercion(ClosureFnPointer"):
                return v
            return v
        if k == "repeat":
            return mk("Rep", self.operand(st, fr, r["o"]), r["n"])
        if k == "tls":
            return mk("Static", r["id"])
        return mk("Top", k)

    BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "char": 32}

    def narrows(self, fr, r):
        """a conversion that cuts bits off (to i32: taken as exact, which is what list positions are converted to)"""
        to = self.p.ty(r["ty"])
        if to == "i32" or to not in self.BITS or "p" not in r["o"] or len(r["o"]["p"]) != 1:
            return False
        frm = self.p.ty(fr.fn.locals[r["o"]["p"][0]])
        return self.BITS.get(frm, 0) > self.BITS[to]

    def not_(self, v):
        if v.tag == "K" and v.a[0] == "bool":
            return Bool(not v.a[1])
        if v.tag == "Un" and v.a[0] == "Not":
            return v.a[1]
        return mk("Un", "Not", v)

    def binop(self, st, op, a, b):
        a = self.resolve(st, a)
        b = self.resolve(st, b)
        if op.endswith("WithOverflow"):
            return mk("Tup", self.binop(st, op[:-12], a, b), mk("C", "overflow", (K("str", op[:-12]), a, b)))
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op == "Gt":
            return self.binop(st, "Lt", b, a)
        if op == "Ge":
            return self.not_(self.binop(st, "Lt", a, b))
        if op == "Le":
            return self.not_(self.binop(st, "Lt", b, a))
        if op == "Ne":
            return self.not_(self.binop(st, "Eq", a, b))
        ka = a.tag == "K" and a.a[0] in ("int", "bool", "char", "str", "bytes")
        kb = b.tag == "K" and b.a[0] in ("int", "bool", "char", "str", "bytes")
        if op == "Eq":
            if a is b and a.tag == "K":
                return TRUE
            if ka and kb:
                x, y = a.a[1], b.a[1]
                return Bool(x == y)
            if ka or (not kb and b.uid < a.uid):
                a, b = b, a
            if is_len(a) and is_k(b, "int", 0):
                return emptiness(a)
            return mk("Bin", "Eq", a, b)
        if op == "Lt":
            if is_len(b) and is_k(a, "int", 0):
                return self.not_(emptiness(b))
            if is_len(a) and is_k(b, "int", 1):
                return emptiness(a)
            if ka and kb and isinstance(a.a[1], int) and isinstance(b.a[1], int):
                return Bool(a.a[1] < b.a[1])
            return mk("Bin", "Lt", a, b)
        if op in ("BitAnd", "BitOr") and (a.tag == "K" and a.a[0] == "bool" or b.tag == "K" and b.a[0] == "bool"):
            if not (a.tag == "K" and a.a[0] == "bool"):
                a, b = b, a
            if op == "BitAnd":
                return b if a.a[1] else FALSE
            return TRUE if a.a[1] else b
        if op in ("Add", "Sub", "Mul") and a.tag == "K" and b.tag == "K" and a.a[0] == b.a[0] == "int" \
                and isinstance(a.a[1], int) and isinstance(b.a[1], int) and max(abs(a.a[1]), abs(b.a[1])) < 1 << 16:
            x, y = a.a[1], b.a[1]
            r = x + y if op == "Add" else x - y if op == "Sub" else x * y
            if r >= 0:
                return K("int", r)
        if op == "Add":
            # keep exact single offsets, absorb repeated ones so that loop counters converge
            if a.tag == "Bin" and a.a[0] == "Add" and a.a[2] is b and a.a[1].tag == "Bin" and a.a[1].a[0] == "Add" and a.a[1].a[2] is b:
                return mk("Bin", "Add*", a.a[1].a[1], b)
            if a.tag == "Bin" and a.a[0] == "Add*" and a.a[2] is b:
                return a
        if op == "Sub":
            if a.tag == "Bin" and a.a[0] == "Sub" and a.a[2] is b:
                return mk("Bin", "Sub*", a.a[1], b)
            if a.tag == "Bin" and a.a[0] == "Sub*" and a.a[2] is b:
                return a
        return mk("Bin", op, a, b)

    def ref(self, st, fr, p, mut):
        """&place"""
        base = fr.env.get(p[0])
        d = len(st.frames) - 1
        if st.frames[d] is not fr:
            d = st.frames.index(fr)
        proj = self.proj(fr, p) if len(p) > 1 else ()
        return self.ref_at(st, d, p[0], proj, mut)

    def ref_at(self, st, d, l, proj, mut):
        base = st.frames[d].env.get(l)
        if base is None:
            return mk("Top", "uninit")
        cur = base
        for i, e in enumerate(proj):
            if e == "*":
                if cur.tag == "Ref":
                    d2, l2, pr2, m = cur.a
                    return self.ref_at(st, d2, l2, pr2 + tuple(proj[i + 1:]), mut)
                if cur.tag in ("A", "Tup", "Upd", "Arr", "Clo", "Acc", "Moved"):
                    continue
                # opaque pointee: the pointer to a projection of it is that projection's term
                tgt = self.read_proj_nohp(st, cur, proj[i + 1:])
                return tgt
            cur = self.read_proj(st, cur, (e,))
        return mk("Ref", d, l, tuple(proj), mut)

    def read_proj_nohp(self, st, v, proj):
        for i, e in enumerate(proj):
            if e == "*":
                if v.tag == "Ref":
                    d2, l2, pr2, m = v.a
                    return self.ref_at(st, d2, l2, pr2 + tuple(proj[i + 1:]), m)
                h = st.heap.get(v)
                if h is not None and h.tag == "Ref":
                    v = h
                    d2, l2, pr2, m = v.a
                    return self.ref_at(st, d2, l2, pr2 + tuple(proj[i + 1:]), m)
                continue
            if e[0] == "f" and v.tag not in ("A", "Tup", "Clo", "Upd"):
                v = mk("P", v.a[0], v.a[1], e[2]) if v.tag == "V" else mk("F", v, e[2])
                continue
            v = self.read_proj(st, v, (e,))
        return v

    # ------------------------------------------------------------------ facts
    def canon_bool(self, t):
        val = True
        while t.tag == "Un" and t.a[0] == "Not":
            t = t.a[1]
            val = not val
        return t, val

    def assume(self, st, t, val):
        """add `t is val` (bool); False if contradictory"""
        t, pol = self.canon_bool(t)
        val = val if pol else (not val)
        if t.tag == "K" and t.a[0] == "bool":
            return t.a[1] == val
        if t.tag == "Bin":
            op, a, b = t.a
            if op == "BitAnd" and val:
                return self.assume(st, a, True) and self.assume(st, b, True)
            if op == "BitOr" and not val:
                return self.assume(st, a, False) and self.assume(st, b, False)
            if op == "Eq":
                for x, y in ((a, b), (b, a)):
                    if y.tag == "K" and y.a[0] == "bool":
                        return self.assume(st, x, val if y.a[1] else not val)
                    if y.tag == "A" and not y.a[3]:
                        ad = self.p.adt(y.a[0])
                        if ad and ad["kind"] == "enum":
                            if val:
                                return self.assume_var(st, x, y.a[0], y.a[1])
                            return self.assume_not(st, x, y.a[0], frozenset([y.a[1]]))
                    if y.tag == "K" and y.a[0] in ("str", "int", "char", "bytes"):
                        old = st.facts.get(x)
                        if val:
                            if old is not None and isinstance(old, tuple):
                                if old[0] == "i":
                                    if old[1] != y.a[1]:
                                        return False
                                elif old[0] == "ni" and y.a[1] in old[1]:
                                    return False
                            st.facts[x] = ("i", y.a[1])
                        else:
                            if old is not None and isinstance(old, tuple):
                                if old[0] == "i":
                                    return old[1] != y.a[1]
                                if old[0] == "ni":
                                    st.facts[x] = ("ni", old[1] | {y.a[1]})
                                    return True
                            st.facts[x] = ("ni", frozenset([y.a[1]]))
                        return True
                    if x.tag == "A" and y.tag == "A" and x.a[0] == y.a[0] and x.a[1] != y.a[1]:
                        return not val
        if t.tag == "C" and t.a[0].endswith("::is_empty") and False:
            pass
        old = st.facts.get(t)
        if old is not None:
            return old == val
        st.facts[t] = val
        return True

    def assume_var(self, st, x, adt, var):
        if x.tag == "A":
            return x.a[1] == var
        old = st.facts.get(x)
        if old is not None and isinstance(old, tuple):
            if old[0] == "v":
                return old[1] == var
            if old[0] == "nv" and var in old[1]:
                return False
        st.facts[x] = ("v", var)
        return True

    def assume_not(self, st, x, adt, vs):
        if x.tag == "A":
            return x.a[1] not in vs
        old = st.facts.get(x)
        if old is not None and isinstance(old, tuple):
            if old[0] == "v":
                return old[1] not in vs
            if old[0] == "nv":
                vs = vs | old[1]
        allv = self.p.variants(adt) or []
        rest = [v for v in allv if v not in vs]
        if allv and not rest:
            return False
        if len(rest) == 1:
            st.facts[x] = ("v", rest[0])
        else:
            st.facts[x] = ("nv", vs)
        return True

    def known_variant(self, st, x):
        if x.tag == "A":
            return x.a[1]
        o = st.facts.get(x)
        if isinstance(o, tuple) and o[0] == "v":
            return o[1]
        return None

    def branch(self, st, t):
        """fork on a boolean term -> [(state, bool)]"""
        t2, pol = self.canon_bool(self.resolve(st, t))
        if t2.tag == "K" and t2.a[0] == "bool":
            return [(st, t2.a[1] == pol)]
        out = []
        for b in (True, False):
            s = st.clone()
            if self.assume(s, t2, b):
                out.append((s, b == pol))
        return out

    def split(self, st, v, adt, variants):
        """fork on the variant of v -> [(state, variant, payload0)]"""
        v = self.autoderef(st, v)
        if v.tag == "Moved":
            return []
        if v.tag == "A":
            return [(st, v.a[1], v.a[3][0] if v.a[3] else None)]
        if v.tag == "Acc" and v.a[0].tag == "A":
            w = self.downcast(st, v, v.a[0].a[1])
            return [(st, w.a[1], w.a[3][0] if w.a[3] else None)]
        vr = self.resolve(st, v)
        out = []
        for var in variants:
            s = st.clone()
            if self.assume_var(s, vr, adt, var):
                pay = None
                if var in ("Some", "Ok", "Err", "Continue", "Break"):
                    pay = s.heap.get(mk("P", v, var, "0"), mk("P", v, var, "0"))
                out.append((s, var, pay))
        return out

    def opt(self, st, v):
        return self.split(st, v, OPT, ("Some", "None"))

    def res(self, st, v):
        return self.split(st, v, RES, ("Ok", "Err"))

    def kill(self, st, t):
        """t is (re)evaluated: forget what was known about its previous value"""
        if not st.facts:
            return
        dead = [x for x in st.facts if x is t or (x.depth > t.depth and has_sub(x, t))]
        for x in dead:
            del st.facts[x]
        if st.heap:
            dead = [x for x in st.heap if x is t or (x.depth > t.depth and has_sub(x, t))]
            for x in dead:
                del st.heap[x]

    # ------------------------------------------------------------------ driver
    def site(self, fr):
        t = fr.fn.blocks[fr.bb]["t"]
        return t.get("sp", "?")

    def emit(self, st, kind, name, args, ret=None, f=None, rname=None, rawargs=(), tys=()):
        self.stats["events"] += 1
        fr = st.frames[-1]
        ev = Event(kind, name, args, self.site(fr), fr.fn.id)
        ev.ret = ret
        ev.f = f
        ev.rname = rname or name
        ev.rawargs = rawargs
        ev.tys = tys
        if f is not None:
            ev.targs = tuple(self.p.ty(x) for x in f.get("targs", ()))
        if self.interesting is None or self.interesting(ev):
            k = (kind, name, args, ev.site)
            if not any(x[0] == k for x in st.trace):
                st.trace = st.trace + (_TE(k, ev),)
        if self.cb_event:
            self.cb_event(self, st, ev)
        return ev

    def run(self, fn, args=None, init=None):
        """explore all abstract paths of fn"""
        self.frame0 = fn
        st = State()
        env = {}
        called = base_names(fn)
        for i in range(fn.argc):
            l = i + 1
            if args is not None and i < len(args) and args[i] is not None:
                env[l] = args[i]
            else:
                n = fn.local_names.get(l, "")
                env[l] = mk("Arg", i, called.get(n, n))
        if fn.kind == "Closure" and (args is None or not args):
            # captures by name
            ups = upvars(fn)
            n = max(ups) + 1 if ups else 0
            env[1] = mk("Clo", fn.id, *[mk("Arg", 100 + i, called.get(ups.get(i, ""), ups.get(i, ""))) for i in range(n)])
        fr = Frame(fn, env, 0, None)
        st.frames.append(fr)
        if init:
            init(self, st)
        work = [st]
        seen = set()
        while work:
            st = work.pop()
            self.stats["blocks"] += 1
            if self.stats["blocks"] > self.limit:
                self.truncated = True
                raise CheckError("exploration limit reached in %s (%d abstract blocks)" % (fn.id, self.limit))
            fr = st.frames[-1]
            if fr.fn.preds.get(fr.bb, 0) > 1:
                self.widen(fr)
                if self.keep_facts is not None:
                    self.prune_facts(st)
                k = st.key()
                if k in seen:
                    self.stats["joins"] += 1
                    continue
                seen.add(k)
            for s in self.block(st):
                if s.frames:
                    work.append(s)
        return self

    def widen(self, fr):
        """loop-carried values that keep growing become Fix(init, {step})"""
        old = (fr.vis or {}).get(fr.bb)
        if old:
            o2, o1 = old
            if o1 is not None:
                for l, n in list(fr.env.items()):
                    a, b = o1.get(l), o2.get(l)
                    if a is not None and b is not None and n is not b and b is not a:
                        w = widen_term(a, b, n)
                        if w is not n:
                            fr.env[l] = w
                            if self.cb_next is not None and self.frame0 is fr.fn:
                                pre, c = dict(fr.pre or {}), 0
                                if l in pre and pre[l][1] in subset(n):
                                    if pre[l][2] < 2:
                                        n, c = subst(n, pre[l][1], pre[l][0]), pre[l][2] + 1
                                pre[l] = (n, w, c)
                                fr.pre = pre
        v = dict(fr.vis or {})
        v[fr.bb] = (dict(fr.env), old[0] if old else None)
        fr.vis = v

    def prune_facts(self, st):
        """drop facts about values that are neither live nor relevant to the rule (keep_facts)"""
        live = None
        for x in list(st.facts):
            if self.keep_facts(x):
                continue
            if live is None:
                live = set()
                for fr in st.frames:
                    for v in fr.env.values():
                        live |= subset(v)
                    if fr.k is not None:
                        for v in kids(fr.k):
                            live |= subset(v)
                for v in st.heap.values():
                    if isinstance(v, T):
                        live |= subset(v)
            if x not in live:
                del st.facts[x]

    def block(self, st):
        fr = st.frames[-1]
        blk = fr.fn.blocks[fr.bb]
        env = fr.env
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2])
                p = s[1]
                if len(p) == 1:
                    env[p[0]] = v
                else:
                    self.write_place(st, fr, p, v)
            elif k == "dead":
                env.pop(s[1], None)
            elif k == "setd":
                pass
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            fr.bb = t["to"]
            return [st]
        if k == "drop":
            if self.drops:
                p = t["p"]
                v = self.read_place(st, fr, p)
                if v.tag not in ("Moved", "Top", "K"):
                    if self.cb_drop:
                        self.cb_drop(self, st, v, self.p.ty(t["ty"]), t["sp"])
                if len(p) == 1:
                    fr.env[p[0]] = MOVED
            fr.bb = t["to"]
            return [st]
        if k == "assert":
            if self.cb_assert:
                self.cb_assert(self, st, self.operand(st, fr, t["o"]), t["exp"], t["msg"], t["sp"])
            fr.bb = t["to"]
            return [st]
        if k == "switch":
            return self.switch(st, fr, t)
        if k == "call":
            return self.call(st, fr, t)
        if k == "return":
            return self.ret_frame(st)
        return []

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t["o"])
        out = []
        if v.tag == "Discr":
            x, tyi = v.a
            ty = self.p.tyo(tyi)
            adt = ty.get("p")
            ad = self.p.adt(adt) if adt else None
            if x.tag == "Acc" and x.a[0].tag == "A":
                x = x.a[0]
            if ad:
                bydisc = {vv["discr"]: vv["name"] for vv in ad["variants"]}
                taken = []
                if x.tag == "A" and x.a[0] == adt:
                    for d, b in t["cases"]:
                        if bydisc.get(d) == x.a[1]:
                            fr.bb = b
                            return [st]
                    fr.bb = t["else"]
                    return [st]
                xr = self.resolve(st, x)
                for d, b in t["cases"]:
                    nm = bydisc.get(d)
                    if nm is None:
                        continue
                    taken.append(nm)
                    s = st.clone()
                    if self.assume_var(s, xr, adt, nm):
                        s.frames[-1].bb = b
                        out.append(s)
                rest = [n for n in bydisc.values() if n not in taken]
                if rest and fr.fn.blocks[t["else"]]["t"]["t"] != "unreachable":
                    s = st.clone()
                    if self.assume_not(s, xr, adt, frozenset(taken)):
                        s.frames[-1].bb = t["else"]
                        out.append(s)
                return out
        ty = self.p.tyo(t["ty"])
        if ty["s"] == "bool":
            for s, b in self.branch(st, v):
                tgt = None
                for d, bb in t["cases"]:
                    if bool(d) == b:
                        tgt = bb
                if tgt is None:
                    tgt = t["else"]
                s.frames[-1].bb = tgt
                out.append(s)
            return out
        v = self.resolve(st, v)
        if v.tag == "K" and isinstance(v.a[1], (int, str)):
            x = v.a[1]
            if v.a[0] == "char":
                x = ord(x)
            for d, b in t["cases"]:
                if d == x:
                    fr.bb = b
                    return [st]
            fr.bb = t["else"]
            return [st]
        taken = set()
        ischar = ty["s"] == "char"
        old = st.facts.get(v)
        for d, b in t["cases"]:
            dd = chr(d) if ischar else d
            taken.add(dd)
            if isinstance(old, tuple):
                if old[0] == "i" and old[1] != dd:
                    continue
                if old[0] == "ni" and dd in old[1]:
                    continue
            s = st.clone()
            s.facts[v] = ("i", dd)
            s.frames[-1].bb = b
            out.append(s)
        if isinstance(old, tuple) and old[0] == "i" and old[1] in taken:
            return out
        s = st
        prev = old[1] if isinstance(old, tuple) and old[0] == "ni" else frozenset()
        if not (isinstance(old, tuple) and old[0] == "i"):
            s.facts[v] = ("ni", frozenset(taken) | prev)
        s.frames[-1].bb = t["else"]
        out.append(s)
        return out

    # ------------------------------------------------------------------ returns
    def ret_frame(self, st):
        fr = st.frames[-1]
        v = fr.env.get(0, UNIT)
        if len(st.frames) == 1:
            self.stats["returns"] += 1
            if self.cb_return:
                self.cb_return(self, st, self.resolve(st, v))
            st.frames = []
            return []
        # references into the dying frame cannot escape in safe Rust, except boxed temporaries
        if v.ref:
            v = self.fix_refs(st, v, len(st.frames) - 1)
        st.frames.pop()
        return self.ret(st, v, fr.k)

    def fix_refs(self, st, v, d):
        if not v.ref:
            return v
        if v.tag == "Ref":
            if v.a[0] >= d:
                return self.fix_refs(st, self.deref(st, v), d)
            return v
        return mk(v.tag, *[self._fix(st, x, d) for x in v.a])

    def _fix(self, st, x, d):
        if isinstance(x, T):
            return self.fix_refs(st, x, d)
        if isinstance(x, tuple):
            return tuple(self._fix(st, y, d) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self._fix(st, y, d) for y in x)
        return x

    def ret(self, st, v, k):
        """deliver value v to continuation k"""
        if k[0] == "fin":
            return self.finish(st, v)
        return getattr(self, "k_" + k[0])(st, v, k)

    def finish(self, st, v):
        fr = st.frames[-1]
        t = fr.fn.blocks[fr.bb]["t"]
        p = t["d"]
        if len(p) == 1:
            fr.env[p[0]] = v
        else:
            self.write_place(st, fr, p, v)
        if t["to"] is None:
            return []
        fr.bb = t["to"]
        return [st]

    # ------------------------------------------------------------------ calls
    def is_opaque(self, fn):
        r = self._opq.get(fn.id)
        if r is None:
            if callable(self.opaque):
                r = self.opaque(fn)
            else:
                r = any(x.search(fn.path) or x.search(fn.id) for x in self.opaque)
            self._opq[fn.id] = r
        return r

    def can_inline(self, st, fn):
        if fn is None or fn.kind not in ("Fn", "AssocFn", "Closure"):
            return False
        if self.is_opaque(fn):
            return False
        if len(st.frames) >= self.inline_depth:
            return False
        for f in st.frames:
            if f.fn is fn:
                return False
        return True

    def push(self, st, fn, args, k, tsub=None):
        self.inlined.add(fn.id)
        env = {}
        for i, a in enumerate(args):
            env[i + 1] = a
        if fn.spread is not None:
            # untuple
            n = fn.argc
            env = {}
            sp = fn.spread
            for i in range(1, sp):
                env[i] = args[i - 1]
            rest = args[sp - 1:]
            env[sp] = mk("Tup", *rest)
        st.frames.append(Frame(fn, env, 0, k, tsub))
        return [st]

    def conv_index(self):
        if self._conv is None:
            ix = {"from": [], "try_from": [], "from_str": [], "fmt": []}
            for f in self.p.fns.values():
                if not f.trait:
                    continue
                if f.trait == "std::convert::From":
                    ix["from"].append((ty_norm(f.self_ty), ty_norm(f.trargs[1]), f))
                elif f.trait == "std::convert::TryFrom" and f.id.endswith("::try_from"):
                    ix["try_from"].append((ty_norm(f.self_ty), ty_norm(f.trargs[1]), f))
                elif f.trait == "std::str::FromStr" and f.id.endswith("::from_str"):
                    ix["from_str"].append((ty_norm(f.self_ty), None, f))
            self._conv = ix
        return self._conv

    def gparams(self, f):
        return [self.p.ty(g) for g in f.generics]

    def find_conv(self, kind, target, source):
        target = ty_norm(target)
        source = ty_norm(source) if source else None
        for se, ar, f in self.conv_index()[kind]:
            g = [x for x in self.gparams(f) if not x.startswith("'")]
            if ty_unify(se, target, g) and (ar is None or source is None or ty_unify(ar, source, g)):
                return f
        return None

    def call(self, st, fr, t):
        fo = t["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        k = fo.get("k")
        if k is None or k["c"] != "fn":
            fv = self.autoderef(st, self.operand(st, fr, fo))
            return self.invoke(st, fv, args, ("fin",))
        return self.call_fn(st, k["f"], args, ("fin",), t)

    def targ_tys(self, f):
        return [self.p.ty(x) for x in f.get("targs", ())]

    def call_fn(self, st, f, args, k, t=None):
        name = norm_name(f["path"])
        if name == "std::default::Default::default" and f.get("targs"):
            ty = strip_generics(ty_norm(self.targ_tys(f)[0]))
            if EMPTY.match(ty):
                name = ty + "::new"
        elif name.endswith("::with_capacity") and EMPTY.match(name[:-15]):
            name, args = name[:-15] + "::new", []
        rid = f.get("rid")
        fn = self.p.fns.get(rid) if rid else None
        if f["id"].endswith("::{constructor#0}"):
            v = self.constructed(f["path"], f["id"], args)
            if v is not None:
                return self.ret(st, v, k)
        # logging is disabled in the model: it has no effect on behaviour
        if name.startswith("tracing::") or name.startswith("tracing_core::"):
            return self.ret(st, mk("C", "tracing", ()), k)
        if name == "std::cmp::PartialOrd::le" and any("tracing" in ty for ty in self.targ_tys(f)):
            return self.ret(st, FALSE, k)
        s = self.summary(st, name, f, args, k, t, fn)
        if s is not None:
            return s
        if fn is not None and self.can_inline(st, fn):
            if fn.derived and fn.trait in ("std::fmt::Debug", "std::hash::Hash"):
                pass
            else:
                return self.push(st, fn, args, k)
        return self.opaque_call(st, name, f, args, k, t)

    def constructed(self, path, id_, args):
        """the value a tuple constructor used as a function makes"""
        segs = id_.split("::")[:-1]
        if segs[0] == "core" and segs[-1] in ("Some", "Ok", "Err") and len(args) == 1:
            return {"Some": Some, "Ok": Ok, "Err": Err}[segs[-1]](args[0])
        for adt, var in ((path.rsplit("::", 1)[0], segs[-1]), (path, segs[-1])):
            a = self.p.adt(adt)
            for v in (a or {}).get("variants", ()):
                if v["name"] == var and len(v["fields"]) == len(args):
                    return A(adt, var, tuple(x["name"] for x in v["fields"]), list(args))
        return None

    def opaque_call(self, st, name, f, args, k, t, fname=None):
        rargs = tuple(self.resolve(st, a) for a in args)
        # closures handed to an unmodelled callee may be run
        ret = mk("C", name, rargs)
        if f is not None and TYPED.search(name):
            tys = tuple(x.split("::")[-1].rstrip(">") for x in self.targ_tys(f) if x.startswith(("posy::", "T", "str", "u", "i")))
            ret = mk("C", name, rargs, tys) if tys else ret
        pure = self.pure_rx.search(name) if self.pure_rx else False
        if not pure and IMPURE.search(name):
            self.kill(st, ret)
        rname = norm_name(f["rpath"]) if f is not None and f.get("rpath") else name
        tys = tuple(self.p.ty(x) for x in t["atys"]) if t is not None and k == ("fin",) else ()
        self.emit(st, "call", name, rargs, ret=ret, f=f, rname=rname, rawargs=tuple(args), tys=tys)
        # &mut arguments are updated by the callee
        if pure:
            pass
        elif t is not None and k == ("fin",):
            for i, a in enumerate(args):
                if i < len(t["atys"]):
                    ty = self.p.tyo(t["atys"][i])
                    if ty.get("k") == "ref" and ty.get("m"):
                        others = tuple(r for j, r in enumerate(rargs) if j != i)
                        self.mutate(st, a, (name, others))
        else:
            for i, a in enumerate(args):
                if a.tag == "Ref" and a.a[3]:
                    others = tuple(r for j, r in enumerate(rargs) if j != i)
                    self.mutate(st, a, (name, others))
        if f is not None and t is not None and t.get("to") is None and k == ("fin",):
            if self.cb_panic:
                self.cb_panic(self, st, name, rargs)
            return []
        if t is not None and k == ("fin",) and args and args[0].tag == "Ref" and args[0].a[3] and t.get("dty") is not None:
            # a builder's method: hands back the very reference it was given
            ty = self.p.ty(t["atys"][0]).replace("'{erased} ", "")
            if ty.startswith("&mut ") and self.p.ty(t["dty"]).replace("'{erased} ", "") == ty and "::" in name and ty.split("::")[-1] == name.split("::")[-2]:
                return self.ret(st, args[0], k)
        clos = [a for a in (self.autoderef(st, x) for x in args) if a.tag == "Clo" and a.a[0] in self.p.fns]
        if clos and self.can_inline(st, self.p.fns[clos[0].a[0]]):
            out = []
            s2 = st.clone()
            out += self.ret(st, ret, k)
            cf = self.p.fns[clos[0].a[0]]
            nargs = cf.argc - 1
            cargs = [mk("CArg", name, i, rargs) for i in range(nargs)]
            out += self.push(s2, cf, [clos[0]] + cargs, ("discard", ret, k))
            return out
        return self.ret(st, ret, k)

    def k_discard(self, st, v, k):
        return self.ret(st, k[1], k[2])

    def k_foreach_end(self, st, v, k):
        itv, k2 = k[1], k[2]
        if self.cb_next is not None and self.cb_next(self, st, itv):
            st.aux = None
        return self.ret(st, UNIT, k2)

    def k_const(self, st, v, k):
        return self.ret(st, k[1], k[2])

    def mutate(self, st, a, item):
        if a.tag == "Ref":
            d, l, proj, m = a.a
            cur = self.deref(st, a)
            if cur.tag == "Ref":
                return self.mutate(st, cur, item)
            if cur.tag in ("Moved",):
                return
            if cur.tag == "Iter":
                return
            nv = self.appended(st, d, cur, item)
            if nv is None:
                nv = self.accum(cur, item)
            if nv is not cur:
                self.write_at_silent(st, d, l, proj, nv)
        elif a.tag in ("F", "P", "Arg", "Elem", "Idx", "CArg", "C"):
            if a.tag == "C":
                return
            cur = st.heap.get(a, a)
            st.heap[a] = self.accum(cur, item)

    def appended(self, st, d, cur, item):
        """cur with one more element, if it is a list whose elements are all known and this happens just once"""
        if item[0] == "std::vec::Vec::push" and len(item[1]) == 1 and (cur.tag == "Arr" and len(cur.a) < 12 or empty_vec(cur)) and st.frames:
            if not any(fr.fn.cyclic(fr.bb, fr.env.get(("fixed",), frozenset())) for fr in st.frames[d:]):
                return mk("Arr", *((cur.a if cur.tag == "Arr" else ()) + (item[1][0],)))
        return None

    def accum(self, cur, item):
        # do not nest histories of the object inside its own history
        return Acc(cur, item)

    def write_at_silent(self, st, d, l, proj, v):
        saved = self.cb_event, self.interesting
        self.write_at(st, d, l, proj, v)

    # ------------------------------------------------------------------ invoking values
    def invoke(self, st, fv, args, k):
        fv0 = fv
        fv = self.autoderef(st, fv)
        if fv.tag == "Clo":
            fn = self.p.fns.get(fv.a[0])
            if fn is not None and self.can_inline(st, fn):
                # a closure body sees its environment through a reference (or by value)
                selfv = fv0 if fv0.tag == "Ref" else fv
                return self.push(st, fn, [selfv] + list(args), k)
            return self.opaque_call(st, "closure:" + fv.a[0], None, list(args), k, None)
        if fv.tag == "FnV":
            f = self.fnvals.get(fv)
            if f is not None:
                return self.call_fn(st, f, list(args), k)
            fn = self.p.fns.get(fv.a[0])
            if fn is not None and self.can_inline(st, fn):
                return self.push(st, fn, list(args), k)
            return self.ctor_or_opaque(st, fv.a[0], args, k)
        return self.opaque_call(st, "std::ops::FnOnce::call_once", None, [fv] + list(args), k, None)

    def ctor_or_opaque(self, st, id_, args, k):
        return self.opaque_call(st, id_, None, list(args), k, None)

    # ------------------------------------------------------------------ summaries
    def summary(self, st, name, f, args, k, t, fn):
        R = self.ret
        if self.model is not None:
            got = self.model(self, st, name, args, k)
            if got is not None:
                return got
        if name in self.transparent or TRANSPARENT_RX.match(name):
            if name in ("std::clone::Clone::clone", "regex::Match::as_str") or OWNING_RX.search(name):
                v = self.autoderef(st, args[0])
                if v.tag in ("Ref",):
                    v = self.deref(st, v)
                return R(st, self.resolve_shallow(st, v), k)
            if fn is not None and not fn.derived and name in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
                                                             "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow"):
                return None  # local implementation: inline it
            if name == "std::boxed::box_assume_init_into_vec_unsafe":
                # vec![..]: the array was stored inside the uninitialised box
                v = self.read_proj(st, args[0], ("*", ("f", 1, "1"), ("f", 0, "value")))
                if v.tag == "Arr":
                    return R(st, v, k)
            return R(st, args[0], k)
        if name.startswith("std::option::Option::"):
            return self.s_option(st, name[21:], args, k, t, f)
        if name.startswith("std::result::Result::"):
            return self.s_result(st, name[21:], args, k, t, f)
        if name in ("slice::last", "slice::first", "std::vec::Vec::pop", "slice::is_empty", "std::vec::Vec::is_empty", "slice::last_mut", "slice::first_mut", "slice::len", "std::vec::Vec::len") and empty_vec(self.resolve(st, args[0])):
            return R(st, TRUE if name.endswith("is_empty") else K("int", 0) if name.endswith("len") else NONE, k)
        h = SUMMARIES.get(name)
        if h is not None:
            return h(self, st, name, f, args, k, t, fn)
        short = name.rsplit("::", 1)[-1]
        if short in ERRWRAP and ("eyre" in name or "WrapErr" in name or "anyhow" in name):
            out = []
            for s, var, pay in self.res(st, args[0]):
                out += R(s, Ok(pay) if var == "Ok" else Err(mk("C", "wrap_err", (pay,))), k)
            return out
        if name.startswith("std::iter::Iterator::") or name.startswith("std::iter::DoubleEndedIterator::"):
            return self.s_iter(st, short, name, args, k, t, f)
        if name in ("slice::iter", "slice::iter_mut", "std::vec::Vec::into_iter", "std::iter::IntoIterator::into_iter",
                    "std::vec::Vec::drain", "std::collections::HashMap::into_iter"):
            return self.s_into_iter(st, args, k, fn, short)
        if short in ("iter", "iter_mut", "into_iter", "drain") and fn is None:
            return self.s_into_iter(st, args, k, fn, short)
        return None

    def resolve_shallow(self, st, v):
        return self.resolve(st, v) if v.tag == "Ref" else v

    def s_into_iter(self, st, args, k, fn, short):
        if fn is not None:
            return None
        v = self.autoderef(st, args[0])
        if v.tag == "Iter":
            return self.ret(st, args[0] if args[0].tag == "Ref" else v, k)
        if short == "iter_mut" or short == "into_iter" and args[0].tag == "Ref" and args[0].a[3]:
            # whatever is done to its elements is not followed: it is no longer what it was
            self.mutate(st, args[0], ("slice::iter_mut", ()))
            v = self.autoderef(st, args[0])
        if short == "drain" and len(args) == 2 and "RangeFull" not in repr(self.resolve(st, args[1]).a):
            # part of the list
            return self.ret(st, mk("Iter", "src", mk("Thin", "take", self.resolve(st, v), self.resolve(st, args[1]))), k)
        return self.ret(st, mk("Iter", "src", self.resolve(st, v)), k)

    def s_option(self, st, m, args, k, t, f):
        R = self.ret
        out = []
        if m in ("is_some", "is_none"):
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, Bool((var == "Some") == (m == "is_some")), k)
            return out
        if m in ("unwrap", "expect", "unwrap_unchecked"):
            for s, var, pay in self.opt(st, args[0]):
                if var == "Some":
                    out += R(s, pay, k)
                elif self.cb_panic:
                    self.cb_panic(self, s, "Option::" + m, tuple(self.resolve(s, a) for a in args))
            return out
        if m == "unwrap_or":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, pay if var == "Some" else args[1], k)
            return out
        if m == "unwrap_or_default":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, pay if var == "Some" else mk("C", "std::default::Default::default", ()), k)
            return out
        if m == "unwrap_or_else":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, pay, k) if var == "Some" else self.invoke(s, args[1], [], k)
            return out
        if m == "map":
            for s, var, pay in self.opt(st, args[0]):
                out += self.invoke(s, args[1], [pay], ("wrap", "Some", k)) if var == "Some" else R(s, NONE, k)
            return out
        if m == "and_then":
            for s, var, pay in self.opt(st, args[0]):
                out += self.invoke(s, args[1], [pay], k) if var == "Some" else R(s, NONE, k)
            return out
        if m == "or_else":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, Some(pay), k) if var == "Some" else self.invoke(s, args[1], [], k)
            return out
        if m == "or":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, Some(pay), k) if var == "Some" else R(s, args[1], k)
            return out
        if m == "and":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, args[1], k) if var == "Some" else R(s, NONE, k)
            return out
        if m in ("ok_or", "ok_or_else"):
            for s, var, pay in self.opt(st, args[0]):
                if var == "Some":
                    out += R(s, Ok(pay), k)
                elif m == "ok_or":
                    out += R(s, Err(args[1]), k)
                else:
                    out += self.invoke(s, args[1], [], ("wrap", "Err", k))
            return out
        if m == "map_or":
            for s, var, pay in self.opt(st, args[0]):
                out += self.invoke(s, args[2], [pay], k) if var == "Some" else R(s, args[1], k)
            return out
        if m == "map_or_else":
            for s, var, pay in self.opt(st, args[0]):
                out += self.invoke(s, args[2], [pay], k) if var == "Some" else self.invoke(s, args[1], [], k)
            return out
        if m in ("is_some_and", "is_none_or"):
            for s, var, pay in self.opt(st, args[0]):
                out += self.invoke(s, args[1], [pay], k) if var == "Some" else R(s, Bool(m == "is_none_or"), k)
            return out
        if m == "filter":
            for s, var, pay in self.opt(st, args[0]):
                out += self.invoke(s, args[1], [pay], ("optfilter", pay, k)) if var == "Some" else R(s, NONE, k)
            return out
        if m in ("take", "replace"):
            v = self.deref(st, args[0]) if args[0].tag == "Ref" else st.heap.get(args[0], args[0])
            nv = NONE if m == "take" else Some(args[1])
            self.store_ref(st, args[0], nv)
            return R(st, v, k)
        if m in ("get_or_insert", "get_or_insert_with", "get_or_insert_default"):
            for s, var, pay in self.opt(st, args[0]):
                if var == "Some":
                    out += R(s, pay, k)
                elif m == "get_or_insert":
                    self.store_ref(s, args[0], Some(args[1]))
                    out += R(s, args[1], k)
                elif m == "get_or_insert_with":
                    out += self.invoke(s, args[1], [], ("optset", args[0], k))
                else:
                    d = mk("C", "std::default::Default::default", ())
                    self.store_ref(s, args[0], Some(d))
                    out += R(s, d, k)
            return out
        if m == "insert":
            self.store_ref(st, args[0], Some(args[1]))
            return R(st, args[1], k)
        if m == "transpose":
            for s, var, pay in self.opt(st, args[0]):
                if var == "None":
                    out += R(s, Ok(NONE), k)
                else:
                    for s2, v2, p2 in self.res(s, pay):
                        out += R(s2, Ok(Some(p2)) if v2 == "Ok" else Err(p2), k)
            return out
        if m == "flatten":
            for s, var, pay in self.opt(st, args[0]):
                out += R(s, pay if var == "Some" else NONE, k)
            return out
        if m == "zip":
            for s, var, pay in self.opt(st, args[0]):
                if var == "None":
                    out += R(s, NONE, k)
                else:
                    for s2, v2, p2 in self.opt(s, args[1]):
                        out += R(s2, Some(mk("Tup", pay, p2)) if v2 == "Some" else NONE, k)
            return out
        if m in ("iter", "into_iter", "iter_mut"):
            return R(st, mk("Iter", "opt", self.resolve(st, args[0])), k)
        return None

    def s_result(self, st, m, args, k, t, f):
        R = self.ret
        out = []
        if m in ("is_ok", "is_err"):
            for s, var, pay in self.res(st, args[0]):
                out += R(s, Bool((var == "Ok") == (m == "is_ok")), k)
            return out
        if m in ("unwrap", "expect", "unwrap_err", "expect_err"):
            good = "Err" if m.endswith("_err") else "Ok"
            for s, var, pay in self.res(st, args[0]):
                if var == good:
                    out += R(s, pay, k)
                elif self.cb_panic:
                    self.cb_panic(self, s, "Result::" + m, tuple(self.resolve(s, a) for a in args))
            return out
        if m == "map":
            for s, var, pay in self.res(st, args[0]):
                out += self.invoke(s, args[1], [pay], ("wrap", "Ok", k)) if var == "Ok" else R(s, Err(pay), k)
            return out
        if m == "map_err":
            for s, var, pay in self.res(st, args[0]):
                if var == "Ok":
                    out += R(s, Ok(pay), k)
                else:
                    out += self.invoke(s, args[1], [pay], ("wrap", "Err", k))
            return out
        if m == "and_then":
            for s, var, pay in self.res(st, args[0]):
                out += self.invoke(s, args[1], [pay], k) if var == "Ok" else R(s, Err(pay), k)
            return out
        if m == "or_else":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, Ok(pay), k) if var == "Ok" else self.invoke(s, args[1], [pay], k)
            return out
        if m == "or":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, Ok(pay), k) if var == "Ok" else R(s, args[1], k)
            return out
        if m == "and":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, args[1], k) if var == "Ok" else R(s, Err(pay), k)
            return out
        if m == "ok":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, Some(pay) if var == "Ok" else NONE, k)
            return out
        if m == "err":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, Some(pay) if var == "Err" else NONE, k)
            return out
        if m == "unwrap_or":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, pay if var == "Ok" else args[1], k)
            return out
        if m == "unwrap_or_default":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, pay if var == "Ok" else mk("C", "std::default::Default::default", ()), k)
            return out
        if m == "unwrap_or_else":
            for s, var, pay in self.res(st, args[0]):
                out += R(s, pay, k) if var == "Ok" else self.invoke(s, args[1], [pay], k)
            return out
        if m == "map_or":
            for s, var, pay in self.res(st, args[0]):
                out += self.invoke(s, args[2], [pay], k) if var == "Ok" else R(s, args[1], k)
            return out
        if m in ("is_ok_and", "is_err_and"):
            g = "Ok" if m == "is_ok_and" else "Err"
            for s, var, pay in self.res(st, args[0]):
                out += self.invoke(s, args[1], [pay], k) if var == g else R(s, FALSE, k)
            return out
        if m == "transpose":
            for s, var, pay in self.res(st, args[0]):
                if var == "Err":
                    out += R(s, Some(Err(pay)), k)
                else:
                    for s2, v2, p2 in self.opt(s, pay):
                        out += R(s2, Some(Ok(p2)) if v2 == "Some" else NONE, k)
            return out
        return None

    def store_ref(self, st, a, v):
        if a.tag == "Ref":
            self.write_at(st, a.a[0], a.a[1], a.a[2], v)
        else:
            st.heap[a] = v

    def k_wrap(self, st, v, k):
        w = {"Some": Some, "Ok": Ok, "Err": Err}[k[1]]
        return self.ret(st, w(v), k[2])

    def k_optset(self, st, v, k):
        self.store_ref(st, k[1], Some(v))
        return self.ret(st, v, k[2])

    def k_optfilter(self, st, v, k):
        out = []
        for s, b in self.branch(st, v):
            out += self.ret(s, Some(k[1]) if b else NONE, k[2])
        return out

    # ------------------------------------------------------------------ iterators
    def as_iter(self, st, v):
        v = self.autoderef(st, v)
        if v.tag == "Iter":
            return v
        return mk("Iter", "src", self.resolve(st, v))

    LAZY1 = ("map", "filter", "filter_map", "flat_map", "take_while", "skip_while", "inspect", "map_while")
    PASS = ("rev", "skip", "take", "step_by", "peekable", "fuse", "cloned", "copied", "cycle")

    def s_iter(self, st, m, name, args, k, t, f):
        R = self.ret
        it = args[0]
        if m in self.LAZY1:
            return R(st, mk("Iter", m, self.as_iter(st, it), args[1]), k)
        if m in self.PASS:
            extra = [self.resolve(st, a) for a in args[1:]]
            return R(st, mk("Iter", m, self.as_iter(st, it), *extra), k)
        if m == "enumerate":
            return R(st, mk("Iter", "enumerate", self.as_iter(st, it)), k)
        if m == "flatten":
            return R(st, mk("Iter", "flatten", self.as_iter(st, it)), k)
        if m in ("chain", "zip"):
            return R(st, mk("Iter", m, self.as_iter(st, it), self.as_iter(st, args[1])), k)
        if m == "last":
            ret = mk("C", "std::iter::Iterator::last", (self.resolve(st, self.as_iter(st, it)),))
            return R(st, ret, k)
        if m in ("next", "next_back", "nth"):
            itv = self.as_iter(st, it)
            out = []
            watched = self.cb_next is not None and self.cb_next(self, st, self.resolve(st, itv))
            fixed = m == "next" and it.tag == "Ref" and itv.a[0] == "src" and itv.a[1].tag == "Arr" and len(itv.a[1].a) <= 12
            if st.frames:
                # the places where loops over fixed lists ask for the next element
                fr = st.frames[-1]
                was = fr.env.get(("fixed",), frozenset())
                if (fr.bb in was) != (fixed and not fr.fn.nested(fr.bb)):
                    fr.env[("fixed",)] = was - {fr.bb} if fr.bb in was else was | {fr.bb}
            if fixed:
                # a fixed list of elements: gone through one by one
                xs = itv.a[1].a
                if not xs:
                    if watched:
                        st.aux = ("done",) + st.aux[1:] if isinstance(st.aux, tuple) else None
                    if self.cb_exhaust:
                        self.cb_exhaust(self, st, self.resolve(st, itv))
                    return R(st, NONE, k)
                self.store_ref(st, it, mk("Iter", "src", mk("Arr", *xs[1:])))
                return R(st, Some(xs[0]), k)
            if m == "next" and not watched and k == ("fin",) and itv.a[0] == "src" and st.frames and st.frames[-1].fn.append_loop(st.frames[-1].bb):
                # `for x in xs { v.push(x) }` is v.extend(xs): one step
                env, here = st.frames[-1].env, ("appended", st.frames[-1].bb)
                if here in env:
                    del env[here]
                    if self.cb_exhaust:
                        self.cb_exhaust(self, st, self.resolve(st, itv))
                    return R(st, NONE, k)
                env[here] = TRUE
                return self.iter_elem(st, itv, ("wrap", "Some", k))
            s0 = st.clone()
            if watched:
                s0.aux = ("done",) + s0.aux[1:] if isinstance(s0.aux, tuple) else None
            if self.cb_exhaust:
                self.cb_exhaust(self, s0, self.resolve(s0, itv))
            out += R(s0, NONE, k)
            if m == "nth":
                n = self.resolve(st, args[1])
                if not is_k(n, None, 0):
                    itv = mk("Iter", "skip", itv, n)
            out += self.iter_elem(st, mk("Iter", "rev", itv) if m == "next_back" else itv, ("wrap", "Some", k))
            return out
        itv = self.as_iter(st, it)
        if m in ("rfind", "rposition"):
            itv = mk("Iter", "rev", itv)
        s0 = st.clone()
        if m in ("any", "all", "find", "position") and itv.a[0] == "src" and itv.a[1].tag == "Arr" and 0 < len(itv.a[1].a) <= 12:
            # a fixed list of elements: asked one by one
            xs = itv.a[1].a
            return self.invoke(st, args[1], [xs[0]], ("seq", m, args[1], xs, 0, k))
        if m in ("any", "all"):
            c = self.membership(st, itv, args[1])
            if c is not None and c[0] == (m == "any"):
                return R(st, c[1] if c[0] else self.not_(c[1]), k)
        if m in ("any", "all", "is_partitioned"):
            out = self.iter_elem(st, itv, ("apply", args[1], ("anyall", m, k, self.resolve(st, itv))))
            s0.facts = dict(s0.facts)
            s0.facts[mk("NoElem", self.resolve(s0, itv))] = True
            out += R(s0, Bool(m == "all"), k)
            return out
        if m in ("find", "position", "rposition", "rfind", "find_map"):
            none = ("nofind", self.resolve(st, itv), k) if self.cb_quant is not None else k
            out = self.iter_elem(st, itv, ("keep", args[1], ("find", m, k, none, self.resolve(st, itv))))
            s0.facts = dict(s0.facts)
            s0.facts[mk("NoElem", self.resolve(s0, itv))] = True
            out += R(s0, NONE, none)
            return out
        if m in ("for_each", "try_for_each") and self.cb_next is not None and self.cb_next(self, st, self.resolve(st, itv)):
            s0 = st.clone()
            s0.aux = None
        if m in ("for_each",):
            return R(s0, UNIT, k) + self.iter_elem(st, itv, ("apply", args[1], ("foreach_end", self.resolve(st, itv), k)))
        if m == "try_for_each":
            return R(s0, Ok(UNIT), k) + self.iter_elem(st, itv, ("apply", args[1], k))
        if m in ("fold",):
            return R(s0, args[1], k) + self.iter_elem(st, itv, ("foldk", args[2], args[1], k))
        if m == "try_fold":
            return R(s0, Ok(args[1]), k) + self.iter_elem(st, itv, ("foldk", args[2], args[1], k))
        if m in ("max_by_key", "min_by_key"):
            return R(s0, NONE, k) + self.iter_elem(st, itv, ("keep", args[1], ("bykey", m, itv, k)))
        if m in ("max_by", "min_by"):
            e2 = mk("Elem2", self.resolve(st, itv))
            return R(s0, NONE, k) + self.iter_elem(st, itv, ("cmp2", args[1], e2, m, itv, k))
        if m in ("max", "min"):
            return R(s0, NONE, k) + self.iter_elem(st, itv, ("mm", m, itv, k))
        if m == "collect":
            # a custom FromIterator? only std collections are used
            dt = self.p.ty(f["targs"][0 if name.endswith("from_iter") else 1]) if f and len(f.get("targs", ())) > 1 else ""
            base = mk("C", "collect", (self.resolve(st, itv),))
            mode = "res" if dt.startswith("std::result::Result") else "opt" if dt.startswith("std::option::Option") else "plain"
            e = base
            fixed = self.fixed_list(itv)
            if mode == "plain" and fixed is not None and dt.startswith("std::vec::Vec") and len(fixed[0]) <= 12:
                return self.k_collarr(st, None, ("collarr", fixed[0], fixed[1], (), 0, k))
            out = R(s0, Ok(e) if mode == "res" else Some(e) if mode == "opt" else e, k)
            out += self.iter_elem(st, itv, ("collect", base, mode, k))
            return out
        if m in ("count", "sum", "product"):
            return R(s0, mk("C", m, (self.resolve(st, itv),)), k) + self.iter_elem(st, itv, ("const", mk("C", m, (self.resolve(st, itv),)), k))
        if m == "partition":
            base = mk("C", "collect", (self.resolve(st, itv),))
            out = R(s0, mk("Tup", base, base), k)
            out += self.iter_elem(st, itv, ("keep", args[1], ("partition", base, k)))
            return out
        return None

    def thinned(self, it, kind, extra):
        """the iterator over only some, by position, of the elements of `it`: its elements are not those of its source"""
        if it.tag != "Iter":
            return it
        if it.a[0] == "src":
            if it.a[1].tag == "Arr" or it.a[1].tag == "A" and it.a[1].a[0] == OPT:
                return it
            return mk("Iter", "src", mk("Thin", kind, it.a[1], *extra))
        return mk("Iter", it.a[0], *[self.thinned(x, kind, extra) if isinstance(x, T) and x.tag == "Iter" else x for x in it.a[1:]])

    def iter_elem(self, st, it, k):
        """deliver one generic element of `it` to k"""
        kind = it.a[0]
        if kind == "src":
            src = it.a[1]
            if src.tag == "Arr" and 0 < len(src.a) <= 12:
                out = []
                for x in src.a:
                    out += self.ret(st.clone(), x, k)
                return out
            if src.tag == "A" and src.a[0] == OPT:
                return self.ret(st, src.a[3][0], k) if src.a[1] == "Some" else []
            if empty_vec(src):
                return []
            e = mk("Elem", src)
            self.kill(st, e)
            return self.ret(st, e, k)
        if kind == "opt":
            out = []
            for s, var, pay in self.opt(st, it.a[1]):
                if var == "Some":
                    out += self.ret(s, pay, k)
            return out
        if kind == "map":
            return self.iter_elem(st, it.a[1], ("apply", it.a[2], k))
        if kind in LOSSY:
            inner = it.a[1]
            if kind in ("skip", "take") and inner.a[0] == "src" and inner.a[1].tag == "Arr" and it.a[2].tag == "K" and isinstance(it.a[2].a[1], int):
                xs, c = inner.a[1].a, it.a[2].a[1]
                xs = xs[c:] if kind == "skip" else xs[:c]
                return self.iter_elem(st, mk("Iter", "src", mk("Arr", *xs)), k) if xs else []
            it = mk("Iter", kind, self.thinned(inner, kind, it.a[2:] if kind in ("skip", "take", "step_by") else ()), *it.a[2:])
        if kind in ("filter", "take_while", "skip_while"):
            if kind == "skip_while":
                return self.iter_elem(st, it.a[1], k)
            return self.iter_elem(st, it.a[1], ("keep", it.a[2], ("filter", k)))
        if kind in ("filter_map", "map_while"):
            return self.iter_elem(st, it.a[1], ("apply", it.a[2], ("fmap", k)))
        if kind == "flat_map":
            return self.iter_elem(st, it.a[1], ("apply", it.a[2], ("flat", k)))
        if kind == "flatten":
            return self.iter_elem(st, it.a[1], ("flat", k))
        if kind == "inspect":
            return self.iter_elem(st, it.a[1], ("keep", it.a[2], ("inspect", k)))
        if kind == "enumerate":
            return self.iter_elem(st, it.a[1], ("enum", it.a[1], k))
        if kind == "chain":
            s2 = st.clone()
            return self.iter_elem(st, it.a[1], k) + self.iter_elem(s2, it.a[2], k)
        if kind == "zip":
            return self.iter_elem(st, it.a[1], ("zip1", it.a[2], k))
        if kind in self.PASS:
            return self.iter_elem(st, it.a[1], k)
        return self.ret(st, mk("Elem", it), k)

    def k_apply(self, st, v, k):
        return self.invoke(st, k[1], [v], k[2])

    def k_keep(self, st, v, k):
        # like apply, but remember the element:  kk gets (result, element)
        return self.invoke(st, k[1], [v], (k[2][0] + "2", v) + tuple(k[2][1:]))

    def k_filter2(self, st, v, k):
        out = []
        for s, b in self.branch(st, v):
            if b:
                out += self.ret(s, k[1], k[2])
        return out

    def k_inspect2(self, st, v, k):
        return self.ret(st, k[1], k[2])

    def k_fmap(self, st, v, k):
        out = []
        for s, var, pay in self.opt(st, v):
            if var == "Some":
                out += self.ret(s, pay, k[1])
        return out

    def k_flat(self, st, v, k):
        v = self.autoderef(st, v)
        if v.tag == "A" and v.a[0] in (OPT, RES):
            return self.ret(st, v.a[3][0], k[1]) if v.a[1] in ("Some", "Ok") else []
        return self.iter_elem(st, self.as_iter(st, v), k[1])

    def k_enum(self, st, v, k):
        return self.ret(st, mk("Tup", mk("C", "index", (self.resolve(st, k[1]),)), v), k[2])

    def k_zip1(self, st, v, k):
        return self.iter_elem(st, k[1], ("zip2", v, k[2]))

    def k_zip2(self, st, v, k):
        return self.ret(st, mk("Tup", k[1], v), k[2])

    def k_anyall(self, st, v, k):
        out = []
        for s, b in self.branch(st, v):
            if len(k) > 3 and b == (k[1] == "any"):
                # only some element is known to be like this
                s.facts = dict(s.facts)
                s.facts[mk("Exists", k[3])] = True
            if len(k) > 3 and self.cb_quant is not None:
                self.cb_quant(self, s, k[3], b != (k[1] == "any"))
            out += self.ret(s, Bool(b), k[2])
        return out

    def k_find2(self, st, v, k):
        elem, m, kk = k[1], k[2], k[3]
        out = []
        if m == "find_map":
            for s, var, pay in self.opt(st, v):
                out += self.ret(s, Some(pay) if var == "Some" else NONE, kk if var == "Some" else k[4])
            return out
        for s, b in self.branch(st, v):
            if b:
                s.facts = dict(s.facts)
                s.facts[mk("Exists", k[5])] = True
                out += self.ret(s, Some(elem if m in ("find", "rfind") else mk("C", "index_of", (self.resolve(s, elem),))), kk)
            else:
                out += self.ret(s, NONE, k[4])
        return out

    def k_seq(self, st, v, k):
        m, clo, xs, i, kk = k[1:]
        out = []
        for s, b in self.branch(st, v):
            if b == (m != "all"):
                out += self.ret(s, Bool(b) if m in ("any", "all") else Some(xs[i] if m == "find" else K("int", i)), kk)
            elif i + 1 < len(xs):
                out += self.invoke(s, clo, [xs[i + 1]], ("seq", m, clo, xs, i + 1, kk))
            else:
                out += self.ret(s, Bool(b) if m in ("any", "all") else NONE, kk)
        return out

    def k_halt(self, st, v, k):
        k[1].append((st, v))
        return []

    def probe(self, st, fv, args):
        """the value of a small closure on args, if it has just one and computing it changes nothing"""
        clo = self.autoderef(st, fv)
        fn = self.p.fns.get(clo.a[0]) if clo.tag == "Clo" else None
        if fn is None or len(fn.blocks) > 8 or not self.can_inline(st, fn):
            return None
        got, events = [], []
        saved = self.cb_event, self.cb_drop, self.cb_panic, self.cb_assert
        self.cb_event = lambda *a, **kw: events.append(1)
        self.cb_drop = self.cb_panic = self.cb_assert = None
        try:
            s0 = st.clone()
            work, n = self.invoke(s0, fv, args, ("halt", got)), 0
            while work and n < 60:
                n += 1
                work += [x for x in self.block(work.pop()) if x.frames]
        finally:
            self.cb_event, self.cb_drop, self.cb_panic, self.cb_assert = saved
        if work or len(got) != 1:
            return None
        return self.resolve(got[0][0], got[0][1])

    def membership(self, st, itv, clo):
        """any(|e| e == x) asks whether the collection contains x, all(|e| e != x) whether it does not"""
        if itv.a[0] != "src" or itv.a[1].tag in ("Arr", "A", "Thin") or not isinstance(clo, T):
            return None
        src = self.resolve(st, itv.a[1])
        if empty_vec(src):
            return None
        e = mk("Elem", src)
        v = self.probe(st, clo, [e])
        if v is None:
            return None
        pos = True
        if v.tag == "Not":
            v, pos = v.a[0], False
        if v.tag != "Bin" or v.a[0] != "Eq":
            return None
        a, b = v.a[1:]
        if b is e:
            a, b = b, a
        if a is not e or e in subset(b):
            return None
        return pos, mk("C", "contains", (src, b))

    def k_nofind(self, st, v, k):
        s = st.clone()
        self.cb_quant(self, s, k[1], True)
        return self.ret(s, v, k[2])

    def k_bykey2(self, st, v, k):
        elem, m, itv, kk = k[1], k[2], k[3], k[4]
        r = mk("C", "std::iter::Iterator::" + m, (self.resolve(st, itv), self.resolve(st, elem), self.resolve(st, v)))
        self.emit(st, "call", "std::iter::Iterator::" + m, r.a[1], ret=r)
        return self.ret(st, Some(r), kk)

    def k_mm(self, st, v, k):
        m, itv, kk = k[1], k[2], k[3]
        r = mk("C", "std::iter::Iterator::" + m, (self.resolve(st, itv), self.resolve(st, v)))
        self.emit(st, "call", "std::iter::Iterator::" + m, r.a[1], ret=r)
        return self.ret(st, Some(r), kk)

    def k_cmp2(self, st, v, k):
        f, e2, m, itv, kk = k[1:]
        return self.invoke(st, f, [v, e2], ("bykey2", v, m, itv, kk))

    def k_foldk(self, st, v, k):
        return self.invoke(st, k[1], [k[2], v], k[3])

    def fixed_list(self, itv):
        """(elements, closures mapped over them) of an iterator over a fixed list"""
        maps = []
        while itv.tag == "Iter" and itv.a[0] == "map":
            maps.append(itv.a[2])
            itv = itv.a[1]
        if itv.tag == "Iter" and itv.a[0] == "src" and itv.a[1].tag == "Arr" and itv.a[1].a:
            return itv.a[1].a, tuple(reversed(maps))
        return None

    def k_collarr(self, st, v, k):
        """collects a fixed list, element by element: k = (_, elements yet to come, closures, done, closures applied to v, k)"""
        todo, maps, done, i, kk = k[1:]
        if v is not None:
            if i < len(maps):
                return self.invoke(st, maps[i], [v], ("collarr", todo, maps, done, i + 1, kk))
            done = done + (self.resolve(st, v),)
        if not todo:
            return self.ret(st, mk("Arr", *done), kk)
        return self.k_collarr(st, todo[0], ("collarr", todo[1:], maps, done, 0, kk))

    def k_collect(self, st, v, k):
        base, mode, kk = k[1], k[2], k[3]
        out = []
        if mode == "res":
            for s, var, pay in self.res(st, v):
                out += self.ret(s, Ok(Acc(base, ("push", (self.resolve(s, pay),)))) if var == "Ok" else Err(pay), kk)
            return out
        if mode == "opt":
            for s, var, pay in self.opt(st, v):
                out += self.ret(s, Some(Acc(base, ("push", (self.resolve(s, pay),)))) if var == "Some" else NONE, kk)
            return out
        return self.ret(st, Acc(base, ("push", (self.resolve(st, v),))), kk)

    def k_partition2(self, st, v, k):
        elem, base, kk = k[1], k[2], k[3]
        out = []
        for s, b in self.branch(st, v):
            a = Acc(base, ("push", (self.resolve(s, elem),)))
            out += self.ret(s, mk("Tup", a, base) if b else mk("Tup", base, a), kk)
        return out

    def k_try_from(self, st, v, k):
        return self.ret(st, v, k[1])

    def k_sortkey2(self, st, v, k):
        # (elem, method, container ref)
        elem, m, cref, kk = k[1], k[2], k[3], k[4]
        key = self.resolve(st, v)
        self.emit(st, "call", "slice::" + m, (self.resolve(st, cref), key, self.resolve(st, elem)))
        self.mutate(st, cref, (m, (key,)))
        return self.ret(st, UNIT, kk)

    def k_retain2(self, st, v, k):
        elem, m, cref, kk = k[1], k[2], k[3], k[4]
        out = []
        for s, b in self.branch(st, v):
            self.emit(s, "call", "retain", (self.resolve(s, cref), self.resolve(s, elem), Bool(b)))
            self.mutate(s, cref, ("retain", (self.resolve(s, v),)))
            out += self.ret(s, UNIT, kk)
        return out

    def k_bool_then(self, st, v, k):
        return self.ret(st, Some(v), k[1])


class _TE(tuple):
    """trace entry: compares by key only"""

    def __new__(cls, k, ev):
        o = tuple.__new__(cls, (k,))
        o.ev = ev
        return o


class _ConstFn:
    def __init__(self, fn, body):
        self.id = fn.id
        self.blocks = body["blocks"]
        self.local_names = {}
        self.preds = {}


# ---------------------------------------------------------------------- summaries
SUMMARIES = {}


def summ(*names):
    def d(fn):
        for n in names:
            SUMMARIES[n] = fn
        return fn

    return d


@summ("std::ops::Try::branch")
def _branch(E, st, name, f, args, k, t, fn):
    ty = E.targ_tys(f)[0] if f.get("targs") else ""
    out = []
    if ty.startswith("std::option::Option"):
        for s, var, pay in E.opt(st, args[0]):
            v = A(CF, "Continue", ("0",), (pay,)) if var == "Some" else A(CF, "Break", ("0",), (NONE,))
            out += E.ret(s, v, k)
        return out
    for s, var, pay in E.res(st, args[0]):
        v = A(CF, "Continue", ("0",), (pay,)) if var == "Ok" else A(CF, "Break", ("0",), (Err(pay),))
        out += E.ret(s, v, k)
    return out


@summ("std::ops::FromResidual::from_residual")
def _residual(E, st, name, f, args, k, t, fn):
    return E.ret(st, args[0], k)


@summ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _eq(E, st, name, f, args, k, t, fn):
    if fn is not None and not fn.derived and E.can_inline(st, fn) and name.endswith("eq"):
        return None
    a = E.autoderef(st, args[0])
    b = E.autoderef(st, args[1])
    v = eq_terms(E, st, a, b)
    if name.endswith("::ne"):
        v = E.not_(v)
    return E.ret(st, v, k)


def eq_terms(E, st, a, b):
    ra, rb = E.resolve(st, a), E.resolve(st, b)
    if ra.tag == "A" and rb.tag == "A" and ra.a[0] == rb.a[0]:
        if ra.a[1] != rb.a[1]:
            return FALSE
        if not ra.a[3]:
            return TRUE
        if len(ra.a[3]) == 1:
            return eq_terms(E, st, ra.a[3][0], rb.a[3][0])
    if ra.tag == "A" and not ra.a[3]:
        kv = E.known_variant(st, rb)
        if kv is not None:
            return Bool(kv == ra.a[1])
    if rb.tag == "A" and not rb.a[3]:
        kv = E.known_variant(st, ra)
        if kv is not None:
            return Bool(kv == rb.a[1])
    return E.binop(st, "Eq", ra, rb)


@summ("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _ord(E, st, name, f, args, k, t, fn):
    a = E.resolve(st, E.autoderef(st, args[0]))
    b = E.resolve(st, E.autoderef(st, args[1]))
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name[-2:]]
    return E.ret(st, E.binop(st, op, a, b), k)


@summ("std::ops::Not::not")
def _not(E, st, name, f, args, k, t, fn):
    return E.ret(st, E.not_(E.autoderef(st, args[0])), k)


@summ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _callfn(E, st, name, f, args, k, t, fn):
    tup = E.autoderef(st, args[1])
    a = list(tup.a) if tup.tag == "Tup" else [tup]
    fv = E.autoderef(st, args[0])
    if fv.tag in ("Clo", "FnV"):
        return E.invoke(st, args[0], a, k)
    return E.opaque_call(st, "std::ops::FnOnce::call_once", f, [fv] + a, k, None)


@summ("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _try_into(E, st, name, f, args, k, t, fn):
    if fn is not None:
        if E.can_inline(st, fn) or not name.endswith("try_from") or not f or not f.get("targs"):
            return None
        return E.opaque_call(st, norm_conv(E.targ_tys(f)[0], "try_from"), f, args, k, t)
    tys = E.targ_tys(f)
    if name.endswith("try_into"):
        src, dst = tys[0], tys[1]
    else:
        dst, src = tys[0], tys[1]
    g = E.find_conv("try_from", dst, src)
    if g is not None:
        if E.can_inline(st, g):
            return E.push(st, g, args, k)
        return E.opaque_call(st, norm_conv(dst, "try_from"), f, args, k, t)
    g = E.find_conv("from", dst, src)
    if g is not None and E.can_inline(st, g):
        return E.push(st, g, args, ("wrap", "Ok", k))
    return E.opaque_call(st, norm_conv(dst, "try_from"), f, args, k, t)


def norm_conv(ty, m):
    return strip_generics(ty_norm(ty)) + "::" + m


@summ("str::parse", "std::str::FromStr::from_str")
def _parse(E, st, name, f, args, k, t, fn):
    if fn is not None:
        if E.can_inline(st, fn) or not f or not f.get("targs"):
            return None
        return E.opaque_call(st, norm_conv(E.targ_tys(f)[0], "from_str"), f, args, k, t)
    dst = E.targ_tys(f)[0]
    g = E.find_conv("from_str", dst, None)
    if g is not None:
        if E.can_inline(st, g):
            return E.push(st, g, args, k)
    return E.opaque_call(st, norm_conv(dst, "from_str"), f, args, k, t)


@summ("std::convert::Into::into", "std::convert::From::from")
def _into(E, st, name, f, args, k, t, fn):
    if fn is not None:
        return None
    tys = E.targ_tys(f)
    src, dst = (tys[0], tys[1]) if name.endswith("into") else (tys[1], tys[0]) if len(tys) > 1 else ("", tys[0])
    g = E.find_conv("from", dst, src)
    if g is not None and E.can_inline(st, g):
        return E.push(st, g, args, k)
    return E.ret(st, args[0] if args[0].tag != "Ref" else E.resolve(st, args[0]), k)


@summ("std::string::ToString::to_string")
def _to_string(E, st, name, f, args, k, t, fn):
    ty = ty_norm(E.targ_tys(f)[0]).lstrip("&")
    if ty in ("str", "std::string::String", "char") or ty.startswith("std::borrow::Cow<str"):
        return E.ret(st, E.resolve(st, args[0]), k)
    return E.ret(st, mk("Fmt", mk("Disp", E.resolve(st, args[0]))), k)


@summ("core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
      "core::fmt::rt::Argument::new_lower_hex")
def _fmtarg(E, st, name, f, args, k, t, fn):
    kind = "Disp" if name.endswith("display") else "Dbg" if name.endswith("debug") else "Hex"
    if kind == "Disp" and f.get("targs"):
        ty = ty_norm(E.targ_tys(f)[-1]).replace("&", "").replace("mut ", "").strip()
        if ty in ("str", "std::string::String") or ty.startswith("std::borrow::Cow<str"):
            E.texts.add(mk(kind, E.resolve(st, args[0])))
    return E.ret(st, mk(kind, E.resolve(st, args[0])), k)


@summ("std::fmt::Arguments::new")
def _fmtnew(E, st, name, f, args, k, t, fn):
    b = E.autoderef(st, args[0])
    arr = E.resolve(st, E.autoderef(st, args[1]))
    if b.tag == "K" and b.a[1] is not None:
        pieces = decode_fmt(b.a[1])
        out = []
        for p in pieces:
            if isinstance(p, str):
                out.append(p)
            else:
                v = arr.a[p[1]] if arr.tag == "Arr" and p[1] < len(arr.a) else mk("Top", "fmtarg")
                # {literal string constants} are folded into the text
                if v.tag == "Disp" and v.a[0].tag == "K" and v.a[0].a[0] == "str" and isinstance(v.a[0].a[1], str) and not p[2]:
                    out.append(v.a[0].a[1])
                elif v.tag == "Disp" and v.a[0].tag == "Fmt" and not p[2]:
                    out.extend(v.a[0].a)
                elif p[2]:
                    out.append(mk("Spec", v, p[2]))
                else:
                    out.append(v)
        if len(out) == 1 and out[0] in E.texts:
            return E.ret(st, out[0].a[0], k)        # format!("{}", text) is the text
        return E.ret(st, fmt_term(out), k)
    return E.ret(st, mk("Fmt", mk("Top", "fmt")), k)


def fmt_term(out):
    m = []
    for x in out:
        if isinstance(x, str) and m and isinstance(m[-1], str):
            m[-1] += x
        elif x != "":
            m.append(x)
    if all(isinstance(x, str) for x in m):
        return K("str", "".join(m))
    return mk("Fmt", *m)


@summ("std::fmt::Arguments::from_str", "std::fmt::Arguments::from_str_nonconst")
def _fmtstr(E, st, name, f, args, k, t, fn):
    return E.ret(st, E.resolve(st, args[0]), k)


@summ("std::fmt::format", "std::fmt::Arguments::to_string")
def _format(E, st, name, f, args, k, t, fn):
    v = E.resolve(st, args[0])
    return E.ret(st, v, k)


@summ("std::iter::FromIterator::from_iter")
def _from_iter(E, st, name, f, args, k, t, fn):
    if fn is not None:
        return None
    return E.s_iter(st, "collect", name, args, k, t, f)


@summ("std::mem::replace", "std::mem::take")
def _replace(E, st, name, f, args, k, t, fn):
    v = E.deref(st, args[0]) if args[0].tag == "Ref" else st.heap.get(args[0], args[0])
    nv = args[1] if name.endswith("replace") else mk("C", "std::default::Default::default", ())
    E.store_ref(st, args[0], nv)
    return E.ret(st, v, k)


@summ("std::mem::drop")
def _drop(E, st, name, f, args, k, t, fn):
    if E.drops and E.cb_drop:
        v = args[0]
        if v.tag not in ("Moved", "Top", "K"):
            E.cb_drop(E, st, v, E.targ_tys(f)[0] if f.get("targs") else "", t["sp"] if t else "")
    return E.ret(st, UNIT, k)


@summ("bool::then")
def _then(E, st, name, f, args, k, t, fn):
    out = []
    for s, b in E.branch(st, args[0]):
        out += E.invoke(s, args[1], [], ("wrap", "Some", k)) if b else E.ret(s, NONE, k)
    return out


@summ("bool::then_some")
def _then_some(E, st, name, f, args, k, t, fn):
    out = []
    for s, b in E.branch(st, args[0]):
        out += E.ret(s, Some(args[1]) if b else NONE, k)
    return out


@summ("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _index(E, st, name, f, args, k, t, fn):
    if fn is not None:
        return None
    v = E.resolve(st, args[0])
    i = E.resolve(st, args[1])
    E.emit(st, "call", name, (v, i), f=f, rawargs=tuple(args))
    if i.tag == "A" and i.a[0].startswith("std::ops::Range"):
        return E.ret(st, mk("Idx", v, i), k)
    if v.tag == "Arr" and i.tag == "K" and isinstance(i.a[1], int) and i.a[1] < len(v.a):
        return E.ret(st, v.a[i.a[1]], k)
    return E.ret(st, mk("Idx", v, i), k)


def _sortkey(E, st, name, f, args, k, t, fn):
    m = name.rsplit("::", 1)[-1]
    c = E.resolve(st, args[0])
    e = mk("Elem", c)
    E.kill(st, e)
    return E.invoke(st, args[1], [e], ("sortkey2", e, m, args[0], k))


for _n in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key"):
    for _p in ("slice::", "std::vec::Vec::", "std::slice::slice::"):
        SUMMARIES[_p + _n] = _sortkey


def _sortby(E, st, name, f, args, k, t, fn):
    m = name.rsplit("::", 1)[-1]
    c = E.resolve(st, args[0])
    e = mk("Elem", c)
    e2 = mk("Elem2", c)
    E.kill(st, e)
    return E.invoke(st, args[1], [e, e2], ("sortkey2", e, m, args[0], k))


for _n in ("sort_by", "sort_unstable_by"):
    SUMMARIES["slice::" + _n] = _sortby


def _sortmap(E, st, name, f, args, k, t, fn):
    m = name.rsplit("::", 1)[-1]
    c = E.resolve(st, args[0])
    e, e2 = mk("Elem", c), mk("Elem2", c)
    E.kill(st, e)
    a = [mk("F", e, "0"), mk("F", e, "1")]
    if "key" not in m:
        a += [mk("F", e2, "0"), mk("F", e2, "1")]
    return E.invoke(st, args[1], a, ("sortkey2", e, m, args[0], k))


for _n in ("sort_by", "sort_unstable_by", "sort_by_cached_key"):
    SUMMARIES["indexmap::IndexMap::" + _n] = _sortmap


@summ("std::vec::Vec::retain", "indexmap::IndexMap::retain", "std::collections::HashMap::retain", "std::collections::HashSet::retain")
def _retain(E, st, name, f, args, k, t, fn):
    c = E.resolve(st, args[0])
    e = mk("Elem", c)
    E.kill(st, e)
    n = 1
    clo = E.autoderef(st, args[1])
    a = [e]
    if clo.tag == "Clo" and E.p.fns.get(clo.a[0]) and E.p.fns[clo.a[0]].argc == 3:
        a = [mk("F", e, "0"), mk("F", e, "1")]
    s0 = st.clone()
    return E.ret(s0, UNIT, k) + E.invoke(st, args[1], a, ("retain2", e, "retain", args[0], k))


@summ("std::iter::once")
def _once(E, st, name, f, args, k, t, fn):
    return E.ret(st, mk("Iter", "src", mk("Arr", args[0])), k)


@summ("std::iter::Extend::extend")
def _extend(E, st, name, f, args, k, t, fn):
    if fn is not None:
        return None
    itv = E.as_iter(st, args[1])
    ty = ty_norm(E.targ_tys(f)[0]) if f.get("targs") else ""
    add = ({"std::vec::Vec": "push", "std::string::String": "push_str", "std::path::PathBuf": "push", "std::collections::VecDeque": "push_back",
            "std::collections::HashSet": "insert", "std::collections::BTreeSet": "insert"}).get(strip_generics(ty))
    add = add and strip_generics(ty) + "::" + add
    if add and itv.a[0] == "src" and itv.a[1].tag == "Arr" and len(itv.a[1].a) <= 4:
        # a fixed list of elements: added one by one
        for x in itv.a[1].a:
            E.opaque_call(st, add, None, [args[0], x], ("halt", []), None)
        return E.ret(st, UNIT, k)
    out = []
    if not (itv.a[0] == "src" and itv.a[1].tag != "Arr"):     # appending a whole collection is one step
        out = E.ret(st.clone(), UNIT, k)
    out += E.iter_elem(st, itv, ("extend", args[0], E.resolve(st, itv), k))
    return out


def _k_extend(self, st, v, k):
    cref, itv, kk = k[1], k[2], k[3]
    rv = self.resolve(st, v)
    self.emit(st, "call", "std::iter::Extend::extend", (self.resolve(st, cref), rv, itv), rawargs=(cref, v))
    self.mutate(st, cref, ("push", (rv,)))
    return self.ret(st, UNIT, kk)


Engine.k_extend = _k_extend


@summ("std::convert::AsMut::as_mut")
def _asmut(E, st, name, f, args, k, t, fn):
    return E.ret(st, args[0], k)


@summ("std::result::Result::iter")
def _resiter(E, st, name, f, args, k, t, fn):
    return None


@summ("slice::contains", "std::vec::Vec::contains")
def _contains(E, st, name, f, args, k, t, fn):
    """[consts].contains(x): membership facts on constant tables"""
    v = E.resolve(st, args[0])
    x = E.resolve(st, args[1])
    if v.tag == "Arr" and v.a and len(v.a) <= 40 and all(y.tag == "K" for y in v.a):
        out = []
        for y in v.a:
            s = st.clone()
            if E.assume(s, E.binop(s, "Eq", x, y), True):
                out += E.ret(s, TRUE, k)
        s = st.clone()
        if all(E.assume(s, E.binop(s, "Eq", x, y), False) for y in v.a):
            out += E.ret(s, FALSE, k)
        return out
    return E.ret(st, mk("C", "contains", (v, x)), k)


RANGES = ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive")


@summ(*["std::ops::%s::contains" % _r for _r in RANGES])
def _range_contains(E, st, name, f, args, k, t, fn):
    """(a..b).contains(&x) is the two comparisons"""
    v = E.resolve(st, E.autoderef(st, args[0]))
    x = E.resolve(st, E.autoderef(st, args[1]))
    kind = name.split("::")[-2]
    lo = hi = None
    if v.tag == "C" and v.a[0].endswith("RangeInclusive::new"):
        lo, hi = v.a[1]
    elif v.tag == "A" and v.a[0].startswith("std::ops::"):
        d = dict(zip(v.a[2], v.a[3]))
        lo, hi = d.get("start"), d.get("end")
    else:
        return None
    tests = []
    if lo is not None:
        tests.append(E.binop(st, "Le", lo, x))
    if hi is not None:
        tests.append(E.binop(st, "Le" if "Inclusive" in kind else "Lt", x, hi))
    out = []
    sts = [st]
    for c in tests:
        nxt = []
        for s in sts:
            for s2, b in E.branch(s, c):
                if b:
                    nxt.append(s2)
                else:
                    out += E.ret(s2, FALSE, k)
        sts = nxt
    for s in sts:
        out += E.ret(s, TRUE, k)
    return out


@summ(*["std::fs::OpenOptions::%s" % _r for _r in ("read", "write", "append", "create", "create_new", "truncate")] +
      ["std::os::unix::fs::OpenOptionsExt::mode", "std::os::unix::fs::OpenOptionsExt::custom_flags"])
def _open_options(E, st, name, f, args, k, t, fn):
    """builder methods hand back their receiver"""
    if args[0].tag != "Ref":
        return None
    rest = tuple(E.resolve(st, a) for a in args[1:])
    E.emit(st, "call", name, (E.resolve(st, args[0]),) + rest, f=f, rawargs=tuple(args))
    E.mutate(st, args[0], (name, rest))
    return E.ret(st, args[0], k)
