"""Program model: loads the facts dumped by the rustc driver (MIR of every body)."""
import json, os, re


class Fn:
    __slots__ = ("id", "path", "kind", "span", "derived", "body", "promoted", "self_ty", "trait",
                 "trargs", "implderived", "parent", "generics", "blocks", "preds", "names", "raw",
                 "argc", "locals", "spread", "local_names", "_cyc", "_app", "_nest")

    def __init__(self, raw, prog):
        self.raw = raw
        self.id = raw["id"]
        self.path = raw["path"]
        self.kind = raw["kind"]
        self.span = raw["span"]
        self.derived = raw["derived"] or raw.get("implderived", False)
        self.trait = raw.get("trait")
        self.self_ty = prog.ty(raw["self"]) if "self" in raw else None
        self.trargs = [prog.ty(t) for t in raw.get("trargs", [])]
        self.parent = raw.get("parent")
        self.generics = raw.get("generics", [])
        b = raw["body"]
        self.body = b
        self.argc = b["argc"]
        self.spread = b["spread"]
        self.locals = b["locals"]
        self.blocks = b["blocks"]
        self.promoted = raw["promoted"]
        self.local_names = {}
        for n, p in b["names"]:
            if len(p) == 1:
                self.local_names.setdefault(p[0], n)
        self.names = b["names"]
        preds = {}
        for i, blk in enumerate(self.blocks):
            if blk["c"]:
                continue
            for s in succs(blk["t"]):
                preds[s] = preds.get(s, 0) + 1
        self.preds = preds
        self._cyc = None
        self._app = {}
        self._nest = {}

    def cyclic(self, bb, without=frozenset()):
        """is block bb part of a loop (that does not go through the blocks `without`)?"""
        if self._cyc is None:
            self._cyc = {}
        key = bb, without
        if key not in self._cyc:
            seen, work = set(), list(succs(self.blocks[bb]["t"]))
            while work:
                b = work.pop()
                if b not in seen and not self.blocks[b]["c"] and b not in without:
                    seen.add(b)
                    work.extend(succs(self.blocks[b]["t"]))
            self._cyc[key] = bb in seen
        return self._cyc[key]

    def nested(self, bb):
        """block bb asks for the next element of a loop that lies within another loop of the same function"""
        if bb not in self._nest:
            b, none = self.blocks[bb]["t"].get("to"), None
            for _ in range(4):
                if b is None:
                    break
                t = self.blocks[b]["t"]
                if t["t"] == "switch":
                    none = dict((v, x) for v, x in t["cases"]).get(0)
                    break
                b = t.get("to")
            seen, work = set(), [none] if none is not None else []
            while work:
                b = work.pop()
                if b not in seen and not self.blocks[b]["c"]:
                    seen.add(b)
                    work.extend(succs(self.blocks[b]["t"]))
            self._nest[bb] = bb in seen
        return self._nest[bb]

    def append_loop(self, bb):
        """block bb asks for the next element in a loop that does nothing but push every element onto a list"""
        if bb not in self._app:
            self._app[bb] = self._append_loop(bb)
        return self._app[bb]

    def _append_loop(self, bb):
        b = self.blocks[bb]["t"].get("to")
        if b is None or self.blocks[b]["t"]["t"] != "switch":
            return False
        b = dict((v, x) for v, x in self.blocks[b]["t"]["cases"]).get(1)
        pushes = 0
        for _ in range(20):
            if b is None:
                return False
            if b == bb:
                return pushes == 1
            for x in self.blocks[b]["s"]:
                if x[0] == "=" and (x[2]["r"] not in ("use", "ref", "cast") or len(x[1]) != 1):
                    return False
            t = self.blocks[b]["t"]
            if t["t"] == "call" and callee_path(t) == "std::vec::Vec::<T, A>::push":
                pushes += 1
            elif t["t"] not in ("goto", "drop"):
                return False
            b = t["to"]
        return False

    @property
    def file(self):
        return self.span.rsplit(":", 1)[0]

    @property
    def line(self):
        return int(self.span.rsplit(":", 1)[1])

    def __repr__(self):
        return "Fn(%s)" % self.id


def callee_path(t):
    f = t["f"].get("k", {})
    return f.get("f", {}).get("path") if isinstance(f, dict) else None


def succs(t):
    k = t["t"]
    if k in ("goto", "drop", "assert"):
        return [t["to"]]
    if k == "call":
        return [t["to"]] if t["to"] is not None else []
    if k == "switch":
        return [b for _, b in t["cases"]] + [t["else"]]
    return []


def signature(d, f):
    """the types of a function's result and parameters"""
    b = f["body"]
    return "; ".join(re.sub(r"'[a-z_0-9]+ ?", "", d["types"][t]["s"]) for t in b["locals"][:b["argc"] + 1])


def nameable(f):
    """functions that could be renamed freely: no closures, no methods of traits"""
    return f["kind"] in ("Fn", "AssocFn") and not f.get("trait") and not f["derived"] and not f.get("implderived") and "{" not in f["path"] and "<" not in f["path"]


def renames(d):
    """[(function, the path it had)] for functions missing from the tree the rules were written for, where exactly one
    new function in the same place has the same signature"""
    base = {}
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_args.txt")) as f:
        for l in f.read().splitlines():
            path, _, sig = l.split("\t")
            if sig:
                base[path] = sig
    now = {f["path"]: f for f in d["fns"] if nameable(f)}
    lost, new = {}, {}
    for path, sig in base.items():
        if path not in now:
            lost.setdefault((path.rsplit("::", 1)[0], sig), []).append(path)
    if lost:
        for path, f in now.items():
            if path not in base:
                new.setdefault((path.rsplit("::", 1)[0], signature(d, f)), []).append(f)
    return [(new[k][0], v[0]) for k, v in lost.items() if len(v) == 1 and len(new.get(k, ())) == 1]


class Program:
    def __init__(self, path):
        with open(path) as f:
            text = f.read()
        d = json.loads(text)
        self.renamed = {}
        for f, to in renames(d):
            # a function that only changed its name is known by the name it had
            self.renamed[f["path"]] = to
            for now in {f["path"], f["id"]}:
                text = re.sub(re.escape(now) + r"(?![A-Za-z0-9_])", lambda m: now.rsplit("::", 1)[0] + "::" + to.rsplit("::", 1)[1], text)
        if self.renamed:
            d = json.loads(text)
        self.types = d["types"]
        self.adts = {}
        for p, a in d["adts"]:
            self.adts[p] = a
        self.impls = d["impls"]
        self.fns = {}
        for raw in d["fns"]:
            fn = Fn(raw, self)
            self.fns[fn.id] = fn
        self.by_path = {}
        for fn in self.fns.values():
            self.by_path.setdefault(fn.path, []).append(fn)
        self.children = {}
        for fn in self.fns.values():
            if fn.parent:
                self.children.setdefault(fn.parent, []).append(fn)

    def ty(self, i):
        return self.types[i]["s"]

    def tyo(self, i):
        return self.types[i]

    # ---- lookups -------------------------------------------------------------
    def user_fns(self):
        return [f for f in self.fns.values() if f.kind in ("Fn", "AssocFn", "Closure") and not f.derived]

    def find(self, regex, kinds=("Fn", "AssocFn"), derived=False):
        r = re.compile(regex)
        return [f for f in self.fns.values()
                if f.kind in kinds and (derived or not f.derived) and r.search(f.path)]

    def impl_fns(self, trait_re, self_re, name=None):
        """methods of `impl <trait> for <self>`"""
        out = []
        for f in self.fns.values():
            if f.trait and re.search(trait_re, f.trait) and f.self_ty and re.search(self_re, f.self_ty):
                if name is None or f.id.endswith("::" + name):
                    out.append(f)
        return out

    def adt(self, path):
        return self.adts.get(path)

    def adt_named(self, suffix):
        for p in self.adts:
            if p == suffix or p.endswith("::" + suffix):
                return p
        return None

    def variants(self, path):
        a = self.adts.get(path)
        return [v["name"] for v in a["variants"]] if a else None

    def closures_of(self, fid):
        out = []
        st = [fid]
        while st:
            x = st.pop()
            for c in self.children.get(x, ()):
                out.append(c)
                st.append(c.id)
        return out

    # ---- static call sites ------------------------------------------------------
    def call_sites(self, fn, with_closures=False):
        fns = [fn] + (self.closures_of(fn.id) if with_closures else [])
        for f in fns:
            for bi, b in enumerate(f.blocks):
                if b["c"]:
                    continue
                t = b["t"]
                if t["t"] == "call":
                    k = t["f"].get("k")
                    if k and k.get("c") == "fn":
                        yield f, bi, t, k["f"]


def callee_names(fr):
    """all names by which a callee can be matched"""
    out = [fr["path"]]
    if fr.get("rpath") and fr["rpath"] != fr["path"]:
        out.append(fr["rpath"])
    return out


def decode_fmt(b):
    """decode core::fmt::Arguments template bytes to a list of pieces: str | ('arg', idx)"""
    if isinstance(b, str):
        b = b.encode("utf-8")
    b = bytes(b)
    i = 0
    out = []
    nxt = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf-8"))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(b[i:i + ln].decode("utf-8"))
            i += ln
        else:
            flags = n & 0x3f
            spec = {}
            if flags & 1:
                spec["flags"] = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if flags & 2:
                spec["w"] = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if flags & 4:
                spec["p"] = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if flags & 8:
                nxt = int.from_bytes(b[i:i + 2], "little")
                i += 2
            out.append(("arg", nxt, tuple(sorted(spec.items()))))
            nxt += 1
    return out
