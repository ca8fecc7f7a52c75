"""Program facts extracted from the compiler: types, bodies, impls."""
import json
import re

INTS = {
    "u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "u128": (128, False),
    "usize": (64, False), "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True),
    "i128": (128, True), "isize": (64, True),
}


def int_range(name):
    b, s = INTS[name]
    return (-(1 << b - 1), (1 << b - 1) - 1) if s else (0, (1 << b) - 1)


class Body:
    def __init__(self, d, body):
        self.d = d
        self.argc = body["argc"]
        self.locals = body["locals"]
        self.blocks = body["blocks"]
        self._flow()

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
        if k in ("drop",):
            return [t[2]] if t[2] is not None else []
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]] if t[4] is not None else []
        if k == "yield":
            return []
        return []

    def _flow(self):
        # reverse postorder from block 0 (non-unwind edges)
        seen = set()
        order = []
        st = [(0, iter(self.succs(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        pos = {b: i for i, b in enumerate(order)}
        self.pos = pos
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        self.preds = preds
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                n = None
                for p in preds[b]:
                    if p in idom:
                        if n is None:
                            n = p
                        else:
                            x, y = p, n
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succs(b):
                if pos[s] <= pos[b] and dom(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x)
                            w.extend(preds[x])
        self.loops = loops


class Facts:
    def __init__(self, path):
        with open(path) as f:
            F = json.load(f)
        self.F = F
        self.T = F["types"]
        self.files = F["files"]
        self.adts = {a[0]: a[1] for a in F["adts"]}
        self.bodies = {}
        self.by_path = {}
        for b in F["bodies"]:
            self.bodies[b["id"]] = b
            self.by_path.setdefault(b["path"], []).append(b)
        self.impls = F["impls"]
        self.impl_by_trait = {}
        for im in self.impls:
            if "trait" in im:
                im["targs"] = im["targs"][1:]          # the first is the Self type
                self.impl_by_trait.setdefault(im["trait"], []).append(im)
        self._bodies = {}
        self._rty = {}
        self.crate = "cloud_storage_signature"

    def body(self, id, promoted=None):
        k = (id, promoted)
        b = self._bodies.get(k)
        if b is None:
            d = self.bodies[id]
            b = Body(d, d["body"] if promoted is None else d["promoted"][promoted])
            self._bodies[k] = b
        return b

    def span(self, sp):
        if not sp:
            return None
        return (self.files[sp[0]], sp[1], sp[2])

    # ---- types
    def ty(self, i, sub):
        k = (i, tuple(sorted(sub.items())) if sub else ())
        r = self._rty.get(k)
        if r is None:
            r = self._ty(i, sub)
            self._rty[k] = r
        return r

    def arg(self, a, sub):
        if isinstance(a, int):
            return self.ty(a, sub)
        return ("const", str(a.get("const")))

    def args(self, xs, sub):
        return tuple(self.arg(a, sub) for a in xs)

    def _ty(self, i, sub):
        t = self.T[i]
        k = t["k"]
        if k == "adt":
            return ("adt", t["path"], self.args(t["args"], sub))
        if k == "int":
            return ("int", t["name"])
        if k in ("bool", "char", "str", "never"):
            return (k,)
        if k == "ref":
            return ("ref", bool(t["mut"]), self.ty(t["t"], sub))
        if k == "ptr":
            return ("ptr", self.ty(t["t"], sub))
        if k == "array":
            return ("array", self.ty(t["t"], sub), t.get("n"))
        if k == "slice":
            return ("slice", self.ty(t["t"], sub))
        if k == "tuple":
            return ("tuple", self.args(t["ts"], sub))
        if k == "fndef":
            c = t["f"]
            return ("fn", c["path"], c["id"], self.args(c["args"], sub), i)
        if k in ("closure", "coroutine"):
            return (k, t["id"], t["path"], self.args(t.get("pargs") or [], sub))
        if k == "param":
            return sub.get(t["name"], ("param", t["name"]))
        if k == "opaque":
            h = t.get("hidden")
            if h is not None:
                return self.ty(h, sub)
            return ("opaque", t.get("path"))
        if k == "proj":
            return self.norm(("proj", t["path"], self.args(t["args"], sub)))
        if k == "dyn":
            return ("dyn", t.get("path"))
        return (k,)

    def norm(self, p):
        _, path, args = p
        m = re.match(r"^(.*)::(\w+)$", path)
        if m and args and args[0][0] != "param":
            tr, name = m.group(1), m.group(2)
            r = self.find_impl(tr, args[0], args[1:])
            if r:
                im, b = r
                for it in im["items"]:
                    if it[0] == name and it[2] is not None:
                        return self.ty(it[2], b)
            if tr == "core::ops::deref::Deref" and args[0][:2] == ("adt", "alloc::string::String"):
                return ("str",)
        return p

    def find_impl(self, trait, selfty, targs=()):
        for im in self.impl_by_trait.get(trait, ()):
            if im.get("neg"):
                continue
            b = {}
            if self.unify(im["self"], selfty, b):
                ok = True
                ta = im.get("targs") or []
                for x, y in zip(ta, targs):
                    if isinstance(x, int) and y[0] != "const":
                        if not self.unify(x, y, b):
                            ok = False
                            break
                if ok:
                    return im, b
        return None

    def unify(self, i, t, b):
        """pattern type index i against resolved type t"""
        p = self.T[i]
        k = p["k"]
        if k == "param":
            n = p["name"]
            if n in b:
                return b[n] == t
            b[n] = t
            return True
        if t[0] in ("param", "proj", "opaque", "any"):
            return False
        if k == "adt":
            if t[0] != "adt" or t[1] != p["path"]:
                return False
            for x, y in zip(p["args"], t[2]):
                if isinstance(x, int) and y[0] != "const":
                    if not self.unify(x, y, b):
                        return False
            return True
        if k == "ref":
            return t[0] == "ref" and self.unify(p["t"], t[2], b)
        if k == "tuple":
            return t[0] == "tuple" and len(t[1]) == len(p["ts"]) and all(
                self.unify(x, y, b) for x, y in zip(p["ts"], t[1]))
        if k in ("slice", "array"):
            return t[0] == k and self.unify(p["t"], t[1], b)
        return self.ty(i, {}) == t

    def type_str(self, t):
        k = t[0]
        if k == "adt":
            return t[1].split("::")[-1] + ("<" + ", ".join(self.type_str(x) for x in t[2]) + ">" if t[2] else "")
        if k == "ref":
            return "&" + self.type_str(t[2])
        if k == "int":
            return t[1]
        return k
