"""Meaning of the standard library calls the analysed code makes."""
import re
from terms import *
import terms as TM
import strings as S
from strings import *
from facts import int_range, INTS

ORD = "core::cmp::Ordering"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"
COW = "alloc::borrow::Cow"
STRTYPES = {"alloc::string::String", "alloc::borrow::Cow", "std::path::Path", "std::path::PathBuf",
            "std::ffi::os_str::OsStr", "std::ffi::os_str::OsString", "alloc::boxed::Box"}
DUR = "core::time::Duration"
SYSTIME = "std::time::SystemTime"
NS = 1000000000
SYSRANGE = (-(1 << 63) * NS, ((1 << 63) - 1) * NS + NS - 1)
# what a clock can read: the kernel keeps time well inside the range of the type
NOWRANGE = (-(1 << 62) * NS, (1 << 62) * NS - 1)
REG = {}
REGX = []


def m(*paths, raw=False):
    def w(f):
        for p in paths:
            REG[p] = (f, raw)
        return f
    return w


def mx(rx, raw=False):
    def w(f):
        REGX.append((re.compile(rx), f, raw))
        return f
    return w


def inorder(pv):
    """pairs with the distinct names of an ordered map, in its order"""
    if pv.op != "vec" or len(pv.a) != 1 or pv.a[0][0] not in ("all", "each") or pv.a[0][1].op not in ("group", "lastmap"):
        return False
    g = pv.a[0]
    k = mk("fld", elem(g[1]), None, 0)
    return g[0] == "all" or all(b is VNIL or b.op == "vec" and len(b.a) == 1 and b.a[0][0] == "e" and b.a[0][1].op == "tuple"
                                and b.a[0][1].a[0] is k for _, b in leaves_pc(g[2]))


def onceeach(gs):
    """parts that go over the same sequence, as one: for use where order does not matter"""
    n = {}
    for g in gs:
        if g[0] in ("all", "each"):
            n.setdefault(g[1], []).append(g)
    if all(len(x) == 1 for x in n.values()):
        return gs
    out = []
    for g in gs:
        if g[0] not in ("all", "each") or len(n[g[1]]) == 1:
            out.append(g)
        elif n[g[1]][0] is g:
            src = g[1]
            both = [(TRUE, VNIL)]
            for h in n[src]:
                b = h[2] if h[0] == "each" else vec(E(elem(src)))
                both = [(band(c, d), vcat(x, y)) for c, x in both for d, y in leaves_pc(b) if band(c, d) is not FALSE]
                if len(both) > 64:
                    return gs
            b = select(both)
            out.append(("all", src) if b is vec(E(elem(src))) else ("each", src, b))
    return out


class Ctx:
    __slots__ = ("path", "rpath", "targs", "atys", "rty", "site", "raw", "m")


def asu(v):
    return v


JVOPS = {"jvalue", "jobj", "jarr", "jstr", "jnum", "jbool", "jnull"}


class Models:
    def __init__(self, I):
        self.I = I
        self.cache = {}
        self.ncell = 0
        import ext
        ext.install(self)
        TM.REBUILD["mget"] = self.mapget_raw
        TM.REBUILD["mhas"] = self.mhas

    # ------------------------------------------------------------ dispatch
    def lookup(self, path, rpath):
        k = (path, rpath)
        if k in self.cache:
            return self.cache[k]
        r = None
        for p in (rpath, path):
            if p in REG:
                r = REG[p] + (None,)
                break
        if r is None:
            for p in (rpath, path):
                for rx, f, raw in REGX:
                    mt = rx.match(p)
                    if mt:
                        r = (f, raw, mt)
                        break
                if r:
                    break
        if r is None:
            self.cache[k] = None
            return None
        f, raw, mt = r

        def call(st, args, targs, atys, rty, site):
            c = Ctx()
            c.path, c.rpath, c.targs, c.atys, c.rty, c.site, c.raw, c.m = path, rpath, targs, atys, rty, site, args, mt
            a = args if raw else [self.I.deref(st, x) if isinstance(x, T) else x for x in args]
            if any(x.op in ("undef", "moved") for x in a if isinstance(x, T)) and not raw:
                pass
            return f(self, st, a, c)
        self.cache[k] = call
        return call

    # ------------------------------------------------------------ helpers
    def branch(self, st, c, f, g):
        """value of (if c then f else g), with effects"""
        I = self.I
        p1 = band(st.pc, c)
        p2 = band(st.pc, bnot(c))
        if p2 is FALSE:
            return f(st)
        if p1 is FALSE:
            return g(st)
        s1, s2 = st.copy(), st
        s1.pc = p1
        o = st.copy()
        o.pc = p2
        v1 = f(s1)
        v2 = g(o)
        from interp import merge
        mm = merge([s1, o])
        if mm is None:
            st.pc = FALSE
            return UNDEFS
        st.assign(mm)
        ps = []
        if s1.pc is not FALSE:
            ps.append((c, v1))
        if o.pc is not FALSE:
            ps.append((bnot(c), v2))
        return select(ps)

    def call(self, st, f, *args):
        return self.I.call_value(st, f, list(args))

    def optsplit(self, o, ty=None):
        """(is_some, payload)"""
        d = self.I.discr_t(o, ("adt", OPT, ()))
        pt = None
        if ty is not None:
            while ty[0] == "ref":
                ty = ty[2]
            if ty[0] == "adt" and ty[1] == OPT and ty[2]:
                pt = ty[2][0]
        c = member(d, s_point(1))
        p = self.variant(o, 1, 0, pt)
        return c, p

    def variant(self, o, k, i, ty=None):
        ps = []
        for c, x in leaves_pc(o):
            if x.op == "adt":
                if x.a[1] == k and len(x.a) > 2 + i:
                    ps.append((c, x.a[2 + i]))
            elif x.op in ("undef", "moved"):
                continue
            else:
                ps.append((c, self.I.field(x, k, i, ty)))
        if not ps:
            return UNDEFS
        return select(ps)

    def ressplit(self, r, ty=None):
        d = self.I.discr_t(r, ("adt", RES, ()))
        t0 = t1 = None
        if ty is not None:
            while ty[0] == "ref":
                ty = ty[2]
            if ty[0] == "adt" and ty[1] == RES and len(ty[2]) > 1:
                t0, t1 = ty[2][0], ty[2][1]
        return member(d, s_point(0)), self.variant(r, 0, 0, t0), self.variant(r, 1, 0, t1)

    def ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return select([(c, a), (bnot(c), b)])

    def okif(self, c, v, e):
        return self.ite(c, ok(v), err(e))

    def someif(self, c, v):
        return self.ite(c, some(v), NONE)

    def okp(self, kind, *a):
        return truth(mk("okp", kind, *a))

    def strip(self, t):
        while t is not None and t[0] == "ref":
            t = t[2]
        return t

    def isstr(self, t):
        t = self.strip(t)
        if t is None:
            return False
        if t[0] == "str":
            return True
        if t[0] == "adt":
            if t[1] in ("alloc::string::String", "std::path::Path", "std::path::PathBuf", "std::ffi::os_str::OsStr",
                        "std::ffi::os_str::OsString"):
                return True
            if t[1] in (COW, "alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc"):
                return any(self.isstr(x) for x in t[2] if x[0] != "const")
        return False

    # ------------------------------------------------------------ hooks used by the interpreter
    def descend(self, path):
        a = self.I.F.adts.get(path)
        return bool(a and a["local"] and a["kind"] == "struct") or path.startswith("$")

    def elem_special(self, src):
        return None

    def field(self, v, variant, i, ty):
        op = v.op
        if op in JVOPS:
            from ext_serde import jv_field
            return jv_field(self, v, variant)
        if op == "int" and ty is None:
            return None
        if variant is not None and op in ("lit", "concat", "bytemap", "vec", "bytes"):
            return v        # Cow::Borrowed / Cow::Owned payload
        if op == "rangei":
            return v.a[i]
        if op == "uninit":
            return v
        return None

    def setfield(self, v, variant, i, new):
        if v.op == "uninit":
            return new
        return None

    def typed_adt(self, v, ty):
        p = ty[1]
        if p == SYSTIME:
            return mk("typed", v, SYSRANGE)
        if p == DUR:
            return mk("typed", v, (0, ((1 << 64) - 1) * NS + NS - 1))
        if p in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "core::pin::Pin") and ty[2]:
            return self.I.typed(v, ty[2][0])
        if p == ORD:
            return mk("typed", v, (-1, 1))
        return None

    def mkadt(self, path, variant, fs):
        if path == "serde_json::value::Value":
            from ext_serde import jv_make
            return jv_make(variant, fs)
        if path == ORD:
            return INT(variant - 1)
        if path == COW:
            return fs[0]
        if path == "core::pin::Pin" and fs:
            return fs[0]
        if path in ("core::ops::range::RangeInclusive",) and len(fs) >= 2:
            return mk("rangei", fs[0], fs[1])
        if path == "core::mem::manually_drop::ManuallyDrop" and fs:
            return fs[0]
        if path == "core::cmp::Reverse" and fs:
            return mk("adt", path, 0, *fs)
        return None

    def discr(self, v):
        if v.op in JVOPS:
            from ext_serde import jv_discr
            return jv_discr(v)
        if v.op in ("lit", "concat", "bytemap", "bytes"):
            return mk("disc", mk("cow", v), (0, 1))
        return None

    def const(self, path, ty):
        if path.endswith("SystemTime::UNIX_EPOCH") or path.endswith("time::UNIX_EPOCH"):
            return INT(0)
        if path.endswith("Duration::ZERO"):
            return INT(0)
        if path.endswith("Duration::MAX"):
            return INT(((1 << 64) - 1) * NS + NS - 1)
        if path.startswith("http::method::Method::") or path.startswith("http::Method::"):
            return lit(path.split("::")[-1])
        mm = re.match(r"^(?:core::num::)?(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)::(MIN|MAX|BITS)$", path)
        if mm:
            lo, hi = int_range(mm.group(1))
            return INT({"MIN": lo, "MAX": hi, "BITS": INTS[mm.group(1)][0]}[mm.group(2)])
        if path.startswith("http::status::StatusCode::"):
            n = path.split("::")[-1]
            k = {"OK": 200, "CREATED": 201, "ACCEPTED": 202, "NO_CONTENT": 204, "BAD_REQUEST": 400,
                 "UNAUTHORIZED": 401, "FORBIDDEN": 403, "NOT_FOUND": 404, "CONFLICT": 409,
                 "TOO_MANY_REQUESTS": 429, "INTERNAL_SERVER_ERROR": 500, "BAD_GATEWAY": 502,
                 "SERVICE_UNAVAILABLE": 503, "GATEWAY_TIMEOUT": 504, "PARTIAL_CONTENT": 206}.get(n)
            if k:
                return INT(k)
        if path.startswith("http::header::name::") or path.startswith("http::header::") or path.startswith("reqwest::header::"):
            n = path.split("::")[-1]
            if n.isupper():
                return lit(n.lower().replace("_", "-"))
        if "http::header::name::HeaderName" in str(ty):
            pass
        return None

    # ---- sequences
    def seq(self, v):
        """elements of a container or iterator, in iteration order"""
        op = v.op
        if op == "sel":
            return bind(v, self.seq)
        if op == "iter":
            return v.a[0]
        if op == "bytelit":
            return vec(*[E(INT(b)) for b in v.a[0]])
        if op == "btset":
            return self.sortset(v.a[0])
        if op == "hset":
            return mk("hsetiter", self.canonset(v.a[0]))
        if op == "map":
            return self.mapseq(v)
        if op == "hm":
            return self.hiter(v)
        if op == "adt":
            if v.a[0] == OPT:
                return vec(E(v.a[2])) if v.a[1] == 1 else VNIL
            if v.a[0] == RES:
                return vec(E(v.a[2])) if v.a[1] == 0 else VNIL
            if v.a[0] == "core::ops::range::Range":
                return self.rangeseq(v.a[2], v.a[3])
        if op == "rangei":
            return self.rangeseq(v.a[0], add(v.a[1], INT(1)))
        if op == "tuple" and not v.a:
            return VNIL
        return v

    def rangeseq(self, a, b):
        if a.op == "int" and b.op == "int" and b.a[0] - a.a[0] <= 4096:
            return vec(*[E(INT(i)) for i in range(a.a[0], b.a[0])])
        if a is INT(0) and b.op == "len":
            return vec(("each", b.a[0], vec(E(mk("idx", b.a[0])))))
        return mk("range", a, b)

    def length(self, v):
        op = v.op
        if op == "sel":
            return bind(v, self.length)
        if op == "lit":
            return INT(len(enc(v.a[0])))
        if op == "bytelit":
            return INT(len(v.a[0]))
        if op in ("bytes", "iter", "sorted", "sortby", "rev", "utf8"):
            return self.length(v.a[0])
        if op == "concat":
            r = INT(0)
            for p in v.a:
                r = add(r, self.length(p))
            return r
        if op == "vec":
            r = INT(0)
            for g in v.a:
                if g[0] == "e":
                    r = add(r, INT(1))
                elif g[0] in ("all", "alt"):
                    r = add(r, self.length(g[1]))
                elif g[0] == "each":
                    n = self.length(g[2])
                    if n.op == "int":
                        r = add(r, mulc(self.length(g[1]), n.a[0]))
                    else:
                        r = add(r, mk("sum", g[1], n))
                else:
                    return mk("len", v)
            return r
        if op == "rep":
            return v.a[1]
        if op == "rsasig":
            return mk("len", v)
        if op == "btset":
            return mk("len", self.sortset(v.a[0]))
        if op == "map":
            return mk("len", self.mapseq(v))
        if op in ("undef", "moved"):
            return v
        return mk("len", v)

    def repeat(self, a, n):
        if n.op == "int" and n.a[0] <= 64:
            return vec(*[E(a)] * n.a[0])
        return mk("rep", a, n)

    def index(self, v, i):
        if i.op == "sel":
            return bind(i, lambda x: self.index(v, x))
        op = v.op
        if op == "sel":
            return bind(v, lambda x: self.index(x, i))
        if op in ("undef", "moved"):
            return v
        if i.op == "int":
            n = i.a[0]
            if op == "bytelit":
                return INT(v.a[0][n]) if -len(v.a[0]) <= n < len(v.a[0]) else UNDEFS
            if op == "vec":
                sg = v.a
                if n >= 0 and all(g[0] == "e" for g in sg[:n + 1]):
                    return sg[n][1] if n < len(sg) else UNDEFS
                if n < 0 and all(g[0] == "e" for g in sg[n:]) and -n <= len(sg):
                    return sg[n][1]
                if all(g[0] == "e" for g in sg):
                    return UNDEFS
            if op == "rep":
                return v.a[0]
        if op == "iter":
            return self.index(v.a[0], i)
        b = i
        if b.op == "idx" and b.a[0] is v:
            return self.I.elemof(v)
        if b.op == "fidx" and b.a[0].op == "first" and b.a[0].a[0] is v:
            return b.a[0]
        if op == "setat" and v.a[1] is i:
            return v.a[2]
        if op == "rep":
            return v.a[0]
        if op == "setat" and (v.a[1].op == "int" or i.op == "int"):
            n, j = (v.a[1].a[0], i) if v.a[1].op == "int" else (i.a[0], v.a[1])
            c = FALSE if j.op == "int" and j.a[0] != n else member(j, s_point(n))
            rest = self.index(v.a[0], i)
            return rest if c is FALSE else select([(c, v.a[2]), (bnot(c), rest)])
        if op == "bytelit":
            return mk("typed", mk("at", v, i), (0, 255))
        if S.isbytes(v):
            return mk("typed", mk("at", v, i), (0, 255))
        return mk("at", v, i)

    def setindex(self, v, i, new):
        if v.op == "vec" and i.op == "int" and all(g[0] == "e" for g in v.a) and 0 <= i.a[0] < len(v.a):
            a = list(v.a)
            a[i.a[0]] = E(new)
            return vec(*a)
        return mk("setat", v, i, new)

    def slice_of(self, v, a, b):
        if v.op == "sel":
            return bind(v, lambda x: self.slice_of(x, a, b))
        n0 = a.a[0] if a is not None and a.op == "int" else None
        if v.op == "lit" and n0 is not None and (b is None or b.op == "int"):
            w = enc(v.a[0])
            return lit(dec(w[n0:(b.a[0] if b is not None else None)]))
        if v.op == "bytelit" and n0 is not None and (b is None or b.op == "int"):
            return mk("bytelit", v.a[0][n0:(b.a[0] if b is not None else None)])
        if v.op == "vec" and all(g[0] == "e" for g in v.a) and n0 is not None and (b is None or b.op == "int"):
            return vec(*v.a[n0:(b.a[0] if b is not None else None)])
        if n0 == 0 and (b is None or b is self.length(v)):
            return v
        if v.op == "vec" and n0 is not None and b is None and len(v.a) >= n0 and all(g[0] == "e" for g in v.a[:n0]):
            return vec(*v.a[n0:])
        if a is None and b is None:
            return v
        lo, hi = a if a is not None else INT(0), b if b is not None else self.length(v)
        if v.op in ("concat", "lit"):
            x, y = self.cutat(v, lo), self.cutat(v, hi)
            if x is not None and y is not None:
                i, j = x[0], y[0]
                if lo is INT(0):
                    return y[1]
                if hi is self.length(v):
                    return x[2]
                w = self.length(x[1])
                y = self.cutat(x[2], TM.sub(hi, w))
                if y is not None and TM.rng(TM.sub(hi, lo))[0] >= 0:
                    return y[1]
        w = self.foundat(v, hi)
        if lo is INT(0) and w is not None and w[1] == 0:
            return mk("splithead", v, w[0].a[2], w[0].a[0] == "rfind")
        w = self.foundat(v, lo)
        if hi is self.length(v) and w is not None and w[1] == len(enc(w[0].a[2].a[0])):
            return mk("splittail", v, w[0].a[2], w[0].a[0] == "rfind")
        return mk("slice", v, lo, hi)

    def foundat(self, v, n):
        """n is so many bytes after the place of a literal found in v"""
        c = 0
        if n.op == "lin" and len(n.a[1]) == 1 and n.a[1][0][1] == 1:
            c, n = n.a[0], n.a[1][0][0]
        if n.op == "typed" and n.a[0].op == "find" and n.a[0].a[1] is v and n.a[0].a[2].op == "lit" and n.a[0].a[2] is not EMPTY:
            return n.a[0], c
        return None

    def cutat(self, v, n):
        """(number of whole parts, text before, text after) for the place n in a text made of parts"""
        acc = INT(0)
        ps = str_parts(v)
        for i in range(len(ps) + 1):
            d = TM.sub(n, acc)
            if d is INT(0):
                return i, concat(*ps[:i]), concat(*ps[i:])
            if i == len(ps):
                return None
            if ps[i].op == "lit" and d.op == "int":
                w = enc(ps[i].a[0])
                if d.a[0] < 0:
                    return None
                if d.a[0] < len(w):
                    x, y = w[:d.a[0]], w[d.a[0]:]
                    if y[0] & 0xC0 == 0x80:
                        return None
                    return i, concat(*ps[:i], lit(dec(x))), concat(lit(dec(y)), *ps[i + 1:])
            acc = add(acc, self.length(ps[i]))
        return None

    def setslice(self, v, a, b, new):
        return mk("setslice", v, a if a is not None else UNIT, b if b is not None else UNIT, new)

    # ---- sets and maps
    def canonset(self, v):
        """a set written from the sequence of inserted elements"""
        out = {}

        def go(v):
            for g in segs(v):
                if g[0] == "e":
                    out[g] = None
                elif g[0] == "all":
                    s = g[1]
                    if s.op in TM.PERM or s.op == "hkeys":
                        go(self.unperm(s))
                    else:
                        out[("all", s)] = None
                elif g[0] == "each":
                    s = g[1]
                    if (s.op in TM.PERM or s.op == "hkeys") and not contains(g[2], mk("idx", s)):
                        go(self.flat(self.unperm(s), elem(s), g[2]))
                    else:
                        b = self.canonset(g[2])
                        out[("each", s, b)] = None
                elif g[0] == "alt":
                    out[("alt", bind(g[1], self.canonset))] = None
                else:
                    out[g] = None
        go(v)
        return vec(*sorted(out, key=lambda g: tuple(x.id if isinstance(x, T) else x for x in g)))

    def unperm(self, s):
        if s.op == "hkeys":
            return seqbody(s.a[0], lambda e: self.I.field(e, None, 0))
        return s.a[0]

    def flat(self, P, e, body):
        """body (over element e) for every element of P"""
        return seqflat(P, lambda x: subst(body, e, x))

    def sortset(self, v):
        c = self.canonset(v)
        if c.op == "vec" and all(g[0] == "e" and g[1].op == "lit" for g in c.a):
            return vec(*[E(x) for x in sorted((g[1] for g in c.a), key=lambda x: enc(x.a[0]))])
        return mk("sortset", c)

    def sorted(self, v):
        if v.op == "sel":
            return bind(v, self.sorted)
        out = []
        for g in segs(v):
            if g[0] == "all" and g[1].op in ("sorted", "hiter", "rev"):
                out.extend(segs(self.unperm(g[1])))
            elif g[0] == "all" and g[1].op in ("sortset", "group", "lastmap") and len(segs(v)) == 1:
                return v
            elif g[0] == "all" and g[1].op == "hgroup" and len(segs(v)) == 1:
                return mk("group", g[1].a[0])
            elif g[0] == "all" and g[1].op == "hsetiter" and len(segs(v)) == 1:
                return mk("sortset", g[1].a[0])
            elif g[0] == "each" and g[1].op in ("sorted", "hiter", "rev"):
                out.extend(segs(self.flat(self.unperm(g[1]), elem(g[1]), g[2])))
            else:
                out.append(g)
        if all(g[0] == "e" and g[1].op == "lit" for g in out):
            return vec(*sorted(out, key=lambda g: enc(g[1].a[0])))
        out = onceeach(out)
        out.sort(key=lambda g: tuple(x.id if isinstance(x, T) else x for x in g))
        return mk("sorted", vec(*out))

    def mapseq(self, mp):
        """(key, value) sequence of a map in iteration order"""
        hashed = len(mp.a) > 1 and mp.a[1] == "hash"
        kinds = set()

        def f(op):
            if op.op == "push":
                kinds.add("push")
                return vec(E(tup(op.a[0], op.a[1])))
            if op.op == "put":
                kinds.add("put")
                return vec(E(tup(op.a[0], op.a[1])))
            if op.op == "touch":
                kinds.add("touch")
                return VNIL
            kinds.add("?")
            return vec(E(op))
        pairs = seqflat(mp.a[0], f)
        if not pairs.a and pairs.op == "vec":
            return VNIL
        if kinds <= {"push"}:
            return self.group(pairs, "hgroup" if hashed else "group")
        if kinds <= {"put"}:
            pv = pairs
            if not hashed and inorder(pv):
                return pv.a[0][1] if pv.a[0][0] == "all" else pv
            return mk("hlastmap" if hashed else "lastmap", pv)
        return mk("mapiter", mp)

    def group(self, pairs, op="group"):
        # grouping by the header name: the map keeps values per name in order
        out = []
        for g in segs(pairs):
            if g[0] == "each" and g[1].op == "hiter" and g[2].op == "vec" and len(g[2].a) == 1 and g[2].a[0][0] == "e":
                t = g[2].a[0][1]
                e = elem(g[1])
                k = self.I.field(t, None, 0)
                if k is self.I.field(e, None, 0):
                    out.extend(segs(self.flat(g[1].a[0], e, g[2])))
                    continue
            elif g[0] == "all" and g[1].op == "hiter":
                out.extend(segs(g[1].a[0]))
                continue
            out.append(g)
        return mk(op, vec(*out))

    def hiter(self, hm):
        return mk("hiter", hm.a[0])

    def mlog(self, mp, op):
        return mk("map", vcat(mp.a[0], vec(E(op))), *mp.a[1:])

    def mapget_raw(self, mp, k):
        if mp.op == "sel":
            return bind(mp, lambda x: self.mapget_raw(x, k))
        if mp.op == "map":
            log = mp.a[0]
            if log.op == "sel":
                return bind(log, lambda x: self.mapget_raw(mk("map", x, *mp.a[1:]), k))
            if log.op == "vec" and log.a and log.a[-1][0] == "e":
                o = log.a[-1][1]
                if o.op == "put" and o.a[0] is not k and all(g[0] == "e" and g[1].op == "put" for g in log.a):
                    c = self.eqv(o.a[0], k)
                    if c is TRUE:
                        return o.a[1]
                    rest = self.mapget_raw(mk("map", vec(*log.a[:-1]), *mp.a[1:]), k)
                    return rest if c is FALSE else select([(c, o.a[1]), (bnot(c), rest)])
                if o.op == "touch" and o.a[0] is k:
                    return self.mapget_raw(mk("map", vec(*log.a[:-1]), *mp.a[1:]), k)
                if o.op == "put" and o.a[0] is k:
                    return o.a[1]
            if log.op == "vec" and not log.a:
                return VNIL
        return mk("mget", mp, k)

    def mapset_raw(self, mp, k, new):
        if mp.op == "sel":
            return bind(mp, lambda x: self.mapset_raw(x, k, new))
        if new.op == "sel":
            return bind(new, lambda x: self.mapset_raw(mp, k, x))
        if mp.op != "map":
            return mk("mset", mp, k, new)
        base = mp
        log = mp.a[0]
        if log.op == "vec" and log.a and log.a[-1][0] == "e" and log.a[-1][1].op == "touch" and log.a[-1][1].a[0] is k:
            base = mk("map", vec(*log.a[:-1]), *mp.a[1:])
        old = self.mapget_raw(base, k)
        if new is old:
            return mp
        os_, ns = segs(old), segs(new)
        if len(ns) > len(os_) and ns[:len(os_)] == os_ and all(g[0] == "e" for g in ns[len(os_):]):
            r = base
            for g in ns[len(os_):]:
                r = self.mlog(r, mk("push", k, g[1]))
            return r
        return self.mlog(base, mk("put", k, new))

    def mhas(self, mp, k):
        if mp.op == "sel":
            return bind(mp, lambda x: self.mhas(x, k))
        if mp.op == "map":
            log = mp.a[0]
            if log.op == "sel":
                return truth(bind(log, lambda x: self.mhas(mk("map", x, *mp.a[1:]), k)))
            if log.op == "vec" and not log.a:
                return FALSE
            if log.op == "vec" and all(g[0] == "e" for g in log.a):
                c = FALSE
                for g in log.a:
                    c = bor(c, self.eqv(g[1].a[0], k))
                return c
        return truth(mk("mhas", mp, k))

    # ---- equality and order
    def eqv(self, a, b):
        if a is b:
            return TRUE
        if a.op == "sel":
            return bind(a, lambda x: self.eqv(x, b))
        if b.op == "sel":
            return bind(b, lambda x: self.eqv(a, x))
        if a.op in ("undef", "moved") or b.op in ("undef", "moved"):
            return FALSE
        if a.op == "adt" and b.op == "adt":
            if a.a[:2] != b.a[:2]:
                return FALSE
            c = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                c = band(c, self.eqv(x, y))
            return c
        if b.op == "adt":
            a, b = b, a
        if a.op == "adt":
            d = self.I.discr_t(b, ("adt", a.a[0], ()))
            c = member(d, s_point(self.I.discr(a).a[0]))
            for i, x in enumerate(a.a[2:]):
                c = band(c, self.eqv(x, self.I.field(b, a.a[1], i)))
            return c
        if a.op == "tuple" or b.op == "tuple":
            n = len(a.a) if a.op == "tuple" else len(b.a)
            c = TRUE
            for i in range(n):
                c = band(c, self.eqv(self.I.field(a, None, i), self.I.field(b, None, i)))
            return c
        if rng(a) is not None or rng(b) is not None:
            if a.op not in ("lit", "concat") and b.op not in ("lit", "concat"):
                return icmp("Eq", a, b)
        fa, fb = frombytes(a), frombytes(b)
        if fa is not None and fb is not None:
            return eq_str(fa, fb)
        if a.op == "vec" and b.op == "vec" and all(g[0] == "e" for g in a.a + b.a):
            if len(a.a) != len(b.a):
                return FALSE
            c = TRUE
            for x, y in zip(a.a, b.a):
                c = band(c, self.eqv(x[1], y[1]))
            return c
        if (a.op == "vec" and not a.a):
            return is_empty(b)
        if (b.op == "vec" and not b.a):
            return is_empty(a)
        return eq_str(a, b)

    def cmp3(self, a, b):
        if a is b:
            return INT(0)
        if a.op == "sel":
            return bind(a, lambda x: self.cmp3(x, b))
        if b.op == "sel":
            return bind(b, lambda x: self.cmp3(a, x))
        if a.op == "tuple" or b.op == "tuple":
            n = len(a.a) if a.op == "tuple" else len(b.a)
            r = INT(0)
            for i in reversed(range(n)):
                x = self.cmp3(self.I.field(a, None, i), self.I.field(b, None, i))
                r = self.thenc(x, r)
            return r
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1]:
                return INT(-1 if a.a[1] < b.a[1] else 1)
            r = INT(0)
            for x, y in reversed(list(zip(a.a[2:], b.a[2:]))):
                r = self.thenc(self.cmp3(x, y), r)
            if a.a[0] == "core::cmp::Reverse":
                return mulc(r, -1)
            return r
        if a.op == "lit" and b.op == "lit":
            x, y = enc(a.a[0]), enc(b.a[0])
            return INT((x > y) - (x < y))
        if rng(a) is not None and rng(b) is not None:
            lt = icmp("Lt", a, b)
            eq = icmp("Eq", a, b)
            return select([(lt, INT(-1)), (eq, INT(0)), (band(bnot(lt), bnot(eq)), INT(1))])
        if a.id > b.id:
            return mulc(self.cmp3(b, a), -1)
        return mk("cmp3", a, b)

    def thenc(self, x, r):
        """x.then(r)"""
        if r is INT(0):
            return x
        return self.ite(member(x, s_point(0)), r, x)

    # ------------------------------------------------------------ loop summaries
    def counter_loop(self, fr, h, blocks, st, mark):
        return None

    def fit(self, final, src, carries):
        res = {}
        first = member(mk("idx", src), s_point(0))
        # flags that become a constant after the first iteration
        sub = {}
        for sl, (init, carry, new) in final.items():
            if new is None:
                continue
            if not any(contains(new, k) for k in carries) and not contains(new, elem(src)) \
                    and not contains(new, mk("idx", src)):
                if new.op in ("int", "adt", "lit", "tuple") and new is not init:
                    sub[carry] = select([(first, init), (bnot(first), new)])
        # counters
        for sl, (init, carry, new) in final.items():
            if new is not None and new is add(carry, INT(1)):
                sub[carry] = add(init, mk("idx", src))
        fin2 = {}
        for sl, (init, carry, new) in final.items():
            if new is not None and sub:
                new = mapt(new, lambda x: sub.get(x) if x.op == "carry" and x is not carry else None, {})
            fin2[sl] = (init, carry, new)
        # a first-element flag read as is_empty(carry) of a string that always grows
        grows = {}
        for sl, (init, carry, new) in fin2.items():
            if new is None:
                continue
            g = self.grown(init, carry, new, first, src)
            if g is not None:
                grows[carry] = g
        fin3 = {}
        for sl, (init, carry, new) in fin2.items():
            if grows and new is not None:
                for cy, c in grows.items():
                    new = self.replace_empty(new, cy, c)
            fin3[sl] = (init, carry, new)
        # "seen before" asked of a set that every element is put into
        base = src
        while base.op in TM.PERM:
            base = base.a[0]
        seen = {}
        if base.op == "in":
            for sl, (init, carry, new) in fin3.items():
                if init is VNIL and new is not None and new.op == "vec" and len(new.a) == 2 and new.a[0] == ("all", carry) \
                        and new.a[1][0] == "e" and not any(contains(new.a[1][1], k) for k in carries):
                    seen[carry] = new.a[1][1]

        def before(x):
            if x.op == "mhas" and x.a[0].op == "hset" and x.a[0].a[0] in seen \
                    and not any(contains(x.a[1], k) for k in carries):
                k = seen[x.a[0].a[0]]
                if k is x.a[1]:
                    return mk("repeated", src, elem(src), self.eqv(subst(k, elem(src), mk("prev", src)), k))
            return None
        for sl, (init, carry, new) in fin3.items():
            if seen and new is not None and carry not in seen:
                new = mapt(new, before, {})
            res[sl] = self.fit1(init, carry, new, src, carries, sub)
        return res

    def grown(self, init, carry, new, first, src):
        """when init is empty and every iteration adds a non-empty text: emptiness of the carry means first"""
        if is_empty(init) is not TRUE if init.op in ("lit", "vec") else True:
            return None
        v = cond(carry, SS(True, [""]))
        if carry not in [x.a[0] if x.op == "sel" else None for x in (v,)] and v.op != "sel":
            return None
        e = is_empty(new)
        r = band(e, TRUE)
        # new must be non-empty whatever the carry is
        if self.nonempty(new, carry):
            return first
        return None

    def nonempty(self, new, carry):
        for l in leaves(new):
            if l.op == "concat":
                if not any(self.neverempty(p) for p in l.a if p is not carry):
                    return False
            elif l.op == "vec":
                if not any(g[0] == "e" for g in l.a):
                    return False
            elif is_empty(l) is not FALSE if l.op in ("lit",) else True:
                return False
        return True

    def neverempty(self, p):
        """p is a text that is never empty: for an element, none of the sequence's elements ever is"""
        if is_empty(p) is FALSE or p.op == "hname":
            return True
        if p.op == "sel":
            return all(self.neverempty(l) for l in leaves(p))
        if p.op != "elem":
            return False
        src = p.a[0]
        while src.op in TM.PERM or src.op == "iter":
            src = src.a[0]
        if src.op != "vec":
            return False

        def body(v):
            if v.op == "sel":
                return all(body(l) for l in leaves(v))
            return v.op == "vec" and all(self.neverempty(g[1]) if g[0] == "e" else g[0] == "each" and body(g[2])
                                         for g in v.a)
        return body(src)

    def replace_empty(self, t, carry, c):
        """replace the test 'carry is empty' by c"""
        memo = {}

        def f(x):
            if x.op == "sel" and x.a[0] is carry:
                y = []
                for s, ch in x.a[1]:
                    ch2 = mapt(ch, f, memo)
                    inn = "" in s.s if s.pos else "" not in s.s
                    y.append((c if inn else bnot(c), ch2))
                return select(y)
            if x.op == "sel" and x.a[0].op == "mhasnone":
                return None
            return None
        return mapt(t, f, memo)

    def fit1(self, init, carry, new, src, carries, sub):
        e = elem(src)
        ix = mk("idx", src)
        if new is None or new is carry:
            return init
        if carry in sub and new is add(carry, INT(1)):
            return add(init, self.length(src))
        deps = any(contains(new, k) for k in carries)
        emp = is_empty(src)
        if not deps:
            if not contains(new, e) and not contains(new, ix):
                return self.ite(emp, init, new)
            return self.ite(emp, init, mk("lastof", src, new))
        others = [k for k in carries if k is not carry and contains(new, k)]
        if not others and any(l.op in ("qapp", "qoapp") for l in leaves(new)):
            from ext import qfit
            r = qfit(self, init, carry, new, src)
            if r is not None:
                return r
        # inserting every element of an input list into a header map: a later value replaces earlier ones
        if not others and new.op == "hmins" and src.op == "in":
            if new.a[0] is mk("hm", carry) and not contains(tup(*new.a[1:]), carry):
                return mk("insfold", init, vec(("each", src, vec(E(tup(new.a[1], new.a[2]))))))
        # append to a sequence
        if new.op == "vec" and new.a and new.a[0] == ("all", carry):
            rest = vec(*new.a[1:])
            if not contains(rest, carry) and not others:
                return vcat(init, vec(("each", src, rest)))
            r = self.dedup(init, carry, rest, src) if not others else None
            if r is not None:
                return r
        if new.op == "concat" and new.a[0] is carry:
            rest = concat(*new.a[1:])
            if not contains(rest, carry) and not others:
                sp = self.sepbody(rest, src)
                if sp is not None:
                    body, sep = sp
                    return concat(init, join(vec(("each", src, vec(E(body)))), sep))
                return concat(init, eachstr(src, rest))
        if new.op == "concat" and new.a[-1] is carry:
            rest = concat(*new.a[:-1])
            if not contains(rest, carry) and not others:
                return concat(eachstr(mk("rev", src), subst(rest, e, elem(mk("rev", src)))), init)
        if new.op == "vec" and new.a and new.a[-1] == ("all", carry):
            rest = vec(*new.a[:-1])
            if not contains(rest, carry) and not others:
                r = mk("rev", src)
                return vcat(vec(("each", r, subst(rest, e, elem(r)))), init)
        if not others:
            # flags: carry unless c, then a constant
            if new.op == "sel":
                pcs = {}
                okk = True
                for c, l in leaves_pc(new):
                    if contains(c, carry):
                        okk = False
                    pcs[l] = bor(pcs.get(l, FALSE), c)
                if okk and len(pcs) == 2 and carry in pcs:
                    k = [x for x in pcs if x is not carry][0]
                    c = pcs[k]
                    if not contains(k, e) and not contains(k, ix) and not contains(k, carry):
                        return self.ite(any_of(src, c), k, init)
            if rng(carry) == (0, 1) or (init in (TRUE, FALSE)):
                try:
                    n1 = truth(mapt(new, lambda x: TRUE if x is carry else None, {}))
                    n0 = truth(mapt(new, lambda x: FALSE if x is carry else None, {}))
                    if n1 is TRUE and not contains(n0, carry):
                        return bor(truth(init), any_of(src, n0))
                    if n0 is FALSE and not contains(n1, carry):
                        return band(truth(init), bnot(any_of(src, bnot(n1))))
                except ValueError:
                    pass
            d = TM.sub(new, carry) if self.intlike(new, carry) else None
            if d is not None and not contains(d, carry):
                if d.op == "int":
                    return add(init, mulc(self.length(src), d.a[0]))
                return add(init, mk("sum", src, d))
        from interp import canon_fold
        return mk("fold", src, init, *canon_fold(carry, new), tuple(others))

    def dedup(self, init, carry, rest, src):
        """elements of an input list left out when one like them was put in before"""
        base = src
        while base.op in TM.PERM:
            base = base.a[0]
        if not (base.op == "in" or base.op == "vec" and any(g[0] in ("each", "all") and g[1].op == "in" for g in base.a)):
            return None     # elements may all be different
        if rest.op != "sel" or rest.a[0].op != "any":
            return None
        e = elem(src)
        v = rest.a[0]
        yes, no = (TM.cof(rest, v, s_point(i)) for i in (1, 0))
        if yes is None or no is None or no.op != "vec" or len(no.a) != 1 or no.a[0][0] != "e" or contains(no, carry):
            return None
        t = no.a[0][1]
        X = v.a[0]
        if X is carry and yes is VNIL:
            item, seen = t, any_of(init, subst(v.a[1], elem(carry), elem(init)))
        elif X.op == "mget" and X.a[0].op == "map" and X.a[0].a[0] is carry and init is VNIL \
                and t.op == "push" and t.a[0] is X.a[1] and yes in (VNIL, vec(E(mk("touch", X.a[1])))):
            item, seen = t.a[1], FALSE
        else:
            return None
        like = lambda y: subst(v.a[1], elem(X), y)
        if contains(like(item), carry) or truth(like(item)) is not TRUE:
            return None
        c = bor(seen, truth(mk("repeated", src, e, like(subst(item, e, mk("prev", src))))))
        return vcat(init, vec(("each", src, self.ite(c, vec(), no))))

    def intlike(self, new, carry):
        return new.op == "lin" and any(t is carry and c == 1 for t, c in new.a[1])

    def sepbody(self, rest, src):
        """rest = (first ? "" : sep) + body -> (body, sep)"""
        ps = str_parts(rest)
        if not ps or ps[0].op != "sel":
            # whole rest may be a selection with a shared tail
            return None
        s = ps[0]
        ix = mk("idx", src)
        first = member(ix, s_point(0))
        a = restrict(s, first)
        b = restrict(s, bnot(first))
        if a is EMPTY and b.op != "sel" and not contains(b, elem(src)) and not contains(b, ix):
            body = concat(*ps[1:])
            if not contains(body, ix):
                return body, b
        if a is not EMPTY and a.op != "sel" and b.op == "concat":
            # first: body, otherwise: sep + body
            pb, pa = str_parts(b), str_parts(a)
            n = len(pb) - len(pa)
            if n >= 1 and pb[n:] == pa and len(ps) >= 1:
                sep = concat(*pb[:n])
                if not contains(sep, elem(src)):
                    return concat(a, *ps[1:]), sep
        return None

    # ------------------------------------------------------------ opaque calls
    def call_opaque(self, st, f, args):
        return None

    def trait_early(self, st, tr, name, args, targs, atys, rty):
        I = self.I
        if tr == "core::clone::Clone" and name == "clone":
            if self.byhand(tr, targs[0] if targs else None):
                b = self.localimpl(tr, targs, name)
                return None if b is not None else I.unk("clone", I.deref(st, args[0]))
            return I.deref(st, args[0])
        if tr == "core::cmp::PartialEq" and name in ("eq", "ne"):
            b = self.localimpl(tr, targs, "eq")
            if b is not None and self.byhand(tr, targs[0]):
                if name == "ne":
                    r = I.method(st, tr, "eq", self.strip(targs[0]), args)
                    return bnot(truth(r)) if r is not None else None
                return None
            c = self.eqv(I.deref(st, args[0]), I.deref(st, args[1]))
            return c if name == "eq" else bnot(c)
        if tr in ("core::cmp::PartialOrd", "core::cmp::Ord"):
            for t in ("core::cmp::Ord", "core::cmp::PartialOrd"):
                b = self.localimpl(t, targs, "cmp" if t.endswith("::Ord") else "partial_cmp")
                if b is not None and self.byhand(t, targs[0]):
                    if name in ("lt", "le", "gt", "ge", "max", "min"):
                        r = I.method(st, t, "cmp" if t.endswith("::Ord") else "partial_cmp", self.strip(targs[0]), list(args))
                        if r is not None:
                            if t.endswith("PartialOrd"):
                                r = self.variant(r, 1, 0)
                            return self.ordop(name, r, args)
                    return None
            a, b = I.deref(st, args[0]), I.deref(st, args[1])
            if name in ("cmp", "partial_cmp", "lt", "le", "gt", "ge", "max", "min"):
                if name in ("lt", "le", "gt", "ge") and rng(a) is not None and rng(b) is not None:
                    return icmp(name.capitalize(), a, b)
                r = self.cmp3(a, b)
                if name == "cmp":
                    return r
                if name == "partial_cmp":
                    return some(r)
                return self.ordop(name, r, (a, b))
            if name == "clamp":
                x, lo, hi = [I.deref(st, y) for y in args]
                c1 = member(self.cmp3(x, lo), s_point(-1))
                c2 = member(self.cmp3(x, hi), s_point(1))
                return self.ite(c1, lo, self.ite(c2, hi, x))
        return None

    def ordop(self, name, r, args):
        if name == "lt":
            return member(r, s_point(-1))
        if name == "le":
            return member(r, s_range(-1, 0))
        if name == "gt":
            return member(r, s_point(1))
        if name == "ge":
            return member(r, s_range(0, 1))
        if name == "max":
            return self.ite(member(r, s_point(1)), args[0], args[1])
        if name == "min":
            return self.ite(member(r, s_range(-1, 0)), args[0], args[1])

    def byhand(self, tr, t):
        """whether the implementation for t, or for something t is made of, is written by hand"""
        F = self.I.F
        if not hasattr(F, "byhand_cache"):
            F.byhand_cache = {}
        man = F.byhand_cache.get(tr)
        if man is None:
            man = F.byhand_cache[tr] = any(
                i.get("trait") == tr and any(it[1] in F.bodies and not F.bodies[it[1]].get("from_expansion") for it in i["items"])
                for i in F.impls)
        if not man:
            return False
        seen = set()

        def walk(t):
            t = self.strip(t) if t is not None else None
            if t is None or t in seen:
                return False
            seen.add(t)
            if t[0] == "tuple":
                return any(walk(x) for x in t[1])
            if t[0] in ("array", "slice"):
                return walk(t[1])
            if t[0] != "adt":
                return False
            b = self.localimpl(tr, (t,), {"core::clone::Clone": "clone", "core::cmp::PartialEq": "eq",
                                          "core::cmp::Ord": "cmp", "core::cmp::PartialOrd": "partial_cmp"}[tr])
            if b is not None and not b.get("from_expansion"):
                return True
            if t[1].split("::")[-1] in ("Arc", "Rc", "Weak"):
                return False
            if any(walk(x) for x in t[2] if isinstance(x, tuple)):
                return True
            a = F.adts.get(t[1]) if b is not None else None
            if a is None:
                return False
            for v in a["variants"]:
                for f in v["fields"]:
                    if walk(F.ty(f["t"], dict(zip(a.get("generics", []), t[2])))):
                        return True
            return False
        return walk(t)

    def localimpl(self, tr, targs, name):
        I = self.I
        if not targs:
            return None
        for t in (targs[0], self.strip(targs[0])):
            fi = I.F.find_impl(tr, t, targs[1:])
            if fi is None and tr == "core::cmp::PartialEq":
                fi = I.F.find_impl(tr, t, (t,))
            if fi:
                for it in fi[0]["items"]:
                    if it[0] == name and it[1] in I.F.bodies:
                        return I.F.bodies[it[1]]
        return None

    # ------------------------------------------------------------ conversions
    def convert(self, st, v, frm, to):
        I = self.I
        f, t = self.strip(frm) if frm else None, self.strip(to) if to else None
        if t is None or f is None:
            return v
        if f == t:
            return v
        if self.isstr(t) and (self.isstr(f) or f[0] in ("param", "proj")):
            return v
        fi = I.F.find_impl("core::convert::From", t, (frm,)) or I.F.find_impl("core::convert::From", t, (f,))
        if fi:
            r = I.method(st, "core::convert::From", "from", t, [v], (frm,))
            if r is None:
                r = I.method(st, "core::convert::From", "from", t, [v], (f,))
            if r is not None:
                return r
        fi = I.F.find_impl("core::convert::Into", f, (t,))
        if fi:
            r = I.method(st, "core::convert::Into", "into", f, [v], (t,))
            if r is not None:
                return r
        if t[0] == "int":
            if f[0] == "bool":
                return truth(v)
            return v
        if t[0] == "char":
            return v
        if t[0] == "adt":
            p = t[1]
            if p == OPT and f[:2] != ("adt", OPT):
                return some(self.convert(st, v, f, t[2][0]) if t[2] else v)
            if self.isstr(t) and f[0] == "char":
                return chrstr(v)
            if p == "alloc::vec::Vec" and self.isstr(f):
                return tobytes(v)
            if p in ("alloc::vec::Vec", "alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", COW,
                     "alloc::collections::vec_deque::VecDeque"):
                return v
            if p in ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap"):
                return self.collect_map(v, "hash" in p)
            if p == "alloc::collections::btree::set::BTreeSet":
                return mk("btset", self.seq(v))
            r = self.xconvert(st, v, f, t)
            if r is not None:
                return r
        if t[0] in ("slice", "array"):
            return v
        if t[0] == "dyn":
            return v
        return mk("into", str(I.F.type_str(t)), v)

    def xconvert(self, st, v, f, t):
        return None

    def collect_map(self, v, hashed):
        log = seqbody(self.seq(v), lambda e: mk("put", self.I.field(e, None, 0), self.I.field(e, None, 1)))
        return mk("map", log, "hash") if hashed else mk("map", log)

    # ------------------------------------------------------------ collecting
    def collect(self, st, seqv, ty, ety=None):
        """build a value of type ty from a sequence"""
        I = self.I
        t = self.strip(ty)
        if t is None:
            return seqv
        if t[0] == "adt":
            p = t[1]
            if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::boxed::Box", "alloc::rcs::arc::Arc"):
                return seqv
            if p == "alloc::string::String" or p == COW:
                return strcat(self.tostrs(seqv, ety))
            if p == "alloc::collections::btree::set::BTreeSet":
                return mk("btset", seqv)
            if p == "std::collections::hash::set::HashSet":
                return mk("hset", seqv)
            if p in ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap"):
                return self.collect_map(seqv, "hash" in p)
            if p in (OPT, RES):
                return self.collect_try(st, seqv, t)
            r = self.xcollect(st, seqv, t)
            if r is not None:
                return r
        if t[0] == "tuple" and not t[1]:
            return UNIT
        return I.unk("collect:" + str(t[1] if len(t) > 1 else t), seqv)

    def xcollect(self, st, seqv, t):
        return None

    def tostrs(self, v, ety=None):
        """elements as strings (chars become one-character strings)"""
        ety = self.strip(ety) if ety else None
        if ety is not None and ety[0] == "char":
            return seqbody(v, chrstr)

        def code(x):
            """is x a character code (texts are never numbers)"""
            if x.op == "at":
                return all(code(g[1]) for g in x.a[0].a if g[0] == "e") and bool(x.a[0].a) if x.a[0].op == "vec" else rng(x) is not None
            return x.op in ("int", "lin", "div", "mod", "wrap", "bin") or (x.op == "elem" and x.a[0].op == "chars") or \
                (x.op == "typed" and rng(x) is not None)

        def f(x):
            if code(x) or x.op == "sel" and all(code(l) for l in leaves(x)):
                return chrstr(x)
            return x
        return seqbody(v, f)

    def collect_try(self, st, seqv, t):
        I = self.I
        isopt = t[1] == OPT
        key = I.newkey()
        st.mem[key] = VNIL

        def step(s, x):
            if isopt:
                c, p = self.optsplit(x)
                e = UNIT
            else:
                c, p, e = self.ressplit(x)
            ex = []
            pe = band(s.pc, bnot(c))
            if pe is not FALSE:
                s2 = s.copy()
                s2.pc = pe
                s2.mem[key] = e
                ex.append(("err", s2))
            s.pc = band(s.pc, c)
            if s.pc is FALSE:
                return None, ex
            s.mem[key] = vcat(s.mem[key], vec(E(p)))
            return s, ex
        pc0 = st.pc
        b, exits = I.drive(st.copy(), seqv, step)
        from interp import merge
        vals = []
        states = []
        if b is not None and b.pc is not FALSE:
            v = self.collect(b, b.mem[key], t[2][0])
            vals.append((b.pc, some(v) if isopt else ok(v)))
            states.append(b)
        for _, s2 in exits:
            if s2.pc is FALSE:
                continue
            vals.append((s2.pc, NONE if isopt else err(s2.mem[key])))
            states.append(s2)
        mm = merge(states)
        if mm is None:
            st.pc = FALSE
            return UNDEFS
        st.assign(mm)
        st.mem.pop(key, None)
        return select(vals)

    # ------------------------------------------------------------ iteration with a closure
    def accum(self, st, seqv, init, step):
        """run step(state, x, key) over seqv with an accumulator; -> (value, exits)"""
        I = self.I
        key = I.newkey()
        st.mem[key] = init

        def stp(s, x):
            return step(s, x, key)
        s0 = st.copy()
        b, exits = I.drive(s0, seqv, stp)
        return key, b, exits

    def finish(self, st, key, b, exits, val_b, val_x):
        """merge the normal end and the exits of accum"""
        from interp import merge
        vals, states = [], []
        if b is not None and b.pc is not FALSE:
            v = val_b(b)
            if b.pc is not FALSE:
                vals.append((b.pc, v))
                states.append(b)
        for tag, s2 in exits:
            if s2.pc is FALSE:
                continue
            vals.append((s2.pc, val_x(tag, s2)))
            states.append(s2)
        mm = merge(states)
        if mm is None:
            st.pc = FALSE
            return UNDEFS
        st.assign(mm)
        st.mem.pop(key, None)
        return select(vals)

    def mapseq_fn(self, st, seqv, f):
        """sequence of f(s, x) -> sequence"""
        def step(s, x, key):
            r = f(s, x)
            if s.pc is FALSE:
                return None, []
            s.mem[key] = vcat(s.mem[key], r)
            return s, []
        key, b, ex = self.accum(st, seqv, VNIL, step)
        return self.finish(st, key, b, ex, lambda s: s.mem[key], None)

    # ------------------------------------------------------------ fmt
    def fmt_value(self, st, kind, v, ty, flags=0, width=None, prec=None):
        """text written for v by the given formatting trait"""
        I = self.I
        t = self.strip(ty) if ty is not None else None
        v = I.deref(st, v)
        if kind in ("lower_hex", "upper_hex", "octal", "binary") or (t is not None and t[0] == "int"):
            base = {"lower_hex": 16, "upper_hex": 16, "octal": 8, "binary": 2}.get(kind, 10)
            w = width.a[0] if width is not None and width.op == "int" else 0
            if width is not None and width.op != "int":
                return mk("fmtdyn", v, width)
            zero = bool(flags >> 24 & 1)
            if w and not zero:
                fill = flags & 0x1FFFFF
                al = flags >> 29 & 3
                if fill != 32 or al not in (3, 1):
                    if fill == 48 and al == 1:
                        zero = True
                    else:
                        return mk("fmtpad", fdec(v), w, fill, al)
            r = fmtint(v, base, kind == "upper_hex", w, zero, bool(flags >> 21 & 1), bool(flags >> 23 & 1))
            return self.dateint(st, r)
        pad = (width is not None) or (prec is not None)
        r = None
        if kind in ("display",):
            if t is not None and t[0] == "char":
                r = chrstr(v)
            elif t is not None and t[0] == "bool":
                r = self.ite(truth(v), lit("true"), lit("false"))
            elif self.isstr(t):
                r = v
            else:
                r = self.display(st, v, ty, t, flags, width)
                if r is not None and r.op == "lit" and not pad:
                    return r
        if r is None:
            r = mk("fmt", kind, v)
        if pad:
            if r.op == "fmt":
                return r
            return mk("fmtpad", r, width if width is not None else UNIT, prec if prec is not None else UNIT, flags)
        return r

    def dateint(self, st, r):
        """{:08} of year*10000+month*100+day is the date in digits"""
        if r.op == "sel":
            return bind(r, lambda x: self.dateint(st, x))
        if r.op != "fmtint" or r.a[1:] != (10, False, 8, True, False, False) or r.a[0].op not in ("lin", "wrap"):
            return r
        l = r.a[0]
        while l.op == "wrap":
            l = l.a[0]
        if l.op != "lin" or l.a[0] != 0 or len(l.a[1]) != 3:
            return r
        d = {}
        for x, c in l.a[1]:
            while x.op in ("wrap", "typed"):
                x = x.a[0]
            d[x.op] = (x, c)
        if set(d) == {"year", "month", "day"} and d["year"][1] == 10000 and d["month"][1] == 100 and d["day"][1] == 1:
            ts = {x.a[0] for x, _ in d.values()}
            if len(ts) == 1:
                t = ts.pop()
                lo, hi = -62167219200, 253402300799
                if implies(st.pc, member(t, ((lo, hi),))):
                    return concat(mk("strf", "Y", t), mk("strf", "m", t), mk("strf", "d", t))
        return r

    def display(self, st, v, ty, t, flags, width):
        I = self.I
        for tt in (ty, t):
            if tt is None:
                continue
            if I.F.find_impl("core::fmt::Display", tt, ()):
                return self.run_fmt(st, "core::fmt::Display", tt, v)
        r = self.xdisplay(st, v, t)
        if r is not None:
            return r
        if t is not None and t[0] in ("param", "dyn", "proj"):
            return mk("fmt", "display", v)
        return None

    def run_fmt(self, st, tr, t, v):
        I = self.I
        key = I.newkey()
        st.mem[key] = EMPTY
        I.method(st, tr, "fmt", t, [v, I.ptr(key)])
        r = st.mem.pop(key, EMPTY)
        return r

    def xdisplay(self, st, v, t):
        return None

    def render(self, st, tmpl, args):
        """fmt::Arguments -> text; tmpl is the encoded template"""
        out = []
        i = 0
        k = 0
        b = tmpl
        while True:
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                out.append(lit(dec(bytes(b[i:i + c]))))
                i += c
                continue
            if c == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
                out.append(lit(dec(bytes(b[i:i + n]))))
                i += n
                continue
            flags = 0xE0000020
            width = prec = None
            idx = k
            if c & 1:
                flags = int.from_bytes(bytes(b[i:i + 4]), "little")
                i += 4
            if c & 2:
                width = INT(b[i] | b[i + 1] << 8)
                i += 2
            if c & 4:
                prec = INT(b[i] | b[i + 1] << 8)
                i += 2
            if c & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            if c & 16 and width is not None:
                width = self.argval(args[width.a[0]])
            if c & 32 and prec is not None:
                prec = self.argval(args[prec.a[0]])
            a = args[idx]
            k = idx + 1
            if a.op == "fmtarg":
                out.append(self.fmt_value(st, a.a[0], a.a[1], a.a[2], flags, width, prec))
            else:
                out.append(mk("fmt", "?", a))
        return concat(*out)

    def argval(self, a):
        return a.a[1] if a.op == "fmtarg" else a

    def fmtargs_text(self, st, a):
        """text of a fmt::Arguments value"""
        if a.op == "sel":
            return bind(a, lambda x: self.fmtargs_text(st, x))
        if a.op == "fmtargs":
            return a.a[0]
        return mk("fmt", "args", a)

    def append(self, st, p, s):
        """push text onto the string (or formatter) behind p"""
        I = self.I
        if p.op == "ptr":
            cur = I.readloc(st, p.a)
            if cur.op == "ptr":
                return self.append(st, cur, s)
            I.writeloc(st, p.a, bind(cur, lambda x: concat(x, s)))
        elif p.op == "sel":
            for c, x in leaves_pc(p):
                if x.op == "ptr":
                    old = I.readloc(st, x.a)
                    I.writeloc(st, x.a, self.ite(c, bind(old, lambda y: concat(y, s)), old))

    def update(self, st, p, f):
        I = self.I
        if p.op == "ptr":
            cur = I.readloc(st, p.a)
            if cur.op == "ptr":
                return self.update(st, cur, f)
            I.writeloc(st, p.a, bind(cur, f))
        elif p.op == "sel":
            for c, x in leaves_pc(p):
                if x.op == "ptr":
                    old = I.readloc(st, x.a)
                    I.writeloc(st, x.a, self.ite(c, bind(old, f), old))


def final_other(others, carries):
    return [k for k in others]


import std_models  # noqa: E402,F401  (registers the models)
