"""Models of serde and serde_json: JSON values as terms."""
import re
from terms import *
import terms as TM
from strings import *
from facts import int_range
from models import m, mx, Models

SJV = "serde_json::value::Value"
DE = "serde_core::de::Deserialize"
SER = "serde_core::ser::Serialize"
VIS_ = "serde_core::de::Visitor"


def liberr(kind, *a):
    return mk("liberr", kind, *a)


def jobj(pairs):
    """object with members; written in name order when the names are distinct literals"""
    sg = segs(pairs)
    if all(g[0] == "e" and g[1].op == "tuple" and g[1].a[0].op == "lit" for g in sg):
        names = [g[1].a[0].a[0] for g in sg]
        if len(set(names)) == len(names):
            return mk("jobj", vec(*sorted(sg, key=lambda g: g[1].a[0].a[0])))
    return mk("jobj", pairs)


TM.REBUILD["jobj"] = jobj
TM.WRAPS.update(["jobj", "jarr"])


# ================================================================ serialisation
def ser_any(self, st, v, ty):
    """JSON term for v: T (serialisation errors are reported as fail events)"""
    I = self.I
    v = I.deref(st, v)
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    if ty is None:
        return mk("jopaque", v)
    k = ty[0]
    if k == "str" or self.isstr(ty):
        return bind(v, lambda x: mk("jstr", x))
    if k == "int":
        return mk("jnum", v)
    if k == "bool":
        return self.ite(truth(v), mk("jbool", TRUE), mk("jbool", FALSE))
    if k == "char":
        return mk("jstr", chrstr(v))
    if k == "tuple":
        if not ty[1]:
            return mk("jnull")
        return mk("jarr", vec(*[E(ser_any(self, st, I.field(v, None, i), t)) for i, t in enumerate(ty[1])]))
    if k in ("slice", "array"):
        return ser_seq(self, st, v, ty[1])
    if k == "adt":
        p = ty[1]
        if p == OPT:
            s, x = self.optsplit(v, ty)
            return self.branch(st, s, lambda t: ser_any(self, t, x, ty[2][0]), lambda t: mk("jnull"))
        if p in ("alloc::vec::Vec", "alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet"):
            return ser_seq(self, st, v, ty[2][0])
        if p in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "alloc::borrow::Cow") and ty[2]:
            return ser_any(self, st, v, [x for x in ty[2] if x[0] != "const"][-1] if p.endswith("Cow") else ty[2][0])
        if p == SJV:
            return v
        if p in ("alloc::collections::btree::map::BTreeMap", "std::collections::hash::map::HashMap"):
            def f(s, e):
                kx = ser_any(self, s, I.field(e, None, 0), ty[2][0])
                vx = ser_any(self, s, I.field(e, None, 1), ty[2][1])
                return vec(E(tup(kx.a[0] if kx.op == "jstr" else kx, vx)))
            return jobj(self.mapseq_fn(st, self.seq(v), f))
        r = None
        if I.F.find_impl(SER, ty, ()):
            r = I.method(st, SER, "serialize", ty, [v, adt("$jser", 0)])
        if r is not None:
            o, x, e = self.ressplit(r)
            I.fallible(st, o, "serialisation")
            return x
    return mk("jopaque", v)


def ser_seq(self, st, v, ety):
    return mk("jarr", self.mapseq_fn(st, self.seq(v), lambda s, e: vec(E(ser_any(self, s, e, ety)))))


@mx(r"^serde_json::ser::(to_string|to_vec|to_string_pretty|to_vec_pretty|to_writer)$|^serde_json::value::(to_value)$")
def _(self, st, a, c):
    n = c.m.group(1) or c.m.group(2)
    if n == "to_writer":
        return None
    ty = c.atys[0]
    j = ser_any(self, st, a[0], ty)
    if n == "to_value":
        return ok(j)
    t = jtext(j, *(("pretty",) if n.endswith("pretty") else ()))
    return ok(t if n.startswith("to_string") else tobytes(t))


def jtext(j, *how):
    if j.op == "sel":
        return bind(j, lambda x: jtext(x, *how))
    return mk("jtext", j, *how)


@m("serde_core::ser::Serialize::serialize")
def _(self, st, a, c):
    ty = c.atys[0]
    if a[1].op == "adt" and a[1].a[0] == "$jser":
        return ok(ser_any(self, st, a[0], ty))
    return None


SR = r"^serde_core::ser::"


@mx(SR + r"Serializer::serialize_(str|u8|u16|u32|u64|i8|i16|i32|i64|bool|char|none|unit|some|newtype_struct|unit_variant|bytes)$")
def _(self, st, a, c):
    k = c.m.group(1)
    if k == "str":
        return ok(mk("jstr", a[1]))
    if k in ("none", "unit"):
        return ok(mk("jnull"))
    if k == "some":
        return ok(ser_any(self, st, a[1], c.atys[1]))
    if k == "newtype_struct":
        return ok(ser_any(self, st, a[2], c.atys[2]))
    if k == "unit_variant":
        return ok(mk("jstr", a[3]))
    if k == "bool":
        return ok(mk("jbool", a[1]))
    if k == "char":
        return ok(mk("jstr", chrstr(a[1])))
    if k == "bytes":
        return ok(mk("jopaque", a[1]))
    return ok(mk("jnum", a[1]))


@mx(SR + r"Serializer::collect_str$")
def _(self, st, a, c):
    return ok(mk("jstr", self.fmt_value(st, "display", a[1], c.atys[1])))


@mx(SR + r"Serializer::collect_seq$")
def _(self, st, a, c):
    ety = None
    return ok(mk("jarr", self.mapseq_fn(st, self.seq(a[1]), lambda s, e: vec(E(ser_any(self, s, e, ety))))))


@mx(SR + r"Serializer::serialize_(struct|map|seq|tuple|tuple_struct)$")
def _(self, st, a, c):
    k = c.m.group(1)
    return ok(adt("$jacc", 0 if k in ("struct", "map") else 1, VNIL, UNIT))


def acc(self, st, p, x):
    def f(v):
        if v.op != "adt":
            return v
        return adt("$jacc", v.a[1], vcat(v.a[2], vec(E(x))), v.a[3])
    self.update(st, p, f)


@mx(SR + r"Serialize(?:Struct|Map)::serialize_(field|entry)$", raw=True)
def _(self, st, a, c):
    I = self.I
    key = I.deref(st, a[1])
    if c.m.group(1) == "entry":
        j = ser_any(self, st, key, c.atys[1])
        key = j.a[0] if j.op == "jstr" else j
    acc(self, st, a[0], tup(key, ser_any(self, st, a[2], c.atys[2])))
    return ok(UNIT)


@mx(SR + r"SerializeStruct::skip_field$")
def _(self, st, a, c):
    return ok(UNIT)


@mx(SR + r"Serialize(?:Seq|Tuple|TupleStruct)::serialize_(element|field)$", raw=True)
def _(self, st, a, c):
    acc(self, st, a[0], ser_any(self, st, a[1], c.atys[1]))
    return ok(UNIT)


@mx(SR + r"Serialize\w+::end$")
def _(self, st, a, c):
    return ok(bind(a[0], lambda v: (jobj(v.a[2]) if v.a[1] == 0 else mk("jarr", v.a[2])) if v.op == "adt" else mk("jopaque", v)))


# ================================================================ deserialisation
# j terms: mk("json", text), mk("jm", j, name), mk("jat", j, n), mk("jkey", j, n), mk("jval", j, n), mk("jelem", elem)
KINDOF = {"jobj": "obj", "jarr": "arr", "jstr": "str", "jnum": "num", "jbool": "bool", "jnull": "null"}


def jcount(j):
    """number of members of a JSON text of known shape"""
    if j.op in ("jarr", "jobj") and j.a[0].op == "vec" and all(g[0] == "e" for g in segs(j.a[0])):
        return len(segs(j.a[0]))
    return None


def jknown(j):
    return j.op in KINDOF and (j.op not in ("jarr", "jobj") or jcount(j) is not None)


def jokp(self, kind, j, *a):
    """does the JSON value j have this shape"""
    if j.op == "sel":
        return bind(j, lambda x: jokp(self, kind, x, *a))
    if jknown(j):
        if kind == "jvalid":
            return TRUE
        if kind[1:] in JKINDS:
            return TRUE if j.op == kind else FALSE
        if kind == "jint":
            if j.op != "jnum":
                return FALSE
            return member(j.a[0], (int_range(a[0]),))
        if kind in ("jhas", "jhasn") and a[0].op == "int":
            n = jcount(j)
            return TRUE if n is not None and a[0].a[0] < n else FALSE
        if kind == "jhasm" and a[0].op == "lit" and j.op == "jobj":
            ns = [g[1].a[0] for g in segs(j.a[0])]
            if all(n.op == "lit" for n in ns):
                return TRUE if a[0] in ns else FALSE
        if kind == "jhasm" and j.op != "jobj":
            return FALSE
    if kind[1:] in JKINDS:
        return jkis(kind[1:], j)
    if kind == "jint":
        return band(jkis("num", j), self.okp(kind, j, *a))
    return self.okp(kind, j, *a)


def jget(op, j, *a):
    """part of a JSON value"""
    if j.op == "sel":
        return bind(j, lambda x: jget(op, x, *a))
    if jknown(j):
        if op in ("jstrv", "jintv", "jboolv") and j.op in ("jstr", "jnum", "jbool"):
            return j.a[0]
        if op == "jat" and j.op == "jarr" and a[0].op == "int" and a[0].a[0] < jcount(j):
            return segs(j.a[0])[a[0].a[0]][1]
        if op in ("jkey", "jvaln") and j.op == "jobj" and a[0].op == "int" and 0 <= a[0].a[0] < jcount(j):
            return segs(j.a[0])[a[0].a[0]][1].a[0 if op == "jkey" else 1]
        if op == "jm" and j.op == "jobj" and a[0].op == "lit":
            r = [g[1].a[1] for g in segs(j.a[0]) if g[1].a[0] is a[0]]
            if r:
                return r[-1]
    return mk(op, j, *a)


def retype(v, r):
    return v if v.op == "typed" and v.a[1] == r else TM._rb_typed(v, r)


def jis(self, kind, j):
    return jokp(self, "j" + kind, j)


def de(self, st, ty, j, root=False):
    """Result<T, E>"""
    I = self.I
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    if root:
        c = jis(self, "valid", j)
        r = self.branch(st, c, lambda t: de(self, t, ty, j), lambda t: err(liberr("serde_json::Error", "syntax")))
        o, _, _ = self.ressplit(r)
        I.fallible(st, o, "reading JSON")
        return r
    if ty is None:
        return ok(mk("jopaquede", j))
    k = ty[0]
    e = err(liberr("serde_json::Error", "type"))
    if k == "str" or self.isstr(ty):
        return self.ite(jis(self, "str", j), ok(jget("jstrv", j)), e)
    if k == "int":
        lo, hi = int_range(ty[1])
        return self.ite(jokp(self, "jint", j, ty[1]), ok(retype(jget("jintv", j), (lo, hi))), e)
    if k == "bool":
        return self.ite(jis(self, "bool", j), ok(truth(jget("jboolv", j))), e)
    if k == "tuple" and not ty[1]:
        return self.ite(jis(self, "null", j), ok(UNIT), e)
    if k == "adt":
        p = ty[1]
        if p == SJV:
            return ok(mk("jvalue", j))
        if p == OPT:
            return self.branch(st, jis(self, "null", j), lambda t: ok(NONE),
                               lambda t: self.resmap(t, de(self, t, ty[2][0], j), some))
        if p.endswith("IgnoredAny"):
            return ok(UNIT)
        if p in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::borrow::Cow") and ty[2]:
            return de(self, st, [x for x in ty[2] if x[0] != "const"][-1], j)
        if p == "alloc::vec::Vec":
            return self.branch(st, jis(self, "arr", j), lambda t: de_vec(self, t, ty, j), lambda t: e)
        if I.F.find_impl(DE, ty, ()):
            r = I.method(st, DE, "deserialize", ty, [adt("$de", 0, j)])
            if r is not None:
                return r
    o = self.okp("jde", j, I.F.type_str(ty))
    return self.ite(o, ok(mk("jdev", j, I.F.type_str(ty))), e)


Models.de = de


def resmap(self, st, r, f):
    o, x, e = self.ressplit(r)
    return self.ite(o, ok(f(x)), err(e))


Models.resmap = resmap


def de_vec(self, st, ty, j):
    I = self.I
    src = mk("jitems", j)
    x = mk("jelem", src)
    seqv = self.mapseq_fn(st, vec(("all", src)), lambda s, e: vec(E(de(self, s, ty[2][0], e))))
    return self.collect_try(st, seqv, ("adt", RES, (ty, ("opaque", "E"))))


def local_visitor(self, st, name, vty, args):
    r = self.I.method(st, VIS_, name, vty, args)
    return r


@mx(r"^serde_json::de::(from_str|from_slice|from_reader)$|^serde_json::value::(from_value)$")
def _(self, st, a, c):
    ty = None
    for t in c.targs or ():
        if t[0] not in ("const", "region"):
            ty = t
            break
    if c.rty is not None and c.rty[0] == "adt" and c.rty[1] == RES:
        ty = c.rty[2][0]
    if c.m.group(2):
        return de(self, st, ty, a[0])
    if c.m.group(1) == "from_reader" and a[0].op == "file":
        self.I.event("fs", st, "read", a[0])
        k = self.okp("readb", a[0])
        self.I.fallible(st, k, "read file")
        return self.branch(st, k, lambda t: de(self, t, ty, jsource(mk("text", a[0])), root=True),
                           lambda t: err(liberr("serde_json::Error", "io")))
    t = frombytes(a[0])
    if t is None:
        t = a[0]
    return de(self, st, ty, jsource(t), root=True)


def jsource(t):
    if t.op == "sel":
        return bind(t, jsource)
    return t.a[0] if t.op == "jtext" else mk("json", t)


def jde(a):
    return a.op == "adt" and a.a[0] in ("$de", "$dekey")


DS = r"^serde_core::de::Deserializer::deserialize_"


@mx(DS + r"(any|str|string|identifier|struct|seq|map|option|newtype_struct|tuple|u64|u32|i64|bool|ignored_any|u8|u16|i32)$", raw=True)
def _(self, st, a, c):
    I = self.I
    d = I.deref(st, a[0])
    k = c.m.group(1)
    vty = c.atys[-1]
    v = a[-1]
    if not jde(d):
        return None
    if d.a[0] == "$dekey":
        # an object key
        return local_visitor(self, st, "visit_str", vty, [v, d.a[2]])
    j = d.a[2]
    e = lambda t: err(liberr("serde_json::Error", "type"))
    if k in ("str", "string", "identifier"):
        return self.branch(st, jis(self, "str", j), lambda t: visit_text(self, t, vty, v, jget("jstrv", j)), e)
    if k == "struct":
        names = [x[1] for x in I.deref(st, a[2]).a] if I.deref(st, a[2]).op == "vec" else None
        if names is None or not all(n.op == "lit" for n in names):
            return None

        def asmap(t):
            key = I.newkey()
            t.mem[key] = mk("dacc", "$ma", 0, j, vec(*[E(n) for n in names]), INT(0), UNIT)
            return local_visitor(self, t, "visit_map", vty, [v, I.ptr(key)])
        return self.branch(st, jis(self, "obj", j), asmap,
                           lambda t: self.branch(t, jis(self, "arr", j), lambda t2: as_seq(self, t2, vty, v, j), e))
    if k in ("any", "seq", "map", "tuple"):
        def m_(t):
            key = I.newkey()
            t.mem[key] = mk("dacc", "$many", 0, j, INT(0))
            r = local_visitor(self, t, "visit_map", vty, [v, I.ptr(key)])
            if r is not None and jcount(j) is not None:
                # serde_json refuses members the visitor did not read
                return self.ite(unread(t.mem[key], j), err(liberr("serde_json::Error", "trailing")), r)
            return r if r is not None else e(t)

        def s_(t):
            return as_seq(self, t, vty, v, j)

        def t_(t):
            r = visit_text(self, t, vty, v, jget("jstrv", j))
            return r
        if k == "map":
            return self.branch(st, jis(self, "obj", j), m_, e)
        if k in ("seq", "tuple"):
            return self.branch(st, jis(self, "arr", j), s_, e)
        return self.branch(st, jis(self, "obj", j), m_, lambda t: self.branch(
            t, jis(self, "arr", j), s_, lambda t2: self.branch(t2, jis(self, "str", j), t_, e)))
    if k == "ignored_any":
        return ok(UNIT)
    if k in ("u64", "u32", "i64", "u8", "u16", "i32"):
        lo, hi = int_range("u64")
        return self.branch(st, jokp(self, "jint", j, "u64"),
                           lambda t: local_visitor(self, t, "visit_u64", vty, [v, retype(jget("jintv", j), (lo, hi))]) or e(t), e)
    return None


def visit_text(self, st, vty, v, x):
    for n in ("visit_str", "visit_string", "visit_borrowed_str"):
        r = local_visitor(self, st, n, vty, [v, x])
        if r is not None:
            return r
    return err(liberr("serde_json::Error", "type"))


def unread(x, j):
    """does the access state x leave members of j unread"""
    def f(y):
        if y.op in ("adt", "dacc"):
            return bind(y.a[3], lambda n: (TRUE if n.a[0] < jcount(j) else FALSE) if n.op == "int" else mk("okp", "jclosed", j))
        return mk("okp", "jclosed", j)
    return truth(bind(x, f))


def as_seq(self, st, vty, v, j):
    I = self.I
    key = I.newkey()
    st.mem[key] = adt("$sa", 0, j, INT(0))
    r = local_visitor(self, st, "visit_seq", vty, [v, I.ptr(key)])
    if r is None:
        return err(liberr("serde_json::Error", "type"))
    # serde_json refuses elements the visitor did not read
    o = self.okp("jclosed", j)
    if jcount(j) is not None:
        o = bnot(unread(st.mem[key], j))
    okc, x, ex = self.ressplit(r)
    return self.ite(band(okc, bnot(o)), err(liberr("serde_json::Error", "trailing")), r)


def accp(self, st, p):
    """ptr to the access state"""
    I = self.I
    while p.op == "ptr" and I.readloc(st, p.a).op == "ptr":
        p = I.readloc(st, p.a)
    return p


@mx(r"^serde_core::de::SeqAccess::(next_element)$", raw=True)
def _(self, st, a, c):
    I = self.I
    p = accp(self, st, a[0])
    s = I.deref(st, p)
    ty = None
    if c.rty is not None and c.rty[0] == "adt":
        t = c.rty[2][0]
        if t[0] == "adt" and t[1] == OPT:
            ty = t[2][0]

    def f(st, s):
        j, n = s.a[2], s.a[3]
        has = jokp(self, "jhas", j, n)

        def g(t):
            I.store(t, p, adt("$sa", 0, j, add(n, INT(1))))
            return self.resmap(t, de(self, t, ty, jget("jat", j, n)), some)
        return self.branch(st, has, g, lambda t: ok(NONE))
    if s.op == "adt":
        return f(st, s)
    return None


@mx(r"^serde_core::de::SeqAccess::(size_hint)$|^serde_core::de::MapAccess::(size_hint)$")
def _(self, st, a, c):
    return NONE


def next_key(self, st, p, kty, withval=None):
    I = self.I
    s = I.deref(st, p)
    if s.op == "sel":
        # several positions
        from interp import merge
        vals, states = [], []
        for cnd, x in list(leaves_pc(s)):
            s2 = st.copy()
            s2.pc = band(st.pc, cnd)
            if s2.pc is FALSE:
                continue
            I.store(s2, p, x)
            v = next_key(self, s2, p, kty)
            if s2.pc is FALSE:
                continue
            vals.append((s2.pc, v))
            states.append(s2)
        mm = merge(states)
        if mm is None:
            st.pc = FALSE
            return UNDEF
        st.assign(mm)
        return select(vals)
    if s.op != "dacc":
        return None
    j = s.a[2]
    if s.a[0] == "$ma":
        names, i = s.a[3], s.a[4]
        n = i.a[0]
        if n >= len(names.a):
            if n == len(names.a):
                other = jokp(self, "jother", j)

                def g(t):
                    I.store(t, p, mk("dacc", "$ma", 0, j, names, INT(n + 1), mk("jotherval", j)))
                    return self.resmap(t, de_key(self, t, kty, lit("\x00other")), some)
                return self.branch(st, other, g, lambda t: ok(NONE))
            return ok(NONE)
        nm = names.a[n][1]
        has = jokp(self, "jhasm", j, nm)

        def g(t):
            I.store(t, p, mk("dacc", "$ma", 0, j, names, INT(n + 1), jget("jm", j, nm)))
            return self.resmap(t, de_key(self, t, kty, nm), some)

        def h(t):
            I.store(t, p, mk("dacc", "$ma", 0, j, names, INT(n + 1), UNIT))
            return next_key(self, t, p, kty)
        return self.branch(st, has, g, h)
    if s.a[0] == "$many":
        n = s.a[3]
        has = jokp(self, "jhasn", j, n)

        def g(t):
            I.store(t, p, mk("dacc", "$many", 0, j, add(n, INT(1))))
            return self.resmap(t, de_key(self, t, kty, jget("jkey", j, n)), some)
        return self.branch(st, has, g, lambda t: ok(NONE))
    return None


UNDEF = mk("undef")


def de_key(self, st, kty, name):
    I = self.I
    while kty[0] == "ref":
        kty = kty[2]
    if self.isstr(kty) or kty[0] == "str":
        return ok(name)
    if I.F.find_impl(DE, kty, ()):
        r = I.method(st, DE, "deserialize", kty, [adt("$dekey", 0, name)])
        if r is not None:
            return r
    return ok(mk("jopaquede", name))


def optres(c):
    if c.rty is not None and c.rty[0] == "adt":
        t = c.rty[2][0]
        if t[0] == "adt" and t[1] == OPT:
            return t[2][0]
    return None


@mx(r"^serde_core::de::MapAccess::next_key$", raw=True)
def _(self, st, a, c):
    return next_key(self, st, accp(self, st, a[0]), optres(c))


@mx(r"^serde_core::de::MapAccess::next_value$", raw=True)
def _(self, st, a, c):
    I = self.I
    p = accp(self, st, a[0])
    ty = c.rty[2][0]

    def f(s):
        if s.op != "dacc":
            return None
        if s.a[0] == "$ma":
            return s.a[5]
        return jget("jvaln", s.a[2], sub(s.a[3], INT(1)))
    s = I.deref(st, p)
    jv = bind(s, f)
    if jv.op == "sel":
        from interp import merge
        vals, states = [], []
        for cnd, x in list(leaves_pc(jv)):
            s2 = st.copy()
            s2.pc = band(st.pc, cnd)
            if s2.pc is FALSE:
                continue
            v = de(self, s2, ty, x)
            if s2.pc is FALSE:
                continue
            vals.append((s2.pc, v))
            states.append(s2)
        mm = merge(states)
        if mm is None:
            st.pc = FALSE
            return UNDEF
        st.assign(mm)
        return select(vals)
    return de(self, st, ty, jv)


@mx(r"^serde_core::de::MapAccess::next_entry$", raw=True)
def _(self, st, a, c):
    I = self.I
    p = accp(self, st, a[0])
    t = optres(c)
    kty, vty = t[1]
    r = next_key(self, st, p, kty)
    o, k, e = self.ressplit(r)

    def g(t):
        s, kk = self.optsplit(k)

        def h(t):
            x = I.deref(t, p)
            jv = bind(x, lambda x: jget("jvaln", x.a[2], sub(x.a[3], INT(1))) if x.a[0] == "$many" else x.a[5])
            return self.resmap(t, de(self, t, vty, jv), lambda v: some(tup(kk, v)))
        return self.branch(t, s, h, lambda t: ok(NONE))
    return self.branch(st, o, g, lambda t: err(e))


@mx(r"^serde(?:_core)?::private::de::missing_field$|^serde_core::private::.*missing_field$")
def _(self, st, a, c):
    if c.rty is not None and c.rty[0] == "adt" and c.rty[2][0][0] == "adt" and c.rty[2][0][1] == OPT:
        return ok(NONE)
    return err(liberr("serde_json::Error", "missing field"))


@mx(r"^serde_core::(?:de|ser)::Error::(\w+)$")
def _(self, st, a, c):
    return liberr("serde_json::Error", c.m.group(1))


# ---- serde_json::Value
def jof(v):
    """the JSON value behind a serde_json::Value"""
    if v.op == "jvalue":
        return v.a[0]
    return v if v.op in KINDOF else None


def jv_field(self, v, variant):
    """payload of a serde_json::Value matched as this variant"""
    j = jof(v)
    if j is None or variant is None:
        return None
    if jknown(j) and JKINDS[KINDOF[j.op]] != variant:
        return UNDEF
    if variant == 1:
        return truth(jget("jboolv", j))
    if variant == 2:
        return mk("jnumber", j)
    if variant == 3:
        return jget("jstrv", j)
    if variant == 4:
        return mk("jitems", j)
    if variant == 5:
        return mk("jmap", j)
    return None


def jv_discr(v):
    j = jof(v)
    if j is None:
        return None
    return INT(JKINDS[KINDOF[j.op]]) if jknown(j) else mk("jkind", j)


def jv_make(variant, fs):
    """serde_json::Value built in the code"""
    if variant == 0:
        return mk("jnull")
    x = fs[0] if fs else None
    if variant == 1:
        return bind(x, lambda b: mk("jbool", truth(b)))
    if variant == 2 and x.op == "jnumber":
        return x.a[0]
    if variant == 3:
        return bind(x, lambda s: mk("jstr", s))
    if variant == 4:
        if x.op == "jitems":
            return mk("jvalue", x.a[0])
        return bind(x, lambda s: mk("jarr", s)) if seqlike(x) else None
    if variant == 5 and x.op == "jmap":
        return x.a[0] if x.a[0].op in KINDOF else mk("jvalue", x.a[0])
    return None


@mx(r"^serde_json::map::Map::(new|with_capacity)$")
def _(self, st, a, c):
    return mk("jmap", mk("jobj", VNIL))


@mx(r"^serde_json::map::Map::insert$", raw=True)
def _(self, st, a, c):
    m_ = self.I.deref(st, a[0])
    k, v = self.I.deref(st, a[1]), self.I.deref(st, a[2])
    if m_.op != "jmap" or m_.a[0].op != "jobj" or k.op != "lit" or jof(v) is None:
        return None
    old = segs(m_.a[0].a[0])
    if not all(g[0] == "e" and g[1].op == "tuple" and g[1].a[0].op == "lit" for g in old):
        return None
    was = [g for g in old if g[1].a[0] is k]
    self.update(st, a[0], lambda m0: mk("jmap", jobj(vec(*[g for g in old if g[1].a[0] is not k], E(tup(k, jof(v)))))))
    return some(was[0][1].a[1]) if was else NONE


@mx(r"^serde_json::number::Number::from$")
def _(self, st, a, c):
    return mk("jnumber", mk("jnum", a[0]))


@mx(r"^serde_json::value::Value::(as_object|as_str|as_array|as_u64|as_i64|as_bool|is_string|is_object|is_null|is_array|is_number)$")
def _(self, st, a, c):
    n = c.m.group(1)

    def f(v):
        j = jof(v)
        if j is None:
            return mk("jvget", n, v)
        if n == "as_str":
            return self.someif(jis(self, "str", j), jget("jstrv", j))
        if n == "as_object":
            return self.someif(jis(self, "obj", j), mk("jmap", j))
        if n == "as_array":
            return self.someif(jis(self, "arr", j), mk("jitems", j))
        if n in ("as_u64", "as_i64"):
            return self.someif(jokp(self, "jint", j, n[3:]), retype(jget("jintv", j), int_range(n[3:])))
        if n == "as_bool":
            return self.someif(jis(self, "bool", j), truth(jget("jboolv", j)))
        return jis(self, {"is_string": "str", "is_object": "obj", "is_null": "null", "is_array": "arr", "is_number": "num"}[n], j)
    return bind(a[0], f)


@mx(r"^serde_json::value::Value::(get|pointer)$")
def _(self, st, a, c):
    k = a[1]
    if c.m.group(1) == "pointer":
        if k.op != "lit" or k.a[0].count("/") != 1 or not k.a[0].startswith("/") or "~" in k.a[0]:
            return None
        k = lit(k.a[0][1:])

    def f(v):
        j = jof(v)
        if j is None:
            return mk("jvget", "get", v, k)
        return self.someif(band(jis(self, "obj", j), jokp(self, "jhasm", j, k)), mk("jvalue", jget("jm", j, k)))
    return bind(a[0], f)


@mx(r"^serde_json::map::Map::(get|contains_key|remove)$")
def _(self, st, a, c):
    k = a[1]

    def f(v):
        if v.op != "jmap":
            return mk("jmget", v, k)
        o = jokp(self, "jhasm", v.a[0], k)
        return o if c.m.group(1) == "contains_key" else self.someif(o, mk("jvalue", jget("jm", v.a[0], k)))
    return bind(a[0], f)


def key_set(src, c):
    """names of members for which the condition on elem(src), a name of an object's member, holds; None: no small set"""
    e = elem(src)
    if c.op != "sel" or c.a[0] is not e:
        return None
    out = set()
    for s, x in c.a[1]:
        if x is FALSE:
            continue
        if x is not TRUE or not isinstance(s, SS) or not s.pos or len(s.s) > 8:
            return None
        out |= s.s
    return out


def any_key(src, c):
    """some member of the object is named so"""
    ns = key_set(src, c)
    if ns is None:
        return None
    r = FALSE
    for n in sorted(ns):
        r = bor(r, jokp(OKP, "jhasm", src.a[0], lit(n)))
    return r


class OKP:
    @staticmethod
    def okp(kind, *a):
        return truth(mk("okp", kind, *a))


TM.ANYSRC["jkeys"] = any_key


def first_key(src, c):
    ns = key_set(src, c)
    return lit(list(ns)[0]) if ns is not None and len(ns) == 1 else None


TM.FIRSTSRC["jkeys"] = first_key


@mx(r"^serde_json::map::Map::(iter|keys|values)$|^<&?serde_json::map::Map as core::iter::traits::collect::IntoIterator>::into_iter$")
def _(self, st, a, c):
    n = c.m.group(1) or "iter"

    def f(v):
        if v.op != "jmap":
            return mk("jmiter", v)
        k = mk("jkeys", v.a[0])
        val = mk("jvalue", jget("jm", v.a[0], elem(k)))
        return mk("iter", mk("jkeys", v.a[0]) if n == "keys" else vec(("each", k, vec(E(tup(elem(k), val) if n == "iter" else val)))))
    return bind(a[0], f)


@m("<serde_json::value::Value as core::ops::index::Index>::index")
def _(self, st, a, c):
    k = a[1]
    if k.op != "lit":
        return None

    def f(v):
        j = jof(v)
        if j is None:
            return mk("jvget", "index", v, k)
        o = band(jis(self, "obj", j), jokp(self, "jhasm", j, k))
        return self.ite(o, mk("jvalue", jget("jm", j, k)), mk("jnull"))
    return bind(a[0], f)


# matching on a Value: Null Bool Number String Array Object
JV = ["null", "bool", "number", "str", "arr", "obj"]
