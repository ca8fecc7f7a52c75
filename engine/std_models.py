"""Models of core / alloc / std functions."""
from terms import *
import terms as TM
import strings as S
from strings import *
from facts import int_range, INTS
import models as MM
from models import m, mx, ORD, POLL, CF, COW, DUR, SYSTIME, NS, SYSRANGE, NOWRANGE

O = "core::option::Option::"
R = "core::result::Result::"
IT = "core::iter::traits::iterator::Iterator::"
INTN = r"(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)"


def ident(self, st, a, c):
    return a[0]


def rawid(self, st, a, c):
    return a[0]


# ================================================================ panics
@mx(r"^core::panicking::|^std::rt::begin_panic|^core::option::(unwrap_failed|expect_failed)|^core::result::unwrap_failed|^std::process::(abort|exit)|^alloc::alloc::handle_alloc_error|^core::intrinsics::(abort|unreachable)")
def _panic(self, st, a, c):
    if c.path.endswith("unreachable_default_msg"):
        return mk("const", "unreachable")
    if c.path == "core::intrinsics::unreachable":
        st.pc = FALSE
        return UNDEFS
    self.I.panic(st, TRUE, c.path.split("::")[-1] + " " + (show(a[0], 3) if a else ""))
    return UNDEFS


# ================================================================ Option
@m(O + "map")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: some(self.call(t, a[1], p)), lambda t: NONE)


@m(O + "and_then")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: self.call(t, a[1], p), lambda t: NONE)


@m(O + "map_or")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: self.call(t, a[2], p), lambda t: a[1])


@m(O + "map_or_else")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: self.call(t, a[2], p), lambda t: self.call(t, a[1]))


@m(O + "is_some_and")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: truth(self.call(t, a[1], p)), lambda t: FALSE)


@m(O + "is_none_or")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: truth(self.call(t, a[1], p)), lambda t: TRUE)


@m(O + "filter")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])

    def f(t):
        r = truth(self.call(t, a[1], p))
        return self.someif(r, p)
    return self.branch(st, s, f, lambda t: NONE)


@m(O + "inspect", R + "inspect", R + "inspect_err")
def _(self, st, a, c):
    return a[0]


@m(O + "unwrap_or")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.ite(s, p, a[1])


@m(O + "unwrap_or_else")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: p, lambda t: self.call(t, a[1]))


@m(O + "unwrap_or_default")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: p, lambda t: default(self, t, c.rty))


@m(O + "unwrap", O + "expect", O + "unwrap_unchecked")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    self.I.panic(st, bnot(s), "expect on None" + ((": " + a[1].a[0]) if len(a) > 1 and a[1].op == "lit" else ""))
    return p


@m(O + "ok_or")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.okif(s, p, a[1])


@m(O + "ok_or_else")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    return self.branch(st, s, lambda t: ok(p), lambda t: err(self.call(t, a[1])))


@m(O + "is_some")
def _(self, st, a, c):
    return self.optsplit(a[0], c.atys[0])[0]


@m(O + "is_none")
def _(self, st, a, c):
    return bnot(self.optsplit(a[0], c.atys[0])[0])


@m(O + "or")
def _(self, st, a, c):
    return self.ite(self.optsplit(a[0], c.atys[0])[0], a[0], a[1])


@m(O + "or_else")
def _(self, st, a, c):
    return self.branch(st, self.optsplit(a[0], c.atys[0])[0], lambda t: a[0], lambda t: self.call(t, a[1]))


@m(O + "and")
def _(self, st, a, c):
    return self.ite(self.optsplit(a[0], c.atys[0])[0], a[1], NONE)


@m(O + "xor")
def _(self, st, a, c):
    x = self.optsplit(a[0], c.atys[0])[0]
    y = self.optsplit(a[1], c.atys[1])[0]
    return self.ite(band(x, bnot(y)), a[0], self.ite(band(y, bnot(x)), a[1], NONE))


@m(O + "zip")
def _(self, st, a, c):
    x, p = self.optsplit(a[0], c.atys[0])
    y, q = self.optsplit(a[1], c.atys[1])
    return self.someif(band(x, y), tup(p, q))


@m(O + "flatten")
def _(self, st, a, c):
    x, p = self.optsplit(a[0], c.atys[0])
    return self.ite(x, p, NONE)


@m(O + "as_ref", O + "as_deref", O + "cloned", O + "copied", R + "as_ref", R + "as_deref", R + "cloned", R + "copied")
def _(self, st, a, c):
    return a[0]


@m(O + "transpose")
def _(self, st, a, c):
    s, p = self.optsplit(a[0], c.atys[0])
    k, v, e = self.ressplit(p)
    return self.ite(s, self.okif(k, some(v), e), ok(NONE))


@m(R + "transpose")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    s, p = self.optsplit(v)
    return self.ite(k, self.someif(s, ok(p)), some(err(e)))


@m(O + "as_mut", O + "as_deref_mut", raw=True)
def _(self, st, a, c):
    p = a[0]
    I = self.I
    if p.op != "ptr":
        return I.deref(st, p)
    v = I.readloc(st, p.a)
    while v.op == "ptr":
        p = v
        v = I.readloc(st, p.a)
    t = self.strip(c.atys[0])
    pt = t[2][0] if t[0] == "adt" and t[2] else None
    s, _ = self.optsplit(v, t)
    return self.someif(s, I.ptr(p.a[0], p.a[1] + (("f", 1, 0, pt),)))


@m(O + "take", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    self.I.write(st, a[0], NONE)
    return v


@m(O + "replace", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    self.I.write(st, a[0], some(a[1]))
    return v


@m(O + "insert", O + "get_or_insert", O + "get_or_insert_with", raw=True)
def _(self, st, a, c):
    I = self.I
    nm = c.path.split("::")[-1]
    v = I.deref(st, a[0])
    s, p = self.optsplit(v, self.strip(c.atys[0]))
    if nm == "insert":
        new = some(a[1])
    elif nm == "get_or_insert":
        new = self.ite(s, v, some(a[1]))
    else:
        new = self.branch(st, s, lambda t: v, lambda t: some(self.call(t, a[1])))
    I.write(st, a[0], new)
    if a[0].op == "ptr":
        return I.ptr(a[0].a[0], a[0].a[1] + (("f", 1, 0, None),))
    return self.variant(new, 1, 0)


@m(O + "take_if", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    k, p = self.optsplit(v, self.strip(c.atys[0]))
    q = self.I.ptr(a[0].a[0], a[0].a[1] + (("f", 1, 0, None),)) if a[0].op == "ptr" else p
    t = truth(self.branch(st, k, lambda t: truth(self.call(t, a[1], q)), lambda t: FALSE))

    def gone(u):
        x = self.I.deref(u, a[0])
        self.I.write(u, a[0], NONE)
        return x
    return self.branch(st, t, gone, lambda u: NONE)


@m(O + "unzip")
def _(self, st, a, c):
    k, p = self.optsplit(a[0])
    return tup(self.someif(k, self.I.field(p, None, 0)), self.someif(k, self.I.field(p, None, 1)))


@m(R + "is_err_and")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: FALSE, lambda t: truth(self.call(t, a[1], e)))


@m(R + "flatten")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.ite(k, v, err(e))


# ================================================================ Result
@m(R + "map")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: ok(self.call(t, a[1], v)), lambda t: err(e))


@m(R + "map_err")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: ok(v), lambda t: err(self.call(t, a[1], e)))


@m(R + "and_then")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: self.call(t, a[1], v), lambda t: err(e))


@m(R + "or_else")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: ok(v), lambda t: self.call(t, a[1], e))


@m(R + "map_or")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: self.call(t, a[2], v), lambda t: a[1])


@m(R + "map_or_else")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: self.call(t, a[2], v), lambda t: self.call(t, a[1], e))


@m(R + "is_ok_and")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: truth(self.call(t, a[1], v)), lambda t: FALSE)


@m(R + "and")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.ite(k, a[1], err(e))


@m(R + "or")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.ite(k, ok(v), a[1])


@m(R + "ok")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.someif(k, v)


@m(R + "err")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.someif(bnot(k), e)


@m(R + "is_ok")
def _(self, st, a, c):
    return self.ressplit(a[0], c.atys[0])[0]


@m(R + "is_err")
def _(self, st, a, c):
    return bnot(self.ressplit(a[0], c.atys[0])[0])


@m(R + "unwrap", R + "expect")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    self.I.panic(st, bnot(k), "expect on Err" + ((": " + a[1].a[0]) if len(a) > 1 and a[1].op == "lit" else ""))
    return v


@m(R + "unwrap_err", R + "expect_err")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    self.I.panic(st, k, "expect_err on Ok")
    return e


@m(R + "unwrap_or")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.ite(k, v, a[1])


@m(R + "unwrap_or_else")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: v, lambda t: self.call(t, a[1], e))


@m(R + "unwrap_or_default")
def _(self, st, a, c):
    k, v, e = self.ressplit(a[0], c.atys[0])
    return self.branch(st, k, lambda t: v, lambda t: default(self, t, c.rty))


@m("core::ops::try_trait::Try::branch")
def _(self, st, a, c):
    t = self.strip(c.atys[0])
    if t[0] == "adt" and t[1] == OPT:
        s, p = self.optsplit(a[0], t)
        return self.ite(s, adt(CF, 0, p), adt(CF, 1, NONE))
    k, v, e = self.ressplit(a[0], t)
    return self.ite(k, adt(CF, 0, v), adt(CF, 1, err(e)))


@m("core::ops::try_trait::Try::from_output")
def _(self, st, a, c):
    t = self.strip(c.rty)
    return some(a[0]) if t and t[:2] == ("adt", OPT) else ok(a[0])


@m("core::ops::try_trait::FromResidual::from_residual")
def _(self, st, a, c):
    t = self.strip(c.rty)
    if t[0] == "adt" and t[1] == OPT:
        return NONE
    e = self.variant(a[0], 1, 0)
    f = self.strip(c.atys[0])
    if f[0] == "adt" and len(f[2]) > 1 and t[0] == "adt" and len(t[2]) > 1:
        e = self.convert(st, e, f[2][1], t[2][1])
    return err(e)


# ================================================================ transparent conversions
for _p in ["core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
           "alloc::string::String::as_str", "alloc::string::String::as_mut_str", "alloc::string::String::into_boxed_str", "alloc::borrow::Cow::into_owned",
           "alloc::borrow::ToOwned::to_owned", "alloc::vec::Vec::as_slice", "slice::to_vec", "slice::into_vec",
           "alloc::rcs::arc::Arc::new", "alloc::rcs::rc::Rc::new", "alloc::boxed::Box::new", "alloc::boxed::Box::pin",
           "alloc::rcs::arc::Arc::clone", "core::pin::Pin::new", "core::pin::Pin::new_unchecked", "core::hint::must_use",
           "core::future::into_future::IntoFuture::into_future", "core::hint::black_box", "core::convert::identity",
           "alloc::vec::Vec::into_boxed_slice", "core::iter::traits::iterator::Iterator::cloned",
           "core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::fuse",
           "std::path::Path::new", "std::path::Path::to_path_buf", "core::mem::manually_drop::ManuallyDrop::new",
           "str::to_owned", "str::into_string", "core::array::as_slice", "array::as_slice", "alloc::boxed::box_new",
           "core::iter::traits::iterator::Iterator::inspect", "alloc::str::to_owned", "str::into_boxed_str",
           "alloc::boxed::Box::into_pin", "core::time::Duration::clone", "core::cell::RefCell::new", "core::cell::Cell::new",
           "core::str::as_str", "slice::as_ref", "alloc::boxed::Box::into_inner"]:
    m(_p)(ident)

@m("core::ops::deref::DerefMut::deref_mut", "core::ops::deref::Deref::deref", raw=True)
def _(self, st, a, c):
    p = a[0]
    mut = c.path.endswith("mut")
    if p.op == "ptr":
        v = self.I.readloc(st, p.a)
        n = 0
        while v.op == "ptr" and n < 10:
            p, v, n = v, self.I.readloc(st, v.a), n + 1
        if v.op == "guard":
            return mk("ptr", v.a[0], ())
        if v.op == "mutex" and v.a[1] == "lazy" and not mut:
            from statics import force
            return force(self, st, v.a[0])
        return p if mut else self.I.deref(st, v)
    if p.op == "guard":
        return mk("ptr", p.a[0], ())
    if p.op == "mutex" and p.a[1] == "lazy" and not mut:
        from statics import force
        return force(self, st, p.a[0])
    return p if mut else self.I.deref(st, p)


for _p in ["core::convert::AsMut::as_mut", "core::borrow::BorrowMut::borrow_mut",
           "alloc::vec::Vec::as_mut_slice", "core::pin::Pin::as_mut", "core::pin::Pin::get_mut", "core::iter::traits::iterator::Iterator::by_ref",
           "slice::as_mut_slice", "core::pin::Pin::get_unchecked_mut", "core::pin::Pin::as_ref", "alloc::boxed::Box::as_mut",
           "core::pin::Pin::into_inner", "core::pin::Pin::map_unchecked_mut"]:
    m(_p, raw=True)(rawid)


@m("core::convert::Into::into", "core::convert::From::from", raw=True)
def _(self, st, a, c):
    v = a[0]
    if c.path.endswith("into"):
        frm, to = c.targs[0], c.targs[1] if len(c.targs) > 1 else c.rty
    else:
        to, frm = c.targs[0], c.targs[1] if len(c.targs) > 1 else c.atys[0]
    if frm is not None and frm[0] == "ref" and not frm[1]:
        v = self.I.deref(st, v)
    return self.convert(st, v, frm, to)


@m("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def _(self, st, a, c):
    if c.path.endswith("try_into"):
        frm, to = c.targs[0], c.targs[1]
    else:
        to, frm = c.targs[0], c.targs[1]
    fi = self.I.F.find_impl("core::convert::TryFrom", to, (frm,))
    if fi:
        r = self.I.method(st, "core::convert::TryFrom", "try_from", to, [a[0]], (frm,))
        if r is not None:
            return r
    f, t = self.strip(frm), self.strip(to)
    if t[0] == "int" and f[0] in ("int", "char"):
        lo, hi = int_range(t[1])
        k = member(a[0], ((lo, hi),))
        self.I.fallible(st, k, "integer conversion to " + t[1])
        return self.okif(k, a[0], mk("err", "TryFromIntError"))
    r = self.xtryfrom(st, a[0], f, t)
    if r is not None:
        return r
    k = self.okp("into", str(t), a[0])
    self.I.fallible(st, k, "conversion")
    return self.okif(k, mk("into", str(t[1] if len(t) > 1 else t), a[0]), mk("err", "convert", a[0]))


MM.Models.xtryfrom = lambda self, st, v, f, t: None


def default(self, st, ty):
    t = self.strip(ty)
    if t is None:
        return UNDEFS
    if t[0] == "int" or t[0] == "bool" or t[0] == "char":
        return INT(0)
    if t[0] == "str":
        return EMPTY
    if t[0] == "tuple":
        return tup(*[default(self, st, x) for x in t[1]])
    if t[0] == "adt":
        p = t[1]
        r = self.I.method(st, "core::default::Default", "default", t, [])
        if r is not None:
            return r
        if p == "alloc::string::String" or (p == COW and self.isstr(t)):
            return EMPTY
        if p in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
            return VNIL
        if p == OPT:
            return NONE
        if p == DUR:
            return INT(0)
        if p == "alloc::collections::btree::map::BTreeMap":
            return mk("map", VNIL)
        if p == "std::collections::hash::map::HashMap":
            return mk("map", VNIL, "hash")
        if p == "alloc::collections::btree::set::BTreeSet":
            return mk("btset", VNIL)
        if p == "std::collections::hash::set::HashSet":
            return mk("hset", VNIL)
        if p in ("alloc::boxed::Box", "alloc::rcs::arc::Arc") and t[2]:
            return default(self, st, t[2][0])
        r = self.xdefault(st, t)
        if r is not None:
            return r
    return mk("default", str(t))


MM.Models.xdefault = lambda self, st, t: None


@m("core::default::Default::default")
def _(self, st, a, c):
    return default(self, st, c.rty if c.rty is not None else c.targs[0])


@m("core::mem::take", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    self.I.write(st, a[0], default(self, st, c.targs[0]))
    return v


@m("core::mem::replace", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    self.I.write(st, a[0], a[1])
    return v


@m("core::mem::swap", raw=True)
def _(self, st, a, c):
    x, y = self.I.deref(st, a[0]), self.I.deref(st, a[1])
    self.I.write(st, a[0], y)
    self.I.write(st, a[1], x)
    return UNIT


@m("core::mem::drop", "core::mem::forget", raw=True)
def _(self, st, a, c):
    self.I.dropv(st, a[0])
    return UNIT


@m("core::intrinsics::discriminant_value", "core::mem::discriminant")
def _(self, st, a, c):
    return self.I.discr_t(a[0], self.strip(c.atys[0]))


@m("core::intrinsics::likely", "core::intrinsics::unlikely", "core::intrinsics::cold_path", "core::intrinsics::assume")
def _(self, st, a, c):
    return a[0] if a else UNIT


# ================================================================ Ordering
@mx(r"^core::cmp::Ordering::(\w+)$")
def _(self, st, a, c):
    n = c.m.group(1)
    if n == "reverse":
        return mulc(a[0], -1)
    if n == "then":
        return self.thenc(a[0], a[1])
    if n == "then_with":
        return self.branch(st, member(a[0], s_point(0)), lambda t: self.call(t, a[1]), lambda t: a[0])
    s = {"is_eq": s_point(0), "is_ne": ((-1, -1), (1, 1)), "is_lt": s_point(-1), "is_gt": s_point(1),
         "is_le": s_range(-1, 0), "is_ge": s_range(0, 1)}.get(n)
    if s:
        return member(a[0], s)
    return None


@m("core::cmp::max", "core::cmp::min")
def _(self, st, a, c):
    r = self.cmp3(a[0], a[1])
    return self.ordop(c.path.split("::")[-1], r, a)


# ================================================================ strings
@m("alloc::string::String::new", "alloc::string::String::with_capacity")
def _(self, st, a, c):
    return EMPTY


@m("alloc::string::String::push_str", "core::fmt::Write::write_str", "core::fmt::Formatter::write_str", raw=True)
def _(self, st, a, c):
    self.append(st, a[0], self.I.deref(st, a[1]))
    return UNIT if c.path.endswith("push_str") else ok(UNIT)


@m("alloc::string::String::push", "core::fmt::Write::write_char", "core::fmt::Formatter::write_char", raw=True)
def _(self, st, a, c):
    self.append(st, a[0], chrstr(self.I.deref(st, a[1])))
    return UNIT if c.path.endswith("push") else ok(UNIT)


@m("alloc::string::String::extend_from_within")
def _(self, st, a, c):
    return None


@m("alloc::string::String::clear", raw=True)
def _(self, st, a, c):
    self.I.write(st, a[0], EMPTY)
    return UNIT


@m("alloc::string::String::insert_str", "alloc::string::String::insert", raw=True)
def _(self, st, a, c):
    s = self.I.deref(st, a[2])
    if c.path.endswith("::insert"):
        s = chrstr(s)
    i = self.I.deref(st, a[1])

    def f(x):
        if i is INT(0):
            return concat(s, x)
        if i is self.length(x):
            return concat(x, s)
        return mk("strinsert", x, i, s)
    self.update(st, a[0], f)
    return UNIT


@m("alloc::string::String::pop", raw=True)
def _(self, st, a, c):
    x = self.I.deref(st, a[0])
    e = is_empty(x)

    def cut(y):
        ps = str_parts(y)
        if ps and ps[-1].op == "lit":
            return concat(*ps[:-1], lit(ps[-1].a[0][:-1]))
        if y.op == "eachstr" and str_parts(y.a[1]) and str_parts(y.a[1])[-1].op == "lit" and len(str_parts(y.a[1])[-1].a[0]) == 1:
            b = str_parts(y.a[1])
            sep = b[-1]
            body = concat(*b[:-1])
            if not contains(body, mk("idx", y.a[0])):
                return join(vec(("each", y.a[0], vec(E(body)))), sep)
        return mk("strpop", y)
    self.I.write(st, a[0], self.ite(e, EMPTY, bind(x, cut)))
    return self.someif(bnot(e), mk("lastchar", x))


@m("alloc::string::String::truncate", raw=True)
def _(self, st, a, c):
    n = self.I.deref(st, a[1])

    def f(y):
        d = TM.sub(self.length(y), n)
        if d.op == "int" and d.a[0] <= 0:
            return y
        ps = str_parts(y)
        if d.op == "int" and ps and ps[-1].op == "lit" and len(ps[-1].a[0]) >= d.a[0]:
            return concat(*ps[:-1], lit(ps[-1].a[0][:-d.a[0]]))
        return mk("strcut", y, n)
    self.update(st, a[0], f)
    return UNIT


@m("alloc::string::String::reserve", "alloc::vec::Vec::reserve", "alloc::string::String::shrink_to_fit",
   "alloc::vec::Vec::shrink_to_fit", "alloc::vec::Vec::reserve_exact", raw=True)
def _(self, st, a, c):
    return UNIT


@m("alloc::string::String::is_empty", "str::is_empty", "slice::is_empty", "alloc::vec::Vec::is_empty",
   "alloc::collections::vec_deque::VecDeque::is_empty", "alloc::collections::btree::set::BTreeSet::is_empty",
   "alloc::collections::btree::map::BTreeMap::is_empty", "std::collections::hash::map::HashMap::is_empty",
   "std::collections::hash::set::HashSet::is_empty", "core::iter::traits::exact_size::ExactSizeIterator::is_empty")
def _(self, st, a, c):
    return is_empty(bind(a[0], lambda x: self.seq(x) if x.op in ("map", "btset", "hset", "iter") else x))


@m("alloc::string::String::len", "str::len", "slice::len", "alloc::vec::Vec::len",
   "alloc::collections::vec_deque::VecDeque::len", "alloc::collections::btree::set::BTreeSet::len",
   "alloc::collections::btree::map::BTreeMap::len", "core::iter::traits::exact_size::ExactSizeIterator::len",
   "std::collections::hash::map::HashMap::len")
def _(self, st, a, c):
    return self.length(a[0])


@m("str::as_bytes", "alloc::string::String::as_bytes", "alloc::string::String::into_bytes", "str::into_boxed_bytes",
   "alloc::string::String::as_mut_vec")
def _(self, st, a, c):
    return tobytes(a[0])


@m("str::bytes")
def _(self, st, a, c):
    return mk("iter", self.seq(tobytes(a[0])))


@m("str::chars")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("iter", charseq(x)))


def charseq(x):
    if x.op == "lit":
        return vec(*[E(INT(ord(ch))) for ch in x.a[0]])
    return mk("chars", x)


@m("str::char_indices")
def _(self, st, a, c):
    def f(x):
        if x.op == "lit":
            i = 0
            out = []
            for ch in x.a[0]:
                out.append(E(tup(INT(i), INT(ord(ch)))))
                i += len(enc(ch))
            return mk("iter", vec(*out))
        s = mk("chars", x)
        return mk("iter", vec(("each", s, vec(E(tup(mk("typed", mk("bidx", s), (0, MAXLEN)), self.I.elemof(s)))))))
    return bind(a[0], f)


@m("str::trim", "slice::trim_ascii", "str::trim_ascii")
def _(self, st, a, c):
    return trim(a[0])


@m("str::trim_start", "str::trim_ascii_start", "str::trim_left")
def _(self, st, a, c):
    return trim(a[0], "start")


@m("str::trim_end", "str::trim_ascii_end", "str::trim_right")
def _(self, st, a, c):
    return trim(a[0], "end")


def charpred(self, st, p, ty):
    """characters matched by a pattern: set of code points below 128, or None; second: may match others"""
    t = self.strip(ty)
    if p.op in ("clo", "fnitem"):
        out = []
        for b in range(128):
            s2 = st.copy()
            r = self.call(s2, p, INT(b))
            r = truth(r)
            if r is TRUE:
                out.append(b)
            elif r is not FALSE:
                return None
        return out
    if p.op == "int":
        return [p.a[0]]
    if p.op == "vec" and all(g[0] == "e" and g[1].op == "int" for g in p.a):
        return [g[1].a[0] for g in p.a]
    return None


@m("str::trim_matches", "str::trim_start_matches", "str::trim_end_matches")
def _(self, st, a, c):
    how = {"trim_matches": "both", "trim_start_matches": "start", "trim_end_matches": "end"}[c.path.split("::")[-1]]
    s, p = a[0], a[1]
    cp = charpred(self, st, p, c.atys[1])
    if cp is not None:
        ps = frozenset(b for b in cp if b < 128)
        wide = p.op in ("clo", "fnitem") or len(ps) != len(set(cp))     # may match characters above 127

        def f(x):
            if x.op == "vis" and ps >= {9, 32} and not (ps & frozenset(range(33, 127))):
                return trim(x, how)
            if x.op == "lit" and not (wide and any(ord(ch) > 127 for ch in x.a[0])):
                ch = "".join(chr(b) for b in cp)
                v = x.a[0]
                return lit(v.strip(ch) if how == "both" else v.lstrip(ch) if how == "start" else v.rstrip(ch))
            if ps >= {9, 10, 11, 12, 13, 32} and not (ps & frozenset(range(33, 128))) and not cs(x) >> 128:
                return trim(x, how)
            w = wide and cs(x) >> 128
            if not cs(x) & mask(ps) and not w:
                return x
            return mk("trimset", x, how, tuple(sorted(ps))) if not w else mk("trimset", x, how, tuple(sorted(ps)), p)
        return bind(s, f)
    return mk("trimpat", s, how, p)


@m("alloc::boxed::Box::new_uninit", "core::mem::maybe_uninit::MaybeUninit::uninit")
def _(self, st, a, c):
    return mk("uninit")


@m("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::Box::assume_init", "core::mem::maybe_uninit::MaybeUninit::assume_init")
def _(self, st, a, c):
    return a[0]


def ulower(x):
    """Unicode lower case; that of a text without non-ASCII characters is bytewise"""
    if x.op == "sel":
        return bind(x, ulower)
    if x.op == "ulower":
        return x
    return lower(x) if not cs(x) >> 128 else mk("ulower", x)


def uupper(x):
    if x.op == "sel":
        return bind(x, uupper)
    if x.op == "uupper":
        return x
    return upper(x) if not cs(x) >> 128 else mk("uupper", x)


TM.REBUILD["ulower"] = ulower
TM.REBUILD["uupper"] = uupper



@m("str::to_ascii_lowercase", "str::to_lowercase")
def _(self, st, a, c):
    if c.path.endswith("to_lowercase"):
        return ulower(a[0])
    return lower(a[0])


@m("str::to_ascii_uppercase", "str::to_uppercase")
def _(self, st, a, c):
    if c.path.endswith("to_uppercase"):
        return uupper(a[0])
    return upper(a[0])


@m("str::make_ascii_lowercase", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lower)
    return UNIT


@m("str::make_ascii_uppercase", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], upper)
    return UNIT


@m("str::eq_ignore_ascii_case")
def _(self, st, a, c):
    return eq_str(lower(a[0]), lower(a[1]))


@m("str::is_ascii")
def _(self, st, a, c):
    return bind(a[0], lambda x: TRUE if not cs(x) >> 128 else truth(mk("bool", mk("isascii", x))))


@m("str::is_char_boundary")
def _(self, st, a, c):
    def f(x, n):
        return band(icmp("Le", n, self.length(x)), boundary(self, x, n))
    return bind(a[0], lambda x: bind(a[1], lambda n: f(x, n)))


def pat(self, st, p, ty):
    """a pattern as literal text, or None"""
    t = self.strip(ty)
    if t is not None and t[0] == "char":
        return chrstr(p)
    if p.op == "int":
        return chrstr(p)
    if p.op in ("clo", "fnitem", "vec"):
        cp = charpred(self, st, p, ty)
        if cp is not None and len(cp) == 1:
            return lit(chr(cp[0]))
        return None
    return p


@m("str::starts_with")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None:
        return truth(mk("bool", mk("startspat", a[0], a[1])))
    return starts_with(a[0], p)


@m("str::ends_with")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None:
        return truth(mk("bool", mk("endspat", a[0], a[1])))
    return ends_with(a[0], p)


@m("str::contains")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None:
        cp = charpred(self, st, a[1], c.atys[1])
        if cp is not None:
            r = FALSE
            for b in cp:
                r = bor(r, str_contains(a[0], lit(chr(b))))
            return r
        return truth(mk("bool", mk("containspat", a[0], a[1])))
    return str_contains(a[0], p)


@m("str::strip_prefix")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None:
        return None
    return self.someif(starts_with(a[0], p), after(a[0], p))


@m("str::strip_suffix")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None:
        return None
    return self.someif(ends_with(a[0], p), before(a[0], p))


@m("str::split")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None or p.op != "lit":
        return mk("iter", mk("splitpat", a[0], a[1]))
    return mk("iter", split(a[0], p.a[0]))


@m("str::split_terminator", "str::split_inclusive", "str::rsplit", "str::splitn", "str::rsplitn", "str::split_whitespace",
   "str::lines", "str::matches", "str::split_ascii_whitespace")
def _(self, st, a, c):
    return mk("iter", mk("splitx", c.path.split("::")[-1], *a))


@m("str::split_once", "str::rsplit_once")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None or p.op != "lit":
        return None
    last = c.path.endswith("rsplit_once")
    s, v = a[0], p.a[0]

    def f(x):
        ps = str_parts(x)
        if not last:
            acc = []
            for i, q in enumerate(ps):
                if q.op == "lit" and v in q.a[0]:
                    w1, w2 = q.a[0].split(v, 1)
                    return some(tup(concat(*acc, lit(w1)), concat(lit(w2), *ps[i + 1:])))
                if len(v) == 1 and q.op != "lit" and cs(q) & mask(enc(v)):
                    break
                acc.append(q)
        return self.someif(str_contains(x, p), tup(mk("splithead", x, p, last), mk("splittail", x, p, last)))
    return bind(s, f)


@m("str::find", "str::rfind")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None:
        return None
    def f(x, q):
        if q.op == "lit" and q is not EMPTY and c.path == "str::find":
            n = INT(0)
            for y in str_parts(x):
                if y.op == "lit" and q.a[0] in y.a[0] and (n is INT(0) or len(q.a[0]) == 1):
                    return some(add(n, INT(len(enc(y.a[0][:y.a[0].index(q.a[0])])))))
                if cs(y) >> enc(q.a[0])[0] & 1:
                    break
                n = add(n, self.length(y))
        return self.someif(str_contains(x, q), mk("typed", mk("find", c.path.split("::")[-1], x, q), (0, MAXLEN)))
    return bind(a[0], lambda x: bind(p, lambda q: f(x, q)))


@m("str::replace", "str::replacen")
def _(self, st, a, c):
    p = pat(self, st, a[1], c.atys[1])
    if p is None or p.op != "lit":
        cp = charpred(self, st, a[1], c.atys[1])
        if cp is not None and a[2].op == "lit" and c.path.endswith("replace"):
            t = list(IDT)
            for b in cp:
                t[b] = enc(a[2].a[0])
            return bytemap(a[0], tuple(t))
        return mk("replace", *a)
    if c.path.endswith("replacen"):
        return mk("replacen", *a)
    v = p.a[0]
    if len(v) == 1 and ord(v) < 128 and a[2].op == "lit":
        t = list(IDT)
        t[ord(v)] = enc(a[2].a[0])
        return bytemap(a[0], tuple(t))

    def f(x):
        if x.op == "lit" and a[2].op == "lit":
            return lit(x.a[0].replace(v, a[2].a[0]))
        if any(not cs(x) >> b & 1 for b in enc(v)):
            return x
        return mk("replace", x, p, a[2])
    return bind(a[0], f)


@m("str::repeat")
def _(self, st, a, c):
    if a[1].op == "int" and a[1].a[0] < 64:
        return concat(*[a[0]] * a[1].a[0])
    return mk("strrep", a[0], a[1])


@m("str::get", "slice::get")
def _(self, st, a, c):
    v, i = a
    t = self.strip(c.atys[1])
    if t is not None and t[0] == "int":
        inb = icmp("Lt", i, self.length(v))
        return self.someif(inb, self.index(v, i))
    k = truth(mk("bool", mk("inrange", v, i)))
    return self.someif(k, rangeindex(self, st, v, i, None))


@m("slice::first", "alloc::collections::vec_deque::VecDeque::front")
def _(self, st, a, c):
    return bind(a[0], lambda v: self.someif(bnot(is_empty(v)), seqhead(self, v)))


@m("slice::last", "alloc::collections::vec_deque::VecDeque::back")
def _(self, st, a, c):
    def f(v):
        sg = segs(v)
        if sg and sg[-1][0] == "e":
            return some(sg[-1][1])
        return self.someif(bnot(is_empty(v)), mk("last", v))
    return bind(a[0], f)


def seqhead(self, v):
    sg = segs(v)
    if sg and sg[0][0] == "e":
        return sg[0][1]
    if not sg:
        return UNDEFS
    return mk("head", v)


def seqtail(v):
    sg = segs(v)
    if sg and sg[0][0] == "e":
        return vec(*sg[1:])
    return mk("tail", v)


@m("slice::split_first")
def _(self, st, a, c):
    return bind(a[0], lambda v: self.someif(bnot(is_empty(v)), tup(seqhead(self, v), seqtail(v))))


@m("core::str::converts::from_utf8", "alloc::string::String::from_utf8", "str::from_utf8", "core::str::from_utf8")
def _(self, st, a, c):
    def f(b):
        if b.op == "bytelit":
            try:
                return ok(lit(bytes(b.a[0]).decode("utf-8")))
            except UnicodeDecodeError:
                return err(mk("err", "Utf8Error", b))
        r = frombytes(b)
        if r is None:
            r = vecstr(b)
        if r is not None:
            # what was read as bytes may be anything
            k = TRUE
            for x in str_parts(r):
                if rawtext(x):
                    k = band(k, self.okp("utf8", x))
            if k is not TRUE:
                self.I.fallible(st, k, "UTF-8 decoding")
                return self.okif(k, r, mk("err", "Utf8Error", b))
            return ok(r)
        k = self.okp("utf8", b)
        self.I.fallible(st, k, "UTF-8 decoding")
        return self.okif(k, mk("utf8", b), mk("err", "Utf8Error", b))
    return bind(a[0], f)


def rawtext(x):
    return x.op == "text" and x.a[0].op == "file" or x.op == "body"


def vecstr(b):
    """a byte vector assembled from pieces of ASCII text -> string"""
    if b.op != "vec":
        if b.op == "bytes":
            return b.a[0]
        return None
    out = []
    for g in b.a:
        if g[0] == "e":
            x = g[1]
            if x.op == "int" and x.a[0] < 128:
                out.append(lit(chr(x.a[0])))
            else:
                return None
        elif g[0] == "all":
            r = frombytes(g[1])
            if r is None:
                return None
            out.append(r)
        elif g[0] == "each":
            # bytes produced per element
            src, body = g[1], g[2]
            if S.isbytes(src):
                e = elem(src)
                te = mk("typed", e, (0, 255))
                t = []
                for n in range(256):
                    r = mapt(body, lambda x: INT(n) if x is e or x is te else None, {})
                    if r.op == "vec" and all(q[0] == "e" and q[1].op == "int" for q in r.a):
                        t.append(bytes(q[1].a[0] for q in r.a))
                    elif r.op == "bytelit":
                        t.append(bytes(r.a[0]))
                    elif r.op == "vec" and all((q[0] == "e" and q[1].op == "int") or (q[0] == "all" and q[1].op == "bytelit") for q in r.a):
                        t.append(b"".join(bytes([q[1].a[0]]) if q[0] == "e" else bytes(q[1].a[0]) for q in r.a))
                    else:
                        return None
                if src.op == "bytes":
                    out.append(bytemap(src.a[0], tuple(t)))
                elif all(all(x < 128 for x in y) for y in t):
                    out.append(bytetab(src, tuple(t)))
                else:
                    return None
            else:
                r = vecstr(body)
                if r is None:
                    return None
                out.append(eachstr(src, r))
        elif g[0] == "alt":
            bad = []

            def f(y):
                r = vecstr(y)
                if r is None:
                    bad.append(1)
                    return EMPTY
                return r
            r = bind(g[1], f)
            if bad:
                return None
            out.append(r)
        else:
            return None
    return concat(*out)


@m("alloc::string::String::from_utf8_lossy", "alloc::string::String::from_utf8_unchecked",
   "core::str::converts::from_utf8_unchecked", "str::from_utf8_unchecked", "core::str::from_utf8_unchecked")
def _(self, st, a, c):
    def f(b):
        r = vecstr(b)
        if r is None:
            r = frombytes(b)
        if r is not None:
            if "lossy" in c.path:
                # a file may hold anything; the text of a response is decoded this way anyhow
                return concat(*[self.ite(self.okp("utf8", x), x, mk("utf8lossy", x)) if x.op == "text" and rawtext(x) else x
                                for x in str_parts(r)])
            return r
        if b.op == "bytelit":
            return lit(bytes(b.a[0]).decode("utf-8", "replace"))
        return mk("utf8lossy" if "lossy" in c.path else "utf8", b)
    return bind(a[0], f)


@m("str::parse", "core::str::traits::FromStr::from_str")
def _(self, st, a, c):
    t = c.targs[0] if c.targs else None
    fi = self.I.F.find_impl("core::str::traits::FromStr", t, ()) if t else None
    if fi:
        r = self.I.method(st, "core::str::traits::FromStr", "from_str", t, [a[0]])
        if r is not None:
            return r
    t = self.strip(t)
    if t is not None and self.isstr(t):
        return ok(a[0])
    if t is not None and t[0] == "int":
        lo, hi = int_range(t[1])

        def f(x):
            if x.op == "lit":
                import re
                s = x.a[0]
                if re.match(r"^[+]?\d+$", s) or (lo < 0 and re.match(r"^-\d+$", s)):
                    if lo <= int(s) <= hi:
                        return ok(INT(int(s)))
                return err(mk("err", "ParseIntError", x))
            if x.op == "dec":
                k = member(x.a[0], ((lo, hi),))
                return self.okif(k, x.a[0], mk("err", "ParseIntError", x))
            k = self.okp("parse:" + t[1], x)
            self.I.fallible(st, k, "integer parsing")
            return self.okif(k, mk("typed", mk("parse", t[1], x), (lo, hi)), mk("err", "ParseIntError", x))
        return bind(a[0], f)
    r = self.xparse(st, a[0], t)
    if r is not None:
        return r
    k = self.okp("parse:" + str(t), a[0])
    self.I.fallible(st, k, "parsing")
    return self.okif(k, mk("parse", str(t), a[0]), mk("err", "parse", a[0]))


MM.Models.xparse = lambda self, st, v, t: None


@m("alloc::string::ToString::to_string", "alloc::string::SpecToString::spec_to_string")
def _(self, st, a, c):
    return self.fmt_value(st, "display", a[0], c.targs[0])


@m("slice::join", "alloc::slice::Join::join")
def _(self, st, a, c):
    t = self.strip(c.atys[0])
    et = t[1] if t is not None and t[0] in ("slice", "array") else (t[2][0] if t is not None and t[0] == "adt" and t[2] else None)
    if et is not None and not self.isstr(et):
        b = self.strip(et)
        if b[0] in ("slice", "adt", "array"):
            s = self.seq(a[0])
            sg = segs(s)
            if all(g[0] == "e" for g in sg):
                out = []
                sep = segs(a[1])
                for i, g in enumerate(sg):
                    if i:
                        out.extend(sep)
                    out.extend(segs(g[1]))
                return vec(*out)
            return mk("vjoin", s, a[1])
    return join(self.seq(a[0]), a[1])


@m("slice::concat", "alloc::slice::Concat::concat")
def _(self, st, a, c):
    t = self.strip(c.atys[0])
    et = t[1] if t is not None and t[0] in ("slice", "array") else (t[2][0] if t is not None and t[0] == "adt" and t[2] else None)
    if et is not None and not self.isstr(et):
        return seqflat(self.seq(a[0]), lambda e: e)
    return strcat(self.seq(a[0]))


@m("core::ops::arith::Add::add")
def _(self, st, a, c):
    t = self.strip(c.targs[0])
    if self.isstr(t):
        return concat(a[0], a[1])
    return arith(self, st, "add", a, c, t)


@m("core::ops::arith::Sub::sub")
def _(self, st, a, c):
    return arith(self, st, "sub", a, c, self.strip(c.targs[0]))


@m("core::ops::arith::Mul::mul", "core::ops::arith::Div::div", "core::ops::arith::Rem::rem")
def _(self, st, a, c):
    return arith(self, st, c.path.split("::")[-1], a, c, self.strip(c.targs[0]))


@m("core::ops::arith::AddAssign::add_assign", "core::ops::arith::SubAssign::sub_assign", raw=True)
def _(self, st, a, c):
    t = self.strip(c.targs[0])
    x = self.I.deref(st, a[1])
    if self.isstr(t):
        self.append(st, a[0], x)
        return UNIT
    old = self.I.deref(st, a[0])
    op = "add" if "add_assign" in c.path else "sub"
    self.I.write(st, a[0], arith(self, st, op, [old, x], c, t))
    return UNIT


@mx(r"^core::ops::bit::(Shl|Shr|BitAnd|BitOr|BitXor)::(shl|shr|bitand|bitor|bitxor)$")
def _(self, st, a, c):
    t = self.strip(c.targs[0])
    if t is None or t[0] not in ("int", "bool"):
        return None
    return self.I.binop(st, c.m.group(1), a[0], a[1], t)


@mx(r"^core::ops::bit::(Shl|Shr|BitAnd|BitOr|BitXor)Assign::\w+$", raw=True)
def _(self, st, a, c):
    t = self.strip(c.targs[0])
    if t is None or t[0] not in ("int", "bool"):
        return None
    v = self.I.binop(st, c.m.group(1), self.I.deref(st, a[0]), self.I.deref(st, a[1]), t)
    self.I.write(st, a[0], v)
    return UNIT


DURR = (0, ((1 << 64) - 1) * NS + NS - 1)


def arith(self, st, op, a, c, t):
    if t is not None and t[0] == "adt" and t[1] in (DUR, SYSTIME, "std::time::Instant"):
        if op == "mul" or op == "div":
            if op == "div":
                if a[1].op == "int" and a[1].a[0]:
                    return divfloor(a[0], a[1].a[0])
                return mk("bin", "Div", a[0], a[1])
            r = mul(a[0], a[1])
        else:
            r = add(a[0], a[1]) if op == "add" else TM.sub(a[0], a[1])
        lo, hi = DURR if t[1] == DUR else SYSRANGE
        self.I.panic(st, bnot(member(r, ((lo, hi),))), "overflow in time arithmetic")
        return r
    if t is not None and t[0] == "int":
        r = {"add": add, "sub": TM.sub, "mul": mul}.get(op)
        if r:
            r = r(a[0], a[1])
            lo, hi = int_range(t[1])
            self.I.panic(st, bnot(member(r, ((lo, hi),))), "integer overflow in " + op)
            return r
        self.I.panic(st, member(a[1], s_point(0)), "division by zero")
        return self.I.divrem("Div" if op == "div" else "Rem", a[0], a[1], t)
    return self.xarith(st, op, a, c, t)


MM.Models.xarith = lambda self, st, op, a, c, t: None


# ================================================================ integers and characters
@mx(r"^(?:core::num::)?" + INTN + r"::(checked|saturating|wrapping|overflowing|strict)_(add|sub|mul|neg|div|rem|pow|abs)$")
def _(self, st, a, c):
    ty, how, op = c.m.groups()
    lo, hi = int_range(ty)
    if op == "add":
        r = add(a[0], a[1])
    elif op == "sub":
        r = TM.sub(a[0], a[1])
    elif op == "mul":
        r = mul(a[0], a[1])
    elif op == "neg":
        r = mulc(a[0], -1)
    elif op in ("div", "rem"):
        z = member(a[1], s_point(0))
        r = self.I.divrem("Div" if op == "div" else "Rem", a[0], a[1], ("int", ty))
        if how == "checked":
            return self.someif(bnot(z), r)
        self.I.panic(st, z, "division by zero")
        return r
    else:
        return None
    k = member(r, ((lo, hi),))
    if how == "checked":
        self.I.fallible(st, k, "checked arithmetic")
        return self.someif(k, r)
    if how == "saturating":
        return self.ite(k, r, self.ite(member(r, ((NEG, lo - 1),)), INT(lo), INT(hi)))
    if how == "strict":
        self.I.panic(st, bnot(k), "overflow")
        return r
    w = self.I.wrap(r, ("int", ty), st)
    if how == "overflowing":
        return tup(w, bnot(k))
    return w


@mx(r"^(?:core::num::)?" + INTN + r"::(\w+)$")
def _(self, st, a, c):
    ty, op = c.m.groups()
    lo, hi = int_range(ty)
    x = a[0] if a else None
    if op in CHARSETS:
        return member(x, CHARSETS[op])
    if op == "to_ascii_lowercase":
        return self.ite(member(x, ((65, 90),)), add(x, INT(32)), x)
    if op == "to_ascii_uppercase":
        return self.ite(member(x, ((97, 122),)), TM.sub(x, INT(32)), x)
    if op in ("div_euclid", "rem_euclid"):
        if a[1].op == "int" and a[1].a[0] > 0:
            return divfloor(x, a[1].a[0]) if op == "div_euclid" else modfloor(x, a[1].a[0])
        self.I.panic(st, member(a[1], s_point(0)), "division by zero")
        return mk("bin", op, x, a[1])
    if op == "div_ceil" and lo == 0 and a[1].op == "int" and a[1].a[0] > 0:
        return divfloor(add(x, INT(a[1].a[0] - 1)), a[1].a[0])
    if op == "is_multiple_of" and lo == 0 and a[1].op == "int" and a[1].a[0] > 0:
        return member(modfloor(x, a[1].a[0]), s_point(0))
    if op == "abs" or op == "unsigned_abs":
        neg = member(x, ((NEG, -1),))
        if op == "abs":
            self.I.panic(st, member(x, s_point(lo)), "abs overflow")
        return self.ite(neg, mulc(x, -1), x)
    if op == "abs_diff":
        lt = icmp("Lt", a[0], a[1])
        return self.ite(lt, TM.sub(a[1], a[0]), TM.sub(a[0], a[1]))
    if op == "pow":
        if a[1].op == "int" and x.op == "int":
            r = INT(x.a[0] ** a[1].a[0])
        elif a[1].op == "int" and 0 < a[1].a[0] < 8:
            r = x
            for _ in range(a[1].a[0] - 1):
                r = mul(r, x)
        else:
            return mk("bin", "pow", *a)
        self.I.panic(st, bnot(member(r, ((lo, hi),))), "pow overflow")
        return r
    if op == "signum":
        return self.ite(member(x, ((NEG, -1),)), INT(-1), self.ite(member(x, s_point(0)), INT(0), INT(1)))
    if op in ("is_positive", "is_negative"):
        return member(x, ((1, POS),) if op == "is_positive" else ((NEG, -1),))
    if op == "eq":
        return icmp("Eq", a[0], a[1])
    if op == "from_str_radix":
        k = self.okp("parse:" + ty, a[0], a[1])
        self.I.fallible(st, k, "integer parsing")
        return self.okif(k, mk("typed", mk("parse", ty, a[0], a[1]), (lo, hi)), mk("err", "ParseIntError", a[0]))
    if op in ("to_be_bytes", "to_le_bytes", "to_ne_bytes", "leading_zeros", "trailing_zeros", "count_ones", "swap_bytes", "to_be", "to_le",
              "rotate_left", "rotate_right", "is_power_of_two", "ilog10", "ilog2", "isqrt"):
        return mk("intop", op, *a)
    if op in ("min_value", "max_value"):
        return INT(lo if op == "min_value" else hi)
    return None


def pts(s):
    return s_pts([ord(x) for x in s])


CHARSETS = {
    "is_ascii_digit": ((48, 57),), "is_ascii_uppercase": ((65, 90),), "is_ascii_lowercase": ((97, 122),),
    "is_ascii_alphabetic": ((65, 90), (97, 122)), "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)), "is_ascii": ((0, 127),),
    "is_ascii_graphic": ((33, 126),), "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_control": ((0, 31), (127, 127)), "is_ascii_whitespace": s_pts([9, 10, 12, 13, 32]),
}


@mx(r"^(?:core::char::methods::)?char::(\w+)$")
def _(self, st, a, c):
    op = c.m.group(1)
    x = a[0] if a else None
    if op in CHARSETS:
        return member(x, CHARSETS[op])
    if op in ("is_whitespace", "is_alphanumeric", "is_alphabetic", "is_numeric", "is_control", "is_uppercase", "is_lowercase"):
        asc = {"is_whitespace": s_pts([9, 10, 11, 12, 13, 32]), "is_alphanumeric": CHARSETS["is_ascii_alphanumeric"],
               "is_alphabetic": CHARSETS["is_ascii_alphabetic"], "is_numeric": ((48, 57),),
               "is_control": ((0, 31), (127, 127)), "is_uppercase": ((65, 90),), "is_lowercase": ((97, 122),)}[op]

        def f(y):
            if y.op == "int" and y.a[0] < 128:
                return member(y, asc)
            return bor(member(y, asc), band(member(y, ((128, 0x10FFFF),)), truth(mk("bool", mk(op, y)))))
        return bind(x, f)
    if op == "to_ascii_lowercase":
        return self.ite(member(x, ((65, 90),)), add(x, INT(32)), x)
    if op == "to_ascii_uppercase":
        return self.ite(member(x, ((97, 122),)), TM.sub(x, INT(32)), x)
    if op == "from_digit":
        n, radix = a
        if radix.op == "int":
            k = icmp("Lt", n, radix)
            return self.someif(k, self.ite(member(n, ((0, 9),)), add(n, INT(48)), add(n, INT(87))))
    if op == "from_u32":
        k = member(x, ((0, 0xD7FF), (0xE000, 0x10FFFF)))
        return self.someif(k, x)
    if op == "from_u32_unchecked":
        return x
    if op == "len_utf8":
        return bind(x, lambda y: self.ite(member(y, ((0, 127),)), INT(1), mk("typed", mk("len8", y), (2, 4))))
    if op == "is_digit":
        if a[1] is INT(10):
            return member(x, ((48, 57),))
        if a[1] is INT(16):
            return member(x, CHARSETS["is_ascii_hexdigit"])
    if op == "to_digit":
        if a[1] is INT(10):
            return self.someif(member(x, ((48, 57),)), TM.sub(x, INT(48)))
    if op == "encode_utf8":
        return chrstr(x)
    if op in ("to_lowercase", "to_uppercase"):
        return mk("iter", vec(E(self.ite(member(x, ((65, 90),)), add(x, INT(32)), x)))) if op == "to_lowercase" else \
            mk("iter", vec(E(self.ite(member(x, ((97, 122),)), TM.sub(x, INT(32)), x))))
    if op == "eq_ignore_ascii_case":
        return None
    return None


@m("bool::then")
def _(self, st, a, c):
    return self.branch(st, truth(a[0]), lambda t: some(self.call(t, a[1])), lambda t: NONE)


@m("bool::then_some")
def _(self, st, a, c):
    return self.someif(truth(a[0]), a[1])


@m("core::ops::bit::Not::not")
def _(self, st, a, c):
    return bnot(truth(a[0]))


# ================================================================ ranges
@m("core::ops::range::RangeInclusive::new")
def _(self, st, a, c):
    return mk("rangei", a[0], a[1])


@m("core::ops::range::RangeInclusive::contains", "core::ops::range::Range::contains", "core::ops::range::RangeFrom::contains",
   "core::ops::range::RangeTo::contains", "core::ops::range::RangeToInclusive::contains", "core::ops::range::RangeBounds::contains")
def _(self, st, a, c):
    lo, hi, inc = bounds(self, a[0])
    r = TRUE
    if lo is not None:
        r = band(r, member(self.cmp3(lo, a[1]), s_range(-1, 0)) if rng(lo) is None else icmp("Le", lo, a[1]))
    if hi is not None:
        r = band(r, icmp("Le" if inc else "Lt", a[1], hi))
    return r


@m("core::ops::range::RangeInclusive::start", "core::ops::range::RangeInclusive::end")
def _(self, st, a, c):
    return a[0].a[0 if c.path.endswith("start") else 1]


@m("core::ops::range::Range::is_empty", "core::ops::range::RangeInclusive::is_empty")
def _(self, st, a, c):
    lo, hi, inc = bounds(self, a[0])
    return icmp("Gt" if inc else "Ge", lo, hi)


def bounds(self, r):
    if r.op == "rangei":
        return r.a[0], r.a[1], True
    if r.op == "adt":
        n = r.a[0].split("::")[-1]
        if n == "Range":
            return r.a[2], r.a[3], False
        if n == "RangeFrom":
            return r.a[2], None, False
        if n == "RangeTo":
            return None, r.a[2], False
        if n == "RangeToInclusive":
            return None, r.a[2], True
        if n == "RangeFull":
            return None, None, False
    return None, None, False


def rangeindex(self, st, v, r, ctx):
    lo, hi, inc = bounds(self, r)
    if hi is not None and inc:
        hi = add(hi, INT(1))
    if lo is None:
        lo = INT(0)
    lo0 = lo

    def f(x, p):
        n = self.length(x)
        k = band(st.pc, p)
        if k is FALSE:
            return UNDEF
        h, lo = (restrict(hi, k) if hi is not None else None), restrict(lo0, k)
        if ctx is not None:
            # s[k..] after starts_with(s, literal of length k)
            if lo.op == "int" and h is None and x.op not in ("lit", "bytelit", "vec"):
                k = lo.a[0]
                if k == 0:
                    return x
                ps = str_parts(x)
                if ps and ps[0].op == "lit" and len(enc(ps[0].a[0])) >= k:
                    return concat(lit(dec(enc(ps[0].a[0])[k:])), *ps[1:])
                from interp import mdd_vars
                if st.pc.op == "sel":
                    for w in mdd_vars(st.pc):
                        if w.op == "starts_with" and w.a[0] is x and w.a[1].op == "lit" and len(enc(w.a[1].a[0])) == k \
                                and implies(st.pc, cond(w, s_point(1))):
                            return after(x, w.a[1])
            bad = bor(icmp("Gt", lo, h if h is not None else n), icmp("Gt", h, n) if h is not None else FALSE)
            self.I.panic(st, band(p, bad), "slice index out of range")
            st2 = self.strip(ctx.atys[0]) if ctx.atys else None
            if st2 is not None and (st2[0] == "str" or self.isstr(st2)) and x.op != "lit":
                for b in (lo, h):
                    if b is not None and b is not n:
                        self.I.panic(st, band(p, bnot(bind(b, lambda y: boundary(self, x, y)))), "slice not at a character boundary")
        return self.slice_of(x, lo, h)
    if v.op != "sel":
        return f(v, TRUE)
    out = {x: f(x, p) for p, x in leaves_pc(v)}
    return bind(v, lambda x: out[x])


@m("core::ops::index::Index::index")
def _(self, st, a, c):
    t = self.strip(c.atys[1])
    if t is not None and t[0] == "int":
        n = self.length(a[0])
        self.I.panic(st, icmp("Ge", a[1], n), "index out of bounds")
        return self.index(a[0], a[1])
    if t is not None and t[0] == "adt" and t[1].startswith("core::ops::range::"):
        return rangeindex(self, st, a[0], a[1], c)
    mt = self.strip(c.atys[0])
    if mt is not None and mt[0] == "adt" and ("BTreeMap" in mt[1] or "HashMap" in mt[1]):
        self.I.panic(st, bnot(self.mhas(a[0], a[1])), "missing key")
        return self.mapget_raw(a[0], a[1])
    return self.xindex(st, a, c)


MM.Models.xindex = lambda self, st, a, c: None


@m("core::ops::index::IndexMut::index_mut", raw=True)
def _(self, st, a, c):
    i = self.I.deref(st, a[1])
    v = self.I.deref(st, a[0])
    t = self.strip(c.atys[1])
    if t is not None and t[0] == "int" and a[0].op == "ptr":
        self.I.panic(st, icmp("Ge", i, self.length(v)), "index out of bounds")
        return self.I.ptr(a[0].a[0], a[0].a[1] + (("idx", i),))
    if a[0].op == "ptr":
        lo, hi, inc = bounds(self, i)
        if hi is None and (lo is None or lo is INT(0)):
            return a[0]
        return self.I.ptr(a[0].a[0], a[0].a[1] + (("sl", lo or INT(0), add(hi, INT(1)) if inc and hi is not None else hi),))
    return None


# ================================================================ Vec
VP = ["alloc::vec::Vec::", "alloc::collections::vec_deque::VecDeque::"]


def vp(*names):
    return [p + n for p in VP for n in names]


@m(*vp("new", "with_capacity"), "alloc::vec::Vec::from_raw#")
def _(self, st, a, c):
    return VNIL


@m("alloc::vec::Vec::push", "alloc::collections::vec_deque::VecDeque::push_back", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lambda v: vcat(v, vec(E(a[1]))))
    return UNIT


@m("alloc::collections::vec_deque::VecDeque::push_front", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lambda v: vcat(vec(E(a[1])), v))
    return UNIT


@m("alloc::vec::Vec::extend_from_slice", raw=True)
def _(self, st, a, c):
    x = self.seqv(self.I.deref(st, a[1]))
    self.update(st, a[0], lambda v: vcat(v, x))
    return UNIT


def seqv(self, v):
    """sequence to append; byte literals become elements"""
    return bind(v, lambda x: self.seq(x) if x.op in ("bytelit",) else x)


MM.Models.seqv = seqv


@m("core::iter::traits::collect::Extend::extend", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    t = self.strip(c.targs[0]) if c.targs else None
    x = self.seq(self.toiter(st, self.I.deref(st, a[1])))
    if t is not None and t[0] == "adt" and self.isstr(t):
        self.append(st, a[0], strcat(self.tostrs(x)))
        return UNIT

    def f(v):
        if v.op in ("btset", "hset"):
            return mk(v.op, vcat(v.a[0], x))
        if v.op == "map":
            return mk("map", vcat(v.a[0], seqbody(x, lambda e: mk("put", self.I.field(e, None, 0), self.I.field(e, None, 1)))), *v.a[1:])
        r = self.xextend(st, v, x)
        if r is not None:
            return r
        return vcat(v, x)
    self.update(st, a[0], f)
    return UNIT


MM.Models.xextend = lambda self, st, v, x: None


def toiter(self, st, v):
    return v


MM.Models.toiter = toiter


@m("alloc::vec::Vec::append", raw=True)
def _(self, st, a, c):
    x = self.I.deref(st, a[1])
    self.update(st, a[0], lambda v: vcat(v, x))
    self.I.write(st, a[1], VNIL)
    return UNIT


@m("alloc::vec::Vec::insert", raw=True)
def _(self, st, a, c):
    i = self.I.deref(st, a[1])

    def f(v):
        sg = segs(v)
        if i.op == "int" and i.a[0] <= len(sg) and all(g[0] == "e" for g in sg[:i.a[0]]):
            return vec(*sg[:i.a[0]], E(a[2]), *sg[i.a[0]:])
        if i is self.length(v):
            return vcat(v, vec(E(a[2])))
        return mk("vinsert", v, i, a[2])
    v = self.I.deref(st, a[0])
    self.I.panic(st, icmp("Gt", i, self.length(v)), "insert index out of bounds")
    self.update(st, a[0], f)
    return UNIT


@m("alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove", raw=True)
def _(self, st, a, c):
    i = self.I.deref(st, a[1])
    v = self.I.deref(st, a[0])
    self.I.panic(st, icmp("Ge", i, self.length(v)), "remove index out of bounds")
    r = self.index(v, i)

    def f(v):
        sg = segs(v)
        if c.path.endswith("::remove") and i.op == "int" and i.a[0] < len(sg) and all(g[0] == "e" for g in sg[:i.a[0] + 1]):
            return vec(*sg[:i.a[0]], *sg[i.a[0] + 1:])
        return mk("vremove", v, i)
    self.update(st, a[0], f)
    return r


@m(*vp("pop", "pop_back"), raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])

    def last(x):
        sg = segs(x)
        if not sg:
            return NONE
        if sg[-1][0] == "e":
            return some(sg[-1][1])
        return self.someif(bnot(is_empty(x)), mk("last", x))

    def rest(x):
        sg = segs(x)
        if not sg:
            return x
        if sg[-1][0] == "e":
            return vec(*sg[:-1])
        return mk("init", x)
    self.I.write(st, a[0], bind(v, rest))
    return bind(v, last)


@m("alloc::collections::vec_deque::VecDeque::pop_front", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    self.I.write(st, a[0], bind(v, lambda x: x if not segs(x) else seqtail(x)))
    return bind(v, lambda x: self.someif(bnot(is_empty(x)), seqhead(self, x)))


@m(*vp("clear"), raw=True)
def _(self, st, a, c):
    self.I.write(st, a[0], VNIL)
    return UNIT


@m(*vp("truncate"), raw=True)
def _(self, st, a, c):
    n = self.I.deref(st, a[1])

    def f(v):
        if n is INT(0):
            return VNIL
        if n is self.length(v):
            return v
        sg = segs(v)
        if n.op == "int" and all(g[0] == "e" for g in sg):
            return vec(*sg[:n.a[0]])
        return mk("vtrunc", v, n)
    self.update(st, a[0], f)
    return UNIT


@m(*vp("resize"), raw=True)
def _(self, st, a, c):
    n = self.I.deref(st, a[1])
    self.update(st, a[0], lambda v: self.repeat(a[2], n) if v is VNIL else mk("vresize", v, n, a[2]))
    return UNIT


@m("alloc::vec::from_elem")
def _(self, st, a, c):
    return self.repeat(a[0], a[1])


@m(*vp("retain"), raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    r = self.mapseq_fn(st, v, lambda s, x: self.ite(truth(self.call(s, a[1], x)), vec(E(x)), VNIL))
    self.I.write(st, a[0], r)
    return UNIT


@m(*vp("dedup"), raw=True)
def _(self, st, a, c):
    def f(v):
        if v.op == "sorted":
            return self.sortset(v.a[0])
        if v.op in ("sortset", "group", "lastmap"):
            return v
        return mk("dedup", v)
    self.update(st, a[0], f)
    return UNIT


@m(*vp("dedup_by_key", "dedup_by"), raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lambda v: mk("dedupby", v))
    return UNIT


def cutout(self, st, v, r, c):
    """(the part in the range, what is before it, what is after it)"""
    lo, hi, inc = bounds(self, r)
    if hi is not None and inc:
        hi = add(hi, INT(1))
    x = rangeindex(self, st, v, r, c)
    return x, self.slice_of(v, INT(0), lo) if lo is not None and lo is not INT(0) else None, self.slice_of(v, hi, None) if hi is not None else None


@m(*vp("drain"), raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    r = self.I.deref(st, a[1])
    x, b, e = cutout(self, st, v, r, c)
    self.I.write(st, a[0], vcat(b if b is not None else VNIL, e if e is not None else VNIL))
    return bind(x, lambda y: mk("iter", y))


@m(*vp("split_off"), raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    n = self.I.deref(st, a[1])
    self.I.panic(st, icmp("Gt", n, self.length(v)), "split_off index out of bounds")
    self.I.write(st, a[0], self.slice_of(v, INT(0), n) if n is not INT(0) else VNIL)
    return self.slice_of(v, n, None)


SPLITAT = r"^(?:str|slice)::(split_at|split_at_mut|split_at_checked)$"


WIDTHS = {1: (0, 127), 2: (128, 0x7FF), 3: (0x800, 0xFFFF), 4: (0x10000, 0x10FFFF)}


def boundary(self, x, n):
    """n is, where it is not beyond the end of the text x, a place where x can be cut"""
    if n is INT(0) or n is self.length(x) or not cs(x) >> 128:
        return TRUE
    if x.op in ("concat", "lit") and self.cutat(x, n) is not None:
        return TRUE
    c, ts = (n.a[0], dict(n.a[1])) if n.op == "lin" else (0, {n: 1})
    for t in ts:
        u = TM.under(t)
        if u is None or ts[t] != 1 or u[0] is not x:
            continue
        t2 = {y: k for y, k in ts.items() if y is not t}
        core = t.a[0] if t.op == "typed" else t
        if not t2 and c == 0 and core.op in ("find", "bidx", "fbidx", "fld"):
            return TRUE
        if not t2 and core.op == "find" and core.a[2].op == "lit" and c == len(enc(core.a[2].a[0])):
            return TRUE
        if c == 0 and u[2] is not None and t2 == dict(u[2]):
            return TRUE
        if not t2 and c in WIDTHS and core.op in ("bidx", "fbidx"):
            e = elem(core.a[0]) if core.op == "bidx" else core.a[0]
            return bor(member(e, (WIDTHS[c],)), truth(mk("bool", mk("boundary", x, n))))
    return truth(mk("bool", mk("boundary", x, n)))


def nobound(self, st, x, n):
    """n is not a place where the text x can be cut"""
    out = icmp("Gt", n, self.length(x))
    if x.op != "lit" and x.op != "vec":
        out = bor(out, bnot(bind(n, lambda y: boundary(self, x, y))))
    return out


@mx(SPLITAT)
def _(self, st, a, c):
    v, n = a[0], a[1]
    t = self.strip(c.atys[0])
    istext = t is not None and (t[0] == "str" or self.isstr(t))
    bad = icmp("Gt", n, self.length(v)) if not istext else bindb(v, lambda x, p: nobound(self, st, x, restrict(n, band(st.pc, p))) if band(st.pc, p) is not FALSE else FALSE)
    r = tup(self.slice_of(v, INT(0), n), self.slice_of(v, n, None))
    if c.m.group(1) == "split_at_checked":
        return self.someif(bnot(bad), r)
    if c.m.group(1) == "split_at_mut":
        return None
    self.I.panic(st, bad, "split index out of range or not at a character boundary")
    return r


def bindb(v, f):
    out = FALSE
    for p, x in leaves_pc(v):
        out = bor(out, band(p, f(x, p)))
    return out


@m("alloc::string::String::drain", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    r = self.I.deref(st, a[1])
    x, b, e = cutout(self, st, v, r, c)
    self.I.write(st, a[0], concat(b if b is not None else EMPTY, e if e is not None else EMPTY))
    return bind(x, lambda y: mk("iter", charseq(y)))


@m("alloc::string::String::replace_range", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    r = self.I.deref(st, a[1])
    x, b, e = cutout(self, st, v, r, c)
    self.I.write(st, a[0], concat(b if b is not None else EMPTY, self.I.deref(st, a[2]), e if e is not None else EMPTY))
    return UNIT


@m("alloc::string::String::split_off", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    n = self.I.deref(st, a[1])
    self.I.panic(st, bindb(v, lambda x, p: nobound(self, st, x, restrict(n, band(st.pc, p))) if band(st.pc, p) is not FALSE else FALSE), "split_off not at a character boundary")
    self.I.write(st, a[0], self.slice_of(v, INT(0), n) if n is not INT(0) else EMPTY)
    return self.slice_of(v, n, None)


@m("alloc::string::String::remove", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    n = self.I.deref(st, a[1])
    self.I.panic(st, bor(icmp("Ge", n, self.length(v)), bindb(v, lambda x, p: nobound(self, st, x, restrict(n, band(st.pc, p))) if band(st.pc, p) is not FALSE else FALSE)), "cannot remove a char here")

    def f(x):
        if x.op == "lit" and n.op == "int":
            w = enc(x.a[0])
            ch = dec(w[n.a[0]:])[:1]
            return lit(dec(w[:n.a[0]]) + dec(w[n.a[0]:])[1:])
        ps = str_parts(x)
        if n is INT(0) and ps and ps[0].op == "lit" and ps[0].a[0]:
            return concat(lit(ps[0].a[0][1:]), *ps[1:])
        return mk("strremove", x, n)
    self.I.write(st, a[0], bind(v, f))
    return bind(v, lambda x: mk("charat", x, n))


@m("alloc::string::String::retain", raw=True)
def _(self, st, a, c):
    x = self.I.deref(st, a[0])
    v = bind(x, charseq)
    r = self.mapseq_fn(st, v, lambda s, y: self.ite(truth(self.call(s, a[1], y)), vec(E(y)), VNIL))
    self.I.write(st, a[0], self.collect(st, r, ("adt", "alloc::string::String", ()), ("char",)))
    return UNIT


@m("slice::reverse", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lambda v: rev(self, v))
    return UNIT


def rev(self, v):
    if v.op == "sel":
        return bind(v, lambda x: rev(self, x))
    if v.op == "rev":
        return v.a[0]
    out = []
    for g in reversed(segs(v)):
        if g[0] == "e":
            out.append(g)
        elif g[0] == "alt":
            out.append(("alt", bind(g[1], lambda x: rev(self, x))))
        elif g[0] == "all":
            out.append(("all", mk("rev", g[1])))
        elif g[0] == "each":
            r = mk("rev", g[1])
            if contains(g[2], mk("idx", g[1])):
                return mk("rev", v)
            out.append(("each", r, rev(self, subst(g[2], elem(g[1]), elem(r)))))
        else:
            return mk("rev", v)
    return vec(*out)


@m("slice::swap", raw=True)
def _(self, st, a, c):
    i, j = self.I.deref(st, a[1]), self.I.deref(st, a[2])

    def f(v):
        if v.op == "vec" and i.op == j.op == "int" and all(g[0] == "e" for g in v.a):
            l = list(v.a)
            l[i.a[0]], l[j.a[0]] = l[j.a[0]], l[i.a[0]]
            return vec(*l)
        return mk("swapped", v, i, j)
    self.update(st, a[0], f)
    return UNIT


@m("slice::copy_from_slice", "slice::clone_from_slice", "slice::fill", raw=True)
def _(self, st, a, c):
    x = self.I.deref(st, a[1])
    if c.path.endswith("fill"):
        v = self.I.deref(st, a[0])
        self.I.write(st, a[0], self.repeat(x, self.length(v)))
    else:
        v = self.I.deref(st, a[0])
        self.I.panic(st, bnot(icmp("Eq", self.length(v), self.length(x))), "copy_from_slice length mismatch")
        self.I.store(st, a[0], x)
    return UNIT


@m("slice::split_last")
def _(self, st, a, c):
    def f(x):
        sg = segs(x)
        if sg and sg[-1][0] == "e":
            return some(tup(sg[-1][1], vec(*sg[:-1])))
        return NONE if not sg else self.someif(bnot(is_empty(x)), tup(mk("last", x), mk("init", x)))
    return bind(a[0], f)


@m("slice::repeat")
def _(self, st, a, c):
    return None


@m("slice::contains")
def _(self, st, a, c):
    v = self.seq(a[0])
    return any_fn(self, v, lambda x: self.eqv(x, a[1]))


def any_fn(self, v, f):
    r = FALSE
    for g in segs(v):
        if g[0] == "e":
            r = bor(r, f(g[1]))
        elif g[0] == "alt":
            r = bor(r, bind(g[1], lambda y: any_fn(self, y, f)))
        elif g[0] == "all":
            r = bor(r, any_of(g[1], f(self.I.elemof(g[1]))))
        elif g[0] == "each":
            r = bor(r, any_of(g[1], any_fn(self, g[2], f)))
        else:
            return truth(mk("any", v, UNIT))
    return r


@m("slice::starts_with", "slice::ends_with")
def _(self, st, a, c):
    x, y = frombytes(a[0]), frombytes(a[1])
    if x is not None and y is not None:
        return (starts_with if "starts" in c.path else ends_with)(x, y)
    return truth(mk("bool", mk("slicepre", c.path, *a)))


@m("slice::strip_prefix")
def _(self, st, a, c):
    x, y = frombytes(a[0]), frombytes(a[1])
    if x is not None and y is not None:
        return self.someif(starts_with(x, y), tobytes(after(x, y)))
    return None


# ---- sorting
def shape_of(self, v):
    """an example element of a sequence (to learn its shape)"""
    for g in segs(v):
        if g[0] == "e":
            return g[1]
        if g[0] == "all":
            return self.I.elemof(g[1])
        if g[0] == "each":
            return shape_of(self, g[2])
        if g[0] == "alt":
            for l in leaves(g[1]):
                r = shape_of(self, l)
                if r is not None:
                    return r
    return None


def symelem(self, tag, sh, ty, n=0):
    t = ty
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is not None and t[0] == "tuple":
        return tup(*[symelem(self, tag, None, x, n * 8 + i + 1) for i, x in enumerate(t[1])])
    b = mk("srt", tag, n)
    if t is not None and t[0] in ("int", "bool", "char"):
        return self.I.typed(b, t)
    if t is not None and t[0] == "adt" and self.I.F.adts.get(t[1], {}).get("local"):
        return self.I.typed(b, t)
    return b


def elty(t):
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is None:
        return None
    if t[0] in ("slice", "array"):
        return t[1]
    if t[0] == "adt" and t[2]:
        return t[2][0]
    return None


def localcmp(self, st, ty, x, y):
    """comparison by Ord of the element type, None when it is the structural one"""
    t = self.strip(ty) if ty else None
    if t is None or t[0] != "adt":
        return None
    b = self.localimpl("core::cmp::Ord", (t,), "cmp")
    if b is not None and not b.get("from_expansion"):
        return self.I.method(st, "core::cmp::Ord", "cmp", t, [x, y])
    return None


@m("slice::sort", "slice::sort_unstable", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    et = elty(c.atys[0])
    t = self.strip(et) if et else None
    x, y = symelem(self, 0, None, et), symelem(self, 1, None, et)
    r = localcmp(self, st, et, x, y)
    if r is None or r is self.cmp3(x, y):
        new = self.sorted(v)
    else:
        new = mk("sortby", v, r)
    self.I.write(st, a[0], new)
    return UNIT


@m("slice::sort_by", "slice::sort_unstable_by", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    et = elty(c.atys[0])
    x, y = symelem(self, 0, None, et), symelem(self, 1, None, et)
    r = self.call(st, a[1], x, y)
    new = self.sorted(v) if r is self.cmp3(x, y) else mk("sortby", v, r)
    self.I.write(st, a[0], new)
    return UNIT


@m("slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    et = elty(c.atys[0])
    x, y = symelem(self, 0, None, et), symelem(self, 1, None, et)
    kx, ky = self.call(st, a[1], x), self.call(st, a[1], y)
    r = self.cmp3(kx, ky)
    new = self.sorted(v) if r is self.cmp3(x, y) else mk("sortby", v, r)
    self.I.write(st, a[0], new)
    return UNIT


@m("slice::is_sorted")
def _(self, st, a, c):
    return TRUE if a[0].op in ("sorted", "sortset") else truth(mk("bool", mk("issorted", a[0])))


# ================================================================ maps and sets
BT = "alloc::collections::btree::map::"
HM = "std::collections::hash::map::"


@m(BT + "BTreeMap::new")
def _(self, st, a, c):
    return mk("map", VNIL)


@m(HM + "HashMap::new", HM + "HashMap::with_capacity")
def _(self, st, a, c):
    return mk("map", VNIL, "hash")


@m("alloc::collections::btree::set::BTreeSet::new")
def _(self, st, a, c):
    return mk("btset", VNIL)


@m("std::collections::hash::set::HashSet::new", "std::collections::hash::set::HashSet::with_capacity")
def _(self, st, a, c):
    return mk("hset", VNIL)


@m("alloc::collections::btree::set::BTreeSet::insert", "std::collections::hash::set::HashSet::insert", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    x = self.I.deref(st, a[1])
    new = bnot(sethas(self, v, x))
    self.I.write(st, a[0], bind(v, lambda y: mk(y.op, vcat(y.a[0], vec(E(x)))) if y.op in ("btset", "hset") else mk("setadd", y, x)))
    return new


def sethas(self, v, x):
    def f(y):
        if y.op in ("btset", "hset"):
            if any(g[0] == "all" and g[1].op == "carry" for g in segs(y.a[0])):
                return truth(mk("mhas", y, x))
            return any_fn(self, y.a[0], lambda e: self.eqv(e, x))
        return truth(mk("mhas", y, x))
    return bind(v, f)


@m("alloc::collections::btree::set::BTreeSet::contains", "std::collections::hash::set::HashSet::contains")
def _(self, st, a, c):
    return sethas(self, a[0], a[1])


@m(BT + "BTreeMap::entry", HM + "HashMap::entry", raw=True)
def _(self, st, a, c):
    return mk("entry", a[0], self.I.deref(st, a[1]))


def entry_ptr(self, e):
    p, k = e.a
    return self.I.ptr(p.a[0], p.a[1] + (("key", k),))


@mx(r"^(?:alloc::collections::btree::map::entry::|std::collections::hash::map::)Entry::(or_insert_with|or_insert|or_default|or_insert_with_key|and_modify|key)$", raw=True)
def _(self, st, a, c):
    I = self.I
    e = a[0]
    op = c.m.group(1)
    if e.op != "entry" or e.a[0].op != "ptr":
        return None
    p = entry_ptr(self, e)
    mp = I.deref(st, e.a[0])
    k = e.a[1]
    has = self.mhas(mp, k)
    if op == "key":
        return k
    if op == "and_modify":
        def f(t):
            self.call(t, a[1], p)
            return UNIT
        self.branch(st, has, f, lambda t: UNIT)
        return mk("entry", e.a[0], k)
    if op == "or_insert_with":
        val = lambda t: self.call(t, a[1])
    elif op == "or_insert":
        val = lambda t: a[1]
    elif op == "or_default":
        rt = c.rty
        while rt is not None and rt[0] == "ref":
            rt = rt[2]
        val = lambda t: default(self, t, rt)
    else:
        val = lambda t: self.call(t, a[1], k)
    v = val(st)
    if v is VNIL or v is EMPTY or v is INT(0):
        # absent reads as empty: record the key and go on
        def g(x):
            if x.op != "map":
                return x
            log = x.a[0]
            if log.op == "vec" and log.a and log.a[-1][0] == "e" and log.a[-1][1].op == "touch" and log.a[-1][1].a[0] is k:
                return x
            return self.mlog(x, mk("touch", k))
        if e.a[0].op == "ptr":
            I.write(st, e.a[0], bind(mp, g))
        return p
    self.branch(st, has, lambda t: UNIT, lambda t: putabsent(self, t, e, k, v))
    return p


def putabsent(self, st, e, k, v):
    """insert at a key known to be absent: an element vector counts as pushes"""
    I = self.I
    mp = I.deref(st, e.a[0])

    def f(x):
        if x.op == "map" and v.op == "vec" and v.a and all(g[0] == "e" for g in v.a):
            r = x
            for g in v.a:
                r = self.mlog(r, mk("push", k, g[1]))
            return r
        if x.op == "map":
            return self.mlog(x, mk("put", k, v))
        return mk("mset", x, k, v)
    I.write(st, e.a[0], bind(mp, f))
    return UNIT


@m(BT + "BTreeMap::insert", HM + "HashMap::insert", raw=True)
def _(self, st, a, c):
    I = self.I
    mp = I.deref(st, a[0])
    k, v = I.deref(st, a[1]), a[2]
    has = self.mhas(mp, k)
    if implies(st.pc, bnot(has)) and mp.op == "map":
        putabsent(self, st, mk("entry", a[0], k), k, v)
        return NONE
    old = self.mapget_raw(mp, k)
    I.write(st, a[0], bind(mp, lambda x: self.mlog(x, mk("put", k, v)) if x.op == "map" else mk("mset", x, k, v)))
    return self.someif(has, old)


@m(BT + "BTreeMap::get", HM + "HashMap::get")
def _(self, st, a, c):
    return self.someif(self.mhas(a[0], a[1]), self.mapget_raw(a[0], a[1]))


@m(BT + "BTreeMap::get_mut", HM + "HashMap::get_mut", raw=True)
def _(self, st, a, c):
    mp = self.I.deref(st, a[0])
    k = self.I.deref(st, a[1])
    if a[0].op != "ptr":
        return None
    return self.someif(self.mhas(mp, k), self.I.ptr(a[0].a[0], a[0].a[1] + (("key", k),)))


@m(BT + "BTreeMap::contains_key", HM + "HashMap::contains_key")
def _(self, st, a, c):
    return self.mhas(a[0], a[1])


@m(BT + "BTreeMap::remove", HM + "HashMap::remove", raw=True)
def _(self, st, a, c):
    mp = self.I.deref(st, a[0])
    k = self.I.deref(st, a[1])
    r = self.someif(self.mhas(mp, k), self.mapget_raw(mp, k))
    self.I.write(st, a[0], mk("mdel", mp, k))
    return r


@m(BT + "BTreeMap::clear", HM + "HashMap::clear", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lambda x: mk("map", VNIL, *x.a[1:]) if x.op == "map" else mk("map", VNIL))
    return UNIT


@m("alloc::collections::btree::set::BTreeSet::clear", "std::collections::hash::set::HashSet::clear", raw=True)
def _(self, st, a, c):
    self.update(st, a[0], lambda x: mk(x.op, VNIL) if x.op in ("btset", "hset") else mk("btset" if "BTree" in c.path else "hset", VNIL))
    return UNIT


@m("alloc::collections::btree::set::BTreeSet::retain", "std::collections::hash::set::HashSet::retain", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])

    def f(x):
        r = self.mapseq_fn(st, self.seq(x), lambda s, y: self.ite(truth(self.call(s, a[1], y)), vec(E(y)), VNIL))
        return mk(x.op, r) if x.op in ("btset", "hset") else None
    if all(x.op in ("btset", "hset") for x in leaves(v)):
        self.I.write(st, a[0], bind(v, f))
        return UNIT
    return None


@m("alloc::collections::btree::set::BTreeSet::remove", "std::collections::hash::set::HashSet::remove", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    x = self.I.deref(st, a[1])
    if not all(y.op in ("btset", "hset") for y in leaves(v)):
        return None
    had = sethas(self, v, x)
    self.I.write(st, a[0], bind(v, lambda y: mk(y.op, self.mapseq_fn(st, self.seq(y), lambda s, e: self.ite(self.eqv(e, x), VNIL, vec(E(e)))))))
    return had


@m(BT + "BTreeMap::retain", HM + "HashMap::retain", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    if not all(x.op == "map" for x in leaves(v)):
        return None

    def f(x):
        def g(s, e):
            k, w = self.I.field(e, None, 0), self.I.field(e, None, 1)
            key = self.I.newkey()
            s.mem[key] = w
            r = truth(self.call(s, a[1], k, self.I.ptr(key)))
            return self.ite(r, vec(E(mk("put", k, s.mem[key]))), VNIL)
        return mk("map", self.mapseq_fn(st, self.seq(x), g), *x.a[1:])
    self.I.write(st, a[0], bind(v, f))
    return UNIT


@m(BT + "BTreeMap::append", raw=True)
def _(self, st, a, c):
    x = self.I.deref(st, a[1])
    v = self.I.deref(st, a[0])
    if x.op != "map" or v.op != "map":
        return None
    s = self.seq(x)
    self.I.write(st, a[0], mk("map", vcat(v.a[0], seqbody(s, lambda e: mk("put", self.I.field(e, None, 0), self.I.field(e, None, 1)))), *v.a[1:]))
    self.I.write(st, a[1], mk("map", VNIL))
    return UNIT


@m(BT + "BTreeMap::first_key_value", BT + "BTreeMap::last_key_value", "alloc::collections::btree::set::BTreeSet::first",
   "alloc::collections::btree::set::BTreeSet::last")
def _(self, st, a, c):
    op = "first" if "first" in c.path.split("::")[-1] else "last"
    return bind(a[0], lambda x: bind(self.seq(x), lambda s: self.someif(bnot(is_empty(s)), mk("idxof" + op, s))))


@m(BT + "BTreeMap::pop_first", BT + "BTreeMap::pop_last", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[0])
    if v.op != "map":
        return None
    s = self.seq(v)
    op = "first" if c.path.endswith("first") else "last"
    x = mk("idxof" + op, s)
    self.I.write(st, a[0], mk("mdel", v, self.I.field(x, None, 0)))
    return self.someif(bnot(is_empty(s)), x)


@m(BT + "BTreeMap::keys", HM + "HashMap::keys", BT + "BTreeMap::into_keys", HM + "HashMap::into_keys")
def _(self, st, a, c):
    def f(x):
        s = self.seq(x)
        if s.op == "group":
            return mk("iter", self.sortset(seqbody(s.a[0], lambda e: self.I.field(e, None, 0))))
        if s.op == "lastmap":
            return mk("iter", self.sortset(seqbody(s.a[0], lambda e: self.I.field(e, None, 0))))
        return mk("iter", seqbody(s, lambda e: self.I.field(e, None, 0)))
    return bind(a[0], f)


@m(BT + "BTreeMap::values", HM + "HashMap::values", BT + "BTreeMap::into_values", HM + "HashMap::into_values")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("iter", seqbody(self.seq(x), lambda e: self.I.field(e, None, 1))))


# ================================================================ iterators
@m("core::iter::traits::collect::IntoIterator::into_iter", "slice::iter", "alloc::vec::Vec::iter",
   BT + "BTreeMap::iter", HM + "HashMap::iter", "alloc::collections::btree::set::BTreeSet::iter",
   "std::collections::hash::set::HashSet::iter", O + "iter", O + "into_iter", R + "iter", R + "into_iter",
   "alloc::collections::vec_deque::VecDeque::iter", raw=True)
def _(self, st, a, c):
    v = a[0]
    if v.op == "ptr":
        inner = self.I.deref(st, v)
        t = c.targs[0] if c.targs else c.atys[0]
        if inner.op == "iter" or (inner.op == "sel" and all(x.op == "iter" for x in leaves(inner))):
            return v            # &mut iterator
        if t is not None and t[0] == "ref" and t[1] and not c.path.endswith("::iter"):
            return itermut(self, st, v, inner, t)
        v = inner
    t = self.strip(c.targs[0] if c.targs else c.atys[0])
    if t is not None and t[0] == "adt" and t[1] in (OPT, RES):
        if t[1] == OPT:
            s, p = self.optsplit(v, t)
        else:
            s, p, _ = self.ressplit(v, t)
        return mk("iter", self.ite(s, vec(E(p)), VNIL))
    if t is not None and t[0] == "tuple":
        pass
    return bind(v, lambda x: x if x.op == "iter" else mk("iter", self.seq(x)))


def itermut(self, st, p, v, t=None):
    sg = segs(v)
    if v.op == "vec" and all(g[0] == "e" for g in sg):
        return mk("iter", vec(*[E(self.I.ptr(p.a[0], p.a[1] + (("idx", INT(i)),))) for i in range(len(sg))]))
    return mk("iter", mk("itermut", p, *((elemtype(self, t),) if elemtype(self, t) else ())))


def elemtype(self, t):
    t = self.strip(t)
    if t is not None and t[0] == "adt" and t[2] and t[1] in ("alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"):
        return self.strip(t[2][0])
    if t is not None and t[0] in ("slice", "array"):
        return self.strip(t[1])
    return None


@m("slice::iter_mut", "alloc::vec::Vec::iter_mut", "alloc::collections::vec_deque::VecDeque::iter_mut", raw=True)
def _(self, st, a, c):
    if a[0].op == "ptr":
        return itermut(self, st, a[0], self.I.deref(st, a[0]), c.atys[0])
    return None


def iterloc(self, st, p):
    """location of the iterator behind a chain of references"""
    n = 0
    while p.op == "ptr" and n < 20:
        v = self.I.readloc(st, p.a)
        if v.op != "ptr":
            return p.a, v
        p = v
        n += 1
    return None, p


@m(IT + "next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back#", raw=True)
def _(self, st, a, c):
    loc, v = iterloc(self, st, a[0])
    if loc is None:
        return None
    t = self.strip(c.targs[0]) if c.targs else None
    if v.op not in ("iter", "sel"):
        v2 = mk("iter", self.seq(v))
        if v.op in ("adt", "rangei") and v2.a[0] is not v:
            v = v2
            self.I.writeloc(st, loc, v)
        else:
            return self.I.unk("next", v)
    return nextfrom(self, st, loc, v, c)


def nextfrom(self, st, loc, v, c):
    from interp import SymNext, MORE
    s = self.I.seqof(v) if all(x.op == "iter" for x in leaves(v)) else None
    if s is None:
        return self.I.unk("next", v)
    sg = segs(s)
    if not sg:
        return NONE
    g = sg[0]
    if g[0] == "e":
        self.I.writeloc(st, loc, mk("iter", vec(*sg[1:])))
        return some(g[1])
    if g[0] == "more":
        return self.I.unk("next-twice", v)
    if g[0] == "alt" and all(segs(x) == () or (x.op == "vec" and x.a[0][0] == "e") for x in leaves(g[1])):
        # a selection between ready fronts
        rest = sg[1:]

        def tl(x):
            return vec(*segs(x)[1:], *rest)

        def hd(x):
            if segs(x):
                return some(segs(x)[0][1])
            return None
        if not rest:
            self.I.writeloc(st, loc, bind(g[1], lambda x: mk("iter", tl(x))))
            return bind(g[1], lambda x: some(segs(x)[0][1]) if segs(x) else NONE)
    if self.I.loopdepth > 0 and c.site not in self.I.direct:
        raise SymNext(loc, c.site)
    e = is_empty(s)
    self.I.writeloc(st, loc, mk("iter", seqtail(s)))
    return self.someif(bnot(e), seqhead(self, s))


@m(IT + "peekable")
def _(self, st, a, c):
    return a[0]


@m("core::iter::adapters::peekable::Peekable::peek", raw=True)
def _(self, st, a, c):
    loc, v = iterloc(self, st, a[0])
    s = self.I.seqof(v) if all(x.op == "iter" for x in leaves(v)) else None
    if s is None:
        return None
    sg = segs(s)
    if not sg:
        return NONE
    if sg[0][0] == "e":
        return some(sg[0][1])
    if sg[0][0] == "more":
        return mk("unk", "peek", s)
    return self.someif(bnot(is_empty(s)), seqhead(self, s))


def it(self, v):
    return bind(v, lambda x: x.a[0] if x.op == "iter" else self.seq(x))


@m(IT + "map")
def _(self, st, a, c):
    return mk("iter", self.mapseq_fn(st, it(self, a[0]), lambda s, x: vec(E(self.call(s, a[1], x)))))


@m(IT + "filter")
def _(self, st, a, c):
    return mk("iter", self.mapseq_fn(st, it(self, a[0]), lambda s, x: self.ite(truth(self.call(s, a[1], x)), vec(E(x)), VNIL)))


@m(IT + "filter_map")
def _(self, st, a, c):
    def f(s, x):
        r = self.call(s, a[1], x)
        k, p = self.optsplit(r)
        return self.ite(k, vec(E(p)), VNIL)
    return mk("iter", self.mapseq_fn(st, it(self, a[0]), f))


@m(IT + "flat_map")
def _(self, st, a, c):
    def f(s, x):
        r = self.I.deref(s, self.call(s, a[1], x))
        return it(self, r)
    return mk("iter", self.mapseq_fn(st, it(self, a[0]), f))


@m(IT + "flatten")
def _(self, st, a, c):
    def f(s, x):
        x = self.I.deref(s, x)
        if x.op not in ("vec", "iter", "bytelit") and not (x.op == "sel"):
            return self.seq(x)
        return bind(x, lambda y: self.seq(y))
    return mk("iter", self.mapseq_fn(st, it(self, a[0]), f))


@m(IT + "chain")
def _(self, st, a, c):
    return mk("iter", vcat(it(self, a[0]), it(self, a[1])))


@m("core::iter::sources::once::once")
def _(self, st, a, c):
    return mk("iter", vec(E(a[0])))


@m("core::iter::sources::empty::empty")
def _(self, st, a, c):
    return mk("iter", VNIL)


@m("core::iter::sources::repeat::repeat", "core::iter::sources::repeat_n::repeat_n")
def _(self, st, a, c):
    if len(a) == 2:
        return mk("iter", self.repeat(a[0], a[1]))
    return mk("iter", mk("forever", a[0]))


@m(IT + "rev")
def _(self, st, a, c):
    return mk("iter", rev(self, it(self, a[0])))


@m(IT + "enumerate")
def _(self, st, a, c):
    return mk("iter", enum(self, it(self, a[0]), INT(0)))


def enum(self, v, n):
    out = []
    for g in segs(v):
        if g[0] == "e":
            out.append(E(tup(n, g[1])))
            n = add(n, INT(1))
        elif g[0] == "all":
            out.append(("each", g[1], vec(E(tup(add(n, mk("idx", g[1])), self.I.elemof(g[1]))))))
            n = add(n, self.length(g[1]))
        elif g[0] == "each" and g[2].op == "vec" and len(g[2].a) == 1 and g[2].a[0][0] == "e":
            out.append(("each", g[1], vec(E(tup(add(n, mk("idx", g[1])), g[2].a[0][1])))))
            n = add(n, self.length(g[1]))
        elif g[0] == "alt" and len(segs(v)) == 1:
            return bind(g[1], lambda x: enum(self, x, n))
        else:
            return mk("enum", v)
    return vec(*out)


@m(IT + "zip", "core::iter::adapters::zip::zip")
def _(self, st, a, c):
    x, y = it(self, a[0]), it(self, a[1])
    x = bind(x, lambda p: self.seq(p))
    y = bind(y, lambda p: self.seq(p))
    return mk("iter", zipv(self, x, y))


def zipv(self, x, y):
    if x.op == "sel":
        return bind(x, lambda p: zipv(self, p, y))
    if y.op == "sel":
        return bind(y, lambda p: zipv(self, x, p))
    sx, sy = segs(x), segs(y)
    if all(g[0] == "e" for g in sx) and all(g[0] == "e" for g in sy):
        return vec(*[E(tup(p[1], q[1])) for p, q in zip(sx, sy)])
    if len(sx) == len(sy) and all(p[0] == q[0] == "e" or (p[0] in ("all", "each") and q[0] in ("all", "each") and p[1] is q[1])
                                  for p, q in zip(sx, sy)):
        out = []
        for p, q in zip(sx, sy):
            if p[0] == "e":
                out.append(E(tup(p[1], q[1])))
                continue
            bp = p[2] if p[0] == "each" else vec(E(self.I.elemof(p[1])))
            bq = q[2] if q[0] == "each" else vec(E(self.I.elemof(q[1])))
            if not (bp.op == bq.op == "vec" and len(bp.a) == len(bq.a) == 1 and bp.a[0][0] == bq.a[0][0] == "e"):
                return mk("zip", x, y)
            out.append(("each", p[1], vec(E(tup(bp.a[0][1], bq.a[0][1])))))
        return vec(*out)
    return mk("zip", x, y)


@m(IT + "unzip")
def _(self, st, a, c):
    v = it(self, a[0])
    return tup(seqbody(v, lambda e: self.I.field(e, None, 0)), seqbody(v, lambda e: self.I.field(e, None, 1)))


@m(IT + "skip", IT + "take", IT + "step_by")
def _(self, st, a, c):
    v = it(self, a[0])
    n = a[1]
    op = c.path.split("::")[-1]

    def f(x):
        sg = segs(x)
        if n.op == "int" and op != "step_by":
            k = n.a[0]
            if all(g[0] == "e" for g in sg[:k]) and (len(sg) >= k or all(g[0] == "e" for g in sg)):
                return mk("iter", vec(*sg[k:]) if op == "skip" else vec(*sg[:k]))
            if k == 0:
                return mk("iter", x if op == "skip" else VNIL)
        return mk("iter", mk("itercut", op, x, n))
    return bind(v, f)


@m(IT + "skip_while", IT + "take_while", IT + "map_while", IT + "scan")
def _(self, st, a, c):
    return mk("iter", mk("iterpred", c.path.split("::")[-1], *a))


@m(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def _(self, st, a, c):
    v = it(self, a[0])
    t = c.rty if c.rty is not None else (c.targs[1] if len(c.targs) > 1 else None)
    ety = None
    it0 = self.strip(c.atys[0]) if c.atys else None
    if it0 is not None and it0[0] == "adt" and "Chars" in it0[1]:
        ety = ("char",)
    elif v.op == "chars":
        ety = ("char",)
    return self.collect(st, v, t, ety)


@m(IT + "any", raw=True)
def _(self, st, a, c):
    v = it(self, self.I.deref(st, a[0]))
    consume(self, st, a[0])

    def step(s, x, key):
        r = truth(self.call(s, a[1], x))
        return exits_on(s, r)
    key, b, ex = self.accum(st, v, UNIT, step)
    return self.finish(st, key, b, ex, lambda s: FALSE, lambda t, s: TRUE)


def exits_on(s, r, val=None, key=None):
    ex = []
    p = band(s.pc, r)
    if p is not FALSE:
        s2 = s.copy()
        s2.pc = p
        if key is not None:
            s2.mem[key] = val
        ex.append(("x", s2))
    s.pc = band(s.pc, bnot(r))
    if s.pc is FALSE:
        return None, ex
    return s, ex


def consume(self, st, p):
    if p.op == "ptr":
        loc, v = iterloc(self, st, p)
        if loc is not None and all(x.op == "iter" for x in leaves(v)):
            self.I.writeloc(st, loc, mk("iter", mk("consumed", v)))


@m(IT + "all", raw=True)
def _(self, st, a, c):
    v = it(self, self.I.deref(st, a[0]))
    consume(self, st, a[0])

    def step(s, x, key):
        r = truth(self.call(s, a[1], x))
        return exits_on(s, bnot(r))
    key, b, ex = self.accum(st, v, UNIT, step)
    return self.finish(st, key, b, ex, lambda s: TRUE, lambda t, s: FALSE)


@m(IT + "find", IT + "position", IT + "find_map", raw=True)
def _(self, st, a, c):
    op = c.path.split("::")[-1]
    v = it(self, self.I.deref(st, a[0]))
    consume(self, st, a[0])
    if op == "position":
        v = enum(self, v, INT(0))

    def step(s, x, key):
        if op == "find_map":
            k, p = self.optsplit(self.call(s, a[1], x))
            return exits_on(s, k, p, key)
        if op == "position":
            i, y = self.I.field(x, None, 0), self.I.field(x, None, 1)
            return exits_on(s, truth(self.call(s, a[1], y)), i, key)
        return exits_on(s, truth(self.call(s, a[1], x)), x, key)
    key, b, ex = self.accum(st, v, UNIT, step)
    return self.finish(st, key, b, ex, lambda s: NONE, lambda t, s: some(s.mem[key]))


@m(IT + "fold")
def _(self, st, a, c):
    v = it(self, a[0])

    def step(s, x, key):
        r = self.call(s, a[2], s.mem[key], x)
        if s.pc is FALSE:
            return None, []
        s.mem[key] = r
        return s, []
    key, b, ex = self.accum(st, v, a[1], step)
    return self.finish(st, key, b, ex, lambda s: s.mem[key], None)


@m(IT + "reduce")
def _(self, st, a, c):
    v = it(self, a[0])
    if v.op != "vec" or len(v.a) != 1 or v.a[0][0] != "e":
        # joining: what came before, a separator, the next text
        u = st.copy()
        acc, nxt = mk("redacc", v), mk("rednext", v)
        r = self.call(u, a[1], acc, nxt)
        ps = str_parts(r) if r.op == "concat" else ()
        if len(ps) == 3 and ps[0] is acc and ps[1].op == "lit" and ps[2] is nxt and u.pc is st.pc:
            return bind(v, lambda x: self.someif(bnot(is_empty(x)), join(x, ps[1])))

    def step(s, x, key):
        k, p = self.optsplit(s.mem[key])
        r = self.branch(s, k, lambda t: some(self.call(t, a[1], p, x)), lambda t: some(x))
        if s.pc is FALSE:
            return None, []
        s.mem[key] = r
        return s, []
    key, b, ex = self.accum(st, v, NONE, step)
    return self.finish(st, key, b, ex, lambda s: s.mem[key], None)


@m(IT + "partition")
def _(self, st, a, c):
    v = it(self, a[0])
    t = self.strip(c.rty)
    ts = t[1] if t is not None and t[0] == "tuple" else (None, None)
    both = self.mapseq_fn(st, v, lambda s, x: (lambda k: vec(E(tup(self.ite(k, vec(E(x)), VNIL), self.ite(k, VNIL, vec(E(x)))))))(truth(self.call(s, a[1], x))))
    out = []
    for i in (0, 1):
        y = seqflat(both, lambda e: self.I.field(e, None, i))
        out.append(self.collect(st, y, ts[i] if ts[i] is not None else ("adt", "alloc::vec::Vec", ()), None))
    return tup(*out)


@m(IT + "min_by_key", IT + "max_by_key", IT + "min_by", IT + "max_by")
def _(self, st, a, c):
    v = it(self, a[0])
    op = c.path.split("::")[-1]
    return bind(v, lambda x: x.a and len(segs(x)) == 1 and segs(x)[0][0] == "e" and some(segs(x)[0][1]) or
                self.someif(bnot(is_empty(x)), mk("iter" + op, x, *a[1:])))


@m(IT + "rfind", IT + "rposition", "core::iter::traits::double_ended::DoubleEndedIterator::rfind", raw=True)
def _(self, st, a, c):
    at = c.path.endswith("rposition")
    v = it(self, self.I.deref(st, a[0]))
    v = bind(enum(self, v, INT(0)) if at else v, lambda x: rev(self, x))
    consume(self, st, a[0])

    def step(s, x, key):
        if at:
            return exits_on(s, truth(self.call(s, a[1], self.I.field(x, None, 1))), self.I.field(x, None, 0), key)
        return exits_on(s, truth(self.call(s, a[1], x)), x, key)
    key, b, ex = self.accum(st, v, UNIT, step)
    return self.finish(st, key, b, ex, lambda s: NONE, lambda t, s: some(s.mem[key]))


@m(IT + "ne")
def _(self, st, a, c):
    return bnot(truth(self.eqv(it(self, a[0]), it(self, a[1]))))


@m(IT + "try_fold", raw=True)
def _(self, st, a, c):
    v = it(self, self.I.deref(st, a[0]))
    consume(self, st, a[0])
    rt = self.strip(c.rty)
    isopt = rt is not None and rt[:2] == ("adt", OPT)

    def step(s, x, key):
        r = self.call(s, a[2], s.mem[key], x)
        if s.pc is FALSE:
            return None, []
        if isopt:
            k, p = self.optsplit(r)
            s2, ex = exits_on(s, bnot(k), UNIT, key)
        else:
            k, p, e = self.ressplit(r)
            s2, ex = exits_on(s, bnot(k), e, key)
        if s2 is not None:
            s2.mem[key] = p
        return s2, ex
    key, b, ex = self.accum(st, v, a[1], step)
    return self.finish(st, key, b, ex, lambda s: some(s.mem[key]) if isopt else ok(s.mem[key]),
                       lambda t, s: NONE if isopt else err(s.mem[key]))


@m(IT + "for_each")
def _(self, st, a, c):
    v = it(self, a[0])

    def step(s, x, key):
        self.call(s, a[1], x)
        return (None, []) if s.pc is FALSE else (s, [])
    key, b, ex = self.accum(st, v, UNIT, step)
    return self.finish(st, key, b, ex, lambda s: UNIT, None)


@m(IT + "try_for_each", raw=True)
def _(self, st, a, c):
    v = it(self, self.I.deref(st, a[0]))
    consume(self, st, a[0])

    def step(s, x, key):
        r = self.call(s, a[1], x)
        if s.pc is FALSE:
            return None, []
        k, p, e = self.ressplit(r)
        return exits_on(s, bnot(k), e, key)
    key, b, ex = self.accum(st, v, UNIT, step)
    return self.finish(st, key, b, ex, lambda s: ok(UNIT), lambda t, s: err(s.mem[key]))


@m(IT + "count")
def _(self, st, a, c):
    return self.length(it(self, a[0]))


@m(IT + "sum", IT + "product")
def _(self, st, a, c):
    return mk("sumof", c.path.split("::")[-1], it(self, a[0]))


@m(IT + "last", IT + "min", IT + "max", IT + "nth")
def _(self, st, a, c):
    v = it(self, a[0])
    op = c.path.split("::")[-1]

    def f(x):
        sg = segs(x)
        if op == "last" and sg and sg[-1][0] == "e":
            return some(sg[-1][1])
        return self.someif(bnot(is_empty(x)), mk("iter" + op, x, *a[1:]))
    return bind(v, f)


@m("core::iter::traits::iterator::Iterator::size_hint")
def _(self, st, a, c):
    return mk("sizehint", a[0])


@m(IT + "eq")
def _(self, st, a, c):
    return self.eqv(it(self, a[0]), it(self, a[1]))


@m("core::array::map", "array::map")
def _(self, st, a, c):
    return self.mapseq_fn(st, a[0], lambda s, x: vec(E(self.call(s, a[1], x))))


@m("core::array::iter::IntoIter::new")
def _(self, st, a, c):
    return mk("iter", self.seq(a[0]))


# ================================================================ formatting
@mx(r"^core::fmt::rt::Argument::new_(\w+)$")
def _(self, st, a, c):
    return mk("fmtarg", c.m.group(1), a[0], c.targs[0] if c.targs else None)


@m("core::fmt::rt::Argument::from_usize")
def _(self, st, a, c):
    return mk("fmtarg", "usize", a[0], ("int", "usize"))


@m("core::fmt::Arguments::new", "core::fmt::Arguments::new_v1", "core::fmt::Arguments::new_v1_formatted")
def _(self, st, a, c):
    t = a[0]
    if t.op == "bytelit" and a[1].op == "vec":
        return mk("fmtargs", self.render(st, t.a[0], [g[1] for g in a[1].a]))
    if t.op == "vec" and all(g[0] == "e" and g[1].op == "int" for g in t.a) and a[1].op == "vec":
        return mk("fmtargs", self.render(st, tuple(g[1].a[0] for g in t.a), [g[1] for g in a[1].a]))
    return mk("fmtargs", mk("fmt", "args", *a))


@m("core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::from_str_nonconst")
def _(self, st, a, c):
    if a[0].op == "vec":
        return mk("fmtargs", strcat(a[0]))
    return mk("fmtargs", a[0])


@m("core::fmt::Arguments::as_str", "core::fmt::Arguments::as_statically_known_str")
def _(self, st, a, c):
    return NONE


@m("alloc::fmt::format")
def _(self, st, a, c):
    return self.fmtargs_text(st, a[0])


@m("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "core::fmt::write", raw=True)
def _(self, st, a, c):
    self.append(st, a[0], self.fmtargs_text(st, self.I.deref(st, a[1])))
    return ok(UNIT)


@mx(r"^(?:std|alloc|core)::io::(?:\w+::)*Write::(?:write_fmt|write_all)$", raw=True)
def _(self, st, a, c):
    x = self.I.deref(st, a[1])
    s = tobytes(self.fmtargs_text(st, x)) if c.path.endswith("fmt") else self.seqv(x)
    self.update(st, a[0], lambda v: vcat(v, s))
    return ok(UNIT)


@m("core::fmt::Formatter::pad", raw=True)
def _(self, st, a, c):
    self.append(st, a[0], self.I.deref(st, a[1]))
    return ok(UNIT)


@mx(r"^core::fmt::Formatter::debug_\w+$", raw=True)
def _(self, st, a, c):
    self.append(st, a[0], mk("fmt", "debug", *[self.I.deref(st, x) for x in a[1:] if isinstance(x, T)]))
    return ok(UNIT)


@mx(r"^core::fmt::(Display|Debug|LowerHex|UpperHex|LowerExp)::fmt$", raw=True)
def _(self, st, a, c):
    kind = {"Display": "display", "Debug": "debug", "LowerHex": "lower_hex", "UpperHex": "upper_hex"}.get(c.m.group(1), "debug")
    s = self.fmt_value(st, kind, a[0], c.targs[0] if c.targs else None)
    self.append(st, a[1], s)
    return ok(UNIT)


@m("core::fmt::Formatter::alternate")
def _(self, st, a, c):
    return FALSE


# ================================================================ time
@m("std::time::SystemTime::now")
def _(self, st, a, c):
    self.I.nclock += 1
    # the clock is taken not to stand before 1970 or after year 9999...: see DESIGN
    v = mk("typed", mk("in", "now#%d" % self.I.nclock), NOWRANGE)
    self.I.event("clock", st, v)
    return v


@m("std::time::Instant::now")
def _(self, st, a, c):
    self.I.nclock += 1
    v = mk("typed", mk("in", "instant#%d" % self.I.nclock), (0, SYSRANGE[1]))
    self.I.event("clock", st, v)
    return v


@m("std::time::SystemTime::duration_since")
def _(self, st, a, c):
    d = TM.sub(a[0], a[1])
    k = member(d, ((0, POS),))
    self.I.fallible(st, k, "duration_since")
    return self.okif(k, d, mk("systime_err", mulc(d, -1)))


@m("std::time::SystemTimeError::duration")
def _(self, st, a, c):
    return bind(a[0], lambda x: x.a[0] if x.op == "systime_err" else mk("errdur", x))


@m("std::time::SystemTime::elapsed")
def _(self, st, a, c):
    self.I.nclock += 1
    v = mk("typed", mk("in", "now#%d" % self.I.nclock), NOWRANGE)
    self.I.event("clock", st, v)
    d = TM.sub(v, a[0])
    k = member(d, ((0, POS),))
    self.I.fallible(st, k, "elapsed")
    return self.okif(k, d, mk("systime_err", mulc(d, -1)))


@m("std::time::SystemTime::checked_add", "std::time::SystemTime::checked_sub")
def _(self, st, a, c):
    d = add(a[0], a[1]) if c.path.endswith("add") else TM.sub(a[0], a[1])
    k = member(d, (SYSRANGE,))
    self.I.fallible(st, k, "time arithmetic")
    return self.someif(k, d)


@m("core::time::Duration::as_secs", "core::time::Duration::as_millis", "core::time::Duration::as_micros",
   "core::time::Duration::as_nanos")
def _(self, st, a, c):
    n = {"as_secs": NS, "as_millis": 10 ** 6, "as_micros": 1000, "as_nanos": 1}[c.path.split("::")[-1]]
    return divfloor(a[0], n)


@m("core::time::Duration::as_secs_f64", "core::time::Duration::as_secs_f32", "core::time::Duration::as_millis_f64")
def _(self, st, a, c):
    return mk("float", c.path.split("::")[-1], a[0])


@mx(r"^(?:std|core)?(?:::)?f64::(round|ceil|floor|trunc)$")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("fround", c.m.group(1), x))


@m("core::time::Duration::subsec_nanos", "core::time::Duration::subsec_millis", "core::time::Duration::subsec_micros")
def _(self, st, a, c):
    n = {"subsec_nanos": 1, "subsec_millis": 10 ** 6, "subsec_micros": 1000}[c.path.split("::")[-1]]
    return divfloor(modfloor(a[0], NS), n)


@mx(r"^core::time::Duration::from_(secs|millis|micros|nanos|mins|hours|days|weeks)$")
def _(self, st, a, c):
    k = {"secs": NS, "millis": 10 ** 6, "micros": 1000, "nanos": 1, "mins": 60 * NS, "hours": 3600 * NS, "days": 86400 * NS,
         "weeks": 7 * 86400 * NS}[c.m.group(1)]
    return mulc(a[0], k)


@m("core::time::Duration::new")
def _(self, st, a, c):
    return add(mulc(a[0], NS), a[1])


@mx(r"^core::time::Duration::(checked|saturating)_(add|sub)$")
def _(self, st, a, c):
    how, op = c.m.groups()
    r = add(a[0], a[1]) if op == "add" else TM.sub(a[0], a[1])
    k = member(r, (DURR,))
    if how == "checked":
        self.I.fallible(st, k, "time arithmetic")
        return self.someif(k, r)
    return self.ite(k, r, INT(DURR[0] if op == "sub" else DURR[1]))


@mx(r"^core::time::Duration::(checked|saturating)_(mul|div)$")
def _(self, st, a, c):
    how, op = c.m.groups()
    if a[1].op != "int":
        return None
    n = a[1].a[0]
    if op == "div":
        return NONE if n == 0 else some(divfloor(a[0], n))
    r = mulc(a[0], n)
    k = member(r, (DURR,))
    if how == "checked":
        self.I.fallible(st, k, "time arithmetic")
        return self.someif(k, r)
    return self.ite(k, r, INT(DURR[1]))


@m("core::time::Duration::abs_diff")
def _(self, st, a, c):
    return self.ite(icmp("Ge", a[0], a[1]), TM.sub(a[0], a[1]), TM.sub(a[1], a[0]))


@m("core::time::Duration::is_zero")
def _(self, st, a, c):
    return member(a[0], s_point(0))


# ================================================================ async
@m("core::future::get_context")
def _(self, st, a, c):
    return UNIT


@m("core::future::future::Future::poll", raw=True)
def _(self, st, a, c):
    f = a[0]
    loc = None
    n = 0
    while f.op == "ptr" and n < 20:
        loc = f.a
        f = self.I.readloc(st, f.a)
        n += 1
    r = self.await_value(st, f, loc, c)
    if st.pc is FALSE:
        return UNDEFS
    return adt(POLL, 0, r)


def await_value(self, st, f, loc, c):
    I = self.I
    if f.op == "sel":
        # await whichever future it is
        ls = list(leaves_pc(f))
        vals, states = [], []
        from interp import merge
        for p, x in ls:
            s2 = st.copy()
            s2.pc = band(st.pc, p)
            if s2.pc is FALSE:
                continue
            v = await_value(self, s2, x, None, c)
            if s2.pc is FALSE:
                continue
            vals.append((s2.pc, v))
            states.append(s2)
        mm = merge(states)
        if mm is None:
            st.pc = FALSE
            return UNDEFS
        st.assign(mm)
        return select(vals)
    if f.op == "clo":
        if loc is not None:
            I.writeloc(st, loc, mk("moved"))
        return I.run_coroutine(st, f)
    if f.op == "fut":
        return self.xawait(st, f)
    return I.unk("await", f)


MM.Models.await_value = await_value


def xawait(self, st, f):
    k = f.a[0]
    if k == "ready":
        return f.a[1]
    r = self.xawait2(st, f)
    if r is not None:
        return r
    return self.I.unk("await:" + str(k), *f.a[1:])


MM.Models.xawait = xawait
MM.Models.xawait2 = lambda self, st, f: None


@m("core::future::ready::ready")
def _(self, st, a, c):
    return mk("fut", "ready", a[0])


@m("core::future::ready::Ready::into_inner")
def _(self, st, a, c):
    return a[0].a[1] if a[0].op == "fut" else None


# ================================================================ env, fs
@m("std::env::var", "std::env::var_os")
def _(self, st, a, c):
    self.I.event("env", st, a[0])
    v = mk("env", a[0])
    k = truth(mk("okp", "env", a[0]))
    if c.path.endswith("var_os"):
        return self.someif(k, v)
    return self.okif(k, v, mk("err", "VarError", a[0]))


@mx(r"^std::env::(\w+)$")
def _(self, st, a, c):
    self.I.event("env", st, lit(c.m.group(1)))
    return None


@m("std::fs::OpenOptions::open")
def _(self, st, a, c):
    self.I.event("fs", st, "open", a[1])
    k = self.okp("open", a[1])
    self.I.fallible(st, k, "open file")
    return self.okif(k, mk("file", a[1]), mk("err", "io", lit("open"), a[1]))


@m("std::fs::File::open")
def _(self, st, a, c):
    self.I.event("fs", st, "open", a[0])
    k = self.okp("open", a[0])
    self.I.fallible(st, k, "open file")
    return self.okif(k, mk("file", a[0]), mk("err", "io", lit("open"), a[0]))


def rdtext(self, st, f, what="read"):
    return self.okp("read", f), mk("text", f)


@mx(r"^(?:std|alloc|core)::io::(?:\w+::)*read_to_string$|^<std::fs::File as (?:std|alloc|core)::io::(?:\w+::)*Read>::read_to_string$", raw=True)
def _(self, st, a, c):
    f = self.I.deref(st, a[0])
    if f.op != "file" and f.op != "sel":
        f2 = f
    self.I.event("fs", st, "read", f)
    k = self.okp("read", f)
    self.I.fallible(st, k, "read file")
    if len(a) == 1:
        return self.okif(k, mk("text", f), mk("err", "io", lit("read"), f))
    old = self.I.deref(st, a[1])
    self.I.write(st, a[1], concat(old, mk("text", f)))
    return self.okif(k, mk("typed", mk("nread", f), (0, (1 << 63) - 1)), mk("err", "io", lit("read"), f))


@mx(r"^(?:std|alloc|core)::io::(?:\w+::)*Read::read_to_end$|^<std::fs::File as (?:std|alloc|core)::io::(?:\w+::)*Read>::read_to_end$", raw=True)
def _(self, st, a, c):
    f = self.I.deref(st, a[0])
    self.I.event("fs", st, "read", f)
    k = self.okp("readb", f)
    self.I.fallible(st, k, "read file")
    old = self.I.deref(st, a[1])
    self.I.write(st, a[1], vcat(old, tobytes(mk("text", f))))
    return self.okif(k, mk("typed", mk("nread", f), (0, (1 << 63) - 1)), mk("err", "io", lit("read"), f))


@mx(r"^(?:std|alloc|core)::io::(?:\w+::)*Read::(take|chain|by_ref)$|^<std::fs::File as (?:std|alloc|core)::io::(?:\w+::)*Read>::(take|by_ref)$", raw=True)
def _(self, st, a, c):
    how = c.m.group(1) or c.m.group(2)
    if how == "by_ref":
        return a[0]
    f = self.I.deref(st, a[0])
    if has_op(f, ("file",)):
        # the beginning of the file only
        return mk("file", mk("part", how, f, self.I.deref(st, a[1])))
    return None


@m("std::fs::read_to_string")
def _(self, st, a, c):
    self.I.event("fs", st, "open", a[0])
    f = mk("file", a[0])
    k1, k2 = self.okp("open", a[0]), self.okp("read", f)
    k = band(k1, k2)
    self.I.fallible(st, k, "read file")
    return self.okif(k, mk("text", f), self.ite(k1, mk("err", "io", lit("read"), f), mk("err", "io", lit("open"), a[0])))


@m("std::fs::read")
def _(self, st, a, c):
    self.I.event("fs", st, "open", a[0])
    f = mk("file", a[0])
    k1, k2 = self.okp("open", a[0]), self.okp("readb", f)
    k = band(k1, k2)
    self.I.fallible(st, k, "read file")
    return self.okif(k, tobytes(mk("text", f)), self.ite(k1, mk("err", "io", lit("read"), f), mk("err", "io", lit("open"), a[0])))


@mx(r"^(?:std|alloc|core)::io::(?:\w+::)*BufReader::new$")
def _(self, st, a, c):
    return a[0]


@mx(r"^std::(fs|net|process|thread(?!::local)|io::stdio)::")
def _(self, st, a, c):
    self.I.event("sys", st, c.path, *a)
    return None


# ================================================================ locks of std
@mx(r"^std::sync::(?:poison::)?(?:mutex::)?Mutex::new$|^std::sync::(?:poison::)?(?:rwlock::)?RwLock::new$")
def _(self, st, a, c):
    return new_cell(self, st, a[0], "std")


def new_cell(self, st, v, kind):
    if self.I.static_ctx is not None:
        from statics import newcell
        return newcell(self, st, v, kind)
    self.ncell += 1
    key = ("cell", self.ncell)
    st.mem[key] = v
    return mk("mutex", key, kind)


MM.Models.new_cell = new_cell


@mx(r"^std::sync::(?:poison::)?(?:mutex::)?Mutex::(lock|try_lock)$|^std::sync::(?:poison::)?(?:rwlock::)?RwLock::(read|write)$")
def _(self, st, a, c):
    return bind(a[0], lambda x: ok(self.lock_cell(st, x, "blocking")))


def lock_cell(self, st, mx_, mode):
    I = self.I
    if mx_.op != "mutex":
        I.event("lock", st, ("?", mx_), mode)
        return I.unk("lock", mx_)
    key = mx_.a[0]
    if key[0] != "cell":
        I.event("slock", st, key, mode)
        return mk("guard", key, len(I.ev))
    I.event("lock", st, key, mode)
    if key in self.havocked:
        n = self.havocked[key] = self.havocked[key] + 1
        if n > 1:
            v = self.havoc_cell(key, n)
            if v is not None:
                st.mem[key] = v
    else:
        self.havocked[key] = 1
    return mk("guard", key, len(I.ev))


MM.Models.lock_cell = lock_cell
MM.Models.havocked = {}
MM.Models.havoc_cell = lambda self, key, n: None


RB = TM.REBUILD


def _rb_fld(v, variant, i):
    if v.op in ("adt", "tuple", "clo", "sel", "moved", "undef"):
        return INTERP[0].field(v, variant, i)
    return mk("fld", v, variant, i)


INTERP = [None]
RB["fld"] = _rb_fld


def _rb_disc(v, dom):
    if v.op in ("adt", "sel", "moved", "undef"):
        def f(x):
            if x.op in ("adt", "moved", "undef"):
                return INTERP[0].discr(x)
            return mk("disc", x, dom)
        return bind(v, f)
    return mk("disc", v, dom)


RB["disc"] = _rb_disc
RB["len"] = lambda v: INTERP[0].M.length(v)
RB["sorted"] = lambda v: INTERP[0].M.sorted(v)
RB["sortset"] = lambda v: INTERP[0].M.sortset(v)
RB["cmp3"] = lambda a, b: INTERP[0].M.cmp3(a, b)
RB["at"] = lambda v, i: INTERP[0].M.index(v, i)
RB["okp"] = lambda *a: mk("okp", *a)
RB["mul"] = mul
RB["bool"] = lambda x: truth(x) if x.op in ("int", "sel") else mk("bool", x)


def _rb_bin(op, x, y):
    if x.op == "int" and y.op == "int":
        p, q = x.a[0], y.a[0]
        try:
            if op == "BitAnd":
                return INT(p & q)
            if op == "BitOr":
                return INT(p | q)
            if op == "BitXor":
                return INT(p ^ q)
            if op == "Shl":
                return INT(p << q)
            if op == "Shr":
                return INT(p >> q)
            if op in ("Div", "Rem") and q:
                d = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                return INT(d if op == "Div" else p - q * d)
        except ValueError:
            pass
    if x.op == "sel" or y.op == "sel":
        return bind(x, lambda u: bind(y, lambda w: _rb_bin(op, u, w)))
    return mk("bin", op, x, y)


RB["bin"] = _rb_bin


def _rb_wrap(x, bits, s):
    if x.op == "int":
        lo = -(1 << bits - 1) if s else 0
        return INT((x.a[0] - lo) % (1 << bits) + lo)
    if x.op == "sel":
        return bind(x, lambda y: _rb_wrap(y, bits, s))
    r = rng(x)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if s else (0, (1 << bits) - 1)
    if r is not None and r[0] >= lo and r[1] <= hi:
        return x
    return mk("wrap", x, bits, s)


RB["wrap"] = _rb_wrap


def _rb_range(a, b):
    return INTERP[0].M.rangeseq(a, b)


RB["range"] = _rb_range


def _rb_push(k, v):
    return mk("push", k, v)
