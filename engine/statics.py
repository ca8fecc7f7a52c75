"""State that outlives a call: statics, thread-local values, and the cells they are made of.

Every static of the crate is a memory location of its own, holding what its initialiser
makes. When a call leaves another value behind, every analysis starts from a location that
holds either what the initialiser made or what one earlier call, with arguments of its own
(inputs named "earlier ..."), left there.
"""
import os
import re
import traceback
import terms as TM
from terms import *
import models as MM
from models import NS
from facts import int_range
from equal import cvars

PRE = "earlier "
CALL = "earlier call"
MINE = []


def mx(rx, raw=False):
    def w(f):
        MINE.append((re.compile(rx), f, raw))
        return f
    return w


# ================================================================ locations
def isstatic(key):
    return isinstance(key, tuple) and key[0] in ("static", "scell")


def setup(R):
    """give every static and thread-local value its initial content"""
    I, F = R.I, R.F
    found = {}
    for d in F.bodies.values():
        p = d["path"]
        last = p.split("::")[-1]
        if d["kind"].startswith("Static") and last != "__RUST_STD_INTERNAL_VAL":
            found[("static", d["id"])] = d
        elif last in ("__RUST_STD_INTERNAL_INIT", "__rust_std_internal_init_fn"):
            found[("static", p.rsplit("::", 1)[0])] = d
    I.statics = found
    if not found:
        return
    for key, d in found.items():
        if d["kind"] == "Fn":
            I.lazyf[key] = mk("initfn", d["id"])
            R.st.mem[key] = adt("$lazy", 0, I.lazyf[key])
            continue
        n = len(I.ev)
        I.static_ctx = key[1]
        try:
            R.st.mem[key] = I.run(F.body(d["id"]), d, {}, [], R.st)
        finally:
            I.static_ctx = None
            del I.ev[n:]
    R.init = {k: v for k, v in R.st.mem.items() if isstatic(k)}
    for k, v in history(F).items():
        if k in R.init:
            R.st.mem[k] = select([(c, x if x is not None else R.init[k]) for c, x in v])


def changed(R):
    return {k: v for k, v in R.st.mem.items() if isstatic(k) and k in R.init and v is not R.init[k]}


MAXLEFT = 40


def history(F):
    """static -> [(which earlier call, content left or None)]

    What a call leaves is taken apart into the values it can be: which of them it was is
    one choice, the same for all statics."""
    h = getattr(F, "history", None)
    if h is not None:
        return h
    F.history = {}
    F.left = []
    import runs
    left = []
    keys = []
    for f, k in ((runs.run_url, "sa"), (runs.run_form, "sa"), (runs.run_url, "bt"), (runs.run_form, "bt")):
        try:
            R = f(F, k).R
        except Exception:  # an analysis that fails does so again in the check itself
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            continue
        ch = changed(R)
        if not ch:
            continue
        F.left.append((k, ch))
        keys += [x for x in ch if x not in keys]
        names = list(ch)

        def joint(ns, pc, acc):
            if not ns:
                d = {n: counted(R, n, x) for n, x in zip(names, acc) if x is not R.init[n]}
                if d:
                    d[""] = proven(pc, d.values())
                    if d not in left:
                        left.append(d)
                return
            for c, x in leaves_pc(restrict(ch[ns[0]], pc)):
                c = band(pc, c)
                if c is not FALSE and len(left) <= MAXLEFT:
                    joint(ns[1:], c, acc + [x])
        joint(names, TRUE, [])
    if not left:
        return F.history
    out = {}
    if len(left) > MAXLEFT:
        for k in keys:
            out[k] = [(TRUE, mk("unk", "static"))]
        F.history = out
        return out
    v = mk("typed", mk("in", CALL), (0, len(left)))
    memo = {}
    took = [band(cond(v, s_point(n + 1)), mapt(d[""], rename, memo)) for n, d in enumerate(left)]
    none = TRUE
    for c in took:
        none = band(none, bnot(c))
    for k in keys:
        out[k] = [(none, None)] + [(c, mapt(d[k], rename, memo) if k in d else None) for c, d in zip(took, left)]
    F.history = out
    return out


def counted(R, k, x):
    """a counter that a call has raised or lowered: any number of calls may have done so"""
    i = R.init[k]
    if x.op != "int" or i.op != "int":
        return x
    d = R.I.statics.get(k)
    t = R.F.ty(R.F.body(d["id"]).locals[0][0], {}) if d is not None and d["kind"].startswith("Static") else None
    while t is not None and t[0] == "adt" and t[2] and t[1] != "core::sync::atomic::Atomic":
        t = t[2][0]
    if t is None or t[0] != "adt" or t[1] != "core::sync::atomic::Atomic" or not t[2] or t[2][0][0] != "int":
        return x
    a, b = i.a[0], x.a[0]
    lo, hi = int_range(t[2][0][1])
    return mk("typed", mk("in", "count %s" % d["path"]), (b, min(hi, b + 2 ** 40)) if b > a else (max(lo, b - 2 ** 40), b))


def inputs(t):
    return {x for x in subterms(t) if x.op in ("in", "resp", "now", "random", "env")}


def proven(pc, vals):
    """what parsed when these values were left: the tests of pc on their inputs alone"""
    ins = set()
    for x in vals:
        ins |= inputs(x)
    c = TRUE
    for v in cvars(pc):
        if v.op == "okp" and inputs(v) and inputs(v) <= ins:
            s = project(pc, v)
            if s is not None:
                c = band(c, cond(v, s))
    return c


def rename(t):
    """the same value in an earlier call"""
    if t.op == "in" and isinstance(t.a[0], str):
        return mk("in", PRE + t.a[0])
    if t.op == "resp":
        return mk("resp", PRE + str(t.a[0]), *[mapt(x, rename, {}) if isinstance(x, TM.T) else x for x in t.a[1:]])
    if t.op == "cell":
        return mk("cell", (PRE, t.a[0]), *t.a[1:])
    if t.op == "mutex" and not isstatic(t.a[0]):
        return mk("mutex", (PRE, t.a[0]), *t.a[1:])
    if t.op in ("env", "random"):
        return mk("early", t)
    return None


_early = {}


def early(t):
    """does the value depend on an earlier call?"""
    if not isinstance(t, TM.T):
        return isinstance(t, tuple) and any(early(x) for x in t)
    r = _early.get(t)
    if r is None:
        _early[t] = False
        r = (t.op == "in" and isinstance(t.a[0], str) and t.a[0].startswith(PRE)
             or t.op == "resp" and isinstance(t.a[0], str)
             or t.op == "early"
             or any(early(x) for x in t.a))
        _early[t] = r
    return r


# ================================================================ what a matching key says
LOSSY = {"div", "mod", "ulower", "uupper", "lower", "upper", "len", "blen", "strf", "trim", "slice", "substr", "year", "month", "day"}


class Open(Exception):
    pass


def unify(a, b, out):
    """a (of an earlier call) equals b: the parts that are then equal"""
    if a is b:
        return
    while a.op == "typed" and b.op == "typed":
        out.append((a, b))
        a, b = a.a[0], b.a[0]
        if a is b:
            return
    out.append((a, b))
    if a.op == "typed" or b.op == "typed":
        return
    if a.op != b.op or len(a.a) != len(b.a):
        return
    if a.op in ("fld", "part", "some", "dec", "fmtint", "bytes", "tuple", "hname", "hval") or (a.op == "adt" and a.a[:2] == b.a[:2]):
        if a.op in ("fld", "part", "some"):
            return
        for x, y in zip(a.a, b.a):
            if isinstance(x, TM.T) and isinstance(y, TM.T):
                unify(x, y, out)
    elif a.op == "concat":
        # one open part between equal texts
        k = [i for i, (x, y) in enumerate(zip(a.a, b.a)) if x is not y]
        if len(k) == 1:
            unify(a.a[k[0]], b.a[k[0]], out)


def matched(var, s):
    """pairs known equal where the test var lies in s"""
    out = []
    if var.op == "eq" and len(var.a) == 2 and s == s_point(1):
        a, b = var.a
        if early(b) and not early(a):
            a, b = b, a
        if early(a) and not early(b):
            unify(a, b, out)
    elif var.op == "lin" and s is not None and len(s) == 1 and s[0][0] == s[0][1]:
        n = s[0][0]
        c0, ts = var.a
        es = [(t, k) for t, k in ts if early(t)]
        if len(es) == 1 and abs(es[0][1]) == 1:
            t, k = es[0]
            rest = lin(c0 - n, tuple(x for x in ts if x[0] is not t))
            unify(t, mulc(rest, -1) if k == 1 else rest, out)
    return [(a, b) for a, b in out if early(a)]


def keyed(var):
    """earlier inputs that a test compares as a whole, that is not through an operation that forgets"""
    out = set()

    def go(t, lossy):
        if not isinstance(t, TM.T):
            if isinstance(t, tuple):
                for x in t:
                    go(x, lossy)
            return
        if not early(t):
            return
        if t.op == "in" or t.op == "resp":
            if not lossy:
                out.add(t)
            return
        for x in t.a:
            go(x, lossy or t.op in LOSSY)
    go(var, False)
    return out


_settled = {}


def deep(t, care, memo):
    """t with the choices inside it decided where care decides them"""
    if not early(t):
        return t

    def f(x):
        if not early(x):
            return x
        if x.op == "sel":
            y = restrict(x, care)
            if y is not x:
                return deep(y, care, memo)
        return None
    return mapt(t, f, memo)


def settle(t, known=frozenset(), care=TRUE):
    """t, using in every branch taken because a remembered key matches that the key is the same"""
    if not isinstance(t, TM.T):
        if isinstance(t, tuple) and early(t):
            return tuple(settle(x, known, care) for x in t)
        return t
    if not early(t):
        return t
    k = (t, known, care)
    r = _settled.get(k)
    if r is not None:
        return r
    if t.op == "sel":
        v0 = t.a[0]
        var = settle(v0, known, care)
        out = []
        for s, c in t.a[1]:
            kn = known
            ps = matched(v0, s) if early(v0) else []
            ca = care
            if early(v0) and v0.op not in ("any",) or v0.op == "okp":
                ca = band(care, cond(v0, s))
                if ca is FALSE:
                    continue
                c = deep(c, ca, {})
            for a, b in ps:
                c = subst(c, a, b)
                same = subst(ca, a, b)
                ca = band(ca, same)
                if ca is FALSE:
                    break
            if ca is FALSE:
                continue
            if ps:
                c = restrict(c, ca)
                kn = known | keyed(v0)
            out.append((s, settle(c, kn, ca)))
        r = switch_on(var, out)
        if r is None:
            r = mk("undef")
    elif t in known:
        # the whole key is equal, yet the value could not be rewritten
        r = mk("unk", "kept", t)
    else:
        na = tuple(settle(x, known, care) if isinstance(x, (TM.T, tuple)) else x for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t.op, na)
    _settled[k] = r
    return r


def fresh(t):
    """t when there was no earlier call"""
    return mapt(t, lambda x: INT(0) if x.op == "typed" and x.a[0].op == "in" and x.a[0].a[0] == CALL else None, {})


def settle_run(R, r):
    if not getattr(R.F, "history", None):
        return r
    for e in R.I.ev[getattr(R, "settled", 0):]:
        e.pc = settle(e.pc)
        e.d = tuple(settle(x) for x in e.d)
    R.settled = len(R.I.ev)
    return settle(r)


# ================================================================ once, lazy
def newcell(self, st, v, kind):
    """a cell whose uses are no lock events"""
    self.ncell += 1
    ctx = getattr(self.I, "static_ctx", None)
    key = ("scell" if ctx is not None else "ocell", ctx, self.ncell) if ctx is None else ("scell", ctx, len([k for k in st.mem if k[0] == "scell" and k[1] == ctx]))
    st.mem[key] = v
    return mk("mutex", key, kind)


def filled(cur):
    def f(x):
        if x.op == "adt":
            return TRUE if x.a[1] == 1 else FALSE
        return cond(mk("disc", x, (0, 1)), s_point(1))
    return truth(bind(cur, f))


def payload(self, cur):
    return bind(cur, lambda x: x.a[2] if x.op == "adt" and len(x.a) > 2 else self.I.field(x, 1, 0) if x.op != "adt" else UNDEF)


def cellkey(self, st, v):
    v = self.I.deref(st, v)
    return v.a[0] if v.op == "mutex" else None


@mx(r"^(?:std::sync::once_lock::OnceLock|core::cell::once::OnceCell|tokio::sync::once_cell::OnceCell)::(new|const_new)$")
def _(self, st, a, c):
    return newcell(self, st, NONE, "once")


@mx(r"^(?:std::sync::once_lock::OnceLock|core::cell::once::OnceCell)::(get|get_or_init|set|try_insert|take|into_inner|get_mut)$", raw=True)
def _(self, st, a, c):
    I = self.I
    key = cellkey(self, st, a[0])
    if key is None or key not in st.mem:
        return I.unk(c.path, *a)
    how = c.m.group(1)
    cur = restrict(st.mem[key], st.pc)
    if how in ("get", "into_inner"):
        return cur
    if how != "get_or_init":
        I.F.__dict__.setdefault("oncevals", {})[key] = "other"
    if how == "take":
        st.mem[key] = NONE
        return cur
    if how == "get_mut":
        return None
    if how == "get_or_init":
        v = const_init(self, st, key, lambda s: self.call(s, a[1]))
        if v is not None:
            st.mem[key] = some(v)
            return v

        def make(s):
            v = self.call(s, a[1])
            s.mem[key] = some(v)
            return v
        return self.branch(st, filled(cur), lambda s: payload(self, restrict(cur, s.pc)), make)

    def put(s):
        s.mem[key] = some(I.deref(s, a[1]))
        return ok(UNIT)
    if how == "set":
        return self.branch(st, filled(cur), lambda s: err(I.deref(s, a[1])), put)
    return None


CLOSED = {"int", "lit", "adt", "vec", "tuple", "setat", "rep", "bytelit", "typed", "bytes"}


def const_init(self, st, key, f):
    """the value of a cell that every writer fills with the same constant, whether or not it was filled"""
    I = self.I
    F = I.F
    if not isstatic(key):
        return None
    once = F.__dict__.setdefault("oncevals", {})
    if once.get(key) == "other":
        return None
    n = len(I.ev)
    t = st.copy()
    v = f(t)
    clean = len(I.ev) == n and t.pc is st.pc and all(t.mem.get(k) is x for k, x in st.mem.items()) \
        and all(x.op in CLOSED for x in subterms(v))
    del I.ev[n:]
    if not clean or once.setdefault(key, v) is not v:
        once[key] = "other"
        return None
    return v


@mx(r"^tokio::sync::once_cell::OnceCell::(get|get_or_init|get_or_try_init|initialized)$", raw=True)
def _(self, st, a, c):
    I = self.I
    key = cellkey(self, st, a[0])
    if key is None or key not in st.mem:
        return None
    how = c.m.group(1)
    cur = restrict(st.mem[key], st.pc)
    if how == "get":
        return cur
    if how == "initialized":
        return filled(cur)
    return mk("fut", "oncecell", mk("mutex", key, "once"), a[1], TRUE if how == "get_or_try_init" else FALSE)


def await_once(self, st, f):
    key, fn, tries = f.a[1].a[0], f.a[2], f.a[3] is TRUE
    cur = restrict(st.mem[key], st.pc)

    def make(s):
        v = self.await_value(s, self.call(s, fn), None, None)
        if not tries:
            s.mem[key] = some(v)
            return v

        def keep(s2):
            x = self.I.field(restrict(v, s2.pc), 0, 0)
            s2.mem[key] = some(x)
            return ok(x)
        return self.branch(s, truth(bind(v, lambda x: (TRUE if x.a[1] == 0 else FALSE) if x.op == "adt" else cond(mk("disc", x), s_point(0)))),
                           keep, lambda s2: restrict(v, s2.pc))

    def known(s):
        x = payload(self, restrict(cur, s.pc))
        return ok(x) if tries else x
    return self.branch(st, filled(cur), known, make)


@mx(r"^(?:std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell)::new$", raw=True)
def _(self, st, a, c):
    r = newcell(self, st, adt("$lazy", 0, a[0]), "lazy")
    self.I.lazyf[r.a[0]] = a[0]
    return r


def force(self, st, key):
    cur = restrict(st.mem[key], st.pc)

    def init(s):
        f = self.I.lazyf.get(key)
        if f is None:
            f = payload(self, restrict(cur, s.pc))
        if f.op == "initfn":
            d = self.I.F.bodies[f.a[0]]
            return self.I.run(self.I.F.body(f.a[0]), d, {}, [NONE], s)
        return self.call(s, f)

    v = const_init(self, st, key, init)
    if v is not None:
        st.mem[key] = adt("$lazy", 1, v)
        return v

    def make(s):
        v = init(s)
        s.mem[key] = adt("$lazy", 1, v)
        return v
    return self.branch(st, filled(cur), lambda s: payload(self, restrict(cur, s.pc)), make)


@mx(r"^(?:std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell)::force$|^<(?:std::sync::lazy_lock::LazyLock|core::cell::lazy::LazyCell)(?:<.*>)? as core::ops::deref::Deref>::deref$", raw=True)
def _(self, st, a, c):
    key = cellkey(self, st, a[0])
    if key is None or key not in st.mem:
        return self.I.unk(c.path, *a)
    return force(self, st, key)


# ================================================================ thread-local values
@mx(r"^std::thread::local::LocalKey::(with|try_with|with_borrow|with_borrow_mut|set|get|take|replace|update)$", raw=True)
def _(self, st, a, c):
    I = self.I
    k = I.deref(st, a[0])
    if k.op != "tlskey":
        return I.unk(c.path, *a)
    key = k.a[0]
    if key not in st.mem:
        return I.unk(c.path, *a)
    how = c.m.group(1)
    cur = st.mem[key]
    if any(x.op == "adt" and x.a[0] == "$lazy" for x in leaves(cur)):
        force(self, st, key)
        if st.pc is FALSE:
            return UNDEF
        cur = st.mem[key]
    lazy = any(x.op == "adt" and x.a[0] == "$lazy" for x in leaves(cur))
    p = mk("ptr", key, (("f", 1, 0),) if lazy else ())
    if how in ("with", "with_borrow", "with_borrow_mut"):
        return self.call(st, a[1], p)
    if how == "try_with":
        return ok(self.call(st, a[1], p))
    old = I.readloc(st, p.a)
    if how == "get":
        return old
    if how in ("set", "replace"):
        I.write(st, p, I.deref(st, a[1]))
        return UNIT if how == "set" else old
    if how == "take":
        t = c.targs[0] if c.targs else None
        while t is not None and t[0] == "adt" and t[1] in ("core::cell::RefCell", "core::cell::Cell"):
            t = t[2][0]
        from std_models import default
        I.write(st, p, default(self, st, t))
        return old
    if how == "update":
        I.write(st, p, self.call(st, a[1], old))
        return UNIT
    return None


# ================================================================ Cell, RefCell
@mx(r"^core::cell::RefCell::(borrow|try_borrow|borrow_mut|try_borrow_mut|get_mut|replace|replace_with|take|into_inner|swap)$"
    r"|^core::cell::Cell::(get|set|replace|take|into_inner|update|get_mut)$", raw=True)
def _(self, st, a, c):
    I = self.I
    how = c.m.group(1) or c.m.group(2)
    cell = bool(c.m.group(2))
    if how in ("borrow_mut", "get_mut"):
        return a[0]
    if how == "try_borrow_mut":
        return ok(a[0])
    old = I.deref(st, a[0])
    if how in ("borrow", "into_inner", "get"):
        return old
    if how == "try_borrow":
        return ok(old)
    if how in ("set", "replace"):
        I.write(st, a[0], I.deref(st, a[1]) if cell or a[1].op == "ptr" else a[1])
        return UNIT if how == "set" else old
    if how == "take":
        from std_models import default
        t = c.targs[0] if c.targs else None
        if t is None:
            return None
        I.write(st, a[0], default(self, st, t))
        return old
    if how == "update":
        v = self.call(st, a[1], old)
        I.write(st, a[0], v)
        return UNIT
    if how == "replace_with":
        v = self.call(st, a[1], a[0])
        I.write(st, a[0], v)
        return old
    return None


# ================================================================ atomics
ATOMIC = {"AtomicBool": ("bool",)}
ATOMIC.update({"Atomic" + x.upper()[0] + x[1:]: ("int", x) for x in ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize")})


@mx(r"^core::sync::atomic::Atomic\w*::(new|from)$")
def _(self, st, a, c):
    return a[0]


@mx(r"^core::sync::atomic::Atomic\w*::(load|store|swap|fetch_\w+|compare_exchange|compare_exchange_weak|compare_and_swap|into_inner|get_mut|update|try_update)$", raw=True)
def _(self, st, a, c):
    I = self.I
    how = c.m.group(1)
    p = a[0]
    old = I.deref(st, p)
    args = [I.deref(st, x) for x in a[1:]]
    if how in ("load", "into_inner"):
        return old
    if how == "store":
        I.write(st, p, args[0])
        return UNIT
    if how == "swap":
        I.write(st, p, args[0])
        return old
    t = c.atys[0] if c.atys else None
    while t is not None and t[0] == "ref":
        t = t[2]
    if t is not None and t[0] == "adt":
        t = t[2][0] if t[2] else ATOMIC.get(t[1].rsplit("::", 1)[1])
    isint = t is not None and t[0] == "int"
    if how in ("fetch_add", "fetch_sub") and isint:
        I.write(st, p, I.wrap(add(old, args[0]) if how == "fetch_add" else sub(old, args[0]), t, st))
        return old
    if how in ("fetch_max", "fetch_min") and isint:
        def pick(x, y):
            ge = truth(icmp("Ge" if how == "fetch_max" else "Le", x, y))
            return self.ite(ge, x, y)
        I.write(st, p, bind(old, lambda x: bind(args[0], lambda y: pick(x, y))))
        return old
    if how in ("fetch_or", "fetch_and", "fetch_xor", "fetch_nand") and t is not None and t[0] == "bool":
        x, y = truth(old), truth(args[0])
        v = {"fetch_or": lambda: bor(x, y), "fetch_and": lambda: band(x, y), "fetch_nand": lambda: bnot(band(x, y)),
             "fetch_xor": lambda: bor(band(x, bnot(y)), band(y, bnot(x)))}[how]()
        I.write(st, p, v)
        return old
    if how in ("compare_exchange", "compare_exchange_weak", "compare_and_swap"):
        if t is not None and t[0] == "bool":
            x, y = truth(old), truth(args[0])
            same = bor(band(x, y), band(bnot(x), bnot(y)))
        elif isint:
            same = truth(icmp("Eq", old, args[0]))
        else:
            return None

        def hit(s):
            I.write(s, p, args[1])
            return ok(old)
        r = self.branch(st, same, hit, lambda s: err(old))
        return old if how == "compare_and_swap" else r
    if how in ("fetch_update", "try_update"):
        v = self.call(st, a[3], old)
        got = truth(bind(v, lambda x: (TRUE if x.a[1] == 1 else FALSE) if x.op == "adt" else cond(mk("disc", x), s_point(1))))

        def hit(s):
            I.write(s, p, payload(self, restrict(v, s.pc)))
            return ok(old)
        return self.branch(st, got, hit, lambda s: err(old))
    if how == "update":
        I.write(st, p, self.call(st, a[3], old))
        return old
    return None


MM.REGX[:0] = MINE
