"""Interprocedural value-flow over MIR.

Every reachable block is visited once per calling context (loops are
summarised), states are merged at joins, and each value is described by a term
over the inputs. Nothing is executed and no path is enumerated.
"""
from terms import *
import terms as TM
from facts import int_range, INTS
NSEC = 1000000000

MOVED = mk("moved")
UNDEF = mk("undef")
MORE = ("more",)
ORD = "core::cmp::Ordering"
POLL = "core::task::poll::Poll"
CF = "core::ops::control_flow::ControlFlow"
SEQS = {"alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque", "alloc::vec::into_iter::IntoIter",
        "core::slice::iter::Iter"}
MAXUNROLL = 300
MAXDEPTH = 60


class Unsupported(Exception):
    pass


class SymNext(Exception):
    """next() on an iterator that is not at a concrete element"""

    def __init__(self, loc, site):
        self.loc = loc
        self.site = site


class State:
    __slots__ = ("pc", "mem")

    def __init__(self, pc, mem):
        self.pc = pc
        self.mem = mem

    def copy(self):
        return State(self.pc, dict(self.mem))

    def assign(self, o):
        self.pc = o.pc
        self.mem = o.mem


class Ev:
    __slots__ = ("kind", "pc", "d", "span", "fn", "stack", "loops", "seq")

    def __init__(self, kind, pc, d, span, fn, stack, seq):
        self.kind = kind
        self.pc = pc
        self.d = d
        self.span = span
        self.fn = fn
        self.stack = stack
        self.loops = ()
        self.seq = seq

    def where(self):
        s = self.span
        return "%s:%s in %s" % (s[0], s[1], self.fn) if s else str(self.fn)

    def __repr__(self):
        return "%s %s @%s if %s" % (self.kind, self.d, self.where(), show(self.pc, 4))


def unread(t):
    """does a decoded constant have a part that could not be decoded?"""
    return t is UNDEF or (t.op == "const" and t.a[0] == "?") or any(unread(x) for x in t.a if isinstance(x, TM.T))


def merge(states):
    ss = [s for s in states if s.pc is not FALSE]
    if not ss:
        return None
    if len(ss) == 1:
        return ss[0]
    keys = {}
    for s in ss:
        for k in s.mem:
            keys[k] = None
    mem = {}
    for k in keys:
        first = None
        same = True
        for s in ss:
            v = s.mem.get(k)
            if v is None:
                continue
            if first is None:
                first = v
            elif v is not first:
                same = False
        if same:
            mem[k] = first
        else:
            mem[k] = select([(s.pc, s.mem[k]) for s in ss if k in s.mem])
    pc = FALSE
    for s in ss:
        pc = bor(pc, s.pc)
    return State(pc, mem)


class Frame:
    __slots__ = ("id", "body", "sub", "d", "ret")

    def __init__(self, id, body, sub, d):
        self.id = id
        self.body = body
        self.sub = sub
        self.d = d


class Interp:
    def __init__(self, F):
        self.F = F
        self.ev = []
        self.nf = 0
        self.nt = 0
        self.seq = 0
        self.stack = []
        self.cur = None
        self.unknown = []
        self.direct = set()
        self.loopdepth = 0
        self.active = []
        self.visited = {}      # body id -> set of blocks analysed
        self.callsites = set()
        self.extcalls = {}     # (resolved callee, callee, span) -> call stack
        self.hooks = {}
        self.carryn = 0
        self.consts = {}
        self.cellty = {}
        self.lazyf = {}        # lazy cell -> what makes its value
        self.statics = {}      # statics and thread-local values of the crate
        self.static_ctx = None
        self.nclock = 0
        self.tyof = {}
        import models
        self.M = models.Models(self)

    # ------------------------------------------------------------ events
    def event(self, kind, st, *d, pc=None):
        fn = self.stack[-1].d["path"] if self.stack else None
        self.seq += 1
        e = Ev(kind, st.pc if pc is None else pc, d, self.cur, fn,
               tuple(f.d["path"] for f in self.stack), self.seq)
        if e.pc is not FALSE:
            self.ev.append(e)
        return e

    def panic(self, st, cond_, what):
        """the program panics where cond_ holds; continue where it does not"""
        p = band(st.pc, cond_)
        if p is not FALSE:
            self.event("panic", st, what, pc=p)
        st.pc = band(st.pc, bnot(cond_))

    def fallible(self, st, okc, what):
        """a fallible step whose success condition is okc"""
        p = band(st.pc, bnot(okc))
        if p is not FALSE:
            self.event("fail", st, what, pc=p)

    def unk(self, name, *args):
        self.unknown.append((name, self.cur, self.stack[-1].d["path"] if self.stack else None))
        return mk("unk", name, *args)

    # ------------------------------------------------------------ temps
    def newkey(self):
        self.nt += 1
        return ("t", self.nt)

    def ptr(self, key, path=()):
        return mk("ptr", key, path)

    # ------------------------------------------------------------ locations
    def getpath(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        k = p[0]
        if k == "f":
            return self.field(v, p[1], p[2], p[3] if len(p) > 3 else None)
        if k == "w":
            return v.a[0]
        if k == "idx":
            return self.M.index(v, p[1])
        if k == "key":
            return self.M.mapget_raw(v, p[1])
        if k == "sl":
            return self.M.slice_of(v, p[1], p[2])
        raise Unsupported("proj %r" % (p,))

    def field(self, v, variant, i, ty=None):
        op = v.op
        if op == "adt":
            if variant is not None and variant != v.a[1]:
                return UNDEF
            if len(v.a) > 2 + i:
                return v.a[2 + i]
            return UNDEF
        if op == "tuple":
            return v.a[i] if i < len(v.a) else UNDEF
        if op == "clo":
            return v.a[3 + i]
        if op == "sel":
            return bind(v, lambda x: self.field(x, variant, i, ty))
        if op in ("moved", "undef"):
            return v
        if op == "updf" and v.a[1] == variant:
            return v.a[3] if v.a[2] == i else self.field(v.a[0], variant, i, ty)
        r = self.M.field(v, variant, i, ty)
        if r is not None:
            return r
        return self.typed(mk("fld", v, variant, i), ty or self.ftype(v, variant, i))

    def ftype(self, v, variant, i):
        t = self.tyof.get(v)
        if t is None:
            return None
        if t[0] == "tuple":
            return t[1][i] if i < len(t[1]) else None
        if t[0] == "adt":
            if t[1] == OPT and variant == 1:
                return t[2][0]
            if t[1] == RES:
                return t[2][variant] if variant is not None and variant < len(t[2]) else None
            a = self.F.adts.get(t[1])
            if a and a["local"]:
                f = a["variants"][variant or 0]["fields"][i]
                return self.F.ty(f["t"], dict(zip(a["generics"], t[2])))
        return None

    def elemof(self, src):
        """generic element of a sequence, typed"""
        r = self.M.elem_special(src)
        if r is not None:
            return r
        e = elem(src)
        t = self.tyof.get(src)
        if t is not None:
            while t[0] == "ref":
                t = t[2]
            if t[0] in ("slice", "array"):
                return self.typed(e, t[1])
            if t[0] == "adt" and t[1] in SEQS and t[2]:
                return self.typed(e, t[2][0])
        return e

    def typed(self, v, ty):
        """attach what the type says about an opaque value"""
        if ty is None:
            return v
        while ty[0] == "ref":
            ty = ty[2]
        if ty[0] == "int":
            return mk("typed", v, int_range(ty[1]))
        if ty[0] == "bool":
            return mk("typed", v, (0, 1))
        if ty[0] == "char":
            return mk("typed", v, (0, 0x10FFFF))
        if ty[0] in ("tuple", "adt", "slice", "array"):
            self.tyof[v] = ty
        if ty[0] == "adt":
            r = self.M.typed_adt(v, ty)
            if r is not None:
                return r
            a = self.F.adts.get(ty[1])
            if a and a["local"] and a["kind"] == "struct":
                fs = a["variants"][0]["fields"]
                sub = dict(zip(a["generics"], ty[2]))
                return adt(ty[1], 0, *[self.typed(mk("fld", v, None, i), self.F.ty(f["t"], sub))
                                       for i, f in enumerate(fs)])
        return v

    def setpath(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if v is not None and v.op == "sel" and p[0] in ("f", "w"):
            return bind(v, lambda x: self.setpath(x, path, new))
        inner = self.proj(v, p) if len(path) > 1 else None
        return self.setproj(v, p, self.setpath(inner, path[1:], new))

    def setproj(self, v, p, new):
        k = p[0]
        if k == "f":
            variant, i = p[1], p[2]
            if v is None or v.op in ("undef", "moved"):
                return v if v is not None else UNDEF
            if v.op == "adt":
                if variant is not None and variant != v.a[1]:
                    return v
                a = list(v.a)
                while len(a) <= 2 + i:
                    a.append(UNDEF)
                a[2 + i] = new
                return mk("adt", *a)
            if v.op == "tuple":
                a = list(v.a)
                a[i] = new
                return mk("tuple", *a)
            if v.op == "clo":
                a = list(v.a)
                a[3 + i] = new
                return mk("clo", *a)
            if variant is not None and new is MOVED:
                return v
            if new is MOVED:
                return v
            r = self.M.setfield(v, variant, i, new)
            if r is not None:
                return r
            if variant is not None and v.op in ("in", "fld", "mget"):
                a = v
                if variant == 1 and i == 0:
                    return some(new)
            return mk("updf", v, variant, i, new)
        if k == "w":
            return mk(v.op, new)
        if k == "idx":
            return self.M.setindex(v, p[1], new)
        if k == "key":
            return self.M.mapset_raw(v, p[1], new)
        if k == "sl":
            return self.M.setslice(v, p[1], p[2], new)
        raise Unsupported("setproj %r" % (p,))

    def readloc(self, st, loc):
        key, path = loc
        v = st.mem.get(key)
        if v is None:
            return UNDEF
        return self.getpath(v, path)

    def writeloc(self, st, loc, new):
        key, path = loc
        v = st.mem.get(key)
        if key[0] == "cell":
            self.event("cellwrite", st, key, new if not path else self.setpath(v, path, new))
        if not path:
            st.mem[key] = new
        else:
            st.mem[key] = self.setpath(v if v is not None else UNDEF, path, new)

    def deref(self, st, v):
        """value behind references"""
        n = 0
        while v.op == "ptr" and n < 50:
            v = self.readloc(st, v.a)
            n += 1
        if v.op == "sel" and any(x.op == "ptr" for x in leaves(v)):
            return bind(v, lambda x: self.deref(st, x))
        return v

    def write(self, st, p, new):
        """write through a &mut value"""
        if p.op == "ptr":
            cur = st.mem.get(p.a[0])
            inner = self.readloc(st, p.a)
            if inner.op == "ptr":
                return self.write(st, inner, new)
            return self.writeloc(st, p.a, new)
        if p.op == "sel":
            for c, x in leaves_pc(p):
                if x.op == "ptr":
                    old = self.readloc(st, x.a)
                    self.writeloc(st, x.a, select([(c, new), (bnot(c), old)]))
            return
        # not a tracked location

    def store(self, st, p, new):
        """*p = new where p is exactly one reference"""
        if p.op == "ptr":
            self.writeloc(st, p.a, new)
        else:
            self.write(st, p, new)

    # ---- places
    def place(self, st, fr, pl):
        """-> ('loc', key, path) or ('val', term)"""
        cur = ("loc", (fr.id, pl[0]), ())
        variant = None
        for e in pl[1]:
            if e == "*":
                v = self.readplace(st, cur)
                if v.op == "ptr":
                    cur = ("loc",) + v.a
                elif v.op == "sel" and any(x.op == "ptr" for x in leaves(v)):
                    cur = ("sel", v)
                elif v.op == "guard":
                    cur = ("loc", v.a[0], ())
                variant = None
            elif isinstance(e, list):
                if e[0] == "d":
                    variant = e[1]
                    continue
                if e[0] == "f":
                    cur = self.sub(cur, ("f", variant, e[1], self.F.ty(e[2], fr.sub)))
                elif e[0] == "i":
                    iv = st.mem.get((fr.id, e[1]), UNDEF)
                    cur = self.sub(cur, ("idx", iv))
                elif e[0] == "ci":
                    off = e[1] if not e[3] else -e[1]
                    cur = self.sub(cur, ("idx", INT(off)))
                elif e[0] == "sub":
                    cur = self.sub(cur, ("sl", INT(e[1]), INT(-e[2]) if e[3] and e[2] else (None if e[3] else INT(e[2]))))
                variant = None
        return cur

    def sub(self, cur, p):
        if cur[0] == "loc":
            return ("loc", cur[1], cur[2] + (p,))
        if cur[0] == "sel":
            return ("sel", bind(cur[1], lambda x: mk("ptr", x.a[0], x.a[1] + (p,)) if x.op == "ptr" else self.proj(x, p)))
        return ("val", self.proj(cur[1], p))

    def readplace(self, st, cur):
        if cur[0] == "loc":
            return self.readloc(st, cur[1:])
        if cur[0] == "sel":
            return bind(cur[1], lambda x: self.readloc(st, x.a) if x.op == "ptr" else x)
        return cur[1]

    def writeplace(self, st, cur, v):
        if cur[0] == "loc":
            self.writeloc(st, cur[1:], v)
        elif cur[0] == "sel":
            self.write(st, cur[1], v)

    # ---- operands
    def operand(self, st, fr, o):
        k = o[0]
        if k == "c":
            return self.const(st, fr, o[1])
        if k == "rc":
            return FALSE
        pl = self.place(st, fr, o[1])
        v = self.readplace(st, pl)
        v = restrict(v, st.pc)
        if k == "mv" and pl[0] == "loc" and pl[1][0] == fr.id:
            old = st.mem.get(pl[1])
            if not pl[2]:
                st.mem[pl[1]] = MOVED
            elif old is not None and old.op in ("adt", "tuple", "clo", "sel"):
                st.mem[pl[1]] = self.setpath(old, pl[2], MOVED)
        return v

    def const(self, st, fr, c):
        ty = self.F.ty(c["t"], fr.sub)
        if ty[0] == "adt" and ty[1] == "std::thread::local::LocalKey" and ("static", c.get("path")) in self.statics:
            return mk("tlskey", ("static", c["path"]))
        if "promoted" in c:
            return self.run_const(st, c["pdef"], c["promoted"], fr.sub)
        v = c.get("v")
        if v is not None and "opaque" not in v:
            r = self.cval(v, ty)
            if r is not None and not (c.get("id") in self.F.bodies and unread(r)):
                return r
        if c.get("id") is not None and c["id"] in self.F.bodies:
            return self.run_const(st, c["id"], None, dict(zip(self.F.bodies[c["id"]]["gen"], self.F.args(c.get("args") or [], fr.sub))))
        if c.get("trait") and c.get("path"):
            # associated const of a trait
            args = self.F.args(c.get("args") or [], fr.sub)
            tr, name = c["trait"], c["path"].split("::")[-1]
            im = self.F.find_impl(tr, args[0], args[1:]) if args else None
            if im:
                for it in im[0]["items"]:
                    if it[0] == name and it[1] in self.F.bodies:
                        return self.run_const(st, it[1], None, im[1])
        if ty[0] == "fn":
            return mk("fnitem", ty, tuple(sorted(fr.sub.items())))
        if c.get("path"):
            r = self.M.const(c["path"], ty)
            return r if r is not None else mk("const", c["path"])
        if v is not None and v.get("opaque"):
            return mk("const", str(v["opaque"]))
        return mk("const", c.get("text", "?"))

    def run_const(self, st, id, promoted, sub):
        k = (id, promoted, tuple(sorted(sub.items())))
        r = self.consts.get(k)
        if r is None:
            b = self.F.body(id, promoted)
            s2 = State(TRUE, {})
            r = self.run(b, self.F.bodies[id], sub, [], s2)
            # a promoted constant is a reference to a temporary: read through
            n = 0
            while r.op == "ptr" and r.a[0][0] not in ("static", "scell") and n < 50:
                r = self.readloc(s2, r.a)
                n += 1
            self.consts[k] = r
        return r

    def cval(self, v, ty):
        if "int" in v:
            return INT(v["int"])
        if "bool" in v:
            return TRUE if v["bool"] else FALSE
        if "char" in v:
            return INT(v["char"])
        if "str" in v:
            return lit(v["str"])
        if "bytes" in v:
            return mk("bytelit", tuple(v["bytes"]))
        if "ref" in v:
            return self.cval(v["ref"], ty[2] if ty[0] == "ref" else ty)
        if "agg" in v:
            fs = [self.cval(x[1], self.F.ty(x[0], {})) if isinstance(x[1], dict) else UNDEF for x in v["fields"]]
            fs = [f if f is not None else mk("const", "?") for f in fs]
            if v["agg"] == "tuple":
                return tup(*fs)
            if v["agg"] == "array":
                return vec(*[E(f) for f in fs])
            if v["agg"] == "core::time::Duration" and fs[0].op == "int":
                n = fs[1].a[2] if len(fs) > 1 and fs[1].op == "adt" and len(fs[1].a) > 2 else None
                if n is not None and n.op == "int":
                    return INT(fs[0].a[0] * 1000000000 + n.a[0])
            return self.mkadt(v["agg"], v.get("variant") or 0, fs)
        if "static" in v:
            return self.ptr(("static", v["id"])) if ("static", v.get("id")) in self.statics else mk("static", v["static"])
        if "fnptr" in v:
            return mk("fnitem", ("fn", v["fnptr"], v.get("id"), (), None), ())
        if "zst" in v:
            if ty[0] == "fn":
                return mk("fnitem", ty, ())
            if ty[0] == "tuple":
                return tup()
            if ty[0] == "adt":
                return self.mkadt(ty[1], 0, [])
            return UNIT
        return None

    def mkadt(self, path, variant, fs):
        r = self.M.mkadt(path, variant, fs)
        if r is not None:
            return r
        return mk("adt", path, variant, *fs)

    def discr(self, v, pc=TRUE):
        """discriminant value"""
        op = v.op
        if op == "adt":
            a = self.F.adts.get(v.a[0])
            if a:
                return INT(a["variants"][v.a[1]]["discr"])
            return INT(v.a[1])
        if op == "sel":
            return bind(v, self.discr)
        if op in ("int", "cmp3") or TM.domain(v) is not None and op not in ("disc",):
            return v            # core::cmp::Ordering
        if op in ("moved", "undef"):
            return UNDEF
        r = self.M.discr(v)
        if r is not None:
            return r
        return mk("disc", v, (0, 1))

    def discr_t(self, v, ty):
        while ty and ty[0] == "ref":
            ty = ty[2]
        if ty and ty[0] == "adt" and ty[1] == ORD:
            return v
        a = self.F.adts.get(ty[1]) if ty and ty[0] == "adt" else None

        def f(x):
            if x.op in ("adt", "moved", "undef"):
                return self.discr(x)
            r = self.M.discr(x)
            if r is not None:
                return r
            if a:
                return mk("disc", x, tuple(w["discr"] for w in a["variants"]))
            return mk("disc", x, (0, 1))
        return bind(v, f)

    # ------------------------------------------------------------ rvalues
    def ptype(self, fr, pl):
        """type of a place"""
        t = self.F.ty(fr.body.locals[pl[0]][0], fr.sub)
        for e in pl[1]:
            if e == "*":
                if t[0] == "ref":
                    t = t[2]
                elif t[0] == "ptr":
                    t = t[1]
                elif t[0] == "adt" and t[2]:
                    t = t[2][0]
            elif isinstance(e, list) and e[0] == "f":
                t = self.F.ty(e[2], fr.sub)
            elif isinstance(e, list) and e[0] in ("i", "ci"):
                t = t[1] if t[0] in ("slice", "array") else t
        return t

    def hascell(self, t, depth=0):
        """can a value of the type change behind a shared reference?"""
        if t is None or depth > 4:
            return False
        if t[0] == "adt":
            if t[1] in ("core::cell::RefCell", "core::cell::Cell", "core::cell::UnsafeCell") or t[1].startswith("core::sync::atomic::"):
                return True
            a = self.F.adts.get(t[1])
            if a is None or not a.get("variants"):
                return t[1] in (OPT, "alloc::vec::Vec", "alloc::boxed::Box") and any(self.hascell(x, depth + 1) for x in t[2] if isinstance(x, tuple))
            k = (t, "cell")
            r = self.cellty.get(k)
            if r is None:
                self.cellty[k] = False
                sub = dict(zip(a["generics"], t[2]))
                try:
                    r = any(self.hascell(self.F.ty(f["t"], sub), depth + 1)
                            for v in a["variants"] for f in v.get("fields", ()))
                except (KeyError, IndexError, TypeError):
                    r = False
                self.cellty[k] = r
            return r
        if t[0] == "tuple":
            return any(self.hascell(x, depth + 1) for x in t[1])
        if t[0] in ("slice", "array"):
            return self.hascell(t[1], depth + 1)
        return False

    def optype(self, fr, o):
        if o[0] == "c":
            return self.F.ty(o[1]["t"], fr.sub)
        if o[0] == "rc":
            return ("bool",)
        return self.ptype(fr, o[1])

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            pl = self.place(st, fr, r[2])
            if r[1] == "mut":
                if pl[0] == "loc":
                    return self.ptr(pl[1], pl[2])
                if pl[0] == "sel":
                    return pl[1]
                return pl[1]
            if pl[0] == "loc" and self.hascell(self.ptype(fr, r[2])):
                return self.ptr(pl[1], pl[2])
            v = self.readplace(st, pl)
            # a shared reference to a cell behind a lock keeps its identity
            return restrict(v, st.pc)
        if k == "raw":
            pl = self.place(st, fr, r[2])
            if pl[0] == "loc":
                return self.ptr(pl[1], pl[2])
            return self.readplace(st, pl)
        if k == "agg":
            return self.aggregate(st, fr, r[1], [self.operand(st, fr, o) for o in r[2]])
        if k == "discr":
            pl = self.place(st, fr, r[1])
            v = restrict(self.readplace(st, pl), st.pc)
            return self.discr_t(v, self.ptype(fr, r[1]))
        if k == "bin":
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, self.optype(fr, r[2]))
        if k == "un":
            a = self.operand(st, fr, r[2])
            t = self.optype(fr, r[2])
            if r[1] == "Not":
                if t[0] == "bool":
                    return bnot(truth(a))
                if t[0] == "int":
                    return bind(a, lambda x: lin(-1, ((x, -1),)) if INTS[t[1]][1] else lin(int_range(t[1])[1], ((x, -1),)))
            if r[1] == "Neg":
                return mulc(a, -1)
            if r[1] == "PtrMetadata":
                return self.M.length(self.deref(st, a))
            return mk("un", r[1], a)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            return self.cast(st, r[1], a, self.optype(fr, r[2]), self.F.ty(r[3], fr.sub))
        if k == "repeat":
            a = self.operand(st, fr, r[1])
            return self.M.repeat(a, INT(r[2]) if r[2] is not None else UNDEF)
        if k == "tls":
            return mk("static", r[1])
        return mk("rv", str(k))

    def aggregate(self, st, fr, k, fs):
        kind = k["k"]
        if kind == "tuple":
            if fs and fs[0].op == "fld" and fs[0].a[2] == 0 and all(
                    f.op == "fld" and f.a[0] is fs[0].a[0] and f.a[1] is None and f.a[2] == i
                    for i, f in enumerate(fs)):
                t = self.tyof.get(fs[0].a[0])
                if t is not None and t[0] == "tuple" and len(t[1]) == len(fs):
                    return fs[0].a[0]
            return tup(*fs)
        if kind == "array":
            return vec(*[E(f) for f in fs])
        if kind == "adt":
            if k.get("ufield") is not None:
                return fs[0]
            return self.mkadt(k["path"], k["variant"], fs)
        if kind in ("closure", "coroutine"):
            ty = self.F.ty(k["t"], fr.sub)
            return mk("clo", kind, ty, tuple(sorted(fr.sub.items())), *fs)
        return mk("agg", kind, *fs)

    def binop(self, st, op, a, b, ty):
        chk = op.endswith("WithOverflow")
        base = op[:-len("WithOverflow")] if chk else op
        base = base.replace("Unchecked", "")
        if a.op in ("undef", "moved") or b.op in ("undef", "moved"):
            return UNDEF
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if ty[0] == "bool" or ty[0] in ("int", "char"):
                return icmp(base, a, b)
            if base in ("Eq", "Ne"):
                c = self.M.eqv(a, b)
                return c if base == "Eq" else bnot(c)
            return truth(mk("cmpop", base, a, b))
        if base == "Cmp":
            return self.M.cmp3(a, b)
        if ty[0] == "bool":
            ta, tb = truth(a), truth(b)
            if base == "BitAnd":
                return band(ta, tb)
            if base == "BitOr":
                return bor(ta, tb)
            if base == "BitXor":
                return bor(band(ta, bnot(tb)), band(bnot(ta), tb))
        r = None
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base in ("Div", "Rem"):
            r = self.divrem(base, a, b, ty)
        elif base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
            r = self.bits(base, a, b, ty)
        if r is None:
            r = mk("bin", base, a, b)
        if ty[0] == "int" and base in ("Add", "Sub", "Mul"):
            lo, hi = int_range(ty[1])
            inr = member(r, ((lo, hi),))
            if chk:
                return tup(r, bnot(inr))
            if op.endswith("Unchecked") or inr is TRUE or implies(st.pc, inr):
                return r
            return self.wrap(r, ty, st)
        if chk:
            return tup(r, FALSE)
        return r

    def divrem(self, op, a, b, ty):
        def f(x, y):
            if y.op == "int" and y.a[0] != 0:
                n = y.a[0]
                r = rng(x)
                signed = ty[0] == "int" and INTS[ty[1]][1]
                if not signed or (r is not None and r[0] >= 0 and n > 0):
                    return divfloor(x, n) if op == "Div" else modfloor(x, n)
                if x.op == "int":
                    q = abs(x.a[0]) // abs(n)
                    if (x.a[0] < 0) != (n < 0):
                        q = -q
                    return INT(q) if op == "Div" else INT(x.a[0] - q * n)
            return mk("bin", op, x, y)
        return bind(a, lambda x: bind(b, lambda y: f(x, y)))

    def bits(self, op, a, b, ty):
        def f(x, y):
            if x.op == "int" and y.op == "int":
                p, q = x.a[0], y.a[0]
                v = {"Shl": lambda: p << q, "Shr": lambda: p >> q, "BitAnd": lambda: p & q,
                     "BitOr": lambda: p | q, "BitXor": lambda: p ^ q}[op]()
                if op == "Shl" and ty[0] == "int":
                    bits, s = INTS[ty[1]]
                    v &= (1 << bits) - 1
                    if s and v >> (bits - 1):
                        v -= 1 << bits
                return INT(v)
            r = rng(x)
            if y.op == "int" and r is not None and r[0] >= 0:
                if op == "Shr":
                    return divfloor(x, 1 << y.a[0])
                if op == "BitAnd" and (y.a[0] & (y.a[0] + 1)) == 0:
                    n = y.a[0] + 1
                    return modfloor(x, n) if r[1] >= n else x
                if op == "Shl" and ty[0] == "int" and (r[1] << y.a[0]) <= int_range(ty[1])[1]:
                    return mulc(x, 1 << y.a[0])
            return mk("bin", op, x, y)
        return bind(a, lambda x: bind(b, lambda y: f(x, y)))

    def wrap(self, v, ty, st=None):
        lo, hi = int_range(ty[1])
        bits, s = INTS[ty[1]]

        def f(x):
            if x.op == "int":
                n = (x.a[0] - lo) % (1 << bits) + lo
                return INT(n)
            r = rng(x)
            if r is not None and r[0] >= lo and r[1] <= hi:
                return x
            if st is not None and implies(st.pc, member(x, ((lo, hi),))):
                return x
            return mk("wrap", x, bits, s)
        return bind(v, f)

    def cast(self, st, kind, a, tf, tt):
        if tt[0] == "int" and tf[0] in ("int", "bool", "char"):
            if tf[0] == "bool":
                return truth(a)
            return self.wrap(a, tt, st)
        if tt[0] == "char":
            return a
        if tt[0] == "int" and tf[0] == "adt":
            return self.wrap(self.discr_t(a, tf), tt, st)
        if kind == "FloatToInt" and tt[0] == "int":
            return bind(a, lambda x: self.f2i(x, tt))
        if tt[0] == "adt" and tf[0] == "adt" or kind.startswith("PointerCoercion") or kind in ("Transmute", "PtrToPtr", "Subtype"):
            return a
        return mk("cast", kind, a)

    def f2i(self, x, tt):
        """a number of seconds of a Duration, as f64, to an integer: exact while nanoseconds fit the mantissa"""
        how, y = "trunc", x
        if y.op == "fround":
            how, y = y.a
        if y.op == "float" and y.a[0] == "as_secs_f64":
            d, lim = y.a[1], 1 << 22
            k = {"round": NSEC // 2, "ceil": NSEC - 1}.get(how, 0)
            exact = divfloor(add(d, INT(k)), NSEC)
            lo, hi = int_range(tt[1])
            if hi > lim:
                big = mk("typed", mk("cast", "FloatToInt", x), (lim, hi))
                return self.M.ite(member(d, ((0, lim * NSEC - 1),)), exact, big)
        return mk("cast", "FloatToInt", x)

    # ------------------------------------------------------------ calls
    def run(self, body, d, sub, args, st):
        """run a body on argument values; st is updated; returns the value"""
        if len(self.stack) > MAXDEPTH or sum(1 for f in self.stack if f.body is body) > 3:
            return self.unk("recursion:" + d["path"], *[a for a in args if isinstance(a, T)])
        self.nf += 1
        fr = Frame(self.nf, body, sub, d)
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        self.stack.append(fr)
        self.visited.setdefault(d["id"], set())
        cur = self.cur
        try:
            out = self.region(fr, None, 0, st, None)
        finally:
            self.stack.pop()
            self.cur = cur
        s = merge(out.get("ret", []))
        if s is None:
            st.pc = FALSE
            self.drop_frame(st, fr)
            return UNDEF
        r = s.mem.get((fr.id, 0), UNIT)
        st.assign(s)
        self.drop_frame(st, fr)
        return r

    def drop_frame(self, st, fr):
        id = fr.id
        for k in [k for k in st.mem if k[0] == id]:
            del st.mem[k]

    def region(self, fr, blocks, entry, st, header):
        body = fr.body
        pend = {entry: [st]}
        out = {}
        started = False
        for b in body.rpo:
            if blocks is not None and b not in blocks:
                continue
            ss = pend.pop(b, None)
            if not ss:
                continue
            s = merge(ss)
            if s is None:
                continue
            if b in body.loops and b != header:
                res = self.loop(fr, b, body.loops[b], s)
            else:
                res = self.block(fr, b, s)
            for tgt, s2 in res:
                if s2.pc is FALSE:
                    continue
                if tgt == "ret":
                    out.setdefault("ret", []).append(s2)
                elif tgt == header:
                    out.setdefault("back", []).append(s2)
                elif blocks is None or tgt in blocks:
                    pend.setdefault(tgt, []).append(s2)
                else:
                    out.setdefault(tgt, []).append(s2)
        return out

    def block(self, fr, b, st):
        bl = fr.body.blocks[b]
        F = self.F
        self.visited.setdefault(fr.d["id"], set()).add(b)
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                sp = F.span(s[3]) if len(s) > 3 else None
                if sp:
                    self.cur = sp
                    CUR[0] = (sp, fr.d["path"])
                v = self.rvalue(st, fr, s[2])
                self.writeplace(st, self.place(st, fr, s[1]), v)
            elif k == "sd":
                pass
            elif k == "dead":
                st.mem.pop((fr.id, s[1]), None)
        t = bl["t"]
        sp = F.span(bl["sp"])
        if sp:
            self.cur = sp
            CUR[0] = (sp, fr.d["path"])
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k in ("unreachable", "unwind", "yield"):
            return []
        if k == "drop":
            pl = self.place(st, fr, t[1])
            self.dropv(st, self.readplace(st, pl))
            return [(t[2], st)] if t[2] is not None else []
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(fr, st, v, t)
        if k == "assert":
            c = truth(self.operand(st, fr, t[1]))
            bad = bnot(c) if t[2] else c
            self.panic(st, bad, "assertion " + str(t[3][0]) + (" " + t[3][1] if t[3][0] == "overflow" else ""))
            return [(t[4], st)]
        if k in ("call", "tailcall"):
            f = self.operand(st, fr, t[1]) if t[1][0] != "c" else self.const(st, fr, t[1][1])
            args = [self.operand(st, fr, o) for o in t[2]]
            atys = [self.optype(fr, o) for o in t[2]]
            rty = self.ptype(fr, t[3]) if k == "call" else None
            self.callsites.add((fr.d["id"], b))
            r = self.call_value(st, f, args, atys, rty, site=(fr.d["id"], b))
            if k == "tailcall":
                st.mem[(fr.id, 0)] = r
                return [("ret", st)]
            if t[4] is None:
                return []
            if st.pc is FALSE:
                return []
            self.writeplace(st, self.place(st, fr, t[3]), r)
            return [(t[4], st)]
        raise Unsupported("terminator %r" % (k,))

    def switch(self, fr, st, v, t):
        if v.op in ("undef", "moved"):
            v = self.unk("undef-switch")
        rest = None
        out = []
        vals = []
        for val, tgt in t[3]:
            vals.append(val)
            c = member(v, s_point(val))
            p = band(st.pc, c)
            if p is not FALSE:
                s2 = st.copy()
                s2.pc = p
                out.append((tgt, s2))
        if t[4] is not None:
            c = member(v, s_compl(s_pts(vals)))
            p = band(st.pc, c)
            if p is not FALSE:
                s2 = st.copy()
                s2.pc = p
                out.append((t[4], s2))
        return out

    def dropv(self, st, v):
        if v.op in ("moved", "undef", "lit", "int", "in"):
            return
        for g in self.guards(v):
            self.event("unlock" if g.a[0][0] == "cell" else "sunlock", st, g.a[0])

    def guards(self, v):
        if has_op(v, ("guard",)):
            for x in subterms(v):
                if x.op == "guard":
                    yield x

    # ---- call dispatch
    def call_value(self, st, f, args, atys=None, rty=None, site=None):
        f = self.deref(st, f) if f.op in ("ptr", "sel") else f
        if f.op == "clo":
            return self.call_closure(st, f, args)
        if f.op == "fnitem":
            ty = f.a[0]
            sub = dict(f.a[1])
            return self.call_fn(st, ty, args, atys, rty, site, sub)
        if f.op == "sel" and all(l.op in ("clo", "fnitem") for l in TM.leaves(f)):
            # one function chosen among several
            var = TM.top(f)
            ways = [(cond(var, g), TM.cof(f, var, g)) for g in TM._regions(var, [f])]

            def go(s, ws):
                if len(ws) == 1:
                    return self.call_value(s, ws[0][1], args, atys, rty, site)
                return self.M.branch(s, ws[0][0], lambda s1: self.call_value(s1, ws[0][1], args, atys, rty, site),
                                     lambda s2: go(s2, ws[1:]))
            return go(st, ways)
        r = self.M.call_opaque(st, f, args)
        if r is not None:
            return r
        return self.unk("call", f, *args)

    def call_closure(self, st, f, args):
        kind, ty, subk = f.a[:3]
        id = ty[1]
        if id not in self.F.bodies:
            return self.unk("closure", f, *args)
        d = self.F.bodies[id]
        body = self.F.body(id)
        sub = dict(subk)
        t1 = self.F.ty(body.locals[1][0], sub) if len(body.locals) > 1 and body.argc >= 1 else None
        if body.argc == len(args) + 1:
            pass
        elif len(args) == 1 and args[0].op == "tuple" and body.argc == len(args[0].a) + 1:
            args = list(args[0].a)
        if t1 is not None and t1[0] == "ref" and t1[1]:
            k = self.newkey()
            st.mem[k] = f
            r = self.run(body, d, sub, [self.ptr(k)] + list(args), st)
            st.mem.pop(k, None)
            return r
        return self.run(body, d, sub, [f] + list(args), st)

    def run_coroutine(self, st, c):
        kind, ty, subk = c.a[:3]
        id = ty[1]
        d = self.F.bodies[id]
        return self.run(self.F.body(id), d, dict(subk), [c, UNIT], st)

    def call_fn(self, st, ty, args, atys, rty, site, sub=None):
        """ty = ('fn', path, id, resolved args, type index)"""
        _, path, id, targs, ti = ty
        c = self.F.T[ti]["f"] if ti is not None else {"path": path, "id": id}
        # constructor used as a function
        if c.get("ctor"):
            ct = c["ctor"]
            if isinstance(ct, dict):
                return self.mkadt(ct["adt"], ct.get("variant") or 0, args)
            return self.mkadt(ct[0], ct[1] or 0, args)
        if atys is None:
            # passed as a function: the receiver's type is all that is known
            t0 = None
            if c.get("trait"):
                t0 = targs[0] if targs else None
            elif "::" in path and path.split("::")[-2][:1].isupper():
                t0 = ("adt", path.rsplit("::", 1)[0], tuple(targs))
            atys = [t0] + [None] * max(0, len(args) - 1)
        self.rty = rty
        self.atys = atys
        self.site = site
        hk = self.hooks.get(path)
        if hk:
            r = hk(self, st, path, args, targs, atys)
            if r is not None:
                return r
        tr = c.get("trait")
        if tr:
            r = self.call_trait(st, tr, path, c, args, targs, atys, rty, site, sub)
            return r
        if id is not None and id in self.F.bodies:
            d = self.F.bodies[id]
            gs = dict(zip(d["gen"], targs)) if len(d["gen"]) == len(targs) else dict(zip(c.get("gen", []), targs))
            return self.run(self.F.body(id), d, gs, args, st)
        return self.external(st, path, path, args, targs, atys, rty, site)

    def strip(self, t):
        while t[0] == "ref" or (t[0] == "adt" and t[1] in ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "core::pin::Pin") and t[2]):
            t = t[2] if t[0] == "ref" else t[2][0]
        return t

    def call_trait(self, st, tr, path, c, args, targs, atys, rty, site, sub):
        name = path.split("::")[-1]
        selfty = targs[0] if targs else None
        # calling a closure or function value
        if tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            a = list(args[1].a) if args[1].op == "tuple" else args[1:]
            return self.call_value(st, args[0], a)
        r = self.M.trait_early(st, tr, name, args, targs, atys, rty)
        if r is not None:
            return r
        # local impl
        for t in ([selfty, self.strip(selfty)] if selfty is not None else []):
            fi = self.F.find_impl(tr, t, targs[1:])
            if fi:
                im, b = fi
                for it in im["items"]:
                    if it[0] == name and it[1] is not None and it[1] in self.F.bodies:
                        d = self.F.bodies[it[1]]
                        gs = dict(b)
                        # method generics come after the trait's
                        ng = c.get("gen") or []
                        names = d["gen"]
                        k = len(names)
                        # the last names are the method's own generics
                        tg = self.F.F["traits"].get(tr) if isinstance(self.F.F.get("traits"), dict) else None
                        own = [n for n in names if n not in gs]
                        if own:
                            for n, v in zip(reversed(own), reversed(targs)):
                                gs[n] = v
                        return self.run(self.F.body(it[1]), d, gs, args, st)
                    if it[0] == name and it[1] is not None:
                        break
                break
        res = c.get("res")
        if res and res.get("id") is not None and res["id"] in self.F.bodies:
            d = self.F.bodies[res["id"]]
            gs = dict(zip(d["gen"], self.F.args(res["args"], sub or {})))
            return self.run(self.F.body(res["id"]), d, gs, args, st)
        # default method of a local trait
        if c.get("id") is not None and c["id"] in self.F.bodies:
            d = self.F.bodies[c["id"]]
            gs = dict(zip(d["gen"], targs))
            gs["Self"] = selfty
            return self.run(self.F.body(c["id"]), d, gs, args, st)
        return self.external(st, path, (res or {}).get("path") or path, args, targs, atys, rty, site)

    def method(self, st, tr, name, selfty, args, targs=()):
        """call a trait method on a value of a known type (used by the models)"""
        for t in (selfty, self.strip(selfty)):
            fi = self.F.find_impl(tr, t, tuple(targs))
            if fi:
                im, b = fi
                for it in im["items"]:
                    if it[0] == name and it[1] in self.F.bodies:
                        d = self.F.bodies[it[1]]
                        gs = dict(b)
                        return self.run(self.F.body(it[1]), d, gs, args, st)
        return None

    def external(self, st, path, rpath, args, targs, atys, rty, site):
        if st.pc is not FALSE:
            self.extcalls.setdefault((rpath or path, path, self.cur), tuple(f.d["path"] for f in self.stack))
        f = self.M.lookup(path, rpath)
        if f is not None:
            r = f(st, args, targs, atys, rty, site)
            if r is not None:
                return r
        return self.havoc_call(st, path, args, atys, rty)

    def havoc_call(self, st, path, args, atys, rty):
        vals = [self.deref(st, a) if a.op == "ptr" else a for a in args]
        r = self.unk(path, *vals)
        for i, a in enumerate(args):
            if a.op == "ptr":
                self.store(st, a, mk("unk", path + "#mut%d" % i, *vals))
        if rty and rty[0] == "never":
            self.panic(st, TRUE, "call to " + path)
            return UNDEF
        return self.typed(r, rty) if rty and rty[0] in ("int", "bool", "char", "tuple") else r

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, blocks, st):
        """-> list of (target, state)"""
        outs = []
        cur = st
        first = st.copy()
        slow = 0
        mark0 = len(self.ev)
        n = 0
        self.loopdepth += 1
        try:
            while True:
                n += 1
                if n > MAXUNROLL:
                    return outs + self.havoc_loop(fr, h, blocks, cur)
                snap = cur.copy()
                mark = len(self.ev)
                try:
                    o = self.region(fr, blocks, h, cur, h)
                except SymNext as e:
                    del self.ev[mark:]
                    if self.can_drive(snap, e.loc):
                        return outs + self.drive_loop(fr, h, blocks, snap, e.loc)
                    if e.site in self.direct:
                        raise Unsupported("iterator in loop")
                    self.direct.add(e.site)
                    cur = snap
                    continue
                for tgt, ss in o.items():
                    if tgt != "back":
                        outs += [(tgt, s) for s in ss]
                b = merge(o.get("back", []))
                if b is None:
                    return outs
                if b.pc is not snap.pc:
                    slow += 1
                    if slow == 2:
                        r = self.M.counter_loop(fr, h, blocks, first, mark0)
                        if r is not None:
                            return r
                    if slow > 40:
                        return outs + self.havoc_loop(fr, h, blocks, b)
                cur = b
        finally:
            self.loopdepth -= 1

    def can_drive(self, st, loc):
        if loc[0] not in st.mem:
            return False
        v = self.readloc(st, loc)
        return v.op == "iter" or (v.op == "sel" and all(x.op == "iter" for x in leaves(v)))

    def seqof(self, v):
        return bind(v, lambda x: x.a[0]) if v.op == "sel" else v.a[0]

    def drive_loop(self, fr, h, blocks, st, loc):
        seq = self.seqof(self.readloc(st, loc))

        def step(s, x):
            self.writeloc(s, loc, mk("iter", vec(E(x), MORE)))
            o = self.region(fr, blocks, h, s, h)
            exits = [(t, s2) for t, ss in o.items() if t != "back" for s2 in ss]
            b = merge(o.get("back", []))
            return b, exits

        b, exits = self.drive(st, seq, step, {loc[0]: loc[1]})
        if b is not None and b.pc is not FALSE:
            self.writeloc(b, loc, mk("iter", VNIL))
            o = self.region(fr, blocks, h, b, h)
            for t, ss in o.items():
                if t != "back":
                    exits += [(t, s2) for s2 in ss]
            b2 = merge(o.get("back", []))
            if b2 is not None:
                exits += self.loop(fr, h, blocks, b2)
        return exits

    # ---- generic sequence driver
    def drive(self, st, seq, step, iterslots=None):
        """run step for every element of seq; -> (state or None, exits)"""
        cur = st
        exits = []
        for g in segs(seq):
            if cur is None or cur.pc is FALSE:
                break
            k = g[0]
            if k == "e":
                cur, ex = step(cur, g[1])
                exits += ex
            elif k == "alt":
                res = []
                groups = {}
                for c, x in leaves_pc(g[1]):
                    groups[x] = bor(groups.get(x, FALSE), c)
                for x, c in groups.items():
                    s2 = cur.copy()
                    s2.pc = band(cur.pc, c)
                    if s2.pc is FALSE:
                        continue
                    b, ex = self.drive(s2, x, step, iterslots)
                    exits += ex
                    if b is not None:
                        res.append(b)
                cur = merge(res)
            elif k in ("all", "each") and g[1].op == "itermut":
                cur, ex = self.drive_mut(cur, g, step, iterslots)
                exits += ex
            elif k == "all":
                cur, ex = self.summarise(cur, g[1], self.elemof(g[1]), step, iterslots)
                exits += ex
            elif k == "each":
                body = g[2]

                def step2(s, x, body=body):
                    return self.drive(s, body, step, iterslots)
                cur, ex = self.summarise(cur, g[1], None, step2, iterslots)
                exits += ex
            elif g == MORE:
                break
            else:
                raise Unsupported("segment %r" % (k,))
        return cur, exits

    def drive_mut(self, st, g, step, iterslots):
        """run step with a mutable reference to every element of a list; the list is rebuilt from what they become"""
        im = g[1]
        p = im.a[0]
        old = self.deref(st, p)
        while self.readloc(st, p.a).op == "ptr":
            p = self.readloc(st, p.a)
        tmp, out = self.newkey(), self.newkey()
        st = st.copy()
        st.mem[tmp] = UNDEF
        st.mem[out] = VNIL
        ref = self.ptr(tmp)

        n = len(im.a[1][1]) if len(im.a) > 1 and im.a[1][0] == "tuple" else None

        def parts(x):
            return tup(*[self.field(x, None, i, im.a[1][1][i]) for i in range(n)]) if n and x.op != "tuple" else x

        def whole(v, x):
            return x if v is parts(x) else v

        def step2(s, x):
            s.mem[tmp] = parts(x)
            if g[0] == "all":
                b, ex = step(s, ref)
            else:
                b, ex = self.drive(s, subst(g[2], elem(im), ref), step, iterslots)
            if b is not None:
                v = whole(b.mem[tmp], x)
                if v is x and x.op in ("typed", "hname") and x.a[0].op == "elem":
                    v = x.a[0]
                b.mem[out] = vcat(b.mem[out], vec(E(v)))
                b.mem[tmp] = UNDEF
            return b, ex
        sq = bind(old, self.M.seq)
        b, exits = self.drive(st, sq, step2, iterslots)

        def held(s):
            """a reference to an element is kept"""
            return any(isinstance(v, T) and k != tmp and any(x.op == "ptr" and x.a[0] == tmp for x in subterms(v))
                       for k, v in s.mem.items())
        same = True
        if b is not None:
            new = b.mem.pop(out)
            same = new is sq or new is vec(("all", sq))
            lost = held(b)
            b.mem.pop(tmp, None)
            if lost:
                self.writeloc(b, p.a, self.unk("references to elements", old))
            elif not same:
                self.writeloc(b, p.a, new)
        for _, s in exits:
            s.mem.pop(out, None)
            t = s.mem.pop(tmp, UNDEF)
            if t.op == "tuple" and t.a[0].op == "fld" and t is parts(t.a[0].a[0]):
                t = t.a[0].a[0]
            if same and t.op == "first" and t.a[0] is sq:
                at = (("idx", mk("fidx", t)),)
                f = lambda x: self.ptr(p.a[0], p.a[1] + at + x.a[1]) if x.op == "ptr" and x.a[0] == tmp else None
                for k, v in list(s.mem.items()):
                    if isinstance(v, T):
                        s.mem[k] = mapt(v, f, {})
            elif not same or held(s) or t is not UNDEF:
                self.writeloc(s, p.a, self.unk("elements changed before leaving", old))
        return b, exits

    def assume_elem(self, pc, src):
        """what is known about every element of src when pc holds"""
        if pc.op != "sel":
            return TRUE
        c = TRUE
        for v in mdd_vars(pc):
            if v.op == "any" and v.a[0] is src:
                if implies(pc, cond(v, s_point(0))):
                    c = band(c, bnot(v.a[1]))
        return c

    def summarise(self, st, src, x, step, iterslots):
        """abstract effect of running step for every element of src"""
        if src in self.active:
            src2 = mk("again", src, len(self.active))
            if x is not None:
                if src in self.tyof:
                    self.tyof[src2] = self.tyof[src]
                x = self.elemof(src2)
            src = src2
        pc0 = st.pc
        asm = self.assume_elem(pc0, src)
        self.active.append(src)
        depth = len(self.active)
        mark = len(self.ev)
        ign = set(iterslots or ())
        try:
            slots = {}           # slot -> (init, carry)
            once = None
            for rnd in range(13):
                del self.ev[mark:]
                s = st.copy()
                s.pc = band(pc0, asm)
                for i, (slot, (init, carry)) in enumerate(slots.items()):
                    self.setslot(s, slot, carry)
                base = s.copy()
                b, exits = step(s, x)
                ch = {}
                if b is not None and b.pc is not FALSE:
                    self.diff(base, b, ign, ch)
                for _, es in exits:
                    pass
                new = [sl for sl in ch if sl not in slots]
                if rnd == 0 and any(sl[0][0] in ("static", "scell") for sl in new):
                    once = self.fill_once(st, src, x, step, asm, ign)
                    if once:
                        st0, st = st, st.copy()
                        st.mem.update(once)
                        continue
                # a slot below an already carried one is covered
                new = [sl for sl in new if not any(sl[0] == o[0] and sl[1][:len(o[1])] == o[1] for o in slots)]
                if not new:
                    break
                for sl in new:
                    init = self.slot(st, sl)
                    # drop carried slots that lie below the new one
                    for o in list(slots):
                        if o[0] == sl[0] and o[1][:len(sl[1])] == sl[1]:
                            del slots[o]
                    self.carryn += 1
                    slots[sl] = (init, mk("carry", self.carryn))
            else:
                raise Unsupported("loop summary does not stabilise")
        finally:
            self.active.pop()
        # exit condition per iteration, relative to entering it
        cexit = FALSE
        for _, s2 in exits:
            cexit = bor(cexit, s2.pc)
        cont_pc = b.pc if b is not None else FALSE
        enter = band(pc0, asm)
        rel = lambda c: restrict(c, enter)
        cex = rel(cexit)
        carries = {c: sl for sl, (i, c) in slots.items()}
        # panics inside the body also leave the loop
        lost = band(enter, bnot(bor(cexit, cont_pc)))
        clost = rel(lost) if lost is not FALSE else FALSE
        final = {}
        for sl, (init, carry) in slots.items():
            new = restrict(self.slot(b, sl), b.pc) if b is not None and b.pc is not FALSE else None
            final[sl] = (init, carry, new)
        result = self.fit(final, src, carries) if b is not None else {}
        cl = self.close_carry(bor(cex, clost), final, result, src, carries)
        leave = any_of(src, cl)
        out_exits = []
        if cex is not FALSE:
            for tag, s2 in exits:
                c = rel(s2.pc)
                cc = self.close_carry(c, final, result, src, carries)
                e = s2.copy()
                fst = TM.first_of(src, cl)
                cond1 = any_of(src, cl)
                if cl is not cc:
                    cond1 = band(cond1, self.at_first(cc, src, fst))
                e.pc = band(pc0, cond1)
                memo = {}
                e.mem = {k: self.subst_exit(v, src, fst, final, carries, memo) for k, v in s2.mem.items()}
                out_exits.append((tag, e))
        # events inside
        for ev in self.ev[mark:]:
            c = restrict(ev.pc, enter) if ev.pc is not enter else TRUE
            c = self.close_carry(c, final, result, src, carries)
            # an event under a condition on the element happens for some element
            ev.pc = band(pc0, any_of(src, band(asm, c)))
            ev.loops = (src,) + ev.loops
        self.ev[mark:] = [e for e in self.ev[mark:] if e.pc is not FALSE]
        if b is None or b.pc is FALSE:
            # every iteration leaves: continue only when there is no element
            b2 = st.copy()
            b2.pc = band(pc0, is_empty(src))
            return (b2 if b2.pc is not FALSE else None), out_exits
        fin = b.copy()
        fin.pc = band(pc0, bnot(leave))
        for k in list(fin.mem):
            if k not in st.mem and not any(sl[0] == k for sl in slots):
                if k[0] == "t" or isinstance(k[0], int):
                    del fin.mem[k]
            elif k in st.mem:
                fin.mem[k] = st.mem[k]
        for sl, v in result.items():
            self.setslot(fin, sl, v)
        if once:
            none = is_empty(src)
            for k, v in once.items():
                fin.mem[k] = select([(none, st0.mem[k]), (bnot(none), v)])
        for k in ign:
            if k in b.mem:
                fin.mem[k] = b.mem[k]
        return fin, out_exits

    def fill_once(self, st, src, x, step, asm, ign):
        """cells that outlive the call and that the first iteration fills for good, with no other effect"""
        if not self.statics or not any(k[0] in ("static", "scell") for k in st.mem):
            return None
        mark = len(self.ev)

        def go(st):
            s = st.copy()
            s.pc = band(st.pc, asm)
            r = step(s, x)
            ev = self.ev[mark:]
            del self.ev[mark:]
            return (*r, ev)
        b, exits, ev = go(st)
        if b is None:
            return None
        out = {k: restrict(v, b.pc) for k, v in b.mem.items() if k[0] in ("static", "scell") and st.mem.get(k) is not v}
        out = {k: v for k, v in out.items() if v is not st.mem.get(k)}
        if not out or any(contains(v, elem(src)) or contains(v, mk("idx", src)) or contains(v, mk("bidx", src)) for v in out.values()):
            return None
        st2 = st.copy()
        st2.mem.update(out)
        b2, exits2, ev2 = go(st2)

        def same(a, b):
            return b is not None and a.pc is b.pc and all(a.mem.get(k) is b.mem.get(k) or k in out or k in ign for k in st.mem)
        if same(b, b2) and len(exits) == len(exits2) and all(t == t2 and same(e, e2) for (t, e), (t2, e2) in zip(exits, exits2)) \
                and all(restrict(b2.mem[k], b2.pc) is v for k, v in out.items()) \
                and [(e.kind, e.d, e.pc) for e in ev] == [(e.kind, e.d, e.pc) for e in ev2]:
            return out
        return None

    def at_first(self, c, src, fst):
        memo = {}
        e = elem(src)
        i = mk("idx", src)
        bi = mk("bidx", src)
        return mapt(c, lambda x: fst if x is e else (mk("fidx", fst) if x is i else (mk("fbidx", fst) if x is bi else None)), memo)

    def subst_exit(self, v, src, fst, final, carries, memo):
        e = elem(src)
        i = mk("idx", src)
        bi = mk("bidx", src)

        def f(x):
            if x is e:
                return fst
            if x is i:
                return mk("fidx", fst)
            if x is bi:
                return mk("fbidx", fst)
            if x.op == "carry" and x in carries:
                init, carry, new = final[carries[x]]
                if new is None or new is carry:
                    return init
                return mk("prefix", fst, init, *canon_fold(carry, new))
            return None
        return mapt(v, f, memo)

    def close_carry(self, c, final, result, src, carries):
        """remove loop-carried values from a condition"""
        if not any(contains(c, k) for k in carries):
            return c

        def f(x):
            if x.op == "carry" and x in carries:
                init, carry, new = final[carries[x]]
                return mk("prefix", elem(src), init, *canon_fold(carry, new if new is not None else UNDEF))
            return None
        return mapt(c, f, {})

    def slot(self, st, sl):
        v = st.mem.get(sl[0])
        if v is None:
            return UNDEF
        return self.getpath(v, sl[1])

    def setslot(self, st, sl, v):
        key, path = sl
        if not path:
            st.mem[key] = v
        else:
            st.mem[key] = self.setpath(st.mem.get(key, UNDEF), path, v)

    def diff(self, a, b, ign, out):
        for k, vb in b.mem.items():
            va = a.mem.get(k)
            if va is vb or k in ign:
                continue
            if va is None:
                continue        # local to the iteration
            vb = restrict(vb, b.pc)
            self.diffv(k, (), va, vb, out)

    def diffv(self, k, path, va, vb, out):
        if va is vb:
            return
        if va.op == vb.op == "adt" and va.a[:2] == vb.a[:2] and len(va.a) == len(vb.a) and self.M.descend(va.a[0]):
            for i in range(2, len(va.a)):
                self.diffv(k, path + (("f", None, i - 2),), va.a[i], vb.a[i], out)
            return
        if va.op == vb.op == "adt" and va.a[0] == vb.a[0] == OPT and va.a[1] == vb.a[1] == 1:
            self.diffv(k, path + (("f", None, 0),), va.a[2], vb.a[2], out)
            return
        if va.op == vb.op == "tuple" and len(va.a) == len(vb.a):
            for i in range(len(va.a)):
                self.diffv(k, path + (("f", None, i),), va.a[i], vb.a[i], out)
            return
        if va.op == vb.op and va.op in TM.WRAPS and len(va.a) == 1:
            self.diffv(k, path + (("w",),), va.a[0], vb.a[0], out)
            return
        if va.op in ("undef", "moved") and vb.op in ("undef", "moved"):
            return
        out[(k, path)] = True

    def fit(self, final, src, carries):
        return self.M.fit(final, src, carries)

    def havoc_loop(self, fr, h, blocks, st):
        """give up on a loop: everything it may change is unknown afterwards"""
        self.unknown.append(("loop", self.cur, fr.d["path"]))
        s = st.copy()
        tag = mk("unk", "loop", fr.d["path"], h)
        # one pass to see what changes
        mark = len(self.ev)
        for rnd in range(4):
            b = s.copy()
            del self.ev[mark:]
            try:
                o = self.region(fr, blocks, h, b, h)
            except SymNext as e:
                self.direct.add(e.site)
                continue
            back = merge(o.get("back", []))
            if back is None:
                break
            ch = {}
            self.diff(s, back, set(), ch)
            if not ch:
                break
            for i, sl in enumerate(ch):
                self.setslot(s, sl, mk("havoc", tag, rnd, i))
        outs = []
        for t, ss in o.items():
            if t != "back":
                outs += [(t, x) for x in ss]
        return outs


def canon_fold(carry, new):
    """name the carried value of an unsummarised loop by its nesting level, so that equal loops are equal terms"""
    lvl = 1 + max([x.a[0] for x in subterms(new) if x.op == "cv"], default=0)
    cv = mk("cv", lvl)
    return cv, mapt(new, lambda x: cv if x is carry else None, {})


def mdd_vars(t):
    seen = set()
    st = [t]
    vs = []
    while st:
        x = st.pop()
        if x in seen or x.op != "sel":
            continue
        seen.add(x)
        if x.a[0] not in seen:
            seen.add(x.a[0])
            vs.append(x.a[0])
        st.extend(c for _, c in x.a[1])
    return vs
