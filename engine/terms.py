"""Hash-consed value terms and multi-valued decision diagrams over them.

A term is the value a program point has on every execution, written over the
inputs (gated value-dependence graph, value-numbered). Where control-flow joins
merge different values, the merged value is a `sel` node keyed by the tested
quantity. Path conditions are decision diagrams with leaves TRUE / FALSE.
Nothing is enumerated per path and no solver is involved: joins are merged.
"""
import sys
from functools import lru_cache
from math import gcd

sys.setrecursionlimit(200000)

CUR = [None]        # current source location, recorded as origin of new terms
ORIGIN = {}


class T:
    __slots__ = ("op", "a", "id", "_h", "__weakref__")

    def __init__(self, op, a, i):
        self.op = op
        self.a = a
        self.id = i
        self._h = i

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self, 6)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(op, a, len(_tab) + 1)
        _tab[k] = t
        ORIGIN[t.id] = CUR[0]
    return t


def origin(t):
    return ORIGIN.get(t.id)


def INT(n):
    return mk("int", n)


TRUE = INT(1)
FALSE = INT(0)
UNIT = mk("tuple")


def lit(s):
    return mk("lit", s)


EMPTY = lit("")


def adt(path, variant, *fields):
    return mk("adt", path, variant, *fields)


def tup(*xs):
    return mk("tuple", *xs)


OPT = "core::option::Option"
RES = "core::result::Result"
NONE = adt(OPT, 0)


def some(x):
    return adt(OPT, 1, x)


def ok(x):
    return adt(RES, 0, x)


def err(x):
    return adt(RES, 1, x)


# ---------------------------------------------------------------- sets
NEG = -(1 << 300)
POS = 1 << 300
ALLI = ((NEG, POS),)


def s_point(n):
    return ((n, n),)


def s_range(lo, hi):
    return ((lo, hi),) if lo <= hi else ()


def s_pts(ns):
    return _norm([(n, n) for n in ns])


def _norm(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            if hi > out[-1][1]:
                out[-1] = (out[-1][0], hi)
        else:
            out.append((lo, hi))
    return tuple(out)


class SS:
    """finite / cofinite set of strings"""
    __slots__ = ("pos", "s")

    def __init__(self, pos, s):
        self.pos = pos
        self.s = frozenset(s)

    def __eq__(self, o):
        return isinstance(o, SS) and self.pos == o.pos and self.s == o.s

    def __hash__(self):
        return hash((self.pos, self.s))

    def __repr__(self):
        return ("" if self.pos else "not ") + "{" + ",".join(sorted(map(repr, self.s))) + "}"


ALLS = SS(False, ())


def s_empty(a):
    return (a.pos and not a.s) if isinstance(a, SS) else not a


def s_inter(a, b):
    if isinstance(a, SS):
        if a.pos and b.pos:
            return SS(True, a.s & b.s)
        if a.pos:
            return SS(True, a.s - b.s)
        if b.pos:
            return SS(True, b.s - a.s)
        return SS(False, a.s | b.s)
    out = []
    for l1, h1 in a:
        for l2, h2 in b:
            lo, hi = max(l1, l2), min(h1, h2)
            if lo <= hi:
                out.append((lo, hi))
    return _norm(out)


def s_compl(a):
    if isinstance(a, SS):
        return SS(not a.pos, a.s)
    out = []
    cur = NEG
    for lo, hi in a:
        if cur < lo:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= POS:
        out.append((cur, POS))
    return tuple(out)


def s_minus(a, b):
    return s_inter(a, s_compl(b))


def s_union(a, b):
    if isinstance(a, SS):
        return s_compl(s_inter(s_compl(a), s_compl(b)))
    return _norm(list(a) + list(b))


def s_key(a):
    if isinstance(a, SS):
        return (0 if a.pos else 1, sorted(a.s))
    return a


# ---------------------------------------------------------------- domains
BOOLOPS = {
    "any", "eq", "starts_with", "ends_with", "contains", "okp", "bool", "is_success", "has", "lt",
    "isdir", "streq",
}
STROPS = {"concat", "lower", "upper", "strip", "trim", "str"}

_dom_hooks = []


@lru_cache(maxsize=None)
def domain(v):
    op = v.op
    if op == "disc":
        return s_pts(v.a[1])
    if op in BOOLOPS:
        return ((0, 1),)
    if op == "cmp3":
        return ((-1, 1),)
    r = rng(v)
    if r is not None:
        return (r,)
    return None


# sequences of bytes
BYTESRC = {"bytes", "sha256", "rsasig", "b64dec", "hashbytes", "bytesof"}


# no object is longer than the memory that a 64-bit target can address
MAXLEN = (1 << 57) - 1


def under(t):
    """t is a place in something: (what, how far before its end at least, terms that lead from it to a place up to
    the end)"""
    if t.op == "typed":
        return under(t.a[0])
    if t.op == "idx":
        return t.a[0], 1, None
    if t.op == "fidx":
        f = t.a[0]
        if f.op == "first":
            return f.a[0], 1, None
    if t.op == "fld" and t.a[0].op in ("first", "iterlast"):
        # an element of a sequence made from the places of another one
        s = t.a[0].a[0]
        while s.op in ("rev", "iter"):
            s = s.a[0]
        if s.op == "vec" and len(s.a) == 1 and s.a[0][0] == "each":
            v = s.a[0][2]
            if v.op == "vec" and len(v.a) == 1 and v.a[0][0] == "e" and v.a[0][1].op == "tuple" and isinstance(t.a[2], int) \
                    and t.a[2] < len(v.a[0][1].a):
                u = under(v.a[0][1].a[t.a[2]])
                return u and (u[0], u[1], None)
        return None
    if t.op == "find":
        p = t.a[2]
        return t.a[1], len(p.a[0].encode("utf-8", "surrogatepass")) if p.op == "lit" else 0, None
    if t.op in ("bidx", "fbidx"):
        f = t.a[0]
        s = f if t.op == "bidx" else (f.a[0] if f.op in ("first", "last") else None)
        e = mk("elem", s) if s is not None and t.op == "bidx" else f
        if s is not None and s.op == "chars":
            return s.a[0], 1, ((mk("typed", mk("len8", e), (2, 4)), 1),)
    return None


@lru_cache(maxsize=None)
def rng(v):
    """type-level range of an integer term, or None"""
    op = v.op
    if op == "int":
        return (v.a[0], v.a[0])
    if op in BOOLOPS:
        return (0, 1)
    if op == "disc":
        d = v.a[1]
        return (min(d), max(d))
    if op == "elem":
        s = v.a[0]
        while s.op == "rep":
            s = s.a[0]
        if s.op in BYTESRC:
            return (0, 255)
        if s.op == "chars":
            return (0, 0x10FFFF)
        if s.op == "range":
            return (NEG, POS)
    if op == "at" and v.a[0].op == "bytes":
        return (0, 255)
    if op in ("len", "idx", "fidx", "count"):
        return (0, MAXLEN)
    if op == "typed":
        return v.a[1]
    if op == "instant":
        return None
    if op == "jkind":
        return (0, 5)
    if op == "div":
        r = rng(v.a[0])
        if r is None:
            return None
        n = v.a[1]
        return (r[0] // n if r[0] > NEG else NEG, r[1] // n if r[1] < POS else POS)
    if op == "mod":
        return (0, v.a[1] - 1)
    if op == "lin":
        lo = hi = v.a[0]
        d = dict(v.a[1])
        ts = []
        for t, c in v.a[1]:
            if t not in d:
                continue
            u = under(t)
            if u is not None:
                o = mk("len", u[0])
                k = d.get(o)
                if k is not None and k == -c:
                    # a place in a sequence is before its end
                    w = t2 = None
                    if u[2] is not None:
                        for w, n in u[2]:
                            if d.get(w) == c * n and w is not t:
                                t2 = w
                                break
                    m = 0 if t2 is not None else u[1]
                    if c > 0:
                        lo, hi = NEG, hi - c * m if hi < POS else POS
                    else:
                        lo, hi = (lo - c * m if lo > NEG else NEG), POS
                    d.pop(o)
                    d.pop(t)
                    if t2 is not None:
                        d.pop(t2)
                    continue
            ts.append((t, c))
        for t, c in ts:
            if t not in d:
                continue
            r = rng(t)
            if r is None:
                return None
            x, y = (r[0] * c, r[1] * c) if c > 0 else (r[1] * c, r[0] * c)
            lo += x
            hi += y
        return (max(lo, NEG), min(hi, POS))
    if op == "wrap":
        bits, signed = v.a[1], v.a[2]
        return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if op in ("year", "month", "day", "hour", "minute", "second"):
        return {"year": (-262143, 262142), "month": (1, 12), "day": (1, 31), "hour": (0, 23),
                "minute": (0, 59), "second": (0, 60)}[op]
    if op == "sel":
        lo, hi = POS, NEG
        for _, c in v.a[1]:
            r = rng(c)
            if r is None:
                return None
            lo, hi = min(lo, r[0]), max(hi, r[1])
        return (lo, hi)
    return None


# ---------------------------------------------------------------- sel / MDD
def top(t):
    return t.a[0] if t.op == "sel" else None


def _edges(t):
    return t.a[1]


def _node(var, edges):
    """edges: list of (set, child), disjoint, children have later tops"""
    m = {}
    order = []
    for s, c in edges:
        if s_empty(s):
            continue
        if c in m:
            m[c] = s_union(m[c], s)
        else:
            m[c] = s
            order.append(c)
    if not m:
        return None
    if len(m) == 1:
        return order[0]
    ch = order
    c0 = ch[0]
    # push into equal constructors
    if all(c.op == "tuple" and len(c.a) == len(c0.a) for c in ch):
        return mk("tuple", *[case(var, [(m[c], c.a[i]) for c in ch]) for i in range(len(c0.a))])
    if all(c.op == "adt" and c.a[:2] == c0.a[:2] and len(c.a) == len(c0.a) for c in ch):
        return mk("adt", c0.a[0], c0.a[1],
                  *[case(var, [(m[c], c.a[i]) for c in ch]) for i in range(2, len(c0.a))])
    if all(c.op in WRAPS and c.op == c0.op and len(c.a) == 1 for c in ch):
        return mk(c0.op, case(var, [(m[c], c.a[0]) for c in ch]))
    if any(c.op == "vec" for c in ch) and not any(c.op in NOVAL for c in ch):
        r = _node_seq(var, m, ch)
        if r is not None:
            return r
    if any(c.op == "concat" for c in ch) and not any(c.op in NOVAL for c in ch):
        parts = {c: str_parts(c) for c in ch}
        ps = list(parts.values())
        pre, suf = _common(ps)
        if pre or suf:
            mids = [(m[c], concat(*parts[c][pre:len(parts[c]) - suf])) for c in ch]
            p0 = ps[0]
            return concat(*p0[:pre], case(var, mids), *(p0[len(p0) - suf:] if suf else ()))
    # eta: sel(disc(o), k -> variant k of o) == o
    if var.op == "disc":
        o = var.a[0]
        if all(c.op == "adt" for c in ch):
            dom = var.a[1]
            good = len(ch) == len(dom)
            if good:
                for c in ch:
                    vi = c.a[1]
                    if m[c] != s_point(vi) or not all(
                            f.op == "fld" and f.a[0] is o and f.a[1] == vi and f.a[2] == i
                            for i, f in enumerate(c.a[2:])):
                        good = False
                        break
            if good:
                return o
    es = tuple(sorted(((m[c], c) for c in ch), key=lambda e: s_key(e[0])))
    return mk("sel", var, es)


WRAPS = {"iter", "map", "btset", "hset", "mm"}
NOVAL = {"moved", "undef", "ptr"}


def _common(ps):
    pre = 0
    n = min(map(len, ps))
    while pre < n and all(p[pre] is ps[0][pre] for p in ps):
        pre += 1
    suf = 0
    while suf < n - pre and all(p[len(p) - 1 - suf] is ps[0][len(ps[0]) - 1 - suf] for p in ps):
        suf += 1
    return pre, suf


def _node_seq(var, m, ch):
    ps = [segs(c) for c in ch]
    n = min(map(len, ps))
    pre = 0
    while pre < n and all(p[pre] == ps[0][pre] for p in ps):
        pre += 1
    suf = 0
    while suf < n - pre and all(p[len(p) - 1 - suf] == ps[0][len(ps[0]) - 1 - suf] for p in ps):
        suf += 1
    if not pre and not suf:
        return None
    mids = [(m[c], vec(*p[pre:len(p) - suf])) for c, p in zip(ch, ps)]
    sel = _node(var, mids)
    p0 = ps[0]
    return vec(*p0[:pre], ("alt", sel), *(p0[len(p0) - suf:] if suf else ()))


def segs(t):
    """segments of a sequence term"""
    if t.op == "vec":
        return t.a
    if t.op == "sel":
        return (("alt", t),)
    return (("all", t),)


def cof(t, var, s):
    """cofactor of t at var in s; None if don't care. t's top must be >= var"""
    if t.op == "sel" and t.a[0] is var:
        for s2, c in t.a[1]:
            if not s_empty(s_inter(s, s2)):
                return c
        return None
    return t


def _regions(var, ts):
    """common refinement of the partitions of var used by ts"""
    d = domain(var)
    regs = None
    for t in ts:
        if t is not None and t.op == "sel" and t.a[0] is var:
            es = [s for s, _ in t.a[1]]
            if regs is None:
                base = ALLS if isinstance(es[0], SS) else (d or ALLI)
                regs = [base]
            new = []
            for r in regs:
                rest = r
                for s in es:
                    x = s_inter(r, s)
                    if not s_empty(x):
                        new.append(x)
                        rest = s_minus(rest, s)
                if not s_empty(rest):
                    new.append(rest)
            regs = new
    return regs


_case_memo = {}


def case(var, edges):
    """value that is child_i where var lies in set_i (sets disjoint)"""
    d = domain(var)
    es = []
    for s, c in edges:
        if c is None:
            continue
        if d is not None and not isinstance(s, SS):
            s = s_inter(s, d)
        if s_empty(s):
            continue
        es.append((s, c))
    if not es:
        return None
    if all(c is es[0][1] for _, c in es):
        return es[0][1]
    key = (var, tuple((s, c) for s, c in es))
    r = _case_memo.get(key)
    if r is not None:
        return r
    r = _case(var, es)
    _case_memo[key] = r
    return r


_seqlike_memo = {}


def seqlike(t):
    """a sequence, or a choice between sequences"""
    if t.op == "vec":
        return True
    if t.op != "sel":
        return False
    r = _seqlike_memo.get(t)
    if r is None:
        r = _seqlike_memo[t] = all(seqlike(c) for _, c in t.a[1])
    return r


def _common_seq(vs):
    """(common prefix, remainders, common suffix) of gated sequences, if any is shared"""
    if not any(v.op == "sel" for v in vs) or not any(v.op == "vec" and v.a for v in vs) or not all(seqlike(v) for v in vs):
        return None
    ps = [segs(v) for v in vs]
    n = min(map(len, ps))
    pre = 0
    while pre < n and all(p[pre] == ps[0][pre] for p in ps):
        pre += 1
    suf = 0
    while suf < n - pre and all(p[len(p) - 1 - suf] == ps[0][len(ps[0]) - 1 - suf] for p in ps):
        suf += 1
    if not pre and not suf:
        return None
    p0 = ps[0]
    return p0[:pre], [vec(*p[pre:len(p) - suf]) for p in ps], (p0[len(p0) - suf:] if suf else ())


def _case(var, es):
    sq = _common_seq([c for _, c in es])
    if sq is not None:
        pre, mids, suf = sq
        return vec(*pre, ("alt", case(var, [(s, x) for (s, _), x in zip(es, mids)])), *suf)
    m = var
    for _, c in es:
        tv = top(c)
        if tv is not None and tv.id < m.id:
            m = tv
    if m is var:
        out = []
        for s, c in es:
            if c.op == "sel" and c.a[0] is var:
                for s2, c2 in c.a[1]:
                    x = s_inter(s, s2)
                    if not s_empty(x):
                        out.append((x, c2))
            else:
                out.append((s, c))
        return _node(var, out)
    regs = _regions(m, [c for _, c in es])
    out = []
    for r in regs:
        sub = case(var, [(s, cof(c, m, r)) for s, c in es])
        if sub is not None:
            out.append((r, sub))
    return _node(m, out)


def cond(var, s):
    d = domain(var)
    if not isinstance(s, SS) and d is not None:
        s = s_inter(s, d)
        if s_empty(s):
            return FALSE
        if s_empty(s_minus(d, s)):
            return TRUE
        return case(var, [(s, TRUE), (s_minus(d, s), FALSE)])
    if s_empty(s):
        return FALSE
    c = s_compl(s)
    if s_empty(c):
        return TRUE
    return case(var, [(s, TRUE), (c, FALSE)])


_ap_memo = {}


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    k = ("and", a, b)
    r = _ap_memo.get(k)
    if r is None:
        r = _apply2(band, a, b)
        _ap_memo[k] = r
    return r


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    k = ("or", a, b)
    r = _ap_memo.get(k)
    if r is None:
        r = _apply2(bor, a, b)
        _ap_memo[k] = r
    return r


def _boolify(t):
    """a non-constant, non-sel boolean value used as a condition"""
    if t.op == "int" or t.op == "sel":
        return t
    return truth(t)


def truth(t):
    """boolean value term -> condition diagram"""
    if t.op == "int":
        return TRUE if t.a[0] else FALSE
    if t.op == "sel":
        return bind(t, truth)
    if domain(t) == ((0, 1),):
        return case(t, [(s_point(1), TRUE), (s_point(0), FALSE)])
    b = mk("bool", t)
    return case(b, [(s_point(1), TRUE), (s_point(0), FALSE)])


def _apply2(f, a, b):
    ta, tb = top(a), top(b)
    if ta is None and tb is None:
        a2, b2 = _boolify(a), _boolify(b)
        if a2 is a and b2 is b:
            raise ValueError("non-boolean condition %r %r" % (a, b))
        return f(a2, b2)
    m = ta if tb is None or (ta is not None and ta.id <= tb.id) else tb
    out = []
    for r in _regions(m, [a, b]):
        x, y = cof(a, m, r), cof(b, m, r)
        if x is None:
            v = y
        elif y is None:
            v = x
        else:
            v = f(x, y)
        if v is not None:
            out.append((r, v))
    return _node(m, out)


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    k = ("not", a)
    r = _ap_memo.get(k)
    if r is None:
        if a.op != "sel":
            return bnot(truth(a))
        r = _node(a.a[0], [(s, bnot(c)) for s, c in a.a[1]])
        _ap_memo[k] = r
    return r


def bind(t, f, memo=None):
    """apply f to each leaf of t"""
    if t.op != "sel":
        return f(t)
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = case(t.a[0], [(s, bind(c, f, memo)) for s, c in t.a[1]])
        memo[t] = r
    return r


def leaves(t):
    """the distinct leaves of t"""
    if t.op != "sel":
        yield t
        return
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sel":
            st.extend(c for _, c in reversed(x.a[1]))
        else:
            yield x


def leaves_pc(t, pc=TRUE):
    """(condition, leaf) pairs, one for each distinct leaf"""
    if t.op != "sel":
        yield pc, t
        return
    order = []
    seen = set()

    def go(x):
        if x in seen:
            return
        seen.add(x)
        if x.op == "sel":
            for _, c in x.a[1]:
                go(c)
        order.append(x)
    go(t)
    conds = {t: pc}
    out = []
    for x in reversed(order):
        p = conds.get(x, FALSE)
        if p is FALSE:
            continue
        if x.op != "sel":
            out.append((p, x))
            continue
        for s, c in x.a[1]:
            q = band(p, cond(x.a[0], s))
            if q is not FALSE:
                conds[c] = bor(conds.get(c, FALSE), q)
    yield from out


_sel_memo = {}


def select(pairs):
    """merge: the v_i whose pc_i holds; pcs are disjoint; elsewhere don't care"""
    ps = [(p, v) for p, v in pairs if p is not FALSE and v is not None]
    if not ps:
        return None
    if all(v is ps[0][1] for _, v in ps):
        return ps[0][1]
    key = tuple(ps)
    r = _sel_memo.get(key)
    if r is not None:
        return r
    m = None
    for p, _ in ps:
        tv = top(p)
        if tv is not None and (m is None or tv.id < m.id):
            m = tv
    sq = _common_seq([v for _, v in ps]) if m is not None else None
    if sq is not None:
        pre, mids, suf = sq
        r = vec(*pre, ("alt", select([(p, x) for (p, _), x in zip(ps, mids)])), *suf)
    elif m is None:
        r = ps[0][1]     # overlapping TRUE conditions: cannot happen for disjoint pcs
    else:
        out = []
        for reg in _regions(m, [p for p, _ in ps]):
            sub = []
            for p, v in ps:
                c = cof(p, m, reg)
                if c is not None and c is not FALSE:
                    sub.append((c, v))
            x = select(sub)
            if x is not None:
                out.append((reg, x))
        r = case(m, out)
    _sel_memo[key] = r
    return r


_res_memo = {}


def restrict(v, care):
    """simplify v knowing that care holds (top-level selection only)"""
    if care is TRUE or v.op != "sel" or care is FALSE:
        return v
    k = (v, care)
    r = _res_memo.get(k)
    if r is not None:
        return r
    tv, tc = top(v), top(care)
    if tc is None:
        r = v
    elif tc is tv:
        out = []
        for reg in _regions(tv, [v, care]):
            c = cof(care, tv, reg)
            if c is None or c is FALSE:
                continue
            x = cof(v, tv, reg)
            if x is not None:
                out.append((reg, restrict(x, c)))
        r = _node(tv, out)
    elif tc.id < tv.id:
        # v does not test tc: union of care over tc
        u = FALSE
        for _, c in care.a[1]:
            u = bor(u, c)
        r = restrict(v, u)
    else:
        out = []
        for s, c in v.a[1]:
            out.append((s, restrict(c, care)))
        r = case(tv, out)
    _res_memo[k] = r
    return r


def implies(a, b):
    return band(a, bnot(b)) is FALSE


def project(care, var):
    """set of values var can take where care holds"""
    d = domain(var)
    memo = {}

    def go(c):
        if c is FALSE:
            return None
        if c is TRUE:
            return "all"
        if c in memo:
            return memo[c]
        acc = None
        if c.a[0] is var:
            for s, ch in c.a[1]:
                if ch is not FALSE:
                    acc = s if acc is None else s_union(acc, s)
        else:
            for s, ch in c.a[1]:
                g = go(ch)
                if g == "all":
                    acc = "all"
                    break
                if g is not None:
                    acc = g if acc is None else s_union(acc, g)
        memo[c] = acc
        return acc

    r = go(care)
    if r == "all":
        return d if d is not None else None
    return r


# ---------------------------------------------------------------- substitution
def mapt(t, f, memo):
    """rebuild t bottom-up with f on the rebuilt node (through smart constructors)"""
    r = memo.get(t)
    if r is not None:
        return r
    x = f(t)
    if x is not None:
        memo[t] = x
        return x
    op = t.op
    if op == "sel":
        var = mapt(t.a[0], f, memo)
        out = []
        for s, c in t.a[1]:
            out.append((s, mapt(c, f, memo)))
        if var is t.a[0] and all(c is c0 for (_, c), (_, c0) in zip(out, t.a[1])):
            r = t
        else:
            r = switch_on(var, out)
            if r is None:
                r = mk("undef")
    else:
        na = tuple(_mapa(x, f, memo) for x in t.a)
        if all(x is y for x, y in zip(na, t.a)):
            r = t
        else:
            r = rebuild(op, na)
    memo[t] = r
    return r


def _mapa(x, f, memo):
    if isinstance(x, T):
        return mapt(x, f, memo)
    if isinstance(x, tuple) and x and any(isinstance(y, (T, tuple)) for y in x):
        y = tuple(_mapa(z, f, memo) for z in x)
        return x if all(p is q for p, q in zip(x, y)) else y
    return x


def switch_on(v, edges):
    """like case, but v may be any value (constant, selection, linear form)"""
    pairs = []
    for s, c in edges:
        pairs.append((member(v, s), c))
    return select(pairs)


def subst(t, frm, to):
    if not contains(t, frm):
        return t
    memo = {}
    return mapt(t, lambda x: to if x is frm else None, memo)


_cont_memo = {}


def contains(t, x):
    k = (t, x)
    r = _cont_memo.get(k)
    if r is None:
        r = t is x or any(_ca(y, x) for y in t.a)
        _cont_memo[k] = r
    return r


def _ca(y, x):
    if isinstance(y, T):
        return contains(y, x)
    if isinstance(y, tuple):
        return any(_ca(z, x) for z in y)
    return False


def subterms(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def has_op(t, ops):
    return any(x.op in ops for x in subterms(t))


# ---------------------------------------------------------------- integers
def lin(c0, terms):
    d = {}
    const = c0
    for t, c in terms:
        if c == 0:
            continue
        if t.op == "int":
            const += t.a[0] * c
        elif t.op == "lin":
            const += t.a[0] * c
            for t2, c2 in t.a[1]:
                d[t2] = d.get(t2, 0) + c2 * c
        else:
            d[t] = d.get(t, 0) + c
    ts = tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda e: e[0].id))
    if not ts:
        return INT(const)
    if const == 0 and len(ts) == 1 and ts[0][1] == 1:
        return ts[0][0]
    return mk("lin", const, ts)


def add(a, b):
    return bind(a, lambda x: bind(b, lambda y: lin(0, ((x, 1), (y, 1)))))


def sub(a, b):
    return bind(a, lambda x: bind(b, lambda y: lin(0, ((x, 1), (y, -1)))))


def mulc(a, k):
    return bind(a, lambda x: lin(0, ((x, k),)))


def mul(a, b):
    def f(x, y):
        if x.op == "int":
            return lin(0, ((y, x.a[0]),))
        if y.op == "int":
            return lin(0, ((x, y.a[0]),))
        if x.id > y.id:
            x, y = y, x
        return mk("mul", x, y)
    return bind(a, lambda x: bind(b, lambda y: f(x, y)))


def divfloor(a, n):
    def f(x):
        if x.op == "int":
            return INT(x.a[0] // n)
        if n == 1:
            return x
        if x.op == "div":
            return mk("div", x.a[0], x.a[1] * n)
        if x.op == "lin":
            # split off the multiples of n: floor((n*k + r)/n) = k + floor(r/n)
            k = [(t, c // n) for t, c in x.a[1] if c % n == 0]
            r = [(t, c) for t, c in x.a[1] if c % n]
            kc, rc = divmod(x.a[0], n)
            if not r:
                return lin(kc, k)
            rest = lin(rc, r)
            if rest.op == "lin" and len(rest.a[1]) == 1 and rest.a[1][0][1] == 1 and rest.a[1][0][0].op == "div" and isinstance(rest.a[1][0][0].a[1], int):
                # floor((c + floor(x/m))/n) = floor((c*m + x)/(m*n))
                q = rest.a[1][0][0]
                return add(lin(kc, k), divfloor(add(q.a[0], INT(rest.a[0] * q.a[1])), q.a[1] * n))
            if k or kc:
                return lin(kc, k + [(mk("div", rest, n) if rest.op != "int" else INT(rest.a[0] // n), 1)])
            return mk("div", rest, n)
        return mk("div", x, n)
    return bind(a, f)


def modfloor(a, n):
    def f(x):
        if x.op == "int":
            return INT(x.a[0] % n)
        return mk("mod", x, n)
    return bind(a, f)


def member(x, s):
    """condition: the (integer / string) value x lies in s"""
    if isinstance(s, SS):
        return str_in(x, s)
    op = x.op
    if op == "int":
        return TRUE if not s_empty(s_inter(s_point(x.a[0]), s)) else FALSE
    if op == "sel":
        return bind(x, lambda y: member(y, s))
    if op == "lin":
        ts = x.a[1]
        g = 0
        for _, c in ts:
            g = gcd(g, abs(c))
        if ts[0][1] < 0:
            g = -g
        base = lin(0, [(t, c // g) for t, c in ts])
        out = []
        for lo, hi in s:
            lo2 = lo - x.a[0] if lo > NEG else NEG
            hi2 = hi - x.a[0] if hi < POS else POS
            if g < 0:
                lo2, hi2 = (-hi2 if hi2 < POS else NEG), (-lo2 if lo2 > NEG else POS)
            k = abs(g)
            if lo2 > NEG:
                lo2 = -((-lo2) // k)
            if hi2 < POS:
                hi2 = hi2 // k
            if lo2 <= hi2:
                out.append((lo2, hi2))
        s2 = _norm(out)
        if base.op == "lin":
            return cond(base, s2)
        return member(base, s2)
    if op == "div":
        n = x.a[1]
        s2 = _norm([(lo * n if lo > NEG else NEG, hi * n + n - 1 if hi < POS else POS) for lo, hi in s])
        return member(x.a[0], s2)
    if op == "len" and x.a[0].op != "vec":
        s2 = s_inter(s, ((0, MAXLEN),))
        if s2 == ((0, 0),):
            return is_empty(x.a[0])
        if s2 == ((1, MAXLEN),):
            return bnot(is_empty(x.a[0]))
        if s_empty(s2):
            return FALSE
        if s2 == ((0, MAXLEN),):
            return TRUE
    return cond(x, s)


def icmp(op, a, b):
    d = sub(a, b)
    s = {"Lt": ((NEG, -1),), "Le": ((NEG, 0),), "Gt": ((1, POS),), "Ge": ((0, POS),), "Eq": ((0, 0),),
         "Ne": ((NEG, -1), (1, POS))}[op]
    return member(d, s)


# ---------------------------------------------------------------- strings
STRHOOK = []
EMPTYHOOK = []


def str_parts(s):
    return s.a if s.op == "concat" else (() if s is EMPTY else (s,))


def concat(*ps):
    out = []
    for p in ps:
        for q in str_parts(p):
            if q.op == "lit" and out and out[-1].op == "lit":
                out[-1] = lit(out[-1].a[0] + q.a[0])
            elif q is EMPTY:
                continue
            elif q.op == "after" and out and q.a[1].op == "lit" and out[-1].op == "lit" \
                    and out[-1].a[0].endswith(q.a[1].a[0]):
                # prefix + rest behind that prefix
                w = out.pop().a[0]
                w = w[:len(w) - len(q.a[1].a[0])]
                if w:
                    out.append(lit(w))
                out.append(q.a[0])
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


def str_in(x, s):
    """condition: string x in s"""
    if x.op == "lit":
        inn = x.a[0] in s.s
        return TRUE if inn == s.pos else FALSE
    if x.op == "sel":
        return bind(x, lambda y: str_in(y, s))
    if x.op == "bytemap":
        r = STRHOOK[0](x, s)
        if r is not None:
            return r
    if x.op == "after" and x.a[1].op == "lit":
        # x.a[0] starts with the prefix wherever this value is used
        return str_in(x.a[0], SS(s.pos, [x.a[1].a[0] + v for v in s.s]))
    if x.op == "dec":
        n = set()
        for v in s.s:
            if v.lstrip("-").isdigit() and str(int(v)) == v:
                n.add(int(v))
        c = member(x.a[0], s_pts(n))
        return c if s.pos else bnot(c)
    if x.op in ("concat", "join", "eachstr", "b64"):
        c = FALSE
        for v in s.s:
            c = bor(c, _str_is(x, v))
        return c if s.pos else bnot(c)
    return cond(x, s)


def _str_is(x, v):
    if x.op != "concat":
        if v == "" :
            return is_empty(x)
        return cond(x, SS(True, [v]))
    ps = list(x.a)
    if ps[0].op == "lit":
        if not v.startswith(ps[0].a[0]):
            return FALSE
        return _str_is_rest(ps[1:], v[len(ps[0].a[0]):])
    if ps[-1].op == "lit":
        w = ps[-1].a[0]
        if not v.endswith(w):
            return FALSE
        return _str_is_rest(ps[:-1], v[:len(v) - len(w)])
    if v == "":
        c = TRUE
        for p in ps:
            c = band(c, is_empty(p))
        return c
    return cond(x, SS(True, [v]))


def _str_is_rest(ps, v):
    r = concat(*ps)
    if r.op == "lit":
        return TRUE if r.a[0] == v else FALSE
    return str_in(r, SS(True, [v]))


_emp_memo = {}


def is_empty(x):
    """condition: string / vec x is empty"""
    r = _emp_memo.get(x)
    if r is None:
        r = _emp_memo[x] = is_empty_(x)
    return r


def is_empty_(x):
    op = x.op
    if op == "lit":
        return TRUE if x.a[0] == "" else FALSE
    if op == "bytelit":
        return TRUE if len(x.a[0]) == 0 else FALSE
    if op == "sel":
        return bind(x, is_empty)
    if op == "vec":
        c = TRUE
        if any(g[0] == "e" for g in x.a):
            return FALSE
        for g in x.a:
            if g[0] == "alt":
                c = band(c, is_empty(g[1]))
            elif g[0] == "all":
                c = band(c, is_empty(g[1]))
            elif g[0] == "each":
                e = is_empty(g[2])
                if e is TRUE:
                    continue
                if e is FALSE:
                    c = band(c, is_empty(g[1]))
                else:
                    c = band(c, bnot(any_of(g[1], bnot(e))))
            else:
                c = band(c, truth(mk("bool", mk("isempty", x))))
        return c
    if op == "concat":
        c = TRUE
        for p in x.a:
            c = band(c, is_empty(p))
        return c
    if op in ("dec", "chr", "fmtint", "strf"):
        return FALSE
    if op == "fld" and x.a[2] == 1 and x.a[0].op == "elem" and x.a[0].a[0].op == "group":
        return FALSE        # a name is in a group because it has a value
    if op == "bytemap":
        r = EMPTYHOOK[0](x)
        if r is not None:
            return r
    if op in ("bytes", "chars", "b64"):
        return is_empty(x.a[0])
    if op == "bytetab" and all(x.a[1]):
        return is_empty(x.a[0])
    if op == "after" and x.a[1].op == "lit":
        return str_in(x.a[0], SS(True, [x.a[1].a[0]]))
    if op == "eachstr":
        e = is_empty(x.a[1])
        if e is FALSE:
            return is_empty(x.a[0])
        return bnot(any_of(x.a[0], bnot(e)))
    if op in ("sorted", "sortset", "group", "lastmap", "rev", "hiter", "hkeys", "again", "iter", "map", "btset", "hset", "sortby"):
        return is_empty(x.a[0])
    if op in ("split",):
        return FALSE
    return cond(x, SS(True, [""]))


def eq_str(a, b):
    if a is b:
        return TRUE
    if a.op == "sel":
        return bind(a, lambda x: eq_str(x, b))
    if b.op == "sel":
        return bind(b, lambda x: eq_str(a, x))
    if a.op == "lit":
        return str_in(b, SS(True, [a.a[0]]))
    if b.op == "lit":
        return str_in(a, SS(True, [b.a[0]]))
    pa, pb = str_parts(a), str_parts(b)
    pre, suf = _common([pa, pb])
    if pre or suf:
        a2 = concat(*pa[pre:len(pa) - suf])
        b2 = concat(*pb[pre:len(pb) - suf])
        return eq_str(a2, b2)
    if pa and pb and pa[0].op == "lit" and pb[0].op == "lit":
        x, y = pa[0].a[0], pb[0].a[0]
        n = min(len(x), len(y))
        if x[:n] != y[:n]:
            return FALSE
        return eq_str(concat(lit(x[n:]), *pa[1:]), concat(lit(y[n:]), *pb[1:]))
    if a.id > b.id:
        a, b = b, a
    return truth(mk("eq", a, b))


# ---------------------------------------------------------------- sequences
def ungroup(g):
    """the groups of an ordered map, each sorted, one after the other: the sorted pairs"""
    src, b = g[1], g[2]
    if src.op != "group" or b.op != "vec" or len(b.a) != 1 or b.a[0][0] not in ("each", "all"):
        return g
    e = elem(src)
    k, vs = mk("fld", e, None, 0), mk("fld", e, None, 1)
    i = b.a[0]
    if i[1].op != "sorted" or i[1].a[0] is not vs:
        return g
    v = elem(i[1])
    s = REBUILD["sorted"](src.a[0])
    es = elem(s)
    nb = i[2] if i[0] == "each" else vec(E(v))
    nb = mapt(nb, lambda x: mk("fld", es, None, 0) if x is k else mk("fld", es, None, 1) if x is v else None, {})
    return g if contains(nb, e) else ("each", s, nb)


def vec(*sg):
    out = []
    for g in sg:
        if g[0] in ("all", "alt"):
            t = g[1]
            if t.op == "vec":
                out.extend(t.a)
            elif t.op == "sel":
                out.append(("alt", t))
            else:
                out.append(("all", t))
        elif g[0] == "each":
            b = g[2]
            if b.op == "vec" and not b.a:
                continue
            if b.op == "vec" and len(b.a) == 1 and b.a[0][0] == "e" and b.a[0][1].op == "elem" \
                    and b.a[0][1].a[0] is g[1]:
                out.append(("all", g[1]))
                continue
            g = ungroup(g)
            out.append(g)
        else:
            out.append(g)
    if len(out) == 1 and out[0][0] in ("all", "alt"):
        return out[0][1]
    return mk("vec", *out)


VNIL = mk("vec")


def E(x):
    return ("e", x)


def vcat(*vs):
    sg = []
    for v in vs:
        sg.extend(segs(v))
    return vec(*sg)


def elem(src):
    return mk("elem", src)


PERM = {"sorted", "hiter", "again", "rev", "sortset", "sortby"}


# what "some element" and "the first element" that meet a condition are, for sources with more structure
ANYSRC = {}
FIRSTSRC = {}


def first_of(src, c):
    """the first element of src that satisfies c (over elem(src))"""
    f = FIRSTSRC.get(src.op)
    r = f(src, c) if f else None
    return mk("first", src, c) if r is None else r


def any_of(src, c):
    """condition: some element of src satisfies c (over elem(src))"""
    if c is FALSE:
        return FALSE
    if src.op in PERM and not contains(c, mk("idx", src)):
        # same elements in another order
        return any_of(src.a[0], subst(c, elem(src), elem(src.a[0])))
    if src.op == "sel":
        return bind(src, lambda x: any_of(x, subst(c, elem(src), elem(x))))
    if src.op == "vec":
        r = FALSE
        e = elem(src)
        for g in src.a:
            if g[0] == "e":
                r = bor(r, subst(c, e, g[1]))
            elif g[0] in ("all", "alt"):
                r = bor(r, any_of(g[1], subst(c, e, elem(g[1]))))
            elif g[0] == "each":
                b = g[2]
                r = bor(r, any_of(g[1], any_of(b, subst(c, e, elem(b)))))
            else:
                return truth(mk("any", src, c))
        return r
    if c is TRUE:
        return bnot(is_empty(src))
    if not contains(c, elem(src)) and not contains(c, mk("idx", src)) and not contains(c, mk("bidx", src)):
        return band(c, bnot(is_empty(src)))
    f = ANYSRC.get(src.op)
    if f:
        r = f(src, c)
        if r is not None:
            return r
    # any distributes over disjunction only; pull invariant factors out is not needed
    return truth(mk("any", src, c))


# ---------------------------------------------------------------- rebuild after substitution
REBUILD = {"first": first_of}


def rebuild(op, a):
    f = REBUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


REBUILD["concat"] = concat
REBUILD["vec"] = vec
REBUILD["lin"] = lambda c, ts: lin(c, ts) if not any(t.op == "sel" for t, _ in ts) else _lin_sel(c, ts)
REBUILD["div"] = lambda x, n: divfloor(x, n)
REBUILD["mod"] = lambda x, n: modfloor(x, n)
REBUILD["any"] = lambda s, c: any_of(s, c)


def _lin_sel(c, ts):
    acc = INT(c)
    for t, k in ts:
        acc = add(acc, mulc(t, k))
    return acc


def _rb_eq(a, b):
    return eq_str(a, b)


REBUILD["eq"] = _rb_eq


# ---------------------------------------------------------------- printing
TABNAMES = {}


def show(t, depth=5):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return repr(t)
    op = t.op
    if op == "int":
        return str(t.a[0])
    if op == "lit":
        return repr(t.a[0]) if len(t.a[0]) < 80 else repr(t.a[0][:77] + "...")
    if depth <= 0:
        return "…"
    d = depth - 1
    if op == "adt":
        name = t.a[0].split("::")[-1]
        fs = t.a[2:]
        return "%s#%s%s" % (name, t.a[1], "(" + ", ".join(show(x, d) for x in fs) + ")" if fs else "")
    if op == "tuple":
        return "(" + ", ".join(show(x, d) for x in t.a) + ")"
    if op == "sel":
        return "[%s? %s]" % (show(t.a[0], d), "; ".join("%s: %s" % (show_set(s), show(c, d)) for s, c in t.a[1]))
    if op == "fld":
        return "%s.%s%s" % (show(t.a[0], d), "" if t.a[1] is None else "%s/" % t.a[1], t.a[2])
    if op == "concat":
        return "+".join(show(x, d) for x in t.a)
    if op == "vec":
        return "vec[" + ", ".join("%s %s" % (g[0], ", ".join(show(x, d) for x in g[1:])) for g in t.a) + "]"
    if op in ("bytemap", "bytetab"):
        n = TABNAMES.get(t.a[1])
        if n is None:
            n = "{" + " ".join("%02x>%r" % (i, b) for i, b in enumerate(t.a[1]) if b != bytes([i]))[:60] + "}"
        return "%s(%s, %s)" % (op, show(t.a[0], d), n)
    if op == "lin":
        return "(%s%s)" % (t.a[0], "".join(" %+d*%s" % (c, show(x, d)) for x, c in t.a[1]))
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in t.a))


def show_set(s):
    if isinstance(s, SS):
        return repr(s)
    return ",".join(
        str(lo) if lo == hi else "%s..%s" % ("" if lo <= NEG else lo, "" if hi >= POS else hi) for lo, hi in s)


def _rb_typed(v, r):
    if v.op == "int" or v.op == "typed":
        return v
    if v.op == "sel":
        return bind(v, lambda y: _rb_typed(y, r))
    return mk("typed", v, r)


REBUILD["typed"] = _rb_typed


# kinds of JSON values, numbered as the variants of serde_json::Value
JKINDS = {"null": 0, "bool": 1, "num": 2, "number": 2, "str": 3, "arr": 4, "obj": 5}


def jkis(kind, j):
    k = JKINDS[kind]
    return member(mk("jkind", j), ((k, k),))
