"""Equality of value terms where a condition holds.

compare(a, b, care) returns [] when the two terms denote the same value on every
execution on which `care` holds, else a list of differences. A difference is
`definite` when both sides are written over understood operations only, and not
when an unsummarised loop or unmodelled call is involved.
"""
from terms import *
import terms as TM
from strings import *
import strings as S

OPAQUE = {"unk", "havoc", "fold", "prefix", "cv", "carry", "carryn", "undef", "moved", "lastof", "ptr",
          "static", "tlskey",
          # URL texts whose parts could not be told apart
          "const", "url", "urlpart", "urlset", "uri", "uripart", "urltext", "qparse", "qapp", "qopen", "qoapp"}


class D:
    __slots__ = ("a", "b", "care", "definite", "where")

    def __init__(self, a, b, care, where):
        self.a, self.b, self.care, self.where = a, b, care, where
        self.definite = not opaque(a) and not opaque(b) and not opaque(care)

    def __repr__(self):
        return "found %s, expected %s%s" % (short(self.a), short(self.b), "" if self.care is TRUE else " when " + short(self.care))


def short(t, d=7, n=400):
    s = show(t, d) if isinstance(t, TM.T) else repr(t)
    s = brief(s)
    return s if len(s) <= n else s[:n] + "…"


def brief(s):
    import re
    s = re.sub(r"typed\((in\('[^']*'\)(?:\.\d/\d)?), \([-0-9, ]*\)\)", r"\1", s)
    return s.replace("disc(", "variant(").replace(", (0, 1))", ")")


_op_memo = {}


def opaque(t):
    if isinstance(t, tuple):
        return any(opaque(x) for x in t)
    if not isinstance(t, TM.T):
        return False
    r = _op_memo.get(t)
    if r is None:
        _op_memo[t] = False
        r = _op_memo[t] = t.op in OPAQUE or any(opaque(x) for x in t.a)
    return r


_vars = {}


def cvars(c):
    """variables tested by a condition"""
    r = _vars.get(c)
    if r is None:
        r = set()
        seen = set()
        st = [c]
        while st:
            x = st.pop()
            if x.op == "sel" and x not in seen:
                seen.add(x)
                r.add(x.a[0])
                st.extend(ch for _, ch in x.a[1])
        r = _vars[c] = frozenset(r)
    return r


_el_memo = {}


def elem_care(care, src):
    """what care says about every element of src"""
    k = (care, src)
    r = _el_memo.get(k)
    if r is not None:
        return r
    c = TRUE
    base = src
    while base.op in PERM:
        base = base.a[0]
    for v in cvars(care):
        if v.op == "any":
            s = v.a[0]
            b = s
            while b.op in PERM:
                b = b.a[0]
            if (b is base) and project(care, v) == ((0, 0),):
                c = band(c, bnot(subst(v.a[1], elem(s), elem(src))))
    _el_memo[k] = c
    return c


def norm(t, care):
    """t simplified where care holds"""
    t = restrict(t, care)
    if t.op in ("sel", "lit", "int") or care is TRUE:
        return t
    if t in cvars(care):
        s = project(care, t)
        if isinstance(s, SS):
            if s.pos and len(s.s) == 1:
                return lit(next(iter(s.s)))
        elif s is not None and len(s) == 1 and s[0][0] == s[0][1]:
            return INT(s[0][0])
    return t


_cmp = {}
LIMIT = 4


def compare(a, b, care=TRUE, where=()):
    if a is b or care is FALSE:
        return []
    k = (a, b, care)
    r = _cmp.get(k)
    if r is None:
        # met again before anything was taken apart: not told to be equal
        _cmp[k] = [D(a, b, care, where)]
        r = _compare(a, b, care, where)
        _cmp[k] = r
    return r


def split(a, b, var, care, where, f=None):
    out = []
    f = f or compare
    for reg in TM._regions(var, [x for x in (a, b)] + [care]) or []:
        c = band(care, cond(var, reg))
        if c is FALSE:
            continue
        x = TM.cof(a, var, reg) if TM.top(a) is var else a
        y = TM.cof(b, var, reg) if TM.top(b) is var else b
        if x is None or y is None:
            continue
        out += f(x, y, c, where)
        if len(out) >= LIMIT:
            break
    return out


def parted(x, i):
    """part i of a tuple some parts of which were replaced"""
    while x.op == "updf":
        if x.a[2] == i:
            return x.a[3]
        x = x.a[0]
    return x.a[i] if x.op == "tuple" else mk("fld", x, None, i)


def _compare(a, b, care, where):
    a = norm(a, care)
    b = norm(b, care)
    if a is b:
        return []
    ta, tb = TM.top(a), TM.top(b)
    if (ta is not None or tb is not None) and not (a.op == "vec" or b.op == "vec" or a.op == "concat" or b.op == "concat"):
        m = ta if tb is None or (ta is not None and ta.id <= tb.id) else tb
        return split(a, b, m, care, where)
    if a.op == b.op == "group":
        x, y = push(a), push(b)
        if x is not a or y is not b:
            return compare(x, y, care, where)
        return compare(a.a[0], b.a[0], care, where)
    if a.op == b.op and a.op in ("sorted", "sortset", "hset", "btset"):
        return cmp_bag(list(segs(a.a[0])), list(segs(b.a[0])), care, where)
    if is_seq(a) and is_seq(b) and not (a.op == b.op and a.op in PERM):
        return cmp_seq(list(segs(a)), list(segs(b)), care, where)
    if a.op == "concat" or b.op == "concat" or (strish(a) and strish(b) and (a.op in EXPAND or b.op in EXPAND)):
        return cmp_str(list(sparts(a)), list(sparts(b)), care, where)
    if a.op == "join" and b.op == "join":
        return compare(a.a[1], b.a[1], care, where) or compare(a.a[0], b.a[0], care, where)
    for x, y in ((a, b), (b, a)):
        if x.op == "updf" and x.a[1] is None and y.op == "tuple":
            x = tup(*[parted(x, i) for i in range(len(y.a))])
            return compare(x, y, care, where) if y is b else compare(y, x, care, where)
    if a.op == b.op and len(a.a) == len(b.a) and a.op not in ("lit", "int", "in"):
        out = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, TM.T) and isinstance(y, TM.T):
                out += compare(x, y, care, where)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                out += cmp_tuple(x, y, care, where, a, b)
            elif x != y:
                return [D(a, b, care, where)]
            if len(out) >= LIMIT:
                break
        return out
    return [D(a, b, care, where)]


def cmp_tuple(x, y, care, where, a, b):
    if x == y:
        return []
    if len(x) != len(y):
        return [D(a, b, care, where)]
    out = []
    for p, q in zip(x, y):
        if isinstance(p, TM.T) and isinstance(q, TM.T):
            out += compare(p, q, care, where)
        elif isinstance(p, tuple) and isinstance(q, tuple):
            out += cmp_tuple(p, q, care, where, a, b)
        elif p != q:
            return [D(a, b, care, where)]
    return out


# ---------------------------------------------------------------- strings
EXPAND = {"eachstr"}


def strish(t):
    return t.op in ("lit", "concat", "join", "eachstr", "bytemap", "in", "strf", "dec", "b64", "bytetab")


def nonempty(src):
    return is_empty(src) is FALSE


def sparts(t):
    """parts, with separators-per-element loops written as joins when there is at least one element"""
    out = []
    for p in str_parts(t):
        if p.op == "eachstr" and nonempty(p.a[0]):
            bp = list(str_parts(p.a[1]))
            if len(bp) > 1 and bp[-1].op == "lit" and bp[-1].a[0][-1:] in ("\n", ",", ";", "&"):
                sep = bp[-1].a[0][-1]
                body = concat(*bp[:-1], lit(bp[-1].a[0][:-1]))
                out += [mk("join", vec(("each", p.a[0], vec(E(body)))), lit(sep)), lit(sep)]
                continue
            if len(bp) > 1 and bp[0].op == "lit" and bp[0].a[0][:1] in ("\n", ",", ";", "&"):
                sep = bp[0].a[0][0]
                body = concat(lit(bp[0].a[0][1:]), *bp[1:])
                out += [lit(sep), mk("join", vec(("each", p.a[0], vec(E(body)))), lit(sep))]
                continue
        out.append(p)
    r = concat(*out)
    return str_parts(r)


def cmp_str(pa, pb, care, where):
    """align two lists of text parts"""
    pa = [norm(p, care) for p in pa]
    pb = [norm(p, care) for p in pb]
    pa = list(str_parts(concat(*pa)))
    pb = list(str_parts(concat(*pb)))
    # front
    while pa and pb:
        x, y = pa[0], pb[0]
        if x is y:
            pa.pop(0)
            pb.pop(0)
            continue
        if x.op == "lit" and y.op == "lit":
            n = 0
            u, v = x.a[0], y.a[0]
            while n < min(len(u), len(v)) and u[n] == v[n]:
                n += 1
            if n == 0 or (n < len(u) and n < len(v)):
                return [D(x, y, care, where)]
            pa[0:1] = [lit(u[n:])] if u[n:] else []
            pb[0:1] = [lit(v[n:])] if v[n:] else []
            continue
        if x.op != "sel" and y.op != "sel" and x.op == y.op and not compare(x, y, care, where):
            pa.pop(0)
            pb.pop(0)
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x is y:
            pa.pop()
            pb.pop()
            continue
        if x.op == "lit" and y.op == "lit":
            n = 0
            u, v = x.a[0], y.a[0]
            while n < min(len(u), len(v)) and u[-1 - n] == v[-1 - n]:
                n += 1
            if n == 0 or (n < len(u) and n < len(v)):
                return [D(x, y, care, where)]
            pa[-1:] = [lit(u[:-n])] if u[:-n] else []
            pb[-1:] = [lit(v[:-n])] if v[:-n] else []
            continue
        if x.op != "sel" and y.op != "sel" and x.op == y.op and not compare(x, y, care, where):
            pa.pop()
            pb.pop()
            continue
        break
    if not pa and not pb:
        return []
    # a choice left: split on it
    for ps in (pa, pb):
        for p in ps:
            if p.op == "sel":
                var = p.a[0]
                out = []
                for reg in TM._regions(var, [q for q in pa + pb if q.op == "sel"] + [care]) or []:
                    c = band(care, cond(var, reg))
                    if c is FALSE:
                        continue
                    out += cmp_str(pa, pb, c, where)
                    if len(out) >= LIMIT:
                        break
                return out
    a, b = concat(*pa), concat(*pb)
    if a.op == b.op and a.op not in ("concat", "lit") and len(pa) == len(pb) == 1:
        return compare(a, b, care, where) or []
    if not pa or not pb:
        # the rest must be empty text
        rest = a if pa else b
        if implies(care, is_empty(rest)):
            return []
    if len(pa) == len(pb):
        # name the first differing pair
        for x, y in zip(pa, pb):
            if x.op != "lit" and y.op != "lit":
                d = compare(x, y, care, where)
                if d:
                    return d
            elif x is not y:
                break
    return [D(a, b, care, where)]


# ---------------------------------------------------------------- sequences
def is_seq(t):
    return t.op == "vec" or TM.seqlike(t) or t.op in PERM or (t.op == "sel" and any(l.op == "vec" for l in leaves(t)))


def nseg(g, care):
    """a segment simplified where care holds"""
    if g[0] == "alt":
        t = norm(g[1], care)
        return list(segs(t))
    return [g]


def nsegs(gs, care):
    out = []
    for g in gs:
        out += nseg(g, care)
    # once more: simplification may expose nested choices
    return out


def cmp_seg(x, y, care, where):
    if x == y:
        return []
    if x[0] == "e" and y[0] == "e":
        return compare(x[1], y[1], care, where)
    if x[0] in ("all", "each") and y[0] in ("all", "each"):
        d = compare(x[1], y[1], care, where)
        if d:
            return d
        bx = x[2] if x[0] == "each" else vec(E(elem(x[1])))
        by = y[2] if y[0] == "each" else vec(E(elem(y[1])))
        if x[1] is not y[1]:
            by = subst(by, elem(y[1]), elem(x[1]))
        c = band(care, elem_care(care, x[1]))
        return compare(bx, by, c, where)
    if x[0] == "alt" and y[0] == "alt":
        return compare(x[1], y[1], care, where)
    return [D(vec(x), vec(y), care, where)]


def cmp_seq(pa, pb, care, where):
    pa = nsegs(pa, care)
    pb = nsegs(pb, care)

    def same(x, y):
        if x == y:
            return True
        if "alt" in (x[0], y[0]):
            return False
        return not cmp_seg(x, y, care, where)
    while pa and pb and same(pa[0], pb[0]):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and same(pa[-1], pb[-1]):
        pa.pop()
        pb.pop()
    if not pa and not pb:
        return []
    for g in pa + pb:
        if g[0] == "alt":
            var = g[1].a[0]
            out = []
            for reg in TM._regions(var, [h[1] for h in pa + pb if h[0] == "alt"] + [care]) or []:
                c = band(care, cond(var, reg))
                if c is FALSE:
                    continue
                out += cmp_seq(pa, pb, c, where)
                if len(out) >= LIMIT:
                    break
            return out
    if not pa or not pb:
        rest = vec(*(pa or pb))
        if implies(care, is_empty(rest)):
            return []
    if pa and pb and pa[0][0] == pb[0][0]:
        d = cmp_seg(pa[0], pb[0], care, where)
        if d:
            return d
    return [D(vec(*pa), vec(*pb), care, where)]


def cmp_bag(pa, pb, care, where):
    """same elements, each as often, in any order"""
    pa = nsegs(pa, care)
    pb = nsegs(pb, care)
    rest = list(pb)
    left = []
    for x in pa:
        for i, y in enumerate(rest):
            if x == y or (x[0] != "alt" and y[0] != "alt" and not cmp_seg(x, y, care, where)):
                del rest[i]
                break
        else:
            left.append(x)
    if not left and not rest:
        return []
    for g in left + rest:
        if g[0] == "alt":
            var = g[1].a[0]
            out = []
            for reg in TM._regions(var, [h[1] for h in left + rest if h[0] == "alt"] + [care]) or []:
                c = band(care, cond(var, reg))
                if c is FALSE:
                    continue
                out += cmp_bag(left, rest, c, where)
                if len(out) >= LIMIT:
                    break
            return out
    # unfold equal permutations of other sequences
    if len(left) == 1 and len(rest) == 1:
        d = cmp_seg(left[0], rest[0], care, where)
        if d:
            return d
    if not left or not rest:
        r = vec(*(left or rest))
        if implies(care, is_empty(r)):
            return []
    return [D(vec(*left), vec(*rest), care, where)]


def push(t):
    """group(each hiter(X) -> f) == group(each X -> f): a header map keeps the order of the values of one name"""
    if t.op != "group":
        return t
    out = []
    ch = False
    for g in segs(t.a[0]):
        if g[0] in ("each", "all") and g[1].op == "hiter":
            X = g[1].a[0]
            b = g[2] if g[0] == "each" else vec(E(elem(g[1])))
            f = lambda e, b=b, src=g[1]: subst(b, elem(src), e)
            r = S.seqflat(X, f)
            out += segs(r)
            ch = True
        else:
            out.append(g)
    return mk("group", vec(*out)) if ch else t
