"""Shared parts of the checks: facts, runs, obligations, term parsing."""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "engine"))
from runs import *
from models import SYSRANGE
from equal import *
import terms as TM
import strings as S
from ext import hname

HOST = "storage.googleapis.com"
BASE = "https://storage.googleapis.com/"
ALG = "GOOG4-RSA-SHA256"
UNRESERVED = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
PCT = tuple(bytes([b]) if b in UNRESERVED else b"%%%02X" % b for b in range(256))
HEX = tuple(b"%02x" % b for b in range(256))


class Rep:
    """obligations of one property"""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.viol = []
        self.undecided = []
        self.analysed = {}

    def ok(self, name, where=None):
        self.obs.append((name, "holds", where))

    def bad(self, name, what, where=None):
        self.obs.append((name, "violated", where))
        self.viol.append((name, what, where))

    def unk(self, name, what, where=None):
        self.obs.append((name, "undecided", where))
        self.undecided.append((name, what, where))

    def ob(self, name, good, what="", where=None, opaque_=False):
        if good:
            self.ok(name, where)
        elif opaque_:
            self.unk(name, what, where)
        else:
            self.bad(name, what, where)
        return good

    def eq(self, name, a, b, care=TRUE, where=None):
        """the analysed value a equals the required value b"""
        if a is None:
            self.bad(name, "value not found", where)
            return False
        ds = compare(plain(a), plain(b), plain(care))
        if not ds:
            self.ok(name, where or loc(a))
            return True
        sure = [d for d in ds if d.definite]
        d = (sure or ds)[0]
        w = loc(d.a) or where or loc(a)
        if sure:
            self.bad(name, repr(d), w)
        else:
            self.unk(name, repr(d), w)
        return False

    def implied(self, name, care, c, what, where=None, relevant=None):
        """care implies c"""
        if implies(care, c):
            self.ok(name, where)
            return True
        rest = band(care, bnot(c))
        op = opaque(care) if relevant is None else any(opaque(v) for v in cvars(care) if relevant(v))
        if op:
            self.unk(name, what, where)
        else:
            self.bad(name, what + " (still possible: " + short(rest, 6) + ")", where)
        return False


def loc(t):
    """source position at which a value was made"""
    if t is None:
        return None
    seen = 0
    st = [t]
    while st and seen < 60:
        x = st.pop(0)
        seen += 1
        if not isinstance(x, TM.T):
            continue
        o = origin(x)
        if o:
            return fmtspan(o)
        for y in x.a:
            if isinstance(y, TM.T):
                st.append(y)
            elif isinstance(y, tuple):
                st.extend(z for z in y if isinstance(z, TM.T))
    return None


def fmtspan(o):
    if isinstance(o, (tuple, list)) and len(o) == 2 and isinstance(o[0], (tuple, list)):
        return fmtspan(o[0]) + (" in " + str(o[1]) if o[1] else "")
    if isinstance(o, (tuple, list)) and len(o) >= 2 and isinstance(o[0], str):
        return "%s:%s" % (o[0], o[1])
    return str(o)


class Ctx:
    def __init__(self, F):
        self.F = F
        self.memo = {}

    def url(self, kind):
        return self.get(("url", kind), lambda: UrlRun(run_url(self.F, kind)))

    def form(self, kind):
        return self.get(("form", kind), lambda: FormRun(run_form(self.F, kind)))

    def get(self, k, f):
        if k not in self.memo:
            self.memo[k] = f()
        return self.memo[k]


_plain = {}


def plain(t):
    """t with lower-cased text written like the text of a header name made from it"""
    if not has_op(t, ("bytemap",)):
        return t
    return TM.mapt(t, lambda x: hname(plain(x.a[0])) if x.op == "bytemap" and x.a[1] == S.LOWER else None, _plain)


def mentions(t, *xs):
    return any(contains(t, x) for x in xs)


def ok_leaves(ret):
    """(condition, payload) of the successful results; and the condition of anything else"""
    good = []
    for c, l in leaves_pc(ret):
        if l.op == "adt" and l.a[0] == RES:
            if l.a[1] == 0:
                good.append((c, l.a[2]))
        else:
            good.append((c, None))
    return good


def okpc(ret):
    c = FALSE
    for p, _ in ok_leaves(ret):
        c = bor(c, p)
    return c


# ---------------------------------------------------------------- text
def lines(parts, sep="\n"):
    """cut a list of text parts at the separator where it occurs in literal text"""
    out = [[]]
    for p in parts:
        if p.op == "lit":
            xs = p.a[0].split(sep)
            if xs[0]:
                out[-1].append(lit(xs[0]))
            for x in xs[1:]:
                out.append([lit(x)] if x else [])
        else:
            out[-1].append(p)
    return [concat(*x) for x in out]


def cut(parts, s):
    """(before, after) at the first literal occurrence of s; None if there is none"""
    for i, p in enumerate(parts):
        if p.op == "lit":
            k = p.a[0].find(s)
            if k >= 0:
                return (concat(*parts[:i], lit(p.a[0][:k])), concat(lit(p.a[0][k + len(s):]), *parts[i + 1:]))
    return None


def rcut(parts, s):
    for i in range(len(parts) - 1, -1, -1):
        p = parts[i]
        if p.op == "lit":
            k = p.a[0].rfind(s)
            if k >= 0:
                return (concat(*parts[:i], lit(p.a[0][:k])), concat(lit(p.a[0][k + len(s):]), *parts[i + 1:]))
    return None


def unquote(b):
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 0x25:
            h = b[i + 1:i + 3]
            if len(h) == 2 and all(c in b"0123456789abcdefABCDEF" for c in h):
                out.append(int(h, 16))
                i += 3
                continue
            return None
        out.append(b[i])
        i += 1
    return bytes(out)


_ptab = {}


def pct_table(t, m):
    """is the bytewise map t undone by percent-decoding on the bytes m? -> (ok, bytes left as they are)"""
    k = (t, m)
    r = _ptab.get(k)
    if r is None:
        good = True
        raw = 0
        for b in S.bits(m):
            e = t[b]
            if e == bytes([b]):
                if b == 0x25:
                    good = False
                raw |= 1 << b
            elif unquote(e) == bytes([b]) and e[:1] == b"%":
                pass
            else:
                good = False
        r = _ptab[k] = (good, raw)
    return r


def pct_decode(t):
    """the text t percent-decodes to, or None when t is not text in percent-encoded form"""
    if t.op == "lit":
        b = unquote(S.enc(t.a[0]))
        return None if b is None else lit(S.dec(b))
    if t.op == "concat":
        ps = [pct_decode(p) for p in t.a]
        return None if any(p is None for p in ps) else concat(*ps)
    if t.op == "sel":
        bad = []

        def f(x):
            r = pct_decode(x)
            if r is None:
                bad.append(x)
                return x
            return r
        r = bind(t, f)
        return None if bad else r
    if t.op == "bytemap":
        g, _ = pct_table(t.a[1], S.cs(t.a[0]))
        return t.a[0] if g else None
    if t.op == "join":
        sep = pct_decode(t.a[1])
        bad = []

        def g(x):
            r = pct_decode(x)
            if r is None:
                bad.append(x)
                return x
            return r
        v = S.seqbody(t.a[0], g)
        return None if bad or sep is None else S.join(v, sep)
    if not S.cs(t) >> 0x25 & 1:
        return t
    return None


def raw_chars(t):
    """bytes of the text that can come from inputs unescaped"""
    m = 0
    for p in str_parts(t):
        if p.op == "lit":
            continue
        for l in leaves(p):
            for q in str_parts(l):
                if q.op == "lit":
                    continue
                m |= S.cs(q) & ~S.mask(b"%") if pct_decode(q) is not None else S.cs(q)
    return m


# ---------------------------------------------------------------- spec parts
def date_of(s):
    return concat(mk("strf", "Y", s), mk("strf", "m", s), mk("strf", "d", s))


def datetime_of(s):
    return concat(date_of(s), lit("T"), mk("strf", "H", s), mk("strf", "M", s), mk("strf", "S", s), lit("Z"))


def iso_of(s):
    return concat(mk("strf", "Y", s), lit("-"), mk("strf", "m", s), lit("-"), mk("strf", "d", s), lit("T"),
                  mk("strf", "H", s), lit(":"), mk("strf", "M", s), lit(":"), mk("strf", "S", s), lit("Z"))


NS = 1000000000


def option_payload(t):
    """(discriminant variable condition is_some, payload) of an Option input"""
    d = None
    if t.op == "in" or t.op == "fld":
        d = mk("disc", t, (0, 1))
    return d


def nowvars(t):
    return {x for x in subterms(t) if x.op == "in" and isinstance(x.a[0], str) and x.a[0].startswith("now#")}


def strf_args(*ts):
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == "strf" and x.a[1] not in out:
                out.append(x.a[1])
    return out


def kids(x):
    """direct subterms"""
    out = []
    q = list(x.a)
    while q:
        z = q.pop()
        if isinstance(z, TM.T):
            out.append(z)
        elif isinstance(z, tuple):
            q.extend(z)
    return out


def occurrences(t, care, pred, conds=True, stop=()):
    """(condition, subterm) for the subterms satisfying pred that the value t depends on where care holds"""
    seen = set()
    st = [(t, care)]
    while st:
        x, c = st.pop()
        if c is FALSE:
            continue
        x = restrict(x, c)
        if (x, c) in seen:
            continue
        seen.add((x, c))
        if pred(x):
            yield c, x
            continue
        if x.op == "sel":
            for v in sel_vars(x) if conds else ():
                st.append((v, c))
            for p, l in leaves_pc(x):
                st.append((l, band(c, p)))
            continue
        if x.op in stop:
            continue
        st.extend((k, c) for k in kids(x))


def depends(t, care, pred, conds=True, stop=()):
    """a subterm satisfying pred that the value t depends on where care holds, or None"""
    for _, x in occurrences(t, care, pred, conds, stop):
        return x
    return None


def sel_vars(x):
    out = set()
    seen = set()
    st = [x]
    while st:
        y = st.pop()
        if y.op == "sel" and y not in seen:
            seen.add(y)
            out.add(y.a[0])
            st.extend(ch for _, ch in y.a[1])
    return out


class Base:
    """one analysed entry point"""

    def __init__(self, r):
        self.r = r
        self.ret = r.ret
        self.inp = r.inp
        self.kind = r.kind
        self.ev = r.ev[r.mark:]
        self.allev = r.ev
        self.unknown = r.unknown
        self.oks = ok_leaves(r.ret)
        self.okpc = okpc(r.ret)

    def opt(self, name):
        return self.inp[name]

    def message(self, sig):
        """the text that was signed to make the signature bytes sig, and the signer"""
        for x in subterms(sig):
            if x.op == "rsasig":
                m = x.a[2]
                return S.frombytes(m) if S.frombytes(m) is not None else m, "local", x
        for x in subterms(sig):
            if x.op == "resp":
                q = x.a[1]
                if q.op == "adt" and q.a[2] is lit("POST"):
                    p = signblob_payload(q)
                    if p is not None:
                        return p, "signBlob", x
        return None, None, None


def signblob_payload(q, cfg=False):
    """text whose base64 is the payload member of a signBlob request"""
    for x in subterms(q.a[5]):
        if x.op == "tuple" and len(x.a) == 2 and x.a[0] is lit("payload"):
            v = x.a[1]
            if v.op == "jstr" and v.a[0].op == "b64":
                b = v.a[0].a[0]
                t = S.frombytes(b) if S.frombytes(b) is not None else b
                return (t, v.a[0].a[1]) if cfg else t
    return (None, None) if cfg else None


def isnow(x):
    return x.op == "typed" and x.a[0].op == "in" and isinstance(x.a[0].a[0], str) and x.a[0].a[0].startswith("now#")


def nows(*ts):
    """clock readings a value depends on"""
    out = []
    for t in ts:
        for x in subterms(t):
            if isnow(x) and x not in out:
                out.append(x)
    return out


def payload(o, r=None):
    """content of an optional input"""
    return mk("fld", o, 1, 0) if r is None else mk("typed", mk("fld", o, 1, 0), r)


def disc(o):
    return mk("disc", o, (0, 1))


def opt_case(o, none, some_):
    return case(disc(o), [(s_point(0), none), (s_point(1), some_)])


def instant(a, t):
    """nanoseconds of the instant used: the payload of the optional input a, or the one clock reading in t"""
    ns = nows(t)
    return opt_case(a, ns[0] if ns else mk("noclock"), payload(a, SYSRANGE)), ns


def region_of(o):
    return opt_case(o, lit("auto"), payload(o))


def strip(t):
    while t.op == "typed":
        t = t.a[0]
    return t


def cellpath(t):
    """(cell reading, component path) of a value taken out of a cache"""
    t = strip(t)
    p = []
    while t.op in ("part", "fld"):
        p.append(t.a[-1])
        t = strip(t.a[0])
    if t.op == "some":
        t = t.a[0]
    if t.op == "cell":
        return t, tuple(reversed(p))
    return None


def flat(v, p=()):
    """component path -> value of a stored value"""
    if v.op == "tuple":
        for i, x in enumerate(v.a):
            yield from flat(x, p + (i,))
    elif v.op == "adt" and v.a[0] not in (OPT, RES, "$rb"):
        for i, x in enumerate(v.a[2:]):
            yield from flat(x, p + (i,))
    else:
        yield p, v


class UrlRun(Base):
    """a signed URL run, its URL and signed text taken apart"""

    def __init__(self, r):
        super().__init__(r)
        self.cases = []
        for pc, u in self.oks:
            self.cases.append(UrlCase(self, pc, u))


class UrlCase:
    def __init__(self, run, pc, u):
        self.run = run
        self.pc = pc
        self.u = u
        self.head = self.path = self.query = self.sigtext = self.sig = self.M = self.CR = None
        self.mlines = self.clines = None
        self.signer = None
        if u is None:
            return
        q = cut(str_parts(u), "?")
        if q is None:
            return
        self.head = q[0]
        s = rcut(str_parts(q[1]), "&X-Goog-Signature=")
        if s is None:
            self.query = q[1]
        else:
            self.query, self.sigtext = s
            self.sig = self.sigtext.a[0] if self.sigtext.op == "bytetab" else None
        if self.sigtext is not None:
            self.M, self.signer, self.sigterm = run.message(self.sigtext)
        if self.M is not None:
            self.mlines = lines(S_parts(self.M))
            hs = [x for x in subterms(self.mlines[-1]) if x.op == "sha256"]
            if len(hs) == 1:
                self.CR = S.frombytes(hs[0].a[0])
        if self.CR is not None:
            self.clines = lines(sparts(self.CR))
        self._pairs = 0

    def pairs(self):
        """the (encoded name, encoded value) elements of the query, before sorting"""
        if self._pairs == 0:
            self._pairs = query_pairs(self.query) if self.query is not None else None
        return self._pairs

    def param(self, name):
        """[(segment index, value)] of fixed query parameters with this (encoded) name"""
        p = self.pairs()
        if p is None:
            return None
        out = []
        for g in segs(p[0]):
            if g[0] == "e" and g[1].op == "tuple" and g[1].a[0] is lit(name):
                out.append(g[1].a[1])
        return out


def S_parts(t):
    return sparts(t)


def query_pairs(q):
    """(pairs before ordering, ordered?) of a query text"""
    if q.op == "join" and q.a[1] is lit("&"):
        v = q.a[0]
        sg = segs(v)
        if len(sg) == 1 and sg[0][0] == "each" and sg[0][1].op == "sorted":
            src = sg[0][1]
            body = sg[0][2]
            e = elem(src)
            n, w = tup_field(e, 0), tup_field(e, 1)
            if body is vec(E(concat(n, lit("="), w))):
                return src.a[0], True
        if len(sg) == 1 and sg[0][0] == "each" and sg[0][1].op in ("sortby", "sortset"):
            # ordered in some other way, or duplicates removed
            src = sg[0][1]
            e = elem(src)
            if sg[0][2] is vec(E(concat(tup_field(e, 0), lit("="), tup_field(e, 1)))):
                return src.a[0], False
        return v, False
    return None


def tup_field(e, i):
    return mk("fld", e, None, i)


class FormRun(Base):
    def __init__(self, r):
        super().__init__(r)
        self.opts = r.opts
        self.cases = [FormCase(self, pc, v) for pc, v in self.oks]


class FormCase:
    def __init__(self, run, pc, v):
        self.run = run
        self.pc = pc
        self.v = v
        self.seq = None
        if v is not None and v.op == "adt" and v.a[0] == FORMD:
            # what a caller gets out of the form
            self.seq = run.r.R.call(FORMD + "::into_vec", [v])
            if not seqlike(self.seq):
                self.seq = None
        self.segs = nsegs(list(segs(self.seq)), pc) if self.seq is not None else None

    def named(self, name):
        """[(gate, value)] of fields emitted under a fixed name; gate 'e' (always) or a choice"""
        out = []
        for g in self.segs or []:
            if g[0] == "e":
                if g[1].op == "tuple" and g[1].a[0] is lit(name):
                    out.append((TRUE, g[1].a[1]))
            elif g[0] == "alt":
                for c, l in leaves_pc(g[1]):
                    for h in segs(l):
                        if h[0] == "e" and h[1].op == "tuple" and h[1].a[0] is lit(name):
                            out.append((c, h[1].a[1]))
        return out

    def value(self, name):
        n = self.named(name)
        return n[0][1] if len(n) == 1 else None
