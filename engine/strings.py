"""String and byte algebra: bytewise maps, splitting, joining, charsets, formatting."""
import re
from terms import *
import terms as TM

ALLB = (1 << 256) - 1


def mask(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


DIGITS = mask(b"0123456789")
ALNUM = mask(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789")
UNRES = ALNUM | mask(b"-._~")
HEXL = mask(b"0123456789abcdef")
PCT = UNRES | mask(b"%")
B64 = ALNUM | mask(b"+/=")
VIS = mask(range(32, 127)) | mask(b"\t")
TCHAR = mask(b"!#$%&'*+-.^_`|~") | ALNUM
# characters url::Url leaves untouched in a path (ASCII, after '/'), minus those with a meaning
URLPATH = mask(range(0x21, 0x7f)) & ~mask(b"?#\\\"<>`{}^")
# characters left untouched in the query of a special-scheme URL
URLQUERY = mask(range(0x21, 0x7f)) & ~mask(b"#\"<>'")
# http::Uri path / query characters
URIPATH = mask(range(0x21, 0x7f)) & ~mask(b"?#<>\\^`{}\"") | mask(b"\"{}")
URIQUERY = mask(range(0x21, 0x7f)) & ~mask(b"#<>\"") | mask(b"?")


def bits(m):
    return [i for i in range(256) if m >> i & 1]


def enc(s):
    return s.encode("utf-8", "surrogateescape")


def dec(b):
    return b.decode("utf-8", "surrogateescape")


IDT = tuple(bytes([b]) for b in range(256))
LOWER = tuple(bytes([b]).lower() for b in range(256))
UPPER = tuple(bytes([b]).upper() for b in range(256))

_cs = {}


def cs(x):
    r = _cs.get(x)
    if r is None:
        r = _charset(x)
        _cs[x] = r
    return r


def _charset(x):
    op = x.op
    if op == "lit":
        return mask(enc(x.a[0]))
    if op == "concat":
        m = 0
        for p in x.a:
            m |= cs(p)
        return m
    if op == "sel":
        m = 0
        for l in leaves(x):
            m |= cs(l)
        return m
    if op == "bytemap":
        m = 0
        for b in bits(cs(x.a[0])):
            m |= mask(x.a[1][b])
        return m
    if op == "bytetab":
        m = 0
        for t in x.a[1]:
            m |= mask(t)
        return m
    if op == "dec":
        r = rng(x.a[0])
        return DIGITS if r and r[0] >= 0 else DIGITS | mask(b"-")
    if op == "fmtint":
        return ALNUM | mask(b"-+ ")
    if op == "strf":
        return DIGITS if x.a[0] != "Y" else DIGITS
    if op == "b64":
        return B64
    if op == "urlnorm":
        return URLPATH
    if op == "urlquery":
        return URLQUERY
    if op == "urlpath":
        return URLPATH | mask(b"^")
    if op == "qser":
        return ALNUM | mask(b"*-._+%&=")
    if op in ("trim", "trimend", "trimstart"):
        return cs(x.a[0])
    if op == "vis":
        return cs(x.a[0]) & VIS
    if op == "hname":
        return TCHAR & ~mask(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ")
    if op == "join":
        return cs_seq(x.a[0]) | cs(x.a[1])
    if op == "eachstr":
        return cs(x.a[1])
    if op == "after":
        return cs(x.a[0])
    if op == "elem":
        s = x.a[0]
        if s.op == "split":
            return cs(s.a[0]) & ~mask(enc(s.a[1]) if isinstance(s.a[1], str) and len(s.a[1]) == 1 else b"")
        while s.op in PERM:
            s = s.a[0]
        if s.op == "vec":
            return cs_seq(s)
    if op == "chr":
        r = rng(x.a[0])
        if r and r[1] < 128:
            return mask(range(max(0, r[0]), r[1] + 1))
    return ALLB


def cs_seq(v):
    m = 0
    for g in segs(v):
        if g[0] == "e":
            m |= cs(g[1])
        elif g[0] == "alt":
            for l in leaves(g[1]):
                m |= cs_seq(l)
        elif g[0] == "all":
            m |= cs(elem(g[1]))
        elif g[0] == "each":
            m |= cs_seq(g[2])
        else:
            return ALLB
    return m


# ---------------------------------------------------------------- bytewise maps
def mapbytes(t, bs):
    return b"".join(t[b] for b in bs)


def bytemap(x, t):
    if t is IDT or t == IDT:
        return x
    op = x.op
    if op == "lit":
        return lit(dec(mapbytes(t, enc(x.a[0]))))
    if op == "concat":
        return concat(*[bytemap(p, t) for p in x.a])
    if op == "sel":
        return bind(x, lambda y: bytemap(y, t))
    if op in ("moved", "undef"):
        return x
    if op == "bytemap":
        t0 = x.a[1]
        return bytemap(x.a[0], tuple(mapbytes(t, t0[b]) for b in range(256)))
    if op == "bytetab":
        return bytetab(x.a[0], tuple(mapbytes(t, e) for e in x.a[1]))
    if op == "join":
        return join(seqbody(x.a[0], lambda e: bytemap(e, t)), bytemap(x.a[1], t))
    if op == "eachstr":
        return eachstr(x.a[0], bytemap(x.a[1], t))
    if op == "qser":
        pass
    m = cs(x)
    t2 = tuple(t[b] if m >> b & 1 else IDT[b] for b in range(256))
    if t2 == IDT:
        return x
    return mk("bytemap", x, t2)


def bytetab(v, t):
    if v.op == "bytes":
        return bytemap(v.a[0], t)
    if v.op == "bytelit":
        return lit(dec(mapbytes(t, v.a[0])))
    if v.op == "sel":
        return bind(v, lambda y: bytetab(y, t))
    return mk("bytetab", v, t)


def lower(x):
    return bytemap(x, LOWER)


def upper(x):
    return bytemap(x, UPPER)


def seqbody(v, f):
    """apply f to every element of a sequence of strings"""
    out = []
    for g in segs(v):
        if g[0] == "e":
            out.append(E(f(g[1])))
        elif g[0] == "alt":
            out.append(("alt", bind(g[1], lambda y: seqbody(y, f))))
        elif g[0] == "all":
            out.append(("each", g[1], vec(E(f(elem(g[1]))))))
        elif g[0] == "each":
            out.append(("each", g[1], seqbody(g[2], f)))
        else:
            out.append(g)
    return vec(*out)


def seqflat(v, f):
    """flat-map over a sequence: f(element) -> sequence"""
    out = []
    for g in segs(v):
        if g[0] == "e":
            out.extend(segs(f(g[1])))
        elif g[0] == "alt":
            out.append(("alt", bind(g[1], lambda y: seqflat(y, f))))
        elif g[0] == "all":
            out.append(("each", g[1], f(elem(g[1]))))
        elif g[0] == "each":
            out.append(("each", g[1], seqflat(g[2], f)))
        else:
            out.append(g)
    return vec(*out)


def tobytes(s):
    if s.op == "lit":
        return mk("bytelit", tuple(enc(s.a[0])))
    if s.op == "sel":
        return bind(s, tobytes)
    if s.op in ("moved", "undef"):
        return s
    if s.op == "utf8":
        return s.a[0]
    return mk("bytes", s)


def frombytes(b):
    """the string whose bytes are b (None when not known to be text)"""
    if b.op == "sel":
        ok = []

        def f(y):
            r = frombytes(y)
            ok.append(r is not None)
            return r if r is not None else y
        r = bind(b, f)
        return r if all(ok) else None
    if b.op == "bytes":
        return b.a[0]
    if b.op == "bytelit":
        try:
            return lit(bytes(b.a[0]).decode("utf-8"))
        except UnicodeDecodeError:
            return None
    return None


# ---------------------------------------------------------------- join / split
def eachstr(src, body):
    """concatenation of body over every element of src"""
    if src.op == "sel":
        return bind(src, lambda y: eachstr(y, subst(body, elem(src), elem(y))))
    if body is EMPTY:
        return EMPTY
    e = elem(src)
    if src.op == "bytes" or (src.op != "chars" and isbytes(src)):
        t = table(body, e, src)
        if t is not None:
            return bytetab(src, t)
    if src.op == "chars":
        t = chartable(body, e)
        if t is not None:
            return bytemap(src.a[0], t)
    if body is e:
        j = strcat_all(src)
        if j is not None:
            return j
    if src.op == "split" and isinstance(src.a[1], str) and len(src.a[1]) == 1 and ord(src.a[1]) < 128:
        # there is at least one piece: the separators of the text, and one more at an end
        ps = str_parts(body)
        for sep, b, lead in ((ps[0], ps[1:], True), (ps[-1], ps[:-1], False)):
            if sep.op != "lit":
                continue
            b = concat(*b)
            t = IDT if b is e else b.a[1] if b.op == "bytemap" and b.a[0] is e else None
            if t is not None:
                j = join(vec(("each", src, vec(E(b)))), sep)
                return concat(sep, j) if lead else concat(j, sep)
    return mk("eachstr", src, body)


def strcat_all(src):
    if src.op == "split" and src.a[1] == "":
        return src.a[0]
    return None




def isbytes(src):
    return src.op in BYTESRC or rng(elem(src)) == (0, 255)


def tolit(x):
    if x.op == "lit":
        return x.a[0]
    return None


def table(body, e, src):
    out = []
    te = mk("typed", e, (0, 255))
    for b in range(256):
        r = mapt(body, lambda x: INT(b) if x is e or x is te else None, {})
        if r.op != "lit":
            if r.op == "chr" or r.op == "concat":
                return None
            return None
        v = r.a[0]
        out.append(enc(v) if not (b >= 128 and v == chr(b)) else None)
    if any(x is None for x in out):
        # byte pushed as a Latin-1 character: not a bytewise map of UTF-8 text
        return None
    return tuple(out)


def chartable(body, e):
    out = []
    te = mk("typed", e, (0, 0x10FFFF))
    for b in range(128):
        r = mapt(body, lambda x: INT(b) if x is e or x is te else None, {})
        if r.op != "lit":
            return None
        out.append(enc(r.a[0]))
    hi = mk("typed", mk("hichar"), (128, 0x10FFFF))
    r = mapt(body, lambda x: hi if x is e or x is te else None, {})
    if r is mk("chr", hi):
        return tuple(out) + IDT[128:]
    if r.op == "eachstr" and r.a[0].op == "bytes" and r.a[0].a[0] is mk("chr", hi):
        pass
    if r.op == "bytemap" and r.a[0] is mk("chr", hi):
        return tuple(out) + tuple(r.a[1][128:])
    if r.op == "lit":
        return None
    return None


def join(v, sep):
    if v.op == "sel":
        return bind(v, lambda y: join(y, sep))
    if sep.op == "sel":
        return bind(sep, lambda y: join(v, y))
    if sep is EMPTY:
        return strcat(v)
    sg = segs(v)
    # a leading fixed element makes the separator unconditional for the rest
    if not sg:
        return EMPTY
    if sg[0][0] == "e":
        out = [sg[0][1]]
        for g in sg[1:]:
            r = sepstr(g, sep, True)
            if r is None:
                return mk("join", v, sep)
            out.append(r)
        return concat(*out)
    if sg[-1][0] == "e":
        out = []
        for g in sg[:-1]:
            r = sepstr(g, sep, False)
            if r is None:
                return mk("join", v, sep)
            out.append(r)
        return concat(*out, sg[-1][1])
    if len(sg) == 1 and sg[0][0] in ("all", "each") and sep.op == "lit":
        src = sg[0][1]
        if src.op == "split" and isinstance(src.a[1], str) and len(src.a[1]) == 1 and ord(src.a[1]) < 128:
            body = elem(src) if sg[0][0] == "all" else (
                sg[0][2].a[0][1] if sg[0][2].op == "vec" and len(sg[0][2].a) == 1 and sg[0][2].a[0][0] == "e" else None)
            e = elem(src)
            t = None
            if body is e:
                t = IDT
            elif body is not None and body.op == "bytemap" and body.a[0] is e:
                t = body.a[1]
            if t is not None:
                t = list(t)
                t[ord(src.a[1])] = enc(sep.a[0])
                return bytemap(src.a[0], tuple(t))
    return mk("join", v, sep)


def sepstr(g, sep, before):
    """text of a segment whose elements each carry a separator"""
    w = (lambda x: concat(sep, x)) if before else (lambda x: concat(x, sep))
    if g[0] == "e":
        return w(g[1])
    if g[0] == "all":
        return eachstr(g[1], w(elem(g[1])))
    if g[0] == "each":
        r = sepseq(g[2], sep, before)
        return None if r is None else eachstr(g[1], r)
    if g[0] == "alt":
        bad = []

        def f(y):
            r = sepseq(y, sep, before)
            if r is None:
                bad.append(1)
                return EMPTY
            return r
        r = bind(g[1], f)
        return None if bad else r
    return None


def sepseq(v, sep, before):
    out = []
    for g in segs(v):
        r = sepstr(g, sep, before)
        if r is None:
            return None
        out.append(r)
    return concat(*out)


def strcat(v):
    """concatenation of a sequence of strings"""
    if v.op == "sel":
        return bind(v, strcat)
    out = []
    for g in segs(v):
        if g[0] == "e":
            out.append(g[1])
        elif g[0] == "alt":
            out.append(bind(g[1], strcat))
        elif g[0] == "all":
            if g[1] is v:
                return eachstr(v, elem(v))
            out.append(eachstr(g[1], elem(g[1])))
        elif g[0] == "each":
            out.append(eachstr(g[1], strcat(g[2])))
        else:
            return mk("strcat", v)
    return concat(*out)


def split(s, sep):
    """s.split(sep) for a one-character literal separator -> sequence"""
    if s.op == "sel":
        return bind(s, lambda y: split(y, sep))
    if len(sep) != 1 or ord(sep) >= 128:
        if s.op == "lit" and sep:
            return vec(*[E(lit(x)) for x in s.a[0].split(sep)])
        return mk("split", s, sep)
    sb = 1 << ord(sep)
    segl = []
    cur = []
    parts = str_parts(s)
    if not parts:
        return vec(E(EMPTY))
    for i, p in enumerate(parts):
        if p.op == "lit":
            xs = p.a[0].split(sep)
            cur.append(lit(xs[0]))
            for x in xs[1:]:
                segl.append(E(concat(*cur)) if cur is not None else None)
                cur = [lit(x)]
        elif not cs(p) & sb:
            cur.append(p)
        else:
            # stands alone between separators?
            alone = concat(*cur) is EMPTY
            nxt = parts[i + 1] if i + 1 < len(parts) else None
            if not alone or not (nxt is None or (nxt.op == "lit" and nxt.a[0].startswith(sep))):
                return mk("split", s, sep)
            segl.extend(segs(split1(p, sep)))
            if nxt is None:
                return vec(*segl)
            # consume the separator that follows
            rest = concat(lit(nxt.a[0][1:]), *parts[i + 2:])
            r = split(rest, sep)
            return vec(*segl, *segs(r))
    segl.append(E(concat(*cur)))
    return vec(*segl)


def split1(p, sep):
    """p: one part that may contain sep"""
    if p.op == "sel":
        return bind(p, lambda y: split(y, sep))
    b = ord(sep)
    if p.op == "bytemap":
        t = p.a[1]
        src = [i for i in bits(cs(p.a[0])) if b in t[i]]
        if src == [b] and t[b] == bytes([b]):
            inner = split(p.a[0], sep)
            return seqbody(inner, lambda e: bytemap(e, t))
        if len(src) == 1 and t[src[0]] == bytes([b]) and src[0] < 128:
            inner = split(p.a[0], chr(src[0]))
            return seqbody(inner, lambda e: bytemap(e, t))
    if p.op == "join" and p.a[1] is lit(sep) and not cs_seq(p.a[0]) >> b & 1:
        # join of an empty sequence splits to one empty piece
        return select([(bnot(is_empty(p.a[0])), p.a[0]), (is_empty(p.a[0]), vec(E(EMPTY)))])
    return mk("split", p, sep)


# ---------------------------------------------------------------- prefix tests
def starts_with(s, p):
    if s.op == "sel":
        return bind(s, lambda y: starts_with(y, p))
    if p.op == "sel":
        return bind(p, lambda y: starts_with(s, y))
    if p.op == "lit" and p.a[0] == "":
        return TRUE
    if s is p:
        return TRUE
    if p.op == "lit":
        v = p.a[0]
        ps = str_parts(s)
        if not ps:
            return FALSE
        if ps[0].op == "lit":
            w = ps[0].a[0]
            if w.startswith(v):
                return TRUE
            if not v.startswith(w):
                return FALSE
            return starts_with(concat(*ps[1:]), lit(v[len(w):]))
        m = cs(s)
        if any(not m >> b & 1 for b in enc(v)):
            return FALSE
        if len(v) == 1 and len(ps) == 1 and s.op == "bytemap":
            pass
    return truth(mk("starts_with", s, p))


def ends_with(s, p):
    if s.op == "sel":
        return bind(s, lambda y: ends_with(y, p))
    if p.op == "lit":
        v = p.a[0]
        if v == "":
            return TRUE
        ps = str_parts(s)
        if not ps:
            return FALSE
        if ps[-1].op == "lit":
            w = ps[-1].a[0]
            if w.endswith(v):
                return TRUE
            if not v.endswith(w):
                return FALSE
            return ends_with(concat(*ps[:-1]), lit(v[:len(v) - len(w)]))
        m = cs(s)
        if any(not m >> b & 1 for b in enc(v)):
            return FALSE
    return truth(mk("ends_with", s, p))


def after(s, p):
    """the rest of s behind the prefix p (meaningful where starts_with holds)"""
    if s.op == "sel":
        return bind(s, lambda y: after(y, p))
    if p.op == "sel":
        return bind(p, lambda y: after(s, y))
    if s is p:
        return EMPTY
    if p is EMPTY:
        return s
    if p.op == "lit":
        v = p.a[0]
        ps = str_parts(s)
        if ps and ps[0].op == "lit":
            w = ps[0].a[0]
            if w.startswith(v):
                return concat(lit(w[len(v):]), *ps[1:])
            if v.startswith(w):
                return after(concat(*ps[1:]), lit(v[len(w):]))
            return UNDEFS
    return mk("after", s, p)


UNDEFS = mk("undef")


def before(s, p):
    if s.op == "sel":
        return bind(s, lambda y: before(y, p))
    if p.op == "lit":
        v = p.a[0]
        ps = str_parts(s)
        if ps and ps[-1].op == "lit":
            w = ps[-1].a[0]
            if w.endswith(v):
                return concat(*ps[:-1], lit(w[:len(w) - len(v)]))
    return mk("before", s, p)


def str_contains(s, p):
    if s.op == "sel":
        return bind(s, lambda y: str_contains(y, p))
    if p.op == "sel":
        return bind(p, lambda y: str_contains(s, y))
    if p.op == "chr" and s.op == "lit":
        c = FALSE
        for v in sorted(set(s.a[0])):
            c = bor(c, member(p.a[0], s_point(ord(v))))
        return c
    if p.op == "lit":
        v = p.a[0]
        if v == "":
            return TRUE
        if s.op == "lit":
            return TRUE if v in s.a[0] else FALSE
        if any(x.op == "lit" and v in x.a[0] for x in str_parts(s)):
            return TRUE
        m = cs(s)
        if any(not m >> b & 1 for b in enc(v)):
            return FALSE
        if len(v) == 1 and s.op == "concat":
            c = FALSE
            for x in s.a:
                c = bor(c, str_contains(x, p))
            return c
        if len(v) == 1 and s.op == "bytemap":
            b = ord(v)
            if b < 128:
                src = [i for i in bits(cs(s.a[0])) if b in s.a[1][i]]
                c = FALSE
                if all(i < 128 for i in src) and len(src) < 40:
                    for i in src:
                        c = bor(c, str_contains(s.a[0], lit(chr(i))))
                    return c
    return truth(mk("contains", s, p))


# ---------------------------------------------------------------- trimming
def trim(s, how="both"):
    if s.op == "sel":
        return bind(s, lambda y: trim(y, how))
    if s.op == "lit":
        v = s.a[0]
        return lit(v.strip() if how == "both" else v.lstrip() if how == "start" else v.rstrip())
    op = {"both": "trim", "start": "trimstart", "end": "trimend"}[how]
    if s.op == "vis":
        s = s.a[0]
        if s.op in ("trim",):
            return s
        return mk(op, s, "vis")
    if s.op in ("trim", "trimstart", "trimend"):
        if s.op == op or s.op == "trim":
            return s
        return mk("trim", s.a[0], s.a[1])
    ws = mask(b" \t\n\x0b\x0c\r") | (ALLB ^ mask(range(128)))
    if not cs(s) & ws:
        return s
    return mk(op, s, "uni")


# ---------------------------------------------------------------- numbers
def fdec(n):
    if n.op == "int":
        return lit(str(n.a[0]))
    if n.op == "sel":
        return bind(n, fdec)
    return mk("dec", n)


def fmtint(n, base, up, width, zero, plus, alt):
    if n.op == "sel":
        return bind(n, lambda y: fmtint(y, base, up, width, zero, plus, alt))
    if base == 10 and not plus and width <= 1:
        return fdec(n)
    if n.op == "int":
        v = n.a[0]
        neg = v < 0
        d = {10: str, 16: lambda x: "%x" % x, 8: lambda x: "%o" % x, 2: lambda x: bin(x)[2:]}[base](abs(v))
        if up:
            d = d.upper()
        pre = {16: "0x", 8: "0o", 2: "0b"}.get(base, "") if alt else ""
        sign = "-" if neg else ("+" if plus else "")
        if zero:
            d = d.rjust(width - len(sign) - len(pre), "0")
            return lit(sign + pre + d)
        return lit((sign + pre + d).rjust(width))
    r = rng(n)
    if base == 10 and zero and not plus and not alt:
        # zero-padded calendar fields are strftime's
        y = n
        while y.op in ("typed", "wrap"):
            y = y.a[0]
        f = {"year": "Y", "month": "m", "day": "d", "hour": "H", "minute": "M", "second": "S"}.get(y.op)
        if f and width == (4 if f == "Y" else 2) and (f != "Y" or r is not None and 0 <= r[0] and r[1] <= 9999):
            return mk("strf", f, y.a[0])
    if r is not None and width > 1 and r[0] >= 0 and not plus and not alt and base == 10 and r[0] >= 10 ** (width - 1):
        return fdec(n)
    return mk("fmtint", n, base, up, width, zero, plus, alt)


def chrstr(c):
    """one-character string"""
    if c.op == "int":
        return lit(chr(c.a[0]))
    if c.op == "sel":
        return bind(c, chrstr)
    return mk("chr", c)


# ---------------------------------------------------------------- bytewise preimages
def preimages(t, m, v):
    """all byte strings over mask m that t maps to v"""
    v = enc(v)
    memo = {}
    inv = {}
    for b in bits(m):
        if t[b] == b"":
            return None
        inv.setdefault(t[b], []).append(b)
    outs = list(inv)

    def go(i):
        if i == len(v):
            return [b""]
        r = memo.get(i)
        if r is None:
            r = []
            for o in outs:
                if v.startswith(o, i):
                    for rest in go(i + len(o)):
                        for b in inv[o]:
                            r.append(bytes([b]) + rest)
                            if len(r) > 4000:
                                raise OverflowError
            memo[i] = r
        return r
    try:
        return [dec(x) for x in go(0)]
    except OverflowError:
        return None


def str_in_bytemap(x, s):
    pres = set()
    for v in s.s:
        p = preimages(x.a[1], cs(x.a[0]), v)
        if p is None:
            return None
        pres.update(p)
    # only valid UTF-8 texts are values
    good = set()
    for p in pres:
        try:
            p.encode("utf-8")
            good.add(p)
        except UnicodeEncodeError:
            pass
    return str_in(x.a[0], SS(s.pos, good))


TM.STRHOOK.append(str_in_bytemap)


def is_empty_map(x):
    if all(len(x.a[1][b]) for b in bits(cs(x.a[0]))):
        return is_empty(x.a[0])
    return None


TM.EMPTYHOOK.append(is_empty_map)

RB = TM.REBUILD
RB["bytemap"] = bytemap
RB["bytetab"] = bytetab
RB["join"] = join
RB["eachstr"] = eachstr
RB["strcat"] = strcat
RB["split"] = split
RB["trim"] = lambda s, k: trim(mk("vis", s) if k == "vis" else s) if s.op not in ("lit", "sel") else trim(s)
RB["trimstart"] = lambda s, k: trim(mk("vis", s) if k == "vis" else s, "start") if s.op not in ("lit", "sel") else trim(s, "start")
RB["trimend"] = lambda s, k: trim(mk("vis", s) if k == "vis" else s, "end") if s.op not in ("lit", "sel") else trim(s, "end")
RB["dec"] = fdec
RB["fmtint"] = fmtint
RB["chr"] = chrstr
RB["after"] = after
RB["before"] = before
RB["bytes"] = tobytes
RB["vis"] = lambda s: s if s.op == "lit" else (bind(s, lambda y: RB["vis"](y)) if s.op == "sel" else mk("vis", s))
RB["starts_with"] = starts_with
RB["ends_with"] = ends_with
RB["contains"] = str_contains


PCTTAB = tuple(bytes([i]) if UNRES >> i & 1 else b"%%%02X" % i for i in range(256))
HEXTAB = tuple(b"%02x" % i for i in range(256))
TM.TABNAMES[PCTTAB] = "pct"
TM.TABNAMES[HEXTAB] = "hex"
TM.TABNAMES[LOWER] = "lower"
TM.TABNAMES[tuple(b"/" if i == 47 else PCTTAB[i] for i in range(256))] = "pct/"
