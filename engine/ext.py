"""Models of the third-party crates the analysed code calls."""
import re
from terms import *
import terms as TM
import strings as S
from strings import *
from facts import int_range
from models import m, mx, Models, NS, SYSRANGE, NOWRANGE, SYSTIME, POLL

SJV = "serde_json::value::Value"


def install(M):
    M.havocked = {}
    M.celltype = {}
    M.nresp = 0
    M.xawait2 = lambda st, f: await_ext(M, st, f)
    M.havoc_cell = lambda key, n: havoc_cell(M, key, n)
    M.xconvert = lambda st, v, f, t: xconvert(M, st, v, f, t)
    M.xdisplay = lambda st, v, t: xdisplay(M, st, v, t)
    M.xtryfrom = lambda st, v, f, t: xtryfrom(M, st, v, f, t)
    M.xparse = lambda st, v, t: xtryfrom(M, st, v, None, t)
    M.xdefault = lambda st, t: xdefault(M, st, t)
    M.xcollect = lambda st, v, t: xcollect(M, st, v, t)
    M.xindex = lambda st, a, c: xindex(M, st, a, c)
    M.xextend = lambda st, v, x: xextend(M, st, v, x)


def liberr(kind, *a):
    return mk("liberr", kind, *a)


def okres(self, st, c, v, kind, *a):
    """Result of a library step that may fail"""
    self.I.fallible(st, c, kind)
    return self.okif(c, v, liberr(kind, *a))


# ================================================================ url::Url
# adt("$url", 0, base, path, query Option, fragment Option)
DOTS = []
for _a in (".", "%2e", "%2E"):
    DOTS.append(_a)
    for _b in (".", "%2e", "%2E"):
        DOTS.append(_a + _b)
DOTSET = SS(True, DOTS)
HOSTRE = re.compile(r"^(https?://[a-z0-9.-]+)(?=[/?#]|$)(.*)$", re.S)


def split_at(s, ch):
    """(before, after) the first occurrence of ch in a text whose occurrences can be located, else None; (s, None) if absent"""
    parts = str_parts(s)
    b = ord(ch)
    out = []
    for i, p in enumerate(parts):
        if p.op == "lit":
            if ch in p.a[0]:
                x, y = p.a[0].split(ch, 1)
                return concat(*out, lit(x)), concat(lit(y), *parts[i + 1:])
        elif cs(p) >> b & 1:
            return None
        out.append(p)
    return s, None


def anyseg(path, test):
    sg = split(path, "/")
    return any_of(sg, test(elem(sg))) if sg.op != "vec" or sg.a else FALSE


LOWBYTES = mask(range(0x21))
PATHTAB = tuple(b"/" if b == 0x5c else bytes([b]) if b == 0x25 or URLPATH >> b & 1 or b == 0x5e else b"%%%02X" % b for b in range(256))
QUERYTAB = tuple(bytes([b]) if URLQUERY >> b & 1 else b"%%%02X" % b for b in range(256))


def urlpath(p, pc=TRUE):
    """what url::Url makes of a path text that starts with '/'"""
    if p is EMPTY:
        return lit("/")
    if cs(p) & LOWBYTES:
        # tabs and line ends are dropped, spaces at the end too
        return concat(lit("/"), mk("urlpath", after(p, lit("/"))))
    p = bytemap(p, PATHTAB)
    if has_op(p, ("urlnorm",)):
        return p
    rest = after(p, lit("/"))
    dot = restrict(anyseg(p, lambda e: str_in(e, DOTSET)), pc)
    return concat(lit("/"), select([(dot, mk("urlnorm", rest)), (bnot(dot), rest)]))


def urlquery(q):
    return mk("urlquery", q) if cs(q) & LOWBYTES else bytemap(q, QUERYTAB)


def mkurl(base, path, query, frag=NONE):
    return adt("$url", 0, base, path, query, frag)


def url_parse(self, st, text):
    """-> (ok condition, url)"""
    if text.op == "sel":
        oks, us = [], []
        for c, x in leaves_pc(text):
            o, u = url_parse(self, st, x)
            oks.append((c, o))
            us.append((c, u))
        return select(oks), select(us)
    if text.op == "adt" and text.a[0] in ("$url", "$uri"):
        return TRUE, text
    parts = str_parts(text)
    if parts and parts[0].op == "lit":
        mm = HOSTRE.match(parts[0].a[0])
        if mm and (mm.group(2) or len(parts) == 1):
            base = lit(mm.group(1))
            rest = concat(lit(mm.group(2)), *parts[1:])
            fr = split_at(rest, "#")
            if fr is not None:
                rest, frag = fr
                q = split_at(rest, "?")
                if q is not None:
                    p, query = q
                    return TRUE, mkurl(base, urlpath(p, st.pc), some(urlquery(query)) if query is not None else NONE,
                                       some(frag) if frag is not None else NONE)
        if mm and mm.group(2):
            # nothing after the host can make parsing fail
            return TRUE, mk("url", text)
    return self.okp("urlparse", text), mk("url", text)


def url_text(self, u):
    if u.op == "sel":
        return bind(u, lambda x: url_text(self, x))
    if u.op == "adt" and u.a[0] in ("$url", "$uri"):
        q = bind(u.a[4], lambda o: concat(lit("?"), o.a[2]) if o.a[1] == 1 else EMPTY)
        f = EMPTY
        if len(u.a) > 5:
            f = bind(u.a[5], lambda o: concat(lit("#"), o.a[2]) if o.a[1] == 1 else EMPTY)
        return concat(u.a[2], u.a[3], q, f)
    if u.op in ("url", "uri"):
        return u.a[0] if u.op == "uri" else mk("urltext", u.a[0])
    return u


@m("url::Url::parse", "url::parser::Url::parse")
def _(self, st, a, c):
    o, u = url_parse(self, st, a[0])
    return okres(self, st, o, u, "urlparse")


@m("url::Url::as_str", "url::Url::into_string")
def _(self, st, a, c):
    return url_text(self, a[0])


def urlget(u, i):
    return bind(u, lambda x: x.a[2 + i] if x.op == "adt" else mk("urlpart", x, i))


@m("core::convert::AsRef::as_ref")
def _(self, st, a, c):
    return url_text(self, a[0]) if a[0].op in ("adt", "sel", "url") and isty(self, c.atys[0], "Url") else a[0]


@m("url::Url::path")
def _(self, st, a, c):
    return urlget(a[0], 1)


@m("url::Url::query")
def _(self, st, a, c):
    return urlget(a[0], 2)


@m("url::Url::fragment")
def _(self, st, a, c):
    return urlget(a[0], 3)


@m("url::Url::host_str")
def _(self, st, a, c):
    return bind(a[0], lambda x: some(lit(x.a[2].a[0].split("://")[1])) if x.op == "adt" else mk("urlpart", x, "host"))


@m("url::Url::scheme")
def _(self, st, a, c):
    return bind(a[0], lambda x: lit(x.a[2].a[0].split("://")[0]) if x.op == "adt" else mk("urlpart", x, "scheme"))


def seturl(u, i, v):
    def f(x):
        if x.op == "adt":
            y = list(x.a)
            y[2 + i] = v
            return mk("adt", *y)
        return mk("urlset", x, i, v)
    return bind(u, f)


@m("url::Url::set_query", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[1])
    v = bind(v, lambda o: some(urlquery(o.a[2])) if o.op == "adt" and o.a[1] == 1 else o)
    self.update(st, a[0], lambda u: seturl(u, 2, v))
    return UNIT


@m("url::Url::set_fragment", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[1])
    self.update(st, a[0], lambda u: seturl(u, 3, v))
    return UNIT


@m("url::Url::set_path", raw=True)
def _(self, st, a, c):
    v = self.I.deref(st, a[1])
    v = bind(v, lambda x: x if starts_with(x, lit("/")) is TRUE else concat(lit("/"), x))
    self.update(st, a[0], lambda u: seturl(u, 1, urlpath(v, st.pc)))
    return UNIT


# ---- form-urlencoded query
def qser(pairs):
    if pairs.op == "sel":
        return bind(pairs, qser)
    if pairs.op == "vec" and not pairs.a:
        return EMPTY
    if pairs.op == "vec" and all(g[0] == "e" and g[1].op == "tuple" and all(x.op == "lit" for x in g[1].a) for g in pairs.a):
        import urllib.parse as U
        return lit("&".join(U.quote_plus(enc(g[1].a[0].a[0]), safe="*-._").replace("~", "%7E") + "=" +
                            U.quote_plus(enc(g[1].a[1].a[0]), safe="*-._").replace("~", "%7E") for g in pairs.a))
    return mk("qser", pairs)


TM.REBUILD["qser"] = qser


def qparse(self, q):
    """pairs of a query text, or None"""
    if q.op == "sel":
        ps = [(c, qparse(self, x)) for c, x in leaves_pc(q)]
        if any(p is None for _, p in ps):
            return None
        return select(ps)
    if q is EMPTY:
        return VNIL
    if q.op == "qser":
        return q.a[0]
    if q.op == "undef":
        return q
    if q.op == "lit":
        import urllib.parse as U
        r = []
        for s in q.a[0].split("&"):
            if not s:
                continue
            k, _, v = s.partition("=")
            r.append(E(tup(lit(U.unquote_plus(k)), lit(U.unquote_plus(v)))))
        return vec(*r)
    if q.op == "concat":
        # pieces between '&'
        out = []
        cur = []
        for p in str_parts(q):
            if p.op == "lit":
                xs = p.a[0].split("&")
                cur.append(lit(xs[0]))
                for x in xs[1:]:
                    out.append(concat(*cur))
                    cur = [lit(x)]
            elif p.op in ("qser", "join") or p.op in ("replace", "bytemap") and p.a[0].op == "qser":
                cur.append(p)
            elif cs(p) & mask(b"&"):
                return None
            else:
                cur.append(p)
        out.append(concat(*cur))
        r = VNIL
        for x in out:
            y = qparse1(self, x)
            if y is None:
                return None
            r = vcat(r, y)
        return r
    return qparse1(self, q)


def qparse1(self, x):
    if x is EMPTY:
        return VNIL
    if x.op in ("qser", "lit"):
        return qparse(self, x)
    if x.op in ("replace", "bytemap") and x.a[0].op == "qser":
        f = qreplaced(x)
        return None if f is None else seqflat(x.a[0].a[0], lambda e: vec(E(tup(f(tup_field(e, 0)), f(tup_field(e, 1))))))
    if x.op == "join" and x.a[1] is lit("&"):
        # every element must be one name=value piece
        def f(e):
            y = qparse1(self, e) if not cs(e) & mask(b"&") else None
            if y is None:
                raise KeyError
            return y
        try:
            return seqflat(x.a[0], f)
        except KeyError:
            return None
    if cs(x) & mask(b"&"):
        return None
    kv = split_at(x, "=")
    if kv is None:
        return None
    k, v = kv
    if v is None:
        v = EMPTY
    kd, vd = qdec(k), qdec(v)
    if kd is None or vd is None:
        return None
    return vec(E(tup(kd, vd)))


def tup_field(e, i):
    return bind(e, lambda t: t.a[i] if t.op == "tuple" else mk("fld", t, None, i))


def qreplaced(x):
    """what a replacement in a serialised query does to the names and values it is made of, or None"""
    import urllib.parse as U
    if x.op == "bytemap":
        t = x.a[1]
        ALNUM = [b for b in range(128) if chr(b).isalnum()]
        # a byte may be written otherwise if that decodes to the same
        if any(t[b] != bytes([b]) for b in ALNUM + list(b"%&=")):
            return None
        if all(U.unquote_to_bytes(t[b].replace(b"+", b" ")) == (b" " if b == 43 else bytes([b])) and not set(t[b]) & set(b"&=") for b in b"+*-._"):
            return lambda y: y
        return None
    P, R = x.a[1], x.a[2]
    if P.op != "lit" or R.op != "lit" or not re.fullmatch(r"(\+|%[0-9A-Fa-f]{2})+", P.a[0]):
        return None
    P, R = P.a[0], R.a[0]
    plain = set(b"*-._") | {b for b in range(128) if chr(b).isalnum()} | {32}
    if any(len(h) > 1 and (h != h.upper() or int(h[1:], 16) in plain) for h in re.findall(r"\+|%..", P)):
        return lambda y: y      # never written
    if set(R) & set("&=") or re.search(r"%(?![0-9A-Fa-f]{2})", R):
        return None
    try:
        s, r = (U.unquote_plus(z, errors="strict") for z in (P, R))
    except UnicodeDecodeError:
        return None

    def f(y):
        if y.op == "lit":
            return lit(y.a[0].replace(s, r))
        if any(not cs(y) >> b & 1 for b in enc(s)):
            return y
        return mk("replace", y, lit(s), lit(r))
    return lambda y: bind(y, f)


def qdec(x):
    """form-decoded text, where it can be told"""
    if x.op == "lit":
        import urllib.parse as U
        return lit(U.unquote_plus(x.a[0]))
    if x.op == "sel":
        ps = [(c, qdec(y)) for c, y in leaves_pc(x)]
        return None if any(p is None for _, p in ps) else select(ps)
    if x.op == "concat":
        ps = [qdec(y) for y in x.a]
        return None if any(p is None for p in ps) else concat(*ps)
    if x.op == "bytemap":
        # percent-encoding that is undone by decoding
        t = x.a[1]
        if all(len(t[i]) and (t[i] == bytes([i]) and i not in b"%+" or t[i].upper() == b"%%%02X" % i or (i == 32 and t[i] == b"+"))
               for i in bits(cs(x.a[0]))):
            return x.a[0]
        return None
    if not cs(x) & mask(b"%+"):
        return x
    return None


@m("url::Url::query_pairs_mut", raw=True)
def _(self, st, a, c):
    def f(u):
        q = urlget(u, 2)
        q = bind(q, lambda o: (some(EMPTY) if o.a[1] == 0 else o) if o.op == "adt" else o if o.op in ("qopen", "qoapp") else mk("qopen", o))
        return seturl(u, 2, q)
    self.update(st, a[0], f)
    return adt("$ser", 0, a[0])


def qgrow(op, q, pairs):
    if q.op == op:
        return mk(op, q.a[0], vcat(q.a[1], pairs))
    return mk(op, q.a[0] if q.op == "qopen" else q, pairs)


def addq(self, q, pairs):
    """query text q with pairs appended"""
    p = qparse(self, q)
    if p is None:
        return bind(q, lambda x: qgrow("qapp", x, pairs)) if q.op != "sel" else bind(q, lambda x: addq(self, x, pairs))
    r = qser(p)
    if r is not q and q.op != "sel":
        # the text already there is not what the serializer would write
        return concat(q, lit("&"), qser(pairs)) if is_empty(q) is FALSE and is_empty(pairs) is FALSE else qgrow("qapp", q, pairs)
    return qser(vcat(p, pairs))


def qfit(self, init, carry, new, src):
    """a loop that only appends pairs to a query -> the query afterwards, or None"""
    rest = []
    opens = True
    isopt = False
    for c, l in leaves_pc(new):
        if contains(c, carry):
            return None
        b = l.a[0] if l.op in ("qopen", "qapp", "qoapp") else l
        if b is not carry:
            return None
        isopt = isopt or l.op in ("qopen", "qoapp")
        opens = opens and l.op in ("qopen", "qoapp")
        p = l.a[1] if l.op in ("qapp", "qoapp") else VNIL
        if contains(p, carry):
            return None
        rest.append((c, p))
    p = seqcat_each(src, select(rest))
    if not isopt:
        return addq(self, init, p)

    def f(o):
        if o.op != "adt":
            return mk("fold", src, o, p)
        if o.a[1] == 1:
            return some(addq(self, o.a[2], p))
        return self.ite(is_empty(src if opens else p), o, some(addq(self, EMPTY, p)))
    return bind(init, f)


def seqcat_each(src, body):
    return seqflat(vec(("all", src)), lambda e: body)


@m("url::Url::query_pairs")
def _(self, st, a, c):
    q = urlget(a[0], 2)
    return bind(q, lambda o: mk("iter", VNIL) if o.a[1] == 0 else parse_iter(self, tobytes(o.a[2])))


def ser_add(self, st, raw, pairs):
    s = self.I.deref(st, raw)
    if s.op != "adt" or s.a[0] != "$ser":
        return
    tgt = s.a[2]

    if s.a[0] == "$ser" and len(s.a) > 3:
        self.update(st, tgt, lambda q: bind(q, lambda x: addq(self, x, pairs)))
        return
    self.update(st, tgt, lambda u: seturl(u, 2, bind(urlget(u, 2), lambda o: some(bind(o.a[2], lambda x: addq(self, x, pairs))) if o.op == "adt" else qgrow("qoapp", o, pairs))))


@mx(r"^form_urlencoded::Serializer::append_pair$", raw=True)
def _(self, st, a, c):
    k, v = self.I.deref(st, a[1]), self.I.deref(st, a[2])
    ser_add(self, st, a[0], vec(E(tup(k, v))))
    return a[0]


@mx(r"^form_urlencoded::Serializer::append_key_only$", raw=True)
def _(self, st, a, c):
    ser_add(self, st, a[0], vec(E(mk("keyonly", self.I.deref(st, a[1])))))
    return a[0]


@mx(r"^form_urlencoded::Serializer::extend_pairs$", raw=True)
def _(self, st, a, c):
    s = self.seq(self.I.deref(st, a[1]))
    I = self.I
    s = seqbody(s, lambda e: tup(I.deref(st, I.field(e, None, 0)), I.deref(st, I.field(e, None, 1))))
    ser_add(self, st, a[0], s)
    return a[0]


@mx(r"^form_urlencoded::Serializer::clear$", raw=True)
def _(self, st, a, c):
    s = self.I.deref(st, a[0])
    if len(s.a) > 3:
        self.update(st, s.a[2], lambda q: EMPTY)
    else:
        self.update(st, s.a[2], lambda u: seturl(u, 2, some(EMPTY)))
    return a[0]


@mx(r"^form_urlencoded::Serializer::new$", raw=True)
def _(self, st, a, c):
    if a[0].op == "ptr":
        return adt("$ser", 0, a[0], UNIT)
    key = self.I.newkey()
    st.mem[key] = a[0]
    return adt("$ser", 0, self.I.ptr(key), UNIT)


@mx(r"^form_urlencoded::Serializer::finish$", raw=True)
def _(self, st, a, c):
    s = self.I.deref(st, a[0])
    if s.op == "adt" and s.a[0] == "$ser":
        return self.I.deref(st, s.a[2]) if len(s.a) > 3 else s.a[2]
    return None


def parse_iter(self, q):
    q2 = frombytes(q)
    if q2 is None:
        return mk("iter", mk("qparse", q))
    p = qparse(self, q2)
    if p is None:
        return mk("iter", mk("qparse", q2))
    return bind(p, lambda x: mk("iter", x))


@m("form_urlencoded::Parse::into_owned")
def _(self, st, a, c):
    return a[0]


@m("form_urlencoded::parse")
def _(self, st, a, c):
    return bind(a[0], lambda q: parse_iter(self, q))


@m("form_urlencoded::byte_serialize")
def _(self, st, a, c):
    t = []
    for i in range(256):
        if i in b"*-._" or chr(i).isalnum() and i < 128:
            t.append(bytes([i]))
        elif i == 32:
            t.append(b"+")
        else:
            t.append(b"%%%02X" % i)
    x = frombytes(a[0])
    if x is None:
        return None
    return mk("iter", vec(E(bytemap(x, tuple(t)))))


# ================================================================ http
def uri_parse(self, text):
    if text.op == "sel":
        oks, us = [], []
        for c, x in leaves_pc(text):
            o, u = uri_parse(self, x)
            oks.append((c, o))
            us.append((c, u))
        return select(oks), select(us)
    if text.op == "adt" and text.a[0] == "$uri":
        return TRUE, text
    if text.op in ("undef", "moved"):
        return FALSE, text
    okc = self.okp("uri", text)
    if text.op == "lit" and re.match(r"^(https?://[a-z0-9.-]+)?/[A-Za-z0-9/._~-]*$", text.a[0]) and len(text.a[0]) < 60000:
        okc = TRUE
    parts = str_parts(text)
    if parts and parts[0].op == "lit":
        mm = HOSTRE.match(parts[0].a[0])
        if mm and (mm.group(2) or len(parts) == 1):
            base = lit(mm.group(1))
            rest = concat(lit(mm.group(2)), *parts[1:])
            q = split_at(rest, "#")
            if q is not None:
                q = split_at(q[0], "?")
            if q is not None:
                p, query = q
                return okc, adt("$uri", 0, base, p if p is not EMPTY else lit("/"), some(query) if query is not None else NONE)
    return okc, mk("uri", text)


def hname(k):
    """text of the HeaderName made from this text: its lower case, when it is a token"""
    if k.op in ("lit", "sel"):
        return bind(k, lambda x: lower(x) if x.op == "lit" else hname(x))
    if k.op == "bytemap" and k.a[1] == LOWER:
        k = k.a[0]
    if k.op == "hname":
        return k
    return mk("hname", k)


TM.REBUILD["hname"] = hname


def hname_ok(self, k):
    if k.op == "lit":
        return TRUE if k.a[0] and not mask(enc(k.a[0])) & ~TCHAR else FALSE
    if k.op == "sel":
        return bind(k, lambda x: hname_ok(self, x))
    if k.op == "bytemap" and k.a[1] == LOWER:
        k = k.a[0]
    if k.op == "hname":
        return TRUE
    return self.okp("hname", k)


def hval_ok(self, v):
    if v.op == "lit":
        return TRUE if all(b >= 32 and b != 127 or b == 9 for b in enc(v.a[0])) else FALSE
    if v.op == "sel":
        return bind(v, lambda x: hval_ok(self, x))
    if not cs(v) & ~VIS:
        return TRUE
    return self.okp("hval", v)


def hvstr_ok(self, v):
    if v.op == "lit":
        return TRUE if all(32 <= b < 127 or b == 9 for b in enc(v.a[0])) else FALSE
    if v.op == "sel":
        return bind(v, lambda x: hvstr_ok(self, x))
    if not cs(v) & ~VIS:
        return TRUE
    return self.okp("hvstr", v)


def vis(v):
    if v.op == "sel":
        return bind(v, vis)
    if not cs(v) & ~VIS:
        return v
    return mk("vis", v)


def isty(self, t, *names):
    t = self.strip(t)
    return bool(t and t[0] == "adt" and t[1].split("::")[-1] in names)


def textof(self, v):
    """str/bytes argument as text"""
    r = frombytes(v)
    return r if r is not None else v


def hdrname(self, k, ty):
    """(ok, name) for an argument convertible to HeaderName"""
    if isty(self, ty, "HeaderName"):
        return TRUE, k
    k = textof(self, k)
    return hname_ok(self, k), hname(k)


def hdrval(self, v, ty):
    if isty(self, ty, "HeaderValue"):
        return TRUE, v
    t = self.strip(ty)
    if t and t[0] == "int":
        return TRUE, fdec(v)
    v = textof(self, v)
    return hval_ok(self, v), v


@mx(r"^http::header::name::HeaderName::(from_bytes|from_lowercase)$")
def _(self, st, a, c):
    o, n = hdrname(self, a[0], c.atys[0])
    return okres(self, st, o, n, "InvalidHeaderName")


@mx(r"^http::header::name::HeaderName::from_static$")
def _(self, st, a, c):
    k = textof(self, a[0])
    self.I.panic(st, bnot(band(hname_ok(self, k), eq_str(k, lower(k)))), "HeaderName::from_static on an invalid name")
    return k


@mx(r"^http::header::value::HeaderValue::(from_str|from_bytes|from_maybe_shared)$")
def _(self, st, a, c):
    o, n = hdrval(self, a[0], c.atys[0])
    return okres(self, st, o, n, "InvalidHeaderValue")


@mx(r"^http::header::value::HeaderValue::from_static$")
def _(self, st, a, c):
    k = textof(self, a[0])
    self.I.panic(st, bnot(hvstr_ok(self, k)), "HeaderValue::from_static on an invalid value")
    return k


@mx(r"^http::header::value::HeaderValue::to_str$")
def _(self, st, a, c):
    return okres(self, st, hvstr_ok(self, a[0]), vis(a[0]), "ToStrError")


@mx(r"^http::header::value::HeaderValue::as_bytes$")
def _(self, st, a, c):
    return tobytes(a[0])


@mx(r"^http::header::value::HeaderValue::(len)$")
def _(self, st, a, c):
    return self.length(a[0])


@mx(r"^http::header::value::HeaderValue::(is_empty)$")
def _(self, st, a, c):
    return is_empty(a[0])


@mx(r"^http::header::value::HeaderValue::(set_sensitive)$")
def _(self, st, a, c):
    return UNIT


@mx(r"^http::header::name::HeaderName::as_str$|^http::method::Method::as_str$|^reqwest::.*Method::as_str$")
def _(self, st, a, c):
    return a[0]


def method_from(self, st, v):
    v = textof(self, v)

    def good(x):
        if x.op == "lit":
            return TRUE if re.match(r"[-!#$%&'*+.^_`|~0-9A-Za-z]+\Z", x.a[0]) else FALSE
        return self.okp("method", x)
    return okres(self, st, bind(v, good), v, "InvalidMethod")


@mx(r"^http::method::Method::from_bytes$")
def _(self, st, a, c):
    return method_from(self, st, a[0])


# ---- request builder: adt("$req", 0, method, uri, headers, okcond, extra)
def newreq(method=None, uri=None):
    return adt("$req", 0, method or lit("GET"), uri or adt("$uri", 0, EMPTY, lit("/"), NONE), mk("hm", VNIL), TRUE, UNIT)


def setf(v, i, new):
    def f(x):
        if x.op != "adt":
            return x
        y = list(x.a)
        y[2 + i] = new(x.a[2 + i]) if callable(new) else new
        return mk("adt", *y)
    return bind(v, f)


@mx(r"^http::request::(?:Request|Builder)::(builder|new|get|put|post|delete|head|options|patch|connect|trace)$")
def _(self, st, a, c):
    n = c.m.group(1)
    if c.path.startswith("http::request::Request::new"):
        return setf(newreq(), 4, a[0])
    r = newreq()
    if n not in ("builder", "new"):
        r = setf(r, 0, lit(n.upper()))
        o, u = uri_parse(self, textof(self, url_text(self, a[0])))
        r = setf(setf(r, 1, u), 3, o)
    return r


@mx(r"^http::request::Builder::method$")
def _(self, st, a, c):
    v = textof(self, a[1])
    o = TRUE if isty(self, c.atys[1], "Method") or v.op == "lit" else self.okp("method", v)
    return setf(setf(a[0], 0, v), 3, lambda x: band(x, o))


@mx(r"^http::request::Builder::uri$")
def _(self, st, a, c):
    o, u = uri_parse(self, textof(self, a[1]))
    return setf(setf(a[0], 1, u), 3, lambda x: band(x, o))


@mx(r"^http::request::Builder::(header)$")
def _(self, st, a, c):
    o1, k = hdrname(self, a[1], c.atys[1])
    o2, v = hdrval(self, a[2], c.atys[2])
    r = setf(a[0], 2, lambda h: hm_add(h, k, v))
    return setf(r, 3, lambda x: band(x, band(o1, o2)))


@mx(r"^http::request::Builder::body$")
def _(self, st, a, c):
    o = bind(a[0], lambda x: x.a[5] if x.op == "adt" else self.okp("reqbody", x))
    r = setf(setf(a[0], 4, a[1]), 3, TRUE)
    return okres(self, st, o, r, "http::Error")


@mx(r"^http::request::Builder::(headers_mut)$", raw=True)
def _(self, st, a, c):
    p = a[0]
    while p.op == "ptr" and self.I.readloc(st, p.a).op == "ptr":
        p = self.I.readloc(st, p.a)
    if p.op != "ptr":
        return None
    b = self.I.deref(st, p)
    o = bind(b, lambda x: x.a[5] if x.op == "adt" else self.okp("reqbody", x))
    return self.someif(o, mk("ptr", p.a[0], p.a[1] + (("f", None, 2),)))


REQF = {"method": 0, "uri": 1, "headers": 2, "body": 4}


@mx(r"^http::request::Request::(method|uri|headers|body)$")
def _(self, st, a, c):
    i = REQF[c.m.group(1)]
    return bind(a[0], lambda x: x.a[2 + i] if x.op == "adt" and x.a[0] == "$req" else mk("reqget", x, i))


@mx(r"^http::request::Request::(method|uri|headers|body)_mut$", raw=True)
def _(self, st, a, c):
    p = a[0]
    while p.op == "ptr" and self.I.readloc(st, p.a).op == "ptr":
        p = self.I.readloc(st, p.a)
    if p.op != "ptr":
        return None
    return mk("ptr", p.a[0], p.a[1] + (("f", None, REQF[c.m.group(1)]),))


@mx(r"^http::request::Request::into_parts$")
def _(self, st, a, c):
    def f(x):
        if x.op != "adt" or x.a[0] != "$req":
            return tup(mk("reqparts", x), mk("reqget", x, 4))
        return tup(adt("http::request::Parts", 0, x.a[2], x.a[3], mk("reqversion", x), x.a[4], mk("reqext", x)), x.a[6])
    return bind(a[0], f)


@mx(r"^http::request::Request::from_parts$")
def _(self, st, a, c):
    def f(x):
        if x.op != "adt" or x.a[0] != "http::request::Parts":
            return mk("reqfrom", x, a[1])
        return adt("$req", 0, x.a[2], x.a[3], x.a[5], TRUE, a[1])
    return bind(a[0], f)


@mx(r"^http::request::Request::into_body$")
def _(self, st, a, c):
    return bind(a[0], lambda x: x.a[6] if x.op == "adt" else mk("reqget", x, 4))


@mx(r"^http::uri::Uri::(path|query|host|scheme_str)$")
def _(self, st, a, c):
    n = c.m.group(1)

    def f(x):
        if x.op == "adt" and x.a[0] in ("$uri", "$url"):
            if n == "path":
                return x.a[3]
            if n == "query":
                return x.a[4]
            h = x.a[2].a[0]
            if n == "host":
                return some(lit(h.split("://")[1])) if h else NONE
            return some(lit(h.split("://")[0])) if h else NONE
        return mk("uripart", x, n)
    return bind(a[0], f)


@mx(r"^http::uri::Uri::(from_static)$")
def _(self, st, a, c):
    o, u = uri_parse(self, a[0])
    self.I.panic(st, bnot(o), "Uri::from_static on an invalid uri")
    return u


@mx(r"^http::uri::Uri::(path_and_query)$")
def _(self, st, a, c):
    def f(x):
        if x.op == "adt" and x.a[0] == "$uri":
            return some(adt("$uri", 0, EMPTY, x.a[3], x.a[4]))
        return mk("uripart", x, "pq")
    return bind(a[0], f)


@mx(r"^http::uri::(?:path::)?PathAndQuery::(path|query|as_str)$")
def _(self, st, a, c):
    n = c.m.group(1)

    def f(x):
        if x.op == "adt" and x.a[0] == "$uri":
            return {"path": x.a[3], "query": x.a[4]}.get(n) or url_text(self, x)
        return mk("uripart", x, n)
    return bind(a[0], f)


# ---- HeaderMap: mk("hm", pairs)
def hm_add(h, k, v):
    def f(x):
        if x.op == "hm":
            return mk("hm", vcat(x.a[0], vec(E(tup(k, v)))))
        return mk("hmadd", x, k, v)
    return bind(h, f)


TM.WRAPS.add("hm")


@mx(r"^http::header::map::HeaderMap::(new|with_capacity)$")
def _(self, st, a, c):
    return mk("hm", VNIL)


def hroom(self, h, *key):
    """whether one more entry fits: a map with a few known entries always has room"""
    def f(x):
        if x.op == "hm":
            g = segs(x.a[0])
            if len(g) < 1024 and all(y[0] == "e" for y in g):
                return TRUE
        return self.okp("hcap", *key)
    return bind(h, f)


@mx(r"^http::header::map::HeaderMap::(try_)?(append)$", raw=True)
def _(self, st, a, c):
    k0, v0 = self.I.deref(st, a[1]), self.I.deref(st, a[2])
    o1, k = hdrname(self, k0, c.atys[1])
    if o1 is not TRUE:
        self.I.panic(st, bnot(o1), "HeaderMap::append with an invalid name")
    h = self.I.deref(st, a[0])
    cap = hroom(self, h, c.site or "s", k, v0)
    if c.m.group(1):
        self.I.fallible(st, cap, "MaxSizeReached")
    else:
        self.I.panic(st, bnot(cap), "HeaderMap::append: too many headers")
    self.I.write(st, a[0], self.ite(cap, hm_add(h, k, v0), h) if c.m.group(1) else hm_add(h, k, v0))
    old = hm_has(self, h, k)
    return self.okif(cap, old, liberr("MaxSizeReached")) if c.m.group(1) else old


@mx(r"^http::header::map::HeaderMap::(try_)?(insert)$", raw=True)
def _(self, st, a, c):
    k0, v0 = self.I.deref(st, a[1]), self.I.deref(st, a[2])
    o1, k = hdrname(self, k0, c.atys[1])
    if o1 is not TRUE:
        self.I.panic(st, bnot(o1), "HeaderMap::insert with an invalid name")
    h = self.I.deref(st, a[0])
    cap = hroom(self, h, c.site or "s", k, v0)
    if c.m.group(1):
        self.I.fallible(st, cap, "MaxSizeReached")
    else:
        self.I.panic(st, bnot(cap), "HeaderMap::insert: too many headers")

    def f(x):
        if x.op != "hm":
            return mk("hmins", x, k, v0)
        out, hit = [], False
        for g in segs(x.a[0]):
            if g[0] == "e":
                e = self.eqv(self.I.field(g[1], None, 0), k)
                if e is TRUE:
                    if not hit:
                        out.append(E(tup(k, v0)))
                        hit = True
                    continue
                if e is FALSE:
                    out.append(g)
                    continue
            return mk("hm", vec(("all", mk("hmins", x, k, v0))))
        if not hit:
            out.append(E(tup(k, v0)))
        return mk("hm", vec(*out))
    n = bind(h, f)
    self.I.write(st, a[0], n)
    old = bind(h, lambda x: hm_get(self, x, k))
    return self.okif(cap, old, liberr("MaxSizeReached")) if c.m.group(1) else old


def hm_has(self, h, k):
    def f(x):
        if x.op == "hm":
            s = x.a[0]
            if s.op == "vec" and not s.a:
                return FALSE
            r = FALSE
            for g in segs(s):
                if g[0] == "e":
                    r = bor(r, self.eqv(self.I.field(g[1], None, 0), k))
            for g in segs(s):
                if r is TRUE:
                    break
                if g[0] == "each":
                    b = g[2]
                    r = bor(r, any_of(g[1], any_of(b, self.eqv(self.I.field(elem(b), None, 0), k))))
                elif g[0] != "e":
                    r = bor(r, truth(mk("hmhas", x, k)))
            return r
        return truth(mk("hmhas", x, k))
    return bind(h, f)


def hm_get(self, x, k):
    if x.op == "hm":
        s = x.a[0]
        if all(g[0] == "e" for g in segs(s)):
            r = NONE
            for g in reversed(segs(s)):
                c = self.eqv(self.I.field(g[1], None, 0), k)
                r = self.ite(c, some(self.I.field(g[1], None, 1)), r)
            return r
    return self.ite(hm_has(self, x, k), some(mk("hmget", x, k)), NONE)


def hm_index(self, st, a, c):
    o, k = hdrname(self, a[1], c.atys[1])
    p, v = self.optsplit(bind(a[0], lambda x: hm_get(self, x, k)))
    self.I.panic(st, bnot(band(o, p)), "no such header")
    return v


@mx(r"^http::header::map::HeaderMap::contains_key$")
def _(self, st, a, c):
    o, k = hdrname(self, a[1], c.atys[1])
    return band(o, hm_has(self, a[0], k))


@mx(r"^http::header::map::HeaderMap::get$")
def _(self, st, a, c):
    o, k = hdrname(self, a[1], c.atys[1])
    r = bind(a[0], lambda x: hm_get(self, x, k))
    return self.ite(o, r, NONE)


@mx(r"^http::header::map::HeaderMap::get_all$")
def _(self, st, a, c):
    o, k = hdrname(self, a[1], c.atys[1])
    return adt("$hgetall", 0, a[0], k)


@mx(r"^http::header::map::GetAll::iter$")
def _(self, st, a, c):
    return getall(self, a[0])


def getall(self, g):
    return bind(g.a[2], lambda x: mk("iter", mk("hvals", x, g.a[3])))


@mx(r"^http::header::map::HeaderMap::keys$")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("iter", mk("hkeys", x.a[0])) if x.op == "hm" else mk("iter", mk("hkeys", x)))


@mx(r"^http::header::map::HeaderMap::iter$")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("iter", self.seq(x)))


@mx(r"^http::header::map::HeaderMap::values$")
def _(self, st, a, c):
    I = self.I
    return bind(a[0], lambda x: mk("iter", seqbody(self.seq(x), lambda e: I.field(e, None, 1))))


@mx(r"^http::header::map::HeaderMap::(len|keys_len)$")
def _(self, st, a, c):
    n = c.m.group(1)
    return bind(a[0], lambda x: self.length(x.a[0]) if n == "len" else mk("typed", mk("len", mk("hkeys", x.a[0])), (0, 1 << 32)))


@mx(r"^http::header::map::HeaderMap::is_empty$")
def _(self, st, a, c):
    return bind(a[0], lambda x: is_empty(x.a[0]) if x.op == "hm" else is_empty(x))


@mx(r"^http::status::StatusCode::(as_u16|is_success|is_informational|is_redirection|is_client_error|is_server_error)$")
def _(self, st, a, c):
    n = c.m.group(1)
    v = a[0]
    if n == "as_u16":
        return v
    lo = {"is_success": 200, "is_informational": 100, "is_redirection": 300, "is_client_error": 400, "is_server_error": 500}[n]
    return member(v, s_range(lo, lo + 99))


@mx(r"^http::status::StatusCode::(as_str)$")
def _(self, st, a, c):
    return fdec(a[0])


@mx(r"^http::status::StatusCode::(from_u16)$")
def _(self, st, a, c):
    o = member(a[0], s_range(100, 999))
    return self.okif(o, a[0], liberr("InvalidStatusCode"))


# ================================================================ reqwest
# request builder: adt("$rb", 0, method, url, headers, body Option, okcond)
@mx(r"^reqwest::async_impl::client::Client::(new|builder)$|^reqwest::async_impl::client::ClientBuilder::new$")
def _(self, st, a, c):
    return adt("$client", 0)


@mx(r"^reqwest::async_impl::client::ClientBuilder::build$")
def _(self, st, a, c):
    return okres(self, st, self.okp("clientbuild", c.site or "s"), adt("$client", 0), "reqwest::Error")


@mx(r"^reqwest::async_impl::client::ClientBuilder::\w+$")
def _(self, st, a, c):
    return a[0]


@mx(r"^reqwest::blocking::|^reqwest::get$")
def _(self, st, a, c):
    self.I.event("sys", st, c.path, *a)
    return None


def rurl(self, v):
    t = url_text(self, textof(self, v))
    return t


@mx(r"^reqwest::async_impl::client::Client::(request|get|post|put|patch|delete|head)$")
def _(self, st, a, c):
    n = c.m.group(1)
    if n == "request":
        me, u = textof(self, a[1]), rurl(self, a[2])
    else:
        me, u = lit(n.upper()), rurl(self, a[1])
    return adt("$rb", 0, me, u, mk("hm", VNIL), NONE, TRUE)


RB_ = r"^reqwest::async_impl::request::RequestBuilder::"


@mx(RB_ + r"header$")
def _(self, st, a, c):
    o1, k = hdrname(self, a[1], c.atys[1])
    o2, v = hdrval(self, a[2], c.atys[2])
    return setf(setf(a[0], 2, lambda h: hm_add(h, k, v)), 4, lambda x: band(x, band(o1, o2)))


@mx(RB_ + r"headers$")
def _(self, st, a, c):
    def f(h):
        return bind(a[1], lambda n: mk("hm", vcat(h.a[0], n.a[0])) if h.op == "hm" and n.op == "hm" else mk("hmext", h, n))
    return setf(a[0], 2, lambda h: bind(h, f))


@mx(RB_ + r"bearer_auth$")
def _(self, st, a, c):
    t = a[1]
    t = self.fmt_value(st, "display", t, c.atys[1])
    v = concat(lit("Bearer "), t)
    return setf(setf(a[0], 2, lambda h: hm_add(h, lit("authorization"), v)), 4, lambda x: band(x, hval_ok(self, v)))


@mx(RB_ + r"body$")
def _(self, st, a, c):
    return setf(a[0], 3, some(textof(self, a[1])))


@mx(RB_ + r"json$")
def _(self, st, a, c):
    j = ser_any(self, st, a[1], c.atys[1])
    r = setf(a[0], 3, some(mk("jtext", j)))
    return setf(r, 2, lambda h: hm_add(h, lit("content-type"), lit("application/json")))


@mx(RB_ + r"(timeout|version)$")
def _(self, st, a, c):
    return a[0]


@mx(RB_ + r"query$|" + RB_ + r"form$|" + RB_ + r"basic_auth$|" + RB_ + r"multipart$")
def _(self, st, a, c):
    return mk("rbopt", c.path.split("::")[-1], *a)


def rb_build(self, st, rb):
    o = bind(rb, lambda x: band(x.a[6], self.okp("rbuild", *x.a[2:6])) if x.op == "adt" else self.okp("rbuild", x))
    self.I.fallible(st, o, "reqwest build")
    return o, setf(rb, 4, TRUE)


@mx(RB_ + r"build$")
def _(self, st, a, c):
    o, r = rb_build(self, st, a[0])
    return self.okif(o, r, liberr("reqwest::Error", "build"))


@mx(RB_ + r"send$")
def _(self, st, a, c):
    o, r = rb_build(self, st, a[0])
    return mk("fut", "http", r, o)


@mx(RB_ + r"try_clone$")
def _(self, st, a, c):
    return some(a[0])


@mx(r"^reqwest::async_impl::client::Client::execute$")
def _(self, st, a, c):
    return mk("fut", "http", a[1], TRUE)


@mx(r"^reqwest::async_impl::request::Request::(method|url|headers|body)$")
def _(self, st, a, c):
    i = REQF[c.m.group(1)]
    return bind(a[0], lambda x: x.a[2 + (3 if i == 4 else i)] if x.op == "adt" else mk("reqget", x, i))


@mx(r"^reqwest::async_impl::request::Request::(headers|url|method)_mut$", raw=True)
def _(self, st, a, c):
    p = a[0]
    while p.op == "ptr" and self.I.readloc(st, p.a).op == "ptr":
        p = self.I.readloc(st, p.a)
    if p.op != "ptr":
        return None
    return mk("ptr", p.a[0], p.a[1] + (("f", None, REQF[c.m.group(1)]),))


RS_ = r"^reqwest::async_impl::response::Response::"


@mx(RS_ + r"status$")
def _(self, st, a, c):
    return bind(a[0], lambda r: mk("typed", mk("status", r), (100, 999)))


@mx(RS_ + r"(text|bytes|json)$")
def _(self, st, a, c):
    n = c.m.group(1)
    return bind(a[0], lambda r: mk("fut", n, r, mk("rtype", c.targs[-1] if c.targs and n == "json" else None)))


@mx(RS_ + r"(error_for_status)(_ref)?$")
def _(self, st, a, c):
    def f(r):
        return band(bnot(member(mk("typed", mk("status", r), (100, 999)), s_range(400, 599))), TRUE)
    o = bind(a[0], f)
    return okres(self, st, o, a[0], "reqwest status")


@mx(r"^reqwest::error::Error::(without_url)$")
def _(self, st, a, c):
    return a[0]


def await_ext(self, st, f):
    I = self.I
    k = f.a[0]
    if k == "http":
        req, okc = f.a[1], f.a[2]
        if okc is not TRUE:
            return self.branch(st, okc, lambda t: do_http(self, t, req), lambda t: err(liberr("reqwest::Error", "build")))
        return do_http(self, st, req)
    if k in ("text", "bytes", "json"):
        r = f.a[1]
        okc = self.okp("text", r)
        I.fallible(st, okc, "reading a response body")
        I.event("bodyread", st, r)
        b = mk("body", r)
        if k == "text":
            return self.okif(okc, b, liberr("reqwest::Error", "text"))
        if k == "bytes":
            return self.okif(okc, tobytes(b), liberr("reqwest::Error", "bytes"))
        ty = f.a[2].a[0]

        def g(t):
            return self.de(t, ty, mk("json", b), root=True)
        return self.branch(st, okc, g, lambda t: err(liberr("reqwest::Error", "text")))
    if k == "oncecell":
        from statics import await_once
        return await_once(self, st, f)
    if k == "lock":
        return bind(f.a[1], lambda x: self.lock_cell(st, x, "async"))
    return None


def do_http(self, st, req):
    I = self.I
    self.nresp += 1
    resp = mk("resp", self.nresp, req)
    I.event("http", st, req, resp)
    okc = self.okp("exec", resp)
    I.fallible(st, okc, "sending a request")
    return self.okif(okc, resp, liberr("reqwest::Error", "execute"))


# ================================================================ tokio
@mx(r"^tokio::sync::(?:mutex::)?Mutex::(new|const_new)$|^tokio::sync::(?:rwlock::)?RwLock::new$")
def _(self, st, a, c):
    r = self.new_cell(st, a[0], "tokio")
    if r.a[0][0] == "cell":
        self.celltype[r.a[0]] = c.targs[0] if c.targs else c.atys[0]
        self.I.event("cellnew", st, r.a[0], a[0])
    return r


@mx(r"^tokio::sync::(?:mutex::)?Mutex::(lock|lock_owned)$|^tokio::sync::(?:rwlock::)?RwLock::(read|write)$")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("fut", "lock", x))


@mx(r"^tokio::sync::(?:mutex::)?Mutex::blocking_lock(_owned)?$|^tokio::sync::(?:rwlock::)?RwLock::blocking_(read|write)$")
def _(self, st, a, c):
    return bind(a[0], lambda x: self.lock_cell(st, x, "blocking"))


@mx(r"^tokio::sync::(?:mutex::)?Mutex::try_lock$")
def _(self, st, a, c):
    o = self.okp("trylock", c.site or "s")
    g = bind(a[0], lambda x: self.lock_cell(st, x, "try"))
    return self.okif(o, g, liberr("TryLockError"))


@mx(r"^tokio::sync::once_cell::OnceCell::|^tokio::(time|runtime|task|fs|net)::")
def _(self, st, a, c):
    self.I.event("sys", st, c.path, *a)
    return None


def havoc_cell(self, key, n):
    ty = self.celltype.get(key)
    if ty is None:
        return None
    I = self.I

    def build(ty, v):
        """arbitrary value of ty"""
        while ty[0] == "ref":
            ty = ty[2]
        if ty[0] == "adt" and ty[1] == OPT:
            d = truth(mk("okp", "is_some", v))
            return self.ite(d, some(build(ty[2][0], mk("some", v))), NONE)
        if ty[0] == "tuple":
            return tup(*[build(t, mk("part", v, i)) for i, t in enumerate(ty[1])])
        if ty[0] == "adt":
            if ty[1] == SYSTIME:
                return mk("typed", v, SYSRANGE)
            a = I.F.adts.get(ty[1])
            if a and a["local"] and a["kind"] == "struct":
                sub = dict(zip(a["generics"], ty[2]))
                return adt(ty[1], 0, *[build(I.F.ty(f["t"], sub), mk("part", v, i))
                                       for i, f in enumerate(a["variants"][0]["fields"])])
        return I.typed(v, ty)
    return build(ty, mk("cell", key, n))


# ================================================================ chrono
CHR = (-8334601228800, 8210266876799)


def chop(fmt):
    """chrono format items -> list of lit / ('f', spec)"""
    out = []
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch != "%":
            out.append(fmt[i])
            i += 1
            continue
        i += 1
        if i >= len(fmt):
            return None
        s = fmt[i]
        i += 1
        if s == "%":
            out.append("%")
        elif s == "F":
            r = chop("%Y-%m-%d")
            out += r
        elif s == "T" or s == "X":
            out += chop("%H:%M:%S")
        elif s == "D" or s == "x":
            out += chop("%m/%d/%y")
        elif s == "R":
            out += chop("%H:%M")
        elif s in "YmdHMS":
            out.append(("f", s))
        else:
            out.append(("f", s))
    return out


def strf(st, dt, fmt):
    if dt.op != "dt":
        return mk("strfmt", dt, lit(fmt))
    secs, nanos = dt.a[0], dt.a[1]
    items = chop(fmt)
    if items is None:
        return mk("strfmt", dt, lit(fmt))
    return concat(*[lit(x) if isinstance(x, str) else mk("strf", x[1], secs) for x in items])


@mx(r"^chrono::datetime::DateTime::(from_timestamp)$")
def _(self, st, a, c):
    o = band(member(a[0], s_range(*CHR)), member(a[1], s_range(0, NS - 1)))
    return self.someif(o, mk("dt", a[0], a[1]))


@mx(r"^chrono::datetime::DateTime::(from_timestamp_millis|from_timestamp_secs)$")
def _(self, st, a, c):
    if c.m.group(1).endswith("secs"):
        return self.someif(member(a[0], s_range(*CHR)), mk("dt", a[0], INT(0)))
    s = divfloor(a[0], 1000)
    n = mulc(modfloor(a[0], 1000), 1000000)
    return self.someif(member(s, s_range(*CHR)), mk("dt", s, n))


@mx(r"^chrono::datetime::DateTime::(timestamp|timestamp_millis|timestamp_subsec_nanos|timestamp_nanos_opt)$")
def _(self, st, a, c):
    n = c.m.group(1)

    def f(x):
        if x.op == "dt":
            if n == "timestamp":
                return x.a[0]
            if n == "timestamp_subsec_nanos":
                return x.a[1]
            if n == "timestamp_millis":
                return add(mulc(x.a[0], 1000), divfloor(x.a[1], 1000000))
        if x.op == "dtopaque" and n == "timestamp":
            return mk("typed", mk("dtsecs", x.a[0]), CHR)
        return mk("typed", mk("dtget", n, x), int_range("i64"))
    return bind(a[0], f)


@mx(r"^chrono::datetime::DateTime::format$|^chrono::naive::(?:datetime|date|time)::Naive\w+::format$")
def _(self, st, a, c):
    def f(x):
        if a[1].op != "lit":
            return mk("strfmt", x, a[1])
        return strf(st, x, a[1].a[0])
    return bind(a[0], f)


@mx(r"^chrono::datetime::DateTime::(to_rfc3339)$")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("strfmt", x, lit("rfc3339")))


@mx(r"^chrono::datetime::DateTime::to_rfc3339_opts$")
def _(self, st, a, c):
    def f(x):
        # SecondsFormat::Secs, use_z
        if x.op == "dt" and a[1].op == "adt" and a[1].a[1] == 0 and a[2] is TRUE:
            return strf(st, x, "%Y-%m-%dT%H:%M:%SZ")
        return mk("strfmt", x, lit("rfc3339opts"), a[1], a[2])
    return bind(a[0], f)


@mx(r"^chrono::datetime::DateTime::(naive_utc|date_naive|to_utc|with_timezone|naive_local|fixed_offset|timezone|offset)$")
def _(self, st, a, c):
    return a[0]


@mx(r"^chrono::naive::(?:datetime|date|time)::Naive\w+::(and_utc|date|time)$")
def _(self, st, a, c):
    return a[0]


DTP = {"Y": (-262143, 262142), "m": (1, 12), "d": (1, 31), "H": (0, 23), "M": (0, 59), "S": (0, 59)}
DTN = {"year": "Y", "month": "m", "day": "d", "hour": "H", "minute": "M", "second": "S"}


@mx(r"^chrono::traits::(?:Datelike|Timelike)::(year|month|day|hour|minute|second|nanosecond)$")
def _(self, st, a, c):
    n = c.m.group(1)

    def f(x):
        if x.op == "dt" and n in DTN:
            rg = DTP[DTN[n]]
            if n == "year" and implies(st.pc, member(x.a[0], s_range(-62167219200, 253402300799))):
                rg = (0, 9999)
            return mk("typed", mk(n, x.a[0]), rg)
        return mk("typed", mk("dtget", n, x), DTP.get(DTN.get(n), (0, 2 * NS)))
    return bind(a[0], f)


@mx(r"^chrono::datetime::DateTime::parse_from_rfc3339$")
def _(self, st, a, c):
    return okres(self, st, self.okp("rfc3339", a[0]), mk("dtopaque", mk("rfc3339", a[0])), "chrono::ParseError")


@mx(r"^chrono::(?:naive::(?:datetime|date|time)::Naive\w+|datetime::DateTime)::parse_from_str$")
def _(self, st, a, c):
    return okres(self, st, self.okp("strptime", a[0], a[1]), mk("dtopaque", mk("strptime", a[0], a[1])), "chrono::ParseError")


@mx(r"^chrono::offset::utc::Utc::now$")
def _(self, st, a, c):
    self.I.nclock += 1
    v = mk("typed", mk("in", "now#%d" % self.I.nclock), NOWRANGE)
    self.I.event("clock", st, v)
    return mk("dt", divfloor(v, NS), modfloor(v, NS))


@mx(r"^chrono::offset::TimeZone::timestamp_opt$")
def _(self, st, a, c):
    o = band(member(a[1], s_range(*CHR)), member(a[2], s_range(0, NS - 1)))
    return adt("$local", 0, self.someif(o, mk("dt", a[1], a[2])))


@mx(r"^chrono::offset::(?:LocalResult|MappedLocalTime)::(single|earliest|latest)$")
def _(self, st, a, c):
    return self.I.field(a[0], None, 0)


# ================================================================ base64
def b64cfg(v):
    t = v
    while t.op == "adt" and len(t.a) > 2 and t.a[0].startswith("core::"):
        t = t.a[2]
    if t.op in ("const", "static"):
        s = str(t.a[0])
        n = s.split("::")[-1]
        if n in ("STANDARD", "STANDARD_NO_PAD", "URL_SAFE", "URL_SAFE_NO_PAD"):
            return n
        if n == "BASE64_STANDARD":
            return "STANDARD"
        return s
    return "?" + show(t, 3)


def b64(x, cfg):
    return mk("b64", x, cfg)


@mx(r"^base64::engine::Engine::(encode|encode_string)$", raw=True)
def _(self, st, a, c):
    I = self.I
    cfg = b64cfg(I.deref(st, a[0]))
    v = I.deref(st, a[1])
    t = bind(v, lambda x: b64(tobytes(x) if self.isstr(c.atys[1]) else x, cfg))
    if c.m.group(1) == "encode":
        return t
    self.append(st, a[2], t)
    return UNIT


@mx(r"^base64::engine::Engine::decode$", raw=True)
def _(self, st, a, c):
    I = self.I
    cfg = b64cfg(I.deref(st, a[0]))
    v = I.deref(st, a[1])
    x = textof(self, v)
    return okres(self, st, self.okp("b64", x, cfg), mk("b64dec", x, cfg), "base64::DecodeError")


# ================================================================ hashes and keys
HEXT = tuple(b"%02x" % i for i in range(256))
HEXU = tuple(b"%02X" % i for i in range(256))


@mx(r"^sha256::digest$|^sha256::digest_bytes$")
def _(self, st, a, c):
    v = a[0]
    return bind(v, lambda x: bytetab(mk("sha256", tobytes(x) if self.isstr(c.atys[0]) or x.op in ("lit", "concat") else x), HEXT))


@mx(r"^ring::digest::digest$")
def _(self, st, a, c):
    alg = alg_name(a[0])
    if alg == "SHA256":
        return mk("sha256", a[1])
    return mk("digest", alg, a[1])


def alg_name(v):
    while v.op == "adt" and len(v.a) == 3:
        v = v.a[2]
    if v.op in ("const", "static"):
        return str(v.a[0]).split("::")[-1]
    return show(v, 3)


@mx(r"^hex::encode$")
def _(self, st, a, c):
    return bind(a[0], lambda x: bytetab(tobytes(x) if self.isstr(c.atys[0]) else x, HEXT))


@mx(r"^hex::encode_upper$")
def _(self, st, a, c):
    return bind(a[0], lambda x: bytetab(tobytes(x) if self.isstr(c.atys[0]) else x, HEXU))


@m("pem::parse")
def _(self, st, a, c):
    x = textof(self, a[0])
    return okres(self, st, self.okp("pem", x), mk("pem", x), "pem::PemError")


@m("pem::parse_many")
def _(self, st, a, c):
    x = textof(self, a[0])
    return okres(self, st, self.okp("pems", x), mk("pems", x), "pem::PemError")


@mx(r"^pem::Pem::(contents|into_contents)$")
def _(self, st, a, c):
    return bind(a[0], lambda x: mk("pemder", x.a[0]) if x.op == "pem" else mk("pemder", x))


@mx(r"^pem::Pem::(tag)$")
def _(self, st, a, c):
    return mk("pemtag", a[0])


@mx(r"^ring::(?:rsa::keypair::KeyPair|rsa::KeyPair|signature::RsaKeyPair)::(from_pkcs8|from_der)$")
def _(self, st, a, c):
    return okres(self, st, self.okp(c.m.group(1), a[0]), mk("rsakey", a[0], c.m.group(1)), "ring::KeyRejected")


@mx(r"^ring::rsa::keypair::KeyPair::(public)$|^ring::signature::KeyPair::(public_key)$")
def _(self, st, a, c):
    return mk("rsapub", a[0])


@mx(r"^ring::rsa::(?:public_key::PublicKey|keypair::KeyPair)::(modulus_len|public_modulus_len)$")
def _(self, st, a, c):
    k = a[0]
    return bind(k, lambda x: mk("typed", mk("modlen", x.a[0] if x.op == "rsapub" else x), (0, 1 << 20)))


@mx(r"^ring::rand::SystemRandom::new$")
def _(self, st, a, c):
    return adt("$sysrandom", 0)


@mx(r"^ring::rsa::keypair::KeyPair::sign$", raw=True)
def _(self, st, a, c):
    I = self.I
    key = I.deref(st, a[0])
    alg = alg_name(I.deref(st, a[1]))
    msg = I.deref(st, a[3])
    buf = I.deref(st, a[4])

    def f(key):
        ml = mk("typed", mk("modlen", key), (0, 1 << 20))
        o = band(icmp("Eq", self.length(buf), ml), self.okp("rsasign", alg, key, msg))
        return o
    o = bind(key, f)
    I.event("rsasign", st, alg, key, msg)
    I.fallible(st, o, "ring::Unspecified")
    sig = mk("rsasig", alg, key, msg)
    I.write(st, a[4], self.ite(o, sig, buf))
    return self.okif(o, UNIT, liberr("ring::Unspecified"))


# ================================================================ generic hooks
def xconvert(self, st, v, f, t):
    p = t[1]
    if p in ("http::method::Method",) or p.endswith("::Method"):
        return v
    if p == "http::header::value::HeaderValue":
        return fdec(v) if f[0] == "int" else v
    if p == "http::header::name::HeaderName":
        return v
    if p.startswith("reqwest::") and p.endswith("Body"):
        return textof(self, v)
    if p == SYSTIME and v.op == "dt":
        return add(mulc(v.a[0], NS), v.a[1])
    if p == "chrono::datetime::DateTime" and f[0] == "adt" and f[1] == SYSTIME:
        s = divfloor(v, NS)
        self.I.panic(st, bnot(member(s, s_range(*CHR))), "SystemTime out of range for chrono")
        return mk("dt", s, modfloor(v, NS))
    if p == SJV:
        return ser_any(self, st, v, f)
    if p == "url::Url":
        return v
    if self.isstr(t) and f[0] == "adt" and f[1] == "url::Url":
        return url_text(self, v)
    return None


def xdisplay(self, st, v, t):
    if v.op == "adt" and v.a[0] in ("$url", "$uri"):
        return url_text(self, v)
    if t is not None and t[0] == "adt":
        p = t[1]
        if p in ("url::Url", "http::uri::Uri"):
            return url_text(self, v)
        if p in ("http::header::name::HeaderName", "http::method::Method", "reqwest::Method"):
            return v
        if p.startswith("chrono::format::") and p.endswith("DelayedFormat"):
            return v
        if p == "http::status::StatusCode":
            return mk("fmt", "status", v)
        if p == SJV:
            return mk("jtext", v)
    if has_op(v, ("liberr",)) and v.op in ("liberr", "sel"):
        return bind(v, lambda x: mk("errtext", x))
    return None


def xtryfrom(self, st, v, f, t):
    t = self.strip(t)
    if t is None or t[0] != "adt":
        return None
    p = t[1]
    if p in ("http::uri::Uri",):
        o, u = uri_parse(self, textof(self, url_text(self, v)))
        return okres(self, st, o, u, "InvalidUri")
    if p == "url::Url":
        o, u = url_parse(self, st, v)
        return okres(self, st, o, u, "urlparse")
    if p == "http::header::name::HeaderName":
        o, n = hdrname(self, v, f)
        return okres(self, st, o, n, "InvalidHeaderName")
    if p == "http::header::value::HeaderValue":
        o, n = hdrval(self, v, f)
        return okres(self, st, o, n, "InvalidHeaderValue")
    if p == "http::method::Method":
        return method_from(self, st, v)
    if p == "chrono::datetime::DateTime":
        return okres(self, st, self.okp("rfc3339", v), mk("dtopaque", mk("rfc3339", v)), "chrono::ParseError")
    return None


LOCKS = re.compile(r"^(tokio::sync|std::sync)::.*(Mutex|RwLock)$")


def xdefault(self, st, t):
    p = t[1] if t[0] == "adt" else None
    if p == "http::header::map::HeaderMap":
        return mk("hm", VNIL)
    if p == "http::method::Method":
        return lit("GET")
    if p and LOCKS.match(p):
        from std_models import default
        v = default(self, st, t[2][0])
        if p.startswith("std"):
            return self.new_cell(st, v, "std")
        r = self.new_cell(st, v, "tokio")
        if r.a[0][0] == "cell":
            self.celltype[r.a[0]] = t[2][0]
            self.I.event("cellnew", st, r.a[0], v)
        return r
    if p and p.startswith("reqwest::async_impl::client::Client"):
        return adt("$client", 0)
    return None


def xindex(self, st, a, c):
    t = self.strip(c.atys[0])
    if t is not None and t[0] == "adt" and t[1] == "http::header::map::HeaderMap":
        return hm_index(self, st, a, c)
    return None


def xcollect(self, st, v, t):
    if t[1] == "http::header::map::HeaderMap":
        self.I.panic(st, bnot(self.okp("hcap", "collect", v)), "HeaderMap: too many headers")
        I = self.I
        return mk("hm", seqbody(v, lambda e: tup(I.field(e, None, 0), I.field(e, None, 1))))
    return None


def xextend(self, st, v, x):
    if v.op == "hm":
        self.I.panic(st, bnot(self.okp("hcap", "extend", x)), "HeaderMap::extend: too many headers")
        return mk("hm", vcat(v.a[0], self.seq(x)))
    return None


import ext_serde  # noqa: E402,F401
from ext_serde import ser_any  # noqa: E402,F401
