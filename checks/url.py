"""Signed URLs: C01-C11, C21, C22, C24, C28 (URL side)."""
from base import *

MINMAX = ((0, 253402300800 * NS - 1),)
WEEK = ((0, 604801 * NS - 1),)


def each_case(C, rep, kinds=("sa", "bt")):
    n = 0
    for k in kinds:
        run = C.url(k)
        rep.analysed["build_signed_url[%s]" % k] = dict(results=len(run.oks), events=len(run.ev))
        for c in run.cases:
            n += 1
            if c.u is None:
                rep.unk("URL value (%s)" % k, "result is not understood")
                continue
            yield k, run, c
    if not n:
        rep.bad("a URL is returned", "build_signed_url never returns a URL for a usable key")


def shape(rep, k, c, what):
    """the parts of a URL a rule needs; reports when they are not there"""
    for w in what:
        if getattr(c, w) is None:
            t = c.u
            name = "URL has a %s part (%s)" % (w, k)
            if opaque(t):
                rep.unk(name, "not understood: " + short(t), loc(t))
            else:
                rep.bad(name, "no %s found in %s" % (w, short(t)), loc(t))
            return False
    return True


def acc(run):
    return run.inp["accessible_at"]


# ---------------------------------------------------------------- C01
URLSAFE = S.URLPATH & ~S.mask(b"%")


def c01(C, rep):
    for k, run, c in each_case(C, rep):
        raw_syntax(rep, k, run, c)
        if not shape(rep, k, c, ["head"]):
            continue
        ps = list(str_parts(c.head))
        good = ps and ps[0].op == "lit" and ps[0].a[0].startswith(BASE)
        rep.ob("URL starts with %s (%s)" % (BASE, k), bool(good), "starts with %s" % short(c.head), loc(c.head), opaque(c.head))
        if not good:
            continue
        path = concat(lit("/" + ps[0].a[0][len(BASE):]), *ps[1:])
        path_rules(rep, k, run, c, path, "URL path")


def raw_syntax(rep, k, run, c):
    """a name must not reach the URL parser with bytes that would end the path"""
    name = "names reach the URL parser without '?', '#' or control characters (%s)" % k
    names = (run.inp["bucket_name"], run.inp["object_name"])
    for x in subterms(c.u):
        if x.op != "url":
            continue
        for q in str_parts(restrict(x.a[0], c.pc)):
            if q.op == "lit" or opaque(q) or not mentions(q, *names):
                continue
            bad = S.bits(S.cs(q) & S.mask(b"?#\t\r\n"))
            if bad:
                rep.bad(name, "%r of %s is not escaped" % (bytes(bad), short(q)), loc(q))
                return
    rep.ok(name)


def segments(path):
    """path cut at its literal slashes"""
    return lines(str_parts(path), "/")


def path_rules(rep, k, run, c, path, what):
    b, o = run.inp["bucket_name"], run.inp["object_name"]
    d = pct_decode(path)
    if d is None:
        bad = [p for p in str_parts(path) if pct_decode(p) is None]
        if any(opaque(x) for x in bad):
            rep.unk("%s decodes (%s)" % (what, k), short(bad[0]), loc(bad[0]))
        else:
            rep.bad("%s decodes to the names (%s)" % (what, k), "percent-decoding does not undo the encoding of %s" % short(bad[0]), loc(bad[0]))
        return
    rep.eq("%s percent-decodes to /bucket/object (%s)" % (what, k), d, concat(lit("/"), b, lit("/"), o), c.pc)
    # only characters that cannot change the structure of the URL are left as they are
    raw_b = raw_o = 0
    for p in str_parts(path):
        for l in leaves(p):
            for q in str_parts(l):
                if q.op == "lit":
                    continue
                m = S.cs(q) & ~S.mask(b"%")
                if contains(q, b):
                    raw_b |= m
                if contains(q, o):
                    raw_o |= m
    bad = [chr(x) for x in S.bits(raw_b & ~(URLSAFE & ~S.mask(b"/")))]
    rep.ob("no byte of the bucket name can act as URL syntax (%s)" % k, not bad,
           "left unescaped: %r" % "".join(bad)[:60], loc(path), opaque(path))
    bad = [chr(x) for x in S.bits(raw_o & ~URLSAFE)]
    rep.ob("no byte of the object name but '/' can act as URL syntax (%s)" % k, not bad,
           "left unescaped: %r" % "".join(bad)[:60], loc(path), opaque(path))
    # dot segments would be removed by URL parsers
    dots = SS(True, [".", ".."])
    rep.implied("a bucket name that is a dot segment is refused (%s)" % k, c.pc, bnot(str_in(b, dots)),
                "a URL is returned for bucket '.' or '..'", loc(path),
                lambda v: contains(v, b) and v.op not in ("okp", "jkind"))
    src = mk("split", o, "/")
    rep.implied("an object name with a dot segment is refused (%s)" % k, c.pc,
                bnot(any_of(src, str_in(elem(src), dots))),
                "a URL is returned for an object name with a '.' or '..' segment", loc(path),
                lambda v: contains(v, o) and v.op not in ("okp", "jkind"))


# ---------------------------------------------------------------- C02
def c02(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["query", "sigtext", "M", "CR"]):
            continue
        ps = list(str_parts(c.head))
        if not (ps and ps[0].op == "lit" and ps[0].a[0].startswith(BASE)):
            (rep.unk if opaque(c.head) else rep.bad)("URL path (%s)" % k, "URL starts with %s" % short(c.head), loc(c.head))
            continue
        path = concat(lit("/" + ps[0].a[0][len(BASE):]), *ps[1:])
        if not canonical_shape(rep, k, c):
            continue
        rep.eq("the query before X-Goog-Signature is the signed canonical query (%s)" % k, c.query, c.clines[2], c.pc)
        a, b = pct_decode(path), pct_decode(c.clines[1])
        if a is None or b is None:
            rep.eq("URL path and signed path are the same (%s)" % k, path, c.clines[1], c.pc)
        else:
            rep.eq("URL path and signed path decode to the same path (%s)" % k, a, b, c.pc)
        hexsig(rep, k, c.sigtext, c.pc)
        rep.eq("the signed text ends with the hash of the canonical request of this URL (%s)" % k,
               c.mlines[-1], mk("bytetab", mk("sha256", S.tobytes(c.CR)), HEX), c.pc)


def canonical_shape(rep, k, c):
    if len(c.clines) != 7:
        o = opaque(c.CR)
        (rep.unk if o else rep.bad)("canonical request has its seven parts (%s)" % k,
                                    "found %d parts: %s" % (len(c.clines), short(c.CR, 6)), loc(c.CR))
        return False
    return True


def hexsig(rep, k, t, care, local=None):
    """t is the complete lowercase hex of a whole signature"""
    name = "signature text is the full lowercase hex of the signature bytes (%s)" % k
    t = restrict(t, care)
    for l in leaves(t):
        if l.op != "bytetab":
            rep.ob(name, False, "signature text is %s" % short(l), loc(l), opaque(l))
            continue
        if l.a[1] != HEX:
            bad = next(b for b in range(256) if l.a[1][b] != HEX[b])
            rep.bad(name, "byte %d is written as %r" % (bad, l.a[1][bad]), loc(l))
            continue
        src = l.a[0]
        good = src.op in ("rsasig", "b64dec")
        rep.ob(name, good, "hex is taken over %s" % short(src), loc(src), opaque(src))


# ---------------------------------------------------------------- C03
def c03(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["M"]):
            continue
        if len(c.mlines) != 4:
            (rep.unk if opaque(c.M) else rep.bad)("string-to-sign has four lines (%s)" % k, short(c.M), loc(c.M))
            continue
        l1, l2, l3, l4 = c.mlines
        rep.eq("line 1 is the algorithm label (%s)" % k, l1, lit(ALG), c.pc)
        E, ns = instant(acc(run), l2)
        sec = divfloor(E, NS)
        rep.eq("line 2 is the request timestamp (%s)" % k, l2, datetime_of(sec), c.pc)
        rep.eq("line 3 is the credential scope (%s)" % k, l3, scope_of(run, sec), c.pc)
        if c.CR is None:
            (rep.unk if opaque(l4) else rep.bad)("line 4 is the hex SHA-256 of the canonical request (%s)" % k, short(l4), loc(l4))
            continue
        rep.eq("line 4 is the lowercase hex SHA-256 of the canonical request (%s)" % k, l4,
               mk("bytetab", mk("sha256", S.tobytes(c.CR)), HEX), c.pc)
        if not canonical_shape(rep, k, c):
            continue
        ml, pl, ql, hl, el, nl, ul = c.clines
        rep.eq("canonical request: method (%s)" % k, ml, run.inp["http_method"], c.pc)
        d = pct_decode(pl)
        if d is None:
            undecodable(rep, "canonical request: percent-encoded path (%s)" % k, pl)
        else:
            rep.eq("canonical request: percent-encoded path (%s)" % k, d,
                   concat(lit("/"), run.inp["bucket_name"], lit("/"), run.inp["object_name"]), c.pc)
        q = pct_pairs(ql)
        rep.ob("canonical request: canonical query string (%s)" % k, q is not None, short(ql), loc(ql), opaque(ql))
        rep.eq("canonical request: canonical headers (%s)" % k, hl, header_lines(run), c.pc)
        rep.eq("canonical request: empty line (%s)" % k, el, EMPTY, c.pc)
        rep.eq("canonical request: signed header names (%s)" % k, nl, header_names(run), c.pc)
        rep.eq("canonical request: payload (%s)" % k, ul, lit("UNSIGNED-PAYLOAD"), c.pc)


def pct_pairs(q):
    return query_pairs(q)


def scope_of(run, sec):
    return concat(date_of(sec), lit("/"), region_of(run.inp["region"] if "region" in run.inp else run.opts["region"]),
                  lit("/storage/goog4_request"))


# ---------------------------------------------------------------- C04
def headers_spec(run):
    """(name, value) of every header that must be signed, in the order supplied"""
    h = run.inp["headers"]
    e = elem(h)
    return vec(E(tup(lit("host"), lit(HOST))),
               ("each", h, vec(E(tup(S.lower(tup_field(e, 0)), mk("trim", tup_field(e, 1), "vis"))))))


def header_lines(run):
    g = mk("group", headers_spec(run))
    e = elem(g)
    return mk("join", vec(("each", g, vec(E(concat(tup_field(e, 0), lit(":"), S.join(tup_field(e, 1), lit(","))))))), lit("\n"))


def header_names(run):
    h = run.inp["headers"]
    s = mk("sortset", vec(E(lit("host")), ("each", h, vec(E(S.lower(tup_field(elem(h), 0)))))))
    return S.join(s, lit(";"))


def c04(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["query", "CR"]) or not canonical_shape(rep, k, c):
            continue
        rep.eq("canonical header lines: every supplied header and host, grouped, sorted, trimmed (%s)" % k,
               c.clines[3], header_lines(run), c.pc)
        rep.eq("signed header names in the canonical request (%s)" % k, c.clines[5], header_names(run), c.pc)
        v = c.param("X-Goog-SignedHeaders")
        if not v or len(v) != 1:
            undecodable_param(rep, "X-Goog-SignedHeaders is in the query (%s)" % k, c)
            continue
        d = pct_decode(v[0])
        if d is None:
            undecodable(rep, "X-Goog-SignedHeaders decodes (%s)" % k, v[0])
            continue
        rep.eq("X-Goog-SignedHeaders names the same headers in the same order (%s)" % k, d, header_names(run), c.pc)


def undecodable_param(rep, name, c):
    """a parameter is not found exactly once; definite only where the query was taken apart into pairs"""
    p = c.pairs()
    qp = c.run.inp["query_parameters"]
    if p is None or any(g[0] != "e" and not (g[0] in ("each", "all") and g[1] is qp) for g in nsegs(list(segs(p[0])), c.pc)):
        rep.unk(name, "query is not taken apart: " + short(c.query if c.query is not None else c.u), loc(c.query))
    else:
        undecodable(rep, name, c.query)


def undecodable(rep, name, t):
    (rep.unk if opaque(t) else rep.bad)(name, "found " + short(t), loc(t))


# ---------------------------------------------------------------- C05
PARAMS = ["X-Goog-Algorithm", "X-Goog-Credential", "X-Goog-Date", "X-Goog-Expires", "X-Goog-SignedHeaders"]


def c05(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["query", "sigtext"]):
            continue
        p = c.pairs()
        if p is None or not p[1]:
            undecodable(rep, "query is name=value pairs sorted by encoded name and value, joined with '&' (%s)" % k, c.query)
            continue
        rep.ok("query is name=value pairs sorted by encoded name and value, joined with '&' (%s)" % k, loc(c.query))
        qp = run.inp["query_parameters"]
        seen = {n: 0 for n in PARAMS}
        users = 0
        for g in nsegs(list(segs(p[0])), c.pc):
            if g[0] == "e" and g[1].op == "tuple" and len(g[1].a) == 2 and g[1].a[0].op == "lit":
                n = g[1].a[0].a[0]
                if n in seen:
                    seen[n] += 1
                else:
                    rep.bad("nothing else is in the query (%s)" % k, "extra parameter %r" % n, loc(g[1]))
            elif g[0] in ("each", "all"):
                users += 1
                e = elem(g[1])
                b = g[2] if g[0] == "each" else vec(E(e))
                # percent-decode the element
                good = None
                if b.op == "vec" and len(b.a) == 1 and b.a[0][0] == "e" and b.a[0][1].op == "tuple" and len(b.a[0][1].a) == 2:
                    x, y = b.a[0][1].a
                    dx, dy = pct_decode(x), pct_decode(y)
                    if dx is not None and dy is not None:
                        good = vec(("each", g[1], vec(E(tup(dx, dy)))))
                if good is None:
                    undecodable(rep, "each supplied pair is in the query once, encoded (%s)" % k, b)
                else:
                    rep.eq("each supplied pair is in the query once, percent-encoded (%s)" % k, good,
                           vec(("each", qp, vec(E(tup(tup_field(elem(qp), 0), tup_field(elem(qp), 1)))))), c.pc)
            else:
                undecodable(rep, "nothing else is in the query (%s)" % k, vec(g))
        for n in PARAMS:
            if opaque(p[0]) and seen[n] != 1:
                rep.unk("%s exactly once (%s)" % (n, k), short(p[0]))
            else:
                rep.ob("%s exactly once (%s)" % (n, k), seen[n] == 1, "occurs %d times" % seen[n], loc(c.query))
        if not opaque(p[0]):
            rep.ob("supplied pairs are added exactly once (%s)" % k, users == 1, "%d groups of pairs" % users, loc(c.query))


# ---------------------------------------------------------------- C06
RESERVED = b"?=!#$&'()*+,:;@[]\""


def c06(C, rep):
    for k, run, c in each_case(C, rep):
        raw_syntax(rep, k, run, c)
        if not shape(rep, k, c, ["query", "sigtext", "head"]):
            continue
        p = c.pairs()
        if p is None:
            # not a join of pairs: every input must still be encoded exactly
            q = c.query
            exact_text(rep, "query", k, q, c)
        else:
            qp = run.inp["query_parameters"]
            e = elem(qp)
            want = vec(E(tup(tup_field(e, 0), tup_field(e, 1))))
            found = 0
            for g in nsegs(list(segs(p[0])), c.pc):
                if g[0] == "e" and g[1].op == "tuple" and len(g[1].a) == 2:
                    for x in g[1].a:
                        exact_value(rep, "parameter %s" % short(g[1].a[0]), k, x, c)
                elif g[0] in ("each", "all"):
                    found += 1
                    if opaque(vec(g)):
                        rep.unk("encoding of supplied names and values (%s)" % k, short(vec(g)), loc(vec(g)))
                    else:
                        b = g[2] if g[0] == "each" else vec(E(elem(g[1])))
                        for h in segs(b):
                            if h[0] == "e" and h[1].op == "tuple" and len(h[1].a) == 2:
                                for x, w in zip(h[1].a, ("name", "value")):
                                    exact_value(rep, "supplied " + w, k, x, c)
                                # decoding once gives back what was supplied
                                d = [pct_decode(x) for x in h[1].a]
                                if None not in d and g[1] is qp:
                                    rep.eq("decoding the query gives back each supplied name and value (%s)" % k,
                                           vec(("each", qp, vec(E(tup(*d))))), vec(("each", qp, want)), c.pc)
                            else:
                                undecodable(rep, "supplied pairs (%s)" % k, vec(h))
                else:
                    undecodable(rep, "query (%s)" % k, vec(g))
        # path of the URL and of the canonical request
        for what, t in (("URL path", c.head), ("canonical request path", c.clines[1] if c.clines and len(c.clines) > 1 else None)):
            if t is None:
                continue
            m = raw_chars(t)
            bad = S.bits(m & ~(S.mask(UNRESERVED) | S.mask(b"/")) & (S.mask(RESERVED) | S.mask(b" %") | S.mask(range(0x20)) | S.mask(range(0x7f, 256))))
            rep.ob("no reserved, control, space or non-ASCII character of an input is unescaped in the %s (%s)" % (what, k),
                   not bad, "left as they are: %r" % bytes(bad)[:40], loc(t), opaque(t))
            if pct_decode(t if what != "URL path" else concat(*str_parts(t))) is None:
                undecodable(rep, "%s is losslessly encoded (%s)" % (what, k), t)


def exact_value(rep, what, k, x, c):
    """x is a text whose input-dependent parts are percent-encoded byte by byte, all but unreserved"""
    name = "%s is percent-encoded exactly (%s)" % (what, k)
    x = restrict(x, c.pc)
    for l in leaves(x):
        for q in (str_parts(l) if l.op != "join" else tuple(h for h in join_parts(l))):
            if q.op == "sel":
                exact_value(rep, what, k, q, c)
                continue
            if q.op == "lit":
                bad = [ch for ch in q.a[0] if ch not in "%" and ord(ch) not in UNRESERVED]
                u = unquote(S.enc(q.a[0]))
                lo = q.a[0] != "" and u is not None and any(
                    q.a[0][i] == "%" and (q.a[0][i + 1:i + 3] != q.a[0][i + 1:i + 3].upper() or int(q.a[0][i + 1:i + 3], 16) in UNRESERVED)
                    for i in range(len(q.a[0])))
                rep.ob(name, not bad and u is not None and not lo, "literal %r" % q.a[0], loc(q))
            elif q.op == "bytemap":
                m = S.cs(q.a[0])
                bad = [b for b in S.bits(m) if q.a[1][b] != PCT[b]]
                rep.ob(name, not bad, "byte %r is written as %r" % (bytes(bad[:1]), q.a[1][bad[0]] if bad else b""), loc(q), opaque(q))
            else:
                m = S.cs(q)
                bad = S.bits(m & ~S.mask(UNRESERVED))
                if bad and (opaque(q) or q.op in ("eachstr", "qser")):
                    if q.op == "qser":
                        rep.bad(name, "form-urlencoded text %s" % short(q), loc(q))
                    else:
                        rep.unk(name, short(q), loc(q))
                else:
                    rep.ob(name, not bad, "%s can hold %r unescaped" % (short(q), bytes(bad)[:30]), loc(q))


def join_parts(j):
    out = [j.a[1]]

    def go(v):
        for g in segs(v):
            if g[0] == "e":
                out.extend(str_parts(g[1]))
            elif g[0] == "each":
                go(g[2])
            elif g[0] == "all":
                out.append(elem(g[1]))
            elif g[0] == "alt":
                for l in leaves(g[1]):
                    go(l)
    go(j.a[0])
    return out


def exact_text(rep, what, k, q, c):
    undecodable(rep, "%s is made of percent-encoded pairs (%s)" % (what, k), q)


# ---------------------------------------------------------------- C07 / C08 / C11
def date_param(rep, k, c, run, report=True):
    v = c.param("X-Goog-Date")
    if not v or len(v) != 1:
        if report:
            undecodable_param(rep, "X-Goog-Date is in the query (%s)" % k, c)
        return None
    d = pct_decode(v[0])
    if d is None and report:
        undecodable(rep, "X-Goog-Date decodes (%s)" % k, v[0])
    return d


def lifetime(run, E):
    return sub(run.inp["expires"], E)


def c07(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["query"]):
            continue
        v = c.param("X-Goog-Expires")
        if not v or len(v) != 1:
            undecodable_param(rep, "X-Goog-Expires is in the query (%s)" % k, c)
            continue
        d = pct_decode(v[0])
        dp = date_param(rep, k, c, run, False)
        E, ns = instant(acc(run), d if d is not None else v[0])
        life = lifetime(run, E)
        want = bind(life, lambda x: S.fdec(divfloor(x, NS)))
        rep.eq("X-Goog-Expires is the whole number of seconds from accessible_at to expires (%s)" % k, d if d is not None else v[0], want, c.pc)
        inr = member(life, WEEK)
        rep.implied("the lifetime is at least 0 and at most 604800 whole seconds (%s)" % k, c.pc, inr,
                    "a URL is returned with a lifetime outside 0..=604800", loc(d if d is not None else v[0]),
                    lambda v: contains(v, run.inp["expires"]) and v.op not in ("okp", "jkind"))
        # no lifetime in that range is refused for its length
        for var in cvars(inr):
            if var in cvars(c.pc) and var.op != "disc":
                br = band(c.pc, bnot(bnot(inr)))
                for dset in (0, 1):
                    b = cond(disc(acc(run)), s_point(dset))
                    if project(band(inr, b), var) is None or band(inr, b) is FALSE:
                        continue
                    if var not in cvars(band(inr, b)):
                        continue
                    got = project(band(c.pc, b), var)
                    need = project(band(inr, b), var)
                    miss = s_minus(need, got) if got is not None else ()
                    rep.ob("every lifetime of 0..=604800 whole seconds is accepted (%s, accessible_at %s)" % (k, "given" if dset else "absent"),
                           s_empty(miss), "refused: %s ns" % TM.show_set(miss), loc(c.query))


def c08(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["query", "M"]):
            continue
        d = date_param(rep, k, c, run)
        if d is None:
            continue
        one_instant(rep, k, c, run, d, run.inp["accessible_at"])
        E, ns = instant(acc(run), d)
        sec = divfloor(E, NS)
        if len(c.mlines) == 4:
            rep.eq("timestamp line of the signed text is the same date-time (%s)" % k, c.mlines[1], d, c.pc)
            first = lines(str_parts(c.mlines[2]), "/")[0]
            rep.eq("date in the signed credential scope is the date of that instant (%s)" % k, first, date_of(sec), c.pc)
        else:
            undecodable(rep, "signed text has its four lines (%s)" % k, c.M)
        v = c.param("X-Goog-Credential")
        if v and len(v) == 1 and pct_decode(v[0]) is not None:
            ls = lines(str_parts(pct_decode(v[0])), "/")
            if len(ls) >= 2:
                rep.eq("date in X-Goog-Credential is the date of that instant (%s)" % k, ls[1], date_of(sec), c.pc)
        v = c.param("X-Goog-Expires")
        if v and len(v) == 1:
            other = [n for n in nows(restrict(v[0], c.pc)) if n not in ns]
            rep.ob("the lifetime is measured from the same instant (%s)" % k, not other,
                   "another clock reading is used", loc(v[0]), opaque(v[0]))
        bounds_clock(rep, k, c, run, ns, run.inp["expires"])


def bounds_clock(rep, k, c, run, ns, end):
    """conditions on the end instant use no second clock reading"""
    bad = [v for v in cvars(c.pc) if v.op == "lin" and contains(v, end) and any(n not in ns for n in nows(v))]
    rep.ob("the lifetime limits are tested against the same instant (%s)" % k, not bad,
           "tested: %s" % (short(bad[0]) if bad else ""), loc(bad[0]) if bad else None)


def one_instant(rep, k, c, run, d, a, extra=()):
    E, ns = instant(a, d)
    care_none = band(c.pc, cond(disc(a), s_point(0)))
    if care_none is not FALSE:
        rep.ob("one reading of the clock (%s)" % k, len(ns) == 1, "%d clock readings in %s" % (len(ns), short(d)), loc(d), opaque(d))
    sec = divfloor(E, NS)
    rep.eq("request date-time is that of accessible_at, or of one clock reading (%s)" % k, d, datetime_of(sec), c.pc)


def c11(C, rep):
    for k, run, c in each_case(C, rep):
        d = date_param(rep, k, c, run) if shape(rep, k, c, ["query"]) else None
        if d is None:
            continue
        a = acc(run)
        p = payload(a, SYSRANGE)
        given = cond(disc(a), s_point(1))
        care = band(c.pc, given)
        rep.implied("accessible_at outside 1970..9999 is refused (%s)" % k, c.pc, bor(bnot(given), member(p, MINMAX)),
                    "a URL is returned for an out-of-range accessible_at", loc(d), lambda v: contains(v, a) and v.op not in ("okp", "jkind"))
        rep.eq("the timestamp is the instant given, cut to whole seconds (%s)" % k, d, datetime_of(divfloor(p, NS)), care)


# ---------------------------------------------------------------- C09
METHODS = ["DELETE", "GET", "HEAD", "POST", "PUT"]


def c09(C, rep):
    for k, run, c in each_case(C, rep):
        m = run.inp["http_method"]
        rep.implied("only the five methods are signed (%s)" % k, c.pc, str_in(m, SS(True, METHODS)),
                    "a URL is returned for another method", None, lambda v: contains(v, m) and v.op not in ("okp", "jkind"))
        got = project(c.pc, m)
        if isinstance(got, SS) and got.pos:
            miss = sorted(set(METHODS) - got.s)
            rep.ob("all five methods are accepted (%s)" % k, not miss, "refused: %s" % miss)
        if not shape(rep, k, c, ["CR"]):
            continue
        rep.eq("the method in the canonical request is the one requested (%s)" % k, c.clines[0], m, c.pc)


# ---------------------------------------------------------------- C10
def email_terms(run):
    """(responses to the account request, component paths of the account in the cache)"""
    emails = set()
    for e in run.allev:
        if e.kind == "http":
            q = e.d[0]
            if q.op == "adt" and q.a[2] is lit("GET") and ends_lit(q.a[3], "/email"):
                emails.add(mk("body", e.d[1]))
    idx = set()
    for e in run.allev:
        if e.kind == "cellwrite":
            v = e.d[1]
            for l in leaves(v):
                if l.op == "adt" and l.a[0] == OPT and l.a[1] == 1:
                    idx.update(p for p, x in flat(l.a[2]) if strip(x) in emails)
    return emails, idx


def ends_lit(t, s):
    ps = str_parts(t)
    return bool(ps) and ps[-1].op == "lit" and ps[-1].a[0].endswith(s)


def account(rep, k, run, t, care, name):
    """t is the account of the key"""
    if k == "sa":
        return rep.eq(name, t, mk("in", "client_email"), care)
    emails, idx = email_terms(run)
    bad = []
    n = 0
    t = norm(t, care)
    for l in leaves(t):
        n += 1
        if l in emails:
            continue
        cp = cellpath(l)
        if cp is not None and cp[1] in idx:
            continue
        bad.append(l)
    return rep.ob(name, not bad and n > 0, "account is %s" % (short(bad[0]) if bad else "?"), loc(bad[0]) if bad else None,
                  bool(bad) and opaque(bad[0]))


def credential(rep, k, run, t, care, scope_inp, what):
    """t (decoded) is account/DATE/REGION/storage/goog4_request"""
    ps = cut(str_parts(t), "/")
    if ps is None:
        undecodable(rep, "%s is account/scope (%s)" % (what, k), t)
        return None
    a, rest = ps
    account(rep, k, run, a, care, "%s names the key's own account (%s)" % (what, k))
    ls = lines(str_parts(rest), "/")
    E, ns = instant(scope_inp["accessible_at"], rest)
    sec = divfloor(E, NS)
    want = concat(date_of(sec), lit("/"), region_of(scope_inp["region"]), lit("/storage/goog4_request"))
    rep.eq("%s ends with DATE/REGION/storage/goog4_request (%s)" % (what, k), rest, want, care)
    return rest


def c10(C, rep):
    for k, run, c in each_case(C, rep):
        if not shape(rep, k, c, ["query", "M"]):
            continue
        v = c.param("X-Goog-Credential")
        if not v or len(v) != 1:
            undecodable_param(rep, "X-Goog-Credential is in the query (%s)" % k, c)
            continue
        d = pct_decode(v[0])
        if d is None:
            undecodable(rep, "X-Goog-Credential decodes (%s)" % k, v[0])
            continue
        rest = credential(rep, k, run, d, c.pc, run.inp, "X-Goog-Credential")
        if rest is not None and len(c.mlines) == 4:
            rep.eq("the scope in the signed text is the scope of the credential (%s)" % k, c.mlines[2], rest, c.pc)
    for k in ("sa", "bt"):
        run = C.form(k)
        for c in run.cases:
            v = c.value("x-goog-credential")
            if v is None:
                undecodable(rep, "x-goog-credential is in the form (%s)" % k, c.v)
                continue
            credential(rep, k, run, v, c.pc, run.opts, "x-goog-credential")
