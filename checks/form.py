"""Forms: C12-C17 (and the form side of C08, C10, C11, C21, C22, C24, C28)."""
from base import *
import url as U

SIGN = ["policy", "x-goog-algorithm", "x-goog-credential", "x-goog-date", "x-goog-signature"]
# documented order: (name, builder field, kind)
ORDER = [("acl", "acl", "s"), ("bucket", "bucket", "s"), ("Cache-Control", "cache_control", "s"),
         ("Content-Disposition", "content_disposition", "s"), ("Content-Encoding", "content_encoding", "s"),
         ("Content-Length", "content_length", "u64"), ("Content-Type", "content_type", "s"), ("Expires", "expires", "s"),
         ("key", "key", "s"), ("policy", None, None), ("success_action_redirect", "success_action_redirect", "s"),
         ("success_action_status", "success_action_status", "u16"), ("x-goog-algorithm", None, None),
         ("x-goog-credential", None, None), ("x-goog-custom-time", "x_goog_custom_time", "s"), ("x-goog-date", None, None),
         ("x-goog-signature", None, None)]
RNG = {"u64": (0, (1 << 64) - 1), "u16": (0, (1 << 16) - 1)}


def fval(run, f, kind):
    """text of a set field"""
    o = run.inp[f]
    if kind == "s":
        return payload(o)
    return S.fdec(payload(o, RNG[kind]))


def opt_pair(run, f, name, v):
    return ("alt", opt_case(run.inp[f], VNIL, vec(E(tup(lit(name), v)))))


def meta_pairs(run):
    m = run.inp["x_goog_meta"]
    e = elem(m)
    return ("each", m, vec(E(tup(concat(lit("x-goog-meta-"), tup_field(e, 0)), tup_field(e, 1)))))


def each_form(C, rep, kinds=("sa", "bt")):
    n = 0
    for k in kinds:
        run = C.form(k)
        rep.analysed["HtmlFormDataBuilder::build[%s]" % (k or "unsigned")] = dict(results=len(run.oks), events=len(run.ev))
        for c in run.cases:
            n += 1
            if c.seq is None:
                rep.unk("form value (%s)" % (k or "unsigned"), "result is not understood: " + (short(c.v) if c.v is not None else "?"))
                continue
            yield k, run, c
    if not n:
        rep.bad("a form is returned", "HtmlFormDataBuilder::build never returns a form")


def nm(k):
    return k or "unsigned"


def policy_doc(rep, k, c, name="policy document"):
    """(policy text, members) of the policy field: padded base64 of JSON"""
    p = c.value("policy")
    if p is None:
        U.undecodable(rep, "%s is in the form (%s)" % (name, k), c.v)
        return None
    p = norm(p, c.pc)
    j = None
    if p.op == "b64" and p.a[1] == "STANDARD":
        b = S.frombytes(p.a[0]) if p.a[0].op != "jbytes" else p.a[0]
        j = b
    if j is not None and j.op == "jtext":
        return p, j.a[0]
    U.undecodable(rep, "policy is the standard padded base64 of the JSON document (%s)" % k, p)
    return None


def members(j):
    """members of a JSON object term as a list of (name, value), or None"""
    if j.op != "jobj":
        return None
    out = []
    for g in segs(j.a[0]):
        if g[0] != "e" or g[1].op != "tuple":
            return None
        n = g[1].a[0]
        if n.op != "lit":
            return None
        out.append((n.a[0], g[1].a[1]))
    return out


def conditions(rep, k, c):
    pd = policy_doc(rep, k, c)
    if pd is None:
        return None
    ms = members(pd[1])
    if ms is None:
        U.undecodable(rep, "policy document is an object (%s)" % k, pd[1])
        return None
    d = [v for n, v in ms if n == "conditions"]
    if len(d) != 1 or d[0].op != "jarr":
        U.undecodable(rep, "policy document has a conditions array (%s)" % k, pd[1])
        return None
    return d[0].a[0]


def jcond(name, v):
    return mk("jarr", vec(E(mk("jstr", lit("eq"))), E(mk("jstr", concat(lit("$"), name))), E(mk("jstr", v))))


# ---------------------------------------------------------------- C12
def c12(C, rep):
    for k, run, c in each_form(C, rep):
        cs = conditions(rep, k, c)
        if cs is None:
            continue
        want = []

        def pair_cond(p):
            """condition(s) demanded by one emitted field"""
            n, v = p.a
            if n.op == "lit" and n.a[0] in ("policy", "x-goog-signature"):
                return VNIL
            if n.op == "lit" and n.a[0] == "Content-Length":
                num = number_of(v)
                if num is None:
                    return vec(E(mk("jarr", vec(E(mk("jstr", lit("content-length-range"))), E(mk("jnumtext", v)), E(mk("jnumtext", v))))))
                return vec(E(mk("jarr", vec(E(mk("jstr", lit("content-length-range"))), E(mk("jnum", num)), E(mk("jnum", num))))))
            return vec(E(jcond(n, v)))
        odd = []

        def seg_cond(v):
            out = []
            for g in segs(v):
                if g[0] == "e" and g[1].op == "tuple" and len(g[1].a) == 2:
                    out += segs(pair_cond(g[1]))
                elif g[0] == "alt":
                    out.append(("alt", bind(g[1], lambda y: vec(*seg_cond(y)))))
                elif g[0] in ("each", "all"):
                    b = g[2] if g[0] == "each" else vec(E(elem(g[1])))
                    out.append(("each", g[1], vec(*seg_cond(b))))
                else:
                    odd.append(g)
            return out
        for g in c.segs:
            want += seg_cond(vec(g)) if g[0] != "alt" else [("alt", bind(g[1], lambda y: vec(*seg_cond(y))))]
        if odd:
            U.undecodable(rep, "form fields (%s)" % k, vec(*odd))
            continue
        have = nsegs(list(segs(cs)), c.pc)
        want = nsegs(want, c.pc)
        match(rep, k, have, want, c)


def number_of(v):
    """integer whose decimal text v is"""
    if v.op == "dec":
        return v.a[0]
    if v.op == "lit" and v.a[0].isdigit():
        return INT(int(v.a[0]))
    return None


def match(rep, k, have, want, c):
    rest = list(have)
    missing = []
    for w in want:
        for i, h in enumerate(rest):
            if h == w or (h[0] == w[0] and not cmp_seg(h, w, c.pc, ())) or \
                    (("alt" in (h[0], w[0])) and not cmp_seq([h], [w], c.pc, ())):
                del rest[i]
                rep.ok("condition for %s (%s)" % (segname(w), k), loc(vec(h)))
                break
        else:
            missing.append(w)
    for w in missing:
        twin = [h for h in rest if segname(h) == segname(w)]
        op = opaque(vec(w)) or any(opaque(vec(h)) for h in rest)
        what = "no condition with the value submitted for %s" % segname(w)
        if twin:
            ds = cmp_seq([twin[0]], [w], c.pc, ())
            if ds:
                what = "condition and form field differ for %s: %r" % (segname(w), ds[0])
                op = not any(d.definite for d in ds)
            rest.remove(twin[0])
        (rep.unk if op else rep.bad)("condition for %s (%s)" % (segname(w), k), what, loc(vec(twin[0])) if twin else loc(vec(w)))
    for h in rest:
        (rep.unk if opaque(vec(h)) else rep.bad)("no other conditions (%s)" % k, "condition without a matching field: %s" % short(vec(h)), loc(vec(h)))
    if not rest:
        rep.ok("no other conditions (%s)" % k)


def segname(g):
    for x in subterms(g[1:] if g[0] != "each" else g[2:]):
        if x.op == "lit" and x.a[0][:1] == "$":
            return x.a[0]
        if x.op == "lit" and x.a[0] == "content-length-range":
            return "Content-Length"
    return short(vec(g), 4, 80)


# ---------------------------------------------------------------- C13
def c13(C, rep):
    for k, run, c in each_form(C, rep, (None, "sa", "bt")):
        want = []
        for name, f, kind in ORDER:
            if f is None:
                ns = [g for g in c.segs if name in names_in(g)]
                want += ns[:1]
            else:
                want.append(opt_pair(run, f, name, fval(run, f, kind)))
        want.append(meta_pairs(run))
        have = list(c.segs)
        # one field at a time for a precise report
        hw = nsegs(have, c.pc)
        ww = nsegs(want, c.pc)
        ds = cmp_seq(hw, ww, c.pc, ())
        if not ds:
            for g in want:
                rep.ok("%s emitted exactly as set, in its place (%s)" % ("/".join(names_in(g)) or "x-goog-meta-*", nm(k)), loc(vec(g)))
            continue
        sure = [d for d in ds if d.definite]
        d = (sure or ds)[0]
        (rep.bad if sure else rep.unk)("form fields are exactly those set, in the documented order (%s)" % nm(k), repr(d), loc(d.a) or loc(d.b))


def names_in(g):
    out = []
    if g[0] == "e":
        if g[1].op == "tuple" and g[1].a[0].op == "lit":
            out.append(g[1].a[0].a[0])
    elif g[0] == "alt":
        for l in leaves(g[1]):
            for h in segs(l):
                for n in names_in(h):
                    if n not in out:
                        out.append(n)
    return out


# ---------------------------------------------------------------- C14
def c14(C, rep):
    for k, run, c in each_form(C, rep):
        pd = policy_doc(rep, k, c)
        if pd is None:
            continue
        p, doc = pd
        s = c.value("x-goog-signature")
        if s is None:
            U.undecodable(rep, "x-goog-signature is in the form (%s)" % k, c.v)
            continue
        s = norm(s, c.pc)
        U.hexsig(rep, k, s, c.pc)
        m, how, _ = run.message(s)
        if m is None:
            U.undecodable(rep, "x-goog-signature is made by signing (%s)" % k, s)
        else:
            rep.eq("the signed text is exactly the emitted policy (%s)" % k, m, p, c.pc)
            good = (k == "sa" and how == "local") or (k == "bt" and how == "signBlob")
            rep.ob("the signature is made with the given key (%s)" % k, good, "made by %s" % how, loc(s))
            if how == "local" and k == "sa":
                rep.ob("the key is the caller's private key (%s)" % k, contains(s, mk("in", "private_key")), short(s), loc(s), opaque(s))
        ms = members(doc)
        if ms is None:
            U.undecodable(rep, "policy document is an object (%s)" % k, doc)
            continue
        cs = conditions(rep, k, c)
        if cs is None:
            continue
        for n in ("x-goog-algorithm", "x-goog-credential", "x-goog-date"):
            v = c.value(n)
            inside = [g[1].a[0] for g in segs(cs) if g[0] == "e" and g[1].op == "jarr" and len(segs(g[1].a[0])) == 3
                      and all(h[0] == "e" for h in segs(g[1].a[0])) and segs(g[1].a[0])[1][1] is mk("jstr", lit("$" + n))]
            if v is None or len(inside) != 1:
                U.undecodable(rep, "%s in the form and in the policy (%s)" % (n, k), vec(*[g for g in segs(cs)]))
                continue
            x = segs(inside[0])[2][1]
            rep.eq("%s of the form equals that in the policy (%s)" % (n, k), x, mk("jstr", v), c.pc)


# ---------------------------------------------------------------- C15
def c15(C, rep):
    for k, run, c in each_form(C, rep):
        exp = run.opts["expiration"]
        a = run.opts["accessible_at"]
        d = c.value("x-goog-date")
        pd = policy_doc(rep, k, c)
        if pd is not None:
            ms = members(pd[1])
            v = [x for n, x in ms or [] if n == "expiration"]
            if len(v) != 1:
                U.undecodable(rep, "policy document has one expiration (%s)" % k, pd[1])
            else:
                rep.eq("the policy's expiration is the requested instant in UTC, cut to seconds (%s)" % k, v[0],
                       mk("jstr", iso_of(divfloor(exp, NS))), c.pc)
        for dset, name in ((1, "accessible_at"), (0, "the current time")):
            br = cond(disc(a), s_point(dset))
            care = band(c.pc, br)
            if care is FALSE:
                continue
            if dset:
                rep.implied("an expiration not strictly after %s is refused (%s)" % (name, k), care,
                            member(sub(exp, payload(a, SYSRANGE)), ((1, POS),)),
                            "a form is returned although it has already expired", None, lambda v: contains(v, exp) and v.op not in ("okp", "jkind"))
            else:
                # against the one clock reading used for the date
                ns = nows(d) if d is not None else []
                cand = ns or nows(care)
                good = [n for n in cand if implies(care, member(sub(exp, n), ((1, POS),)))]
                if good:
                    rep.ok("an expiration not strictly after %s is refused (%s)" % (name, k))
                else:
                    rep.bad("an expiration not strictly after %s is refused (%s)" % (name, k),
                            "a form is returned although it has already expired")
        # nothing is signed for an expired form
        for e in run.ev:
            if e.kind in ("rsasign",) or (e.kind == "http" and e.d[0].op == "adt" and e.d[0].a[2] is lit("POST")):
                care = band(e.pc, cond(disc(a), s_point(1)))
                if care is FALSE:
                    continue
                rep.implied("nothing is signed unless the expiration is in the future (%s)" % k, care,
                            member(sub(exp, payload(a, SYSRANGE)), ((1, POS),)), "signing happens for an expired form", e.where(),
                            lambda v: contains(v, exp) and v.op not in ("okp", "jkind"))


# ---------------------------------------------------------------- C16
def c16(C, rep):
    for k in (None, "sa", "bt"):
        run = C.form(k)
        rep.analysed["HtmlFormDataBuilder::build[%s]" % nm(k)] = dict(results=len(run.oks))
        i = run.inp
        key = cond(disc(i["key"]), s_point(1))
        bucket = cond(disc(i["bucket"]), s_point(1))
        m = i["x_goog_meta"]
        empty = any_of(m, is_empty(tup_field(elem(m), 0)))
        pc = run.okpc
        rel = lambda t: (lambda v: contains(v, t) and v.op not in ("okp", "jkind"))
        rep.implied("a form without a key is refused (%s)" % nm(k), pc, key, "a form is returned without key", None, rel(i["key"]))
        rep.implied("an empty x-goog-meta name is refused (%s)" % nm(k), pc, bnot(empty), "a form is returned with an empty x-goog-meta name",
                    None, rel(m))
        if k:
            rep.implied("a signed form without a bucket is refused (%s)" % nm(k), pc, bucket, "a form is signed without bucket", None, rel(i["bucket"]))
        need = band(key, bnot(empty))
        if k:
            need = band(need, bucket)
        # nothing else about the fields makes it fail
        bad = []
        for v in cvars(pc):
            if v.op in ("okp", "jkind") or has_op(v, {"resp"}):
                continue
            for f, t in i.items():
                if f in ("policy_document_signing_options",):
                    continue
                if contains(v, t) and v not in cvars(need):
                    bad.append((f, v))
        if k is None:
            rep.ob("nothing else makes an unsigned form fail", implies(need, pc), "still refused: " + short(band(need, bnot(pc)), 6), None, opaque(pc))
        for f, v in bad:
            (rep.unk if opaque(v) else rep.bad)("no other field value makes the form fail (%s)" % nm(k), "depends on %s: %s" % (f, short(v)), loc(v))
        if not bad:
            rep.ok("no other field value makes the form fail (%s)" % nm(k))
        # conditions on the mandatory parts are exactly those
        for v in cvars(need):
            g, w = project(pc, v), project(need, v)
            if g != w and g is not None and w is not None and not s_empty(s_minus(w, g)):
                rep.bad("no other field value makes the form fail (%s)" % nm(k), "refused: %s" % short(v), loc(v))


# ---------------------------------------------------------------- C17
def c17(C, rep):
    for k, run, c in each_form(C, rep, (None, "sa", "bt")):
        for n in SIGN:
            got = c.named(n)
            dyn = [g for g in c.segs if g[0] in ("all",) or (g[0] == "each" and opaque(vec(g)))]
            if k is None:
                rep.ob("%s is absent from an unsigned form" % n, not got, "%s is emitted" % n, loc(got[0][1]) if got else None)
            else:
                good = len(got) == 1 and implies(c.pc, got[0][0])
                rep.ob("%s is in the signed form exactly once (%s)" % (n, k), good,
                       "emitted %d times%s" % (len(got), "" if not got or good else ", only when " + short(got[0][0])),
                       loc(got[0][1]) if got else loc(c.v), bool(dyn) and not got and opaque(c.v))
    # the unsigned result never comes from signing options
    run = C.form("hmac")
    rep.analysed["HtmlFormDataBuilder::build[hmac]"] = dict(results=len(run.oks))
    for pc, v in run.oks:
        rep.bad("a form that was to be signed is never returned unsigned (hmac)", "a form is returned: " + short(v) if v is not None else "?", loc(v))
    if not run.oks:
        rep.ok("a form that was to be signed is never returned unsigned (hmac)")


# ---------------------------------------------------------------- C08 / C10 / C11 / C21 on forms
def dates(C, rep):
    """C08 for forms"""
    for k, run, c in each_form(C, rep):
        d = c.value("x-goog-date")
        if d is None:
            U.undecodable(rep, "x-goog-date is in the form (%s)" % k, c.v)
            continue
        d = norm(d, c.pc)
        U.one_instant(rep, k, c, run, d, run.opts["accessible_at"])
        E_, ns = instant(run.opts["accessible_at"], d)
        sec = divfloor(E_, NS)
        v = c.value("x-goog-credential")
        if v is not None:
            ls = lines(str_parts(v), "/")
            if len(ls) >= 2:
                rep.eq("date in x-goog-credential is the date of that instant (%s)" % k, ls[1], date_of(sec), c.pc)
        pd = policy_doc(rep, k, c)
        if pd is not None:
            exp = run.opts["expiration"]
            odd = [t for t in strf_args(pd[1]) if not contains(t, exp) and compare(t, sec, c.pc)]
            rep.ob("the policy uses the same date and time (%s)" % k, not odd, "another time is used: %s" % (short(odd[0]) if odd else ""),
                   loc(odd[0]) if odd else None, bool(odd) and opaque(odd[0]))
            cs = conditions(rep, k, c)
            if cs is not None:
                for n in ("x-goog-date", "x-goog-credential"):
                    fv = c.value(n)
                    ins = [segs(g[1].a[0])[2][1] for g in segs(cs) if g[0] == "e" and g[1].op == "jarr" and len(segs(g[1].a[0])) == 3
                           and segs(g[1].a[0])[1][1] is mk("jstr", lit("$" + n))]
                    if fv is not None and len(ins) == 1:
                        rep.eq("%s in the policy is the same text (%s)" % (n, k), ins[0], mk("jstr", fv), c.pc)
        U.bounds_clock(rep, k, c, run, ns, run.opts["expiration"])


def ranges(C, rep):
    """C11 for forms"""
    for k, run, c in each_form(C, rep):
        a = run.opts["accessible_at"]
        exp = run.opts["expiration"]
        p = payload(a, SYSRANGE)
        given = cond(disc(a), s_point(1))
        rep.implied("accessible_at outside 1970..9999 is refused (form, %s)" % k, c.pc, bor(bnot(given), member(p, U.MINMAX)),
                    "a form is returned for an out-of-range accessible_at", None, lambda v: contains(v, a) and v.op not in ("okp", "jkind"))
        rep.implied("expiration outside 1970..9999 is refused (form, %s)" % k, c.pc, member(exp, U.MINMAX),
                    "a form is returned for an out-of-range expiration", None, lambda v: contains(v, exp) and v.op not in ("okp", "jkind"))
        d = c.value("x-goog-date")
        if d is not None:
            rep.eq("x-goog-date is the instant given, cut to whole seconds (%s)" % k, d, datetime_of(divfloor(p, NS)), band(c.pc, given))
        pd = policy_doc(rep, k, c)
        if pd is not None:
            v = [x for n, x in members(pd[1]) or [] if n == "expiration"]
            if len(v) == 1:
                rep.eq("the expiration is the instant given, cut to whole seconds (%s)" % k, v[0], mk("jstr", iso_of(divfloor(exp, NS))), c.pc)
