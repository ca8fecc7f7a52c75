"""Builder, policy vocabulary, keys, whole-program obligations: C18-C20, C26, C27, C35-C39."""
from base import *
import url as U
import form as FM
from ext_serde import ser_any

STR = ("adt", "alloc::string::String", ())
SETTERS = [("acl", "s"), ("bucket", "s"), ("cache_control", "s"), ("content_disposition", "s"), ("content_encoding", "s"),
           ("content_length", "u64"), ("content_type", "s"), ("expires", "s"), ("key", "s"),
           ("policy_document_signing_options", "o"), ("success_action_redirect", "s"), ("success_action_status", "u16"),
           ("x_goog_custom_time", "s"), ("x_goog_meta", "m")]
FIXED = ["acl", "bucket", "Cache-Control", "Content-Disposition", "Content-Encoding", "Content-Length", "Content-Type", "Expires",
         "file", "key", "policy", "success_action_redirect", "success_action_status", "x-goog-algorithm", "x-goog-credential",
         "x-goog-custom-time", "x-goog-date", "x-goog-signature"]
FORMNAMES = [n for n, _, _ in FM.ORDER]
META = "x-goog-meta-"


def find_adt(F, *names):
    """local type by its last path components"""
    for name in names:
        r = [p for p, a in F.adts.items() if a["local"] and (p == CR + name or p.endswith("::" + name))]
        if len(r) == 1:
            return r[0]
    raise Missing(names[0])


def find_fn(F, *names):
    for name in names:
        r = [p for p, b in F.by_path.items() if p == CR + name or p.endswith("::" + name)]
        if len(r) == 1:
            return r[0]
    raise Missing(names[0])


def spn(F, span):
    """file:line of a span"""
    if not span:
        return None
    try:
        f = F.F["files"][span[0]]
        return "%s:%d" % (f if isinstance(f, str) else f.get("path", f), span[1])
    except Exception:
        return str(span)


def at(F, path):
    b = F.by_path.get(path)
    return "%s in %s" % (spn(F, b[0]["span"]), path) if b else path


def strin(R, name):
    return R.I.typed(mk("in", name), STR)


def generics(R, path, **over):
    return {g: over.get(g, STR) for g in R.body(path)["gen"]}


# ---------------------------------------------------------------- C18
def c18(C, rep):
    F = C.F
    seen = {}
    for name, kind in SETTERS:
        R = Run(F)
        path = FORM + "::" + name
        if path not in F.by_path:
            rep.unk("setter %s exists" % name, "function not found")
            continue
        where = "%s" % at(F, path)
        b = struct(R, FORM)
        if kind == "o":
            args = [R.inp("given", ("adt", POPT, ()))]
        elif kind == "m":
            args = [strin(R, "name"), strin(R, "value")]
        elif kind == "s":
            args = [strin(R, "given")]
        else:
            args = [R.inp("given", ("int", kind))]
        r = R.call(path, [b] + args, generics(R, path))
        rep.analysed["HtmlFormDataBuilder::" + name] = dict(blocks=len(R.I.visited))
        old = dict(leafs(F, b))
        if r.op != "adt" or r.a[0] != FORM:
            (rep.unk if opaque(r) else rep.bad)("%s returns the builder" % name, short(r), where)
            continue
        new = dict(leafs(F, r))
        if set(old) != set(new):
            rep.unk("%s returns the builder" % name, short(r), where)
            continue
        changed = [k for k in old if compare(new[k], old[k])]
        own = [k for k in old if k.split(".")[-1] == name]
        want = own[0] if len(own) == 1 else changed[0] if len(changed) == 1 else None
        if want is None:
            if not changed:
                rep.bad("%s sets its field" % name, "no field is changed", where)
            else:
                rep.bad("%s changes only its own field" % name, "changes " + ", ".join(changed), where)
            continue
        if kind == "m":
            exp = vec(*segs(old[want]), E(tup(*args)))
        else:
            exp = some(args[0])
        rep.eq("%s sets its field to the value given" % name if kind != "m" else "x_goog_meta appends the pair given",
               new[want], exp, TRUE, where)
        others = [k for k in changed if k != want]
        for k in others:
            ds = compare(new[k], old[k])
            (rep.bad if any(d.definite for d in ds) else rep.unk)(
                "%s leaves the other fields alone" % name, "changes %s: %r" % (k, ds[0]), loc(new[k]) or where)
        if not others:
            rep.ok("%s leaves the other fields alone" % name, where)
        if want in seen:
            rep.bad("%s has a field of its own" % name, "writes %s like %s" % (want, seen[want]), where)
        seen.setdefault(want, name)
    R = Run(F)
    news = [("HtmlFormData::builder()", R.call(FORMD + "::builder", []))]
    d = [p for p in F.by_path if p.startswith("<" + FORM + " as core::default::Default>::default")]
    if d:
        news.append(("HtmlFormDataBuilder::default()", Run(F).call(d[0], [])))
    for name, v in news:
        bad = [(k, x) for k, x in leafs(F, v) if not empty_value(x)]
        if v.op != "adt":
            rep.unk("%s has nothing set" % name, short(v))
        elif bad:
            rep.ob("%s has nothing set" % name, False, "%s is %s" % (bad[0][0], short(bad[0][1])), loc(bad[0][1]), opaque(bad[0][1]))
        else:
            rep.ok("%s has nothing set" % name)


def empty_value(x):
    return (x.op == "adt" and x.a[0] == OPT and x.a[1] == 0) or (x.op == "vec" and not x.a) or x is EMPTY


# ---------------------------------------------------------------- C19
def c19(C, rep):
    F = C.F
    # the documents that are really emitted
    for k, run, c in FM.each_form(C, rep):
        pd = FM.policy_doc(rep, k, c)
        if pd is None:
            continue
        ms = FM.members(norm(pd[1], c.pc))
        if ms is None:
            U.undecodable(rep, "policy document is an object (%s)" % k, pd[1])
            continue
        names = sorted(n for n, _ in ms)
        rep.ob("members are exactly conditions and expiration (%s)" % k, names == ["conditions", "expiration"], "members are %s" % names, loc(pd[1]))
        v = [x for n, x in ms if n == "conditions"]
        if len(v) == 1 and v[0].op == "jarr":
            n = 0
            for x in cond_items(vec(*nsegs(list(segs(v[0].a[0])), c.pc))):
                good = all(valid_condition(y) for y in ways(x, c.pc))
                n += 1
                rep.ob("condition %s has a form Cloud Storage reads (%s)" % (short(x, 3, 60), k), good, short(x), loc(x), opaque(x))
            rep.analysed["conditions[%s]" % k] = dict(conditions=n)
        else:
            U.undecodable(rep, "conditions is an array (%s)" % k, pd[1])
    # every kind of condition
    R = Run(F)
    try:
        cond_ty = find_adt(F, "policy_document::condition::Condition", "condition::Condition", "Condition")
        newf = find_fn(F, "policy_document::field::Field::new", "Field::new")
        newv = find_fn(F, "policy_document::value::Value::new", "Value::new")
    except Missing as m:
        rep.unk("serialisation of conditions", "not found: %s" % m)
        return
    vs = {v["name"]: i for i, v in enumerate(F.adts[cond_ty]["variants"])}
    name, value = strin(R, "name"), strin(R, "value")
    f = R.call(newf, [name], generics(R, newf))
    val = R.call(newv, [value], generics(R, newv))
    for vn, word in (("ExactMatching", "eq"), ("StartsWith", "starts-with")):
        if vn not in vs:
            rep.unk("%s conditions" % word, "no such variant")
            continue
        n = 0
        for pc, fv in ok_leaves(f):
            if fv is None:
                continue
            x = adt(cond_ty, vs[vn], fv, val)
            j = ser_any(R.M, R.st, x, ("adt", cond_ty, ()))
            n += 1
            rep.eq("%s condition is [\"%s\", \"$\"+name, value]" % (vn, word), j,
                   mk("jarr", vec(E(mk("jstr", lit(word))), E(mk("jstr", concat(lit("$"), name))), E(mk("jstr", value)))), pc)
        rep.ob("some %s condition exists" % vn, n > 0, "no field name is accepted")
    if "ContentLengthRange" in vs:
        lo, hi = R.inp("min", ("int", "u64")), R.inp("max", ("int", "u64"))
        j = ser_any(R.M, R.st, adt(cond_ty, vs["ContentLengthRange"], lo, hi), ("adt", cond_ty, ()))
        rep.eq("ContentLengthRange condition is [\"content-length-range\", min, max]", j,
               mk("jarr", vec(E(mk("jstr", lit("content-length-range"))), E(mk("jnum", lo)), E(mk("jnum", hi)))), TRUE)
    else:
        rep.unk("content-length-range conditions", "no such variant")
    # order of conditions
    try:
        pdt = find_adt(F, "policy_document::PolicyDocument", "PolicyDocument")
        doc = struct(R, pdt)
        j = ser_any(R.M, R.st, doc, ("adt", pdt, ()))
        ms = FM.members(j)
        cs = [x for n, x in ms or [] if n == "conditions"]
        fs = R.fields(pdt)
        if len(cs) == 1 and "conditions" in fs:
            src = doc.a[2 + fs.index("conditions")]
            g = segs(cs[0].a[0]) if cs[0].op == "jarr" else []
            inorder = len(g) == 1 and g[0][0] in ("each", "all") and g[0][1] is src
            if not inorder and len(g) == 1 and g[0][0] == "each":
                (rep.bad if not opaque(g[0][1]) or g[0][1].op in ("sorted", "rev") else rep.unk)(
                    "conditions keep their order", "written from %s" % short(g[0][1]), loc(cs[0]))
            else:
                rep.ob("conditions keep their order", inorder, short(cs[0]), loc(cs[0]), True)
        else:
            rep.unk("conditions keep their order", short(j))
    except Missing as m:
        rep.unk("conditions keep their order", "not found: %s" % m)


def cond_items(v):
    for g in segs(v):
        if g[0] == "e":
            yield g[1]
        elif g[0] == "alt":
            for l in leaves(g[1]):
                if l.op == "vec":
                    yield from cond_items(l)
                else:
                    yield l
        elif g[0] == "each":
            yield from cond_items(g[2])
        else:
            yield mk("unk", "conditions", *[x for x in g[1:] if isinstance(x, TM.T)])


def ways(x, care, n=0):
    """the values a JSON array can have, one for each way its choices can go"""
    x = norm(x, care)
    if x.op == "jarr":
        x = mk("jarr", vec(*[("e", mk("jstr", norm(g[1].a[0], care))) if g[0] == "e" and g[1].op == "jstr" else g
                             for g in nsegs(list(segs(x.a[0])), care)]))
    v = None
    if x.op == "sel":
        v = x
    elif x.op == "jarr":
        v = next((g[1] for g in segs(x.a[0]) if g[0] == "alt"), None)
        if v is None:
            v = next((g[1].a[0] for g in segs(x.a[0]) if g[0] == "e" and g[1].op == "jstr" and g[1].a[0].op == "sel"), None)
    if v is None or n > 12:
        yield x
        return
    var = TM.top(v)
    for reg in TM._regions(var, [v, care]):
        c = band(care, cond(var, reg))
        if c is not FALSE:
            yield from ways(x, c, n + 1)


def valid_condition(x):
    if x.op == "jobj":
        ms = segs(x.a[0])
        return len(ms) == 1 and ms[0][0] == "e" and ms[0][1].op == "tuple" and ms[0][1].a[1].op == "jstr" and False
    if x.op != "jarr":
        return False
    g = segs(x.a[0])
    if len(g) != 3 or any(h[0] != "e" for h in g):
        return False
    a, b, c = (h[1] for h in g)
    if a is mk("jstr", lit("content-length-range")):
        return b.op == "jnum" and c.op == "jnum"
    if a in (mk("jstr", lit("eq")), mk("jstr", lit("starts-with"))):
        return b.op == "jstr" and c.op == "jstr" and all(str_parts(l)[:1] and str_parts(l)[0].op == "lit" and
                                                        str_parts(l)[0].a[0][:1] == "$" for l in leaves(b.a[0]))
    return False


# ---------------------------------------------------------------- C20
def c20(C, rep):
    F = C.F
    try:
        newf = find_fn(F, "policy_document::field::Field::new", "Field::new")
        fty = find_adt(F, "policy_document::field::Field", "Field")
        cond_ty = find_adt(F, "policy_document::condition::Condition", "condition::Condition", "Condition")
        newv = find_fn(F, "policy_document::value::Value::new", "Value::new")
    except Missing as m:
        rep.unk("policy vocabulary", "not found: %s" % m)
        return
    FT = ("adt", fty, ())
    where = at(F, newf)
    # each fixed name, and any name with the x-goog-meta- prefix
    for n in FIXED:
        R = Run(F)
        r = R.call(newf, [lit(n)], generics(R, newf))
        acc = okpc(r)
        if rep.ob("%s is accepted" % n, acc is TRUE, "the name is rejected", where, opaque(acc)):
            for pc, v in ok_leaves(r):
                printed(rep, R, v, FT, lit(n), pc, n, where, r)
    R = Run(F)
    suffix = strin(R, "suffix")
    full = concat(lit(META), suffix)
    r = R.call(newf, [full], generics(R, newf))
    acc = okpc(r)
    rep.ob("any x-goog-meta- name with a non-empty suffix is accepted", implies(bnot(is_empty(suffix)), acc),
           "rejected: " + short(band(bnot(is_empty(suffix)), bnot(acc)), 6), where, any(opaque(v) for v in cvars(acc)))
    rep.ob("x-goog-meta- without a suffix is rejected", implies(acc, bnot(is_empty(suffix))), "accepted", where,
           any(opaque(v) for v in cvars(acc)))
    for pc, v in ok_leaves(r):
        printed(rep, R, v, FT, full, pc, "x-goog-meta-*", where, r)
    # any name at all
    R = Run(F)
    name = strin(R, "name")
    r = R.call(newf, [name], generics(R, newf))
    rep.analysed["Field::new"] = dict(results=len(list(leaves(r))), names=len(FIXED) + 2)
    acc = okpc(r)
    known = S.starts_with(name, lit(META))
    for n in FIXED:
        known = bor(known, eq_str(name, lit(n)))
    hard = any(opaque(v) or has_op(v, {"strlen", "len", "blen"}) for v in cvars(acc))
    rep.ob("every other name is rejected", implies(acc, known), "accepted: " + short(band(acc, bnot(known)), 6), where, hard)
    for pc, v in ok_leaves(r):
        printed(rep, R, v, FT, name, pc, "an accepted name", where, r)
    # names used by the builder
    used = set()
    for k in ("sa", "bt"):
        for c in C.form(k).cases:
            for g in c.segs or []:
                used |= set(FM.names_in(g))
    for n in sorted(used):
        rep.implied("the form field %s is in the vocabulary" % n, eq_str(name, lit(n)), acc, "rejected", where)
    rep.ob("the form builder's field names were found", len(used) >= 10, "%d found" % len(used), None, True)
    # reading conditions back
    CT = ("adt", cond_ty, ())
    value = strin(R, "value")
    A = jarr3("eq", name, value)
    S_ = jarr3("starts-with", name, value)
    O = mk("jobj", vec(E(tup(name, mk("jstr", value)))))
    da, ds, do = (R.M.de(R.st, CT, x) for x in (A, S_, O))
    rep.analysed["Condition::deserialize"] = dict(results=sum(len(list(leaves(x))) for x in (da, ds, do)))
    oka, okb = okpc(da), okpc(do)
    if opaque(da) and not ok_leaves(da):
        rep.unk("reading conditions", short(da))
        return
    noCL = bnot(eq_str(name, lit("Content-Length")))
    for lab, d in (("exact match", da), ("prefix match", ds), ("object spelling", do)):
        op = okpc(d)
        rep.implied("Content-Length is refused as %s field" % lab, op, noCL, "accepted")
        rep.ob("every other known field is read as %s" % lab, implies(band(acc, noCL), op), "refused: " + short(band(band(acc, noCL), bnot(op)), 6),
               None, any(opaque(v) for v in cvars(op)))
        rep.ob("unknown fields are refused as %s" % lab, implies(op, acc), "accepted: " + short(band(op, bnot(acc)), 6),
               None, any(opaque(v) for v in cvars(op)))
    # the array spelling names the field with a leading dollar sign
    field, word = strin(R, "field"), strin(R, "word")
    raw = lambda w, f: R.M.de(R.st, CT, mk("jarr", vec(E(mk("jstr", w)), E(mk("jstr", f)), E(mk("jstr", value)))))
    for w in ("eq", "starts-with"):
        op = okpc(raw(lit(w), field))
        rep.implied("a field without a leading $ is refused in %s conditions" % w, op, S.starts_with(field, lit("$")), "accepted")
    op = okpc(raw(word, concat(lit("$"), name)))
    rep.implied("no other kind of condition is read", op, member(word, SS(True, ["eq", "starts-with", "content-length-range"])), "accepted")
    both = band(oka, okb)
    for p1, x in ok_leaves(da):
        for p2, y in ok_leaves(do):
            care = band(p1, p2)
            if care is FALSE or x is None or y is None:
                continue
            rep.eq("array and object spelling give the same condition", x, y, care)
    # what is read is what was written
    for lab, d, w in (("eq", da, A), ("starts-with", ds, S_)):
        for pc, x in ok_leaves(d):
            if x is None:
                rep.unk("reading back an %s condition" % lab, short(d))
                continue
            j = ser_any(R.M, R.st, x, CT)
            rep.eq("reading a written %s condition gives it back" % lab, j, w, pc)
    lo, hi = R.inp("min", ("int", "u64")), R.inp("max", ("int", "u64"))
    L = mk("jarr", vec(E(mk("jstr", lit("content-length-range"))), E(mk("jnum", lo)), E(mk("jnum", hi))))
    d = R.M.de(R.st, CT, L)
    rep.ob("a length condition is always read", okpc(d) is TRUE, "refused: " + short(bnot(okpc(d)), 6), None, opaque(okpc(d)))
    for pc, x in ok_leaves(d):
        if x is not None:
            rep.eq("reading a written length condition gives it back", ser_any(R.M, R.st, x, CT), L, pc)


def jarr3(word, name, value):
    return mk("jarr", vec(E(mk("jstr", lit(word))), E(mk("jstr", concat(lit("$"), name))), E(mk("jstr", value))))


def printed(rep, R, v, FT, want, pc, lab, where, r):
    if v is None:
        rep.unk("%s prints back unchanged" % lab, short(r), where)
        return
    t = R.M.display(R.st, v, FT, "Display", 0, None)
    if t is None:
        rep.unk("%s prints back unchanged" % lab, "Display of the field is not understood", where)
    else:
        rep.eq("%s prints back unchanged" % lab, t, want, pc, where)


# ---------------------------------------------------------------- C26 / C37
def holders(F):
    """exported types that hold a signing key, directly or not"""
    hold = {KEY}
    grown = True
    while grown:
        grown = False
        for p, a in F.adts.items():
            if p in hold or not a["local"]:
                continue
            for v in a["variants"]:
                for f in v["fields"]:
                    t = F.ty(f["t"], {}) if True else None
                    if mentions_ty(t, hold):
                        hold.add(p)
                        grown = True
    return hold


def mentions_ty(t, ps):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "adt" and t[1] in ps:
            return True
        return any(mentions_ty(x, ps) for x in t)
    return False


def queries(F):
    q = F.F["queries"]
    return q


def c26(C, rep):
    F = C.F
    hold = holders(F)
    n = 0
    for q in queries(F):
        if q["what"] != "adt" or q["path"] not in hold or not q["exported"]:
            continue
        n += 1
        bad = [t for t in q["impls"] if t.startswith("core::fmt::") or t.endswith("::Serialize")]
        for t in bad:
            rep.bad("%s cannot be printed or serialised" % q["path"].split("::")[-1], "implements %s" % t, spn(F, q["span"]))
        if not bad:
            rep.ok("%s implements no formatting or serialisation trait" % q["path"].split("::")[-1], spn(F, q["span"]))
        # conversions to text are printing by another name
        for im in F.F["impls"]:
            s = im.get("self")
            if s is None or im.get("trait") is None:
                continue
            t = F.ty(s, {})
            while t[0] == "ref":
                t = t[2]
            if t[0] == "adt" and t[1] == q["path"] and im["trait"] in (
                    "core::convert::AsRef", "core::ops::deref::Deref", "core::borrow::Borrow", "alloc::string::ToString",
                    "core::fmt::Pointer") or (t[0] == "adt" and t[1] == q["path"] and im["trait"].startswith("serde")
                                              and im["trait"].endswith("Serialize")):
                rep.bad("%s cannot be printed or serialised" % q["path"].split("::")[-1], "implements %s" % im["trait"], spn(F, im.get("span")))
    rep.analysed["types holding a signing key"] = dict(types=n, traits_asked=len(F.F["query_traits"]))
    if not any(o[0].startswith("SigningKey") for o in rep.obs):
        rep.unk("SigningKey is analysed", "type not found")


def c37(C, rep):
    F = C.F
    hold = holders(F)
    SS = ("core::marker::Send", "core::marker::Sync")
    n = 0
    for q in queries(F):
        where = spn(F, q["span"])
        last = q["path"].split("::")[-1]
        if q["what"] == "adt" and q["exported"] and (q["path"] in hold or q["path"] in (KEY, FORM, FORMD, POPT, URLOPT)):
            n += 1
            for t in SS:
                rep.ob("%s is %s" % (last, t.split("::")[-1]), t in q["impls"], "%s is not %s" % (q["path"], t), where)
        if q["what"] == "ret" and q["exported"] and (q.get("async") or future_ret(q)):
            n += 1
            rep.ob("the future of %s is Send" % last, SS[0] in q["impls"], "the future returned by %s is not Send" % q["path"], where)
    rep.analysed["Send/Sync queries"] = dict(queries=n)
    for p in (URL, FORM + "::build"):
        if not any(q["what"] == "ret" and q["path"] == p for q in queries(F)):
            rep.unk("the future of %s is Send" % p, "function not found")


def future_ret(q):
    return any(t.endswith("Future") for t in q["impls"])


# ---------------------------------------------------------------- C27
def c27(C, rep):
    F = C.F
    R = Run(F)
    fs = KEY + "::service_account_from_str"
    fp = KEY + "::service_account_from_path"
    text = strin(R, "text")
    r = R.call(fs, [text], generics(R, fs))
    rep.analysed["SigningKey::service_account_from_str"] = dict(results=len(list(leaves(r))), unknown=len(R.I.unknown))
    strict(rep, R, r, text, "service_account_from_str", fs)
    R2 = Run(F)
    path = strin(R2, "path")
    f = mk("file", path)
    r2 = R2.call(fp, [path], generics(R2, fp))
    rep.analysed["SigningKey::service_account_from_path"] = dict(results=len(list(leaves(r2))), unknown=len(R2.I.unknown))
    strict(rep, R2, r2, mk("text", f), "service_account_from_path", fp, f)


def strict(rep, R, r, text, lab, fn, file=None):
    F = R.F
    j = mk("json", text)
    ce, pk = lit("client_email"), lit("private_key")
    need = R.M.okp("jvalid", j)
    for c in [TM.jkis("obj", j)] + [c for n in (ce, pk) for c in (R.M.okp("jhasm", j, n), TM.jkis("str", mk("jm", j, n)))]:
        need = band(need, c)
    got = okpc(r)
    where = at(F, fn)
    if not ok_leaves(r):
        rep.ob("%s returns a key" % lab, False, "never returns a key", where, opaque(r))
        return
    vars_ = cvars(need)
    for v in vars_:
        if v.op == "jkind":
            what = "a top-level value that is no object" if v.a[0] is j else "a %s that is no string" % v.a[0].a[1].a[0]
            need_ = TM.jkis("obj" if v.a[0] is j else "str", v.a[0])
        else:
            what = "invalid JSON" if v.a[0] == "jvalid" else "a missing %s" % v.a[2].a[0]
            need_ = truth(v)
        rep.implied("%s: %s is refused" % (lab, what), got, need_, "accepted although it is %s" % what, where)
    io = TRUE
    extra = []
    for v in cvars(got):
        if v in vars_:
            continue
        if file is not None and v.op == "okp" and v.a[0] in ("open", "read", "readb", "utf8") and (v.a[1] is file or v.a[0] == "open" or v.a[1] is text):
            io = band(io, truth(v))
        else:
            extra.append(v)
    if file is not None:
        opened = [v for v in cvars(io)]
        rep.ob("%s reads the file at the path given" % lab, bool(opened) and implies(got, io), "does not depend on reading the file", where, opaque(got))
    for v in extra:
        if implies(band(need, io), got):
            break
        (rep.unk if opaque(v) or v.op not in ("okp", "jkind", "jstrv", "jintv") and not known_json(v) else rep.bad)(
            "%s: nothing else is required" % lab, "also depends on " + short(v), loc(v) or where)
    if implies(band(need, io), got):
        rep.ok("%s: valid service account JSON is always accepted" % lab, where)
    elif not extra:
        rep.bad("%s: valid service account JSON is always accepted" % lab, "refused when " + short(band(band(need, io), bnot(got)), 6), where)
    want = R.call(KEY + "::service_account", [mk("jstrv", mk("jm", j, ce)), mk("jstrv", mk("jm", j, pk))])
    for pc, v in ok_leaves(r):
        if v is None:
            rep.unk("%s: account and key" % lab, short(r), where)
            continue
        rep.eq("%s: the account is client_email and the key is private_key, unchanged" % lab, v, want, pc, where)


def known_json(v):
    return has_op(v, {"json"}) and not opaque(v)


# ---------------------------------------------------------------- all runs
def all_runs(C):
    """every public entry point with its runs: (label, Interp, events, result)"""
    F = C.F
    out = []
    for k in KINDS:
        run = C.url(k)
        out.append(("build_signed_url[%s]" % k, run.r.I, run.allev, run.ret))
    for k in (None,) + KINDS:
        run = C.form(k)
        out.append(("HtmlFormDataBuilder::build[%s]" % FM.nm(k), run.r.I, run.allev, run.ret))
    out += C.get("small", lambda: small_runs(F))
    return out


def small_runs(F):
    """the remaining public functions"""
    out = []
    done = {URL, FORM + "::build"}
    for p, bs in sorted(F.by_path.items()):
        b = bs[0]
        if not b["exported"] or b["kind"] not in ("Fn", "AssocFn") or p in done or b["from_expansion"]:
            continue
        R = Run(F)
        sub = generics(R, p)
        B = F.body(b["id"])
        try:
            args = []
            for i in range(1, B.argc + 1):
                t = F.ty(B.locals[i][0], sub)
                v = R.inp("arg%d" % i, t)
                args.append(R.ref(v) if t[0] == "ref" else v)
            r = R.call(p, args, sub)
            if b["async"]:
                r = R.await_(r)
            out.append((p.replace(CR, ""), R.I, R.I.ev, r))
        except Missing as m:
            out.append((p.replace(CR, ""), None, [], None))
    return out


# ---------------------------------------------------------------- C35
PANICKY = ("core::panicking::", "std::panicking::", "core::option::Option::unwrap", "core::option::Option::expect",
           "core::result::Result::unwrap", "core::result::Result::expect", "core::option::unwrap_failed", "core::option::expect_failed",
           "std::process::abort", "std::process::exit", "core::intrinsics::abort")
NOT_PANICKY = ("unwrap_or", "unwrap_or_else", "unwrap_or_default", "expect_err_never")


def c35(C, rep):
    F = C.F
    visited = set()
    for lab, I, ev, ret in all_runs(C):
        if I is None:
            rep.unk("%s never panics" % lab, "could not be analysed")
            continue
        visited |= set(I.visited)
        ps = [e for e in ev if e.kind == "panic"]
        rep.analysed[lab] = dict(functions=len(I.visited), blocks=sum(len(v) for v in I.visited.values()), calls=len(I.callsites))
        if not ps:
            rep.ok("%s never panics" % lab)
        done = set()
        for e in ps:
            key = (e.d[0], e.where())
            if key in done:
                continue
            done.add(key)
            op = opaque(e.pc) or any(opaque(x) for x in e.d[1:] if isinstance(x, TM.T))
            if op and not reachable_sure(e.pc):
                rep.unk("%s never panics" % lab, "%s, when %s" % (e.d[0], short(e.pc, 6)), e.where())
            else:
                rep.bad("%s never panics" % lab, "%s, when %s" % (e.d[0], short(e.pc, 6)), e.where())
    # public functions the runs do not enter (derived implementations): no instruction of theirs can panic
    n = 0
    for p, bs in sorted(F.by_path.items()):
        for b in bs:
            if not b["exported"] or b["kind"] not in ("Fn", "AssocFn") or b["id"] in visited:
                continue
            n += 1
            bad = panics_in(F, b)
            if bad:
                rep.unk("%s contains nothing that panics" % p.replace(CR, ""), bad[0], bad[1])
            else:
                rep.ok("%s contains nothing that panics" % p.replace(CR, ""))
    rep.analysed["derived public functions"] = dict(functions=n)


def reachable_sure(pc):
    """the condition can hold whatever the values not understood are"""
    c = pc
    for v in cvars(pc):
        if opaque(v):
            return False
    return True


def panics_in(F, b):
    B = F.body(b["id"])
    for bl in B.blocks:
        t = bl["t"]
        if t[0] == "assert":
            return ("assertion %s" % (t[3][0],), str(b["path"]))
        if t[0] == "call":
            n = callee(F, t)
            if n and any(n.startswith(p) for p in PANICKY) and not n.split("::")[-1].startswith("unwrap_or"):
                return ("call of " + n, str(b["path"]))
    return None


def callee(F, t):
    f = t[1]
    if f[0] == "c":
        ti = f[1]
        try:
            ty = F.T[f[1]["t"]] if isinstance(f[1], dict) and "t" in f[1] else None
            return ty["f"]["path"] if ty and "f" in ty else None
        except Exception:
            return None
    return None


# ---------------------------------------------------------------- C36
def c36(C, rep):
    n = 0
    for lab, I, ev, ret in all_runs(C):
        if I is None or ret is None:
            continue
        good = okpc(ret)
        if not ok_leaves(ret):
            continue
        fs = [e for e in ev if e.kind == "fail"]
        rep.analysed[lab] = dict(fallible_steps=len(fs))
        held = held_regions(ev)
        inst = elementwise(good)
        bad = 0
        done = set()
        for e in fs:
            n += 1
            if e.d[0] == "duration_since" and e.seq in held:
                # a cached expiry in the past makes the token invalid: it is refetched, which C29 decides
                continue
            both = band(e.pc, good)
            if both is FALSE or band(both, inst) is FALSE or impossible(both, good):
                continue
            key = (e.d[0], e.where())
            if key in done:
                continue
            done.add(key)
            bad += 1
            op = any(opaque(v) for v in cvars(both))
            (rep.unk if op else rep.bad)("%s: every step that failed makes it fail" % lab,
                                         "a result is returned although this step failed: %s (when %s)" % (e.d[0], short(both, 6)), e.where())
        if not bad:
            rep.ok("%s: a result is returned only if all %d fallible steps succeeded" % (lab, len(fs)))
    rep.ob("fallible steps were found", n >= 20, "only %d" % n, None, True)


def elementwise(good):
    """what a condition over all elements says about the one an event speaks of"""
    out = TRUE
    for v in cvars(good):
        if v.op == "any" and implies(good, bnot(truth(v))):
            out = band(out, bnot(v.a[1]))
    return out


def impossible(both, good):
    """no element can be one that failed: all that could make it so are excluded by the result"""
    none = {}
    for v in cvars(good):
        if v.op == "any" and implies(good, bnot(truth(v))):
            none[v.a[0]] = bor(none.get(v.a[0], FALSE), v.a[1])
    c = both
    for v in cvars(both):
        if v.op == "any" and v.a[0] in none and implies(v.a[1], none[v.a[0]]):
            c = band(c, bnot(truth(v)))
    return c is FALSE


def held_regions(ev):
    """sequence numbers of events inside a region that holds a lock"""
    out = set()
    lo = None
    locks = [e for e in ev if e.kind in ("lock", "unlock")]
    if not locks:
        return out
    a = min((e.seq for e in locks if e.kind == "lock"), default=None)
    b = max((e.seq for e in locks if e.kind == "unlock"), default=None)
    for e in ev:
        if a is not None and a < e.seq and (b is None or e.seq < b):
            out.add(e.seq)
    return out


# ---------------------------------------------------------------- C38
import re
BLOCKING = [(re.compile(r), w) for r, w in [
    (r"std::thread::(?:\w+::)*(sleep|sleep_ms|sleep_until|park|park_timeout|yield_now)$", "blocks or spins the thread"),
    (r"std::thread::(?:\w+::)*(JoinHandle|ScopedJoinHandle)::join$", "waits for a thread"),
    (r"std::thread::(?:\w+::)*scope$", "waits for threads"),
    (r"std::(?:fs|net|os::unix::net)::", "blocking file or network I/O"),
    (r"(?:<std::(?:fs|net)::.*> as )?(?:std|alloc|core)::io::(?:\w+::)*(Read|Write|BufRead|Seek)::(?!write_fmt|write_all)", "blocking I/O"),
    (r"std::process::Command|std::process::Child|std::process::(?:\w+::)*(output|status|wait)", "blocking process I/O"),
    (r"std::io::(?:\w+::)*(stdin|read_to_string|copy)$", "blocking I/O"),
    (r"std::sync::(?:\w+::)*(Condvar::wait\w*|Barrier::wait|Receiver::(recv|recv_timeout|iter)|SyncSender::send)$", "blocking wait"),
    (r"parking_lot|lock_api::", "blocking lock"),
    (r"reqwest::blocking::", "blocking network I/O"),
    (r".*::block_on$", "drives a future on the executor thread"),
    (r"tokio::(?:\w+::)*blocking_(lock|read|write|recv|send|lock_owned|read_owned|write_owned)$", "blocking wait"),
    (r"tokio::(?:\w+::)*block_in_place$", "blocks the thread"),
    (r"libc::|std::sys::", "system call"),
]]


def c38(C, rep):
    n = 0
    for k in KINDS:
        one38(rep, "build_signed_url[%s]" % k, C.url(k))
    for k in (None,) + KINDS:
        one38(rep, "HtmlFormDataBuilder::build[%s]" % FM.nm(k), C.form(k))


def one38(rep, lab, run):
    I = run.r.I
    bad = 0
    calls = [k for k in I.extcalls if I.extcalls[k]]
    rep.analysed[lab] = dict(calls=len(calls), functions=len(I.visited))
    # building the key is not part of the operation
    done = set()
    for (rp, p, cur), stack in I.extcalls.items():
        if not stack or not (stack[0].startswith(URL) or stack[0].startswith(FORM + "::build")):
            continue
        for rx, what in BLOCKING:
            if rx.match(rp) or rx.match(p):
                key = (rp, str(cur))
                if key not in done:
                    done.add(key)
                    bad += 1
                    rep.bad("%s never blocks the thread" % lab, "%s: %s" % (rp, what), "%s in %s" % (fmtspan(cur) if cur else "?", stack[-1]))
                break
    for e in run.ev:
        if e.kind == "lock" and e.d[1] not in ("async",):
            bad += 1
            rep.bad("%s never blocks the thread" % lab, "takes a blocking lock (%s)" % (e.d[1],), e.where())
        elif e.kind in ("fs", "sys"):
            key = ("ev", e.where())
            if key not in done:
                done.add(key)
                bad += 1
                rep.bad("%s never blocks the thread" % lab, "blocking system access: %s" % short(e.d[0]) if isinstance(e.d[0], TM.T) else "blocking system access: %s" % (e.d[0],), e.where())
    if not bad:
        rep.ok("%s makes no blocking call" % lab)


# ---------------------------------------------------------------- C39
def c39(C, rep):
    F = C.F
    try:
        ct = find_adt(F, "credential_scope::CredentialScope", "CredentialScope")
        st = find_adt(F, "service::Service", "Service")
        rt = find_adt(F, "request_type::RequestType", "RequestType")
        new = find_fn(F, ct[len(CR):] + "::new")
    except Missing as m:
        rep.unk("credential scopes", "not found: %s" % m)
        return
    sv = {v["name"]: i for i, v in enumerate(F.adts[st]["variants"])}
    rv = {v["name"]: i for i, v in enumerate(F.adts[rt]["variants"])}
    R = Run(F)
    names = {}
    for ty, vs in ((st, sv), (rt, rv)):
        for n, i in vs.items():
            t = R.M.display(R.st, adt(ty, i), ("adt", ty, ()), "Display", 0, None)
            names[(ty, n)] = t
    want = {(st, "Storage"): "storage", (st, "S3"): "s3", (rt, "Goog4Request"): "goog4_request", (rt, "Aws4Request"): "aws4_request"}
    for k, w in want.items():
        if k not in names:
            rep.unk("%s prints as %s" % (k[1], w), "no such variant")
        elif names[k] is None:
            rep.unk("%s prints as %s" % (k[1], w), "Display is not understood")
        else:
            rep.eq("%s prints as its protocol name %s" % (k[1], w), names[k], lit(w))
    B = F.body(R.body(new)["id"])
    n = 0
    for s, i in sv.items():
        for q, j in rv.items():
            R = Run(F)
            args = []
            for a in range(1, B.argc + 1):
                t = F.ty(B.locals[a][0], {})
                while t[0] == "ref":
                    t = t[2]
                if t[0] == "adt" and t[1] == st:
                    args.append(adt(st, i))
                elif t[0] == "adt" and t[1] == rt:
                    args.append(adt(rt, j))
                else:
                    args.append(R.inp("arg%d" % a, t))
            r = R.call(new, args)
            n += 1
            good = (s, q) in (("Storage", "Goog4Request"), ("S3", "Aws4Request"))
            c = okpc(r)
            where = at(F, new)
            if good:
                rep.ob("%s with %s is accepted" % (s, q), c is TRUE, "refused", where, opaque(c))
                for pc, v in ok_leaves(r):
                    if v is None:
                        continue
                    t = R.M.display(R.st, v, ("adt", ct, ()), "Display", 0, None)
                    if t is None:
                        rep.unk("scope of %s with %s names both" % (s, q), "Display is not understood", where)
                        continue
                    ls = lines(str_parts(t), "/")
                    tail = [x for x in ls[-2:]]
                    rep.ob("scope of %s with %s ends in %s/%s" % (s, q, want[(st, s)], want[(rt, q)]),
                           tail == [lit(want[(st, s)]), lit(want[(rt, q)])], "prints %s" % short(t), where, opaque(t))
            else:
                rep.ob("%s with %s is an error" % (s, q), c is FALSE, "accepted", where, opaque(c))
    rep.analysed["CredentialScope::new"] = dict(pairs=n)
    # every scope in use is made by that constructor: no other place builds one
    for p, bs in F.by_path.items():
        for b in bs:
            if builds(F, b, ct) and p != new and not b["from_expansion"]:
                rep.unk("scopes are made only by CredentialScope::new", "%s builds one" % p, p)
    # the scopes really used
    for k in ("sa", "bt"):
        for what in ("url", "form"):
            run = C.url(k) if what == "url" else C.form(k)
            rep.analysed["%s[%s]" % (what, k)] = dict(results=len(run.oks))
            for c in run.cases:
                v = None
                if what == "url":
                    ps = c.param("X-Goog-Credential")
                    if ps:
                        v = pct_decode(ps[0])
                else:
                    v = c.value("x-goog-credential")
                if v is None:
                    U.undecodable(rep, "credential of the %s (%s)" % (what, k), c.u if what == "url" else c.v)
                    continue
                ls = lines(str_parts(norm(v, c.pc)), "/")
                rep.ob("the %s uses storage with goog4_request (%s)" % (what, k), ls[-2:] == [lit("storage"), lit("goog4_request")],
                       short(v), loc(v), opaque(v))


def builds(F, b, ct):
    B = F.body(b["id"])
    for bl in B.blocks:
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], dict) and s[2][1].get("k") == "adt" and s[2][1].get("path") == ct:
                return True
    return False
