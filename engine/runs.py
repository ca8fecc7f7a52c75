"""The runs every check reads: each public entry point, analysed once per kind of signing key."""
from entry import *
from entry import Missing

URL = CR + "signed_url::build_signed_url"
URLOPT = CR + "signed_url::BuildSignedUrlOptions"
KEY = CR + "signing_key::SigningKey"
FORM = CR + "html_form_data::HtmlFormDataBuilder"
FORMD = CR + "html_form_data::HtmlFormData"
POPT = CR + "html_form_data::PolicyDocumentSigningOptions"
KINDS = ("sa", "bt", "hmac")


class Result:
    def __init__(self, R, ret, inputs, **kw):
        self.R = R
        self.I = R.I
        self.ret = ret
        self.inp = inputs
        self.ev = R.I.ev
        self.unknown = R.I.unknown
        self.__dict__.update(kw)


def make_key(R, kind):
    """a signing key of the given kind, built by its public constructor from arbitrary texts"""
    if kind == "sa":
        return R.call(KEY + "::service_account", [mk("in", "client_email"), mk("in", "private_key")])
    if kind == "hmac":
        return R.call(KEY + "::hmac", [mk("in", "access_id"), mk("in", "secret")])
    k = R.call(KEY + "::bound_token", [])
    # signing may happen at any time after creation, when the cache holds anything that was stored before
    for key in R.M.celltype:
        R.M.havocked[key] = 1
    R.mark = len(R.I.ev)
    return k


def struct(R, path, **over):
    """arbitrary value of a local struct, some fields given"""
    a = R.F.adts.get(path)
    if not a:
        raise Missing(path)
    names = R.fields(path)
    for n in over:
        if n not in names:
            raise Missing(path + "." + n)
    fs = []
    for f in a["variants"][0]["fields"]:
        n = f["name"]
        fs.append(over[n] if n in over else R.inp(n, R.F.ty(f["t"], {})))
    return adt(path, 0, *fs)


def run_url(F, kind):
    R = Run(F)
    R.mark = 0
    key = make_key(R, kind)
    o = struct(R, URLOPT, signing_key=key)
    fut = R.call(URL, [o])
    ret = R.await_(fut)
    return Result(R, ret, dict(zip(R.fields(URLOPT), o.a[2:])), key=key, kind=kind, mark=R.mark)


SETTERS = ("acl", "bucket", "cache_control", "content_disposition", "content_encoding", "content_length", "content_type", "expires",
           "key", "policy_document_signing_options", "success_action_redirect", "success_action_status", "x_goog_custom_time",
           "x_goog_meta")


def leafs(F, v, pre=""):
    """[(field path, value)] of a local struct, nested local structs taken apart"""
    if v.op == "adt" and v.a[0].startswith(CR):
        a = F.adts.get(v.a[0])
        if a and a["kind"] == "struct" and (not pre or v.a[0] not in (KEY, POPT)):
            names = [str(f["name"]) for f in a["variants"][0]["fields"]]
            out = []
            for n, x in zip(names, v.a[2:]):
                out += leafs(F, x, pre + ("." if pre else "") + n)
            return out
    return [(pre, v)]


def setpath(F, v, path, new, pre=""):
    """the struct v with the field at a path of leafs() replaced"""
    if pre == path:
        return new
    a = F.adts.get(v.a[0]) if v.op == "adt" else None
    if a and a["kind"] == "struct":
        names = [str(f["name"]) for f in a["variants"][0]["fields"]]
        xs = []
        for n, x in zip(names, v.a[2:]):
            q = pre + ("." if pre else "") + n
            xs.append(setpath(F, x, path, new, q) if path == q or path.startswith(q + ".") else x)
        return adt(v.a[0], v.a[1], *xs)
    return v


_bmap = {}


def builder_map(F):
    """setter -> path of the field it writes; the field named after it if there is one"""
    if id(F) in _bmap:
        return _bmap[id(F)]
    R = Run(F)
    b = struct(R, FORM)
    old = dict(leafs(F, b))
    out = {}
    for n in SETTERS:
        own = [k for k in old if k.split(".")[-1] == n]
        if len(own) == 1:
            out[n] = own[0]
            continue
        path = FORM + "::" + n
        R = Run(F)
        B = F.body(R.body(path)["id"])
        sub = {g: ("adt", "alloc::string::String", ()) for g in R.body(path)["gen"]}
        args = [R.inp("given%d" % i, F.ty(B.locals[i][0], sub)) for i in range(2, B.argc + 1)]
        r = R.call(path, [b] + args, sub)
        new = dict(leafs(F, r))
        ch = [k for k in old if new.get(k) is not old[k]]
        if len(ch) != 1:
            raise Missing("field of " + n)
        out[n] = ch[0]
    _bmap[id(F)] = out
    return out


def run_form(F, kind):
    """kind None: no signing options"""
    R = Run(F)
    R.mark = 0
    key = None
    if kind is None:
        po = NONE
        opts = {}
    else:
        key = make_key(R, kind)
        p = struct(R, POPT, signing_key=key)
        opts = dict(zip(R.fields(POPT), p.a[2:]))
        po = some(p)
    bm = builder_map(F)
    b = setpath(F, struct(R, FORM), bm["policy_document_signing_options"], po)
    fut = R.call(FORM + "::build", [b])
    ret = R.await_(fut)
    fs = dict(leafs(F, b))
    d = {n: fs[k] for n, k in bm.items()}
    return Result(R, ret, d, opts=opts, key=key, kind=kind, mark=R.mark)
