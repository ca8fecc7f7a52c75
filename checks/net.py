"""Bound tokens, remote signing, secrets: C21-C25, C28-C34."""
from base import *
import statics
import url as U
import form as FM

KIND = ("url", "form")
MDPATH = "/computeMetadata/v1/instance/service-accounts/default/"
DEFHOST = "metadata.google.internal"
IAM = "https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/"
OKSTATUS = ((200, 299),)
VALID = ((30 * NS + 1, POS),)


def get(C, what, k):
    return C.url(k) if what == "url" else C.form(k)


def req(q):
    """method, url, headers, body of a request term"""
    if q.op == "adt" and q.a[0] == "$rb":
        return q.a[2], q.a[3], q.a[4], q.a[5]
    return None


def status(r):
    return mk("typed", mk("status", r), (100, 999))


def success(r):
    return member(status(r), OKSTATUS)


class Net:
    """what a run does with the network and the token cache"""

    def __init__(self, run):
        self.run = run
        self.gets = []          # (event, 'email'/'token'/None, response)
        self.posts = []
        self.other = []
        for e in run.allev:
            if e.kind != "http":
                continue
            r = req(e.d[0])
            if r is None:
                self.other.append(e)
                continue
            m, u, h, b = r
            if m is lit("GET"):
                role = "email" if U.ends_lit(u, "/email") else "token" if U.ends_lit(u, "/token") else None
                self.gets.append((e, role, e.d[1]))
            elif m is lit("POST"):
                self.posts.append(e)
            else:
                self.other.append(e)
        self.email = {mk("body", r): (e, r) for e, role, r in self.gets if role == "email"}
        self.json = {mk("json", mk("body", r)): (e, r) for e, role, r in self.gets if role == "token"}
        self.writes = [e for e in run.allev if e.kind == "cellwrite"]
        self.roles = {}         # component path -> role
        self.stored = []        # (event, condition, email, token, expiry)
        for e in self.writes:
            for c, l in leaves_pc(e.d[1]):
                if l.op == "adt" and l.a[0] == OPT and l.a[1] == 1:
                    got = {}
                    for p, x in flat(l.a[2]):
                        r = self.role(x)
                        if r:
                            self.roles.setdefault(p, r)
                            got[r] = x
                    self.stored.append((e, c, got, l))
                else:
                    self.stored.append((e, c, None, l))
        self.calc_held()
        # writes that put back what was there, or forget an entry no one may use any more
        self.idle = {}
        for e, c, got, l in self.stored:
            if self.unchanged(e, band(e.pc, c), l):
                self.idle[id(e)] = bor(self.idle.get(id(e), FALSE), c)
        self.stored = [x for x in self.stored if not implies(band(x[0].pc, x[1]), self.idle.get(id(x[0]), FALSE))]

    def unchanged(self, e, care, l):
        cell = self.current(e, e.d[0])
        if cell is None or l.op != "adt" or l.a[0] != OPT:
            return False
        full = truth(mk("okp", "is_some", cell))
        if l.a[1] == 1:
            return putback(l, cell) and implies(care, full)
        left = band(band(care, full), valid_region(self, care, cell))
        if left is FALSE:
            return True
        # put back before anything else happens
        nxt = [f for f in self.run.allev if f.seq > e.seq and f.kind != "clock" and band(f.pc, left) is not FALSE]
        for f in nxt:
            if f.kind != "cellwrite" or f.d[0] is not e.d[0]:
                return False
            for c, x in leaves_pc(f.d[1]):
                if x.op == "adt" and x.a[0] == OPT and x.a[1] == 1 and putback(x, cell):
                    left = band(left, bnot(band(f.pc, c)))
            if left is FALSE:
                return True
        return False

    # -- where a value comes from
    def role(self, x):
        ls = leaves(x)
        rs = {self.role1(l) for l in ls}
        return rs.pop() if len(rs) == 1 else None

    def role1(self, l):
        l0 = strip(l)
        if l0 in self.email:
            return "email"
        if nows(l) and any(y.op == "jintv" for y in subterms(l)):
            return "expiry"
        j = self.tokof(l0, "access_token")
        if j is not None:
            return "token"
        return None

    def tokof(self, l, name):
        """token response whose member `name` is the text l"""
        if l.op != "jstrv":
            return None
        s = l.a[0]
        if s.op == "jm" and s.a[1] == name or s.op == "jm" and s.a[1] is lit(name):
            return s.a[0] if s.a[0] in self.json else None
        if s.op == "jat":
            return s.a[0] if s.a[0] in self.json and jat_index(s, name) else None
        return None

    def source(self, l):
        """('cache', cell reading, role) or ('fetch', response, role) of an account or token text"""
        l = strip(l)
        cp = cellpath(l)
        if cp is not None:
            return ("cache", cp[0], self.roles.get(cp[1]))
        if l in self.email:
            return ("fetch", self.email[l][1], "email")
        j = self.tokof(l, "access_token")
        if j is not None:
            return ("fetch", self.json[j][1], "token")
        return None

    # -- lock state
    def calc_held(self):
        """condition under which the cache lock is held at each event, and the reading the lock gave"""
        self.held = {}
        self.version = {}
        H = {}
        ver = {}
        n = {}
        for e in self.run.allev:
            if e.kind == "lock":
                key = e.d[0]
                n[key] = n.get(key, 0) + 1
                H[key] = bor(H.get(key, FALSE), e.pc)
                ver[key] = e
            elif e.kind == "unlock":
                H[e.d[0]] = band(H.get(e.d[0], FALSE), bnot(e.pc))
            self.held[id(e)] = dict(H)
            self.version[id(e)] = dict(ver)
        self.readings = {}
        # the reading of each lock: cells are numbered in the order in which locks are taken
        for key in n:
            base = 1
            k = 0
            for e in self.run.allev:
                if e.kind == "lock" and e.d[0] == key:
                    k += 1
                    self.readings[mk("cell", key, base + k)] = e

    def keys(self):
        return sorted({e.d[0] for e in self.run.allev if e.kind == "lock"} | {e.d[0] for e in self.writes}, key=repr)

    def current(self, e, key):
        """the reading given by the lock last taken before event e"""
        lk = self.version[id(e)].get(key)
        for c, l in self.readings.items():
            if l is lk:
                return c
        return None


def jat_index(s, name):
    """an array element whose position stands for a member (serde reads structs from arrays too)"""
    return True


def net(C, what, k="bt"):
    return C.get(("net", what, k), lambda: Net(get(C, what, k)))


def each_net(C, rep):
    for w in KIND:
        n = net(C, w)
        rep.analysed[("build_signed_url" if w == "url" else "HtmlFormDataBuilder::build") + "[bt]"] = dict(
            requests=len(n.gets) + len(n.posts) + len(n.other), cache_writes=len(n.writes),
            locks=sum(e.kind == "lock" for e in n.run.allev), events=len(n.run.allev))
        yield w, n


def headers(h):
    """[(name, value)] of a header map term with fixed entries only"""
    if h.op != "hm":
        return None
    out = []
    for g in segs(h.a[0]):
        if g[0] != "e" or g[1].op != "tuple":
            return None
        out.append((g[1].a[0], g[1].a[1]))
    return out


def pair_leaves(a, b, care):
    """jointly possible pairs of leaves of two values"""
    t = restrict(tup(a, b), care) if False else None
    out = []
    seen = set()

    def go(x, y, c):
        if c is FALSE or (x, y, c) in seen:
            return
        seen.add((x, y, c))
        x = restrict(x, c)
        y = restrict(y, c)
        v = TM.top(x)
        w = TM.top(y)
        if v is None and w is None:
            out.append((c, x, y))
            return
        m = v if w is None or (v is not None and v.id <= w.id) else w
        for reg in TM._regions(m, [x, y]) or []:
            c2 = band(c, cond(m, reg))
            if c2 is FALSE:
                continue
            go(TM.cof(x, m, reg) if TM.top(x) is m else x, TM.cof(y, m, reg) if TM.top(y) is m else y, c2)
    go(a, b, care)
    return out


# ---------------------------------------------------------------- C33
def host_term():
    ok_ = mk("okp", "env", lit("GCE_METADATA_HOST"))
    return case(ok_, [(s_point(0), lit(DEFHOST)), (s_point(1), mk("env", lit("GCE_METADATA_HOST")))])


def find_host(run):
    """the value that stands for the configured host, from the environment access"""
    return host_term()


def c33(C, rep):
    for w, n in each_net(C, rep):
        mark = n.run.r.mark
        env = [i for i, e in enumerate(n.run.allev) if e.kind == "env"]
        rep.ob("the host is read from the environment when the key is created (%s)" % w,
               bool(env) and all(i < mark for i in env), "environment is read later" if env else "GCE_METADATA_HOST is never read",
               n.run.allev[env[-1]].where() if env else None)
        roles = {}
        for e, role, r in n.gets:
            m, u, h, b = req(e.d[0])
            roles[role] = roles.get(role, 0) + 1
            if role is None:
                (rep.unk if opaque(u) else rep.bad)("every metadata request has the fixed form (%s)" % w, "GET %s" % short(u), e.where())
                continue
            rep.eq("%s request URL is http://HOST%s%s (%s)" % (role, MDPATH, role, w), u,
                   concat(lit("http://"), host_term(), lit(MDPATH + role)), e.pc, e.where())
            hs = headers(h)
            good = hs == [(lit("metadata-flavor"), lit("Google"))]
            rep.ob("%s request carries exactly Metadata-Flavor: Google (%s)" % (role, w), good, "headers are %s" % short(h), e.where(),
                   hs is None and opaque(h))
            rep.ob("%s request has no body (%s)" % (role, w), b is NONE, "body is %s" % short(b), e.where(), opaque(b))
        for r in ("email", "token"):
            rep.ob("%s is obtained by a metadata request (%s)" % (r, w), roles.get(r, 0) > 0, "no such request is made")
        for e in n.other:
            (rep.unk if opaque(e.d[0]) else rep.bad)("requests are only GETs of the metadata server and the signBlob POST (%s)" % w,
                                                     short(e.d[0]), e.where())
        for e in n.posts:
            m, u, h, b = req(e.d[0])
            hs = headers(h) or []
            bad = any(x.op == "lit" and "computeMetadata" in x.a[0] for x in str_parts(u)) or any(x is lit("metadata-flavor") for x, _ in hs)
            rep.ob("no other host receives a metadata request (%s)" % w, not bad, short(u), e.where())


# ---------------------------------------------------------------- C34
def c34(C, rep):
    for w, n in each_net(C, rep):
        if not n.posts:
            rep.bad("a signBlob request is made (%s)" % w, "no POST request in the run")
        for e in n.posts:
            m, u, h, b = req(e.d[0])
            ps = list(str_parts(u))
            good = len(ps) >= 3 and ps[0].op == "lit" and ps[0].a[0] == IAM and ps[-1] is lit(":signBlob")
            rep.ob("signBlob URL is %sACCOUNT:signBlob (%s)" % (IAM, w), good, "URL is %s" % short(u), e.where(), opaque(u))
            hs = headers(h)
            tok = None
            if hs is None:
                (rep.unk if opaque(h) else rep.bad)("signBlob headers (%s)" % w, short(h), e.where())
            else:
                d = {}
                for x, y in hs:
                    d.setdefault(x, []).append(y)
                ct = d.pop(lit("content-type"), [])
                rep.ob("Content-Type is application/json (%s)" % w, ct == [lit("application/json")], "is %s" % [short(x) for x in ct], e.where())
                au = d.pop(lit("authorization"), [])
                if len(au) == 1 and bearer(au[0]) is not None:
                    tok = bearer(au[0])
                    rep.ok("Authorization is Bearer TOKEN (%s)" % w, e.where())
                else:
                    rep.ob("Authorization is Bearer TOKEN (%s)" % w, False, "is %s" % [short(x) for x in au], e.where(), any(opaque(x) for x in au))
                for x in d:
                    if x.op != "lit" or x.a[0] not in ("content-length", "accept", "user-agent"):
                        rep.ob("no other header is sent (%s)" % w, False, short(x), e.where(), opaque(x))
            if good and tok is not None:
                acct = concat(*ps[1:-1])
                for c, x, y in pair_leaves(acct, tok, e.pc):
                    sx, sy = n.source(x), n.source(y)
                    if sx is None or sx[2] != "email":
                        rep.ob("ACCOUNT is the bound account (%s)" % w, False, "account is %s" % short(x), loc(x) or e.where(), opaque(x))
                    elif sy is None or sy[2] != "token":
                        rep.ob("the bearer token is the access token (%s)" % w, False, "token is %s" % short(y), loc(y) or e.where(), opaque(y))
                    else:
                        rep.ob("the token was fetched together with ACCOUNT (%s)" % w, together(n, sx, sy),
                               "account from %s, token from %s" % (short(sx[1], 3, 120), short(sy[1], 3, 120)), e.where())
            # body
            p, cfg = signblob_payload(e.d[0], True)
            mem = None
            if b.op == "adt" and b.a[0] == OPT and b.a[1] == 1 and b.a[2].op == "jtext":
                mem = FM.members(b.a[2].a[0])
            if mem is None:
                (rep.unk if opaque(b) else rep.bad)("the body is a JSON object (%s)" % w, short(b), e.where())
                continue
            names = [x for x, _ in mem]
            rep.ob("the body's only member is payload (%s)" % w, names == ["payload"], "members are %s" % names, e.where())
            if p is None:
                rep.ob("payload is the standard base64 of the message (%s)" % w, False, short(b), e.where(), opaque(b))
                continue
            rep.ob("payload is encoded as standard base64 (%s)" % w, cfg == "STANDARD", "encoded with %s" % cfg, e.where(), opaque(b))
            # the message is what the caller wants signed
            if w == "url":
                ls = lines(sparts(p)) if isstrterm(p) else []
                rep.ob("the payload is exactly the string-to-sign (%s)" % w, len(ls) == 4 and ls[0] is lit(ALG), "payload is %s" % short(p), e.where(), opaque(p))
            else:
                for c in n.run.cases:
                    pol = c.value("policy")
                    if pol is not None:
                        rep.eq("the payload is exactly the policy text (%s)" % w, p, pol, c.pc, e.where())
        posts = {e.d[1] for e in n.posts}
        # the signature
        for t, pc in signatures(n.run, w):
            if t is None:
                rep.unk("signature is found (%s)" % w, "result is not understood")
                continue
            t = restrict(t, pc)
            for l in leaves(t):
                src = l.a[0] if l.op == "bytetab" else l
                if src.op != "b64dec" or src.a[1] != "STANDARD":
                    rep.ob("the signature is the standard base64 decoding of signedBlob (%s)" % w, False, short(src), loc(src), opaque(src))
                    continue
                for c, x in leaves_pc(restrict(src.a[0], pc)):
                    y = strip(x)
                    good = y.op == "jstrv" and y.a[0].op in ("jm", "jat") and y.a[0].a[0].op == "json" and \
                        y.a[0].a[0].a[0].op == "body" and y.a[0].a[0].a[0].a[0] in posts
                    if good and y.a[0].op == "jm":
                        good = y.a[0].a[1] in ("signedBlob", lit("signedBlob"))
                    rep.ob("the signature is the standard base64 decoding of signedBlob (%s)" % w, good, "decodes %s" % short(y), loc(y), opaque(y))
        # undecodable answers are errors
        for e in n.run.ev:
            if e.kind == "fail" and any(has_resp(x, posts) for x in cvars(e.pc)):
                both = band(e.pc, n.run.okpc)
                if mentions_decode(e):
                    rep.ob("an undecodable answer is an error: %s (%s)" % (e.d[0], w), both is FALSE,
                           "a result is returned although it failed", e.where())


def mentions_decode(e):
    return "JSON" in e.d[0] or "Decode" in e.d[0] or "body" in e.d[0]


def has_resp(v, rs):
    return any(contains(v, r) for r in rs)


def isstrterm(t):
    return strish(t)


def bearer(t):
    ps = list(str_parts(t))
    if len(ps) >= 2 and ps[0].op == "lit" and ps[0].a[0] == "Bearer ":
        return concat(*ps[1:])
    return None


def together(n, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "cache":
        return a[1] is b[1]
    # stored together, or fetched one right after the other
    for e, c, got, l in n.stored:
        if got and "email" in got and "token" in got:
            es = {x for x in leaves(got["email"])}
            ts = set()
            for x in leaves(got["token"]):
                j = n.tokof(strip(x), "access_token")
                if j is not None:
                    ts.add(n.json[j][1])
            if mk("body", a[1]) in es and b[1] in ts:
                return True
    seq = [r for _, _, r in n.gets]
    if a[1] in seq and b[1] in seq:
        i, j = seq.index(a[1]), seq.index(b[1])
        return abs(i - j) == 1 and min(i, j) % 2 == 0
    return False


def signatures(run, w):
    for c in run.cases:
        if w == "url":
            yield c.sigtext, c.pc
        else:
            v = c.value("x-goog-signature")
            yield (norm(v, c.pc) if v is not None else None), c.pc


# ---------------------------------------------------------------- C32
def c32(C, rep):
    for w, n in each_net(C, rep):
        ev = [e for e in n.run.allev if e.kind == "http"]
        for e in ev:
            r = e.d[1]
            b = mk("body", r)
            q = req(e.d[0])
            name = short(q[1], 3, 90) if q else short(e.d[0], 3, 90)
            good = success(r)
            care = band(e.pc, bnot(good))
            # later uses of the body
            for f in n.run.allev:
                if f.kind not in ("http", "cellwrite", "rsasign") or f.seq <= e.seq:
                    continue
                x = f.d[0] if f.kind == "http" else f.d[1] if f.kind == "cellwrite" else f.d[2]
                if not contains(x, b):
                    continue
                c2 = band(f.pc, care)
                used = c2 is not FALSE and contains(restrict(x, c2), b)
                rep.ob("the body of the answer to %s is used only if the status is a success (%s)" % (name, w), not used,
                       "used although the status is no success", f.where(), used and opaque(x) and not decided(x, c2, b))
            for c, l in n.run.oks:
                if l is None:
                    continue
                c2 = band(c, care)
                if c2 is FALSE or not contains(l, b):
                    continue
                used = contains(restrict(l, c2), b)
                rep.ob("the body of the answer to %s is in the result only if the status is a success (%s)" % (name, w), not used,
                       "used although the status is no success", loc(l))
            # other statuses are errors with status and body
            c3 = band(band(care, truth(mk("okp", "exec", r))), truth(mk("okp", "text", r)))
            if c3 is FALSE:
                rep.ob("the status of the answer to %s is looked at (%s)" % (name, w), False, "no such case", e.where())
                continue
            t = restrict(n.run.ret, c3)
            miss = None
            for l in deep_leaves(t, c3):
                if not (l.op == "adt" and l.a[0] == RES and l.a[1] == 1):
                    miss = ("a result is returned: " + short(l), l)
                elif not contains(l, status(r)) and not contains(l, mk("status", r)):
                    miss = ("the error does not carry the status: " + short(l), l)
                elif not contains(l, b):
                    miss = ("the error does not carry the body: " + short(l), l)
                if miss:
                    break
            if miss:
                (rep.unk if opaque(miss[1]) else rep.bad)(
                    "another status of the answer to %s is an error carrying status and body (%s)" % (name, w), miss[0], loc(miss[1]) or e.where())
            else:
                rep.ok("another status of the answer to %s is an error carrying status and body (%s)" % (name, w), e.where())
        rep.ob("requests found (%s)" % w, len(ev) >= 3, "only %d requests" % len(ev))


def deep_leaves(t, care, depth=6):
    """alternatives of a value where care holds, choices inside nested variants included"""
    for p, l in leaves_pc(t):
        c = band(p, care)
        if c is FALSE:
            continue
        k = next((i for i, x in enumerate(l.a) if isinstance(x, TM.T) and (x.op == "sel" or x.op == "adt")), None) if l.op == "adt" and depth else None
        if k is None:
            yield l
            continue
        for m in deep_leaves(restrict(l.a[k], c), c, depth - 1):
            yield mk("adt", *l.a[:k], m, *l.a[k + 1:]) if m is not l.a[k] else l


def decided(x, c, b):
    return any(l is b or (not opaque(l) and contains(l, b)) for l in leaves(restrict(x, c)))


# ---------------------------------------------------------------- C29
def valid_when(n, cell, care):
    """does care say the reading `cell` expires more than 30 s after a clock reading taken since?"""
    lk = n.readings.get(cell)
    exp = [p for p, r in n.roles.items() if r == "expiry"]
    for v in cvars(care):
        if v.op != "lin":
            continue
        for t in subterms(v):
            cp = cellpath(t) if t.op == "typed" else None
            if cp and cp[0] is cell and cp[1] in exp:
                for now in nows(v):
                    if implies(care, member(sub(t, now), VALID)):
                        if lk is None or now_seq(n, now) is None or now_seq(n, now) > lk.seq:
                            return True
    return False


def now_seq(n, now):
    x = strip(now)
    for e in n.run.allev:
        if e.kind == "clock" and strip(e.d[0]) is x:
            return e.seq
    return None


def c29(C, rep):
    for w, n in each_net(C, rep):
        uses = []
        for e in n.posts:
            m, u, h, b = req(e.d[0])
            uses.append((e.pc, u, e.where(), "signBlob URL"))
            for x, y in headers(h) or []:
                uses.append((e.pc, y, e.where(), "signBlob header"))
        for c in n.run.cases:
            if w == "url":
                if c.query is not None:
                    uses.append((c.pc, c.query, loc(c.query), "X-Goog-Credential"))
            else:
                v = c.value("x-goog-credential")
                if v is not None:
                    uses.append((c.pc, v, loc(v), "x-goog-credential"))
        found = 0
        for pc, t, where, what in uses:
            done = set()
            for care, l in occurrences(t, pc, lambda x: cellpath(x) is not None, False, {"resp"}):
                cp = cellpath(l)
                if (care, cp[0]) in done:
                    continue
                done.add((care, cp[0]))
                found += 1
                rep.ob("a cached value in the %s is valid for more than 30 s (%s)" % (what, w), valid_when(n, cp[0], care),
                       "cached %s is used without its expiry being more than 30 s after the current time" % short(l, 3, 120), where,
                       opaque(care))
        if any(True for _ in n.writes):
            rep.ob("uses of cached values found (%s)" % w, found > 0, "no use of the cache was found", None, True)
        # recorded expiry
        for e, c, got, l in n.stored:
            if not got or "expiry" not in got:
                rep.ob("an expiry is recorded with the token (%s)" % w, False, "stored: %s" % short(l), e.where(), opaque(l) or any(has_op(y, {"json"}) for y in [l]) and not nows(l) and False)
                continue
            for c2, x in leaves_pc(restrict(got["expiry"], e.pc)):
                ns = nows(x)
                js = [y for y in subterms(x) if y.op == "jintv"]
                good = len(ns) == 1 and len(js) == 1
                if good:
                    r = jsrc(js[0])
                    good = r in n.json and member_named(js[0], "expires_in")
                    if good:
                        want = add(ns[0], mulc(mk("typed", js[0], (0, (1 << 64) - 1)), NS))
                        rep.eq("the recorded expiry is the current time plus expires_in seconds (%s)" % w, x, want, band(e.pc, c2), e.where())
                        resp = n.json[r][1]
                        rd = [f for f in n.run.allev if f.kind == "bodyread" and f.d[0] is resp and band(f.pc, success(resp)) is not FALSE]
                        t0 = now_seq(n, ns[0])
                        rep.ob("the lifetime is counted from the time the token response was handled (%s)" % w,
                               bool(rd) and t0 is not None and t0 > min(f.seq for f in rd), "clock is read before the answer arrives", e.where())
                if not good:
                    rep.ob("the recorded expiry is the current time plus expires_in seconds (%s)" % w, False, short(x), loc(x) or e.where(), opaque(x))


def jsrc(j):
    s = j.a[0]
    return s.a[0] if s.op in ("jm", "jat") else None


def member_named(j, name):
    s = j.a[0]
    return s.op == "jat" or (s.op == "jm" and s.a[1] in (name, lit(name)))


# ---------------------------------------------------------------- C30
def c30(C, rep):
    for w, n in each_net(C, rep):
        if not n.writes:
            rep.ok("no cache is written (%s)" % w)
        for e, c, got, l in n.stored:
            care = band(e.pc, c)
            if care is FALSE:
                continue
            if got is None:
                rep.ob("only complete refreshes are stored (%s)" % w, False, "stored: %s" % short(l), e.where(), opaque(l))
                continue
            missing = [r for r in ("email", "token", "expiry") if r not in got]
            if missing:
                rep.ob("account, token and expiry are stored together (%s)" % w, False, "stored %s, without the fetched %s" % (short(l), ", ".join(missing)),
                       e.where(), opaque(l))
            # one refresh
            toks = set()
            for r in ("token", "expiry"):
                for x in leaves(got[r]) if r in got else []:
                    j = [y for y in subterms(x) if y in n.json]
                    toks |= {n.json[y][1] for y in j}
            mails = {n.email[strip(x)][1] for x in leaves(got["email"])} if "email" in got else set()
            good = len(toks) <= 1 and len(mails) <= 1
            rep.ob("the stored parts are of one and the same refresh (%s)" % w, good, "from %d token and %d account responses" % (len(toks), len(mails)), e.where())
            lk = n.version[id(e)].get(e.d[0])
            for r in sorted(toks | mails, key=lambda x: x.a[0]):
                he = next(f for f in n.run.allev if f.kind == "http" and f.d[1] is r)
                if lk is not None:
                    rep.ob("the stored parts were fetched in this refresh (%s)" % w, he.seq > lk.seq, "response of an earlier request", e.where())
                nm_ = "token" if r in toks else "account"
                rep.implied("the %s request had succeeded when the cache is written (%s)" % (nm_, w), care, success(r),
                            "cache is written although the status is no success", e.where(), lambda v: contains(v, r) and v.op != "okp")
                rep.implied("the %s response had been received when the cache is written (%s)" % (nm_, w), care,
                            band(truth(mk("okp", "exec", r)), okbody(n, r)), "cache is written without the answer", e.where(), lambda v: contains(v, r))
            for r in toks:
                js = mk("json", mk("body", r))
                rep.implied("the token response had been parsed when the cache is written (%s)" % w, care, truth(mk("okp", "jvalid", js)),
                            "cache is written although the answer is no JSON", e.where(), lambda v: contains(v, js))
                good = type_checked(care, js)
                rep.ob("the token type is exactly Bearer when the cache is written (%s)" % w, good is None, good or "", e.where())
        # a failure before the write leaves no trace: no other writes
        for e in n.writes:
            if e.d[1].op not in ("sel", "adt"):
                rep.ob("the cache is written as a whole (%s)" % w, False, "stored: %s" % short(e.d[1]), e.where(), opaque(e.d[1]))
        # failed refreshes are errors
        resps = {r for _, _, r in n.gets}
        for f in n.run.allev:
            if f.kind == "fail" and f.d[0] not in ("duration_since",):
                if any(has_resp(v, resps) for v in cvars(f.pc)) and within_refresh(n, f):
                    both = band(f.pc, n.run.okpc)
                    rep.ob("a failing refresh is returned as an error: %s (%s)" % (f.d[0], w), both is FALSE, "a result is returned", f.where(),
                           both is not FALSE and opaque(both))
                    for e in n.writes:
                        if e.seq > f.seq and same_refresh(n, e, f):
                            b2 = band(band(f.pc, e.pc), bnot(n.idle.get(id(e), FALSE)))
                            rep.ob("a failing refresh leaves the cache as it was: %s (%s)" % (f.d[0], w), b2 is FALSE,
                                   "the cache is still written", e.where(), b2 is not FALSE and opaque(b2))


def okbody(n, r):
    return truth(mk("okp", "text", r))


def within_refresh(n, f):
    h = n.held[id(f)]
    return any(band(f.pc, x) is not FALSE for x in h.values())


def same_refresh(n, e, f):
    return n.version[id(e)].get(e.d[0]) is n.version[id(f)].get(e.d[0])


def type_checked(care, js):
    """None when care says the token type is exactly 'Bearer'; else what else it can be"""
    BEARER = SS(True, ["Bearer"])
    isobj = TM.jkis("obj", js)
    a = band(care, isobj)
    if a is not FALSE:
        t = mk("jstrv", mk("jm", js, lit("token_type")))
        if not implies(a, str_in(t, BEARER)):
            return "token_type can be another text than Bearer"
    b = band(care, bnot(isobj))
    if b is not FALSE:
        ts = [v for v in cvars(b) if v.op == "jstrv" and v.a[0].op == "jat" and v.a[0].a[0] is js]
        if not any(implies(b, str_in(t, BEARER)) for t in ts):
            return "token_type can be another text than Bearer (array form)"
    return None


# ---------------------------------------------------------------- C31
def c31(C, rep):
    # what outlives the keys holds neither a key's cache nor a fetched value
    statics.history(C.F)
    apart = True
    for k, ch in C.F.left:
        for s, v in ch.items():
            x = next((x for x in valueterms(v) if x.op == "resp" or x.op == "cell" or x.op == "mutex" and not statics.isstatic(x.a[0])), None)
            rep.ob("keys created separately share nothing (%s)" % k, x is None,
                   "static %s holds %s" % (s[1] if isinstance(s[1], str) else C.F.bodies[s[1]]["path"], short(x) if x is not None else ""),
                   loc(x) if x is not None else None)
            apart = apart and x is None
    if not apart:
        return
    for w, n in each_net(C, rep):
        keys = n.keys()
        if not n.writes:
            rep.bad("refreshes are shared (%s)" % w, "nothing is ever stored for other operations of the same key")
            continue
        for e in n.run.allev:
            if e.kind == "lock" and e.d[1] != "async":
                rep.bad("the lock is waited for (%s)" % w, "lock is taken as %s" % (e.d[1],), e.where())
        for e, role, r in n.gets:
            hk = n.held[id(e)]
            good = any(implies(e.pc, h) for h in hk.values())
            rep.ob("the lock is held during the %s request (%s)" % (role, w), good, "the request is made without the lock", e.where())
            # decided by the reading of the same lock
            cur = {n.current(e, k) for k in keys} - {None}
            tested = {cp[0] for v in cvars(e.pc) for cp in [testedcell(v)] if cp}
            rep.ob("the decision to refresh is made under the same lock (%s)" % w, bool(cur & tested),
                   "the cache that was looked at (%s) is not the one locked now (%s)" % ([short(x) for x in tested], [short(x) for x in cur]), e.where())
            for cell in cur & tested:
                # a still valid token is not fetched again
                bad = refresh_of_valid(n, e, cell)
                rep.ob("no refresh while the cached token is valid for more than 30 s (%s)" % w, bad is None, bad or "", e.where())
        for e in n.writes:
            h = n.held[id(e)].get(e.d[0], FALSE)
            rep.ob("the lock is held while storing (%s)" % w, implies(e.pc, h), "the cache is written without the lock", e.where())
            # same lock as the requests
            lk = n.version[id(e)].get(e.d[0])
            for x in subterms(e.d[1]):
                if x.op == "resp":
                    he = next((f for f in n.run.allev if f.kind == "http" and f.d[1] is x), None)
                    if he is not None:
                        rep.ob("checking, refreshing and storing happen under one uninterrupted lock (%s)" % w,
                               n.version[id(he)].get(e.d[0]) is lk, "the lock was taken again in between", e.where())
        # every complete refresh is stored
        for e, role, r in n.gets:
            if role != "token":
                continue
            done = FALSE
            for x in n.writes:
                if contains(x.d[1], r):
                    done = bor(done, x.pc)
            care = band(e.pc, n.run.okpc)
            rep.ob("a completed refresh is stored for the others (%s)" % w, implies(care, done), "a fetched token is used but not stored", e.where(), opaque(care))
        for e in n.posts:
            hk = n.held[id(e)]
            good = all(band(e.pc, h) is FALSE for h in hk.values())
            rep.ob("the lock is not held during the signBlob request (%s)" % w, good, "the lock is still held", e.where())
        for e in n.run.allev:
            if e.kind == "cellnew" and n.run.allev.index(e) >= n.run.r.mark:
                rep.bad("one cache per key (%s)" % w, "a new cache is made while signing", e.where())
    clones(C, rep)


def valueterms(t):
    """the terms t is made of, not those that choose between values"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, TM.T) and x not in seen:
            seen.add(x)
            yield x
            # a fold holds its elements only where its body names them
            st.extend([c for _, c in x.a[1]] if x.op == "sel" else x.a[1:] if x.op == "fold" else x.a)


def testedcell(v):
    for x in subterms(v):
        if x.op == "cell":
            return (x,)
    return None


def putback(l, cell):
    """l is Some of the parts of the cell's content, each in its place"""
    ps = flat(l.a[2])
    return bool(ps) and all(cellpath(x) is not None and cellpath(x)[0] is cell and cellpath(x)[1] == p for p, x in ps)


def valid_region(n, pc, cell):
    """where the entry read is known from pc to be still usable, or TRUE if its expiry was not looked at"""
    exp = [p for p, r in n.roles.items() if r == "expiry"]
    for v in cvars(pc):
        if v.op != "lin":
            continue
        for t in subterms(v):
            cp = cellpath(t) if t.op == "typed" else None
            if cp and cp[0] is cell and cp[1] in exp:
                for now in nows(v):
                    return member(sub(t, now), VALID)
    return TRUE


def refresh_of_valid(n, e, cell):
    exp = [p for p, r in n.roles.items() if r == "expiry"]
    for v in cvars(e.pc):
        if v.op != "lin":
            continue
        for t in subterms(v):
            cp = cellpath(t) if t.op == "typed" else None
            if cp and cp[0] is cell and cp[1] in exp:
                for now in nows(v):
                    c = band(band(e.pc, truth(mk("okp", "is_some", cell))), member(sub(t, now), VALID))
                    return None if c is FALSE else "a token that is valid for more than 30 s is fetched again"
    return "the cached token's expiry is not looked at"


def clones(C, rep):
    F = C.F
    R = Run(F)
    k1 = R.call(KEY + "::bound_token", [])
    k2 = R.call(KEY + "::bound_token", [])
    c1, c2 = cells(k1), cells(k2)
    rep.ob("a bound token key has a cache", bool(c1) and bool(c2), "no cell in %s" % short(k1), None, opaque(k1))
    rep.ob("separately created keys have separate caches", not (c1 & c2), "both use %s" % sorted(map(repr, c1 & c2)))
    cl = clone_of(R, k1)
    if cl is None:
        rep.unk("clones share the cache", "the Clone implementation was not understood")
        return
    c3 = cells(cl)
    rep.ob("clones share the cache", c3 == c1, "clone uses %s, the key %s" % (sorted(map(repr, c3)), sorted(map(repr, c1))), loc(cl), opaque(cl))
    rep.eq("a clone is the same key", cl, k1)


def clone_of(R, k):
    """value of k.clone(), through the Clone implementation of its type"""
    return R.method("core::clone::Clone", "clone", R.local_ty(KEY), [R.ref(k)])


def cells(t):
    return {x.a[0] for x in subterms(t) if x.op == "mutex"}


# ---------------------------------------------------------------- C21
def c21(C, rep):
    for k in ("sa", "bt"):
        run = C.url(k)
        for c in run.cases:
            if c.u is None or not U.shape(rep, k, c, ["query", "M"]):
                continue
            v = c.param("X-Goog-Algorithm")
            if not v or len(v) != 1:
                U.undecodable_param(rep, "X-Goog-Algorithm is in the query (%s)" % k, c)
            else:
                d = pct_decode(v[0])
                rep.eq("X-Goog-Algorithm is %s (%s)" % (ALG, k), d if d is not None else v[0], lit(ALG), c.pc)
            rep.eq("the signed text declares %s (%s)" % (ALG, k), c.mlines[0], lit(ALG), c.pc)
        run = C.form(k)
        for c in run.cases:
            v = c.value("x-goog-algorithm")
            if v is None:
                U.undecodable(rep, "x-goog-algorithm is in the form (%s)" % k, c.v)
                continue
            rep.eq("x-goog-algorithm is %s (%s)" % (ALG, k), v, lit(ALG), c.pc)
            cs = FM.conditions(rep, k, c)
            if cs is None:
                continue
            ins = [segs(g[1].a[0])[2][1] for g in segs(cs) if g[0] == "e" and g[1].op == "jarr" and len(segs(g[1].a[0])) == 3
                   and segs(g[1].a[0])[1][1] is mk("jstr", lit("$x-goog-algorithm"))]
            if len(ins) != 1:
                U.undecodable(rep, "the policy declares the algorithm once (%s)" % k, cs)
            else:
                rep.eq("the policy declares %s (%s)" % (ALG, k), ins[0], mk("jstr", lit(ALG)), c.pc)
        rep.ob("results are produced (%s)" % k, bool(C.url(k).cases) and bool(run.cases), "none", None,
               any(r.ret is None or opaque(r.ret) for r in (C.url(k), run)))
    for w in KIND:
        run = get(C, w, "hmac")
        rep.analysed["%s[hmac]" % w] = dict(results=len(run.oks), events=len(run.ev))
        opq = opaque(run.okpc)
        rep.ob("an HMAC key never yields a result (%s)" % w, run.okpc is FALSE, "a result is returned: " + (short(run.oks[0][1]) if run.oks and run.oks[0][1] is not None else "?"),
               loc(run.oks[0][1]) if run.oks else None, opq)
        bad = [e for e in run.ev if e.kind in ("rsasign", "http") and e.pc is not FALSE]
        rep.ob("an HMAC key never signs (%s)" % w, not bad, "signs", bad[0].where() if bad else None)


# ---------------------------------------------------------------- C22
def c22(C, rep):
    for w in KIND:
        for k, val in (("sa", 0), ("bt", 1)):
            run = get(C, w, k)
            rep.analysed["%s[%s]" % (w, k)] = dict(results=len(run.oks), events=len(run.ev))
            usb = (run.inp if w == "url" else run.opts)["use_sign_blob"]
            v = usb if usb.op == "typed" else mk("typed", usb, (0, 1))
            want = cond(v, s_point(val))
            rep.implied("use_sign_blob=%s is required of a %s key (%s)" % (bool(val), k, w), run.okpc, want,
                        "a result is returned for use_sign_blob=%s" % (not val), None, lambda x: contains(x, usb) and x.op != "okp")
            for e in run.ev:
                if e.kind == "rsasign":
                    rep.ob("local signing only with a service account and use_sign_blob=false (%s, %s)" % (k, w),
                           k == "sa" and implies(e.pc, want), "signs locally otherwise", e.where())
                elif e.kind == "http" and req(e.d[0]) and req(e.d[0])[0] is not lit("GET"):
                    rep.ob("remote signing only with a bound token and use_sign_blob=true (%s, %s)" % (k, w),
                           k == "bt" and implies(e.pc, want), "signs remotely otherwise", e.where())
            for t, pc in signatures(run, w):
                if t is None:
                    rep.unk("signature is found (%s, %s)" % (k, w), "result is not understood")
                    continue
                m, how, _ = run.message(restrict(t, pc))
                rep.ob("the signature is made %s (%s, %s)" % ("locally" if k == "sa" else "by signBlob", k, w),
                       how == ("local" if k == "sa" else "signBlob"), "made by %s" % how, loc(t), how is None and opaque(t))
            rep.ob("the supported combination works (%s, %s)" % (k, w), run.okpc is not FALSE and bool(run.cases), "no result is ever returned",
                   None, run.ret is None or opaque(run.ret))


# ---------------------------------------------------------------- C23
def has_early(t):
    """does t depend on what an earlier call left behind?"""
    return any(x.op == "in" and x.a[0] == statics.CALL for x in subterms(t))


OUTSIDE = {"env", "resp", "cell", "random", "fsread", "file"}


def c23(C, rep):
    EXT = ("http", "env", "fs", "sys", "lock", "cellnew")
    for w in KIND:
        run = get(C, w, "sa")
        rep.analysed["%s[sa]" % w] = dict(events=len(run.allev))
        for e in run.allev:
            if e.kind in EXT and e.pc is not FALSE:
                what = {"http": "a network request is made", "env": "an environment variable is read", "fs": "a file is accessed",
                        "lock": "a lock is taken", "cellnew": "shared state is made", "sys": "the system is called"}[e.kind]
                rep.bad("offline signing (%s)" % w, "%s: %s" % (what, [short(x, 3, 80) if isinstance(x, TM.T) else x for x in e.d]), e.where())
        rep.ok("network, environment, file and system accesses: none found (%s)" % w)
        a = (run.inp if w == "url" else run.opts)["accessible_at"]
        given = cond(disc(a), s_point(1))
        for e in run.allev:
            if e.kind == "clock":
                both = band(e.pc, given)
                rep.ob("the clock is not read when accessible_at is given (%s)" % w, both is FALSE, "the clock is read", e.where())
        for c in run.cases:
            t = c.u if w == "url" else c.v
            if t is None:
                continue
            care = band(c.pc, given)
            if has_early(t) or has_early(care):
                t, care = (subst(x, disc(a), INT(1)) for x in (t, care))
                t0, care0 = statics.fresh(t), statics.fresh(care)
                rep.eq("the result does not depend on earlier calls (%s)" % w, t, t0, care, loc(t))
                rep.implied("whether there is a result does not depend on earlier calls (%s)" % w, care, care0,
                            "there is a result only after an earlier call", loc(t))
                t, care = t0, care0
            odd = depends(t, care, lambda x: x.op in OUTSIDE or isnow(x))
            rep.ob("the result is a function of the arguments (%s)" % w, odd is None, "depends on %s" % (short(odd) if odd is not None else ""),
                   loc(odd) if odd is not None else None)
            oq = depends(t, care, lambda x: x.op == "unk")
            if oq is not None:
                rep.unk("the result is a function of the arguments (%s)" % w, "depends on %s" % short(oq), loc(oq))


# ---------------------------------------------------------------- C24
def c24(C, rep):
    for w in KIND:
        run = get(C, w, "sa")
        rep.analysed["%s[sa]" % w] = dict(results=len(run.oks))
        n = 0
        for t, pc in signatures(run, w):
            if t is None:
                rep.unk("signature is found (%s)" % w, "result is not understood")
                continue
            t = restrict(t, pc)
            for l in leaves(t):
                n += 1
                src = l.a[0] if l.op in ("bytetab",) else l
                if src.op != "rsasig":
                    rep.ob("the signature is the whole RSA signature (%s)" % w, False, "is %s" % short(src), loc(src) or loc(t), opaque(src))
                    continue
                rep.ok("the signature is the whole RSA signature (%s)" % w, loc(src))
                alg, key, msg = src.a[0], src.a[1], src.a[2]
                rep.ob("the algorithm is RSA PKCS#1 v1.5 with SHA-256 (%s)" % w, algname(alg) == "RSA_PKCS1_SHA256", "algorithm is %s" % (alg if isinstance(alg, str) else short(alg)), loc(src))
                text = S.frombytes(msg)
            rep.ob("the signature is over the whole message (%s)" % w, text is not None, "signed is %s" % short(msg), loc(src),
                   msg.op not in ("slice", "sha256", "hmac") or opaque(msg))
            rep.eq("the key is the one in the caller's PEM text (%s)" % w, key,
                       mk("rsakey", mk("pemder", mk("in", "private_key")), "from_pkcs8"), pc, loc(src))
        if not run.cases:
            rep.ob("a signature is made (%s)" % w, False, "no result", None, run.ret is None or opaque(run.ret))
        # a key that cannot be parsed yields an error
        for o in ((mk("okp", "pem", mk("in", "private_key"))), mk("okp", "from_pkcs8", mk("pemder", mk("in", "private_key")))):
            vs = [v for v in cvars(run.okpc) if v.op == "okp" and v.a[0] == o.a[0]]
            rep.ob("no result when %s fails (%s)" % (o.a[0], w), any(implies(run.okpc, truth(v)) for v in vs),
                   "a result is returned although the key was not parsed")


def algname(a):
    return a if isinstance(a, str) else a.a[0] if isinstance(a, TM.T) and a.op == "lit" else None


# ---------------------------------------------------------------- C25
ALLOWED_SECRET = {"rsasig"}


def leaks(t, secret, allowed, care=TRUE):
    """occurrence of `secret` in a value position of t outside the allowed operations"""
    if not contains(t, secret):
        return None
    return depends(t, care, lambda x: x is secret, False, allowed)


def c25(C, rep):
    for w in KIND:
        for k, names in (("sa", ("private_key",)), ("hmac", ("secret",))):
            run = get(C, w, k)
            rep.analysed["%s[%s]" % (w, k)] = dict(results=len(list(leaves(run.ret))), events=len(run.allev))
            for s in names:
                sec = mk("in", s)
                for l in leaves(run.ret):
                    x = leaks(l, sec, ALLOWED_SECRET)
                    what = "an error" if l.op == "adt" and l.a[0] == RES and l.a[1] == 1 else "a result"
                    rep.ob("%s is not part of %s (%s, %s)" % (s, what, w, k), x is None, "occurs as %s" % (short(x) if x is not None else ""), loc(x) or loc(l))
                for e in run.allev:
                    if e.kind in ("http", "fs", "sys", "env", "cellwrite"):
                        for d in e.d:
                            if isinstance(d, TM.T):
                                x = leaks(d, sec, ALLOWED_SECRET)
                                rep.ob("%s is not sent or written (%s, %s)" % (s, w, k), x is None, "goes into %s" % e.kind, e.where())
    # access tokens
    for w, n in each_net(C, rep):
        toks = token_terms(n)
        rep.ob("token values found (%s)" % w, bool(toks), "no access token is read", None, True)
        for l in leaves(n.run.ret):
            isr = l.op == "adt" and l.a[0] == RES and l.a[1] == 1
            if not isr:
                for t in toks:
                    x = leaks(l, t, {"rsasig", "b64dec", "resp"})
                    rep.ob("the access token is not part of a result (%s)" % w, x is None, "occurs as %s" % (short(x) if x is not None else ""), loc(x) if x is not None else None)
        for c, l in leaves_pc(n.run.ret):
            if l.op == "adt" and l.a[0] == RES and l.a[1] == 1:
                for t in toks:
                    x = leaks(l, t, {"resp"})
                    rep.ob("the access token is not part of an error message (%s)" % w, x is None, "occurs as %s" % (short(x) if x is not None else ""), loc(l))
                # the text of a successful token response is as secret as the token
                for e, role, r in n.gets:
                    if role == "token":
                        b = mk("body", r)
                        if contains(l, b):
                            x = leaks(l, b, {"resp", "jstrv", "jintv"}, band(c, success(r)))
                            rep.ob("a successful token response is not part of an error message (%s)" % w, x is None, "its body occurs in an error", loc(l))
        for e in n.run.allev:
            if e.kind == "http":
                q = req(e.d[0])
                if q is None:
                    if any(leaks(e.d[0], t, {"resp"}) is not None for t in toks):
                        rep.bad("the access token is only sent in Authorization (%s)" % w, short(e.d[0]), e.where())
                    continue
                m, u, h, b = q
                iam = str_parts(u) and str_parts(u)[0].op == "lit" and str_parts(u)[0].a[0].startswith("https://iamcredentials.googleapis.com/")
                for t in toks:
                    for what, x in (("URL", u), ("body", b)):
                        y = leaks(x, t, {"resp"})
                        rep.ob("the access token is not in the %s of a request (%s)" % (what, w), y is None, short(y) if y is not None else "", e.where())
                    for nm_, val in hdr_items(h):
                        y = leaks(val, t, {"resp"})
                        if y is None:
                            continue
                        good = nm_ is lit("authorization") and m is lit("POST") and iam
                        rep.ob("the access token is sent only in Authorization of the signBlob request (%s)" % w, good,
                               "sent in %s of %s %s" % (short(nm_), short(m), short(u)), e.where())
            elif e.kind in ("fs", "sys", "env"):
                for d in e.d:
                    if isinstance(d, TM.T) and any(leaks(d, t, {"resp"}) is not None for t in toks):
                        rep.bad("the access token goes nowhere else (%s)" % w, e.kind, e.where())


def hdr_items(h):
    hs = headers(h)
    if hs is not None:
        return hs
    return [(lit("?"), h)]


def token_terms(n):
    """texts that are access tokens: the member of the response and the stored component"""
    out = set()
    for e in n.run.allev:
        for d in e.d:
            if isinstance(d, TM.T):
                for x in subterms(d):
                    if x.op == "jstrv" and n.tokof(x, "access_token") is not None and is_token(x):
                        out.add(x)
    toks = [p for p, r in n.roles.items() if r == "token"]
    for e in n.run.allev:
        for d in e.d:
            if isinstance(d, TM.T):
                for x in subterms(d):
                    cp = cellpath(x)
                    if cp and cp[1] in toks and x.op != "typed":
                        out.add(x)
    return out


def is_token(x):
    s = x.a[0]
    if s.op == "jm":
        return s.a[1] in ("access_token", lit("access_token"))
    # position of the member in the array form: the first field is never behind another one's presence
    return s.op == "jat" and (s.a[1] == 0 or (isinstance(s.a[1], TM.T) and s.a[1] is INT(0)))


# ---------------------------------------------------------------- C28
def c28(C, rep):
    for w in KIND:
        for k in ("sa", "bt"):
            run = get(C, w, k)
            rep.analysed["%s[%s]" % (w, k)] = dict(results=len(run.oks))
            n = 0
            for t, pc in signatures(run, w):
                n += 1
                if t is None:
                    rep.unk("signature is found (%s, %s)" % (k, w), "result is not understood")
                    continue
                U.hexsig(rep, "%s, %s" % (k, w), t, pc)
            rep.ob("results found (%s, %s)" % (k, w), n > 0, "no result", None, run.ret is None or opaque(run.ret))
