#!/usr/bin/env python3
"""Decide one property of the crate in /repo from its source.

  python3 check.py C01 [C02 ...]          tier from VERIF_TIER (quick by default)
  python3 check.py --all                  every property, one extraction

Exit 0: every obligation of the property that the analysis decided holds.
Exit 1: a line `VIOLATION property=<id> replay=<file>` names the offending construct.
Exit 2: the check could not run (for example the crate does not compile).
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
CRATE = "cloud_storage_signature"
KNOWN = os.path.join(HERE, "known_findings.txt")
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.path.insert(0, os.path.join(HERE, "engine"))

# property -> functions that decide it
PARTS = {
    "C08": [("url", "c08"), ("form", "dates")],
    "C11": [("url", "c11"), ("form", "ranges")],
}
for n in range(1, 8):
    PARTS["C%02d" % n] = [("url", "c%02d" % n)]
PARTS["C09"] = [("url", "c09")]
PARTS["C10"] = [("url", "c10")]
for n in range(12, 18):
    PARTS["C%d" % n] = [("form", "c%d" % n)]
for n in (18, 19, 20, 26, 27, 35, 36, 37, 38, 39):
    PARTS["C%d" % n] = [("misc", "c%d" % n)]
for n in (21, 22, 23, 24, 25, 28, 29, 30, 31, 32, 33, 34):
    PARTS["C%d" % n] = [("net", "c%d" % n)]

TRUSTED = [
    "rustc " "nightly front end and MIR construction (facts are read from the type-checked, borrow-checked program)",
    "driver/ (MIR, type, impl and trait-query dump)",
    "engine/ (abstract interpretation of MIR by gated value terms; joins merged, loops summarised per element)",
    "engine models of std, http, url, reqwest, tokio, serde_json, chrono, percent-encoding, base64, hex, sha2/ring, pem",
]


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTDOCFLAGS"):
            del e[k]
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def sh(cmd, cwd, e, what):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise Broken("%s failed:\n%s" % (what, r.stdout[-4000:]))
    return r.stdout


def driver(e):
    """build the MIR reader"""
    d = os.path.join(HERE, "driver")
    exe = os.path.join(d, "target", "release", "mirfacts")
    srcs = [os.path.join(d, "src", f) for f in os.listdir(os.path.join(d, "src"))] + [os.path.join(d, "Cargo.toml")]
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
        sh(["cargo", "+nightly", "build", "--release", "--offline"], d, e, "building the MIR reader")
        if os.path.exists(exe):
            os.utime(exe)
    if not os.path.exists(exe):
        raise Broken("the MIR reader was not built")
    return exe


def extract(profile="dev"):
    """facts of the current source of /repo"""
    from entry import load
    os.makedirs(CACHE, exist_ok=True)
    e = env()
    lock = open(os.path.join(CACHE, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        exe = driver(e)
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], HERE, e, "rustc").strip()
        tgt = os.path.join(CACHE, "target")
        out = os.path.join(CACHE, "facts-%d.json" % os.getpid())
        # cargo must run the compiler on the crate itself again, whatever the file times say
        sub = "debug" if profile == "dev" else "release"
        for q in ("build", ".fingerprint", "deps"):
            b = os.path.join(tgt, sub, q)
            if os.path.isdir(b):
                for n in os.listdir(b):
                    if n.startswith("cloud-storage-signature") or n.startswith("libcloud_storage_signature") or n.startswith(CRATE):
                        p = os.path.join(b, n)
                        shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
        e2 = dict(e)
        e2.update(RUSTC_WORKSPACE_WRAPPER=exe, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), MIRFACTS_CRATE=CRATE, MIRFACTS_OUT=out,
                  CARGO_TARGET_DIR=tgt)
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline", "--locked"]
        if profile != "dev":
            cmd.append("--release")
        sh(cmd, REPO, e2, "checking the crate")
        if not os.path.exists(out):
            raise Broken("no facts were produced")
        try:
            F = load(out)
        finally:
            os.remove(out)
        return F
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def known():
    """known findings: (property, text that identifies the construct)"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property="):
                p, _, rest = l[len("known: property="):].partition(" ")
                out.append((p, rest))
    return out


def decide(pid, C):
    """run the parts of one property"""
    import importlib
    from base import Rep
    rep = CURRENT[0] = Rep(pid)
    for mod, fn in PARTS[pid]:
        m = importlib.import_module(mod)
        try:
            BEGUN[0] = BEGUN[0] or time.time()
            getattr(m, fn)(C, rep)
        except OutOfTime:
            rep.unk("%s.%s" % (mod, fn), "analysis gave up: out of time or memory")
        except RecursionError as x:
            rep.unk("%s.%s" % (mod, fn), "analysis gave up: %s" % type(x).__name__)
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)[-1]
            rep.unk("%s.%s" % (mod, fn), "analysis gave up: %s: %s (%s:%s)" % (type(x).__name__, str(x)[:200], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
    return rep


class OutOfTime(BaseException):
    """raised in the analysis when it has used its time or memory"""


LIMIT = float(os.environ.get("VERIF_LIMIT", "400"))
MEMORY = 10e9
BEGUN = [None]
CURRENT = [None]


def watch(t):
    """wait for the analysis, and stop the part that takes too much"""
    import ctypes
    while t.is_alive():
        t.join(0.5)
        b = BEGUN[0]
        if b is None or not t.is_alive():
            continue
        with open("/proc/self/statm") as f:
            rss = int(f.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
        limit = LIMIT / 4 if CURRENT[0] is not None and CURRENT[0].viol else LIMIT
        if time.time() - b > limit or rss > MEMORY:
            BEGUN[0] = None
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))


def analysed_counts(C):
    fns, blocks, calls, unknown = set(), 0, 0, 0
    for k, run in C.memo.items():
        r = getattr(run, "r", None)
        if r is None:
            continue
        fns |= set(r.I.visited)
        blocks += sum(len(v) for v in r.I.visited.values())
        calls += len(r.I.callsites)
        unknown += len(r.I.unknown)
    return fns, blocks, calls, unknown


def report(pid, reps, Cs, tier, seed, t0):
    obs = [o for _, r in reps for o in r.obs]
    viol = [(p, v) for p, r in reps for v in r.viol]
    und = [(p, v) for p, r in reps for v in r.undecided]
    kn = [k for k in known() if k[0] == pid]
    new = []
    for p, v in viol:
        text = " | ".join(str(x) for x in v)
        hit = [k for k in kn if k[1] in text]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
        else:
            new.append((p, v))
    F = Cs[0].F
    fns, blocks, calls, unknown = analysed_counts(Cs[0])
    holds = sum(1 for o in obs if o[1] == "holds")
    analysed = {}
    for p, r in reps:
        for k, v in r.analysed.items():
            analysed[k if p == "dev" else k + " (%s profile)" % p] = v
    cov = dict(
        explanation="Static analysis of the MIR of /repo's current source: every listed entry point is interpreted abstractly over arbitrary "
                    "arguments, responses and environment (gated value terms, joins merged, loops summarised per element); each obligation "
                    "compares the terms or effects that reach a required program point with the property.",
        obligations=len(obs), discharged=holds, undecided=len(und), violated=len(viol),
        rule="obligation = one required equality, implication or absence of an effect at a program point; see DESIGN.md, " + pid,
        functions_in_crate=len(F.bodies), functions_analysed=len(fns), basic_blocks_analysed=blocks, call_sites_analysed=calls,
        operations_without_model=unknown, profiles=[p for p, _ in reps], analysed=analysed,
        samples=[dict(obligation=o[0], status=o[1], where=o[2]) for o in obs[:12]],
        undecided_obligations=[dict(profile=p, obligation=v[0], why=v[1], where=v[2]) for p, v in und][:40],
        trusted_base=TRUSTED)
    ev = dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=["library models in engine/ describe the pinned versions in Cargo.lock",
                           "code reached only through test, example or cfg-disabled items is not part of the crate's behaviour"])
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    for p, v in und:
        print("UNDECIDED property=%s %s: %s [%s]" % (pid, v[0], v[1][:300], v[2]))
    if new:
        rp = os.path.join(EVID, pid + ".violation.json")
        json.dump([dict(property=pid, profile=p, obligation=v[0], found=v[1], construct=v[2]) for p, v in new], open(rp, "w"), indent=1)
        for p, v in new[:20]:
            print("%s: %s: %s [%s]" % (pid, v[0], v[1][:600], v[2]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s: %d obligations, %d hold, %d undecided; %d functions, %d call sites analysed" % (pid, len(obs), holds, len(und), len(fns), calls))
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pids = sorted(PARTS) if "--all" in argv else [a for a in argv if a in PARTS]
    if not pids:
        print(__doc__)
        return 2
    t0 = time.time()
    try:
        from base import Ctx
        if "--facts" in argv:
            from entry import load
            profiles = [("dev", load(argv[argv.index("--facts") + 1]))]
        else:
            profiles = [("dev", extract())]
            if tier == "thorough":
                profiles.append(("release", extract("release")))
    except Broken as x:
        print("ERROR: " + str(x))
        return 2
    Cs = [(p, Ctx(F)) for p, F in profiles]
    rc = 0
    for pid in pids:
        t1 = time.time() if len(pids) > 1 else t0
        BEGUN[0] = time.time()
        reps = [(p, decide(pid, C)) for p, C in Cs]
        BEGUN[0] = None
        rc = max(rc, report(pid, reps, [C for _, C in Cs], tier, seed, t1))
    return rc


if __name__ == "__main__":
    import threading
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    res = []
    t = threading.Thread(target=lambda: res.append(main(sys.argv[1:])))
    t.start()
    watch(t)
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
