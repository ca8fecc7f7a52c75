"""Symbolic inputs and runs of the entry points."""
import sys
sys.setrecursionlimit(40000)
from terms import *
from facts import Facts
import interp
import std_models
import statics

CR = "cloud_storage_signature::"
SYS = "std::time::SystemTime"


class Missing(Exception):
    pass


def load(path):
    F = Facts(path)
    return F


class Run:
    """one analysis context"""

    def __init__(self, F):
        self.F = F
        self.I = interp.Interp(F)
        self.M = self.I.M
        std_models.INTERP[0] = self.I
        self.st = interp.State(TRUE, {})
        self.init = {}
        statics.setup(self)

    def body(self, path):
        b = self.F.by_path.get(path)
        if not b:
            raise Missing(path)
        return b[0]

    def inp(self, name, ty):
        """unknown value of a type"""
        I = self.I
        while ty[0] == "ref":
            ty = ty[2]
        if ty[0] == "adt":
            a = self.F.adts.get(ty[1])
            if a and a["local"] and a["kind"] == "struct":
                sub = dict(zip(a["generics"], ty[2]))
                return adt(ty[1], 0, *[self.inp((name + "." if name else "") + str(f["name"]), self.F.ty(f["t"], sub))
                                       for f in a["variants"][0]["fields"]])
        return I.typed(mk("in", name), ty)

    def fields(self, path):
        a = self.F.adts.get(path)
        if not a:
            raise Missing(path)
        return [f["name"] for f in a["variants"][0]["fields"]]

    def call(self, path, args, sub=None):
        d = self.body(path)
        return statics.settle_run(self, self.I.run(self.F.body(d["id"]), d, sub or {}, args, self.st))

    def await_(self, f):
        """run a future to its end"""
        return statics.settle_run(self, self.M.await_value(self.st, f, None, None))

    def ref(self, v):
        """reference to a fresh place holding v"""
        self.nref = getattr(self, "nref", 0) + 1
        key = ("arg", self.nref)
        self.st.mem[key] = v
        return mk("ptr", key, ())

    def deref(self, p):
        return self.I.load(self.st, p) if hasattr(self.I, "load") else self.I.deref(self.st, p)

    def local_ty(self, path):
        return ("adt", path, ())

    def method(self, tr, name, ty, args, targs=()):
        return self.I.method(self.st, tr, name, ty, args, targs)
