"""Symbolic harness context."""
import builtins

import z3

from . import core, cut, instr, shims, sym, vloop
from .api import Base


class SymH(Base):
    symbolic = True

    def __init__(self, e, bounded=False, tier="quick"):
        self.e = e
        self.bounded = bounded
        self.thorough = tier == "thorough"
        self.loop = vloop.VLoop()

    # -- draws
    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            self.e.add_draw(name, "int", lo)
            return lo
        n = self.e.fresh(name)
        if lo is None or hi is None:
            t = z3.Int(n)
            if lo is not None:
                self.e.assume(t >= lo)
            if hi is not None:
                self.e.assume(t <= hi)
            p = sym.mkint(t, lo, hi)
        else:
            w = sym._bits(lo, hi)
            if lo >= 0:
                b = z3.BitVec(n, w - 1)
                t = z3.ZeroExt(1, b)
                if hi != (1 << (w - 1)) - 1:
                    self.e.assume(z3.ULE(b, hi))
                if lo > 0:
                    self.e.assume(z3.UGE(b, lo))
            else:
                t = z3.BitVec(n, w)
                if hi != (1 << (w - 1)) - 1:
                    self.e.assume(t <= hi)
                if lo != -(1 << (w - 1)):
                    self.e.assume(t >= lo)
            p = sym.mkbv(t, lo, hi)
        v = sym.wrap(p)
        self.e.add_draw(name, "int", v)
        return v

    def bool(self, name):
        v = sym.SBool(z3.Bool(self.e.fresh(name)))
        self.e.add_draw(name, "bool", v)
        return v

    def flag(self, name):
        """a truth value decided now (a plain bool on every path)"""
        v = self.e.choose(2) == 1
        self.e.add_draw(name, "choice", int(v))
        return v

    def choice(self, name, options):
        options = list(options)
        i = self.e.choose(len(options))
        self.e.add_draw(name, "choice", i)
        return options[i]

    def bytes(self, name, lo, hi=None):
        """byte string of length lo (hi is None), or of symbolic length in [lo, hi]; the length is
        a path choice when hi-lo is small"""
        if hi is None:
            n = lo
            return self._fixed(name, n)
        n = lo + self.e.choose(hi - lo + 1)
        self.e.add_draw(name + ".len", "choice", n - lo)
        return self._fixed(name, n)

    def _fixed(self, name, n):
        terms = [z3.BitVec(self.e.fresh(name + "." + str(i)), 8) for i in builtins.range(n)]
        b = sym.SBytes._mk([sym._explicit(terms)]) if n else b""
        self.e.add_draw(name, "bytes", b)
        return b

    def anybytes(self, name, lo=0, hi=None):
        """byte string of any length >= lo: no bound"""
        if self.bounded:
            return self.bytes(name, lo, lo + 5 if hi is None else min(hi, lo + 5))
        n = self.e.fresh(name)
        if hi is not None and hi <= 1 << 16:
            # bounded length: all in bit-vectors
            arr = z3.Array(n, z3.BitVecSort(32), z3.BitVecSort(8))
            w = sym._bits(0, hi)
            ln = z3.BitVec(n + ".len", w - 1)
            p = sym.mkbv(z3.ZeroExt(1, ln), lo, hi)
            self.e.assume(z3.ULE(ln, hi))
            self.e.assume(z3.UGE(ln, lo))
            b = sym.SBytes._mk([("a", arr, 0, p)])
            self.e.add_draw(name, "bytes", b)
            return b
        arr = z3.Array(n, z3.IntSort(), z3.BitVecSort(8))
        ln = z3.Int(n + ".len")
        self.e.assume(ln >= lo)
        if hi is not None:
            self.e.assume(ln <= hi)
        p = sym.mkint(ln, lo, hi)
        b = sym.SBytes._mk([("a", arr, 0, p)])
        self.e.add_draw(name, "bytes", b)
        return b

    # -- loop contracts
    def cut(self, contract):
        """register a loop contract; without effect in bounded runs, which execute the loop"""
        contract.h = self
        if not self.bounded:
            self.e.cut_log.setdefault(contract.name, [0, 0, set()])
            self.e.cuts.append(contract)

    def prefer(self, c):
        """counterexamples satisfying c are preferred"""
        if isinstance(c, sym.SBool):
            self.e.prefer.append(c.t)

    def unsupported(self, what):
        self.e.unsupported(what)

    def forget(self, d):
        """give a map or set arbitrary contents, which may be written to but not read"""
        if type.__instancecheck__(sym.SSet, d):
            return cut.opaque_set(d)
        return cut.opaque_dict(d)

    def is_set(self, x):
        return type.__instancecheck__(sym.SSet, x)

    def added(self, d):
        """what was added to an unknown set: [(element, condition)]"""
        return [(k, g) for k, g in d._m]

    def unknown_list(self, cls=None):
        """a list (of a subclass) of arbitrary contents, which may be appended to but not read"""
        return cut.OpaqueList() if cls is None else cut.opaque_list(cls)

    def become(self, w, data):
        """give a byte array these contents"""
        object.__setattr__(w, "_segs", sym._norm(sym._segs_from(data)))

    def appended(self, d):
        """what was appended to an unknown list"""
        return d.appended()

    def written(self, d):
        """the entries written to an unknown map: [(key, value)]"""
        return [(k, v) for k, v in d._e]

    def identical(self, a, b):
        """the same bytes, by their terms"""
        if a is b:
            return True
        if not (sym.is_byteslike(a) and sym.is_byteslike(b)):
            return False
        r = a == b
        return r is True or (isinstance(r, sym.SBool) and z3.is_true(z3.simplify(r.t)))

    def unknown_items(self, it):
        """the map of arbitrary contents whose items are iterated over, or None"""
        if isinstance(it, sym.View) and getattr(it.d._lazy, "over", False) and it.kind == "items":
            return it.d
        return None

    def concrete_bool(self, c):
        return builtins.bool(c)

    def is_int(self, x):
        return sym.is_intlike(x) and not isinstance(x, (builtins.bool, sym.SBool))

    def _forgotten(self, exc):
        if core.ENGINE.abstract and isinstance(exc, UnboundLocalError):
            core.ENGINE.unsupported("a local was read that a loop contract forgot")

    def is_bool(self, x):
        return isinstance(x, (builtins.bool, sym.SBool))

    def is_bytes(self, x):
        return sym.is_byteslike(x)

    def literal(self, x):
        """the number if it is a concrete one, else None"""
        x = sym.pay(x) if self.is_int(x) else None
        return x if isinstance(x, builtins.int) else None

    def is_map(self, x):
        return builtins.type.__instancecheck__(sym.SDict, x)

    # -- logic
    def assume(self, c):
        self.e.assume(c if isinstance(c, builtins.bool) else sym.zb(c))

    def check(self, label, c, detail=None):
        if self.e.abstract:
            for t, _ in self.loop.all_tasks:
                if t.done() and not t.cancelled() and t.exception() is not None:
                    self._forgotten(t.exception())
        if not isinstance(c, (builtins.bool, sym.SBool)):
            c = sym.test(c)
        self.e.check(label, c if isinstance(c, builtins.bool) else sym.zb(c), detail)

    def same(self, label, a, b):
        """check a == b"""
        r = a == b
        self.check(label, r)

    def cover(self, label):
        self.e.cover(label)

    def fail(self, label):
        self.e.check(label, False)

    def all(self, *xs):
        return sym.v_and(*xs)

    def any(self, *xs):
        return sym.v_or(*xs)

    def no(self, x):
        return sym.v_not(x)

    def implies(self, a, b):
        return sym.v_implies(a, b)

    def iff(self, a, b):
        return sym.v_iff(a, b)

    def ite(self, c, a, b):
        """integer if-then-else without a path split"""
        if not isinstance(c, sym.SBool):
            return a if c else b
        pa, pb = sym.pay(a), sym.pay(b)
        (al, ah), (bl, bh) = sym.rng(pa), sym.rng(pb)
        if sym._isbv(pa) and sym._isbv(pb):
            lo, hi = min(al, bl), max(ah, bh)
            w = sym._bits(lo, hi)
            return sym.wrap(sym.mkbv(z3.If(c.t, sym._ext(pa, w), sym._ext(pb, w)), lo, hi))
        lo = None if None in (al, bl) else min(al, bl)
        hi = None if None in (ah, bh) else max(ah, bh)
        return sym.wrap(sym.mkint(z3.If(c.t, sym.toInt(pa), sym.toInt(pb)), lo, hi))

    def in_set(self, s, x):
        """membership without a path split"""
        return s.has(x) if isinstance(s, sym.SSet) and not isinstance(s, builtins.set) else x in s

    def possible(self, c):
        """some input satisfies c here (vacuity guard)"""
        return self.e._q(sym.zb(c)) != z3.unsat

    def lazydict(self, d, kind):
        """give d an unknown remainder: looking up a key it does not mention forks on
        whether the unknown part has it (kind(key) makes the value)"""
        e = self.e

        def look(self_, k):
            for a in getattr(look, "absent", ()):
                if sym._comparable(a, k) and sym._bool(sym._keyeq(a, k)):
                    return None
            if e.choose(2) == 0:
                # absent: remember
                sym._absent(self_, k)
                return None
            v = kind(k)
            return self_._insert(k, v)
        object.__setattr__(d, "_lazy", look)

    def tmpdir(self):
        self._tmps = getattr(self, "_tmps", 0) + 1
        return "/mem" if self._tmps == 1 else "/mem%d" % self._tmps

    def time(self):
        return self.loop.time()

    def concrete(self, x):
        """a plain int, forking over the feasible values"""
        return x if isinstance(x, builtins.int) else x.__index__()


def run_harness(spec, param, engine, bounded, snapshot, tier="quick"):
    """explore one harness; returns the Result"""
    import asyncio

    def body(e):
        snapshot.restore()
        shims.FS.reset()
        h = SymH(e, bounded, tier)
        e.vloop, e.snapshot = h.loop, snapshot
        vloop.activate(h.loop)
        try:
            if spec.params is not None:
                spec.fn(h, param)
            else:
                spec.fn(h)
        finally:
            ab = e.aborting
            e.aborting = core.PathEnd()
            try:
                h.loop.dispose()
            finally:
                e.aborting = ab
            vloop.activate(None)
    return engine.explore(body)
