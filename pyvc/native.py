"""Native runs of the harnesses on the real, uninstrumented /repo code: counterexample replay and
boundary-biased random cross-checking.  Reads a JSON job list on stdin."""
import importlib.util
import json
import logging
import os
import random
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True

from pyvc import api, vloop  # noqa: E402


class Skip(Exception):
    pass


class Stop(BaseException):
    pass


class NatH(api.Base):
    symbolic = False
    bounded = True
    thorough = True

    def __init__(self, draws=None, rnd=None):
        self.draws = {}
        for name, kind, val in draws or []:
            self.draws.setdefault(name, []).append((kind, val))
        self.replay = draws is not None
        self.rnd = rnd or random.Random(0)
        self.used = []
        self.failures = []
        self.covered = set()
        self.loop = vloop.VLoop()
        self.checks = 0
        self._tmps = []

    def _take(self, name):
        q = self.draws.get(name)
        if q:
            return q.pop(0)[1]
        return None

    def _rec(self, name, kind, v):
        self.used.append([name, kind, v])

    def int(self, name, lo=None, hi=None):
        v = self._take(name) if self.replay else None
        if v is None:
            r = self.rnd
            a = lo if lo is not None else (hi - 1000 if hi is not None else -1000)
            b = hi if hi is not None else a + 2000
            x = r.random()
            if x < 0.35:
                cand = [a, a + 1, b, b - 1, 0, 1, (a + b) // 2]
                cand = [c for c in cand if a <= c <= b]
                v = r.choice(cand)
            elif x < 0.5 and b - a > 40:
                v = min(b, a + r.randrange(12))
            else:
                v = r.randint(a, b)
        self._rec(name, "int", v)
        return v

    def bool(self, name):
        v = self._take(name) if self.replay else None
        v = bool(self.rnd.getrandbits(1) if v is None else v)
        self._rec(name, "bool", int(v))
        return v

    def flag(self, name):
        v = self._take(name) if self.replay else None
        v = bool(self.rnd.getrandbits(1) if v is None else v)
        self._rec(name, "choice", int(v))
        return v

    def choice(self, name, options):
        options = list(options)
        i = self._take(name) if self.replay else None
        if i is None:
            i = self.rnd.randrange(len(options))
        self._rec(name, "choice", i)
        return options[i]

    def _bytes(self, n):
        r = self.rnd
        mode = r.random()
        if mode < 0.2:
            return bytes(n)
        if mode < 0.35:
            return bytes([0xFF]) * n
        if mode < 0.6:
            return bytes(r.choice([0, 1, 2, 3, 4, 7, 8, 0x80, 0xFF, 0x7F, r.randrange(256)])
                         for _ in range(n))
        return bytes(r.randrange(256) for _ in range(n))

    def bytes(self, name, lo, hi=None):
        if hi is not None:
            k = self._take(name + ".len") if self.replay else None
            if k is None:
                k = self.rnd.randrange(hi - lo + 1)
            self._rec(name + ".len", "choice", k)
            n = lo + k
        else:
            n = lo
        v = self._take(name) if self.replay else None
        v = self._bytes(n) if v is None else bytes.fromhex(v)
        self._rec(name, "bytes", v.hex())
        return v

    def anybytes(self, name, lo=0, hi=None):
        v = None
        if self.replay:
            self._take(name + ".len")
            v = self._take(name)
        if v is None:
            n = lo + self.rnd.choice([0, 0, 1, 2, 3, 5, 9, 17, 40])
            if hi is not None:
                n = min(n, hi)
            v = self._bytes(n)
        else:
            v = bytes.fromhex(v)
        self._rec(name, "bytes", v.hex())
        return v

    def cut(self, contract):
        contract.h = self

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, label, c, detail=None):
        self.checks += 1
        if not c:
            d = detail() if callable(detail) else detail
            self.failures.append((label, str(d)))
            raise Stop()

    def same(self, label, a, b):
        self.check(label, a == b, lambda: "%r != %r" % (a, b))

    def cover(self, label):
        self.covered.add(label)

    def fail(self, label):
        self.check(label, False)

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def no(self, x):
        return not x

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def in_set(self, s, x):
        return x in s

    def possible(self, c):
        return True

    def concrete_bool(self, c):
        return bool(c)

    def concrete(self, x):
        return int(x)

    def lazydict(self, d, kind):
        pass

    def tmpdir(self):
        tmp = tempfile.mkdtemp(prefix="pyvc-")
        self._tmps.append(tmp)
        os.mkdir(os.path.join(tmp, "nodes"))
        return tmp

    def time(self):
        return self.loop.time()


def load(prop):
    sys.path.append(os.path.join(os.path.dirname(HERE), "props"))
    for name, f in (("hlib", "_lib.py"), ("hwire", "_wire.py")):
        path = os.path.join(os.path.dirname(HERE), "props", f)
        spec = importlib.util.spec_from_file_location(name, path)
        sys.modules[name] = m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    path = os.path.join(os.path.dirname(HERE), "props", prop + ".py")
    spec = importlib.util.spec_from_file_location("props_" + prop, path)
    m = importlib.util.module_from_spec(spec)
    api.REGISTRY.clear()
    spec.loader.exec_module(m)
    return {s.name: s for s in api.collect()}


def run_one(spec, param, draws, rnd):
    h = NatH(draws, rnd)
    vloop.activate(h.loop)
    try:
        try:
            if spec.params is not None:
                spec.fn(h, param)
            else:
                spec.fn(h)
        except Skip:
            return h, "skip"
        except Stop:
            return h, "fail"
        except Exception as e:
            h.failures.append(("escaped exception %s: %s" % (type(e).__name__, e),
                               traceback.format_exc()[-2500:]))
            return h, "fail"
        return h, "ok"
    finally:
        h.loop.dispose()
        vloop.activate(None)
        for tmp in h._tmps:
            shutil.rmtree(tmp, ignore_errors=True)


def params_of(spec):
    if spec.params is None:
        return [None]
    p = spec.params
    return list(p() if callable(p) else p)


def main():
    job = json.load(sys.stdin)
    result = sys.stdout
    sys.stdout = open(os.devnull, "w")
    root = job.get("root", "/repo")
    sys.path.insert(0, root)
    logging.disable(logging.CRITICAL + 10)
    specs = load(job["prop"])
    out = []
    for r in job["runs"]:
        spec = specs[r["harness"]]
        ps = params_of(spec)
        param = ps[r["param"]] if r["param"] is not None else None
        if r.get("draws") is not None:
            h, st = run_one(spec, param, r["draws"], random.Random(1))
            out.append({"status": st, "failures": h.failures, "draws": h.used,
                        "harness": r["harness"], "param": r["param"]})
        else:
            rnd = random.Random("%s/%s/%s" % (job.get("seed", 1), r["harness"], r["param"]))
            t0 = time.time()
            n = ok = skip = checks = 0
            fails = []
            covered = set()
            seen = set()
            sample = None
            while n < r["count"] and time.time() - t0 < r.get("time", 20):
                n += 1
                h, st = run_one(spec, param, None, rnd)
                covered |= h.covered
                checks += h.checks
                if st == "ok":
                    ok += 1
                    seen.add(json.dumps(h.used))
                    sample = h.used
                elif st == "skip":
                    skip += 1
                else:
                    fails.append({"failures": h.failures, "draws": h.used})
                    if len(fails) >= 3:
                        break
            out.append({"harness": r["harness"], "param": r["param"], "n": n, "ok": ok,
                        "skip": skip, "checks": checks, "fails": fails, "distinct": len(seen),
                        "covered": sorted(covered), "sample": sample})
    json.dump(out, result)
    result.flush()


if __name__ == "__main__":
    main()
