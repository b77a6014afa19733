"""Harness registration, shared by the symbolic and the native runs."""
import importlib

REGISTRY = []


def harness(_fn=None, *, params=None, kind="proof", note="", fuzz=40, time=None, contracts=(), functions=(),
            requires_paths=1, covers=()):
    """kind 'proof': the quantifier is discharged without a bound (finite symbolic domain fully
    covered, or unbounded data); 'bounded': every input up to the bound stated in `note`."""

    def deco(fn):
        fn._pyvc = (params, kind, note, fuzz, time, tuple(functions), requires_paths, tuple(covers))
        REGISTRY.append(fn)
        return fn
    return deco(_fn) if _fn is not None else deco


class LoopContract:
    """Contract of one loop of the code under verification, registered with h.cut (see cut.py).
    `v` maps the names of the locals to their values, `it` is the iterable of a for loop."""

    name = "loop"
    modifies = ()       # objects the loop changes besides its locals
    once = False        # attach to one loop only
    attached = 0
    summary = False     # set by havoc: the state it made is the one behind the loop (proved elsewhere)
    h = None

    def attach(self, v, where, it):
        """is this the loop the contract is about?"""
        return True

    def entry(self, v, it):
        """obligations on the state the loop is entered with"""

    def havoc(self, v, it):
        """{local: arbitrary value satisfying the invariant}"""
        return {}

    def element(self, v, it):
        """an arbitrary element of the iterable of a for loop"""
        self.h.unsupported("loop contract %s has no element" % self.name)

    def step(self, v):
        """obligations after one iteration"""

    def leave(self, v, it):
        """assumptions behind a for loop"""

    def local(self, v, pred, what="local"):
        """name of the one local satisfying pred"""
        found = [k for k, x in v.items() if pred(x)]
        if len(found) != 1:
            self.h.unsupported("loop contract %s does not attach: %d candidates for %s"
                               % (self.name, len(found), what))
        return found[0]


class Spec:
    def __init__(self, fn):
        (self.params, self.kind, self.note, self.fuzz, self.time, self.functions,
         self.requires_paths, self.covers) = fn._pyvc
        self.fn = fn
        self.name = fn.__name__


def collect():
    out = [Spec(f) for f in REGISTRY]
    REGISTRY.clear()
    return out


def attr_path(mod, path):
    o = mod
    for p in path.split("."):
        o = getattr(o, p)
    return o


class Base:
    """What both contexts share."""

    symbolic = False

    def mod(self, name):
        return importlib.import_module(name)

    def get(self, path):
        """'pyzwave.types:BitStreamReader' -> the object"""
        m, _, a = path.partition(":")
        mod = importlib.import_module(m)
        return attr_path(mod, a) if a else mod

    def catch(self, fn, *a, **k):
        """(exception or None, result)"""
        try:
            return None, fn(*a, **k)
        except Exception as e:
            self._forgotten(e)
            return e, None

    def _forgotten(self, exc):
        pass

    # -- tasks
    def spawn(self, coro):
        t = self.loop.create_task(coro)
        self.loop.settle()
        return t

    def outcome(self, task):
        """(state, value): ('pending', None), ('cancelled', None), ('error', exc), ('ok', result)"""
        if not task.done():
            return "pending", None
        if task.cancelled():
            return "cancelled", None
        if task.exception() is not None:
            self._forgotten(task.exception())
            return "error", task.exception()
        return "ok", task.result()

    def run(self, coro, limit=300):
        """run to completion, letting virtual time pass; raises what the coroutine raises"""
        t = self.spawn(coro)
        if not self.loop.finish(t, limit):
            raise AssertionError("coroutine never completes")
        return t.result()

    def task_error(self, task):
        s, v = self.outcome(task)
        return v if s == "error" else None
