"""Loop contracts.  A harness registers a contract for a loop of the code under verification; when the
instrumented code reaches that loop, the loop is cut at its head:

  entry   the contract's obligations on the state the loop is entered with (invariant initially)
  havoc   every local the loop assigns, and every object the contract says the loop modifies, gets an
          arbitrary value satisfying the invariant; nothing else is forgotten
  step    one iteration of the real body from that state, then the contract's obligations
          (invariant preserved) and the frame condition: nothing the contract did not declare has changed
  leave   the code behind the loop runs from the arbitrary state with the loop condition false

so the loop is decided for any number of iterations.  `break`, `return` and exceptions leave an
arbitrary iteration and are judged by the harness that registered the contract.

A contract attaches to a loop by the values of its locals, not by their names or its position; where
none attaches the harness is undecided (and its bounded run stands in)."""
import sys
import types

import z3

from . import core, sym


def opaque_dict(d):
    """forget the contents of a map: arbitrary, may be written to but not read"""
    object.__setattr__(d, "_lazy", None)
    d.clear()

    def look(self_, k):
        core.engine().unsupported("reads a map of arbitrary contents")
    look.over = True
    object.__setattr__(d, "_lazy", look)
    return d


def opaque_set(d):
    """forget the contents of a set: arbitrary, may be added to but not read"""
    d._m.clear()
    d._ix.clear()
    object.__setattr__(d, "_over", True)
    return d


class OpaqueList(list):
    """arbitrary contents so far, may be appended to but not read; holds what was appended"""

    def appended(self):
        return [list.__getitem__(self, i) for i in range(list.__len__(self))]


def opaque_list(cls):
    """an instance of a subclass of list with arbitrary contents"""
    return types.new_class(cls.__name__, (OpaqueList, cls))()


def _unreadable(name):
    def f(self, *a, **k):
        core.engine().unsupported("reads a list of arbitrary contents (%s)" % name)
    return f


for _n in ("__iter__", "__getitem__", "__setitem__", "__delitem__", "__len__", "__bool__", "__contains__", "__eq__",
           "__ne__", "__add__", "__iadd__", "__mul__", "__reversed__", "__repr__", "pop", "insert", "remove", "sort",
           "reverse", "index", "count", "clear", "copy"):
    setattr(OpaqueList, _n, _unreadable(_n))
OpaqueList.__hash__ = None


def loop(cid, it=None):
    """called before every loop of the instrumented code"""
    e = core.ENGINE
    if e is None or not e.cuts:
        return None
    fr = sys._getframe(1)
    v = {k: x for k, x in fr.f_locals.items() if not k.startswith("_pyvc")}
    for c in e.cuts:
        if c.once and c.attached:
            continue
        if c.attach(v, cid, it):
            c.attached += 1
            e.cut_log.setdefault(c.name, [0, 0, set()])
            e.cut_log[c.name][0] += 1
            e.cut_log[c.name][2].add(cid)
            return Activation(e, c, cid, fr)
    return None


class Activation:
    def __init__(self, e, c, cid, fr):
        self.e, self.c, self.cid, self.fr = e, c, cid, fr
        self.first = True
        self.unbound = ()

    def locals(self):
        return {k: x for k, x in self.fr.f_locals.items() if not k.startswith("_pyvc")}

    def havoc(self, names, extra, nonlocal_, it=None):
        if nonlocal_:
            self.e.unsupported("loop %s assigns a variable of an outer scope" % self.cid)
        self.it = it
        v = self.locals()
        self.c.entry(v, it)
        self.e.abstract = True
        new = self.c.havoc(v, it)
        if self.c.summary:
            # the contract was proved elsewhere: the loop is replaced by it
            self.e.cut_log[self.c.name][1] += 1
        for n in new:
            if n not in names and n not in extra:
                self.e.unsupported("loop %s does not use %s" % (self.cid, n))
            if n not in names and any(x is v.get(n) for k, x in v.items() if k != n):
                self.e.unsupported("loop %s: %s has another name" % (self.cid, n))
        # a local assigned by the loop which the contract does not mention is unbound at the head: reading
        # it before assigning it ends in UnboundLocalError (undecided, see Base.catch)
        self.unbound = [n for n in names if n not in new] + [n for n in extra if n not in new and n not in v]
        new = dict({n: v[n] for n in extra if n in v}, **new)
        v.update(new)
        self.keep = set(names)
        self.before = Frame(self, v)
        return tuple(new.get(n) for n in tuple(names) + tuple(extra))

    def drop(self, n):
        return n in self.unbound

    def _end(self):
        self.c.step(self.locals())
        self.before.compare()
        self.e.cut_log[self.c.name][1] += 1
        self.e.end_path()

    def head(self):
        if self.c.summary and not self.first:
            self.e.unsupported("the state behind loop %s enters it again" % self.cid)
        if self.first:
            self.first = False
            return True
        self._end()

    def iter(self, it):
        if self.c.summary:
            self.c.leave(self.locals(), it)
            return
        if self.e.choose(2) == 0:
            self.c.leave(self.locals(), it)
            return
        yield self.c.element(self.locals(), it)
        self._end()


# ---------------------------------------------------------------------------- frame condition
OWN = ("pyzwave", "hlib", "hwire", "props_")


class Frame:
    """the heap reachable before one iteration; `compare` demands that only what the contract declares
    has changed since"""

    def __init__(self, act, v):
        self.act = act
        self.items = []
        seen = set()
        skip = {id(x) for x in act.c.modifies}
        todo = [x for k, x in v.items()]
        todo += [core.ENGINE.vloop] if getattr(core.ENGINE, "vloop", None) is not None else []
        while todo:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            s = state_of(x)
            if s is None:
                continue
            declared = id(x) in skip
            if not declared:
                self.items.append((x, s))
            todo.extend(children(s))
        self.snap = core.ENGINE.snapshot

    def compare(self):
        for x, s in self.items:
            now = state_of(x)
            if len(now) != len(s) or not all(equal(a, b) for a, b in zip(now, s)):
                self.act.e.unsupported("loop %s changes %s, which its contract does not declare"
                                       % (self.act.cid, type(x).__name__))
        if self.snap is not None and self.snap.changed():
            self.act.e.unsupported("loop %s changes module state" % self.act.cid)


def children(s):
    for x in s:
        if isinstance(x, tuple):
            yield from children(x)
        else:
            yield x


def state_of(x):
    """shallow contents of a mutable object, flat; None for the others"""
    t = type(x)
    if t in (int, bool, str, bytes, float, type(None), sym.SInt, sym.SBool, sym.SStr, sym.SBytes,
             types.FunctionType, types.ModuleType, types.BuiltinFunctionType) or isinstance(x, type):
        if t is types.FunctionType and x.__closure__:
            return tuple(c.cell_contents for c in x.__closure__ if _filled(c))
        return None
    if t is types.MethodType:
        return (x.__self__,)
    out = []
    if isinstance(x, OpaqueList):
        out.extend(x.appended())
    elif isinstance(x, (list, tuple)) or t.__name__ == "deque":
        out.extend(x)
    elif isinstance(x, (dict,)):
        for k, y in list(x.items()):
            out += [k, y]
    elif isinstance(x, set):
        out.extend(x)
    if type.__instancecheck__(sym.SDict, x):
        out.append(x._lazy)
        for k, y in x._e:
            out += [k, y]
    elif type.__instancecheck__(sym.SSet, x):
        for k, g in x._m:
            out += [k, g]
    elif type.__instancecheck__(sym.SByteArray, x):
        out.extend(tuple(s) for s in x._segs)
    if t.__module__.startswith(OWN) or t.__module__.startswith("pyvc.vloop") or t.__name__ == "Future":
        d = getattr(x, "__dict__", None)
        if d:
            for k in sorted(d, key=str):
                if k in ("_e", "_ix", "_nsym", "_lazy", "_ver", "_m", "_segs"):
                    continue
                out += [k, d[k]]
        if t.__name__ == "Future":
            out += [x.done()]
    return tuple(out)


def _filled(c):
    try:
        c.cell_contents
    except ValueError:
        return False
    return True


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if type(a) is type(b) and type(a) in (int, str, bytes, bool, float):
        return a == b
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    ia, ib = sym.is_intlike(a), sym.is_intlike(b)
    if ia and ib and not isinstance(a, bool) and not isinstance(b, bool):
        pa, pb = sym.pay(a), sym.pay(b)
        if isinstance(pa, int) and isinstance(pb, int):
            return pa == pb
        return bool(core.ENGINE.valid(sym.zb2(sym.eq_t(pa, pb))))
    return False
