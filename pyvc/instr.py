"""Mechanical instrumentation of the real sources.  On every run the modules of /repo/pyzwave are
read from disk, rewritten by the AST transform below and executed with a builtins table
whose types are the symbolic ones of sym.py.  The transform changes no control flow; it only
routes constructs that CPython hard-wires to builtin types (displays, comprehensions,
f-strings, methods of string/bytes literals) to the corresponding symbolic constructors:

  {k: v}            -> V.mkdict([(k, v)])         {a, b}   -> V.mkset([a, b])
  {k: v for ..}     -> V.mkdict([(k, v) for ..])  {a for ..} -> V.mkset([a for ..])
  f"..{x}.."        -> V.fstr(..)                 "lit".m(..) -> V.slit("lit").m(..)
  "lit" % x         -> V.pct("lit", x)
  if T: s.add(x)    -> guarded insertion when T is symbolic and s is a set (no path split)
  def f(..): body   -> V.enter(id); body          (coverage record only)
  while/for         -> cut point at the loop head, inert unless a harness registered a loop
                       contract that attaches (see cut.py)
"""
import ast
import builtins
import copy
import enum
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import core, cut, sym

ENTERED = set()
SOURCES = {}


def enter(fid):
    e = core.ENGINE
    if e is not None:
        e.functions.add(fid)


class _V:
    mkdict = staticmethod(sym.mkdict)
    mkset = staticmethod(sym.mkset)
    mkset_if = staticmethod(sym.mkset_if)
    fstr = staticmethod(sym.fstr)
    slit = staticmethod(sym.slit)
    blit = staticmethod(sym.blit)
    pct = staticmethod(sym.pct)
    enter = staticmethod(enter)
    loop = staticmethod(cut.loop)

    @staticmethod
    def updict(d, m):
        d.update(m)
        return d

    @staticmethod
    def guard(t, recv, meth, calls=()):
        """t itself when a guarded insertion is possible, else None; `calls`: what the inserted
        expressions call, which must be without effects (enumerations)"""
        if core.ENGINE is None:
            return None
        for f in calls:
            if not (isinstance(f, builtins.type) and issubclass(f, enum.Enum)):
                return None
        c = sym.test(t) if type(t) in (sym.SInt, sym.SBool) or isinstance(t, sym.SInt) else t
        if isinstance(c, sym.SBool) and type.__instancecheck__(sym.SSet, recv) \
                and type(recv).add is sym.SSet.add:
            return c
        return None


    @staticmethod
    def escaped():
        """an exception leaves a block executed under a guard: it may not be raised really"""
        raise core.Unsupported("exception in a guarded block")


V = _V


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _vcall(fn, *args):
    return ast.Call(func=ast.Attribute(value=_name("__pyvc__"), attr=fn, ctx=ast.Load()),
                    args=list(args), keywords=[])


def _simple(e):
    if isinstance(e, (ast.Name, ast.Constant)):
        return True
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd)) and \
            _simple(e.left) and _simple(e.right)
    return False


def _path(e):
    return isinstance(e, ast.Name) or (isinstance(e, ast.Attribute) and _path(e.value))


def assigned(loop):
    """the locals a loop assigns"""
    out = set()

    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension; a walrus inside is not
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            go(c)
    go(loop)
    return out


class Transform(ast.NodeTransformer):
    def __init__(self, modname, hooks=True):
        self.mod = modname
        self.stack = []
        self.hooks = hooks
        self.n = 0
        self.funcs = []

    # -- functions
    def _func(self, node):
        self.stack.append(node.name)
        fid = self.mod + ":" + ".".join(self.stack)
        glob = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        a = node.args
        mine = {x.arg for x in a.args + a.posonlyargs + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for x in node.body:
            mine |= assigned(x)
        self.funcs.append([fid, 0, glob, mine - glob])
        node = self.generic_visit(node)
        self.funcs.pop()
        self.stack.pop()
        if self.hooks:
            body = node.body
            i = 1 if body and isinstance(body[0], ast.Expr) and \
                isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str) else 0
            body.insert(i, ast.Expr(value=_vcall("enter", ast.Constant(value=fid))))
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.funcs.append(None)
        node = self.generic_visit(node)
        self.funcs.pop()
        self.stack.pop()
        return node

    # -- loops
    def _loop(self, node):
        names = sorted(assigned(node))
        used = {x.id for x in ast.walk(node) if isinstance(x, ast.Name)}
        node = self.generic_visit(node)
        if not self.hooks or not self.funcs or self.funcs[-1] is None:
            return node
        f = self.funcs[-1]
        cid = "%s#%d" % (f[0], f[1])
        f[1] += 1
        self.n += 1
        c, it = "_pyvc_l%d" % self.n, "_pyvc_i%d" % self.n
        active = ast.Compare(left=_name(c), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)])
        inert = ast.Compare(left=_name(c), ops=[ast.Is()], comparators=[ast.Constant(value=None)])
        pre = []
        isfor = isinstance(node, ast.For)
        if isfor:
            pre.append(ast.Assign(targets=[_name(it, ast.Store())], value=node.iter))
        args = [_name(it)] if isfor else []
        pre.append(ast.Assign(targets=[_name(c, ast.Store())],
                              value=_vcall("loop", ast.Constant(value=cid), *args)))
        outer = [n for n in names if n in f[2]]
        names = [n for n in names if n not in f[2]]
        # locals the loop only uses: a contract may replace their value too
        extra = sorted((used & f[3]) - set(names))

        def call(meth, *a):
            return ast.Call(func=ast.Attribute(value=_name(c), attr=meth, ctx=ast.Load()), args=list(a), keywords=[])

        hv = call("havoc", ast.Tuple(elts=[ast.Constant(value=n) for n in names], ctx=ast.Load()),
                  ast.Tuple(elts=[ast.Constant(value=n) for n in extra], ctx=ast.Load()),
                  ast.Constant(value=bool(outer)), *args)
        if names or extra:
            body = [ast.Assign(targets=[ast.Tuple(elts=[_name(n, ast.Store()) for n in names + extra],
                                                  ctx=ast.Store())], value=hv)]
            body += [ast.If(test=call("drop", ast.Constant(value=n)),
                            body=[ast.Delete(targets=[_name(n, ast.Del())])], orelse=[]) for n in extra]
            body += [ast.If(test=call("drop", ast.Constant(value=n)),
                            body=[ast.Delete(targets=[_name(n, ast.Del())])], orelse=[]) for n in names]
        else:
            body = [ast.Expr(value=hv)]
        pre.append(ast.If(test=active, body=body, orelse=[]))
        if isfor:
            node.iter = ast.IfExp(test=inert, body=_name(it), orelse=call("iter", _name(it)))
        else:
            node.test = ast.BoolOp(op=ast.And(), values=[
                ast.BoolOp(op=ast.Or(), values=[inert, call("head")]), node.test])
        for x in pre:
            ast.copy_location(x, node)
        return pre + [node]

    visit_While = _loop
    visit_For = _loop

    # -- displays
    def visit_Dict(self, node):
        node = self.generic_visit(node)
        if any(k is None for k in node.keys):
            r = _vcall("mkdict", ast.List(elts=[], ctx=ast.Load()))
            for k, v in zip(node.keys, node.values):
                if k is None:
                    r = _vcall("updict", r, v)
                else:
                    r = _vcall("updict", r, ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load())],
                                                     ctx=ast.Load()))
            return ast.copy_location(r, node)
        pairs = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_vcall("mkdict", ast.List(elts=pairs, ctx=ast.Load())), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return ast.copy_location(_vcall("mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        lc = ast.ListComp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                          generators=node.generators)
        return ast.copy_location(_vcall("mkdict", lc), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        last = node.generators[-1]
        if len(last.ifs) == 1 and _simple(node.elt):
            cond = last.ifs[0]
            last.ifs = []
            lc = ast.ListComp(elt=ast.Tuple(elts=[cond, node.elt], ctx=ast.Load()),
                              generators=node.generators)
            return ast.copy_location(_vcall("mkset_if", lc), node)
        return ast.copy_location(_vcall("mkset", ast.ListComp(elt=node.elt,
                                                              generators=node.generators)), node)

    # -- text
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant(value="")
                else:
                    spec = self.visit_JoinedStr(spec)
                parts.append(ast.Tuple(elts=[val, ast.Constant(value=v.conversion), spec],
                                       ctx=ast.Load()))
        return ast.copy_location(_vcall("fstr", *parts), node)

    def visit_Call(self, node):
        node = self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Constant):
            if isinstance(f.value.value, str):
                f.value = _vcall("slit", f.value)
            elif isinstance(f.value.value, bytes):
                f.value = _vcall("blit", f.value)
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and \
                isinstance(node.left.value, str):
            return ast.copy_location(_vcall("pct", node.left, node.right), node)
        return node

    # -- guarded insertion
    def _insertions(self, body, out):
        """collect the `.add` calls of a block made of nothing else; False if there is anything else"""
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Try):
                if s.orelse or s.finalbody or not all(
                        h.name is None and self._insertions(h.body, out) for h in s.handlers) \
                        or not self._insertions(s.body, out):
                    return False
                continue
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                return False
            c = s.value
            if not (isinstance(c.func, ast.Attribute) and c.func.attr == "add" and len(c.args) == 1
                    and not c.keywords and _path(c.func.value)):
                return False
            a = c.args[0]
            if isinstance(a, ast.Call):
                if not (_path(a.func) and len(a.args) == 1 and not a.keywords and _simple(a.args[0])):
                    return False
            elif not _simple(a):
                return False
            out.append(c)
        return True

    def visit_If(self, node):
        node = self.generic_visit(node)
        found = []
        if node.orelse or not self._insertions(node.body, found) or not found \
                or len({ast.dump(c.func.value) for c in found}) != 1:
            return node
        calls = {ast.dump(c.args[0].func): c.args[0].func for c in found if isinstance(c.args[0], ast.Call)}
        self.n += 1
        t, g = "_pyvc_t%d" % self.n, "_pyvc_g%d" % self.n
        guarded = copy.deepcopy(node.body)
        again = []
        self._insertions(guarded, again)
        for c in again:
            c.func.attr = "add_if"
            c.args.insert(0, _name(g))
        if calls:
            guarded = [ast.Try(body=guarded, orelse=[], finalbody=[], handlers=[ast.ExceptHandler(
                type=_name("Exception"), name=None, body=[ast.Expr(value=_vcall("escaped"))])])]
        new = [
            ast.Assign(targets=[_name(t, ast.Store())], value=node.test),
            ast.Assign(targets=[_name(g, ast.Store())],
                       value=_vcall("guard", _name(t), found[0].func.value, ast.Constant(value="add"),
                                    ast.Tuple(elts=list(calls.values()), ctx=ast.Load()))),
            ast.If(test=ast.Compare(left=_name(g), ops=[ast.IsNot()],
                                    comparators=[ast.Constant(value=None)]),
                   body=guarded,
                   orelse=[ast.If(test=_name(t), body=node.body, orelse=[])]),
        ]
        for x in new:
            ast.copy_location(x, node)
        return new


def transform(src, filename, modname, hooks=True):
    tree = ast.parse(src, filename)
    tree = Transform(modname, hooks).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec")


# ============================================================================ builtins table
_SHIMS = {}


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in _SHIMS:
        return _SHIMS[name]
    if level == 0 and "." in name and name.split(".")[0] in _SHIMS:
        top = _SHIMS[name.split(".")[0]]
        if not fromlist:
            return top
        m = top
        for p in name.split(".")[1:]:
            m = getattr(m, p)
        return m
    return builtins.__import__(name, globals, locals, fromlist, level)


class _VType:
    """stands for `type`"""

    def __call__(self, *a, **k):
        if len(a) == 1 and not k:
            t = builtins.type(a[0])
            return {int: sym.SInt, bytes: sym.SBytes, bytearray: sym.SByteArray, str: sym.SStr,
                    float: sym.SFloat, dict: sym.SDict, set: sym.SSet, bool: sym.VBool,
                    sym.SBool: sym.VBool, sym.SRange: sym.VRange}.get(t, t)
        return builtins.type(*a, **k)

    def __mro_entries__(self, bases):
        return (builtins.type,)

    def __instancecheck__(self, x):
        return isinstance(x, builtins.type)

    def __getattr__(self, n):
        return getattr(builtins.type, n)


def _v_print(*a, **k):
    pass


def _v_any(it):
    for x in it:
        if x:
            return True
    return False


def _v_all(it):
    for x in it:
        if not x:
            return False
    return True


def _v_ord(x):
    return ord(x.concrete() if isinstance(x, sym.SStr) and not isinstance(x, str) else x)


def _v_hex(x):
    return sym.v_format(x, "#x")


def _v_divmod(a, b):
    return (a // b, a % b)


def _v_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def _v_hash(x):
    return hash(x)


class _VList(list):
    pass


def _v_sorted(it, *, key=None, reverse=False):
    out = list(it)
    # stable insertion sort: comparisons may fork
    ks = [key(x) if key else x for x in out]
    r = []
    for k, x in zip(ks, out):
        i = len(r)
        while i > 0 and ((k > r[i - 1][0]) if reverse else (k < r[i - 1][0])):
            i -= 1
        r.insert(i, (k, x))
    return [x for _, x in r]


def make_builtins():
    b = dict(vars(builtins))
    b.update({
        "int": sym.SInt, "bytes": sym.SBytes, "bytearray": sym.SByteArray, "str": sym.SStr,
        "float": sym.SFloat, "dict": sym.SDict, "set": sym.SSet, "len": sym.V_len,
        "range": sym.VRange, "bool": sym.VBool, "repr": sym.v_repr, "sum": sym.v_sum,
        "abs": sym.v_abs, "min": sym.v_min, "max": sym.v_max, "round": sym.v_round,
        "chr": sym.v_chr, "ord": _v_ord, "format": sym.v_format, "print": _v_print,
        "type": _VType(), "hex": _v_hex, "divmod": _v_divmod, "sorted": _v_sorted,
        "open": None, "__import__": _import,
    })
    from . import shims
    b["open"] = shims.v_open
    return b


BUILTINS = None


class Loader(importlib.abc.Loader):
    def __init__(self, name, path):
        self.name, self.path = name, path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            data = f.read()
        SOURCES[self.path] = hashlib.sha256(data).hexdigest()[:16]
        code = transform(data.decode("utf-8"), self.path, self.name)
        module.__dict__["__builtins__"] = BUILTINS
        module.__dict__["__pyvc__"] = V
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path=None, target=None):
        if fullname != "pyzwave" and not fullname.startswith("pyzwave."):
            return None
        base = os.path.join(self.root, *fullname.split("."))
        if os.path.isdir(base):
            init = os.path.join(base, "__init__.py")
            if not os.path.exists(init):
                # namespace package
                spec = importlib.machinery.ModuleSpec(fullname, None, is_package=True)
                spec.submodule_search_locations = [base]
                return spec
            return importlib.util.spec_from_file_location(
                fullname, init, loader=Loader(fullname, init), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f))
        return None


_installed = False


def install(root="/repo"):
    """Make `import pyzwave...` load the instrumented sources in this process."""
    global BUILTINS, _installed
    if _installed:
        return
    _installed = True
    import logging
    logging.disable(logging.CRITICAL + 10)
    from . import shims
    _SHIMS.update(shims.build())
    BUILTINS = make_builtins()
    for m in list(sys.modules):
        if m == "pyzwave" or m.startswith("pyzwave."):
            del sys.modules[m]
    sys.meta_path.insert(0, Finder(root))


def load_file(path, modname):
    """Run a harness file through the same transform."""
    import types
    with open(path) as f:
        src = f.read()
    m = types.ModuleType(modname)
    m.__file__ = path
    m.__dict__["__builtins__"] = BUILTINS
    m.__dict__["__pyvc__"] = V
    exec(transform(src, path, modname, hooks=False), m.__dict__)
    return m


# ============================================================================ state snapshots
class Snapshot:
    """Module and class level containers of the instrumented program, restored before every
    path so that state cannot leak from one path into another."""

    def __init__(self):
        self.items = []
        seen = set()
        for name, m in list(sys.modules.items()):
            if not (name == "pyzwave" or name.startswith("pyzwave.")) or m is None:
                continue
            self._ns(m.__dict__, ("m", m), seen, name)

    def _ns(self, d, owner, seen, modname):
        names = {}
        for k, v in list(d.items()):
            if k.startswith("__") and k not in ("__messageHandlers__",):
                continue
            names[k] = v
            self._obj(v, seen)
            if isinstance(v, builtins.type) and getattr(v, "__module__", "").startswith("pyzwave") \
                    and id(v) not in seen:
                seen.add(id(v))
                self._ns(dict(v.__dict__), ("c", v), seen, modname)
        self.items.append((owner, names))

    def _obj(self, v, seen):
        if id(v) in seen:
            return
        if isinstance(v, builtins.list):
            seen.add(id(v))
            self.items.append((("list", v), list(v)))
        elif builtins.type.__instancecheck__(sym.SDict, v):
            seen.add(id(v))
            self.items.append((("dict", v), ([list(e) for e in v._e],)))
        elif builtins.type.__instancecheck__(sym.SSet, v):
            seen.add(id(v))
            self.items.append((("set", v), [list(e) for e in v._m]))

    def changed(self):
        for (kind, obj), saved in self.items:
            if kind == "list":
                if len(obj) != len(saved) or any(a is not b for a, b in zip(obj, saved)):
                    return True
            elif kind == "dict":
                es, cur = saved[0], obj._e
                if len(cur) != len(es) or any(a[0] is not b[0] or a[1] is not b[1] for a, b in zip(cur, es)):
                    return True
            elif kind == "set":
                if len(obj._m) != len(saved):
                    return True
            else:
                cur = obj.__dict__
                if any(cur.get(k) is not v for k, v in saved.items()) or \
                        any(k not in saved and not k.startswith("__") for k in cur):
                    return True
        return False

    def restore(self):
        for (kind, obj), saved in self.items:
            if kind == "list":
                if len(obj) != len(saved) or any(a is not b for a, b in zip(obj, saved)):
                    obj[:] = saved
            elif kind == "dict":
                (es,) = saved
                cur = obj._e
                if len(cur) != len(es) or any(a[0] is not b[0] or a[1] is not b[1]
                                              for a, b in zip(cur, es)):
                    sym.SDict.clear(obj)
                    for k, v in es:
                        obj._insert(k, v)
            elif kind == "set":
                if len(obj._m) != len(saved):
                    obj.clear()
                    for k, g in saved:
                        obj.add_if(g, k)
            else:
                cur = obj.__dict__
                for k, v in saved.items():
                    if cur.get(k) is not v:
                        try:
                            setattr(obj, k, v)
                        except Exception:
                            pass
                for k in list(cur):
                    if k not in saved and not k.startswith("__"):
                        try:
                            delattr(obj, k)
                        except Exception:
                            pass
