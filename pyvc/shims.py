"""Stand-ins for the few standard-library modules whose C code would reject symbolic values."""
import builtins
import enum as _enum
import importlib.util
import math as _math
import sys
import types

from . import core, sym
from .core import engine


# ---------------------------------------------------------------- enum
class _SymEnumMeta(_enum.EnumMeta):
    def __call__(cls, value=None, *args, **kw):
        if not args and not kw and builtins.type.__instancecheck__(sym.SInt, value):
            p = value._pv
            if isinstance(p, int):
                return super().__call__(p)
            if issubclass(cls, _enum.Flag):
                return super().__call__(value.__index__())
            for m in cls:
                if value == m.value:
                    return m
            raise ValueError("not a valid %s" % cls.__qualname__)
        if isinstance(value, sym.SBool):
            value = bool(value)
        if value is None and not args and not kw:
            return super().__call__()
        return super().__call__(value, *args, **kw)

    def __contains__(cls, value):
        if builtins.type.__instancecheck__(sym.SInt, value):
            for m in cls:
                if value == m.value:
                    return True
            return False
        return super().__contains__(value)


def _enum_mod():
    m = types.ModuleType("enum")
    for k in dir(_enum):
        if not k.startswith("__"):
            setattr(m, k, getattr(_enum, k))

    class Enum(_enum.Enum, metaclass=_SymEnumMeta):
        pass

    class IntEnum(_enum.IntEnum, metaclass=_SymEnumMeta):
        pass

    class Flag(_enum.Flag, metaclass=_SymEnumMeta):
        pass

    class IntFlag(_enum.IntFlag, metaclass=_SymEnumMeta):
        pass

    m.Enum, m.IntEnum, m.Flag, m.IntFlag = Enum, IntEnum, Flag, IntFlag
    # issubclass(x, enum.IntFlag) also has to accept the stdlib's own classes
    return m


# ---------------------------------------------------------------- math
def _math_mod():
    m = types.ModuleType("math")
    for k in dir(_math):
        if not k.startswith("__"):
            setattr(m, k, getattr(_math, k))

    def _p(x):
        return builtins.type.__instancecheck__(sym.SInt, x) and not isinstance(x._pv, int)

    def pow_(a, b):
        if _p(b):
            b = b.__index__()
        if _p(a):
            r = a
            if b == 0:
                return 1.0
            for _ in range(b - 1):
                r = r * a
            return sym.SFloat(r)
        return _math.pow(a, b)

    def floor(x):
        if _p(x):
            return x
        if builtins.type.__instancecheck__(sym.SFloat, x):
            n, d = x._ratio()
            return sym.wrap(sym.p_floordiv(n, d))
        return _math.floor(x)

    def ceil(x):
        return -floor(-x)

    def trunc(x):
        if _p(x):
            return x
        if builtins.type.__instancecheck__(sym.SFloat, x):
            return x.__int__()
        return _math.trunc(x)

    m.pow, m.floor, m.ceil, m.trunc = pow_, floor, ceil, trunc
    return m


# ---------------------------------------------------------------- ipaddress: the stdlib source
def _ipaddress_mod():
    from . import instr
    spec = importlib.util.find_spec("ipaddress")
    m = types.ModuleType("ipaddress")
    m.__file__ = spec.origin
    with open(spec.origin) as f:
        src = f.read()
    b = dict(instr.make_builtins())
    m.__dict__["__builtins__"] = b
    m.__dict__["__pyvc__"] = instr.V
    exec(instr.transform(src, spec.origin, "ipaddress", hooks=False), m.__dict__)
    return m


# ---------------------------------------------------------------- in-memory files
class FS:
    files = {}

    @classmethod
    def reset(cls):
        cls.files = {}


class _File:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.closed = False
        if "w" in mode:
            FS.files[path] = Doc([])
        elif "a" in mode:
            FS.files.setdefault(path, Doc([]))
        elif path not in FS.files:
            raise FileNotFoundError(2, "No such file or directory: %r" % path)
        self.doc = FS.files[path]

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def write(self, x):
        self.doc.items.append(x)

    def flush(self):
        pass

    def fileno(self):
        return -1

    def read(self, *a):
        return self.doc


class Doc:
    def __init__(self, items):
        self.items = items


def v_open(path, mode="r", *a, **k):
    return _File(str(path), mode)


def _pathlib_mod():
    import pathlib
    m = types.ModuleType("pathlib")
    for k in dir(pathlib):
        if not k.startswith("__"):
            setattr(m, k, getattr(pathlib, k))

    class Path(pathlib.PurePosixPath):
        def exists(self):
            return str(self) in FS.files

        is_file = exists

        def open(self, mode="r", *a, **k):
            return v_open(self, mode)

        def mkdir(self, *a, **k):
            pass

        def unlink(self, missing_ok=False):
            FS.files.pop(str(self), None)

        def replace(self, target):
            FS.files[str(target)] = FS.files.pop(str(self))
            return Path(str(target))

        rename = replace

        @property
        def parent(self):
            return Path(str(pathlib.PurePosixPath(str(self)).parent))

        def with_suffix(self, s):
            return Path(str(pathlib.PurePosixPath(str(self)).with_suffix(s)))

        def with_name(self, s):
            return Path(str(pathlib.PurePosixPath(str(self)).with_name(s)))

    m.Path = Path
    m.PosixPath = Path
    return m


def _os_mod():
    import os
    m = types.ModuleType("os")
    for k in dir(os):
        if not k.startswith("__"):
            setattr(m, k, getattr(os, k))

    def replace(a, b):
        FS.files[str(b)] = FS.files.pop(str(a))
    m.replace = m.rename = replace
    m.fsync = lambda fd: None
    m.makedirs = lambda *a, **k: None

    def unlink(p):
        FS.files.pop(str(p))
    m.unlink = m.remove = unlink
    p = types.ModuleType("os.path")
    for k in dir(os.path):
        if not k.startswith("__"):
            setattr(p, k, getattr(os.path, k))
    p.exists = p.isfile = lambda x: str(x) in FS.files
    m.path = p
    return m


# ---------------------------------------------------------------- yaml
def _yaml_mod():
    """Model of the yaml round trip used by the storage (an assumed contract on PyYAML): what
    yaml.dump writes for a tree of mappings, sequences and scalars is what
    yaml.load(..., BaseLoader) returns, with every scalar as its text.  Representable scalars are
    None, bool, int, float and str (and the exact builtin containers); anything else -- including
    subclasses of int or str, which the default Dumper writes as python/object tags -- is
    rejected as outside the contract."""
    import yaml
    m = types.ModuleType("yaml")

    class YAMLObjectMetaclass(type):
        pass

    class YAMLObject(metaclass=YAMLObjectMetaclass):
        yaml_tag = None

    class BaseLoader:
        pass

    class SafeLoader:
        pass

    class YAMLError(Exception):
        pass

    def norm(x):
        if x is None:
            return "null"
        if isinstance(x, (bool, sym.SBool)):
            return "true" if x else "false"
        if builtins.type(x) is int:
            return str(x)
        if builtins.type(x) is sym.SInt:
            return sym.SStr._mk([sym.int_part(x)])
        if builtins.type(x) is str or builtins.type(x) is sym.SStr:
            return x
        if builtins.type(x) is float:
            return repr(x)
        if builtins.type(x) in (dict, sym.SDict):
            d = sym.SDict()
            for k, v in x.items():
                sym.SDict.__setitem__(d, norm(k), norm(v))
            return d
        if builtins.type(x) in (list,):
            return [norm(y) for y in x]
        if isinstance(x, YAMLObject):
            return norm(x.__getstate__())
        engine().unsupported("yaml.dump of %s" % builtins.type(x).__name__)

    def dump(data, stream=None, *a, **k):
        n = norm(data)
        if stream is None:
            return Doc([n])
        stream.write(n)

    def load(fd, Loader=None):
        items = fd.items if isinstance(fd, Doc) else fd.doc.items
        if not items:
            return None
        if len(items) != 1:
            engine().unsupported("yaml stream with several writes")
        it = items[0]
        if isinstance(it, Doc):
            it = it.items[0]
        return copy(it)

    def copy(x):
        if builtins.type(x) is sym.SDict:
            d = sym.SDict()
            for k, v in x.items():
                sym.SDict.__setitem__(d, copy(k), copy(v))
            return d
        if isinstance(x, list):
            return [copy(y) for y in x]
        return x

    m.YAMLObject, m.BaseLoader, m.SafeLoader, m.YAMLError = YAMLObject, BaseLoader, SafeLoader, YAMLError
    m.dump, m.load = dump, load
    m.safe_dump = dump
    return m


# ---------------------------------------------------------------- crcmod
def _crcmod_mod():
    """The CRC of a byte string: computed when concrete, an uninterpreted function of the bytes
    otherwise (assumed contract: equal data has equal checksums; nothing else)."""
    import crcmod.predefined
    m = types.ModuleType("crcmod")
    p = types.ModuleType("crcmod.predefined")

    def mkCrcFun(name):
        real = crcmod.predefined.mkCrcFun(name)

        def crc(data, *a):
            if builtins.type.__instancecheck__(sym.SBytes, data):
                if data.is_concrete():
                    return real(data.concrete(), *a)
                return sym.uf_crc(name, data)
            return real(data, *a)
        return crc
    p.mkCrcFun = p.mkPredefinedCrcFun = mkCrcFun
    m.predefined = p
    return m


def build():
    return {"enum": _enum_mod(), "math": _math_mod(), "ipaddress": _ipaddress_mod(),
            "pathlib": _pathlib_mod(), "os": _os_mod(), "yaml": _yaml_mod(),
            "crcmod": _crcmod_mod()}
