"""Symbolic values.  Every class here stands in for a Python builtin inside the instrumented
modules; a value that is fully concrete behaves as CPython's own type does, a symbolic one
carries a z3 term.  Integers are mathematical (unbounded): bounded ones are kept as
signed bit-vectors wide enough for their interval, so shifts and masks are exact."""
import builtins
import math as _math

import z3

from . import core
from .core import engine

_int, _bytes, _bytearray, _str, _float, _dict, _set, _list, _bool = (
    builtins.int, builtins.bytes, builtins.bytearray, builtins.str, builtins.float,
    builtins.dict, builtins.set, builtins.list, builtins.bool)


# ============================================================================ integer terms
class T:
    """A symbolic integer: kind 'bv' (signed bit-vector, value in [lo,hi]) or 'int'."""
    __slots__ = ("t", "lo", "hi", "kind")

    def __init__(self, t, lo, hi, kind):
        self.t, self.lo, self.hi, self.kind = t, lo, hi, kind


def _bits(lo, hi):
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (lo + 1).bit_length() + 1 if lo < -1 else 1)
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


def mkbv(t, lo, hi):
    if lo == hi:
        return lo
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_signed_long()
    w = _bits(lo, hi)
    if t.size() > w:
        t = z3.simplify(z3.Extract(w - 1, 0, t))
    return T(t, lo, hi, "bv")


def mkint(t, lo=None, hi=None):
    if lo is not None and lo == hi:
        return lo
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return T(t, lo, hi, "int")


def _ext(a, w):
    if isinstance(a, _int):
        return z3.BitVecVal(a, w)
    n = a.t.size()
    if n < w:
        return z3.SignExt(w - n, a.t)
    if n > w:
        return z3.Extract(w - 1, 0, a.t)
    return a.t


def toInt(a):
    """z3 Int expression of a payload."""
    if isinstance(a, _int):
        return z3.IntVal(a)
    if a.kind == "int":
        return a.t
    if a.lo >= 0:
        t = a.t
        n = t.size()
        if n > 1:
            t = z3.simplify(z3.Extract(n - 2, 0, t))
        return z3.BV2Int(t, False)
    return z3.BV2Int(a.t, True)


def asbv(a):
    """Convert an 'int' payload with a known small interval into a bit-vector one."""
    if isinstance(a, _int) or a.kind == "bv":
        return a
    if a.lo is None or a.hi is None or max(abs(a.lo), abs(a.hi)) > 1 << 64:
        return None
    w = _bits(a.lo, a.hi)
    return mkbv(z3.Int2BV(a.t, w), a.lo, a.hi)


def rng(a):
    if isinstance(a, _int):
        return a, a
    return a.lo, a.hi


def _isbv(a):
    return isinstance(a, _int) or a.kind == "bv"


def _opt(f, *xs):
    if any(x is None for x in xs):
        return None
    return f(*xs)


def p_add(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a + b
    if isinstance(b, _int) and b == 0:
        return a
    if isinstance(a, _int) and a == 0:
        return b
    (al, ah), (bl, bh) = rng(a), rng(b)
    if _isbv(a) and _isbv(b):
        lo, hi = al + bl, ah + bh
        w = _bits(lo, hi)
        return mkbv(_ext(a, w) + _ext(b, w), lo, hi)
    return mkint(toInt(a) + toInt(b), _opt(lambda x, y: x + y, al, bl),
                 _opt(lambda x, y: x + y, ah, bh))


def p_neg(a):
    if isinstance(a, _int):
        return -a
    if a.kind == "bv":
        w = _bits(-a.hi, -a.lo)
        w = max(w, a.t.size() + 1)
        return mkbv(-_ext(a, w), -a.hi, -a.lo)
    return mkint(-a.t, _opt(lambda x: -x, a.hi), _opt(lambda x: -x, a.lo))


def p_sub(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a - b
    if isinstance(b, _int) and b == 0:
        return a
    (al, ah), (bl, bh) = rng(a), rng(b)
    if _isbv(a) and _isbv(b):
        lo, hi = al - bh, ah - bl
        w = max(_bits(lo, hi), _bits(al, ah), _bits(bl, bh))
        return mkbv(_ext(a, w) - _ext(b, w), lo, hi)
    return mkint(toInt(a) - toInt(b), _opt(lambda x, y: x - y, al, bh),
                 _opt(lambda x, y: x - y, ah, bl))


def p_mul(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, _int):
            if x == 0:
                return 0
            if x == 1:
                return y
    (al, ah), (bl, bh) = rng(a), rng(b)
    if None not in (al, ah, bl, bh):
        c = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(c), max(c)
    else:
        lo = hi = None
        if al is not None and bl is not None and al >= 0 and bl >= 0:
            lo = al * bl
    if _isbv(a) and _isbv(b):
        w = _bits(lo, hi)
        w = max(w, _bits(al, ah), _bits(bl, bh))
        return mkbv(_ext(a, w) * _ext(b, w), lo, hi)
    if not (isinstance(a, _int) or isinstance(b, _int)):
        engine().unsupported("nonlinear multiplication")
    return mkint(toInt(a) * toInt(b), lo, hi)


def _force_concrete(a, what):
    if isinstance(a, _int):
        return a
    e = engine()
    return e.concretize(a.t, lambda m: eval_payload(m, a), lambda v: eq_t(a, v), what=what)


def p_floordiv(a, b):
    if isinstance(b, T):
        b = _force_concrete(b, "divisor")
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if isinstance(a, _int):
        return a // b
    if b < 0:
        return p_floordiv(p_neg(a), -b)
    al, ah = rng(a)
    lo, hi = _opt(lambda x: x // b, al), _opt(lambda x: x // b, ah)
    if a.kind == "bv":
        w = max(a.t.size(), _bits(b, b)) + 1
        x = _ext(a, w)
        m = b & (b - 1)
        if m == 0:
            return mkbv(x >> (b.bit_length() - 1), lo, hi)
        bv = z3.BitVecVal(b, w)
        if al >= 0:
            return mkbv(z3.UDiv(x, bv), lo, hi)
        return mkbv((x - z3.SRem(z3.SRem(x, bv) + bv, bv)) / bv, lo, hi)
    whole, rest = _split(a.t, b)
    if whole is None:
        return mkint(a.t / b, lo, hi)   # z3 Int div is floor for positive divisor
    if isinstance(rest, _int):
        return mkint(whole + rest // b, lo, hi)
    return mkint(whole + rest / b, lo, hi)


def p_mod(a, b):
    if isinstance(b, T):
        b = _force_concrete(b, "modulus")
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if isinstance(a, _int):
        return a % b
    if b < 0:
        return p_neg(p_mod(p_neg(a), -b))
    al, ah = rng(a)
    if al is not None and ah is not None and 0 <= al and ah < b:
        return a
    if a.kind == "bv":
        w = max(a.t.size(), _bits(b, b)) + 1
        x = _ext(a, w)
        if b & (b - 1) == 0:
            return mkbv(x & z3.BitVecVal(b - 1, w), 0, b - 1)
        bv = z3.BitVecVal(b, w)
        if al >= 0:
            return mkbv(z3.URem(x, bv), 0, b - 1)
        return mkbv(z3.SRem(z3.SRem(x, bv) + bv, bv), 0, b - 1)
    whole, rest = _split(a.t, b)
    if whole is not None:
        if isinstance(rest, _int):
            return rest % b
        return mkint(rest % b, 0, b - 1)
    return mkint(a.t % b, 0, b - 1)


def _split(t, b):
    """t == b * whole + rest with the multiples of b taken out; (None, None) if there are none"""
    t = z3.simplify(t, som=True)
    args = t.children() if z3.is_add(t) else [t]
    whole, rest, c = [], [], 0
    for x in args:
        if z3.is_int_value(x):
            c += x.as_long()
            continue
        if z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)):
            k = x.arg(0).as_long()
            if k % b == 0:
                whole.append(x.arg(1) * (k // b) if k != b else x.arg(1))
                continue
        rest.append(x)
    if not whole:
        return None, None
    w = whole[0] if len(whole) == 1 else z3.Sum(whole)
    if not rest:
        return w, c
    r = rest[0] if len(rest) == 1 else z3.Sum(rest)
    return w, (r + c if c else r)


def p_lshift(a, n):
    if isinstance(n, T):
        if n.hi is not None and n.hi <= 64 and n.lo is not None and _isbv(a):
            if n.lo < 0:
                if engine().decide(lt_t(n, 0)):
                    raise ValueError("negative shift count")
                n = T(n.t, 0, n.hi, n.kind)
            nb = asbv(n)
            if isinstance(nb, _int):
                return p_lshift(a, nb)
            al, ah = rng(a)
            lo, hi = min(al, al << nb.hi), max(ah, ah << nb.hi)
            w = max(_bits(lo, hi), nb.t.size() + 1, _bits(nb.hi, nb.hi) + 1)
            return mkbv(_ext(a, w) << _ext(nb, w), lo, hi)
        n = _force_concrete(n, "shift count")
    if n < 0:
        raise ValueError("negative shift count")
    if isinstance(a, _int):
        return a << n
    return p_mul(a, 1 << n)


def p_rshift(a, n):
    if isinstance(n, T):
        n = _force_concrete(n, "shift count")
    if n < 0:
        raise ValueError("negative shift count")
    if isinstance(a, _int):
        return a >> n
    if n == 0:
        return a
    return p_floordiv(a, 1 << n)


def p_and(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a & b
    if isinstance(a, _int):
        a, b = b, a
    if isinstance(b, _int):
        if b == 0:
            return 0
        if b > 0 and (b & (b + 1)) == 0:     # 2^k-1
            return p_mod(a, b + 1)
        if b == -1:
            return a
    a2, b2 = asbv(a), asbv(b)
    if a2 is None or b2 is None:
        if isinstance(b, _int) and b > 0:
            return p_and(p_mod(a, 1 << b.bit_length()), b)
        engine().unsupported("bitwise and on unbounded integers")
    if isinstance(a2, _int) or isinstance(b2, _int):
        if isinstance(a2, _int) and isinstance(b2, _int):
            return a2 & b2
    (al, ah), (bl, bh) = rng(a2), rng(b2)
    if al >= 0 and bl >= 0:
        lo, hi = 0, min(ah, bh)
    elif al >= 0:
        lo, hi = 0, ah
    elif bl >= 0:
        lo, hi = 0, bh
    else:
        n = max(_bits(al, ah), _bits(bl, bh))
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    w = max(_bits(al, ah), _bits(bl, bh))
    return mkbv(_ext(a2, w) & _ext(b2, w), lo, hi)


def _orx(a, b, op, fop):
    if isinstance(a, _int) and isinstance(b, _int):
        return fop(a, b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, _int) and x == 0:
            return y
    a2, b2 = asbv(a), asbv(b)
    if a2 is None or b2 is None:
        engine().unsupported("bitwise or/xor on unbounded integers")
    if isinstance(a2, _int) and isinstance(b2, _int):
        return fop(a2, b2)
    (al, ah), (bl, bh) = rng(a2), rng(b2)
    n = max(_bits(al, ah), _bits(bl, bh))
    if al >= 0 and bl >= 0:
        lo, hi = 0, (1 << (n - 1)) - 1
    else:
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    return mkbv(op(_ext(a2, n), _ext(b2, n)), lo, hi)


def p_or(a, b):
    return _orx(a, b, lambda x, y: x | y, lambda x, y: x | y)


def p_xor(a, b):
    return _orx(a, b, lambda x, y: x ^ y, lambda x, y: x ^ y)


def eq_t(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a == b
    (al, ah), (bl, bh) = rng(a), rng(b)
    if None not in (ah, bl) and ah < bl:
        return False
    if None not in (bh, al) and bh < al:
        return False
    if _isbv(a) and _isbv(b):
        w = max(_bits(al, ah), _bits(bl, bh))
        return _ext(a, w) == _ext(b, w)
    return toInt(a) == toInt(b)


def lt_t(a, b):
    if isinstance(a, _int) and isinstance(b, _int):
        return a < b
    (al, ah), (bl, bh) = rng(a), rng(b)
    if None not in (ah, bl) and ah < bl:
        return True
    if None not in (al, bh) and al >= bh:
        return False
    if _isbv(a) and _isbv(b):
        w = max(_bits(al, ah), _bits(bl, bh))
        return _ext(a, w) < _ext(b, w)
    return toInt(a) < toInt(b)


def le_t(a, b):
    r = lt_t(b, a)
    if isinstance(r, _bool):
        return not r
    return z3.Not(r)


def eval_payload(m, a):
    if isinstance(a, _int):
        return a
    v = m.eval(a.t, model_completion=True)
    if a.kind == "bv":
        return v.as_signed_long()
    return v.as_long()


# ============================================================================ booleans
def mkbool(t):
    if isinstance(t, _bool):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return engine().decide(self.t)

    def __eq__(self, o):
        o = tobool(o)
        if o is None:
            return False
        return mkbool(zb(self) == zb(o))

    def __ne__(self, o):
        return v_not(self.__eq__(o))

    def __hash__(self):
        return hash(_bool(self))

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __and__(self, o):
        return mkbool(z3.And(self.t, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, zb(o)))

    __ror__ = __or__

    def __invert__(self):
        engine().unsupported("~ on a truth value")

    def _n(self):
        return 1 if self else 0

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __lshift__(self, o):
        return self._n() << o

    def __repr__(self):
        return "SBool(%s)" % self.t


def zb(x):
    """z3 Boolean of a truth value (without forking)."""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, _bool):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    return z3.BoolVal(_bool(x))


def tobool(x):
    if isinstance(x, (_bool, SBool)):
        return x
    if isinstance(x, _int) and x in (0, 1):
        return _bool(x)
    return None


def v_not(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.t))
    return not x


def v_and(*xs):
    return mkbool(z3.And([zb(x) for x in xs])) if xs else True


def v_or(*xs):
    return mkbool(z3.Or([zb(x) for x in xs])) if xs else False


def v_implies(a, b):
    return mkbool(z3.Implies(zb(a), zb(b)))


def v_iff(a, b):
    return mkbool(zb(a) == zb(b))


def test(x):
    """Truth value of x without forking when x is symbolic."""
    if isinstance(x, SBool):
        return x
    if type(x) is SInt:
        p = x._pv
        return mkbool(z3.Not(zb2(eq_t(p, 0))))
    return _bool(x)


def zb2(x):
    return z3.BoolVal(x) if isinstance(x, _bool) else x


# ============================================================================ int
class IntMeta(type):
    def __instancecheck__(cls, x):
        if cls is SInt:
            return isinstance(x, _int) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SInt:
            return issubclass(c, _int) or type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c)


def is_intlike(x):
    return isinstance(x, _int) or type.__instancecheck__(SInt, x)


def pay(x):
    """payload of an int-like value, or None"""
    if isinstance(x, _int):
        return _int(x)
    if type.__instancecheck__(SInt, x):
        return x._pv
    if isinstance(x, SBool):
        return 1 if x else 0
    return None


def wrap(p):
    if isinstance(p, _int):
        return p
    o = object.__new__(SInt)
    object.__setattr__(o, "_pv", p)
    return o


def to_payload(x, base=None):
    if base is not None:
        if isinstance(x, SStr):
            return parse_int(x, base)
        if type.__instancecheck__(SInt, base):
            base = base.__index__()
        if type.__instancecheck__(SBytes, x):
            x = x.concrete()
        return _int(x, base)
    p = pay(x)
    if p is not None:
        return p
    if type.__instancecheck__(SFloat, x):
        return x._trunc()
    if isinstance(x, SStr):
        return parse_int(x, 10)
    if type.__instancecheck__(SBytes, x):
        return _int(x.concrete())
    if isinstance(x, (_str, _bytes, _bytearray, _float)):
        return _int(x)
    f = getattr(type(x), "__int__", None)
    if f is not None:
        r = f(x)
        p = pay(r)
        if p is None:
            raise TypeError("__int__ returned non-int (type %s)" % type(r).__name__)
        return p
    f = getattr(type(x), "__index__", None)
    if f is not None:
        return pay(f(x))
    raise TypeError(
        "int() argument must be a string, a bytes-like object or a real number, not %r"
        % type(x).__name__)


def _cmpop(fn):
    def m(self, o):
        p = pay(o)
        if p is None:
            if isinstance(o, _float) or type.__instancecheck__(SFloat, o):
                return NotImplemented
            return NotImplemented
        return mkbool(fn(self._pv, p))
    return m


def _binop(fn, rev=False):
    def m(self, o):
        p = pay(o)
        if p is None:
            return NotImplemented
        return wrap(fn(p, self._pv) if rev else fn(self._pv, p))
    return m


class _object_state:
    """stands for the inherited object.__getstate__: looked up on the class it is that very object"""

    def __init__(self, f):
        self.f = f

    def __get__(self, obj, cls):
        if obj is None:
            return object.__getstate__
        return lambda: self.f(obj)


class SInt(metaclass=IntMeta):
    def __new__(cls, x=0, base=None):
        p = to_payload(x, base)
        if cls is SInt:
            return wrap(p)
        o = object.__new__(cls)
        object.__setattr__(o, "_pv", p)
        return o

    def __init_subclass__(cls, **kw):
        super().__init_subclass__(**kw)

    # -- conversions
    def __int__(self):
        return wrap(self._pv)

    def __trunc__(self):
        return wrap(self._pv)

    def __index__(self):
        p = self._pv
        if isinstance(p, _int):
            return p
        return _force_concrete(p, "index")

    def __bool__(self):
        p = self._pv
        if isinstance(p, _int):
            return p != 0
        return not engine().decide(zb2(eq_t(p, 0)))

    def __float__(self):
        p = self._pv
        if isinstance(p, _int):
            return _float(p)
        engine().unsupported("float() of a symbolic integer")

    def __hash__(self):
        p = self._pv
        if isinstance(p, _int):
            return hash(p)
        engine().unsupported("hash of a symbolic integer")

    # -- comparison
    def __eq__(self, o):
        p = pay(o)
        if p is None:
            if type.__instancecheck__(SFloat, o) or isinstance(o, _float):
                return SFloat.__eq__(SFloat(self), o)
            return NotImplemented
        return mkbool(eq_t(self._pv, p))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else v_not(r)

    __lt__ = _cmpop(lt_t)
    __le__ = _cmpop(le_t)
    __gt__ = _cmpop(lambda a, b: lt_t(b, a))
    __ge__ = _cmpop(lambda a, b: le_t(b, a))
    # -- arithmetic
    __add__ = _binop(p_add)
    __radd__ = _binop(p_add, True)
    __sub__ = _binop(p_sub)
    __rsub__ = _binop(p_sub, True)
    __mul__ = _binop(p_mul)
    __floordiv__ = _binop(p_floordiv)
    __rfloordiv__ = _binop(p_floordiv, True)
    __mod__ = _binop(p_mod)
    __rmod__ = _binop(p_mod, True)
    __lshift__ = _binop(p_lshift)
    __rlshift__ = _binop(p_lshift, True)
    __rshift__ = _binop(p_rshift)
    __rrshift__ = _binop(p_rshift, True)
    __and__ = _binop(p_and)
    __rand__ = _binop(p_and, True)
    __or__ = _binop(p_or)
    __ror__ = _binop(p_or, True)
    __xor__ = _binop(p_xor)
    __rxor__ = _binop(p_xor, True)

    def __rmul__(self, o):
        p = pay(o)
        if p is None:
            if isinstance(o, (_str, _bytes, _list, tuple)):
                return o * self.__index__()
            return NotImplemented
        return wrap(p_mul(p, self._pv))

    def __neg__(self):
        return wrap(p_neg(self._pv))

    def __pos__(self):
        return wrap(self._pv)

    def __abs__(self):
        return -self if self < 0 else wrap(self._pv)

    def __invert__(self):
        return wrap(p_sub(-1, self._pv))

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __truediv__(self, o):
        p = pay(o)
        if p is None:
            if isinstance(o, _float) or type.__instancecheck__(SFloat, o):
                return SFloat(self) / o
            return NotImplemented
        return SFloat(self) / wrap(p)

    def __rtruediv__(self, o):
        return SFloat(o) / self

    def __pow__(self, n, m=None):
        n = _force_concrete(pay(n), "exponent")
        if isinstance(self._pv, _int):
            return pow(self._pv, n, m) if m is not None else self._pv ** n
        r = 1
        for _ in builtins.range(n):
            r = r * self
        return r

    def __rpow__(self, b):
        return b ** _force_concrete(self._pv, "exponent")

    # -- int API
    @property
    def real(self):
        return wrap(self._pv)

    @property
    def numerator(self):
        return wrap(self._pv)

    def bit_length(self):
        p = self._pv
        if isinstance(p, _int):
            return p.bit_length()
        if p.hi is None or p.lo is None:
            engine().unsupported("bit_length of an unbounded integer")
        a = abs(self)
        for n in builtins.range(0, 80):
            if a < (1 << n):
                return n
        engine().unsupported("bit_length")

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        return int_to_bytes(self._pv, length, byteorder, signed)

    @classmethod
    def from_bytes(cls, data, byteorder="big", *, signed=False):
        p = bytes_to_int(data, byteorder, signed)
        if cls is SInt:
            return wrap(p)
        return cls(wrap(p))

    @_object_state
    def __getstate__(self):
        # object.__getstate__(): the instance dictionary, or None when there is none
        d = {k: v for k, v in self.__dict__.items() if k != "_pv"}
        return d or None

    def __format__(self, spec):
        p = self._pv
        if isinstance(p, _int):
            return format(p, spec)
        engine().unsupported("formatting a symbolic integer")

    def __repr__(self):
        p = self._pv
        if isinstance(p, _int):
            return repr(p)
        if core.ENGINE is not None and not core.DEBUG:
            engine().unsupported("text of a symbolic integer")
        return "<%s:%s>" % (type(self).__name__, p.t)

    __str__ = __repr__

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# redirect builtin `int` methods that are looked up on the class
def _missing(name):
    def f(self, *a, **k):
        p = self._pv
        if isinstance(p, _int):
            return getattr(p, name)(*a, **k)
        engine().unsupported("int.%s" % name)
    return f


for _n in ("conjugate", "as_integer_ratio", "bit_count", "is_integer"):
    setattr(SInt, _n, _missing(_n))


def int_to_bytes(p, length, byteorder, signed):
    length = _force_concrete(pay(length), "to_bytes length")
    if length < 0:
        raise ValueError("length argument must be non-negative")
    if isinstance(p, _int):
        return p.to_bytes(length, byteorder, signed=signed)
    if byteorder not in ("big", "little"):
        raise ValueError("byteorder must be either 'little' or 'big'")
    if signed:
        lo, hi = -(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) - 1 if length else 0
    else:
        lo, hi = 0, (1 << (8 * length)) - 1
    e = engine()
    if not signed and e.decide(zb2(lt_t(p, 0))):
        raise OverflowError("can't convert negative int to unsigned")
    if e.decide(z3.Or(zb2(lt_t(p, lo)), zb2(lt_t(hi, p)))):
        raise OverflowError("int too big to convert")
    if length == 0:
        return b""
    w = 8 * length
    if p.kind == "bv":
        t = _ext(p, w)
    else:
        t = z3.Int2BV(p.t, w)
    terms = [z3.simplify(z3.Extract(w - 8 * i - 1, w - 8 * i - 8, t)) for i in builtins.range(length)]
    if byteorder == "little":
        terms.reverse()
    return SBytes._mk([_explicit(terms)])


def bytes_to_int(data, byteorder, signed):
    if isinstance(data, (_bytes, _bytearray)):
        return _int.from_bytes(data, byteorder, signed=signed)
    if not type.__instancecheck__(SBytes, data):
        data = SBytes(data)
        if isinstance(data, _bytes):
            return _int.from_bytes(data, byteorder, signed=signed)
    n = data.length()
    if not isinstance(n, _int):
        n = _force_concrete(n, "length of integer data")
    if n == 0:
        return 0
    terms = [data.byte_term(i) for i in builtins.range(n)]
    if byteorder == "little":
        terms.reverse()
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    t = terms[0] if n == 1 else z3.Concat(*terms)
    w = 8 * n
    if signed:
        return mkbv(t, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    return mkbv(z3.ZeroExt(1, t), 0, (1 << w) - 1)


# ============================================================================ bytes
# segment kinds: ("c", python bytes) | ("t", [BV8 terms]) | ("a", array, offset payload, length payload)
def _explicit(terms):
    terms = [z3.simplify(t) for t in terms]
    if all(z3.is_bv_value(t) for t in terms):
        return ("c", _bytes(t.as_long() for t in terms))
    return ("t", _list(terms))


def seglen(s):
    return s[3] if s[0] == "a" else len(s[1])


def _sel(arr, off):
    d = arr.domain()
    if z3.is_bv_sort(d):
        if not isinstance(off, _int):
            b = asbv(off)
            if b is None:
                return z3.Select(arr, z3.Int2BV(toInt(off), d.size()))
            off = b
        return z3.Select(arr, _ext(off, d.size()))
    return z3.Select(arr, toInt(off))


class BytesMeta(type):
    def __instancecheck__(cls, x):
        if cls is SBytes:
            return isinstance(x, _bytes) or (type.__instancecheck__(SBytes, x)
                                             and not type.__instancecheck__(SByteArray, x))
        if cls is SByteArray:
            return isinstance(x, _bytearray) or type.__instancecheck__(SByteArray, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SBytes:
            return issubclass(c, _bytes) or (type.__subclasscheck__(SBytes, c) and
                                             not type.__subclasscheck__(SByteArray, c))
        return type.__subclasscheck__(cls, c)


def is_byteslike(x):
    return isinstance(x, (_bytes, _bytearray, memoryview)) or type.__instancecheck__(SBytes, x)


def segs_of(x):
    if isinstance(x, (_bytes, _bytearray, memoryview)):
        return [("c", _bytes(x))] if len(x) else []
    return _list(x._segs)


def _norm(segs):
    out = []
    for s in segs:
        n = seglen(s)
        if isinstance(n, _int) and n == 0:
            continue
        if s[0] == "a" and isinstance(n, _int) and n <= 64:
            s = _explicit([_sel(s[1], p_add(s[2], i)) for i in builtins.range(n)])
        if out and out[-1][0] != "a" and s[0] != "a":
            a = out.pop()
            if a[0] == "c" and s[0] == "c":
                out.append(("c", a[1] + s[1]))
            else:
                out.append(("t", _terms(a) + _terms(s)))
            continue
        if out and out[-1][0] == "a" and s[0] == "a" and out[-1][1] is s[1]:
            a = out[-1]
            end = p_add(a[2], a[3])
            if same(end, s[2]):
                out[-1] = ("a", a[1], a[2], p_add(a[3], s[3]))
                continue
        out.append(s)
    return out


def same(a, b):
    """syntactic equality of payloads"""
    if isinstance(a, _int) and isinstance(b, _int):
        return a == b
    if isinstance(a, _int) or isinstance(b, _int):
        return False
    if a.t.sort() != b.t.sort():
        d = z3.simplify(toInt(a) - toInt(b))
    else:
        d = z3.simplify(a.t - b.t)
    return (z3.is_int_value(d) or z3.is_bv_value(d)) and d.as_long() == 0


def _terms(s):
    if s[0] == "c":
        return [z3.BitVecVal(b, 8) for b in s[1]]
    return s[1]


def byte_payload(x):
    """payload of a value stored into bytes; ValueError outside 0..255 as CPython does"""
    p = pay(x)
    if p is None:
        f = getattr(type(x), "__index__", None)
        if f is None:
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(x).__name__)
        p = pay(f(x))
    if isinstance(p, _int):
        if not 0 <= p <= 255:
            raise ValueError("byte must be in range(0, 256)")
        return p
    if engine().decide(z3.Or(zb2(lt_t(p, 0)), zb2(lt_t(255, p)))):
        raise ValueError("byte must be in range(0, 256)")
    return p


def byte_term_of(p):
    if isinstance(p, _int):
        return z3.BitVecVal(p, 8)
    if p.kind == "bv":
        return z3.simplify(_ext(p, 8))
    return z3.simplify(z3.Int2BV(p.t, 8))


def from_byte_term(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    return wrap(mkbv(z3.ZeroExt(1, t), 0, 255))


class SBytes(metaclass=BytesMeta):
    _mutable = False

    def __new__(cls, src=b"", encoding=None, errors=None):
        segs = _segs_from(src, encoding)
        if cls is SBytes:
            return SBytes._mk(segs)
        o = object.__new__(cls)
        object.__setattr__(o, "_segs", _norm(segs))
        return o

    @staticmethod
    def _mk(segs):
        segs = _norm(segs)
        if not segs:
            return b""
        if len(segs) == 1 and segs[0][0] == "c":
            return segs[0][1]
        o = object.__new__(SBytes)
        object.__setattr__(o, "_segs", segs)
        return o

    def _res(self, segs):
        return SBytes._mk(segs)

    # -- length / access
    def length(self):
        n = 0
        for s in self._segs:
            n = p_add(n, seglen(s))
        return n

    def __pyvc_len__(self):
        return wrap(self.length())

    def __len__(self):
        n = self.length()
        if isinstance(n, _int):
            return n
        return _force_concrete(n, "length")

    def __bool__(self):
        n = self.length()
        if isinstance(n, _int):
            return n != 0
        return not engine().decide(zb2(eq_t(n, 0)))

    def byte_term(self, i):
        """z3 term of byte i (i payload, must be in range)"""
        e = engine()
        pos = 0
        segs = self._segs
        for k, s in enumerate(segs):
            n = seglen(s)
            end = p_add(pos, n)
            if k == len(segs) - 1 or e.decide(zb2(lt_t(i, end))):
                off = p_sub(i, pos)
                if s[0] == "a":
                    return z3.simplify(_sel(s[1], p_add(s[2], off)))
                if not isinstance(off, _int):
                    off = _force_concrete(off, "byte index")
                if s[0] == "c":
                    return z3.BitVecVal(s[1][off], 8)
                return s[1][off]
            pos = end
        raise IndexError("index out of range")

    def _index(self, i):
        p = pay(i)
        if p is None:
            f = getattr(type(i), "__index__", None)
            if f is None:
                raise TypeError("byte indices must be integers or slices, not %s" % type(i).__name__)
            p = pay(f(i))
        e = engine()
        n = self.length()
        if isinstance(p, _int) and isinstance(n, _int):
            if p < 0:
                p += n
            if not 0 <= p < n:
                raise IndexError("index out of range")
            return p
        if e.decide(zb2(lt_t(p, 0))):
            p = p_add(p, n)
            if e.decide(zb2(lt_t(p, 0))):
                raise IndexError("index out of range")
        if not e.decide(zb2(lt_t(p, n))):
            raise IndexError("index out of range")
        return p

    def _clamp(self, v, default):
        if v is None:
            return default
        p = pay(v)
        if p is None:
            f = getattr(type(v), "__index__", None)
            if f is None:
                raise TypeError(
                    "slice indices must be integers or None or have an __index__ method")
            p = pay(f(v))
        n = self.length()
        e = engine()
        if e.decide(zb2(lt_t(p, 0))):
            p = p_add(p, n)
            if e.decide(zb2(lt_t(p, 0))):
                return 0
            return p
        if e.decide(zb2(lt_t(n, p))):
            return n
        return p

    def _cut(self, a, b):
        """segments of [a, b), payloads with 0<=a<=b<=len"""
        e = engine()
        out = []
        pos = 0
        for s in self._segs:
            n = seglen(s)
            end = p_add(pos, n)
            # intersection of [a,b) with [pos,end)
            if e.decide(zb2(le_t(end, a))):
                pos = end
                continue
            if e.decide(zb2(le_t(b, pos))):
                break
            s0 = p_sub(a, pos) if not e.decide(zb2(le_t(a, pos))) else 0
            s1 = p_sub(b, pos) if e.decide(zb2(lt_t(b, end))) else n
            if s[0] == "a":
                out.append(("a", s[1], p_add(s[2], s0), p_sub(s1, s0)))
            else:
                if not isinstance(s0, _int):
                    s0 = _force_concrete(s0, "slice start")
                if not isinstance(s1, _int):
                    s1 = _force_concrete(s1, "slice end")
                out.append((s[0], s[1][s0:s1]))
            pos = end
        return out

    def slice(self, start, stop):
        n = self.length()
        a = self._clamp(start, 0)
        b = self._clamp(stop, n)
        if engine().decide(zb2(le_t(b, a))):
            return []
        return self._cut(a, b)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None and i.step != 1:
                return self._res([_explicit([self.byte_term(k) for k in
                                             builtins.range(*i.indices(len(self)))])])
            return self._res(self.slice(i.start, i.stop))
        return from_byte_term(self.byte_term(self._index(i)))

    def __iter__(self):
        i = 0
        e = engine()
        while True:
            n = self.length()
            if isinstance(n, _int):
                if i >= n:
                    return
            elif not e.decide(zb2(lt_t(i, n))):
                return
            if i > e.unroll_limit:
                e.unsupported("unbounded iteration over bytes")
            yield from_byte_term(self.byte_term(i))
            i += 1

    def __reversed__(self):
        return iter([self[i] for i in builtins.range(len(self) - 1, -1, -1)])

    def __contains__(self, x):
        if is_byteslike(x):
            return _bytes(x.concrete() if hasattr(x, "concrete") else x) in self.concrete()
        for b in self:
            if b == x:
                return True
        return False

    def concrete(self):
        """Python bytes when fully concrete; Unsupported otherwise"""
        segs = _norm(self._segs)
        if not segs:
            return b""
        if len(segs) == 1 and segs[0][0] == "c":
            return segs[0][1]
        engine().unsupported("a concrete byte string is needed")

    def is_concrete(self):
        segs = _norm(self._segs)
        return not segs or (len(segs) == 1 and segs[0][0] == "c")

    # -- operators
    def __add__(self, o):
        if not is_byteslike(o):
            raise TypeError("can't concat %s to bytes" % type(o).__name__)
        return self._res(self._segs + segs_of(o))

    def __radd__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return self._res(segs_of(o) + self._segs)

    def __mul__(self, n):
        n = _force_concrete(pay(n), "repeat count")
        return self._res(self._segs * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        if not is_byteslike(o):
            return NotImplemented
        return mkbool(bytes_eq(self._segs, segs_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else v_not(r)

    def __hash__(self):
        return hash(self.concrete())

    def __bytes__(self):
        return SBytes._mk(self._segs)

    def __lt__(self, o):
        engine().unsupported("bytes ordering")

    __gt__ = __le__ = __ge__ = __lt__

    # -- methods
    def decode(self, encoding="utf-8", errors="strict"):
        if self.is_concrete():
            return self.concrete().decode(encoding, errors)
        n = self.length()
        if isinstance(n, _int):
            terms = [z3.simplify(self.byte_term(i)) for i in builtins.range(n)]
            if builtins.all(z3.is_bv_value(t) for t in terms):
                return builtins.bytes([t.as_long() for t in terms]).decode(encoding, errors)
        e = engine()
        key = "utf8:" + repr(self._key())
        ok = e.path_hooks.get(key)
        if ok is None:
            # Uninterpreted validity, except that ASCII-only data of known length is valid
            ok = z3.Bool(e.fresh("utf8ok"))
            e.path_hooks[key] = ok
            n = self.length()
            if isinstance(n, _int):
                asc = z3.And([z3.ULT(self.byte_term(i), 128) for i in builtins.range(n)]
                             or [z3.BoolVal(True)])
                e._add(z3.Implies(asc, ok))
                bad = z3.Or([z3.UGE(self.byte_term(i), 0xF8) for i in builtins.range(n)]
                            or [z3.BoolVal(False)])
                e._add(z3.Implies(bad, z3.Not(ok)))
        if not e.decide(ok):
            raise UnicodeDecodeError("utf-8", b"?", 0, 1, "invalid start byte")
        return SStr._mk([("utf8", SBytes._mk(self._segs))])

    def _key(self):
        out = []
        for s in _norm(self._segs):
            if s[0] == "a":
                out.append(("a", s[1].get_id(), str(toInt(s[2])), str(toInt(s[3]))))
            elif s[0] == "t":
                out.append(("t", tuple(str(t) for t in s[1])))
            else:
                out.append(s)
        return tuple(out)

    def hex(self, *a):
        if self.is_concrete():
            return self.concrete().hex(*a)
        return SStr._mk([("hex", SBytes._mk(self._segs))])

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self._segs
            first = False
            out += segs_of(x)
        return self._res(out)

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return v_or(*[self.startswith(q) for q in p])
        k = len(p)
        if V_len(self) < k:
            return False
        return self[:k] == p

    def endswith(self, p):
        k = len(p)
        if k == 0:
            return True
        if V_len(self) < k:
            return False
        return self[V_len(self) - k:] == p

    @classmethod
    def fromhex(cls, s):
        return cls(_bytes.fromhex(s))

    @_object_state
    def __getstate__(self):
        d = {k: v for k, v in self.__dict__.items() if k != "_segs"}
        return d or None

    def __repr__(self):
        try:
            if self.is_concrete():
                return repr(self.concrete())
        except Exception:
            pass
        return "<sym bytes>"

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name in ("count", "find", "index", "rfind", "split", "strip", "lower", "upper",
                    "replace", "isdigit", "rstrip", "lstrip", "ljust", "rjust", "zfill", "partition"):
            return getattr(self.concrete(), name)
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))


def _segs_from(src, encoding=None):
    if is_byteslike(src):
        return segs_of(src)
    if isinstance(src, SStr) or isinstance(src, _str):
        if encoding is None:
            raise TypeError("string argument without an encoding")
        r = src.encode(encoding)
        return segs_of(r)
    p = pay(src)
    if p is not None and not isinstance(src, SBool):
        n = _force_concrete(p, "bytes() size")
        return [("c", _bytes(n))]
    f = getattr(type(src), "__bytes__", None)
    if f is not None:
        return segs_of(f(src))
    return [_explicit([byte_term_of(byte_payload(x)) for x in src])]


def bytes_eq(sa, sb):
    """z3 condition (or bool) for equality of two segment lists"""
    sa, sb = _norm(sa), _norm(sb)
    la = lb = 0
    for s in sa:
        la = p_add(la, seglen(s))
    for s in sb:
        lb = p_add(lb, seglen(s))
    conds = []
    if not same(la, lb):
        le = eq_t(la, lb)
        if le is False:
            return False
        conds.append(zb2(le))
    # align syntactically
    sa, sb = _list(sa), _list(sb)
    while sa and sb:
        a, b = sa[0], sb[0]
        if a[0] != "a" and b[0] != "a":
            n = min(len(a[1]), len(b[1]))
            for x, y in zip(_terms((a[0], a[1][:n])), _terms((b[0], b[1][:n]))):
                conds.append(x == y)
            sa[0:1] = [(a[0], a[1][n:])] if len(a[1]) > n else []
            sb[0:1] = [(b[0], b[1][n:])] if len(b[1]) > n else []
            continue
        if a[0] == "a" and b[0] == "a" and a[1] is b[1] and same(a[2], b[2]) and same(a[3], b[3]):
            sa.pop(0)
            sb.pop(0)
            continue
        if a[0] == "a" and b[0] == "a" and a[1] is b[1] and same(a[2], b[2]):
            # same base and start, different (not syntactically equal) lengths
            if len(sa) == 1 and len(sb) == 1:
                sa, sb = [], []
                break
        break
    if not sa and not sb:
        return z3.simplify(z3.And(conds)) if conds else True
    # general case: skolemizable pointwise equality
    e = engine()
    A, B = SBytes.__new__(SBytes), None
    ra, rb = _mkraw(sa), _mkraw(sb)
    na, nb = ra.length(), rb.length()
    if isinstance(na, _int) and isinstance(nb, _int) and na != nb:
        return False
    if isinstance(na, _int) or isinstance(nb, _int):
        n = na if isinstance(na, _int) else nb
        conds.append(zb2(eq_t(na, nb)))
        if n <= 256:
            # compare under the length equality, without forking
            for i in builtins.range(n):
                conds.append(pure_byte(sa, i) == pure_byte(sb, i))
            return z3.simplify(z3.And(conds))
    arrs = [s[1] for s in sa + sb if s[0] == "a"]
    (al, ah), (bl, bh) = rng(na), rng(nb)
    if arrs and all(z3.is_bv_sort(x.domain()) for x in arrs) and _isbv(na) and _isbv(nb) \
            and None not in (ah, bh):
        hi = max(ah, bh, 1)
        w = _bits(0, hi)
        k = z3.BitVec(e.fresh("k"), w - 1)
        kp = mkbv(z3.ZeroExt(1, k), 0, (1 << (w - 1)) - 1)
        body = z3.Implies(zb2(lt_t(kp, na)), pure_byte(sa, kp) == pure_byte(sb, kp))
        conds.append(zb2(eq_t(na, nb)))
        conds.append(z3.ForAll([k], body))
        return z3.And(conds)
    k = z3.Int(e.fresh("k"))
    kp = mkint(k, 0, None)
    body = z3.Implies(z3.And(k >= 0, k < toInt(na)), pure_byte(sa, kp) == pure_byte(sb, kp))
    conds.append(zb2(eq_t(na, nb)))
    conds.append(z3.ForAll([k], body))
    return z3.And(conds)


def _mkraw(segs):
    o = object.__new__(SBytes)
    object.__setattr__(o, "_segs", _norm(segs))
    return o


def pure_byte(segs, i):
    """if-then-else term of byte i of a rope (no forking); arbitrary when out of range"""
    pos = 0
    cases = []
    for s in segs:
        n = seglen(s)
        end = p_add(pos, n)
        off = p_sub(i, pos)
        if s[0] == "a":
            val = _sel(s[1], p_add(s[2], off))
        elif isinstance(off, _int):
            ts = _terms(s)
            val = ts[off] if 0 <= off < len(ts) else z3.BitVecVal(0, 8)
        else:
            ts = _terms(s)
            val = ts[-1]
            for j in builtins.range(len(ts) - 2, -1, -1):
                val = z3.If(zb2(eq_t(off, j)), ts[j], val)
        cases.append((zb2(lt_t(i, end)), val))
        pos = end
    if not cases:
        return z3.BitVecVal(0, 8)
    r = cases[-1][1]
    for c, v in reversed(cases[:-1]):
        r = z3.If(c, v, r)
    return z3.simplify(r)


class SByteArray(SBytes):
    _mutable = True

    def __new__(cls, src=b"", encoding=None, errors=None):
        o = object.__new__(cls)
        object.__setattr__(o, "_segs", [])
        return o

    def __init__(self, src=b"", encoding=None, errors=None):
        object.__setattr__(self, "_segs", _norm(_segs_from(src, encoding)))

    def _res(self, segs):
        o = object.__new__(SByteArray)
        object.__setattr__(o, "_segs", _norm(segs))
        return o

    def _set(self, segs):
        object.__setattr__(self, "_segs", _norm(segs))

    def append(self, v):
        self._set(self._segs + [_explicit([byte_term_of(byte_payload(v))])])

    def extend(self, it):
        if is_byteslike(it):
            self._set(self._segs + segs_of(it))
        else:
            self._set(self._segs + [_explicit([byte_term_of(byte_payload(x)) for x in it])])

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            n = self.length()
            a = self._clamp(i.start, 0)
            b = self._clamp(i.stop, n)
            if engine().decide(zb2(lt_t(b, a))):
                b = a
            head = self._cut(0, a) if not (isinstance(a, _int) and a == 0) else []
            tail = self._cut(b, n) if not same(b, n) else []
            self._set(head + _segs_from(v) + tail)
            return
        p = self._index(i)
        t = byte_term_of(byte_payload(v))
        n = self.length()
        nxt = p_add(p, 1)
        head = self._cut(0, p) if not (isinstance(p, _int) and p == 0) else []
        tail = self._cut(nxt, n) if not same(nxt, n) else []
        self._set(head + [_explicit([t])] + tail)

    def __delitem__(self, i):
        if isinstance(i, slice):
            self.__setitem__(i, b"")
            return
        p = self._index(i)
        n = self.length()
        self._set(self._cut(0, p) + self._cut(p_add(p, 1), n))

    def pop(self, i=-1):
        v = self[i]
        del self[i]
        return v

    def insert(self, i, v):
        self[i:i] = SBytes([v])

    def clear(self):
        self._set([])

    def copy(self):
        return self._res(self._segs)

    __hash__ = None


def eval_bytes(m, b):
    if isinstance(b, (_bytes, _bytearray)):
        return _bytes(b)
    out = _bytearray()
    for s in b._segs:
        if s[0] == "c":
            out += s[1]
        elif s[0] == "t":
            out += _bytes(m.eval(t, model_completion=True).as_long() for t in s[1])
        else:
            off, n = eval_payload(m, s[2]), eval_payload(m, s[3])
            n = min(n, 1 << 16)
            out += _bytes(m.eval(_sel(s[1], off + i), model_completion=True).as_long()
                          for i in builtins.range(n))
    return _bytes(out)


def eval_int(m, x):
    if isinstance(x, (_bool, _int)):
        return _int(x)
    if isinstance(x, SBool):
        return 1 if z3.is_true(m.eval(x.t, model_completion=True)) else 0
    return eval_payload(m, pay(x))


# ============================================================================ float
class FloatMeta(type):
    def __instancecheck__(cls, x):
        if cls is SFloat:
            return isinstance(x, _float) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SFloat:
            return issubclass(c, _float) or type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c)


class SFloat(metaclass=FloatMeta):
    """float as an exact ratio num/den (num integer payload, den positive int), or a concrete
    Python float.  Assumption listed in the trusted base: the float operations used by the code
    on symbolic data (division of an integer by a power of two or ten) are exact or
    correctly rounded, so equality of ratios implies equality of the floats."""

    def __new__(cls, x=0.0, *_):
        if isinstance(x, (_str, SStr)):
            r = (_float(x), None)
        elif isinstance(x, _float):
            r = (_float(x), None)
        elif type.__instancecheck__(SFloat, x):
            r = x._fv
        else:
            p = pay(x)
            if p is None:
                f = getattr(type(x), "__float__", None)
                if f is None:
                    raise TypeError("float() argument must be a string or a real number, not %r"
                                    % type(x).__name__)
                r = (f(x), None)
            elif isinstance(p, _int):
                r = (_float(p), None)
            else:
                r = (p, 1)
        if cls is SFloat:
            return SFloat._mk(r)
        o = object.__new__(cls)
        object.__setattr__(o, "_fv", r)
        return o

    @staticmethod
    def _mk(r):
        if r[1] is None:
            return r[0]
        if isinstance(r[0], _int):
            return r[0] / r[1]
        o = object.__new__(SFloat)
        object.__setattr__(o, "_fv", r)
        return o

    def _ratio(self):
        n, d = self._fv
        if d is not None:
            return n, d
        if n != n or n in (_float("inf"), _float("-inf")):
            return None
        return n.as_integer_ratio()

    def _trunc(self):
        n, d = self._fv
        if d is None:
            return _int(n)
        if isinstance(n, _int):
            return _int(n / d)
        lo, _ = rng(n)
        if (lo is not None and lo >= 0) or not engine().decide(zb2(lt_t(n, 0))):
            return p_floordiv(n, d)
        return p_neg(p_floordiv(p_neg(n), d))

    def __int__(self):
        return wrap(self._trunc())

    def __float__(self):
        n, d = self._fv
        if d is None:
            return n
        engine().unsupported("symbolic float")

    def __truediv__(self, o):
        q = SFloat(o)
        q = q if type.__instancecheck__(SFloat, q) else _fr(q)
        a, b = self._ratio(), q._ratio()
        if not isinstance(b[0], _int):
            engine().unsupported("division by a symbolic float")
        if b[0] == 0:
            raise ZeroDivisionError("float division by zero")
        n = p_mul(a[0], b[1])
        d = a[1] * b[0]
        if d < 0:
            n, d = p_neg(n), -d
        return SFloat._mk((n, d))

    def __rtruediv__(self, o):
        return _fr(SFloat(o)).__truediv__(self)

    def _bin(self, o, f):
        if not (isinstance(o, _float) or type.__instancecheck__(SFloat, o) or is_intlike(o)):
            return NotImplemented
        a, b = self._ratio(), _fr(SFloat(o))._ratio()
        if a is None or b is None:
            engine().unsupported("non-finite float")
        g = _math.gcd(a[1], b[1])
        return f(p_mul(a[0], b[1] // g), p_mul(b[0], a[1] // g), a[1] * b[1] // g)

    def __eq__(self, o):
        return self._bin(o, lambda x, y, d: mkbool(eq_t(x, y)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else v_not(r)

    def __lt__(self, o):
        return self._bin(o, lambda x, y, d: mkbool(lt_t(x, y)))

    def __le__(self, o):
        return self._bin(o, lambda x, y, d: mkbool(le_t(x, y)))

    def __gt__(self, o):
        return self._bin(o, lambda x, y, d: mkbool(lt_t(y, x)))

    def __ge__(self, o):
        return self._bin(o, lambda x, y, d: mkbool(le_t(y, x)))

    def __add__(self, o):
        return self._bin(o, lambda x, y, d: SFloat._mk((p_add(x, y), d)))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y, d: SFloat._mk((p_sub(x, y), d)))

    def __rsub__(self, o):
        return self._bin(o, lambda x, y, d: SFloat._mk((p_sub(y, x), d)))

    def __mul__(self, o):
        if not (isinstance(o, _float) or type.__instancecheck__(SFloat, o) or is_intlike(o)):
            return NotImplemented
        a, b = self._ratio(), _fr(SFloat(o))._ratio()
        return SFloat._mk((p_mul(a[0], b[0]), a[1] * b[1]))

    __rmul__ = __mul__

    def __neg__(self):
        a = self._ratio()
        return SFloat._mk((p_neg(a[0]), a[1]))

    def __bool__(self):
        return _bool(v_not(self == 0))

    def __hash__(self):
        n, d = self._fv
        if d is None:
            return hash(n)
        engine().unsupported("hash of a symbolic float")

    def is_integer(self):
        n, d = self._ratio()
        return mkbool(eq_t(p_mod(n, d), 0))

    @_object_state
    def __getstate__(self):
        d = {k: v for k, v in self.__dict__.items() if k != "_fv"}
        return d or None

    def __repr__(self):
        n, d = self._fv
        return repr(n) if d is None else "<sym float>"

    __str__ = __repr__

    def __format__(self, spec):
        n, d = self._fv
        if d is None:
            return format(n, spec)
        engine().unsupported("formatting a symbolic float")


def _fr(x):
    """SFloat object (never a plain float)"""
    if type.__instancecheck__(SFloat, x):
        return x
    o = object.__new__(SFloat)
    object.__setattr__(o, "_fv", (_float(x), None))
    return o


# ============================================================================ str
class StrMeta(type):
    def __instancecheck__(cls, x):
        if cls is SStr:
            return isinstance(x, _str) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SStr:
            return issubclass(c, _str) or type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c)

    def __getattr__(cls, name):
        if name in ("title", "lower", "upper", "maketrans", "capitalize", "casefold"):
            return getattr(_str, name)
        raise AttributeError(name)


def is_strlike(x):
    return isinstance(x, _str) or type.__instancecheck__(SStr, x)


def parts_of(x):
    if isinstance(x, _str):
        return [x] if x else []
    return _list(x._parts)


def _pnorm(parts):
    out = []
    for p in parts:
        if isinstance(p, _str):
            if not p:
                continue
            if out and isinstance(out[-1], _str):
                out[-1] += p
                continue
        out.append(p)
    return out


def int_part(x, spec="d"):
    p = pay(x)
    if isinstance(p, _int):
        return format(p, spec)
    return ("int", wrap(p), spec or "d")


class SStr(metaclass=StrMeta):
    """Structured symbolic text: literal pieces, formatted integers, decoded byte strings."""

    def __new__(cls, x="", *a):
        parts = to_parts(x, *a)
        if cls is SStr:
            return SStr._mk(parts)
        o = object.__new__(cls)
        object.__setattr__(o, "_parts", _pnorm(parts))
        return o

    @staticmethod
    def _mk(parts):
        parts = _pnorm(parts)
        if not parts:
            return ""
        if len(parts) == 1 and isinstance(parts[0], _str):
            return parts[0]
        o = object.__new__(SStr)
        object.__setattr__(o, "_parts", parts)
        return o

    def concrete(self):
        if all(isinstance(p, _str) for p in self._parts):
            return "".join(self._parts)
        engine().unsupported("a concrete string is needed")

    def is_concrete(self):
        return all(isinstance(p, _str) for p in self._parts)

    def __str__(self):
        if self.is_concrete():
            return self.concrete()
        if core.ENGINE is not None and not core.DEBUG:
            engine().unsupported("text of symbolic text")
        return "<sym str>"

    def __repr__(self):
        return repr(str(self))

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __hash__(self):
        return hash(self.concrete())

    def __bool__(self):
        for p in self._parts:
            if isinstance(p, _str) or p[0] == "int":
                return True
            if p[0] in ("utf8", "hex") and p[1]:
                return True
        return False

    def __eq__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return mkbool(str_eq(self._parts, parts_of(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else v_not(r)

    def __lt__(self, o):
        engine().unsupported("string ordering")

    __gt__ = __le__ = __ge__ = __lt__

    def __add__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return SStr._mk(self._parts + parts_of(o))

    def __radd__(self, o):
        if not is_strlike(o):
            return NotImplemented
        return SStr._mk(parts_of(o) + self._parts)

    def __mul__(self, n):
        return SStr._mk(self._parts * _force_concrete(pay(n), "repeat"))

    __rmul__ = __mul__

    def __mod__(self, args):
        return pct(self.concrete(), args)

    def __contains__(self, x):
        if self.is_concrete():
            return x in self.concrete()
        if isinstance(x, _str) and len(x) == 1:
            for p in self._parts:
                if isinstance(p, _str):
                    if x in p:
                        return True
                elif p[0] == "int":
                    if x.isdigit() or (x == "-" and not nonneg(p[1])) or x in "xXabcdefABCDEF":
                        engine().unsupported("character search in a formatted integer")
                else:
                    engine().unsupported("character search in symbolic text")
            return False
        engine().unsupported("substring search in symbolic text")

    def __pyvc_len__(self):
        if self.is_concrete():
            return len(self.concrete())
        n = 0
        for p in self._parts:
            if isinstance(p, _str):
                n += len(p)
            elif p[0] == "int" and fixed_width(p):
                n += fixed_width(p)
            else:
                engine().unsupported("length of symbolic text")
        return n

    def zfill(self, width):
        if not self.is_concrete() and len(self._parts) == 1 and self._parts[0][0] == "int":
            p = self._parts[0]
            w = _force_concrete(pay(width), "zfill")
            if p[2] in ("d", "x", "X") and w >= 0:
                # of a negative number, the sign goes first in both
                return SStr._mk([("int", p[1], "0%d%s" % (w, p[2]) if w > 1 else p[2])])
        return self.concrete().zfill(width)

    def rjust(self, width, fill=" "):
        if fill == "0" and not self.is_concrete() and len(self._parts) == 1 and self._parts[0][0] == "int" \
                and nonneg(self._parts[0][1]):
            return self.zfill(width)
        return self.concrete().rjust(width, fill)

    def __len__(self):
        return self.__pyvc_len__()

    def __iter__(self):
        return iter(self.concrete())

    def __getitem__(self, i):
        if self.is_concrete():
            return self.concrete()[i]
        engine().unsupported("indexing symbolic text")

    # methods
    def format(self, *args, **kwargs):
        return fmt(self.concrete(), args, kwargs)

    def join(self, it):
        out = []
        first = True
        sep = self._parts
        for x in it:
            if not is_strlike(x):
                raise TypeError("sequence item: expected str instance, %s found" % type(x).__name__)
            if not first:
                out += sep
            first = False
            out += parts_of(x)
        return SStr._mk(out)

    def split(self, sep=None, maxsplit=-1):
        if self.is_concrete():
            return self.concrete().split(sep, maxsplit)
        if sep is None or not isinstance(sep, _str) or len(sep) != 1 or sep.isdigit():
            engine().unsupported("split of symbolic text")
        fields = [[]]
        n = 0
        for p in self._parts:
            if isinstance(p, _str):
                while True:
                    i = p.find(sep)
                    if i < 0 or (maxsplit >= 0 and n >= maxsplit):
                        break
                    fields[-1].append(p[:i])
                    fields.append([])
                    n += 1
                    p = p[i + 1:]
                fields[-1].append(p)
            elif p[0] == "int":
                if sep == "-" and not nonneg(p[1]):
                    engine().unsupported("split of signed integers at '-'")
                fields[-1].append(p)
            else:
                engine().unsupported("split of symbolic text")
        return [SStr._mk(f) for f in fields]

    def partition(self, sep):
        f = self.split(sep, 1)
        if len(f) == 1:
            return (f[0], "", "")
        return (f[0], sep, f[1])

    def encode(self, encoding="utf-8", errors="strict"):
        if self.is_concrete():
            return self.concrete().encode(encoding, errors)
        if len(self._parts) == 1 and self._parts[0][0] == "utf8":
            return self._parts[0][1]
        engine().unsupported("encoding symbolic text")

    @_object_state
    def __getstate__(self):
        d = {k: v for k, v in self.__dict__.items() if k != "_parts"}
        return d or None

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if hasattr(_str, name) and not name.startswith("__"):
            return getattr(self.concrete(), name)
        raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, name))


def fixed_width(p):
    """the number of characters of a formatted integer when it is the same for all its values (else None)"""
    import re
    m = re.fullmatch(r"0(\d+)([dxX])", p[2])
    if not m or not nonneg(p[1]):
        return None
    w = _int(m.group(1))
    hi = rng(pay(p[1]))[1]
    top = (10 if m.group(2) == "d" else 16) ** w - 1
    if (hi is not None and hi <= top) or engine().valid(zb2(le_t(pay(p[1]), top))):
        return w
    return None


def nonneg(x):
    lo = rng(pay(x))[0]
    if lo is not None and lo >= 0:
        return True
    return engine().valid(zb2(le_t(0, pay(x))))


def to_parts(x, *a):
    if is_strlike(x):
        return parts_of(x)
    if is_byteslike(x) and a:
        return parts_of(x.decode(*a))
    if isinstance(x, SBool):
        return ["True" if x else "False"]
    if isinstance(x, _bool):
        return [_str(x)]
    if type.__instancecheck__(SInt, x):
        f = type(x).__str__
        if f is not SInt.__str__:
            return to_parts(f(x))
        f = type(x).__repr__
        if f is not SInt.__repr__:
            return to_parts(f(x))
        return [int_part(x)]
    f = type(x).__dict__.get("__str__") or _find(type(x), "__str__")
    if f is not None and getattr(f, "__module__", None) is not None:
        return to_parts(f(x))
    if f is not None and type(x).__module__ in ("builtins",):
        return [_str(x)]
    f = _find(type(x), "__repr__")
    if f is not None and hasattr(f, "__code__"):
        return to_parts(f(x))
    return [_str(x)]


def _find(t, name):
    for c in t.__mro__:
        if c is object:
            return None
        if name in c.__dict__:
            return c.__dict__[name]
    return None


def v_repr(x):
    if isinstance(x, _str) and type(x) is _str:
        return repr(x)
    if isinstance(x, SStr):
        if x.is_concrete():
            return repr(x.concrete())
        return SStr._mk([("opaque", x)])
    if type.__instancecheck__(SInt, x):
        f = type(x).__repr__
        if f is not SInt.__repr__:
            return f(x)
        return SStr._mk([int_part(x)])
    if isinstance(x, SBool):
        return "True" if x else "False"
    f = _find(type(x), "__repr__")
    if f is not None and hasattr(f, "__code__"):
        return f(x)
    return repr(x)


def parse_int(s, base):
    s = SStr(s)
    if isinstance(s, _str):
        return _int(s, base)
    parts = s._parts
    if len(parts) == 1 and parts[0][0] == "int":
        spec = parts[0][2]
        if base in (10,) and (spec == "d" or spec.rstrip("d").isdigit()):
            return pay(parts[0][1])
        if base == 16 and spec.lower().endswith("x"):
            return pay(parts[0][1])
    if s.is_concrete():
        return _int(s.concrete(), base)
    engine().unsupported("int() of symbolic text")


_CANON = {"d": r"-?(?:0|[1-9][0-9]*)"}


def str_eq(pa, pb):
    import re
    pa, pb = _pnorm(pa), _pnorm(pb)
    ca = all(isinstance(p, _str) for p in pa)
    cb = all(isinstance(p, _str) for p in pb)
    if ca and cb:
        return "".join(pa) == "".join(pb)
    if ca:
        pa, pb, ca, cb = pb, pa, cb, ca
    if cb:
        # pa symbolic, pb a concrete string
        s = "".join(pb)
        rx = ""
        for p in pa:
            if isinstance(p, _str):
                rx += re.escape(p)
            elif p[0] == "int" and p[2] == "d":
                rx += "(-?(?:0|[1-9][0-9]*))"
            elif p[0] == "int":
                rx += "([-0-9A-Fa-f]+)"
            elif p[0] == "utf8" and len(pa) == 1:
                return zb2_eq(p[1] == s.encode("utf-8"))
            else:
                engine().unsupported("comparison of symbolic text")
        m = re.fullmatch(rx, s)
        if not m:
            return False
        conds = []
        g = iter(m.groups())
        for p in pa:
            if isinstance(p, _str):
                continue
            txt = next(g)
            v = _int(txt, 16 if p[2].lower().endswith("x") else 10)
            if format(v, p[2]) != txt:
                return False
            if txt == "-0":
                return False
            conds.append(zb2(eq_t(pay(p[1]), v)))
        return z3.And(conds) if conds else True
    if len(pa) != len(pb) or any(isinstance(x, _str) != isinstance(y, _str) for x, y in zip(pa, pb)):
        ta, tb = _tokens(pa), _tokens(pb)
        if ta is not None and tb is not None and (len(ta) != len(pa) or len(tb) != len(pb)):
            # numbers against separators, place by place
            if len(ta) != len(tb) or any(isinstance(x, _str) != isinstance(y, _str) for x, y in zip(ta, tb)):
                return False
            conds = []
            for x, y in zip(ta, tb):
                if isinstance(x, _str):
                    if x != y:
                        return False
                else:
                    conds.append(zb2(eq_t(pay(x[1]), pay(y[1]))))
            return z3.And(conds) if conds else True
    if len(pa) != len(pb):
        # could still be equal ("1"+"2" vs "12"); only decide when separators make it impossible
        la = [p for p in pa if isinstance(p, _str)]
        lb = [p for p in pb if isinstance(p, _str)]
        if not _digits("".join(la)) and not _digits("".join(lb)) and \
                all(isinstance(p, _str) or p[0] == "int" for p in pa + pb):
            return False if "".join(la) != "".join(lb) else _uns()
        _uns()
    conds = []
    for i, (x, y) in enumerate(zip(pa, pb)):
        if isinstance(x, _str) and isinstance(y, _str):
            if x != y:
                if not _digits(x) and not _digits(y) and "-" not in x + y:
                    return False
                _uns()
            # separators between integers must not be digits for injectivity
            continue
        if isinstance(x, _str) or isinstance(y, _str):
            _uns()
        if x[0] != y[0]:
            _uns()
        if x[0] == "int":
            if x[2] != y[2]:
                _uns()
            conds.append(zb2(eq_t(pay(x[1]), pay(y[1]))))
        elif x[0] in ("utf8", "hex"):
            conds.append(zb2_eq(x[1] == y[1]))
        elif x[0] == "opaque":
            conds.append(zb2_eq(x[1] == y[1]))
        else:
            _uns()
    for x, y in zip(pa, pa[1:]):
        if not isinstance(x, _str) and not isinstance(y, _str):
            _uns()
    for j, x in enumerate(pa):
        if isinstance(x, _str):
            if (j > 0 and (x[0].isdigit())) or (j + 1 < len(pa) and x[-1].isdigit()):
                if len([p for p in pa if not isinstance(p, _str)]) > 1:
                    _uns()
    return z3.And(conds) if conds else True


def _tokens(parts):
    """numbers ("d", not negative) and separators without digits in turn, or None if it cannot be seen as that"""
    import re
    out = []
    for p in parts:
        if isinstance(p, _str):
            for x in re.findall(r"[0-9]+|[^0-9]+", p):
                if x[0] in "0123456789":
                    if x != _str(_int(x)):
                        return None
                    out.append(("int", wrap(_int(x)), "d"))
                else:
                    out.append(x)
        elif p[0] == "int" and p[2] == "d" and nonneg(p[1]):
            out.append(p)
        else:
            return None
    for x, y in zip(out, out[1:]):
        if isinstance(x, _str) == isinstance(y, _str):
            return None
    return out


def _digits(s):
    return any(c.isdigit() for c in s)


def _uns():
    engine().unsupported("comparison of symbolic text")


def zb2_eq(x):
    return zb(x)


def fmt(template, args, kwargs):
    """str.format on a concrete template with symbolic arguments"""
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(template):
        if lit:
            out.append(lit)
        if field is None:
            continue
        first, rest = _first(field)
        if first == "":
            val = args[auto]
            auto += 1
        elif first.isdigit():
            val = args[_int(first)]
        else:
            val = kwargs[first]
        for is_attr, name in rest:
            val = getattr(val, name) if is_attr else val[name]
        if spec and "{" in spec:
            # nested fields, numbered explicitly or automatically
            r = []
            for l2, f2, s2, c2 in string.Formatter().parse(spec):
                r.append(l2)
                if f2 is not None:
                    if f2 == "":
                        x = args[auto]
                        auto += 1
                    elif f2.isdigit():
                        x = args[_int(f2)]
                    else:
                        x = kwargs[f2]
                    x = x.__index__() if type.__instancecheck__(SInt, x) else x
                    r.append(_str(x))
            spec = "".join(r)
        if conv == "r":
            val = v_repr(val)
        elif conv == "s":
            val = SStr(val)
        out += fmt1(val, spec or "")
    return SStr._mk(out)


def _first(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return (_str(first), _list(rest))


def norm_spec(spec):
    """one name for the spellings of the same format"""
    import re
    if not spec or spec[-1] not in "bcdeEfFgGnosxX%":
        spec = spec + "d"
    m = re.fullmatch(r"0=?(\d+)([dxX])", spec)
    if m:
        return "0%d%s" % (_int(m.group(1)), m.group(2))
    return spec


def fmt1(val, spec):
    if isinstance(val, SBool):
        val = _bool(val)
    if type.__instancecheck__(SInt, val):
        p = val._pv
        if not spec:
            return to_parts(val)
        if isinstance(p, _int):
            return [format(p, spec)]
        return [("int", wrap(p), norm_spec(spec))]
    if isinstance(val, SStr):
        if spec in ("", "s"):
            return parts_of(val)
        return [format(val if isinstance(val, _str) else val.concrete(), spec)]
    f = getattr(type(val), "__format__", None)
    if not spec and (f is object.__format__ or f is None):
        return to_parts(val)
    return [format(val, spec)]


def pct(template, args):
    """% formatting on a concrete template"""
    import re
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    i = 0
    for m in re.finditer(r"%(?:%|[-0-9.]*[a-zA-Z])|[^%]+", template):
        s = m.group(0)
        if s[0] != "%":
            out.append(s)
        elif s == "%%":
            out.append("%")
        else:
            v = args[i]
            i += 1
            k = s[-1]
            if k == "s" and s == "%s":
                out += to_parts(v)
            elif k == "r" and s == "%r":
                out += to_parts(v_repr(v))
            elif k in "diXx":
                sp = s[1:-1] + ("d" if k == "i" else k)
                if type.__instancecheck__(SInt, v) and not isinstance(v._pv, _int):
                    out.append(("int", wrap(v._pv), norm_spec(sp)))
                else:
                    out.append(s % (v.__index__() if hasattr(v, "__index__") else v))
            else:
                out.append(s % v)
    return SStr._mk(out)


# ============================================================================ dict
class DictMeta(type):
    def __instancecheck__(cls, x):
        if cls is SDict:
            return isinstance(x, _dict) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SDict:
            return issubclass(c, _dict) or type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c)


_MISSING = object()


def _ckey(k):
    """A hashable stand-in when the key is concrete, else None"""
    if isinstance(k, _int):
        return ("n", _int(k))
    if isinstance(k, (_str, _bytes, type(None), type, _float)):
        return ("o", k) if not isinstance(k, _float) else ("n", k)
    if type.__instancecheck__(SInt, k):
        if type(k).__eq__ is SInt.__eq__:
            return ("n", k._pv) if isinstance(k._pv, _int) else None
    if type.__instancecheck__(SStr, k):
        return ("o", k.concrete()) if k.is_concrete() else None
    if type.__instancecheck__(SBytes, k):
        return ("o", k.concrete()) if k.is_concrete() else None
    if isinstance(k, tuple):
        ks = tuple(_ckey(x) for x in k)
        return None if None in ks else ("t", ks)
    if type(k).__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type(k).__name__)
    try:
        hash(k)
    except core.Abort:
        raise
    return ("o", k)


class SDict(metaclass=DictMeta):
    """Insertion-ordered map.  A symbolic key forks over the keys it may equal; an optional
    unknown part (`lazy`) stands for arbitrarily many further entries."""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        object.__setattr__(o, "_e", [])      # [key, value] entries in order
        object.__setattr__(o, "_ix", {})     # ckey -> entry
        object.__setattr__(o, "_nsym", 0)
        object.__setattr__(o, "_lazy", None)
        object.__setattr__(o, "_ver", 0)
        return o

    def __init__(self, *args, **kw):
        if args:
            src = args[0]
            self.update(src)
        for k, v in kw.items():
            self[k] = v

    # -- internal
    def _find(self, k):
        ck = _ckey(k)
        if ck is not None:
            e = self._ix.get(ck)
            if e is not None:
                return e
            if self._nsym:
                for e in self._e:
                    if _ckey(e[0]) is None and _bool(_keyeq(e[0], k)):
                        return e
        else:
            for e in self._e:
                if e[0] is k:
                    return e
            for e in self._e:
                if _comparable(e[0], k) and _bool(_keyeq(e[0], k)):
                    return e
        if self._lazy is not None:
            return self._lazy(self, k)
        return None

    def _insert(self, k, v):
        ck = _ckey(k)
        e = [k, v]
        self._e.append(e)
        if ck is not None:
            self._ix[ck] = e
        else:
            object.__setattr__(self, "_nsym", self._nsym + 1)
        object.__setattr__(self, "_ver", self._ver + 1)
        return e

    def _remove(self, e):
        for i, x in enumerate(self._e):
            if x is e:
                del self._e[i]
                break
        ck = _ckey(e[0])
        if ck is not None:
            self._ix.pop(ck, None)
        else:
            object.__setattr__(self, "_nsym", self._nsym - 1)
        object.__setattr__(self, "_ver", self._ver + 1)

    # -- mapping API
    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, k)
            raise KeyError(k)
        return e[1]

    def __setitem__(self, k, v):
        lz = self._lazy
        if lz is not None and getattr(lz, "over", False):
            # an entry written hides whatever the unknown part has for its key
            object.__setattr__(self, "_lazy", None)
            try:
                e = self._find(k)
            finally:
                object.__setattr__(self, "_lazy", lz)
        else:
            e = self._find(k)
        if e is not None:
            e[1] = v
        else:
            self._insert(k, v)

    def __delitem__(self, k):
        e = self._find(k)
        if e is None:
            raise KeyError(k)
        self._remove(e)

    def __contains__(self, k):
        return self._find(k) is not None

    def get(self, k, d=None):
        e = self._find(k)
        return d if e is None else e[1]

    def setdefault(self, k, d=None):
        e = self._find(k)
        if e is None:
            # like CPython, does not go through __setitem__
            e = self._insert(k, d)
        return e[1]

    def pop(self, k, *d):
        e = self._find(k)
        if e is None:
            if d:
                return d[0]
            raise KeyError(k)
        self._remove(e)
        return e[1]

    def popitem(self):
        if self._lazy is not None:
            engine().unsupported("takes an item from a map of unknown size")
        if not self._e:
            raise KeyError("popitem(): dictionary is empty")
        e = self._e[-1]
        self._remove(e)
        return (e[0], e[1])

    def update(self, *a, **kw):
        if a:
            src = a[0]
            if type.__instancecheck__(SDict, src):
                for k, v in _list(src.items()):
                    SDict.__setitem__(self, k, v)
            elif hasattr(src, "keys"):
                for k in src.keys():
                    SDict.__setitem__(self, k, src[k])
            else:
                for k, v in src:
                    SDict.__setitem__(self, k, v)
        for k, v in kw.items():
            SDict.__setitem__(self, k, v)

    def clear(self):
        if getattr(self._lazy, "over", False):
            engine().unsupported("clears a map of arbitrary contents")
        self._e.clear()
        self._ix.clear()
        object.__setattr__(self, "_nsym", 0)
        object.__setattr__(self, "_lazy", None)
        object.__setattr__(self, "_ver", self._ver + 1)

    def copy(self):
        return SDict(self)

    def _iter(self, f):
        if self._lazy is not None:
            engine().unsupported("iteration over a map of unknown size")
        n = len(self._e)
        i = 0
        while i < len(self._e):
            yield f(self._e[i])
            i += 1
            if len(self._e) != n:
                raise RuntimeError("dictionary changed size during iteration")

    def __iter__(self):
        return self._iter(lambda e: e[0])

    def keys(self):
        return View(self, lambda e: e[0], "keys")

    def values(self):
        return View(self, lambda e: e[1], "values")

    def items(self):
        return View(self, lambda e: (e[0], e[1]), "items")

    def __reversed__(self):
        return iter([e[0] for e in reversed(self._e)])

    def __len__(self):
        if self._lazy is not None:
            engine().unsupported("size of a map of unknown size")
        return len(self._e)

    def __eq__(self, o):
        if isinstance(o, _dict):
            o = SDict(o)
        if not type.__instancecheck__(SDict, o):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            e = o._find(k)
            if e is None:
                return False
            if not (v is e[1] or v == e[1]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = SDict(self)
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    @classmethod
    def fromkeys(cls, it, v=None):
        d = cls()
        for k in it:
            d[k] = v
        return d

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % (e[0], e[1]) for e in self._e)

    @_object_state
    def __getstate__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("_e", "_ix", "_nsym", "_lazy", "_ver")}
        return d or None


class View:
    def __init__(self, d, f, kind=None):
        self.d, self.f, self.kind = d, f, kind

    def __iter__(self):
        return self.d._iter(self.f)

    def __len__(self):
        return len(self.d)

    def __contains__(self, x):
        for y in self:
            if y == x:
                return True
        return False

    def __reversed__(self):
        return iter([self.f(e) for e in reversed(self.d._e)])

    def __and__(self, o):
        return SSet([x for x in self if x in o])

    def __or__(self, o):
        return SSet([*self, *o])

    def __sub__(self, o):
        return SSet([x for x in self if x not in o])

    def __rsub__(self, o):
        return SSet([x for x in o if x not in self])

    def __eq__(self, o):
        return SSet(self) == o

    def __repr__(self):
        return repr(_list(self))


def _comparable(a, b):
    ia, ib = is_intlike(a), is_intlike(b)
    if ia or ib:
        return ia and ib
    sa, sb = is_strlike(a), is_strlike(b)
    if sa or sb:
        return sa and sb
    return True


def _keyeq(a, b):
    if not _comparable(a, b):
        return False
    return a == b


# ============================================================================ set
class SetMeta(type):
    def __instancecheck__(cls, x):
        if cls is SSet:
            return isinstance(x, _set) or type.__instancecheck__(cls, x)
        return type.__instancecheck__(cls, x)

    def __subclasscheck__(cls, c):
        if cls is SSet:
            return issubclass(c, _set) or type.__subclasscheck__(cls, c)
        return type.__subclasscheck__(cls, c)


class SSet(metaclass=SetMeta):
    """Set; an entry may carry a guard (member exactly when the guard holds)."""

    _over = False       # arbitrary contents: may be added to but not read (cut.opaque_set)

    def __new__(cls, *a):
        o = object.__new__(cls)
        object.__setattr__(o, "_m", [])      # [elem, guard]
        object.__setattr__(o, "_ix", {})
        return o

    def __init__(self, it=()):
        self._m.clear()
        self._ix.clear()
        for x in it:
            SSet.add(self, x)

    def add(self, x):
        self.add_if(True, x)

    def add_if(self, g, x):
        ck = _ckey(x)
        if ck is not None:
            e = self._ix.get(ck)
            if e is not None:
                e[1] = v_or(e[1], g)
                return
            e = [x, g]
            self._m.append(e)
            self._ix[ck] = e
            return
        if g is True and not self._over:
            c = self.has(x)
            if c is True:
                return
            if isinstance(c, SBool) and engine().decide(c.t):
                return
            self._m.append([x, True])
        else:
            self._m.append([x, g])

    def has(self, x):
        """truth value of membership, without forking"""
        if self._over:
            engine().unsupported("reads a set of arbitrary contents")
        ck = _ckey(x)
        cs = []
        if ck is not None:
            e = self._ix.get(ck)
            if e is not None:
                if e[1] is True:
                    return True
                cs.append(e[1])
            for e in self._m:
                if _ckey(e[0]) is None and _comparable(e[0], x):
                    cs.append(v_and(_keyeq(e[0], x), e[1]))
        else:
            for e in self._m:
                if _comparable(e[0], x):
                    cs.append(v_and(_keyeq(e[0], x), e[1]))
        return v_or(*cs)

    def __contains__(self, x):
        return _bool(self.has(x))

    def _force(self):
        """decide all guards"""
        if self._over:
            engine().unsupported("reads a set of arbitrary contents")
        for e in _list(self._m):
            if e[1] is not True:
                if _bool(e[1]):
                    e[1] = True
                else:
                    self._m.remove(e)
                    ck = _ckey(e[0])
                    if ck is not None:
                        self._ix.pop(ck, None)
        return self

    def __iter__(self):
        self._force()
        n = len(self._m)
        i = 0
        while i < len(self._m):
            yield self._m[i][0]
            i += 1
            if len(self._m) != n:
                raise RuntimeError("Set changed size during iteration")

    def __len__(self):
        return len(self._force()._m)

    def __bool__(self):
        if any(e[1] is True for e in self._m):
            return True
        if self._over:
            engine().unsupported("reads a set of arbitrary contents")
        return _bool(v_or(*[e[1] for e in self._m]))

    def _del(self, x):
        self._force()
        for e in self._m:
            if _comparable(e[0], x) and e[0] == x:
                self._m.remove(e)
                ck = _ckey(e[0])
                if ck is not None:
                    self._ix.pop(ck, None)
                return True
        return False

    def remove(self, x):
        if not self._del(x):
            raise KeyError(x)

    def discard(self, x):
        self._del(x)

    def pop(self):
        for x in self:
            self._del(x)
            return x
        raise KeyError("pop from an empty set")

    def clear(self):
        if self._over:
            engine().unsupported("clears a set of arbitrary contents")
        self._m.clear()
        self._ix.clear()

    def update(self, *its):
        for it in its:
            if type.__instancecheck__(SSet, it) and not it._over:
                for e in _list(it._m):
                    self.add_if(e[1], e[0])
            else:
                for x in it:
                    self.add(x)

    def copy(self):
        r = type(self)()
        r.update(self)
        return r

    def _other(self, o):
        return o if type.__instancecheck__(SSet, o) else SSet(o)

    def union(self, *os):
        r = SSet()
        r.update(self)
        r.update(*os)
        return r

    def __or__(self, o):
        if not isinstance(o, (SSet, frozenset, View)):
            return NotImplemented
        return self.union(o)

    __ror__ = __or__

    def intersection(self, o):
        o = self._other(o)
        return SSet([x for x in self if x in o])

    def __and__(self, o):
        return self.intersection(o)

    def difference(self, o):
        o = self._other(o)
        return SSet([x for x in self if x not in o])

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SSet(o).difference(self)

    def symmetric_difference(self, o):
        return self.difference(o) | self._other(o).difference(self)

    __xor__ = symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        for x in _list(o):
            self.discard(x)
        return self

    def issubset(self, o):
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if isinstance(o, (_set, frozenset)):
            o = SSet(o)
        if not type.__instancecheck__(SSet, o):
            return NotImplemented
        return v_and(*[v_implies(e[1], o.has(e[0])) for e in self._m],
                     *[v_implies(e[1], self.has(e[0])) for e in o._m])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else v_not(r)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(repr(e[0]) for e in self._m)

    @_object_state
    def __getstate__(self):
        d = {k: v for k, v in self.__dict__.items() if k not in ("_m", "_ix")}
        return d or None


# ============================================================================ helper builtins
def V_len(x):
    f = getattr(type(x), "__pyvc_len__", None)
    if f is not None:
        return f(x)
    return len(x)


class SRange:
    def __init__(self, *a):
        ps = [pay(x) for x in a]
        if len(ps) == 1:
            self.a, self.b, self.s = 0, ps[0], 1
        else:
            self.a, self.b = ps[0], ps[1]
            self.s = ps[2] if len(ps) > 2 else 1
        if isinstance(self.s, T):
            self.s = _force_concrete(self.s, "range step")
        if self.s == 0:
            raise ValueError("range() arg 3 must not be zero")

    def __iter__(self):
        e = engine()
        i = self.a
        n = 0
        while True:
            c = lt_t(i, self.b) if self.s > 0 else lt_t(self.b, i)
            if not (c if isinstance(c, _bool) else e.decide(c)):
                return
            n += 1
            if n > e.unroll_limit:
                e.unsupported("unbounded range")
            yield wrap(i)
            i = p_add(i, self.s)

    def __contains__(self, x):
        x = pay(x)
        if self.s != 1:
            engine().unsupported("membership in a stepped range")
        return _bool(mkbool(z3.And(zb2(le_t(self.a, x)), zb2(lt_t(x, self.b)))))

    def __pyvc_len__(self):
        if self.s != 1:
            engine().unsupported("length of a stepped range")
        n = wrap(p_sub(self.b, self.a))
        return n if n > 0 else 0

    def __len__(self):
        n = self.__pyvc_len__()
        return n if isinstance(n, _int) else n.__index__()


class RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.range, SRange))

    def __call__(cls, *a):
        a = [x.__index__() if not is_intlike(x) and hasattr(x, "__index__") else x for x in a]
        if all(isinstance(pay(x), _int) for x in a):
            return builtins.range(*[pay(x) for x in a])
        return SRange(*a)


class VRange(metaclass=RangeMeta):
    pass


class BoolMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_bool, SBool))

    def __call__(cls, x=False):
        return _bool(x)


class VBool(metaclass=BoolMeta):
    pass


def mkdict(pairs):
    d = SDict()
    for k, v in pairs:
        SDict.__setitem__(d, k, v)
    return d


def mkset(it):
    return SSet(it)


def mkset_if(pairs):
    s = SSet()
    for g, x in pairs:
        s.add_if(g, x)
    return s


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, _str):
            out.append(p)
        else:
            val, conv, spec = p
            if conv == 114:
                val = v_repr(val)
            elif conv == 115:
                val = SStr(val)
            if not isinstance(spec, _str):
                spec = spec.concrete()
            out += fmt1(val, spec)
    return SStr._mk(out)


def slit(s):
    """a string literal about to receive a method call"""
    o = object.__new__(SStr)
    object.__setattr__(o, "_parts", [s] if s else [])
    return o


def blit(b):
    """a bytes literal about to receive a method call"""
    o = object.__new__(SBytes)
    object.__setattr__(o, "_segs", [("c", b)] if b else [])
    return o


def uf_crc(name, data):
    """uninterpreted 16-bit checksum of a byte string"""
    e = engine()
    e.abstract = True
    n = data.length()
    if not isinstance(n, _int):
        n = _force_concrete(n, "checksum length")
    if n == 0:
        t = z3.BitVec("%s!empty" % name, 16)
    else:
        f = z3.Function("%s!%d" % (name, n), *([z3.BitVecSort(8)] * n), z3.BitVecSort(16))
        t = f(*[data.byte_term(i) for i in builtins.range(n)])
    return wrap(mkbv(z3.ZeroExt(1, t), 0, 0xFFFF))


def eval_intlist(m, xs):
    return [eval_int(m, x) for x in xs]


def v_sum(it, start=0):
    for x in it:
        start = start + x
    return start


def v_abs(x):
    return abs(x)


def v_min(*a, key=None, default=_MISSING):
    return _mm(a, key, default, lambda x, y: x < y)


def v_max(*a, key=None, default=_MISSING):
    return _mm(a, key, default, lambda x, y: x > y)


def _mm(a, key, default, better):
    it = a[0] if len(a) == 1 else a
    best = _MISSING
    for x in it:
        if best is _MISSING or better(key(x) if key else x, key(best) if key else best):
            best = x
    if best is _MISSING:
        if default is not _MISSING:
            return default
        raise ValueError("arg is an empty sequence")
    return best


def v_round(x, n=None):
    if type.__instancecheck__(SFloat, x):
        return round(_float(x), n) if n is not None else round(_float(x))
    return round(x, n) if n is not None else round(x)


def v_chr(x):
    return chr(x.__index__() if type.__instancecheck__(SInt, x) else x)


def v_format(x, spec=""):
    return SStr._mk(fmt1(x, spec))


def _absent(d, k):
    """remember on this path that the unknown part of d has no key k"""
    lz = d._lazy
    absent = getattr(lz, "absent", None)
    if absent is None:
        lz.absent = absent = []
    absent.append(k)
