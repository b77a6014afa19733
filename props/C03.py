"""C03: scalar wire types encode to, and decode from, the exact bytes of the protocol."""
from pyvc.api import harness

T = "pyzwave.types:"
R = T + "BitStreamReader"
W = T + "BitStreamWriter"
FUNCTIONS = [T + c + "." + m for c in ("int_t", "uint3_t", "uint4_t", "uint5_t", "uint7_t", "BitsBase",
                                       "bytes_t", "IPv6", "dsk_t") for m in ("serialize", "deserialize")
             ] + [T + "float_t.deserialize", T + "str_t.deserialize", T + "reserved_t"]
ASSUMPTIONS = ["a value given to a fixed-width type is within the range of the type",
               "decimal readings are treated as exact rationals; every native execution compares the "
               "machine floats as well"]

WHOLE = [("uint8_t", 1, False), ("uint16_t", 2, False), ("uint32_t", 4, False), ("HomeID", 4, False),
         ("int24_t", 3, True)]
BITS = [("uint3_t", 3), ("uint4_t", 4), ("uint5_t", 5), ("uint7_t", 7), ("flag_t", 1)]


def prime(h):
    h.mod("pyzwave.adapter")


def number(h, b, signed):
    """the value of big endian bytes"""
    v = 0
    for x in b:
        v = v * 256 + x
    if signed:
        v = h.ite(b[0] >= 128, v - (1 << (8 * len(b))), v)
    return v


@harness(params=WHOLE, functions=[T + "int_t.serialize", T + "int_t.deserialize"])
def integer_encode(h, p):
    prime(h)
    name, n, signed = p
    cls = h.get(T + name)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    v = h.int("v", lo, hi)
    w = h.get(W)()
    cls(v).serialize(w)
    out = bytes(w)
    h.check("exactly its width", len(out) == n)
    h.check("most significant byte first", number(h, out, signed) == v)
    back = cls.deserialize(h.get(R)(out))
    h.check("decodes to the value", back == v)
    h.check("to an integer of its own kind", isinstance(back, cls))


@harness(params=WHOLE, functions=[T + "int_t.serialize", T + "int_t.deserialize"])
def integer_decode(h, p):
    prime(h)
    name, n, signed = p
    cls = h.get(T + name)
    raw = h.bytes("raw", n)
    tail = h.anybytes("tail")
    r = h.get(R)(raw + tail)
    v = cls.deserialize(r)
    h.check("the value of the bytes", v == number(h, raw, signed))
    h.check("nothing more was consumed", r.remaining() == tail)
    w = h.get(W)()
    v.serialize(w)
    h.check("encodes to the same bytes", bytes(w) == raw)


@harness(params=WHOLE)
def integer_short(h, p):
    prime(h)
    name, n, signed = p
    raw = h.bytes("raw", 0, n - 1)
    e, _ = h.catch(h.get(T + name).deserialize, h.get(R)(raw))
    h.check("too few bytes is EOFError", isinstance(e, EOFError))


def bitcls(h, name, n):
    return h.get(T + name)(n) if name in ("bits_t", "reserved_t") else h.get(T + name)


BITPOS = [(name, n, k) for name, n in BITS + [("bits_t", i) for i in range(1, 9)]
          for k in range(0, 9 - n)]


@harness(params=BITPOS, functions=[T + "BitsBase.serialize", T + "BitsBase.deserialize"], fuzz=10)
def bit_field(h, p):
    """a field of n bits starting k bits into a byte"""
    prime(h)
    name, n, k = p
    cls = bitcls(h, name, n)
    v = h.int("v", 0, (1 << n) - 1)
    x = h.int("x", 0, (1 << k) - 1) if k else 0
    rest = 8 - k - n
    y = h.int("y", 0, (1 << rest) - 1) if rest else 0
    w = h.get(W)()
    if k:
        w.addBits(x, k)
    obj = cls(v)
    h.check("the typed value is the value", int(obj) == v)
    obj.serialize(w)
    if rest:
        w.addBits(y, rest)
    h.check("the byte", bytes(w) == bytes([(x << (8 - k)) + (v << rest) + y]))
    r = h.get(R)(bytes(w))
    r.advance(k)
    back = cls.deserialize(r)
    h.check("decodes to the value", back == v)
    if rest:
        h.check("what follows is untouched", r.bits(rest) == y)


@harness(params=[(n, k) for n in range(1, 9) for k in range(0, 9 - n)], functions=[T + "reserved_t"], fuzz=10)
def reserved(h, p):
    """reserved bits are always sent as zero, whatever was received"""
    prime(h)
    n, k = p
    v = h.int("v", 0, (1 << n) - 1)
    x = h.int("x", 0, (1 << k) - 1) if k else 0
    w = h.get(W)()
    if k:
        w.addBits(x, k)
    h.get(T + "reserved_t")(n)(v).serialize(w)
    h.check("zero", bytes(w) == bytes([x << (8 - k)]))
    if k + n < 8:
        w.addBits(0, 8 - k - n)
    h.get(T + "uint8_t")(7).serialize(w)
    h.check("and takes its width", len(w) == 2)


@harness
def flag_truth(h):
    prime(h)
    v = h.int("v", 0, 255)
    f = h.get(T + "flag_t")(v)
    h.check("a flag is true for odd numbers only", bool(f) == (v % 2 == 1))


@harness(params=[("uint8_t", 8), ("uint3_t", 3), ("uint4_t", 4), ("uint7_t", 7)],
         functions=[T + "enum_t"])
def enumerated(h, p):
    """an enumerated field carries any number of its base type, listed or not"""
    prime(h)
    import enum
    name, n = p
    base = h.get(T + name)
    Some = enum.IntEnum("Some", {"A": 0, "B": 2})
    cls = h.get(T + "enum_t")(Some, base)
    v = h.int("v", 0, (1 << n) - 1)
    w = h.get(W)()
    cls(v).serialize(w)
    if n < 8:
        w.addBits(0, 8 - n)
    h.check("encoded like its base type", bytes(w) == bytes([v << (8 - n)]))
    h.check("decodes to the number", cls.deserialize(h.get(R)(bytes(w))) == v)
    h.check("compares with the listed values", (cls(v) == Some.B) == (v == 2))


@harness
def raw_bytes(h):
    """variable size bytes take everything up to the end, unchanged"""
    prime(h)
    cls = h.get(T + "bytes_t")
    pre = h.anybytes("pre")
    b = h.anybytes("b")
    w = h.get(W)()
    w.extend(pre)
    cls(b).serialize(w)
    h.check("appended unchanged", bytes(w) == pre + b)
    r = h.get(R)(bytes(w))
    h.check("the prefix", r.value(len(pre)) == pre)
    h.check("decodes to the same bytes", cls.deserialize(r) == b)
    h.check("nothing is left", r.bytesLeft() == 0)


@harness(functions=[T + "IPv6.serialize", T + "IPv6.deserialize"])
def ipv6(h):
    prime(h)
    raw = h.bytes("raw", 16)
    tail = h.anybytes("tail")
    r = h.get(R)(raw + tail)
    a = h.get(T + "IPv6").deserialize(r)
    h.check("the 16 bytes are the address", a.packed == raw)
    h.check("nothing more was consumed", r.remaining() == tail)
    w = h.get(W)()
    a.serialize(w)
    h.check("encodes to the same bytes", bytes(w) == raw)


@harness
def ipv6_short(h):
    prime(h)
    raw = h.bytes("raw", 0, 15)
    e, _ = h.catch(h.get(T + "IPv6").deserialize, h.get(R)(raw))
    h.check("too few bytes is EOFError", isinstance(e, EOFError))


@harness(functions=[T + "dsk_t.serialize", T + "dsk_t.deserialize", T + "dsk_t.deserializeN"])
def dsk(h):
    prime(h)
    raw = h.bytes("raw", 16)
    tail = h.anybytes("tail")
    cls = h.get(T + "dsk_t")
    r = h.get(R)(raw + tail)
    v = cls.deserialize(r)
    h.check("the 16 bytes of the key", v == raw)
    h.check("nothing more was consumed", r.remaining() == tail)
    d = cls()
    d.__setstate__(v)
    w = h.get(W)()
    d.serialize(w)
    h.check("encodes to the same bytes", bytes(w) == raw)


@harness(functions=[T + "dsk_t.deserializeN"])
def dsk_length(h):
    prime(h)
    n = h.int("n", 0, 31)
    data = h.anybytes("data")
    r = h.get(R)(data)
    cls = h.get(T + "dsk_t")
    e, v = h.catch(cls.deserializeN, r, n)
    if n == 0:
        h.check("no key", h.all(e is None, v == b""))
        h.check("nothing was consumed", r.remaining() == data)
    elif n != 16:
        h.check("any other length is refused", isinstance(e, ValueError))
    elif len(data) < 16:
        h.check("a key cut off is EOFError", isinstance(e, EOFError))
    else:
        h.check("the key", h.all(e is None, v == data[:16]))


@harness(params=[(p, s) for p in range(8) for s in range(0, 7)], functions=[T + "float_t.deserialize"])
def decimal(h, p):
    """precision, scale, size, then a signed number: number / 10**precision"""
    prime(h)
    prec, size = p
    scale = h.int("scale", 0, 3)
    raw = h.bytes("raw", size)
    tail = h.anybytes("tail")
    r = h.get(R)(bytes([(prec << 5) + (scale << 3) + size]) + raw + tail)
    got = h.get(T + "float_t").deserialize(r)
    v, n, sc = got
    num = number(h, raw, True) if size else 0
    h.check("number / 10**precision", v == num / (10 ** prec))
    h.check("the size", n == size)
    h.check("the scale", sc == scale)
    h.check("nothing more was consumed", r.remaining() == tail)
    f = h.get(T + "float_t")(*got)
    h.check("the typed value", f == num / (10 ** prec))
    h.check("knows its scale", f.scale == scale)


@harness(params=list(range(8)))
def decimal_short(h, size):
    prime(h)
    if size == 0:
        raw = b""
    else:
        raw = bytes([h.int("head", 0, 31) * 8 + size]) + h.bytes("raw", 0, size - 1)
    e, _ = h.catch(h.get(T + "float_t").deserialize, h.get(R)(raw))
    h.check("too few bytes is EOFError", isinstance(e, EOFError))


@harness(functions=[T + "str_t.deserialize"])
def text(h):
    """a length byte, then that many bytes of UTF-8"""
    prime(h)
    data = h.anybytes("data", 1)
    r = h.get(R)(data)
    n = data[0]
    h.assume(n + 1 <= len(data))
    raw = data[1:1 + n]
    e, s = h.catch(h.get(T + "str_t").deserialize, r)
    if e is not None:
        h.check("only text that is not UTF-8 is refused", isinstance(e, UnicodeDecodeError))
        e2, _ = h.catch(raw.decode, "utf-8")
        h.check("and it is not UTF-8", isinstance(e2, UnicodeDecodeError))
    else:
        h.check("the text of those bytes", s == raw.decode("utf-8"))
        h.check("nothing more was consumed", r.remaining() == data[1 + n:])


TEXTS = ["", "\0", "a\0", "\0a", "a\0\0", " ", " a ", "a\n", "\r\n", "\ta", "\ufeffa", "a\ufeff", "\u00e5", "a\u030a", "\U0001f600",
         "\x7f", "\x80", "\u07ff\u0800", "\uffff", "\U0010ffff", "A" * 255, "\u00e5" * 127, "\x1b[0m", "a\u00a0", "\u200b", "%s", "{}"]


@harness(params=range(len(TEXTS)), fuzz=2, functions=[T + "str_t.deserialize"])
def texts(h, i):
    """texts as they are, nothing added, removed or replaced"""
    prime(h)
    raw = TEXTS[i].encode("utf-8")
    rest = h.bytes("rest", h.choice("more", [0, 2]))
    r = h.get(R)(bytes([len(raw)]) + raw + rest)
    s = h.get(T + "str_t").deserialize(r)
    h.check("the text", s == TEXTS[i])
    h.check("and no more", r.remaining() == rest)


@harness
def text_short(h):
    prime(h)
    data = h.anybytes("data")
    if len(data) > 0:
        h.assume(data[0] + 1 > len(data))
    e, _ = h.catch(h.get(T + "str_t").deserialize, h.get(R)(data))
    h.check("a text cut off is EOFError", isinstance(e, EOFError))
