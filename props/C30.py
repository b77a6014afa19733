"""C30: a device key and its text of eight groups of five digits are the same thing.

`text_of` and `bytes_of` go over every key at once: the text is built of the decimal texts of the eight words, each word the
value of two bytes. `digits` pins down what five digits are, for every value of a word, at every place."""
from hlib import prime
from pyvc.api import harness

T = "pyzwave.types:"
D = T + "dsk_t."
M = "pyzwave.message:Message"
P = "pyzwave.commandclass.NodeProvisioning:"
N = "pyzwave.commandclass.NetworkManagementInclusion:"
FUNCTIONS = [D + n for n in ("__getstate__", "__setstate__", "__eq__", "__repr__", "serialize", "deserialize", "deserializeN")] + \
    [P + "Set.compose_dsk", P + "Set.parse_dsk", P + "ListIterationReport.parse_dsk"]
ASSUMPTIONS = ["str.format and int of CPython are each other's inverse on five digit decimal numbers (gone over by `digits`)"]


def words(key):
    return [(key[2 * i] << 8) | key[2 * i + 1] for i in range(8)]


def text_of_words(ws):
    return "-".join(["{:05d}".format(w) for w in ws])


EDGES = sorted(set(max(0, min(65535, b + d)) for b in [0, 10, 100, 1000, 10000, 256, 4096, 32768, 65536, 12345, 60606]
                   for d in (-1, 0, 1)))


def make(h, key):
    d = h.get(T + "dsk_t")()
    d.__setstate__(key)
    return d


def raw(h, d):
    w = h.get(T + "BitStreamWriter")()
    d.serialize(w)
    return bytes(w)


@harness(functions=[D + "__getstate__", D + "__setstate__", D + "__repr__", D + "__eq__"])
def text_of(h):
    prime(h)
    key = h.bytes("key", 16)
    d = make(h, key)
    want = text_of_words(words(key))
    h.check("its text", d.__getstate__() == want)
    h.check("as it is shown", repr(d) == want)
    h.check("is its text", d == want)
    h.check("the key itself", raw(h, d) == key)
    other = h.bytes("other", 16)
    h.check("equal to the text of another key only if it is the same key",
            h.iff(d == text_of_words(words(other)), key == other))
    h.check("its text again after that", d.__getstate__() == want)


SPECIAL = [bytes(16), b"\xff" * 16, bytes(15) + b"\x01", b"\x01" + bytes(15), b"0" * 16, b"-" * 16, bytes(range(16)),
           b"00001-00002-0000", b"\x00\x2d" * 8]


@harness(params=["any"] + list(range(len(SPECIAL))), fuzz=10, functions=[D + "__getstate__", D + "__setstate__", D + "serialize"])
def constructed(h, which):
    """a key made of its bytes in whatever way: constructed, given, read"""
    prime(h)
    key = h.bytes("key", 16) if which == "any" else SPECIAL[which]
    want = text_of_words(words(key))
    cls = h.get(T + "dsk_t")
    m = h.get(M).decode(b"\x78\x01\x07\x10" + key)
    for d in (cls(key), make(h, key), make(h, want), m.dsk):
        h.check("its text", d.__getstate__() == want)
        h.check("its bytes", raw(h, d) == key)


@harness(functions=[D + "__getstate__", D + "__setstate__"])
def bytes_of(h):
    """the text of any eight words is a key of these words; over any key, text or nothing before it"""
    prime(h)
    ws = [h.int("word%d" % i, 0, 65535) for i in range(8)]
    d = h.get(T + "dsk_t")()
    before = h.choice("before", ["none", "bytes", "text"])
    if before == "bytes":
        d.__setstate__(h.bytes("old", 16))
    elif before == "text":
        d.__setstate__("00001-00000-65535-00256-00255-12345-00000-00009")
    d.__setstate__(text_of_words(ws))
    got = raw(h, d)
    h.check("sixteen bytes", len(got) == 16)
    if len(got) == 16:
        for i in range(8):
            h.check("high byte first", h.all(got[2 * i] == ws[i] // 256, got[2 * i + 1] == ws[i] % 256), (i,))
    h.check("the same text again", d.__getstate__() == text_of_words(ws))


@harness(functions=[D + "__getstate__", D + "__setstate__"])
def there_and_back(h):
    prime(h)
    key = h.bytes("key", 16)
    d = h.get(T + "dsk_t")()
    d.__setstate__(make(h, key).__getstate__())
    h.check("the same key", raw(h, d) == key)


@harness(params=list(range(8)), functions=[D + "__getstate__", D + "__setstate__"], fuzz=1, time=120)
def digits(h, place):
    """every value of the word at this place, written out digit by digit"""
    prime(h)
    cls = h.get(T + "dsk_t")
    rest = ["00000", "65535", "00001", "04660", "00256", "00010", "09999", "10000"]
    rest_bytes = [b"\x00\x00", b"\xff\xff", b"\x00\x01", b"\x12\x34", b"\x01\x00", b"\x00\x0a", b"\x27\x0f", b"\x27\x10"]
    digit = "0123456789"
    bad = None
    # on the instrumented code the values around every change of digits, on the code as it runs all of them
    for w in (EDGES if h.symbolic else range(65536)):
        rest[place] = digit[w // 10000] + digit[w // 1000 % 10] + digit[w // 100 % 10] + digit[w // 10 % 10] + digit[w % 10]
        rest_bytes[place] = bytes([w // 256, w % 256])
        text, key = "-".join(rest), b"".join(rest_bytes)
        d = cls()
        d.__setstate__(text)
        e = cls()
        e.__setstate__(key)
        if d._dsk != key or e.__getstate__() != text:
            bad = w
            break
    h.check("the word as five digits", bad is None, (place, bad))


@harness(functions=[D + "__setstate__"])
def lengths(h):
    """as bytes, a key has sixteen bytes or none"""
    prime(h)
    key = h.anybytes("key")
    d = h.get(T + "dsk_t")()
    old = h.bytes("old", 16)
    d.__setstate__(old)
    exc, _ = h.catch(d.__setstate__, key)
    fine = h.any(len(key) == 16, len(key) == 0)
    h.check("refused unless 16 bytes or none", h.iff(isinstance(exc, ValueError), h.no(fine)))
    h.check("never another error", exc is None or isinstance(exc, ValueError))
    h.check("taken as it is, or not at all", raw(h, d) == (key if exc is None else old))


@harness(functions=[D + "deserializeN", D + "deserialize"])
def read_lengths(h):
    """off the wire, too"""
    prime(h)
    cls = h.get(T + "dsk_t")
    n = h.int("length", 0, 255)
    key, rest = h.bytes("key", 16), h.anybytes("rest")
    s = h.get(T + "BitStreamReader")(key + rest)
    exc, got = h.catch(cls.deserializeN, s, n)
    if exc is not None:
        h.check("only other lengths are refused", h.all(isinstance(exc, ValueError), n != 0, n != 16))
        return
    h.check("sixteen bytes or none", h.any(n == 0, n == 16))
    if n == 0:
        h.check("no key", got == b"")
        h.check("nothing is read", s.remaining() == key + rest)
    else:
        h.check("the key", got == key)
        h.check("what follows is left", s.remaining() == rest)
    h.check("a key of its full length", cls.deserialize(h.get(T + "BitStreamReader")(key + rest)) == key)


@harness(functions=[D + "deserialize", D + "deserializeN"])
def too_short(h):
    prime(h)
    cls = h.get(T + "dsk_t")
    short = h.bytes("short", 0, 15)
    exc, _ = h.catch(cls.deserialize, h.get(T + "BitStreamReader")(short))
    h.check("a cut off key is an error", isinstance(exc, EOFError))


MESSAGES = [(P + "Set", b"\x78\x01", lambda k: bytes([len(k)]) + k), (N + "NodeAddDSKReport", b"\x34\x13", lambda k: b"\x00" + k),
            (N + "NodeAddDSKSet", b"\x34\x14", lambda k: b"\x00" + k), (N + "IncludedNIFReport", b"\x34\x19", lambda k: k),
            (N + "SmartStartJoinStartedReport", b"\x34\x15", lambda k: k)]


@harness(params=lambda: [m[0].split(":")[1] for m in MESSAGES],
         functions=[P + "Set.compose_dsk", P + "Set.parse_dsk"])
def in_messages(h, which):
    """a message is made with either form, and read with the one seen as the other"""
    prime(h)
    name, head, tail = [m for m in MESSAGES if m[0].endswith(":" + which)][0]
    cls = h.get(name)
    key = h.bytes("key", 16)
    text = text_of_words(words(key))
    seq = h.int("seq", 0, 255)
    kw = dict(inputDSKLength=0) if which in ("NodeAddDSKSet", "NodeAddDSKReport") else {}
    if which == "NodeAddDSKSet":
        kw["accept"] = False
    if which == "Set":
        kw["metaDataExtension"] = b""
    for form in (key, text):
        out = cls(seqNo=seq, dsk=form, **kw).compose()
        h.check("the sixteen bytes are sent", out == head + bytes([seq]) + tail(key))
    h.check("or no key", cls(seqNo=seq, dsk=b"", **kw).compose() == head + bytes([seq]) + tail(b""))
    exc, _ = h.catch(cls, seqNo=seq, dsk=h.bytes("wrong", 17), **kw)
    h.check("nothing is made of another length", isinstance(exc, ValueError))
    m = h.get(M).decode(head + bytes([seq]) + tail(key))
    h.check("read as the text", m.dsk == text)
    h.check("to be sent on as it came", m.compose() == head + bytes([seq]) + tail(key))


@harness(functions=[P + "Set.parse_dsk", P + "ListIterationReport.parse_dsk"])
def provisioning(h):
    """any length a provisioning message claims"""
    prime(h)
    listing = h.flag("list")
    n, res = h.int("length", 0, 31), h.int("res", 0, 7)
    key = h.bytes("key", 16)
    head = b"\x78\x04" + bytes([1, 0]) if listing else b"\x78\x01\x01"
    exc, m = h.catch(h.get(M).decode, head + bytes([res * 32 + n]) + (b"\xfe\x00" if n == 0 else key))
    if n == 16:
        h.check("a key", exc is None and m.dsk == text_of_words(words(key)))
    elif n == 0:
        h.check("no key", exc is None and m.dsk == "")
    else:
        h.check("refused", isinstance(exc, ValueError))
