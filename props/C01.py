"""C01: bit and byte packing round trip (pyzwave.types BitStreamWriter / BitStreamReader)."""
from pyvc.api import harness

W = "pyzwave.types:BitStreamWriter"
R = "pyzwave.types:BitStreamReader"
FUNCTIONS = [W + ".addBits", W + ".addBytes", R + ".bits", R + ".bit", R + ".advance", R + ".value",
             R + ".byte", R + ".remaining"]
ASSUMPTIONS = ["field values are within the range of their width (the caller's precondition)",
               "a byte is filled before whole bytes are read (the reader, unlike the writer, does not skip the rest of a "
               "byte): every layout in the protocol is aligned in that way",
               "fields do not straddle a byte boundary: every layout in the protocol keeps each bit "
               "field inside one byte"]

PAIRS = [(k, n) for k in range(0, 8) for n in range(1, 9) if k + n <= 8]


@harness(params=PAIRS, functions=[W + ".addBits", R + ".bits"])
def field_after_any_state(h, p):
    """{any bytes, then k bits x} addBits(v, n) {what was there is unchanged, v follows}: with k = 0
    and any prefix this is the induction step over any sequence of fields"""
    k, n = p
    w = h.get(W)()
    pre = h.anybytes("prefix")
    w.extend(pre)
    x = h.int("x", 0, (1 << k) - 1) if k else 0
    v = h.int("v", 0, (1 << n) - 1)
    if k:
        w.addBits(x, k)
    w.addBits(v, n)
    h.check("the writer grew by exactly one byte", len(w) == len(pre) + 1)
    h.check("the bytes before are unchanged", bytes(w[:len(pre)]) == pre)
    h.check("the fields fill the byte from the most significant bit",
            w[len(pre)] == (x << (8 - k)) + (v << (8 - k - n)))
    r = h.get(R)(bytes(w))
    r.advance(8 * len(pre))
    if k:
        h.check("the earlier field reads back", r.bits(k) == x)
    h.check("peeking at the field reads it", r.bits(n, advance=False) == v)
    h.check("the field reads back", r.bits(n) == v)
    if k + n == 8:
        h.check("nothing is left", r.bytesLeft() == 0)


def _compositions():
    out = []

    def go(rest, acc):
        if rest == 0:
            out.append(tuple(acc))
            return
        for i in range(1, rest + 1):
            go(rest - i, acc + [i])
    go(8, [])
    return out


@harness(params=_compositions(), functions=[W + ".addBits", R + ".bits"], fuzz=6)
def whole_byte_compositions(h, sizes):
    """every way of cutting a byte into fields, all values at once, followed by another byte"""
    w = h.get(W)()
    vs = [h.int("v%d" % i, 0, (1 << s) - 1) for i, s in enumerate(sizes)]
    for v, s in zip(vs, sizes):
        w.addBits(v, s)
    nxt = h.int("next", 0, 255)
    w.addBits(nxt, 8)
    h.check("two bytes were written", len(w) == 2)
    r = h.get(R)(bytes(w))
    for i, (v, s) in enumerate(zip(vs, sizes)):
        h.check("every field reads back in order", r.bits(s) == v)
    h.check("the next byte is a new one", r.byte() == nxt)
    h.check("nothing is left", r.bytesLeft() == 0)


BYTES = [(n, s, e) for n in range(1, 9) for s in (False, True) for e in ("big", "little")]


@harness(params=BYTES, functions=[W + ".addBytes", R + ".value"])
def bytes_after_any_state(h, p):
    n, signed, endian = p
    w = h.get(W)()
    pre = h.anybytes("prefix")
    w.extend(pre)
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    v = h.int("v", lo, hi)
    w.addBytes(v, n, signed, endian)
    h.check("the writer grew by exactly n bytes", len(w) == len(pre) + n)
    h.check("the bytes before are unchanged", bytes(w[:len(pre)]) == pre)
    u = v if not signed else h.ite(v < 0, v + (1 << (8 * n)), v)
    for i in range(n):
        sh = 8 * (n - 1 - i) if endian == "big" else 8 * i
        h.check("byte order", w[len(pre) + i] == (u >> sh) & 0xFF)
    b = h.int("b", 0, 15)
    w.addBits(b, 4)
    h.check("a field after whole bytes starts a new byte", len(w) == len(pre) + n + 1)
    r = h.get(R)(bytes(w))
    r.advance(8 * len(pre))
    h.check("the value reads back",
            int.from_bytes(r.value(n), endian, signed=signed) == v)
    h.check("the field after it reads back", r.bits(4) == b)


@harness(params=[(k, n) for k in range(1, 8) for n in (1, 2, 3, 4)], functions=[W + ".addBytes", W + ".addBits"])
def bytes_after_a_partial_byte(h, p):
    """whole bytes start a byte of their own wherever the last field ended, and so does a field after them"""
    k, n = p
    w = h.get(W)()
    pre = h.anybytes("prefix")
    w.extend(pre)
    x = h.int("x", 0, (1 << k) - 1)
    w.addBits(x, k)
    v = h.int("v", 0, (1 << (8 * n)) - 1)
    w.addBytes(v, n, False)
    b = h.int("b", 0, 31)
    w.addBits(b, 5)
    c = h.int("c", 0, 7)
    w.addBits(c, 3)
    h.check("the length", len(w) == len(pre) + n + 2)
    h.check("the bytes before are unchanged", bytes(w[:len(pre)]) == pre)
    h.check("the field before is unchanged", w[len(pre)] == x << (8 - k))
    for i in range(n):
        h.check("the bytes", w[len(pre) + 1 + i] == (v >> (8 * (n - 1 - i))) & 0xFF)
    h.check("the fields after them", w[len(pre) + 1 + n] == (b << 3) + c)


@harness(params=BYTES, functions=[W + ".addBytes"])
def bytes_reject_out_of_range(h, p):
    """a value that does not fit is refused, never truncated"""
    n, signed, endian = p
    w = h.get(W)()
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    v = h.int("v", lo - 70000, hi + 70000)
    h.assume(h.any(v < lo, v > hi))
    e, _ = h.catch(w.addBytes, v, n, signed, endian)
    h.check("an out-of-range value raises OverflowError", isinstance(e, OverflowError))
    h.check("and writes nothing", len(w) == 0)


@harness(functions=[R + ".bit", R + ".bits"])
def bit_is_one_bit(h):
    data = h.bytes("data", 2)
    k = h.choice("k", range(16))
    r = h.get(R)(data)
    r.advance(k)
    e = (data[k // 8] >> (7 - k % 8)) & 1
    h.check("peeked bit", r.bit(advance=False) == e)
    h.check("bit", r.bit() == e)
