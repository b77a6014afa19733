"""C02: the reader never reads past the end of its data, and peeking does not move it."""
from pyvc.api import harness

R = "pyzwave.types:BitStreamReader"
FUNCTIONS = [R + "." + f for f in ("advance", "bit", "bits", "byte", "bytesLeft", "peekByte",
                                   "peekValue", "remaining", "value")]
ASSUMPTIONS = ["the cursor position and the requested sizes are non-negative",
               "position arithmetic goes through a float division in the code; it is exact for data "
               "shorter than 2**50 bytes (machine floats treated as rationals)"]

K = list(range(8))


def reader(h, k=0, minlen=0):
    """a reader at an arbitrary bit position (k bits into a byte) in arbitrary data of any length"""
    data = h.anybytes("data", minlen)
    r = h.get(R)(data)
    q = h.int("q", 0)
    if k:
        h.assume(q < len(data))
    else:
        h.assume(q <= len(data))
    r.advance(8 * q)
    r.advance(k)
    return data, r, q


@harness(params=[(k, a) for k in K for a in (True, False)], functions=[R + ".value", R + ".peekValue"])
def value(h, p):
    k, advance = p
    data, r, s = reader(h, k)
    n = h.int("n", 0)
    left = r.bytesLeft()
    h.check("bytesLeft is what is left", left == len(data) - s)
    e, v = h.catch(r.value, n, advance) if advance else h.catch(r.peekValue, n)
    if s + n <= len(data):
        h.check("a read inside the data succeeds", e is None)
        h.check("exactly the next n bytes are returned", v == data[s:s + n])
        h.check("the cursor moved by n bytes iff asked to",
                r.bytesLeft() == (left - n if advance else left))
    else:
        h.check("a read past the end raises EOFError", isinstance(e, EOFError))


@harness(params=[(k, n, a) for k in K for n in range(1, 9 - k) for a in (True, False)],
         functions=[R + ".bits", R + ".bit"], fuzz=6)
def bits(h, p):
    k, n, advance = p
    data, r, s = reader(h, k)
    left = r.bytesLeft()
    e, v = h.catch(r.bits, n, advance)
    if s < len(data):
        h.check("a read inside the data succeeds", e is None)
        b = data[s]
        h.check("the bits under the cursor", v == (b // (1 << (8 - k - n))) % (1 << n))
        if advance:
            rest = 8 - k - n
            if rest:
                h.check("the rest of the byte follows", r.bits(rest) == b % (1 << rest))
            h.check("then the next byte is reached", r.bytesLeft() == left - 1)
        else:
            h.check("peeking again gives the same", r.bits(n, advance=False) == v)
            h.check("and so does reading", r.bits(n) == v)
    else:
        h.check("a read past the end raises EOFError", isinstance(e, EOFError))


@harness(params=K, functions=[R + ".bit"])
def bit(h, k):
    data, r, s = reader(h, k)
    h.assume(s < len(data))
    b = data[s]
    h.check("peeking at the bit", r.bit(advance=False) == (b // (1 << (7 - k))) % 2)
    h.check("reading it", r.bit() == (b // (1 << (7 - k))) % 2)
    if k < 7:
        h.check("the next bit follows", r.bit() == (b // (1 << (6 - k))) % 2)


@harness(params=K, functions=[R + ".byte", R + ".peekByte"])
def byte(h, k):
    data, r, s = reader(h, k)
    left = r.bytesLeft()
    e, v = h.catch(r.peekByte)
    if s < len(data):
        h.check("peeking inside the data succeeds", e is None)
        h.check("the byte under the cursor", v == data[s])
        h.check("peeking does not move", r.bytesLeft() == left)
        h.check("reading it gives the same", r.byte() == v)
        h.check("reading moves by one byte", r.bytesLeft() == left - 1)
    else:
        h.check("a peek past the end raises EOFError", isinstance(e, EOFError))
        e, v = h.catch(r.byte)
        h.check("a read past the end raises EOFError", isinstance(e, EOFError))


@harness(params=[(k, a) for k in K for a in (True, False)], functions=[R + ".remaining", R + ".bytesLeft"])
def remaining(h, p):
    k, advance = p
    data, r, s = reader(h, k)
    v = r.remaining(advance)
    h.check("everything from the cursor to the end", v == data[s:])
    if advance:
        h.check("nothing is left afterwards", r.bytesLeft() == 0)
        h.check("the rest is empty", r.remaining() == b"")
        h.check("still nothing is left", r.bytesLeft() == 0)
        e, _ = h.catch(r.byte)
        h.check("and nothing can be read", isinstance(e, EOFError))
    else:
        h.check("looking at the rest does not move", r.bytesLeft() == len(data) - s)
        h.check("looking again gives the same", r.remaining() == v)


@harness(params=K, functions=[R + ".value"])
def sequence_of_reads(h, k):
    """two reads and the rest return adjacent, disjoint pieces"""
    data, r, s = reader(h, k)
    n = h.int("n", 0)
    m = h.int("m", 0)
    h.assume(s + n + m <= len(data))
    a = r.value(n)
    b = r.value(m)
    c = r.remaining()
    h.check("the first piece", a == data[s:s + n])
    h.check("the second piece", b == data[s + n:s + n + m])
    h.check("the rest", c == data[s + n + m:])
