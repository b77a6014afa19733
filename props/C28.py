"""C28: node lists and sensor lists decode to exactly the listed members."""
import os

from hlib import prime, mask, zip_packet, gateway, Network
from pyvc.api import LoopContract, harness

P = "pyzwave.commandclass.NetworkManagementProxy:"
S = "pyzwave.commandclass.SensorMultilevel:"
FUNCTIONS = [P + "NodeList.deserialize", S + "SensorSupported.deserialize"]
ASSUMPTIONS = []

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
HEADS = {"FailedNodeListReport": (b"\x52\x0c", ["seqNo"], "failedNodeList"),
         "NodeListReport": (b"\x52\x02", ["seqNo", "status", "nodeListControllerId"], "nodes")}


def decode(h, data):
    prime(h)
    return h.catch(h.get("pyzwave.message:Message").decode, data)


def report(h, kind, body):
    head, names, field = HEADS[kind]
    vals = [h.int(n, 0, 255) for n in names]
    exc, m = decode(h, head + bytes(vals) + body)
    if exc is None:
        h.check("the right message", type(m) is h.get(P + kind))
        for n, v in zip(names, vals):
            h.check(n, getattr(m, n) == v)
    return exc, getattr(m, field) if exc is None else None


@harness(params=[(k, extra) for k in HEADS for extra in (0, 1, 5)], fuzz=60, time=120)
def node_list(h, kx):
    """every one of the 2**232 lists, whatever follows it"""
    kind, extra = kx
    bits = h.bytes("mask", 29)
    exc, nodes = report(h, kind, bits + h.bytes("extra", extra))
    h.check("decodes", exc is None, exc)
    want = set()
    for i in range(29):
        for j in range(8):
            if bits[i] & (1 << j):
                want.add(8 * i + j + 1)
    h.check("exactly the nodes whose bits are set", nodes == want)
    for n in (1, 8, 9, 231, 232):
        h.check("one by one", h.iff(h.in_set(nodes, n), bits[(n - 1) // 8] & (1 << ((n - 1) % 8)) != 0), n)
    for n in (0, 233, 255):
        h.check("no such node", h.no(h.in_set(nodes, n)), n)


@harness(params=[(k, n) for k in HEADS for n in range(0, 29)], fuzz=6)
def short_node_list(h, kn):
    """all 29 bytes are needed"""
    kind, n = kn
    exc, nodes = report(h, kind, h.bytes("mask", n))
    if n == 0:
        h.check("no list", h.all(exc is None, nodes is None), exc)
    else:
        h.check("end of data", type(exc) is EOFError, exc)


@harness(params=list(range(0, 31, 2)), fuzz=1)
def two_lists(h, k):
    """lists are told apart, and are no views of each other"""
    prime(h)
    L = h.get(P + "NodeList")
    R = h.get("pyzwave.types:BitStreamReader")
    a, b = set(range(1, 233, k + 1)), set(range(k + 1, 233, 3))
    x = L.deserialize(R(mask(a)))
    y = L.deserialize(R(mask(b)))
    h.check("one", h.all(x == a, len(x) == len(a)))
    h.check("other", h.all(y == b, len(y) == len(b)))
    x.add(999)
    h.check("apart", h.all(y == b, L.deserialize(R(mask(a))) == a))
    h.check("in a loop", sorted(L.deserialize(R(mask(a)))) == sorted(a))


@harness(params=list(range(0, 33)) if THOROUGH else list(range(0, 11)) + [12, 16], fuzz=40, time=100, kind="bounded",
         note="every combination of bits of up to 10, of 12 and 16 (thorough: up to 32) bytes; all the types there are need 32")
def sensor_list(h, n):
    """every list of that many bytes"""
    bits = h.bytes("mask", n)
    exc, m = decode(h, b"\x31\x02" + bits)
    h.check("decodes", exc is None, exc)
    h.check("the right message", type(m) is h.get(S + "SupportedSensorReport"))
    got = m.bitMask
    if n == 0:
        h.check("no list", got is None)
        return
    want = set()
    for i in range(n):
        for j in range(8):
            if bits[i] & (1 << j):
                want.add(8 * i + j + 1)
    h.check("exactly the types whose bits are set", got == want)


class Bits(LoopContract):
    """The loop over the bits of a sensor list.  With any number left and at any position, one iteration adds
    the type of that position exactly if the number is odd, halves the number and passes to the next
    position; it goes on exactly while the number is not zero.  The number is the list's at first: hence the
    set is that of the positions of its ones, for lists of any number of bytes."""

    name = "types of a sensor list"
    set = None

    def __init__(self, data):
        self.data = data

    def find(self, v):
        ints = [k for k, x in v.items() if self.h.is_int(x)]
        sets = [x for x in v.values() if self.h.is_set(x)]
        at = [k for k in ints if self.h.literal(v[k]) == 1]
        if len(self.data) == 0 or len(ints) != 2 or len(at) != 1 or len(sets) != 1:
            return None
        (left,) = [k for k in ints if k != at[0]]
        return at[0], left, sets[0]

    def attach(self, v, where, it):
        return self.set is None and it is None and self.find(v) is not None

    def entry(self, v, it):
        h = self.h
        self.at, self.left, self.set = self.find(v)
        n = v[self.left]
        h.check("starts with no type", len(self.set) == 0)
        h.check("starts with the number of the list", h.all(*[(n >> (8 * k)) & 255 == b for k, b in enumerate(self.data)],
                                                           n >> (8 * len(self.data)) == 0))

    def havoc(self, v, it):
        h = self.h
        self.n = h.int("left", 0)
        self.i = h.int("position", 1)
        h.prefer(self.i <= 2)
        h.prefer(self.n <= 3)
        h.forget(self.set)
        self.modifies = [self.set]
        return {self.left: self.n, self.at: self.i}

    def step(self, v):
        h = self.h
        h.check("goes on while there are types", self.n > 0)
        h.check("the next position", v[self.at] == self.i + 1)
        h.check("the rest of the list", v[self.left] == self.n // 2)
        new = h.added(self.set)
        for x, g in new:
            h.check("the type of the position", h.implies(g, int(x) == self.i))
        h.check("exactly the types listed", h.iff(h.any(*[g for x, g in new]), self.n % 2 == 1))


@harness(params=list(range(1, 5)) + [8, 16, 32, 33, 64, 255], fuzz=10)
def sensor_list_of_any_contents(h, n):
    """every list of that many bytes; the loop is decided for any number of positions"""
    bits = h.bytes("mask", n)
    bit = h.int("bit", 0, 8 * n + 20)
    prime(h)
    c = Bits(bits)
    h.cut(c)
    got = h.get(S + "SensorSupported").deserialize(h.get("pyzwave.types:BitStreamReader")(bits))
    if not h.symbolic:
        h.check("all of them", h.iff(bit in got, 1 <= bit <= 8 * n and (bits[(bit - 1) // 8] >> ((bit - 1) % 8)) & 1))
        return
    if c.set is None:
        h.unsupported("loop contract not attached")
    h.check("that set", got is c.set)
    h.check("nothing left", c.n == 0)
    h.check("nothing else", len(h.added(c.set)) == 0)


@harness(params=list(range(0, 32)), fuzz=2)
def long_sensor_list(h, at):
    """one byte of a list of 32, the others all zero or all ones"""
    b = h.int("byte", 0, 255)
    fill = h.choice("fill", [0, 255])
    data = [fill] * 32
    exc, m = decode(h, b"\x31\x02" + bytes(data[:at] + [b] + data[at + 1:]))
    h.check("decodes", exc is None, exc)
    want = set(range(1, 257)) if fill else set()
    want = set(x for x in want if (x - 1) // 8 != at)
    for j in range(8):
        if b & (1 << j):
            want.add(8 * at + j + 1)
    h.check("exactly the types", m.bitMask == want)


@harness(fuzz=1)
def every_type(h):
    """a list of one type, for all 256: it is that type, known or not"""
    for t in range(1, 257):
        exc, m = decode(h, b"\x31\x02" + mask([t], 32))
        h.check("that type alone", h.all(exc is None, len(m.bitMask) == 1))
        (x,) = list(m.bitMask)
        h.check("as a number", int(x) == t, t)
        if t < 256:
            g = h.get(S + "SupportedGetScale")(sensorType=x).compose()
            h.check("can be asked about", g == bytes([0x31, 0x03, t]), t)


@harness(params=[[2], [1, 2, 3], [1, 232], list(range(1, 233))], fuzz=2)
def used_by_the_gateway(h, nodes):
    """the gateway's list is the one reported"""
    net = Network(h, nodes)
    gw, net = gateway(h, net)
    r = h.run(gw.getNodeList())
    h.check("the list", set(int(x) for x in r) == set(nodes))
    net.answers[(0x52, 0x0B)] = lambda s, tr: b"\x52\x0c" + bytes([s.cmd[2]]) + mask(nodes[::2])
    r = h.run(gw.getFailedNodeList())
    h.check("the failed ones", set(int(x) for x in r) == set(nodes[::2]))
