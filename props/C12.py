"""C12: attribute containers keep typed values and report each change once."""
from hlib import prime, StubAdapter
from pyvc.api import harness

CC = "pyzwave.commandclass."
T = "pyzwave.types:"
FUNCTIONS = ["pyzwave.util:AttributesMixin.__init__", "pyzwave.util:AttributesMixin.__setattr__",
             "pyzwave.util:AttributesMixin.__getattr__", "pyzwave.util:AttributesMixin.__getstate__",
             "pyzwave.util:AttributesMixin.__setstate__", "pyzwave.util:stateOf",
             "pyzwave.commandclass.CommandClass:VarDictAttribute"]


class Kind:
    """a type an attribute can be declared with, its plain values and how to read one back"""

    def __init__(self, typ, plain, read=lambda h, x: x, make=None):
        self.typ, self.plain, self.read = typ, plain, read
        self.make = make or (lambda h, t, v: t(v))


def uint(bits):
    return lambda h, n: h.int(n, 0, (1 << bits) - 1)


def sint(bits):
    return lambda h, n: h.int(n, -(1 << bits - 1), (1 << bits - 1) - 1)


def dsk_of(h, v):
    w = h.get(T + "BitStreamWriter")()
    v.serialize(w)
    return bytes(w)


def dsk(h, t, v):
    o = t()
    o.__setstate__(v)
    return o


KINDS = {
    "uint8": Kind(lambda h: h.get(T + "uint8_t"), uint(8)),
    "uint16": Kind(lambda h: h.get(T + "uint16_t"), uint(16)),
    "uint32": Kind(lambda h: h.get(T + "uint32_t"), uint(32)),
    "int24": Kind(lambda h: h.get(T + "int24_t"), sint(24)),
    "uint3": Kind(lambda h: h.get(T + "uint3_t"), uint(3)),
    "uint4": Kind(lambda h: h.get(T + "uint4_t"), uint(4)),
    "uint5": Kind(lambda h: h.get(T + "uint5_t"), uint(5)),
    "uint7": Kind(lambda h: h.get(T + "uint7_t"), uint(7)),
    "HomeID": Kind(lambda h: h.get(T + "HomeID"), uint(32)),
    "int": Kind(lambda h: int, sint(40)),
    "flag": Kind(lambda h: h.get(T + "flag_t"), uint(1), lambda h, x: int(x)),
    "bits3": Kind(lambda h: BITS(h, 3), uint(3), lambda h, x: int(x)),
    "bits6": Kind(lambda h: BITS(h, 6), uint(6), lambda h, x: int(x)),
    "enum": Kind(lambda h: h.get(CC + "SensorMultilevel:SensorType_t"), uint(8)),
    "bytes": Kind(lambda h: h.get(T + "bytes_t"), lambda h, n: h.bytes(n, 4)),
    "str": Kind(lambda h: str, lambda h, n: h.choice(n, ["", "x", "True", "0", "räksmörgås", "a b"])),
    "str_t": Kind(lambda h: h.get(T + "str_t"), lambda h, n: h.choice(n, ["", "x", "True", "0", "räksmörgås"])),
    "bytes of": Kind(lambda h: h.get(T + "bytes_t"), lambda h, n: [h.int(n + str(i), 0, 255) for i in range(h.choice(n, [0, 1, 3]))],
                     lambda h, x: list(x)),
    "set of": Kind(lambda h: h.get(CC + "SensorMultilevel:SensorSupported"),
                   lambda h, n: h.choice(n, [[], [5], [1, 2], [1, 40, 200]]), lambda h, x: sorted(x)),
    "list of": Kind(lambda h: h.get(CC + "AssociationGrpInfo:Commands"),
                    lambda h, n: [[h.int(n + str(i), 0, 255), h.int(n + "c" + str(i), 0, 255)] for i in range(h.choice(n, [0, 2]))],
                    lambda h, x: list(x), lambda h, t, v: dsk(h, t, v)),
    "dsk": Kind(lambda h: h.get(T + "dsk_t"), lambda h, n: h.bytes(n, 16), dsk_of, dsk),
}
_BITS = {}


def BITS(h, n):
    key = (id(h), n)
    if key not in _BITS:
        _BITS.clear()
        _BITS[key] = h.get(T + "bits_t")(n)
    return _BITS[key]


def box_class(h, *fields):
    base = h.get("pyzwave.util:AttributesMixin")

    class Box(base):
        attributes = tuple(fields)

        def __init__(self, **kw):
            object.__setattr__(self, "log", [])
            super().__init__(**kw)

        def attributeUpdated(self, name, newValue, oldValue):
            self.log.append((name, newValue, oldValue))
    return Box


@harness(params=sorted(KINDS), fuzz=20)
def assign(h, name):
    """a sequence of assignments to one attribute: every one is stored, changes are reported once"""
    prime(h)
    k = KINDS[name]
    typ = k.typ(h)
    Box = box_class(h, ("first", h.get(T + "uint8_t")), ("a", typ), ("last", h.get(T + "uint8_t")))
    b = Box()
    v1, v2, v3 = k.plain(h, "v1"), k.plain(h, "v2"), k.plain(h, "v3")
    b.a = v1
    h.check("of its type", isinstance(b.a, typ))
    h.check("stored", k.read(h, b.a) == v1)
    h.check("reported once", len(b.log) == 1)
    h.check("by name, with the new value", b.log[0][0] == "a" and b.log[0][1] is b.a)
    h.check("there was no old one", b.log[0][2] is None)
    first = b.a
    b.a = v2
    h.check("stored again", k.read(h, b.a) == v2)
    h.check("of its type again", isinstance(b.a, typ))
    if v1 == v2:
        h.check("an equal one is not reported", len(b.log) == 1)
    else:
        h.check("a change is reported once", len(b.log) == 2)
        h.check("with both values", b.log[1][1] is b.a and b.log[1][2] is first)
    n = len(b.log)
    # a value of the type itself
    x = k.make(h, typ, v3)
    b.a = x
    h.check("a typed value is stored", k.read(h, b.a) == v3)
    if v2 == v3:
        h.check("an equal typed one is not reported", len(b.log) == n)
    else:
        h.check("reported once more", len(b.log) == n + 1)
        h.check("and kept as it is", b.a is x)


@harness(params=sorted(KINDS), fuzz=10)
def construct(h, name):
    """values given to the constructor"""
    prime(h)
    k = KINDS[name]
    typ = k.typ(h)
    Box = box_class(h, ("first", h.get(T + "uint8_t")), ("a", typ))
    v = k.plain(h, "v")
    b = Box(a=v)
    h.check("stored", k.read(h, b.a) == v)
    h.check("of its type", isinstance(b.a, typ))
    h.check("nothing is reported", len(b.log) == 0)
    b.a = v
    h.check("an equal one is not reported", len(b.log) == 0)


@harness(params=sorted(KINDS), fuzz=10)
def state(h, name):
    """the state of a container restores an equal one"""
    prime(h)
    k = KINDS[name]
    typ = k.typ(h)
    Box = box_class(h, ("a", typ), ("n", h.get(T + "uint16_t")), ("unset", h.get(T + "uint8_t")))
    v, n = k.plain(h, "v"), h.int("n", 0, 0xFFFF)
    b = Box()
    b.a = v
    b.n = n
    st = b.__getstate__()
    h.check("exactly what was set", sorted(st.keys()) == ["a", "n"])
    c = Box()
    c.__setstate__(st)
    h.check("restored", k.read(h, c.a) == v)
    h.check("with its type", isinstance(c.a, typ))
    h.check("and the other one", c.n == n)
    h.check("which has the same state", c.__getstate__()["n"] == n)
    c.a = k.plain(h, "before")
    c.__setstate__(st)
    h.check("restored over another value", k.read(h, c.a) == v)
    # restoring changes only what is in the state
    d = Box()
    w = h.int("w", 0, 0xFFFF)
    d.n = w
    d.__setstate__({"a": st["a"]})
    h.check("only what is in the state", d.n == w)
    h.check("is restored", k.read(h, d.a) == v)


@harness
def undeclared(h):
    """undeclared names are ordinary attributes, never reported, never part of the state"""
    prime(h)
    Box = box_class(h, ("a", h.get(T + "uint8_t")))
    b = Box()
    x = object()
    b.other = x
    h.check("kept as it is", b.other is x)
    h.check("not reported", len(b.log) == 0)
    b.a = 1
    h.check("not in the state", sorted(b.__getstate__().keys()) == ["a"])
    b.other = 5
    h.check("changed", b.other == 5)
    h.check("not reported either", len(b.log) == 1)


@harness
def two_containers(h):
    """containers of one class do not share values"""
    prime(h)
    G = h.get(CC + "Association:Groupings")
    Box = box_class(h, ("a", h.get(T + "uint8_t")), ("g", G))
    b, c = Box(), Box()
    x, y = h.int("x", 0, 255), h.int("y", 0, 255)
    b.a = x
    c.a = y
    b.g.setNumGroups(2)
    h.check("one", b.a == x)
    h.check("two", c.a == y)
    h.check("nor their containers", h.all(len(b.g) == 2, len(c.g) == 0))


@harness
def default(h):
    """an attribute read before it is set has the default of its type, and keeps it"""
    prime(h)
    Box = box_class(h, ("a", h.get(T + "uint8_t")), ("g", h.get(CC + "Association:Groupings")), ("s", str))
    b = Box()
    h.check("zero", b.a == 0)
    h.check("empty", len(b.g) == 0)
    h.check("the same object", b.g is b.g)
    h.check("empty text", b.s == "")
    h.check("nothing is reported", len(b.log) == 0)
    v = h.int("v", 0, 255)
    b.a = v
    h.check("a change of the default", h.iff(len(b.log) == 1, v != 0))


@harness(params=["v", "vv", "vvv"], fuzz=30)
def several(h, order):
    """assignments to different attributes in any order: each keeps its own value and is reported itself"""
    prime(h)
    U8, U16, F = h.get(T + "uint8_t"), h.get(T + "uint16_t"), h.get(T + "flag_t")
    Box = box_class(h, ("a", U8), ("b", U16), ("c", F))
    b = Box()
    want = {}
    events = 0
    for i in range(len(order) + 1):
        n = h.choice("which%d" % i, ["a", "b", "c"])
        v = h.int("v%d" % i, 0, 1 if n == "c" else 255)
        old = want.get(n)
        setattr(b, n, v)
        if old is None or v != old:
            events += 1
            h.check("reported", b.log[-1][0] == n)
            h.check("with its value", int(b.log[-1][1]) == v)
            h.check("and the old one", (old is None) if b.log[-1][2] is None else int(b.log[-1][2]) == old)
        want[n] = v
        h.check("as many reports as changes", len(b.log) == events)
    for n, v in want.items():
        h.check("the value of " + n, int(getattr(b, n)) == v)


@harness(params=["uint8", "container"], fuzz=20)
def dictionary(h, kind):
    """dictionaries convert what is put in by key, and restore from their state"""
    prime(h)
    mk = h.get(CC + "CommandClass:VarDictAttribute")
    V = h.get(T + "uint8_t") if kind == "uint8" else h.get(CC + "Configuration:ConfigurationValue")
    D = mk(int, V)
    d = D()
    k1, k2 = h.int("k1", 0, 255), h.int("k2", 0, 255)
    v1, v2 = h.int("v1", 0, 255), h.int("v2", 0, 255)
    w1 = h.int("w1", 0, 4)
    d[k1] = v1 if kind == "uint8" else {"value": v1, "size": w1}
    d[k2] = v2 if kind == "uint8" else V(value=v2, size=1)
    h.check("typed", h.all(isinstance(d[k1], V), isinstance(d[k2], V)))

    def val(x):
        return x if kind == "uint8" else x.value
    h.check("the last one put in", val(d[k2]) == v2)
    if k1 != k2:
        h.check("the other one", val(d[k1]) == v1)
        if kind != "uint8":
            h.check("all of it", d[k1].size == w1)
    h.check("as many as keys", len(d) == (1 if k1 == k2 else 2))
    st = d.__getstate__()
    e = D()
    # keys come back from storage as text
    e.__setstate__({str(k): v for k, v in st.items()} if not h.symbolic else st)
    h.check("restored", h.all(len(e) == len(d), val(e[k2]) == v2))
    h.check("typed too", isinstance(e[k2], V))
    if k1 != k2:
        h.check("restored other", val(e[k1]) == v1)


@harness(params=["Version", "ManufacturerSpecific", "ZwavePlusInfo", "Association", "AssociationGrpInfo", "Configuration",
                 "SensorMultilevel"], fuzz=20)
def command_class(h, name):
    """the state of a command class, with what it knows about itself, restores an equal one"""
    prime(h)
    from hlib import learnt, same_learnt, CLASS_IDS
    load = h.get(CC + "CommandClass:CommandClass").load
    node = h.get("pyzwave.node:Node")(5, StubAdapter(h), [])
    cc, cd = load(CLASS_IDS[name], False, node), load(CLASS_IDS[name], False, node)
    want = learnt(h, name, cc)
    st = cc.__getstate__()
    if h.flag("over"):
        # over what was known before
        cd.__setstate__(cc.__getstate__())
    cd.__setstate__(st)
    same_learnt(h, name, cd, want)
    ver = h.int("version", 0, 255)
    done = h.flag("interviewed")
    st["version"], st["interviewed"] = ver, done
    cd.__setstate__(st)
    h.check("the version", cd.version == ver)
    h.check("the interview status", cd.interviewed is True if done else cd.interviewed is False)
