"""C29: lists of typed elements decode element by element, skipping unknown types."""
import itertools
import os

from hlib import prime
from pyvc.api import LoopContract, harness

Z = "pyzwave.commandclass.Zip:"
N = "pyzwave.commandclass.NodeProvisioning:"
G = "pyzwave.commandclass.AssociationGrpInfo:"
FUNCTIONS = [Z + "HeaderExtension.deserialize", Z + "ZIPPacketOption.parse_optionData", Z + "ZIPPacketOptionMaintenanceReport.deserialize",
             Z + "IMEValue.load", Z + "IMELastWorkingRoute.load", N + "MetadataExtension.deserialize",
             G + "GroupInfoReport.parse_groups", G + "GroupCommandListReport.parse_commandClass"]
ASSUMPTIONS = ["no type occurs twice in a list", "command classes of groups have one byte (two-byte ones are left open)"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def decode(h, data):
    prime(h)
    return h.catch(h.get("pyzwave.message:Message").decode, data)


def be(bs, signed=False):
    v = 0
    for b in bs:
        v = v * 256 + b
    if signed and len(bs) > 0:
        v = v - (1 << (8 * len(bs))) * (bs[0] >> 7)
    return v


class Element:
    """type byte, content, and the check of the decoded value (None: it is skipped)"""

    def __init__(self, type, content, check):
        self.type, self.content, self.check = type, content, check
        self.data = bytes([type, len(content)]) + content


def tuples(kinds, most):
    return [t for n in range(most + 1) for t in itertools.permutations(kinds, n)]


# ---------------------------------------------------------------- transmission statistics
IME = {"route": (0, [1]), "time": (1, [2]), "working": (2, [5]), "rssi": (3, [5, 0]), "ack": (4, [1]), "channel": (5, [1]),
       "scheme": (6, [1]), "attempts": (7, [1]), "link": (8, [2, 3])}


def statistic(h, kind, tag):
    if kind == "unknown":
        t = h.int(tag + "type", 9, 255)
        return Element(t, h.bytes(tag + "data", h.choice(tag + "len", [0, 1, 2, 9])), None)
    t, lens = IME[kind]
    data = h.bytes(tag + "data", lens[0] if len(lens) == 1 else h.choice(tag + "len", lens))

    def check(got):
        if kind in ("route", "ack", "channel", "time"):
            h.check("its value", got == be(data), kind)
        elif kind == "working":
            for i in range(4):
                h.check("the repeaters", getattr(got, "repeater%d" % (i + 1)) == data[i], i)
            h.check("the speed", got.speed == data[4])
        else:
            h.check("its bytes", h.all(len(got) == len(data), *[a == b for a, b in zip(got, data)]), kind)
    return Element(t, data, check)


def judge(h, got, elements, what):
    want = [e for e in elements if e.check is not None]
    h.check("as many elements", len(got) == len(want), (what, len(got), len(want)))
    for e in want:
        h.check("the element", h.any(*[k == e.type for k in got.keys()]), (what, e.type))
        e.check(got[e.type])


# ---------------------------------------------------------------- header extension
def option(h, kind, tag):
    crit = h.int(tag + "critical", 0, 1) * 128
    if kind == "delay":
        data = h.bytes(tag + "data", 3)
        return Element(crit + 1, data, lambda got: h.check("the delay", got == be(data, True))), 1
    if kind == "encapsulation":
        data = h.bytes(tag + "data", 2)

        def check(got):
            h.check("security class", got.security2SecurityClass == data[0])
            h.check("crc16", h.iff(got.crc16 == 1, data[1] & 1 == 1))
        return Element(crit + 4, data, check), 4
    if kind == "report":
        inner = [statistic(h, k, tag + k) for k in ("time", "unknown", "route", "working")]
        data = b"".join([e.data for e in inner]) if not h.symbolic else inner[0].data + inner[1].data + inner[2].data + inner[3].data
        return Element(crit + 3, data, lambda got: judge(h, got, inner, "statistics")), 3
    if kind == "unknown":
        t = h.int(tag + "type", 6, 128)
        # 128 stands for 0
        t = h.ite(t == 128, 0, t)
        return Element(crit + t, h.bytes(tag + "data", h.choice(tag + "len", [0, 1, 4])), None), None
    t = {"get": 2, "multicast": 5}[kind]
    data = h.bytes(tag + "data", h.choice(tag + "len", [0, 1, 5]))
    return Element(crit + t, data, lambda got: h.check("its bytes", h.all(len(got) == len(data), *[a == b for a, b in zip(got, data)]))), t


OPTIONS = ["delay", "get", "report", "encapsulation", "multicast", "unknown"]


def join(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


def with_extension(ext, cmd, length=None):
    return b"\x23\x02\x80\xd0\x11\x05\x00" + bytes([len(ext) + 1 if length is None else length]) + ext + cmd


@harness(params=tuples(OPTIONS, 3), fuzz=3, kind="bounded", note="up to 3 options, of every kind and in every order, with any content")
def header_extension(h, kinds):
    found = [option(h, k, "%d" % i) for i, k in enumerate(kinds)]
    ext = join([e.data for e, t in found])
    v = h.int("v", 0, 255)
    exc, m = decode(h, with_extension(ext, b"\x20\x01" + bytes([v])))
    h.check("decodes", exc is None, exc)
    want = []
    for e, t in found:
        if t is not None:
            e.type = t
            want.append(e)
    judge(h, m.headerExtension, want, kinds)
    h.check("the delay is zero without an option for it", "delay" in kinds or m.headerExtension.expectedDelay == 0)
    h.check("the command behind it", h.all(type(m.command) is h.get("pyzwave.commandclass.Basic:Set"), m.command.value == v))
    h.check("the rest of the header", h.all(m.seqNo == 0x11, m.sourceEP == 5))


@harness(params=[("unknown",) * n for n in (4, 20)] + [("unknown", "delay", "unknown", "encapsulation", "unknown"),
                                                      ("multicast", "encapsulation", "unknown", "report", "get", "delay")],
         fuzz=4, kind="bounded", note="four long lists")
def long_header_extension(h, kinds):
    found = []
    for i, k in enumerate(kinds):
        if k == "unknown" and (i % 3 != 1 or len(kinds) > 6):
            d = h.bytes("u%d" % i, i % 4)
            found.append((Element(0x47 + i, d, None), None))
        else:
            found.append(option(h, k, "%d" % i))
    ext = join([e.data for e, t in found])
    exc, m = decode(h, with_extension(ext, b"\x20\x02"))
    h.check("decodes", exc is None, exc)
    want = []
    for e, t in found:
        if t is not None:
            e.type = t
            want.append(e)
    judge(h, m.headerExtension, want, kinds)
    h.check("the command behind it", type(m.command) is h.get("pyzwave.commandclass.Basic:Get"))


@harness(params=[(k, n) for k in (1, 2, 3, 4, 5, 0x30) for n in range(0, 4)], fuzz=6)
def option_too_long(h, kn):
    """an option longer than the extension, whatever follows the extension"""
    t, n = kn
    length = h.int("length", n + 1, 255)
    before = h.choice("before", [b"", b"\x55\x02ab", b"\x05\x00"])
    ext = before + bytes([t, length]) + h.bytes("data", n)
    exc, m = decode(h, with_extension(ext, h.bytes("behind", h.choice("more", [0, 2, 6]))))
    h.check("end of data", type(exc) is EOFError, exc)


@harness(params=[0, 1, 4], fuzz=6)
def extension_too_long(h, n):
    """an extension longer than the packet"""
    exc, m = decode(h, with_extension(h.bytes("ext", n), b"", h.int("length", n + 2, 255)))
    h.check("end of data", type(exc) is EOFError, exc)


@harness(fuzz=20)
def extension_without_length(h):
    """an extension too short to hold its own length is refused, whatever is behind it"""
    f0, f1 = h.int("f0", 0, 255), h.int("f1", 0, 127)
    exc, m = decode(h, bytes([0x23, 0x02, f0, 0x80 + f1, 0x11, 5, 0, 0]) + h.bytes("behind", h.choice("more", [0, 1, 2, 6])))
    h.check("refused", isinstance(exc, (ValueError, EOFError)), exc)


@harness(fuzz=10)
def no_extension(h):
    """an empty extension, and none at all"""
    prime(h)
    exc, m = decode(h, with_extension(b"", b"\x20\x02"))
    h.check("empty", h.all(exc is None, len(m.headerExtension) == 0, m.headerExtension.expectedDelay == 0), exc)
    h.check("the command", type(m.command) is h.get("pyzwave.commandclass.Basic:Get"))
    exc, m = decode(h, b"\x23\x02\x80\x50\x11\x05\x00\x20\x02")
    h.check("none", h.all(exc is None, len(m.headerExtension) == 0, m.headerExtension.expectedDelay == 0), exc)
    h.check("the command", type(m.command) is h.get("pyzwave.commandclass.Basic:Get"))


# ---------------------------------------------------------------- statistics
STATS = list(IME) + ["unknown"]


def stats(h, elements, extra=b""):
    data = join([e.data for e in elements]) + extra
    return decode(h, with_extension(bytes([3, len(data)]) + data, b"\x20\x02"))


@harness(params=tuples(STATS, 2) + [tuple(STATS), tuple(reversed(STATS)), ("unknown", "working", "rssi", "time"),
                                    ("time", "unknown", "channel")],
         fuzz=4, kind="bounded", note="up to 2 statistics in every order, all at once both ways, any content")
def statistics(h, kinds):
    es = [statistic(h, k, "%d" % i) for i, k in enumerate(kinds)]
    exc, m = stats(h, es)
    h.check("decodes", exc is None, exc)
    judge(h, m.headerExtension[3], es, kinds)
    h.check("the command behind it", type(m.command) is h.get("pyzwave.commandclass.Basic:Get"))


@harness(params=[(k, n) for k in STATS for n in (0, 1, 3)], fuzz=4)
def statistic_too_long(h, kn):
    """a statistic longer than its report"""
    kind, n = kn
    t = h.int("type", 9, 255) if kind == "unknown" else IME[kind][0]
    before = [statistic(h, k, "before") for k in h.choice("before", [[], ["ack" if kind != "ack" else "time"]])]
    exc, m = stats(h, before, bytes([t, h.int("length", n + 1, 255)]) + h.bytes("data", n))
    h.check("end of data", type(exc) is EOFError, exc)


@harness(params=["route", "time", "ack", "channel"], fuzz=4)
def statistic_too_short(h, kind):
    """a statistic with fewer bytes than its value needs; not completed from the ones after it"""
    t, (n,) = IME[kind]
    short = n - 1
    exc, m = stats(h, [], bytes([t, short]) + h.bytes("data", short) + b"\x20\x02ab")
    h.check("end of data", type(exc) is EOFError, exc)


# ---------------------------------------------------------------- provisioning metadata
META = [0, 1, 2, 3, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37]


def metadata(h, t, tag):
    crit = h.int(tag + "critical", 0, 1)
    data = h.bytes(tag + "data", h.choice(tag + "len", [0, 1, 3]))
    if t == "unknown":
        t = h.int(tag + "type", 4, 0x7F)
        h.assume(h.any(t < 0x32, t > 0x37))
        e = Element(t * 2 + crit, data, None)
    else:
        e = Element(t * 2 + crit, data, lambda got: h.check("its bytes", h.all(len(got) == len(data), *[a == b for a, b in zip(got, data)])))
    e.type = t
    return e


def listing(h, body, dsk):
    return decode(h, b"\x78\x04\x07\x00" + (b"\x00" if dsk is None else b"\x10" + dsk) + body)


@harness(params=tuples(META + ["unknown"], 2) + [tuple(META), ("unknown", 0x32, 3)], fuzz=3, kind="bounded",
         note="up to 2 elements in every order, and all at once, any content")
def provisioning_metadata(h, types):
    if len(types) > 3:
        es = []
        for i, t in enumerate(types):
            d = h.bytes("%d" % i, i)
            e = Element(t * 2, d, lambda got, d=d: h.check("its bytes", h.all(len(got) == len(d), *[a == b for a, b in zip(got, d)])))
            e.type = t
            es.append(e)
    else:
        es = [metadata(h, t, "%d" % i) for i, t in enumerate(types)]
    dsk = h.bytes("dsk", 16) if h.flag("key") else None
    exc, m = listing(h, join([e.data for e in es]), dsk)
    h.check("decodes", exc is None, exc)
    h.check("the right message", type(m) is h.get(N + "ListIterationReport"))
    got = m.metaDataExtension
    if got is None:
        h.check("nothing there", len(es) == 0)
        return
    judge(h, got, es, types)


@harness(params=[(t, n) for t in (0, 0x32, 0x37, "unknown") for n in (0, 1, 4)], fuzz=6)
def metadata_too_long(h, tn):
    t, n = tn
    if t == "unknown":
        t = h.int("type", 0x38, 0x7F)
    before = h.choice("before", [b"", b"\x02\x01a", b"\x14\x00", b"\x66\x02ab"])
    body = before + bytes([t * 2, h.int("length", n + 1, 255)]) + h.bytes("data", n)
    exc, m = listing(h, body, h.bytes("dsk", 16) if h.flag("key") else None)
    h.check("end of data", type(exc) is EOFError, exc)


# ---------------------------------------------------------------- association groups
@harness(params=[range(a, a + 8) for a in range(0, 64, 8)], fuzz=20)
def group_information(h, ns):
    """0 to 63 groups: there cannot be more"""
    n = h.choice("n", ns)
    flags = h.int("flags", 0, 3)
    body = h.bytes("groups", 7 * n)
    exc, m = decode(h, b"\x59\x04" + bytes([flags * 64 + n]) + body + h.bytes("more", h.choice("extra", [0, 1, 7, 8])))
    h.check("decodes", exc is None, exc)
    h.check("the number", m.groupCount == n)
    gs = m.groups
    if gs is None:
        h.check("nothing there", n == 0)
        return
    h.check("as many", len(gs) == n)
    for i, g in enumerate(gs):
        b = body[7 * i:7 * i + 7]
        h.check("group", g.groupingIdentifier == b[0], i)
        h.check("mode", g.mode == b[1], i)
        h.check("profile", g.profile == be(b[2:4]), i)
        h.check("event", g.eventCode == be(b[5:7]), i)


@harness(params=[(n, k) for n in (1, 2, 3) for k in (3, 6)], fuzz=10)
def group_information_cut(h, nk):
    """cut in the middle of a field"""
    n, k = nk
    exc, m = decode(h, b"\x59\x04" + bytes([n]) + h.bytes("groups", 7 * (n - 1) + k))
    h.check("end of data", type(exc) is EOFError, exc)


@harness(params=[range(a, a + 16) for a in range(0, 128, 16)], fuzz=20)
def group_commands(h, ns):
    """0 to 127 commands: there cannot be more"""
    n = h.choice("n", ns)
    g = h.int("group", 0, 255)
    body = h.bytes("commands", 2 * n)
    exc, m = decode(h, b"\x59\x06" + bytes([g, 2 * n]) + body + h.bytes("more", h.choice("extra", [0, 1, 2])))
    h.check("decodes", exc is None, exc)
    h.check("the group", m.groupingIdentifier == g)
    h.check("as many", len(m.commandClass) == n)
    for i, c in enumerate(m.commandClass):
        h.check("the command", h.all(len(c) == 2, c[0] == body[2 * i], c[1] == body[2 * i + 1]), i)


@harness(params=list(range(0, 6)), fuzz=10)
def group_commands_cut(h, n):
    """more commands announced than there are"""
    exc, m = decode(h, b"\x59\x06\x01" + bytes([h.choice("length", [n + 1, n + 2, 255])]) + h.bytes("commands", n))
    h.check("end of data", type(exc) is EOFError, exc)


# ---------------------------------------------------------------- any number of elements: loop contracts
class Elements(LoopContract):
    """The loop over typed elements.  From any position and any map decoded so far, one iteration consumes
    exactly the element there and writes its entry, or nothing for a type that is not known; it raises
    EOFError exactly where the element is cut short.  Hence the map is that of all elements, in order."""

    def __init__(self, name, data, judge, short, headless=False, base=0):
        """judge(type byte, content, entries written); short(type byte, content): too short for its value;
        headless: what happens to a type without a length is left open"""
        self.headless = headless
        self.base = base        # where in the stream the list starts
        self.name, self.data, self.judge, self.short = name, data, judge, short
        self.p = None

    def attach(self, v, where, it):
        h = self.h
        if self.p is not None or it is not None:
            return False
        self.readers = [x for x in v.values() if type(x) is h.get("pyzwave.types:BitStreamReader") and h.identical(x._value[self.base:], self.data)]
        self.maps = [x for x in v.values() if h.is_map(x) and type(x) is dict]
        return len(self.readers) == 1 and len(self.maps) == 1

    def entry(self, v, it):
        (self.reader,), (self.d,) = self.readers, self.maps
        self.h.check("starts at the first element", self.reader._start == 8 * self.base)
        self.h.check("starts with nothing", len(self.d) == 0)

    def havoc(self, v, it):
        h = self.h
        self.p = h.int("p", 0, 254)
        h.assume(self.p <= len(self.data))
        h.prefer(self.p == 0)
        self.reader._start = 8 * (self.base + self.p)
        h.forget(self.d)
        self.modifies = [self.reader, self.d]
        return {}

    def content(self):
        n = self.data[self.p + 1]
        return self.data[self.p + 2:self.p + 2 + n]

    def step(self, v):
        h = self.h
        if self.headless and self.p + 2 > len(self.data):
            return
        h.check("the element is there", self.p + 2 <= len(self.data))
        n = self.data[self.p + 1]
        h.check("the element fits", self.p + 2 + n <= len(self.data))
        h.check("exactly the element is consumed", self.reader._start == 8 * (self.base + self.p + 2 + n))
        self.judge(self.data[self.p], self.content(), h.written(self.d))

    def ended(self, exc, got, stored=None):
        """how the function ended, from an arbitrary state of the loop"""
        h = self.h
        if exc is None:
            h.check("to the end of the data", self.reader._start == 8 * (self.base + len(self.data)))
            h.check("nothing but the elements", len(h.written(self.d)) == 0)
            if stored is None:
                h.check("what was decoded", got is self.d)
                return
            if not stored.attached:
                h.unsupported("the contract of the loop storing the entries did not attach")
            h.check("what was decoded", h.all(stored.target is got, got.copied is self.d))
            return
        h.check("only while there are elements", self.p < len(self.data))
        if self.p + 2 > len(self.data):
            return
        h.check("end of data", type(exc) is EOFError, exc)
        if self.p + 2 + self.data[self.p + 1] <= len(self.data):
            h.check("only for an element cut short", self.short(self.data[self.p], self.content()))


class Entries(LoopContract):
    """The loop storing the entries of a decoded map: each is stored under its key, and nothing else"""

    def __init__(self, name, key, value, keep=None):
        """key() and value() make an arbitrary entry; keep(entry stored, key, value) judges it"""
        self.name, self.key, self.value, self.keep = name, key, value, keep
        self.inside = False

    def attach(self, v, where, it):
        if self.inside:
            return False
        self.source = self.h.unknown_items(it)
        self.targets = [x for x in v.values() if self.h.is_map(x) and x is not self.source]
        return self.source is not None and len(self.targets) == 1

    def entry(self, v, it):
        (self.target,) = self.targets
        self.h.check("starts with nothing", len(self.target) == 0)

    def havoc(self, v, it):
        self.h.forget(self.target)
        self.modifies = [self.target]
        return {}

    def element(self, v, it):
        self.inside = True
        self.k, self.v = self.key(), self.value()
        return (self.k, self.v)

    def step(self, v):
        h = self.h
        got = h.written(self.target)
        h.check("one entry", len(got) == 1)
        h.check("under its key", got[0][0] == self.k)
        h.check("its value", got[0][1] is self.v if self.keep is None else self.keep(got[0][1], self.v))

    def leave(self, v, it):
        # the target now has the entries of the source
        self.target.copied = self.source


def split(data):
    """the elements of a list; None where one is cut short, () where the last has no length"""
    out = []
    while len(data) > 0:
        if len(data) < 2:
            return ()
        if len(data) < 2 + data[1]:
            return None
        out.append((data[0], data[2:2 + data[1]]))
        data = data[2 + data[1]:]
    return out


def last_of(pairs):
    out = {}
    for t, e in pairs:
        out[t] = e
    return out


def fallback(h, data, exc, got, judge, short, typeof=lambda b: b, headless=False):
    """the same, for runs without loop contracts"""
    es = split(data)
    if es == () and headless:
        return
    if not isinstance(es, list):
        h.check("end of data", type(exc) is EOFError, exc)
        return
    cut = any([h.concrete_bool(short(b, e)) for b, e in es])
    h.check("end of data", (type(exc) is EOFError) == cut, exc)
    if exc is not None:
        return
    last = last_of([(typeof(b), e) for b, e in es])
    h.check("nothing else", len([k for k in got.keys() if k not in last]) == 0)
    for t in last:
        judge(t, last[t], [(k, v) for k, v in got.items() if k == t])


def statistic_entry(h, t, content, got):
    known = [k for k in IME if t == IME[k][0]]
    if not known:
        h.check("skipped", len(got) == 0)
        return
    kind = known[0]
    h.check("one entry", len(got) == 1)
    k, v = got[0]
    h.check("its type", k == IME[kind][0])
    if kind in ("route", "ack", "channel", "time"):
        h.check("its value", v == be(content[0:IME[kind][1][0]]), kind)
    elif kind == "working":
        for i in range(4):
            if len(content) > i:
                h.check("the repeaters", getattr(v, "repeater%d" % (i + 1)) == content[i], i)
        if len(content) > 4:
            h.check("the speed", v.speed == content[4])
    else:
        h.check("its bytes", v == content)


def statistic_short(t, content):
    for k in ("route", "ack", "channel", "time"):
        if t == IME[k][0]:
            return len(content) < IME[k][1][0]
    return False


@harness(fuzz=400, time=90)
def statistics_of_any_number(h):
    """the transmission statistics of a report, however many"""
    prime(h)
    data = h.anybytes("data", 0, 250)
    judge = lambda t, content, got: statistic_entry(h, t, content, got)
    c = Elements("transmission statistics", data, judge, statistic_short)
    h.cut(c)
    exc, got = h.catch(h.get(Z + "ZIPPacketOptionMaintenanceReport").deserialize, h.get("pyzwave.types:BitStreamReader")(data))
    if c.p is not None:
        c.ended(exc, got)
    else:
        fallback(h, data, exc, got, judge, statistic_short)


def metadata_entry(h, b, content, got):
    t = b >> 1
    if not any([t == x for x in META]):
        h.check("skipped", len(got) == 0)
        return
    h.check("one entry", len(got) == 1)
    h.check("its type", got[0][0] == t)
    h.check("its bytes", got[0][1] == content)


@harness(params=["no key", "key"], fuzz=400, time=120)
def metadata_of_any_number(h, key):
    """the metadata of a provisioned device, however many elements"""
    prime(h)
    base = 5 if key == "no key" else 21
    whole = h.anybytes("packet", base + 1, base + 235)
    front = b"\x78\x04\x07\x00" + (b"\x00" if key == "no key" else b"\x10")
    if h.symbolic:
        h.assume(whole[0:5] == front)
    else:
        whole = front + whole[5:]
    data = whole[base:]
    judge = lambda t, content, got: metadata_entry(h, t, content, got)
    c = Elements("provisioning metadata", data, judge, lambda t, content: False, base=base)
    stored = Entries("entries of decoded metadata", lambda: h.choice("known", META), lambda: h.anybytes("value", 0, 100))
    h.cut(c)
    h.cut(stored)
    exc, m = decode(h, whole)
    if stored.inside:
        h.fail("an entry is not stored")
    got = None if exc is not None else m.metaDataExtension
    if c.p is not None:
        c.ended(exc, got, stored)
    else:
        fallback(h, data, exc, got, lambda t, content, got: metadata_entry(h, t * 2, content, got), lambda t, content: False,
                 lambda b: b >> 1)


class Summary(LoopContract):
    """the loop over the elements of a list inside an option, by the contract proved for it in another
    harness: it decodes all of them, or raises EOFError for a list that is malformed"""

    def __init__(self, name, data=None):
        """data: the bytes of the list, if known"""
        self.name, self.data = name, data
        self.map = None

    def attach(self, v, where, it):
        if self.map is not None or it is not None:
            return False
        self.readers = [x for x in v.values() if type(x) is self.h.get("pyzwave.types:BitStreamReader")
                        and (self.data is None or self.h.identical(x._value, self.data))]
        self.maps = [x for x in v.values() if self.h.is_map(x) and type(x) is dict]
        return len(self.readers) == 1 and len(self.maps) == 1

    def entry(self, v, it):
        (self.reader,), (self.map,) = self.readers, self.maps
        self.h.check("starts with nothing", h_all(self.h, self.reader._start == 0, len(self.map) == 0))
        self.data = self.reader._value
        self.failed = False

    def havoc(self, v, it):
        self.summary = True
        if self.h.flag("malformed"):
            self.failed = True
            raise EOFError()
        self.reader._start = 8 * len(self.data)
        self.h.forget(self.map)
        return {}


def h_all(h, *xs):
    return h.all(*xs)


def option_entry(h, b, content, got, inner=None, stored=None):
    t = b & 0x7F
    if h.no(h.all(t >= 1, t <= 5)):
        h.check("skipped", len(got) == 0)
        return
    h.check("one entry", len(got) == 1)
    k, v = got[0]
    h.check("its type", k == t)
    if t == 1:
        h.check("the delay", v == be(content[0:3], True))
    elif t == 4:
        if len(content) > 0:
            h.check("security class", v.security2SecurityClass == content[0])
        if len(content) > 1:
            h.check("crc16", h.iff(v.crc16 == 1, content[1] & 1 == 1))
    elif t == 3:
        h.check("statistics", type(v) is h.get(Z + "ZIPPacketOptionMaintenanceReport"))
        if inner is not None:
            if inner.map is None or not stored.attached:
                h.unsupported("the contracts of the loops over an option's statistics did not attach")
            h.check("those of the option", h.all(inner.data == content, stored.target is v, v.copied is inner.map))
        else:
            es = split(content)
            last = last_of(es)
            for u in last:
                statistic_entry(h, u, last[u], [(k, x) for k, x in v.items() if k == u])
    else:
        h.check("its bytes", v == content)


def option_short(t, content, inner=None):
    t = t & 0x7F
    if t == 1:
        return len(content) < 3
    return t == 3 and (inner is None or inner.failed)


@harness(fuzz=400, time=90)
def options_of_any_number(h):
    """the options of a header extension, however many"""
    prime(h)
    data = h.anybytes("data", 0, 254)
    inner = Summary("statistics of an option (by contract)")
    stored = Entries("entries of decoded statistics", lambda: h.choice("key", list(h.get(Z + "IMEType"))),
                     lambda: h.get(Z + "IMEValue")())
    judge = lambda t, content, got: option_entry(h, t, content, got, inner, stored)
    c = Elements("header extension options", data, judge, lambda t, content: option_short(t, content, inner), True)
    h.cut(c)
    h.cut(inner)
    h.cut(stored)
    exc, got = h.catch(h.get(Z + "HeaderExtension").deserialize,
                       h.get("pyzwave.types:BitStreamReader")(bytes([len(data) + 1]) + data))
    if stored.inside:
        h.fail("an entry is not stored")
    elif c.p is not None:
        c.ended(exc, got)
    elif exc is None or h.symbolic or not any([b & 0x7F == 3 for b, e in split(data) or []]):
        fallback(h, data, exc, got, lambda t, content, got: option_entry(h, t, content, got),
                 lambda t, content: option_short(t, content) and (t & 0x7F != 3 or not isinstance(split(content), list)), lambda b: b & 0x7F, True)


@harness(fuzz=200, time=60)
def extension_in_a_packet(h):
    """the extension is decoded from its own bytes, and what is behind it from the others"""
    prime(h)
    ext = h.anybytes("ext", 1, 254)
    seq, s, d, v = (h.int(n, 0, 255) for n in ("seq", "s", "d", "v"))
    c = Summary("header extension options (by contract)", ext)
    stored = Entries("entries of a decoded extension", lambda: h.choice("key", list(h.get(Z + "ZIPPacketOptionType"))),
                     lambda: h.get(Z + "ZIPPacketOptionData")())
    h.cut(c)
    h.cut(stored)
    exc, m = decode(h, b"\x23\x02\x80\xd0" + bytes([seq, s, d]) + bytes([len(ext) + 1]) + ext + b"\x20\x01" + bytes([v]))
    if stored.inside:
        h.fail("an entry is not stored")
    if c.map is None:
        # run natively, or rewritten
        if h.symbolic and not h.bounded:
            h.unsupported("no loop over the options")
        if exc is not None:
            return
    elif exc is not None:
        h.check("only a malformed extension fails", h.all(c.failed, type(exc) is EOFError), exc)
        return
    else:
        if not stored.attached:
            h.unsupported("the contract of the loop storing the entries did not attach")
        h.check("the options", h.all(stored.target is m.headerExtension, m.headerExtension.copied is c.map))
        h.check("a header extension", type(m.headerExtension) is h.get(Z + "HeaderExtension"))
    h.check("the command behind it", h.all(type(m.command) is h.get("pyzwave.commandclass.Basic:Set"), m.command.value == v))
    h.check("the rest of the header", h.all(m.seqNo == seq, m.sourceEP == s & 0x7F))
