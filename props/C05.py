"""C05: decoding: short, cut off, over-long and unknown commands."""
from layouts import LAYOUTS, RECEIVE_ONLY
from hwire import BY_NAME, prime, cls_of, values, wire, check_fields, CC
from pyvc.api import harness

M = "pyzwave.message:Message"
FUNCTIONS = ["pyzwave.message:Message.decode", "pyzwave.message:Message.deserialize",
             "pyzwave.message:Message.__getattr__", "pyzwave.message:UnknownMessage.hid",
             "pyzwave.util:AttributesMixin.parseAttributes"]


def size(k):
    return {"ip": 128, "dsk": 128, "tail": 0}.get(k) if k in ("ip", "dsk", "tail") else int(k[1:])


def byte_fields(fields):
    """[(end offset in bytes, [field indices])]: the groups of fields ending on a byte border"""
    out, cur, bits, off = [], [], 0, 0
    for i, (n, k) in enumerate(fields):
        cur.append(i)
        bits += size(k)
        if bits % 8 == 0:
            off += bits // 8
            out.append((off, cur))
            cur, bits = [], 0
    return out


CUTS = []
for _n in sorted(BY_NAME):
    for _c in range(0, sum(size(k) for _, k in BY_NAME[_n][1]) // 8):
        CUTS.append((_n, _c))


@harness(params=CUTS, fuzz=3, functions=["pyzwave.util:AttributesMixin.parseAttributes"])
def cut_off(h, p):
    """the command cut off after any number of bytes: the fields that arrived have their values and
    the others none; a field cut in the middle is an error, never a made up value"""
    prime(h)
    name, cut = p
    hid, fields = BY_NAME[name]
    vals = values(h, fields)
    raw = wire(h, hid, fields, vals, True)[:2 + cut]
    groups = byte_fields(fields)
    whole = [i for end, g in groups if end <= cut for i in g]
    e, m = h.catch(h.get(M).decode, raw)
    border = cut == 0 or any(end == cut for end, _ in groups)
    if not border:
        h.check("a field cut in the middle is EOFError", isinstance(e, EOFError))
        return
    h.check("is decoded", e is None)
    h.check("the right command", type(m) is cls_of(h, name))
    check_fields(h, m, [fields[i] for i in whole], [vals[i] for i in whole])
    for i, (n, k) in enumerate(fields):
        if i not in whole and k[0] != "r":
            v = getattr(m, n)
            h.check("%s has no value" % n, v is None or (k == "tail" and len(v) == 0))


@harness(params=[n for n in sorted(BY_NAME) if not any(k == "tail" for _, k in BY_NAME[n][1])], fuzz=5)
def longer(h, name):
    """bytes after the last known field (a later version of the command) change nothing"""
    prime(h)
    hid, fields = BY_NAME[name]
    vals = values(h, fields)
    tail = h.anybytes("more")
    m = h.get(M).decode(wire(h, hid, fields, vals, True) + tail)
    h.check("the right command", type(m) is cls_of(h, name))
    check_fields(h, m, fields, vals)


@harness(params=["node failing", "node failing long", "parameter", "parameter set", "sensor", "supervised", "group name",
                 "group info", "group commands", "node list", "failed node list", "packet"], fuzz=12)
def longer_other(h, what):
    """the same for commands whose length depends on their content, complete in themselves"""
    prime(h)
    v, w = h.int("v", 0, 255), h.int("w", 0, 255)
    more = h.anybytes("more")
    dec = h.get(M).decode
    if what == "node failing":
        # 15 more bytes make it the other form of the command
        h.assume(len(more) != 15)
        h.check("the handle", dec(bytes([0x69, 0x06, v]) + more).queueHandle == v)
    elif what == "node failing long":
        # an address in whose last byte the handle is
        m = dec(bytes([0x69, 0x06]) + bytes(15) + bytes([v]))
        h.check("the handle", m.queueHandle == v)
    elif what == "parameter":
        n = h.choice("n", [1, 2, 4])
        m = dec(bytes([0x70, 0x06, w, n] + [v] * n) + more)
        h.check("the value", h.all(m.parameterNumber == w, m.size == n, m.value == int.from_bytes(bytes([v] * n), "big")))
    elif what == "parameter set":
        n = h.choice("n", [1, 2, 4])
        m = dec(bytes([0x70, 0x04, w, n] + [v] * n) + more)
        h.check("the value", h.all(m.parameterNumber == w, m.size == n, m.value == int.from_bytes(bytes([v] * n), "big")))
    elif what == "sensor":
        m = dec(bytes([0x31, 0x05, w, 0x0A, v, w]) + more)
        x = v * 256 + w
        h.check("the value", m.sensorValue == h.ite(x >= 0x8000, x - 0x10000, x))
        h.check("the type", m.sensorType == w)
    elif what == "supervised":
        m = dec(bytes([0x6C, 0x01, w & 0x3F, 3, 0x25, 0x03, v]) + more)
        h.check("the command", m.command.compose() == bytes([0x25, 0x03, v]))
        h.check("the session", m.sessionID == w & 0x3F)
    elif what == "group name":
        m = dec(bytes([0x59, 0x02, w, 2, 65, 66]) + more)
        h.check("the name", h.all(m.name == "AB", m.groupingIdentifier == w))
    elif what == "group info":
        m = dec(bytes([0x59, 0x04, 1, v, 0, w, v, 0, 0, 0]) + more)
        h.check("the group", h.all(len(m.groups) == 1, m.groups[0].groupingIdentifier == v, m.groups[0].profile == w * 256 + v))
    elif what == "group commands":
        h.assume(v < 0xF1)
        m = dec(bytes([0x59, 0x06, 1, 2, v, w]) + more)
        h.check("the command", h.all(len(m.commandClass) == 1, m.commandClass[0][0] == v, m.commandClass[0][1] == w))
    elif what == "node list":
        m = dec(bytes([0x52, 0x02, w, 0, v]) + bytes([3]) + bytes(28) + more)
        h.check("the nodes", h.all(m.nodes == {1, 2}, m.nodeListControllerId == v, m.seqNo == w))
    elif what == "failed node list":
        m = dec(bytes([0x52, 0x0C, w]) + bytes([3]) + bytes(28) + more)
        h.check("the nodes", h.all(m.failedNodeList == {1, 2}, m.seqNo == w))
    else:
        m = dec(bytes([0x23, 0x02, 0x80, 0x50, w, 1, 2, 0x25, 0x03, v]) + more)
        h.check("the command", m.command.compose() == bytes([0x25, 0x03, v]))


@harness
def too_short(h):
    """less than a command identifier"""
    prime(h)
    raw = h.bytes("raw", 0, 1)
    m = h.get(M).decode(raw)
    h.check("an unknown command", type(m) is h.get("pyzwave.message:UnknownMessage"))
    h.check("of no class", h.all(m.hid() == 0, m.cmdClass() == 0))


@harness(functions=["pyzwave.message:UnknownMessage.hid"])
def unknown(h):
    """a command that is not implemented keeps its class and command, whatever follows"""
    prime(h)
    c, d = h.int("class", 0, 255), h.int("command", 0, 255)
    hid = c * 256 + d
    known = sorted(h.get("pyzwave.commandclass:ZWaveMessage").keys())
    h.assume(h.no(h.any(*[hid == k for k in known])))
    tail = h.anybytes("rest")
    m = h.get(M).decode(bytes([c, d]) + tail)
    h.check("an unknown command", type(m) is h.get("pyzwave.message:UnknownMessage"))
    h.check("keeps its class", m.cmdClass() == c)
    h.check("and its command", m.hid() == hid)
    h.check("and has no name", m.NAME is None)


@harness
def unknown_inside(h):
    """an unknown command inside a packet or a supervision command does not hide the rest of it"""
    prime(h)
    c, d = h.int("class", 0, 255), h.int("command", 0, 255)
    known = sorted(h.get("pyzwave.commandclass:ZWaveMessage").keys())
    h.assume(h.no(h.any(*[c * 256 + d == k for k in known])))
    tail = h.anybytes("rest", 0, 200)
    seq, sid = h.int("seq", 0, 255), h.int("sid", 0, 63)
    if h.choice("where", [0, 1]):
        p = h.get(M).decode(bytes([0x23, 0x02, 0x80, 0x50, seq, 1, 2, c, d]) + tail)
        h.check("the packet", h.all(p.seqNo == seq, p.sourceEP == 1, p.destEP == 2))
        h.check("its command", p.command.hid() == c * 256 + d)
    else:
        n = len(tail) + 2
        s = h.get(M).decode(bytes([0x6C, 0x01, sid, n, c, d]) + tail)
        h.check("the session", s.sessionID == sid)
        h.check("its command", s.command.hid() == c * 256 + d)


@harness
def every_known_command(h):
    """every implemented command is decoded as itself: no two share an identifier"""
    prime(h)
    reg = h.get("pyzwave.commandclass:ZWaveMessage")
    for hid, name, _ in LAYOUTS:
        h.check(name, reg.get(hid) is cls_of(h, name))


SHORT = [("Zip.ZipPacket", [0x23, 0x02], [1, 1, 1, 1, 1]),
         ("Configuration.Report", [0x70, 0x06], [1, 1]), ("SensorMultilevel.Report", [0x31, 0x05], [1])]


@harness
def packet_cut_off(h):
    """a packet whose header is cut off at any point: what is left out has no value"""
    prime(h)
    n = h.choice("n", [0, 1, 2, 3, 4, 5])
    b = h.bytes("b", n)
    m = h.get(M).decode(bytes([0x23, 0x02]) + b)
    h.check("a packet", type(m) is h.get(CC + "Zip:ZipPacket"))
    h.check("the sequence number only once it has arrived", m.seqNo == b[2] if n > 2 else m.seqNo is None)
    h.check("the command only once it has arrived", m.command is None)


@harness
def packet_extension_cut_off(h):
    """a header extension longer than the packet is an error, not a command"""
    prime(h)
    n = h.int("n", 1, 255)
    ext = h.anybytes("ext", 0, 253)
    h.assume(len(ext) < n - 1)
    e, m = h.catch(h.get(M).decode, bytes([0x23, 0x02, 0, 0xC0, 1, 0, 0]) + bytes([n]) + ext)
    h.check("EOFError", isinstance(e, EOFError))


@harness
def supervised_cut_off(h):
    prime(h)
    n = h.int("n", 1, 255)
    cmd = h.anybytes("cmd", 0, 254)
    h.assume(len(cmd) < n)
    e, m = h.catch(h.get(M).decode, bytes([0x6C, 0x01, 3, n]) + cmd)
    h.check("EOFError", isinstance(e, EOFError))


@harness(params=[1, 2, 4])
def value_cut_off(h, size):
    prime(h)
    cmd = h.choice("cmd", [0x04, 0x06])
    b = h.bytes("b", 0, size - 1)
    e, m = h.catch(h.get(M).decode, bytes([0x70, cmd, 7, size]) + b)
    if len(b) == 0:
        h.check("no value", h.all(e is None, m.value is None))
    else:
        h.check("EOFError", isinstance(e, EOFError))
