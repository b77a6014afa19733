"""C04: every command's fields are laid out on the wire exactly as the protocol says."""
from layouts import ENUMS, LAYOUTS, RECEIVE_ONLY
from hwire import BY_NAME, prime, cls_of, values, wire, check_fields
from pyvc.api import harness

M = "pyzwave.message:Message"
CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.message:Message.compose", "pyzwave.message:Message.deserialize",
             "pyzwave.message:Message.decode", "pyzwave.util:AttributesMixin.parseAttributes",
             "pyzwave.util:AttributesMixin.__setattr__", "pyzwave.util:AttributesMixin.__init__"]
ASSUMPTIONS = ["a value given to a fixed-width field is within the range of the field",
               "the golden layout table (props/layouts.py) is the protocol's"]

GENERIC = sorted(BY_NAME)


@harness(params=[n for n in GENERIC if n not in RECEIVE_ONLY], functions=["pyzwave.message:Message.compose"],
         fuzz=10)
def encode(h, name):
    prime(h)
    hid, fields = BY_NAME[name]
    cls = cls_of(h, name)
    h.check("command identifier", cls.hid() == hid)
    vals = values(h, fields)
    kw = {n: v for (n, k), v in zip(fields, vals) if k[0] != "r"}
    raw = cls(**kw).compose()
    h.check("the bytes of the protocol, reserved bits zero", raw == wire(h, hid, fields, vals, False))
    msg = cls()
    kinds = dict(fields)
    for n, v in kw.items():
        setattr(msg, n, h.get("pyzwave.types:IPv6")(v) if kinds[n] == "ip" else v)
    h.check("the same when the fields are assigned", msg.compose() == raw)


@harness(params=GENERIC, functions=["pyzwave.message:Message.deserialize",
                                    "pyzwave.util:AttributesMixin.parseAttributes"], fuzz=10)
def decode(h, name):
    prime(h)
    hid, fields = BY_NAME[name]
    vals = values(h, fields)
    raw = wire(h, hid, fields, vals, True)
    msg = h.get(M).decode(raw)
    h.check("the right command", type(msg) is cls_of(h, name))
    h.check("its identifier", msg.hid() == hid)
    h.check("its command class", msg.cmdClass() == hid >> 8)
    check_fields(h, msg, fields, vals)
    if name not in RECEIVE_ONLY:
        h.check("encodes to the same bytes, reserved bits zero",
                msg.compose() == wire(h, hid, fields, vals, False))


@harness(params=[n for n in GENERIC if n not in RECEIVE_ONLY], fuzz=5)
def equal_messages(h, name):
    """two messages of a kind are equal exactly when their bytes are"""
    prime(h)
    hid, fields = BY_NAME[name]
    if not [1 for n, k in fields if k[0] != "r"]:
        h.check("equal", cls_of(h, name)() == cls_of(h, name)())
        return
    vals = values(h, fields)
    cls = cls_of(h, name)
    kw = {n: v for (n, k), v in zip(fields, vals) if k[0] != "r"}
    plain = [(n, k) for n, k in fields if k[0] != "r"]
    n, k = h.choice("field", plain)
    if k in ("ip", "dsk"):
        other = h.bytes("other", 16)
    elif k == "tail":
        other = h.anybytes("other")
    else:
        other = h.int("other", 0, (1 << int(k[1:])) - 1)
    kw2 = dict(kw)
    kw2[n] = other
    one = cls(**kw)
    h.check("equal exactly when the field is", (one == cls(**kw2)) == (other == kw[n]))
    # also when one of them was received
    back = h.get(M).decode(wire(h, hid, fields, vals, True))
    h.check("equal to the one received", back == one)
    h.check("and the other way round", one == back)
    h.check("received, equal exactly when the field is", (back == cls(**kw2)) == (other == kw[n]))


TWINS = [(a, b) for i, a in enumerate(GENERIC) for b in GENERIC[i + 1:]
         if a not in RECEIVE_ONLY and b not in RECEIVE_ONLY and BY_NAME[a][1] == BY_NAME[b][1]]


@harness(params=TWINS, fuzz=2)
def unequal_commands(h, ab):
    """different commands are never equal, whatever their fields"""
    prime(h)
    a, b = ab
    vals = values(h, BY_NAME[a][1])
    kw = {n: v for (n, k), v in zip(BY_NAME[a][1], vals) if k[0] != "r"}
    one, two = cls_of(h, a)(**kw), cls_of(h, b)(**kw)
    h.check("not equal", h.no(one == two))
    h.check("nor unequal to itself", one == one)
    h.check("nor equal to anything else", h.no(h.any(one == one.compose(), one == None, one == 5)))  # noqa: E711


@harness(params=sorted(set((hid, n) for hid, n, _ in LAYOUTS)), fuzz=3)
def identifier(h, p):
    prime(h)
    hid, name = p
    cls = cls_of(h, name)
    h.check("class and command", cls.hid() == hid)
    h.check("a fresh message is of its class", cls().cmdClass() == hid >> 8)


# -- the commands with a structure of their own


ZFLAGS = ["ackRequest", "ackResponse", "nackResponse", "nackWaiting", "nackQueueFull", "nackOptionError"]


def nested(h):
    """an arbitrary contained command: (message, its bytes)"""
    v = h.int("nested", 0, 255)
    which = h.choice("which", ["basic", "parameter", "get"])
    if which == "basic":
        return h.get(CC + "Basic:Set")(value=v), bytes([0x20, 0x01, v])
    if which == "get":
        return h.get(CC + "Version:VersionGet")(), bytes([0x86, 0x11])
    d = h.anybytes("nested_rest")
    return h.get(CC + "NodeProvisioning:ListIterationGet")(seqNo=v, remainingCounter=1), bytes([0x78, 0x03, v, 1])


@harness(params=["packet", "supervision", "list", "received"])
def changed_and_encoded_again(h, kind):
    """what is encoded is what the message holds then, also after it was encoded before"""
    prime(h)
    a, b = h.int("a", 0, 255), h.int("b", 0, 255)
    inner = h.get(CC + "Basic:Set")(value=a)
    if kind == "list":
        cls = h.get(CC + "Association:Set")
        nodes = [a]
        msg = cls(groupingIdentifier=1, nodes=nodes)
        first = msg.compose()
        msg.nodes.append((b, None))
        h.check("before", first == bytes([0x85, 0x01, 1, a]))
        h.check("with the node added", msg.compose() == bytes([0x85, 0x01, 1, a, b]))
        return
    if kind == "supervision":
        msg = h.get(CC + "Supervision:Get")(statusUpdates=0, sessionID=1, command=inner)
        head = bytes([0x6C, 0x01, 1, 3])
    else:
        head = bytes([0x23, 0x02, 0x80, 0x50, 7, 0, 0])
        msg = h.get(CC + "Zip:ZipPacket")(ackRequest=1, zwCmdIncluded=1, secureOrigin=1, seqNo=7, sourceEP=0, destEP=0,
                                          headerExtIncluded=0, moreInformation=0, command=inner,
                                          **dict([(f, 0) for f in ZFLAGS if f != "ackRequest"]))
    if kind == "received":
        msg = h.get(M).decode(head + bytes([0x20, 0x01, a]))
    other = h.get(CC + "Basic:Set")(value=b)
    h.check("before", msg.compose() == head + bytes([0x20, 0x01, a]))
    msg.command.value = b
    h.check("with the contained command changed", msg.compose() == head + bytes([0x20, 0x01, b]))
    h.check("equal to the one it was changed into", msg.command == other)
    msg.command = h.get(CC + "Basic:Get")()
    if kind == "supervision":
        head = bytes([0x6C, 0x01, 1, 2])
    h.check("with another contained command", msg.compose() == head + bytes([0x20, 0x02]))


@harness
def zip_packet_encode(h):
    prime(h)
    f = [h.int(n, 0, 1) for n in ZFLAGS]
    more, secure = h.int("more", 0, 1), h.int("secure", 0, 1)
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    msg, raw = nested(h)
    kw = dict(zip(ZFLAGS, f))
    pkt = h.get(CC + "Zip:ZipPacket")(headerExtIncluded=0, zwCmdIncluded=1, moreInformation=more,
                                      secureOrigin=secure, seqNo=seq, sourceEP=src, destEP=dst, command=msg, **kw)
    b0 = sum(v * (1 << (7 - i)) for i, v in enumerate(f))
    h.check("the bytes of the protocol",
            pkt.compose() == bytes([0x23, 0x02, b0, 0x40 + more * 0x20 + secure * 0x10, seq, src, dst]) + raw)
    ack = h.get(CC + "Zip:ZipPacket")(headerExtIncluded=0, zwCmdIncluded=0, moreInformation=more,
                                      secureOrigin=secure, seqNo=seq, sourceEP=src, destEP=dst,
                                      command=h.get(M)(), **kw)
    h.check("without a command", ack.compose() == bytes([0x23, 0x02, b0, more * 0x20 + secure * 0x10, seq, src, dst]))


@harness
def zip_packet_decode(h):
    prime(h)
    b0, b1 = h.int("b0", 0, 255), h.int("b1", 0, 127)
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 255), h.int("dst", 0, 255)
    v = h.int("v", 0, 255)
    cmd = h.choice("cmd", [0, 1])
    raw = bytes([0x23, 0x02, b0, b1, seq, src, dst]) + (bytes([0x20, 0x03, v]) if cmd else b"")
    h.assume((b1 & 0x40 != 0) == (cmd == 1))
    p = h.get(M).decode(raw)
    h.check("a Z/IP packet", type(p) is h.get(CC + "Zip:ZipPacket"))
    for i, n in enumerate(ZFLAGS):
        h.check(n, getattr(p, n) == (b0 >> (7 - i)) & 1)
    for n, bit in (("headerExtIncluded", 7), ("zwCmdIncluded", 6), ("moreInformation", 5), ("secureOrigin", 4)):
        h.check(n, getattr(p, n) == (b1 >> bit) & 1)
    h.check("seqNo", p.seqNo == seq)
    h.check("sourceEP", p.sourceEP == src & 0x7F)
    h.check("destEP", p.destEP == dst & 0x7F)
    if cmd:
        h.check("the contained command", type(p.command) is h.get(CC + "Basic:Report"))
        h.check("and its value", p.command.value == v)


@harness
def zip_packet_decode_extension(h):
    """the command starts after the header extension, whatever the extension holds"""
    prime(h)
    b0, b1 = h.int("b0", 0, 255), h.int("b1", 0, 63)
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    v = h.int("v", 0, 255)
    d = h.int("d", 0, (1 << 24) - 1)
    ext = bytes([6, 0x01, 0x03, (d >> 16) & 0xFF, (d >> 8) & 0xFF, d & 0xFF])
    p = h.get(M).decode(bytes([0x23, 0x02, b0, 0xC0 + b1, seq, src, dst]) + ext + bytes([0x20, 0x03, v]))
    h.check("the expected delay", p.headerExtension.expectedDelay == h.ite(d >= 1 << 23, d - (1 << 24), d))
    h.check("the contained command", type(p.command) is h.get(CC + "Basic:Report"))
    h.check("and its value", p.command.value == v)


@harness
def supervision_get(h):
    """the contained command is preceded by its length"""
    prime(h)
    su, sid = h.int("su", 0, 1), h.int("sid", 0, 63)
    msg, raw = nested(h)
    cls = h.get(CC + "Supervision:Get")
    out = cls(statusUpdates=su, sessionID=sid, command=msg).compose()
    h.check("the bytes of the protocol", out == bytes([0x6C, 0x01, su * 128 + sid, len(raw)]) + raw)
    res = h.int("res", 0, 1)
    tail = h.anybytes("tail")
    back = h.get(M).decode(bytes([0x6C, 0x01, su * 128 + res * 64 + sid, len(raw)]) + raw + tail)
    h.check("the right command", type(back) is cls)
    h.check("statusUpdates", back.statusUpdates == su)
    h.check("sessionID", back.sessionID == sid)
    h.check("the contained command", back.command.compose() == raw)
    h.check("of its kind", type(back.command) is type(msg))


@harness(params=[255, 256, 300], fuzz=2)
def contained_too_long(h, n):
    """a contained command whose length does not fit is refused, never cut"""
    prime(h)
    inner = h.get(CC + "NodeProvisioning:Set")(seqNo=1, dsk=b"", metaDataExtension=b"x" * (n - 4))
    raw = inner.compose()
    h.check("its length", len(raw) == n)
    exc, out = h.catch(h.get(CC + "Supervision:Get")(statusUpdates=0, sessionID=1, command=inner).compose)
    if n > 255:
        h.check("refused", exc is not None)
    else:
        h.check("the bytes of the protocol", out == bytes([0x6C, 0x01, 1, n]) + raw)


@harness(params=[1, 2, 4])
def configuration_set(h, size):
    prime(h)
    num, dflt = h.int("num", 0, 255), h.int("dflt", 0, 1)
    v = h.int("v", 0, (1 << (8 * size)) - 1)
    cls = h.get(CC + "Configuration:Set")
    out = cls(parameterNumber=num, default=dflt, size=size, value=v).compose()
    val = bytes([(v >> (8 * (size - 1 - j))) & 0xFF for j in range(size)])
    h.check("the bytes of the protocol", out == bytes([0x70, 0x04, num, dflt * 128 + size]) + val)
    res = h.int("res", 0, 15)
    back = h.get(M).decode(bytes([0x70, 0x04, num, dflt * 128 + res * 8 + size]) + val)
    h.check("the right command", type(back) is cls)
    h.check("parameterNumber", back.parameterNumber == num)
    h.check("default", back.default == dflt)
    h.check("size", back.size == size)
    h.check("value", back.value == v)


@harness(params=[1, 2, 4])
def configuration_report(h, size):
    prime(h)
    num, res = h.int("num", 0, 255), h.int("res", 0, 31)
    val = h.bytes("val", size)
    tail = h.anybytes("tail")
    back = h.get(M).decode(bytes([0x70, 0x06, num, res * 8 + size]) + val + tail)
    v = 0
    for x in val:
        v = v * 256 + x
    h.check("the right command", type(back) is h.get(CC + "Configuration:Report"))
    h.check("parameterNumber", back.parameterNumber == num)
    h.check("size", back.size == size)
    h.check("value", back.value == v)


@harness(params=[(pr, s) for pr in range(8) for s in (1, 2, 4)], fuzz=5)
def sensor_report(h, p):
    """type, then precision/scale/size and the reading"""
    prime(h)
    prec, size = p
    t, scale = h.int("type", 0, 255), h.int("scale", 0, 3)
    val = h.bytes("val", size)
    tail = h.anybytes("tail")
    m = h.get(M).decode(bytes([0x31, 0x05, t, prec * 32 + scale * 8 + size]) + val + tail)
    v = 0
    for x in val:
        v = v * 256 + x
    v = h.ite(val[0] >= 128, v - (1 << (8 * size)), v)
    h.check("the right command", type(m) is h.get(CC + "SensorMultilevel:Report"))
    h.check("sensorType", m.sensorType == t)
    h.check("the reading", m.sensorValue == v / 10 ** prec)
    h.check("its scale", m.sensorValue.scale == scale)


@harness(params=[(pr, s) for pr in range(8) for s in (1, 2, 4)], fuzz=5)
def meter_report(h, p):
    prime(h)
    prec, size = p
    head, scale = h.int("head", 0, 255), h.int("scale", 0, 3)
    val = h.bytes("val", size)
    dt = h.int("dt", 0, 65535)
    tail = h.anybytes("tail")
    m = h.get(M).decode(bytes([0x32, 0x02, head, prec * 32 + scale * 8 + size]) + val
                        + bytes([dt >> 8, dt & 0xFF]) + tail)
    v = 0
    for x in val:
        v = v * 256 + x
    v = h.ite(val[0] >= 128, v - (1 << (8 * size)), v)
    h.check("the right command", type(m) is h.get(CC + "Meter:Report"))
    h.check("scale2", m.scale2 == head >> 7)
    h.check("rateType", m.rateType == (head >> 5) & 3)
    h.check("meterType", m.meterType == head & 31)
    h.check("the reading", m.meterValue == v / 10 ** prec)
    h.check("its scale", m.meterValue.scale == scale)
    h.check("with the third bit of it", m.scale == scale + 4 * (head >> 7))
    h.check("deltaTime", m.deltaTime == dt)


@harness
def group_name(h):
    prime(h)
    g = h.int("g", 0, 255)
    text = h.choice("text", ["", "Lifeline", "Gr\u00f6n lampa", "\u2603" * 30])
    raw = text.encode("utf-8")
    tail = h.anybytes("tail")
    m = h.get(M).decode(bytes([0x59, 0x02, g, len(raw)]) + raw + tail)
    h.check("the right command", type(m) is h.get(CC + "AssociationGrpInfo:GroupNameReport"))
    h.check("groupingIdentifier", m.groupingIdentifier == g)
    h.check("name", m.name == text)


@harness
def node_failing(h):
    """the gateway may send the handle as the last byte of 16"""
    prime(h)
    cls = h.get(CC + "Mailbox:NodeFailing")
    v = h.int("v", 0, 255)
    h.check("encodes one byte", cls(queueHandle=v).compose() == bytes([0x69, 0x06, v]))
    pre = h.bytes("pre", 15)
    m = h.get(M).decode(bytes([0x69, 0x06]) + pre + bytes([v]))
    h.check("the right command", type(m) is cls)
    h.check("the last of 16 bytes", m.queueHandle == v)
    h.check("or the only byte", h.get(M).decode(bytes([0x69, 0x06, v])).queueHandle == v)


@harness
def provisioning_set(h):
    prime(h)
    seq, dsk, meta = h.int("seq", 0, 255), h.bytes("dsk", 16), h.anybytes("meta")
    cls = h.get(CC + "NodeProvisioning:Set")
    out = cls(seqNo=seq, dsk=dsk, metaDataExtension=meta).compose()
    h.check("the bytes of the protocol", out == bytes([0x78, 0x01, seq, 16]) + dsk + meta)
    res = h.int("res", 0, 7)
    m = h.get(M).decode(bytes([0x78, 0x01, seq, res * 32 + 16]) + dsk + meta)
    h.check("the right command", type(m) is cls)
    check_fields(h, m, [("seqNo", "u8"), ("dsk", "dsk")], [seq, dsk])
    if len(meta) > 0:
        h.check("the metadata", m.metaDataExtension == meta)
        h.check("encodes to the same bytes", m.compose() == out)


@harness(params=list(range(12)))
def node_add_status(h, k):
    """the length counts from itself: 7 bytes and then the command classes"""
    prime(h)
    f = [("seqNo", "u8"), ("status", "u8"), ("-", "r8"), ("newNodeID", "u8")]
    g = [("listening", "b1"), ("zwaveProtocolSpecific", "r7"), ("optFunc", "b1"), ("zwaveProtocolSpecific", "r7"),
         ("basicDeviceClass", "u8"), ("genericDeviceClass", "u8"), ("specificDeviceClass", "u8")]
    v1, v2 = values(h, f), values(h, g)
    classes = h.anybytes("classes", 21 * k, min(21 * k + 20, 248))
    tail = h.anybytes("tail")
    n = len(classes)
    raw = wire(h, 0x3402, f, v1, True) + bytes([7 + n]) + wire(h, 0, g, v2, True)[2:] + classes + tail
    m = h.get(M).decode(raw)
    h.check("the right command", type(m) is h.get(CC + "NetworkManagementInclusion:NodeAddStatus"))
    check_fields(h, m, f + g, v1 + v2)
    if len(classes) + len(tail) > 0:
        h.check("the command classes", bytes(m.commandClass) == classes)


@harness(params=sorted(ENUMS), fuzz=1)
def named_values(h, path):
    """the names stand for the protocol's numbers"""
    prime(h)
    E = h.get(("" if path.startswith("pyzwave") else CC) + path)
    for name, number in ENUMS[path].items():
        h.check("known", hasattr(E, name), name)
        v = getattr(E, name)
        h.check("its number", int(v) == number, (name, number))
        h.check("and back", E(number) == v)


NAMED = [("ApplicationStatus.ApplicationBusy", "status", "ApplicationStatus:Status"),
         ("Mailbox.Queue", "operation", "Mailbox:Queue.Operation"), ("Mailbox.ConfigurationSet", "mode", "Mailbox:Mode"),
         ("Meter.Get", "rateType", "Meter:RateType"), ("Meter.SupportedReport", "meterType", "Meter:MeterType"),
         ("Meter.SupportedReport", "rateType", "Meter:RateType"),
         ("NetworkManagementInclusion.FailedNodeRemoveStatus", "status", "NetworkManagementInclusion:FailedNodeRemoveStatus.Status"),
         ("NetworkManagementInclusion.NodeAdd", "mode", "NetworkManagementInclusion:NodeAdd.Mode"),
         ("NetworkManagementInclusion.NodeAdd", "txOptions", "pyzwave.adapter:TxOptions"),
         ("NetworkManagementInclusion.NodeAddKeysSet", "grantedKeys", "NetworkManagementInclusion:Keys"),
         ("NetworkManagementInclusion.NodeRemove", "mode", "NetworkManagementInclusion:NodeRemove.Mode"),
         ("NetworkManagementInclusion.NodeRemoveStatus", "status", "NetworkManagementInclusion:NodeRemoveStatus.Status"),
         ("NetworkManagementProxy.NodeInfoCachedReport", "status", "NetworkManagementProxy:NodeInfoCachedReport.Status"),
         ("SensorMultilevel.Get", "sensorType", "SensorMultilevel:SensorType"),
         ("SensorMultilevel.SupportedGetScale", "sensorType", "SensorMultilevel:SensorType")]


@harness(params=NAMED, fuzz=1)
def named_fields(h, p):
    """a field given by name is sent as its number, and compares equal to the name when received"""
    prime(h)
    name, field, path = p
    cls = cls_of(h, name)
    E = h.get(("" if path.startswith("pyzwave") else CC) + path)
    hid, fields = BY_NAME[name]
    zero = {"t": b"", "i": bytes(16), "d": bytes(16)}
    base = [(n, zero.get(k[0], 0)) for n, k in fields]
    for label, number in ENUMS[path].items():
        given = [getattr(E, label) if n == field else v for n, v in base]
        kw = {n: v for (n, k), v in zip(fields, given) if k[0] != "r"}
        data = cls(**kw).compose()
        h.check("sent as its number", data == wire(h, hid, fields, [number if n == field else v for n, v in base], False),
                label)
        if name not in RECEIVE_ONLY:
            h.check("received as it", getattr(h.get(M).decode(data), field) == getattr(E, label), label)


@harness(params=["::1", "fd00:bbbb::a", "2001:db8:1:2:3:4:5:6", "::ffff:192.168.1.5"], fuzz=1, kind="bounded",
         note="four spellings of addresses given as text")
def address_as_text(h, text):
    prime(h)
    import ipaddress
    m = h.get(CC + "ZipGateway:UnsolicitedDestinationSet")(unsolicitedIPv6Destination=text, port=4123)
    h.check("the bytes of the protocol", m.compose() == bytes([0x5F, 0x08]) + ipaddress.IPv6Address(text).packed
            + bytes([0x10, 0x1B]))
