"""C06: no received datagram can disturb the library."""
from layouts import LAYOUTS
from hlib import (prime, connection, gateway, havoc_seq, zip_packet, zip_ack, Sent, Recorder, Network, commands, ip_of,
                  advertisement, node_list_report, ip_text, task_errors, ACKREQ, ACKRESP, NACK, WAITING, CMD, SECURE, EXT)
from hwire import BY_NAME, values, wire
from pyzwave_cuts import inner_cuts
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.zipconnection:ZIPConnection.onPacket", "pyzwave.zipgateway:ZIPGateway.onUnsolicitedMessage",
             "pyzwave.connection:Connection._msgReceived", "pyzwave.connection:ZipClientProtocol.datagram_received",
             "pyzwave.adapter:Adapter.commandReceived", "pyzwave.adapter:Adapter.ackReceived"]
ASSUMPTIONS = ["asyncio hands each datagram to datagram_received as documented"]

NODE2 = ("fd00:bbbb::2", 4123, 0, 0)


class Watch:
    """a connection with a command, a request and a listener waiting"""

    def __init__(self, h, first=None):
        self.h = h
        self.c, self.tr = connection(h)
        havoc_seq(h, self.c)
        if first is not None:
            self.c.addListener(first)
        self.rec = Recorder("onMessageReceived", "messageReceived")
        self.c.addListener(self.rec)
        self.t = h.spawn(self.c.send(h.get(CC + "Basic:Set")(value=1)))
        self.seq = Sent(*self.tr.sent[0]).seq
        self.w = h.spawn(self.c.waitForMessage(h.get(CC + "Basic:Report"), timeout=3))
        self.timers = [t._when for t in h.loop.pending_timers()]

    def deliver(self, raw):
        e, _ = self.h.catch(self.tr.deliver, raw)
        self.h.check("no exception reaches the event loop", e is None)
        self.h.loop.settle()

    def untouched(self):
        h = self.h
        h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
        h.check("completes no command", h.outcome(self.t)[0] == "pending")
        h.check("completes no request", h.outcome(self.w)[0] == "pending")
        h.check("passed to no listener", len(self.rec.calls) == 0)
        h.check("nothing is sent", len(self.tr.sent) == 1)
        h.check("no timer is moved", [t._when for t in h.loop.pending_timers()] == self.timers)
        # as if it had never arrived
        x = h.int("x", 0, 255)
        self.deliver(zip_packet(9, bytes([0x25, 0x03, x]), 0, 1, 0))
        h.check("a following packet is delivered", len(self.rec.calls) == 1)
        self.deliver(zip_packet(10, bytes([0x20, 0x03, x])))
        h.check("a following response completes its request", h.outcome(self.w)[0] == "ok")
        h.check("with its content", h.outcome(self.w)[1].value == x)
        self.deliver(zip_ack(self.seq))
        h.check("a following ack completes the command", h.outcome(self.t) == ("ok", True))
        h.check("nothing else was delivered", len(self.rec.calls) == 1)
        h.spawn(self.c.send(h.get(CC + "Basic:Set")(value=2)))
        h.check("the next command has the next number", Sent(*self.tr.sent[-1]).seq == (self.seq + 1) % 256)


ZIPS = {0x2302, 0x2303, 0x5801}


@harness
def short(h):
    """empty and one byte datagrams"""
    w = Watch(h)
    w.deliver(h.bytes("raw", 0, 1))
    w.untouched()


@harness
def unknown(h):
    """every identifier the library does not know, followed by anything"""
    w = Watch(h)
    c, d = h.int("class", 0, 255), h.int("command", 0, 255)
    known = sorted(h.get("pyzwave.commandclass:ZWaveMessage").keys())
    h.assume(h.no(h.any(*[c * 256 + d == k for k in known])))
    w.deliver(bytes([c, d]) + h.anybytes("rest"))
    w.untouched()


@harness(params=lambda: [n for hid, n, _ in LAYOUTS if hid not in ZIPS], fuzz=8)
def not_a_packet(h, name):
    """a known command that is not wrapped in a packet, with arbitrary content"""
    w = Watch(h)
    hid = BY_NAME[name][0]
    tails = h.bytes("rest", 0, 6) if name in LOOPS else h.anybytes("rest")
    w.deliver(bytes([hid >> 8, hid & 255]) + tails)
    w.untouched()


LOOPS = {n for hid, n, _ in LAYOUTS if n.split(".")[0] in ("Association", "AssociationGrpInfo", "MultiChannelAssociation",
                                                          "NodeProvisioning", "SensorMultilevel", "NetworkManagementProxy")}


@harness
def packet_without_number(h):
    """a packet cut off before its sequence number"""
    w = Watch(h)
    w.deliver(bytes([0x23, 0x02]) + h.bytes("b", 0, 2))
    w.untouched()


@harness
def extension_cut_off(h):
    """a header extension pointing past the end, whatever flags are set"""
    w = Watch(h)
    f0 = h.int("f0", 0, 255)
    n = h.int("n", 1, 255)
    ext = h.anybytes("ext", 0, 253)
    h.assume(len(ext) < n - 1)
    f1 = h.int("f1", 0, 127)
    w.deliver(bytes([0x23, 0x02, f0, EXT + f1, w.seq, 0, 0]) + bytes([n]) + ext)
    w.untouched()


@harness
def extension_without_length(h):
    """a header extension too short to hold its own length, whatever flags are set and whatever is behind it"""
    w = Watch(h)
    f0, f1 = h.int("f0", 0, 255), h.int("f1", 0, 127)
    behind = h.choice("behind", [b"", b"\x00", b"\x25\x03\x01", b"\x20\x03\x07", b"\x01\x03\x00\x00\x07"])
    w.deliver(bytes([0x23, 0x02, f0, EXT + f1, w.seq, 0, 0, 0]) + behind)
    w.untouched()


@harness(params=inner_cuts, fuzz=4)
def command_cut_off(h, p):
    """a packet with a command cut off inside a field, whatever flags are set and even with the
    number of a waiting command"""
    name, cut = p
    w = Watch(h)
    hid, fields = BY_NAME[name]
    cmd = wire(h, hid, fields, values(h, fields), True)[:2 + cut]
    f0 = h.int("f0", 0, 255)
    w.deliver(bytes([0x23, 0x02, f0, CMD, w.seq, 0, 0]) + cmd)
    w.untouched()


@harness
def supervised_cut_off(h):
    """a supervised command longer than the packet"""
    w = Watch(h)
    f0 = h.int("f0", 0, 255)
    n = h.int("n", 1, 255)
    cmd = h.anybytes("cmd", 0, 254)
    h.assume(len(cmd) < n)
    w.deliver(bytes([0x23, 0x02, f0, CMD, w.seq, 0, 0, 0x6C, 0x01, 3, n]) + cmd)
    w.untouched()


@harness(params=["ValueError", "EOFError", "IndexError", "KeyError", "AttributeError", "RecursionError", "OverflowError",
                 "UnicodeDecodeError", "AssertionError", "MemoryError", "NotImplementedError"], fuzz=4)
def any_decoding_error(h, exc):
    """whatever goes wrong inside a command's decoder, on both sockets"""
    import builtins
    w = Watch(h)
    exc = getattr(builtins, exc)

    def fail(*a, **k):
        raise exc("utf-8", b"x", 0, 1, "bad") if exc is UnicodeDecodeError else exc("bad")
    cls = h.get(CC + "Basic:Report")
    cls.parse_value = fail
    f0 = h.int("f0", 0, 255)
    raw = bytes([0x23, 0x02, f0, CMD, w.seq, 0, 0, 0x20, 0x03, 1])
    w.deliver(raw)
    del cls.parse_value
    w.untouched()


@harness(fuzz=2)
def nested(h):
    """packets inside packets, as deep as a datagram can be"""
    w = Watch(h)
    depth = h.choice("depth", [1, 2, 100, 2000, 9000])
    f0 = h.choice("f0", [0, ACKRESP])
    raw = bytes([0x23, 0x02, f0, CMD, 250, 0, 0]) * depth
    w.deliver(raw)
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
    h.check("completes no request", h.outcome(w.w)[0] == "pending")
    if w.seq != 250:
        h.check("completes no command", h.outcome(w.t)[0] == "pending")
        w.deliver(zip_ack(w.seq))
        h.check("a following ack completes it", h.outcome(w.t) == ("ok", True))


@harness(time=120)
def any_flags(h):
    """a well-formed packet with any flags, any number and no command: no error, and only its own
    command is affected"""
    w = Watch(h)
    f0, f1, seq = h.int("f0", 0, 255), h.int("f1", 0, 127), h.int("s", 0, 255)
    w.deliver(bytes([0x23, 0x02, f0, f1, seq, h.int("src", 0, 255), h.int("dst", 0, 255)]))
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
    h.check("completes no request", h.outcome(w.w)[0] == "pending")
    h.check("nothing for the listeners", len(w.rec.calls) == 0)
    if seq != w.seq:
        w.untouched()


@harness(params=[0x00, 0x04, 0x08, 0x0C, 0x20, 0x28], fuzz=8)
def any_extension(h, f0):
    """a well-formed packet with any header extensions"""
    w = Watch(h)
    ext = h.bytes("ext", 0, 4)
    w.deliver(zip_packet(h.int("s", 0, 255), bytes([0x25, 0x03, 1]), f0, ext=ext))
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
    h.check("completes no command", h.outcome(w.t)[0] == "pending")
    h.check("completes no request", h.outcome(w.w)[0] == "pending")


TEXTS = ["\u00e9", "\u00e5\u00e4\u00f6", "\U0001f4a1", "\x00\x1b\r\n", "{}%s\\", "\ud7ff\uffff", ""]
ODD = [b"\x59\x02\x01" + bytes([len(t.encode())]) + t.encode() for t in TEXTS] + [
    b"\x59\x02\x01\x02\xff\xfe", b"\x31\x05\xff\xff\xff\xff", b"\x70\x06\x01\x00", b"\x84\x0a", b"\x25\x03", b"\x20\x03\x07",
    b"\xee\xee\xff", b"\x23\x02\x40\x00\x01\x00\x00", b"\x23\x03\x80", b"\x6c\x01\x80\x03\x20\x01\xff"]


@harness(params=list(range(len(ODD))), fuzz=1, kind="bounded", time=90, note="samples of odd contents, all flags")
def odd_contents(h, i):
    """a packet with any flags around a command with an odd content: no error, and the next packet is handled"""
    for f0 in ([0x00, 0x20, 0x28, 0x40, 0x80] if h.symbolic else range(256)):
        w = Watch(h)
        w.deliver(zip_packet((w.seq + 1) % 256, ODD[i], f0))
        h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0, (f0,))
        h.check("completes no command", h.outcome(w.t)[0] == "pending", (f0,))
        if ODD[i][:2] != b"\x20\x03":
            h.check("completes no request", h.outcome(w.w)[0] == "pending", (f0,))
            n = len(w.rec.calls)
            w.deliver(zip_packet(9, bytes([0x25, 0x03, 1]), 0, 1, 0))
            h.check("a following packet is delivered", len(w.rec.calls) == n + 1, (f0,))
        w.deliver(zip_ack(w.seq))
        h.check("a following ack completes the command", h.outcome(w.t) == ("ok", True), (f0,))
        if not w.w.done():
            w.w.cancel()
        h.loop.settle()


@harness
def keepalive(h):
    """keep-alive packets with any flags, whole or cut off"""
    w = Watch(h)
    w.deliver(bytes([0x23, 0x03]) + h.anybytes("rest"))
    w.untouched()


@harness
def stray_advertisement(h):
    """an advertisement nobody asked for, whole or cut off"""
    w = Watch(h)
    n = h.choice("n", list(range(0, 23)))
    raw = bytes([0x58, 0x01]) + h.bytes("b", n)
    w.deliver(raw)
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
    h.check("completes no command", h.outcome(w.t)[0] == "pending")
    h.check("completes no request", h.outcome(w.w)[0] == "pending")
    if 2 < n < 18:
        w.untouched()


@harness
def raising_listener(h):
    """a listener failing on a packet"""
    class Bad:
        def onMessageReceived(self, sender, msg):
            raise ValueError("x")
    w = Watch(h, Bad())
    w.deliver(zip_packet(3, bytes([0x25, 0x03, 1])))
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
    h.check("the other listener is told", len(w.rec.calls) == 1)


# --- the unsolicited socket and the gateway

class Gate:
    def __init__(self, h):
        self.h = h
        self.gw, self.net = gateway(h)
        h.run(self.gw.getNodeList())
        self.rec = Recorder("messageReceived", "nodeListUpdated", "onMessageReceived")
        self.gw.addListener(self.rec)
        self.us = [t for t in self.net.transports if t.local is not None][0]
        self.main = self.net.transports[0]
        self.net.answers[(0x52, 0x01)] = lambda s, tr: None
        self.us.deliver(zip_packet(1, node_list_report(1, [1, 2, 3])), ("fd00:bbbb::1", 1, 0, 0))
        h.loop.settle()
        self.rec.calls.clear()
        self.n = [len(t.sent) for t in self.net.transports]

    def deliver(self, raw, addr=NODE2):
        e, _ = self.h.catch(self.us.deliver, raw, addr)
        self.h.check("no exception reaches the event loop", e is None)
        self.h.loop.settle()

    def untouched(self):
        h = self.h
        h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
        h.check("passed to no listener", len(self.rec.calls) == 0)
        h.check("nothing is sent", [len(t.sent) for t in self.net.transports] == self.n)
        h.check("the nodes are the same", h.run(self.gw.getNodeList()) == {1, 2, 3})
        x, s = h.int("x", 0, 255), h.int("s", 0, 255)
        self.deliver(zip_packet(s, bytes([0x25, 0x03, x]), ACKREQ, 1, 0))
        calls = self.rec.named("messageReceived")
        h.check("a following packet is delivered", len(calls) == 1)
        h.check("to its node", h.all(calls[0][1] == 2, calls[0][2] == 1))
        h.check("with its content", calls[0][3].compose() == bytes([0x25, 0x03, x]))
        h.check("and acknowledged", len(self.us.sent) == self.n[self.net.transports.index(self.us)] + 1)


@harness
def unsolicited_short(h):
    g = Gate(h)
    g.deliver(h.bytes("raw", 0, 1))
    g.untouched()


@harness
def unsolicited_unknown(h):
    g = Gate(h)
    c, d = h.int("class", 0, 255), h.int("command", 0, 255)
    h.assume(h.no(h.all(c == 0x23, d == 0x02)))
    known = sorted(h.get("pyzwave.commandclass:ZWaveMessage").keys())
    h.assume(h.no(h.any(*[c * 256 + d == k for k in known])))
    g.deliver(bytes([c, d]) + h.anybytes("rest"))
    g.untouched()


@harness(params=lambda: [n for hid, n, _ in LAYOUTS if hid != 0x2302], fuzz=8)
def unsolicited_not_a_packet(h, name):
    g = Gate(h)
    hid = BY_NAME[name][0]
    tails = h.bytes("rest", 0, 6) if name in LOOPS else h.anybytes("rest")
    g.deliver(bytes([hid >> 8, hid & 255]) + tails)
    g.untouched()


@harness
def unsolicited_cut_packet(h):
    """a packet cut off anywhere before its command"""
    g = Gate(h)
    b = h.bytes("b", 0, 4)
    if len(b) > 2:
        h.assume(b[0] < 128)          # requesting no acknowledgement
    elif len(b) > 0:
        h.assume(b[0] < 128)
    g.deliver(bytes([0x23, 0x02]) + b)
    g.untouched()


@harness
def unsolicited_extension_cut_off(h):
    g = Gate(h)
    f0, n = h.int("f0", 0, 255), h.int("n", 1, 255)
    ext = h.anybytes("ext", 0, 253)
    h.assume(len(ext) < n - 1)
    g.deliver(bytes([0x23, 0x02, f0, EXT, 1, 0, 0]) + bytes([n]) + ext)
    g.untouched()


@harness
def unsolicited_extension_without_length(h):
    g = Gate(h)
    f0, f1 = h.int("f0", 0, 255), h.int("f1", 0, 127)
    behind = h.choice("behind", [b"", b"\x00", b"\x25\x03\x01", b"\x20\x03\x07", b"\x01\x03\x00\x00\x07"])
    g.deliver(bytes([0x23, 0x02, f0, EXT + f1, 1, 0, 0, 0]) + behind)
    g.untouched()


@harness(params=inner_cuts, fuzz=4)
def unsolicited_command_cut_off(h, p):
    name, cut = p
    g = Gate(h)
    hid, fields = BY_NAME[name]
    cmd = wire(h, hid, fields, values(h, fields), True)[:2 + cut]
    f0 = h.int("f0", 0, 255)
    g.deliver(bytes([0x23, 0x02, f0, CMD, 7, 0, 0]) + cmd)
    g.untouched()


@harness
def unsolicited_node_list_cut_off(h):
    """a node list report cut off at any byte"""
    g = Gate(h)
    n = h.choice("n", list(range(0, 32)))
    g.deliver(bytes([0x23, 0x02, h.int("f0", 0, 127), CMD, 7, 0, 0, 0x52, 0x02]) + h.bytes("b", n))
    g.untouched()


@harness
def node_list_answer_cut_off(h):
    """the same as the answer to a question"""
    net = Network(h)
    n = h.choice("n", list(range(0, 32)))
    b = h.bytes("b", n)
    net.answers[(0x52, 0x01)] = lambda s, tr: bytes([0x52, 0x02]) + b
    gw, net = gateway(h, net)
    t = h.spawn(gw.getNodeList())
    h.loop.finish(t)
    h.check("no exception", h.outcome(t)[0] == "ok")
    h.check("no nodes", len(h.outcome(t)[1]) == 0)
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)
    net.answers.clear()
    h.check("the next answer is used", h.run(gw.getNodeList()) == {1, 2, 3})


@harness(fuzz=2)
def unsolicited_nested(h):
    g = Gate(h)
    depth = h.choice("depth", [2, 100, 2000, 9000])
    raw = bytes([0x23, 0x02, 0, CMD, 250, 0, 0]) * depth
    g.deliver(raw)
    h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == 0)


@harness
def strange_sources(h):
    """a proper packet from any kind of address: an IPv4-mapped one, a link-local one with a zone"""
    g = Gate(h)
    addr = h.choice("addr", ["::ffff:192.0.2.1", "fe80::1", "fe80::1%eth0", "::", "ff02::1"])
    g.deliver(zip_packet(1, bytes([0x25, 0x03, 1]), ACKREQ), (addr, 4123, 0, 0))
    g.untouched()


@harness
def two_in_a_row(h):
    """two disturbing datagrams one after the other"""
    w = Watch(h)
    for i in range(2):
        k = h.choice("kind%d" % i, [0, 1, 2, 3])
        f0 = h.int("f%d" % i, 0, 255)
        w.deliver([b"", bytes([0x23, 0x02, f0]), bytes([0x23, 0x02, f0, EXT, w.seq, 0, 0, 9]),
                   bytes([0x23, 0x02, f0, CMD, w.seq, 0, 0, 0x6C, 0x01, 1, 9, 1])][k])
    w.untouched()


@harness(params=["unsolicited", "main", "node"], fuzz=2, kind="bounded", time=120,
         note="one sample of each command of the library, cut at every length")
def whole_stack(h, way):
    """the gateway with an application of nodes of all classes and a mailbox: every command, cut off anywhere"""
    net = Network(h, [1, 2])
    classes = sorted(set(hid >> 8 for hid, _, _ in LAYOUTS) | {0x25, 0x31, 0x59, 0x70})
    net.answers[(0x52, 0x03)] = lambda s, tr: bytes([0x52, 0x04, s.cmd[2], 0, 0x80, 0, 0, 4, 0x10, 1]) + bytes(classes)
    prime(h)
    gw = h.get("pyzwave.zipgateway:ZIPGateway")("::1", b"\x12\x34")
    app = h.get("pyzwave.application:Application")(gw, Recorder("nodeUpdated"))
    h.get("pyzwave.mailbox:MailboxService")(gw)
    for coro in (gw.connect(), app.startup(), gw.sendToNode(2, h.get(CC + "Basic:Get")())):
        h.loop.finish(h.spawn(coro))
    h.check("there is a node", "2:0" in app.nodes)
    tr = [t for t in net.transports if (t.local is not None) == (way == "unsolicited")]
    tr = tr[0] if way == "main" else tr[-1]
    before = len(h.loop.errors) + len(task_errors(h))
    rec = Recorder("onMessageReceived", "messageReceived")
    gw.addListener(rec)
    for hid, name, fields in LAYOUTS[:4] if h.symbolic else LAYOUTS:
        data = wire(h, hid, fields, values(h, fields), True)
        if (hid >> 8) == 0x34 or (hid >> 8) == 0x52:
            data = data[:2] + bytes([7]) + data[3:]  # not one of its own nodes, that it would leave out from then on
        for n in range(min(len(data), 40) + 1):
            for supervised in (False, True):
                cmd = data[:n]
                if supervised:
                    cmd = b"\x6c\x01\x03" + bytes([n]) + cmd
                e, _ = h.catch(tr.deliver, zip_packet(n, cmd, ACKREQ, 0, 0), (ip_text(2), 4123, 0, 0))
                h.check("no exception reaches the event loop", e is None, (name, cmd))
                h.loop.settle()
                h.check("no exception in any task", len(h.loop.errors) + len(task_errors(h)) == before,
                        (name, cmd, h.loop.errors, task_errors(h)))
        h.loop.advance(200)
        h.check("no exception later", len(h.loop.errors) + len(task_errors(h)) == before,
                (name, h.loop.errors, task_errors(h)))
    rec.calls.clear()
    tr.deliver(zip_packet(9, b"\x25\x03\xff", 0, 0, 0), (ip_text(2), 4123, 0, 0))
    h.loop.settle()
    h.check("a following packet is delivered", len(rec.calls) >= 1)
