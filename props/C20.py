"""C20: unsolicited reports are acknowledged and delivered to the right node."""
from hlib import (gateway, Network, Recorder, Sent, zip_packet, ip_text, ip_of, node_list_report, advertisement, task_errors,
                  ACKREQ, ACKRESP, CMD, EXT, SECURE, MORE, NACK)
from pyvc.api import LoopContract, harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.zipgateway:ZIPGateway.onUnsolicitedMessage", "pyzwave.commandclass.Zip:ZipPacket.response",
             "pyzwave.connection:Connection.sendTo", "pyzwave.connection:Connection._msgReceived"]
ASSUMPTIONS = ["ipaddress.IPv6Address compares addresses, however they are written (source addresses are samples)",
               "node list reports are the subject of C21"]


class World:
    """a gateway with some nodes and a listener"""

    def __init__(self, h, nodes=(1, 2, 3, 232), no_address=()):
        self.h = h
        net = Network(h, nodes)
        net.no_address = set(no_address)
        self.gw, self.net = gateway(h, net)
        self.us = [t for t in net.transports if t.local is not None][0]
        self.rec = Recorder("messageReceived", "onMessageReceived")
        self.gw.addListener(self.rec)
        self.n0 = [len(t.sent) for t in net.transports]

    def deliver(self, data, addr):
        self.us.deliver(data, addr)
        self.h.loop.settle()

    def quiet(self):
        self.h.check("nothing leaves any other socket", h_all(
            self.h, [len(t.sent) == n for t, n in zip(self.net.transports, self.n0) if t is not self.us]))
        self.h.check("nothing was raised in the event loop", len(self.h.loop.errors) == 0)

    def messages(self):
        return self.rec.named("messageReceived")


def h_all(h, xs):
    return h.all(*xs)


def addr_of(node, port):
    return (ip_text(node), port, 0, 0)


def judge_ack(h, w, wanted, seq, src, dst, addr, secure):
    h.check("exactly one acknowledgement if requested", len(w.us.sent) == (1 if wanted else 0))
    if wanted:
        data, to = w.us.sent[0]
        h.check("back to where it came from", tuple(to) == tuple(addr))
        h.check("a positive acknowledgement with its number, the endpoints exchanged",
                data == bytes([0x23, 0x02, ACKRESP, SECURE if secure else 0, seq, dst, src]))


@harness(params=[1, 2, 3, 232], fuzz=30)
def known(h, node):
    """a packet of a known node, with any number, endpoints, flags, port and command content"""
    w = World(h)
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    v = h.int("v", 0, 255)
    port = h.int("port", 1, 65535)
    ackreq, secure, more = h.flag("ackRequest"), h.flag("secure"), h.flag("more")
    addr = addr_of(node, port)
    data = zip_packet(seq, bytes([0x25, 0x03, v]), ACKREQ if ackreq else 0, src, dst,
                      flags1=CMD | (SECURE if secure else 0) | (MORE if more else 0))
    w.deliver(data, addr)
    judge_ack(h, w, ackreq, seq, src, dst, addr, secure)
    got = w.messages()
    h.check("delivered once", len(got) == 1)
    sender, nid, ep, msg = got[0][:4]
    h.check("by the gateway", sender is w.gw)
    h.check("to the node", nid == node)
    h.check("from its endpoint", ep == src)
    h.check("the command", msg.compose() == bytes([0x25, 0x03, v]))
    h.check("to nobody else", len(w.rec.named("onMessageReceived")) == 0)
    w.quiet()


class FindNode(LoopContract):
    """The loop over the known nodes.  With any nodes seen before, none of which has the address, a node with
    another address or none is passed over, doing nothing; the first one with the address ends the search."""

    name = "known nodes"
    found = None
    left = False

    def __init__(self, nodes, ip):
        self.nodes, self.ip = nodes, ip

    def attach(self, v, where, it):
        return self.found is None and not self.left and self.h.unknown_items(it) is self.nodes

    def element(self, v, it):
        h = self.h
        IP = h.get("ipaddress:IPv6Address")
        self.which = h.choice("address", ["same", "other", "none", "empty"])
        self.node = h.int("id", 1, 255)
        self.found = (self.node, {"same": {"ip": IP(self.ip)}, "other": {"ip": IP("fd00:bbbb::77")}, "none": {}, "empty": {"ip": None}}[self.which])
        return self.found

    def step(self, v):
        self.judge(False)

    def leave(self, v, it):
        self.left = True


@harness(params=["2001:db8::2", "::ffff:10.0.0.2"], fuzz=20)
def any_network(h, ip):
    """a packet from any address, any nodes being known"""
    w = World(h, (1,))
    seq, src, dst, port = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127), h.int("port", 1, 65535)
    v = h.int("v", 0, 255)
    ackreq = h.flag("ackRequest")
    addr = (ip, port, 0, 0)
    data = zip_packet(seq, bytes([0x25, 0x03, v]), ACKREQ if ackreq else 0, src, dst)
    if not h.symbolic:
        IP = h.get("ipaddress:IPv6Address")
        n = h.choice("nodes", list(range(0, 8)) + [231])
        at = h.choice("at", [None, 0, n - 1, n // 2])
        ids = list(range(2, n + 2))[::h.choice("order", [1, -1])]
        for i, k in enumerate(ids):
            w.gw._nodes[k] = h.choice("other%d" % (i % 5), [{}, {"ip": IP("fd00:bbbb::77")}])
        known = n > 0 and at is not None
        if known:
            w.gw._nodes[ids[at]] = {"ip": IP(ip)}
        w.deliver(data, addr)
        judge_ack(h, w, ackreq and known, seq, src, dst, addr, True)
        h.check("delivered", [(m[1], m[2]) for m in w.messages()] == ([(ids[at], src)] if known else []))
        return
    nodes = w.gw._nodes
    h.forget(nodes)

    def judge(known):
        judge_ack(h, w, ackreq and known, seq, src, dst, addr, True)
        got = w.messages()
        h.check("delivered once, if known", len(got) == (1 if known else 0))
        if known:
            h.check("to the node with the address", c.which == "same")
            h.check("to the node", h.all(got[0][1] == c.node, got[0][2] == src, got[0][3].compose() == bytes([0x25, 0x03, v])))
        else:
            h.check("not this node", c.left or c.which != "same")
        h.check("to nobody else", len(w.rec.named("onMessageReceived")) == 0)
        w.quiet()

    c = FindNode(nodes, ip)
    c.judge = judge
    h.cut(c)
    w.deliver(data, addr)
    if c.found is None and not c.left:
        h.unsupported("loop contract not attached")
    judge(not c.left)


@harness(params=[8, 64, 232], fuzz=1, kind="bounded", note="networks of 8, 64 and 232 nodes")
def every_node(h, n):
    """in a network of any size, every node"""
    n = min(n, 4) if h.symbolic else n
    w = World(h, tuple(range(1, n + 1)))
    for node in range(1, n + 1):
        k, m = len(w.us.sent), len(w.messages())
        addr = addr_of(node, 4000 + node)
        w.deliver(zip_packet(node, bytes([0x25, 0x03, node]), ACKREQ, node % 128), addr)
        h.check("acknowledged", h.all(len(w.us.sent) == k + 1, tuple(w.us.sent[-1][1]) == addr, w.us.sent[-1][0][4] == node), (node,))
        got = w.messages()[m:]
        h.check("delivered", len(got) == 1 and got[0][1] == node and got[0][2] == node % 128, (node,))
    w.quiet()


KINDS = ["fd00:bbbb::", "fd00:bbbb:0:1::100", "fe80::1234", "::ffff:10.0.0.2", "ff02::1", "::1", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff"]


@harness(params=KINDS, fuzz=3, kind="bounded", note="samples of kinds of addresses")
def kinds_of_addresses(h, ip):
    """a node with an address of any kind"""
    w = World(h)
    w.net.no_address = {9}
    w.us.deliver(zip_packet(9, node_list_report(9, [1, 2, 3, 9])), addr_of(1, 4123))
    h.loop.settle()
    w.net.transports[0].deliver(advertisement(9, h.get("ipaddress:IPv6Address")(ip).packed))
    h.loop.settle()
    h.loop.advance(20)
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    k = len(w.us.sent)
    w.us.deliver(zip_packet(seq, b"\x25\x03\x01", ACKREQ, src, dst), (ip, 4123, 0, 0))
    h.loop.settle()
    h.check("acknowledged", len(w.us.sent) == k + 1 and w.us.sent[-1][1][0] == ip)
    got = w.messages()
    h.check("delivered", len(got) == 1 and got[0][1] == 9 and got[0][2] == src)


@harness(params=["reserved bits", "flags", "extension", "unknown command", "no command", "sensor"], fuzz=30)
def contents(h, what):
    """packets with anything in them"""
    w = World(h)
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    x, y = h.int("x", 0, 255), h.int("y", 0, 255)
    ackreq = h.flag("ackRequest")
    flags0, flags1, ext, cmd = (ACKREQ if ackreq else 0), CMD | SECURE, None, bytes([0x25, 0x03, x])
    s, d = src, dst
    if what == "reserved bits":
        flags0 = flags0 | h.int("r0", 0, 3)
        flags1 = flags1 | h.int("r1", 0, 15)
        s, d = src | (h.int("rs", 0, 1) << 7), dst | (h.int("rd", 0, 1) << 7)
    elif what == "flags":
        # whatever else it says
        flags0 = flags0 | h.int("f0", 0, 127)
        flags1 = CMD | (MORE if h.flag("more") else 0) | SECURE
    elif what == "extension":
        flags1 |= EXT
        ext = h.choice("ext", [b"", bytes([0x84, 0x02]) + b"\x01\x02", bytes([0x7F, 1, 9]), bytes([1, 3, 0, 0, 5, 0x7F, 0])])
    elif what == "unknown command":
        h.assume(x != 0x03)
        cmd = bytes([0xEE, x, y])
    elif what == "no command":
        flags1, cmd = SECURE, b""
    else:
        cmd = bytes([0x31, 0x05, 1, 0x21, x])
    addr = addr_of(2, 4123)
    w.deliver(zip_packet(seq, cmd, flags0, s, d, ext, flags1), addr)
    judge_ack(h, w, ackreq, seq, src, dst, addr, True)
    got = w.messages()
    if what == "no command":
        h.check("nothing to deliver", len(got) == 0)
    else:
        h.check("delivered once", len(got) == 1)
        h.check("to the node and from its endpoint", h.all(got[0][1] == 2, got[0][2] == src))
        want = cmd
        if what == "unknown command":
            h.check("the command", got[0][3].hid() == (0xEE << 8 | x))
        elif what != "sensor":
            h.check("the command", got[0][3].compose() == want)
        if what == "extension":
            kinds = {b"": 0}.get(ext, None)
            h.check("with its extension", got[0][4] is not None and (kinds is None or len(got[0][4]) == kinds))
    w.quiet()


STRANGERS = ["fd00:bbbb::4", "fd00:bbbb::", "fd00:bbbb::20", "::1", "::", "fd00:bbbb:0:0:0:0:1:2", "::ffff:10.0.0.2",
             "fd00:bbbc::2", "::2", "::ffff:0:2", "fe80::1%eth0"]


@harness(params=["unknown", "unresolved", "removed", "no nodes"], fuzz=20)
def strangers(h, what):
    """packets from unknown addresses: not acknowledged, not delivered"""
    w = World(h, (1,) if what == "no nodes" else (1, 2, 3), (3,) if what == "unresolved" else ())
    if what == "removed":
        w.us.deliver(zip_packet(9, node_list_report(9, [1, 2])), addr_of(1, 4123))
        h.loop.advance(4)
        w.n0 = [len(t.sent) for t in w.net.transports]
        h.check("the report is not answered", len(w.us.sent) == 0)
    a = h.choice("from", STRANGERS if what == "unknown" else ["fd00:bbbb::2" if what == "no nodes" else "fd00:bbbb::3"])
    seq, src = h.int("seq", 0, 255), h.int("src", 0, 127)
    w.deliver(zip_packet(seq, b"\x25\x03\x01", ACKREQ, src), (a, h.int("port", 1, 65535), 0, 0))
    h.check("not acknowledged", len(w.us.sent) == 0)
    h.check("not delivered", len(w.rec.calls) == 0)
    w.quiet()


@harness(params=["canonical", "expanded", "upper case"], fuzz=5)
def written(h, how):
    """the same address, however it is written"""
    w = World(h)
    a = {"canonical": "fd00:bbbb::2", "expanded": "fd00:bbbb:0000:0:0:0:0:0002", "upper case": "FD00:BBBB::2"}[how]
    addr = (a, 4123, 0, 0)
    seq = h.int("seq", 0, 255)
    w.deliver(zip_packet(seq, b"\x25\x03\x01", ACKREQ), addr)
    judge_ack(h, w, True, seq, 0, 0, addr, True)
    h.check("delivered", [m[1] for m in w.messages()] == [2])


@harness(params=["same number", "two nodes", "repeated"], fuzz=20)
def several(h, what):
    """packets one after another: each is acknowledged and delivered for itself"""
    w = World(h)
    s1, e1, e2 = h.int("s1", 0, 255), h.int("e1", 0, 127), h.int("e2", 0, 127)
    s2 = s1 if what != "two nodes" else h.int("s2", 0, 255)
    n1, n2 = (2, 3) if what != "repeated" else (2, 2)
    v1, v2 = h.int("v1", 0, 255), h.int("v2", 0, 255)
    order = [(n1, s1, e1, v1), (n2, s2, e2, v2)]
    for n, s, e, v in order:
        w.deliver(zip_packet(s, bytes([0x20, 0x03, v]), ACKREQ, e), addr_of(n, 1000 + n))
    h.check("one acknowledgement each", len(w.us.sent) == 2)
    got = w.messages()
    h.check("delivered each", len(got) == 2)
    for i, (n, s, e, v) in enumerate(order):
        data, to = w.us.sent[i]
        h.check("its acknowledgement", h.all(tuple(to) == addr_of(n, 1000 + n), data == bytes([0x23, 0x02, ACKRESP, SECURE, s, 0, e])))
        h.check("its message", h.all(got[i][1] == n, got[i][2] == e, got[i][3].value == v))
    w.quiet()


@harness(params=["new node", "address kept"], fuzz=10)
def later_nodes(h, what):
    """a node that came with a later node list is known as well"""
    w = World(h, (1, 2))
    w.net.nodes = [1, 2, 7] if what == "new node" else [1, 2, 5]
    w.us.deliver(zip_packet(9, node_list_report(9, w.net.nodes)), addr_of(1, 4123))
    h.loop.advance(4)
    w.n0 = [len(t.sent) for t in w.net.transports]
    n = 7 if what == "new node" else 2
    seq, src, dst = h.int("seq", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    w.deliver(zip_packet(seq, b"\x25\x03\x01", ACKREQ, src, dst), addr_of(n, 4123))
    judge_ack(h, w, True, seq, src, dst, addr_of(n, 4123), True)
    h.check("delivered to it", [(m[1], m[2]) for m in w.messages()] == [(n, src)] or
            h.all(len(w.messages()) == 1, w.messages()[0][1] == n, w.messages()[0][2] == src))
    w.quiet()


@harness(params=["listener raises", "listener waits"], fuzz=10)
def listeners(h, what):
    """whatever listeners do, the packet is acknowledged once and at once"""
    w = World(h)

    class Bad:
        def messageReceived(self, *a):
            raise ValueError("x")

    class Slow:
        async def messageReceived(self, *a):
            import asyncio
            await asyncio.sleep(100)
    w.gw.addListener(Bad() if what == "listener raises" else Slow())
    rec = Recorder("messageReceived")
    w.gw.addListener(rec)
    seq = h.int("seq", 0, 255)
    w.deliver(zip_packet(seq, b"\x25\x03\x01", ACKREQ), addr_of(2, 4123))
    judge_ack(h, w, True, seq, 0, 0, addr_of(2, 4123), True)
    h.check("the others are told", len(rec.calls) == 1 and len(w.messages()) == 1)
    w.quiet()
