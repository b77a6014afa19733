"""C22: network management requests are numbered, answered and time out cleanly."""
from hlib import gateway, Network, commands, zip_packet, zip_ack, mask, havoc_seq
from pyvc.api import harness

NMP = "pyzwave.commandclass.NetworkManagementProxy:"
NMI = "pyzwave.commandclass.NetworkManagementInclusion:"
G = "pyzwave.zipgateway:ZIPGateway."
FUNCTIONS = [G + n for n in ("addNode", "addNodeDSKSet", "addNodeKeysSet", "addNodeStop", "removeNode", "removeNodeStop",
                             "getFailedNodeList", "getMultiChannelEndPoints", "getMultiChannelCapability", "getNodeInfo",
                             "getNodeList", "removeFailedNode")]
ASSUMPTIONS = ["arguments are within the range of their field (node ids and flags a byte, end points 7 bits)",
               "asyncio's wait_for and timers behave as documented (the installed asyncio runs on a virtual clock)"]

# (every list is decoded exactly by C28)
LISTS = [[], [1], [232], [1, 2, 8, 9, 100, 232], list(range(1, 233))]
# the commands without a report, and those with one (with the timeout for it)
PLAIN = ["addNode", "addNodeDSKSet", "addNodeKeysSet", "addNodeStop", "removeNode", "removeNodeStop"]
ASKING = {"getFailedNodeList": 3, "getMultiChannelEndPoints": 3, "getMultiChannelCapability": 3, "getNodeInfo": 3,
          "removeFailedNode": 10, "getNodeList": 3}
EVERY = PLAIN + sorted(ASKING)


class World:
    def __init__(self, h, known=True):
        self.h = h
        self.net = Network(h, (1, 2))
        if not known:
            # the gateway does not tell its list at start-up
            self.net.answers[(0x52, 0x01)] = lambda s, tr: None
        self.gw, self.net = gateway(h, self.net)
        havoc_seq(h, self.gw)
        self.net.mute = True
        self.tr = self.net.transports[0]
        self.n = len(self.tr.sent)

    def next(self):
        """the command that has just left"""
        got = commands(self.tr, self.n)
        self.h.check("one command leaves", len(got) == 1)
        self.n = len(self.tr.sent)
        return got[0]

    def nothing(self):
        self.h.check("nothing else leaves", len(commands(self.tr, self.n)) == 0)

    def ack(self, s):
        self.tr.deliver(zip_ack(s.seq))
        self.h.loop.settle()

    def report(self, data, seq=0x77):
        self.tr.deliver(zip_packet(seq, data))
        self.h.loop.settle()


def call(h, w, name, tag=""):
    """make the request: its coroutine, the bytes before and after the number, and what is needed for the report"""
    gw = w.gw
    if name == "addNode":
        tx = h.int(tag + "tx", 0, 255)
        return gw.addNode(tx), b"\x34\x01", bytes([0, 7, tx])
    if name == "addNodeStop":
        return gw.addNodeStop(), b"\x34\x01", bytes([0, 5, 0])
    if name == "removeNode":
        return gw.removeNode(), b"\x34\x03", bytes([0, 1])
    if name == "removeNodeStop":
        return gw.removeNodeStop(), b"\x34\x03", bytes([0, 5])
    if name == "addNodeDSKSet":
        accept, n = h.bool(tag + "accept"), h.int(tag + "n", 0, 15)
        dsk = h.bytes(tag + "dsk", 16) if h.flag(tag + "key") else b""
        return gw.addNodeDSKSet(accept, n, dsk), b"\x34\x14", bytes([h.ite(accept, 0x80, 0) + n]) + dsk
    if name == "addNodeKeysSet":
        csa, accept, keys = h.bool(tag + "csa"), h.bool(tag + "accept"), h.int(tag + "keys", 0, 255)
        return gw.addNodeKeysSet(csa, accept, keys), b"\x34\x12", bytes([h.ite(csa, 2, 0) + h.ite(accept, 1, 0), keys])
    if name == "getFailedNodeList":
        return gw.getFailedNodeList(), b"\x52\x0b", b""
    if name == "getNodeList":
        return gw.getNodeList(), b"\x52\x01", b""
    node = h.int(tag + "node", 0, 255)
    if name == "getMultiChannelEndPoints":
        return gw.getMultiChannelEndPoints(node), b"\x52\x05", bytes([node])
    if name == "getMultiChannelCapability":
        ep = h.int(tag + "ep", 0, 127)
        return gw.getMultiChannelCapability(node, ep), b"\x52\x07", bytes([node, ep])
    if name == "getNodeInfo":
        return gw.getNodeInfo(node), b"\x52\x03", bytes([15, node])
    if name == "removeFailedNode":
        return gw.removeFailedNode(node), b"\x34\x07", bytes([node])
    raise KeyError(name)


def start(h, w, name, tag=""):
    """the request is made, and the command judged; its task, packet and number"""
    coro, head, rest = call(h, w, name, tag)
    t = h.spawn(coro)
    h.loop.settle()
    h.check("is waiting", not t.done())
    s = w.next()
    h.check("the length of the command", len(s.cmd) == 3 + len(rest))
    h.check("the command", s.cmd[:2] == head)
    h.check("its fields", s.cmd[3:] == rest)
    h.check("to the controller itself", h.all(s.src == 0, s.dst == 0))
    return t, s, s.cmd[2]


def empty(h, name, got):
    """what a request without a report returns"""
    if name in PLAIN:
        h.check("fails", got is False)
    elif name in ("getFailedNodeList", "getNodeList"):
        h.check("no nodes", len(got) == 0)
    elif name == "getMultiChannelEndPoints":
        h.check("no end points", got == 0)
    elif name == "removeFailedNode":
        h.check("failed", got == 2)
    else:
        cls = h.get(NMP + {"getNodeInfo": "NodeInfoCachedReport", "getMultiChannelCapability": "MultiChannelCapabilityReport"}[name])
        h.check("an empty report", isinstance(got, cls))
        h.check("without command classes", len(got.commandClass or b"") == 0)
        h.check("without device classes", h.all(h.no(got.genericDeviceClass), h.no(got.specificDeviceClass)))


def done(h, t):
    st, val = h.outcome(t)
    h.check("returns, and raises nothing", st == "ok", (st, val))
    return val


# ------------------------------------------------------------------ numbering

@harness(params=[(a, b) for a in EVERY for b in EVERY if (EVERY.index(a) + EVERY.index(b)) % 3 == 0 or a == b], fuzz=2)
def numbered(h, p):
    """from any counter value: the numbers of two requests of any kinds are consecutive"""
    a, b = p
    w = World(h, known=False)
    t, s, n1 = start(h, w, a, "a ")
    t.cancel()
    h.loop.settle()
    w.nothing()
    t, s, n2 = start(h, w, b, "b ")
    h.check("the next number, in one byte", n2 == (n1 + 1) % 256)
    t.cancel()
    h.loop.settle()


@harness(params=["one kind", "mixed"], fuzz=1, kind="bounded", note="three hundred requests in a row", time=90)
def wraps(h, how):
    """the counter goes round"""
    w = World(h, known=False)
    last = None
    for i in range(300):
        name = "getFailedNodeList" if how == "one kind" else ["addNodeStop", "removeNode", "getFailedNodeList"][i % 3]
        t, s, n = start(h, w, name)
        w.ack(s)
        if name == "getFailedNodeList":
            w.report(bytes([0x52, 0x0C, 0]) + mask([2]))
        h.check("completes", t.done())
        if last is not None:
            h.check("the next number", n == (last + 1) % 256)
        last = n


# ------------------------------------------------------------------ commands without a report

@harness(params=PLAIN, fuzz=10)
def plain(h, name):
    """the controller acknowledges the command, or not"""
    w = World(h)
    acked = h.flag("acked")
    t, s, n = start(h, w, name)
    if acked:
        h.loop.advance(h.choice("later", [0, 1, 2.9]))
        w.ack(s)
        h.check("is done when the controller has it", t.done())
        h.check("succeeds", done(h, t) is True)
    else:
        h.loop.advance(2.9)
        h.check("still waiting", not t.done())
        h.loop.advance(0.2)
        h.check("ends after the timeout", t.done())
        empty(h, name, done(h, t))
    w.nothing()


# ------------------------------------------------------------------ requests

def answer(h, name, seq, some=False, tag=""):
    """an arbitrary report of the controller (or `some`: one of two), and a judge of the result"""
    if some:
        k = h.flag(tag + "report")
        num, of = (lambda n, lo, hi: hi if k else lo), (lambda n, xs: xs[3 if k else 0])
        data = lambda n, lo, hi: bytes(range(3)) if k else b""
    else:
        num = lambda n, lo, hi: h.int(tag + n, lo, hi)
        of = lambda n, xs: h.choice(tag + n, xs)
        data = lambda n, lo, hi: h.bytes(tag + n, lo, hi)
    if name == "getFailedNodeList":
        nodes = of("nodes", LISTS)
        return bytes([0x52, 0x0C, seq]) + mask(nodes), lambda got: h.check("exactly the listed nodes", set(got) == set(nodes))
    if name == "getNodeList":
        nodes, controller = of("nodes", LISTS), num("controller", 1, 232)
        return (bytes([0x52, 0x02, seq, 0, controller]) + mask(nodes),
                lambda got: h.check("exactly the listed nodes", set(got) == set(nodes)))
    if name == "getMultiChannelEndPoints":
        a, b, res, node = num("individual", 0, 255), num("aggregated", 0, 255), num("res", 0, 255), num("of", 0, 255)
        return bytes([0x52, 0x06, seq, node, res, a, b]), lambda got: h.check("the end points", got == a % 128 + b % 128)
    if name == "getMultiChannelCapability":
        f = [num("f%d" % i, 0, 255) for i in range(5)]
        cc = data("cc", 0, 40)

        def judge(got):
            h.check("the node", got.nodeID == f[0])
            h.check("the end point", got.endPoint == f[2] % 128)
            h.check("the device classes", h.all(got.genericDeviceClass == f[3], got.specificDeviceClass == f[4]))
            h.check("the command classes", bytes(got.commandClass) == cc)
        return bytes([0x52, 0x08, seq] + f) + cc, judge
    if name == "getNodeInfo":
        f = [num("f%d" % i, 0, 255) for i in range(7)]
        cc = data("cc", 0, 40)

        def judge(got):
            h.check("status", got.status == f[0] // 16)
            h.check("age", got.age == f[0] % 16)
            h.check("listening", h.iff(got.listening, f[1] >= 128))
            h.check("optional functions", h.iff(got.optFunc, f[2] >= 128))
            h.check("the device classes", h.all(got.basicDeviceClass == f[4], got.genericDeviceClass == f[5],
                                                got.specificDeviceClass == f[6]))
            h.check("the command classes", bytes(got.commandClass) == cc)
        return bytes([0x52, 0x04, seq] + f) + cc, judge
    if name == "removeFailedNode":
        status, node = num("status", 0, 255), num("of", 0, 255)
        return bytes([0x34, 0x08, seq, status, node]), lambda got: h.check("the status", got == status)
    raise KeyError(name)


@harness(params=[(n, o) for n in sorted(ASKING) for o in ("ack first", "report first", "report only", "late")], fuzz=10)
def answered(h, p):
    """the result is what the report says"""
    name, order = p
    w = World(h, known=False)
    t, s, n = start(h, w, name)
    data, judge = answer(h, name, n)
    if order == "ack first":
        w.ack(s)
        w.report(data)
    elif order == "report first":
        w.report(data)
        w.ack(s)
    elif order == "report only":
        # the acknowledgement is lost
        w.report(data)
        h.loop.advance(3.1)
    else:
        h.loop.advance(2.5)
        w.ack(s)
        h.loop.advance(ASKING[name] - 0.5)
        w.report(data)
    h.check("is done", t.done())
    judge(done(h, t))
    w.nothing()


@harness(params=[(n, k) for n in sorted(ASKING) if n != "getNodeList" for k in ("same", "another")], fuzz=6)
def again(h, p):
    """requests in a row, about the same or about something else: each is made, and its result is what its report says"""
    name, k = p
    w = World(h, known=False)
    t, s, n1 = start(h, w, name, "a ")
    data, judge = answer(h, name, n1, some=True, tag="1 ")
    w.ack(s)
    w.report(data)
    judge(done(h, t))
    w.nothing()
    if h.flag("later"):
        h.loop.advance(10)
        w.n = len(w.tr.sent)
    t, s, n2 = start(h, w, name, "a " if k == "same" else "b ")
    h.check("with the next number", n2 == (n1 + 1) % 256)
    data, judge = answer(h, name, n2, some=True, tag="2 ")
    w.ack(s)
    w.report(data)
    judge(done(h, t))
    w.nothing()


@harness(params=[(n, a) for n in sorted(ASKING) for a in (True, False)], fuzz=5)
def unanswered(h, p):
    """no report: the empty result when the timeout has passed"""
    name, acked = p
    w = World(h, known=False)
    t, s, n = start(h, w, name)
    if acked:
        h.loop.advance(h.choice("later", [0, 2]))
        w.ack(s)
    h.loop.advance(ASKING[name] - 0.1)
    h.check("still waiting", not t.done())
    h.loop.advance(0.2 if acked else 3.2)
    h.check("ends after the timeout", t.done())
    empty(h, name, done(h, t))
    w.nothing()
    # what arrives later belongs to nobody, and the next request is answered
    data, judge = answer(h, name, n, some=True)
    if name != "getNodeList":
        w.report(data)
    t, s, n2 = start(h, w, name, "again ")
    h.check("with the next number", n2 == (n + 1) % 256)
    w.ack(s)
    w.report(data)
    judge(done(h, t))


OTHERS = {"other report": b"\x52\x02\x00\x00\x01" + bytes(29), "keep alive": None, "switch": b"\x25\x03\xff",
          "unknown": b"\xf3\x01\x02", "status": b"\x34\x04\x00\x06\x05", "itself": None}


@harness(params=[(n, o) for n in sorted(ASKING) for o in sorted(OTHERS) if (n, o) != ("getNodeList", "other report")], fuzz=2)
def other_messages(h, p):
    """other messages complete no request"""
    name, other = p
    w = World(h, known=False)
    t, s, n = start(h, w, name)
    w.ack(s)
    if other == "keep alive":
        w.tr.deliver(b"\x23\x03\x40")
        h.loop.settle()
    elif other == "itself":
        # the request reflected
        w.report(s.cmd)
    else:
        w.report(OTHERS[other])
    h.check("still waiting", not t.done())
    data, judge = answer(h, name, n, some=True)
    w.report(data)
    judge(done(h, t))


CUT = {"getFailedNodeList": [2, 3], "getMultiChannelEndPoints": [2, 3, 4, 5, 6], "getMultiChannelCapability": list(range(2, 8)),
       "getNodeInfo": [2, 3, 4, 5, 6, 7, 8, 9], "getNodeList": [2, 3, 4, 5]}


@harness(params=[(n, c) for n in sorted(CUT) for c in CUT[n]], fuzz=3)
def cut_off(h, p):
    """a report that ends before its last fields raises nothing"""
    name, cut = p
    w = World(h, known=False)
    t, s, n = start(h, w, name)
    w.ack(s)
    data, judge = answer(h, name, n)
    w.report(data[:cut])
    h.check("is done", t.done())
    got = done(h, t)
    if name in ("getFailedNodeList", "getNodeList"):
        h.check("no nodes", len(got) == 0)
    elif name == "getMultiChannelEndPoints":
        h.check("those reported", got == (data[5] % 128 if cut == 6 else 0))
    else:
        h.check("without command classes", len(got.commandClass or b"") == 0)


@harness(params=[(a, b) for a in ("getFailedNodeList", "getNodeInfo", "removeFailedNode") for b in
                 ("getMultiChannelEndPoints", "getMultiChannelCapability", "addNode")], fuzz=5)
def at_once(h, p):
    """two requests at the same time have different numbers and get their own results"""
    a, b = p
    w = World(h)
    t1, s1, n1 = start(h, w, a, "a ")
    t2, s2, n2 = start(h, w, b, "b ")
    h.check("different numbers", n2 == (n1 + 1) % 256)
    d1, judge1 = answer(h, a, n1, some=True)
    order = h.choice("order", ["1122", "1212", "2211", "2121"])
    seen = []
    for c in order:
        first = c not in seen
        seen.append(c)
        if first:
            w.ack(s1 if c == "1" else s2)
        elif c == "1":
            w.report(d1)
        elif b != "addNode":
            d2, judge2 = answer(h, b, n2, some=True) if b != a else (None, None)
            w.report(d2)
            judge2(done(h, t2))
    judge1(done(h, t1))
    if b == "addNode":
        h.check("succeeds", done(h, t2) is True)
