"""C31: endpoints share their node's identity but are addressed on their own."""
import asyncio

from hlib import prime, gateway, connection, havoc_seq, zip_packet, StubAdapter, Recorder, Sent, sent, commands, ip_text, task_errors
from pyvc.api import harness

N = "pyzwave.node:"
CC = "pyzwave.commandclass."
FUNCTIONS = [N + "Node." + f for f in ("send", "sendAndReceive", "nodeId", "rootNodeId", "endpoint")] + \
    [N + "NodeEndPoint." + f for f in ("__init__", "basicDeviceClass", "flirs", "isFailed", "listening", "parent")] + \
    [CC + "CommandClass:CommandClass.send", CC + "CommandClass:CommandClass.sendAndReceive"]
ASSUMPTIONS = ["whole second timeouts", "endpoints are attached to nodes (not to other endpoints), as the protocol has it"]
# switch binary, notification, association, an unknown one
CLASSES = [0x25, 0x71, 0x85, 0xFE]


class World:
    def __init__(self, h, root=None):
        prime(h)
        self.h = h
        self.a = StubAdapter(h)
        self.nid = h.int("node", 1, 232) if root is None else root
        self.node = h.get(N + "Node")(self.nid, self.a, list(CLASSES))

    def end(self, ep, classes=CLASSES):
        return self.h.get(N + "NodeEndPoint")(self.node, ep, self.a, list(classes))

    def cmd(self, v):
        return self.h.get(CC + "SwitchBinary:Set")(value=v)


def party(h, w):
    """the node, or an endpoint of it, made in either order; and its number"""
    which = h.choice("which", ["node", "endpoint", "node of an endpoint", "one of two"])
    if which == "node":
        return w.node, 0
    ep = h.int("endpoint", 1, 127)
    e = w.end(ep)
    if which == "node of an endpoint":
        return w.node, 0
    if which == "one of two":
        other = h.int("other", 1, 127)
        w.end(other)
    return e, ep


@harness(functions=[N + "Node.send", N + "Node.nodeId", N + "Node.rootNodeId", N + "Node.endpoint", N + "NodeEndPoint.__init__"])
def send(h):
    w = World(h)
    n, ep = party(h, w)
    h.check("its node", n.rootNodeId == w.nid)
    h.check("its number", n.endpoint == ep)
    cmd = w.cmd(h.int("value", 0, 255))
    w.a.result = h.choice("result", [True, False, OSError("x")])
    timed = h.flag("timed")
    secs = h.int("timeout", 0, 3600)
    t = h.spawn(n.send(cmd, timeout=secs) if timed else n.send(cmd))
    h.loop.finish(t)
    st, val = h.outcome(t)
    if isinstance(w.a.result, OSError):
        h.check("what the adapter raises", st == "error" and val is w.a.result)
    else:
        h.check("what the adapter says", st == "ok" and val is w.a.result)
    h.check("sent once", len(w.a.sends) == 1)
    to, what, kw = w.a.sends[0]
    h.check("to the node", to == w.nid)
    h.check("the command itself", what is cmd)
    h.check("to the endpoint", kw.get("destEP", 0) == ep)
    h.check("from the controller itself", kw.get("sourceEP", 0) == 0)
    h.check("with the timeout given", kw.get("timeout", 3) == (secs if timed else 3))


@harness(params=["node", "class", "node kw"], functions=[N + "Node.sendAndReceive", CC + "CommandClass:CommandClass.send",
                                                     CC + "CommandClass:CommandClass.sendAndReceive"])
def ask(h, by):
    """questions, and what the classes of the node send, go the same way"""
    w = World(h, 9)
    n, ep = party(h, w)
    get, report = h.get(CC + "SwitchBinary:Get"), h.get(CC + "SwitchBinary:Report")
    secs = h.int("timeout", 1, 60)
    if by == "class":
        cc = n.supported[0x25]
        t = h.spawn(cc.send(get(), timeout=secs))
        h.loop.finish(t)
        h.check("to the endpoint, with the timeout", len(w.a.sends) == 1 and w.a.sends[0][2].get("destEP", 0) == ep and
                h.all(w.a.sends[0][0] == 9, w.a.sends[0][2].get("timeout", 3) == secs))
        t = h.spawn(cc.sendAndReceive(get(), report, timeout=secs))
    elif by == "node":
        t = h.spawn(n.sendAndReceive(get(), report, timeout=secs))
    else:
        t = h.spawn(n.sendAndReceive(get(), report, secs))
    h.loop.settle()
    h.check("asked once", len(w.a.sends) == (2 if by == "class" else 1))
    to, what, kw = w.a.sends[-1]
    h.check("of the node and endpoint", h.all(to == 9, kw.get("destEP", 0) == ep, kw.get("sourceEP", 0) == 0))
    h.check("waits", not t.done())
    h.loop.advance(secs - 1)
    h.check("as long as said", not t.done())
    h.loop.advance(1)
    h.loop.settle()
    st, val = h.outcome(t)
    h.check("not longer", st == "error" and isinstance(val, asyncio.TimeoutError))


@harness(params=[(5, 0), (5, None), (232, 0), (232, None)], functions=[N + "Node.send"])
def datagram(h, p):
    """as it leaves: in a packet to the endpoint, over the connection to the node"""
    nid, ep = p
    gw, net = gateway(h)
    node = h.get(N + "Node")(nid, gw, [0x25])
    n = node
    if ep is None:
        ep = h.int("endpoint", 1, 127)
        n = h.get(N + "NodeEndPoint")(node, ep, gw, [0x25])
    v = h.int("value", 0, 255)
    k = len(net.transports)
    t = h.spawn(n.send(h.get(CC + "SwitchBinary:Set")(value=v)))
    h.loop.finish(t)
    h.check("taken", h.outcome(t) == ("ok", True))
    h.check("one new connection, to the node", len(net.transports) == k + 1 and net.transports[k].remote[0] == ip_text(nid))
    s = [x for x in sent(net.transports[k]) if x.zip]
    h.check("one packet", len(s) == 1)
    h.check("of the command", s[0].cmd == bytes([0x25, 0x01, v]))
    h.check("from endpoint 0", s[0].src == 0)
    h.check("to the endpoint", s[0].dst == ep)
    # and the answer is waited for as long as said
    net.noack = lambda s, tr: True
    secs = h.int("timeout", 1, 60)
    t = h.spawn(n.send(h.get(CC + "SwitchBinary:Set")(value=v), timeout=secs))
    h.loop.settle()
    h.loop.advance(secs - 1)
    h.check("waited for the acknowledgement", not t.done())
    h.loop.advance(1)
    h.loop.settle()
    h.check("no longer than said", h.outcome(t) == ("ok", False))


FIELDS = [("basicDeviceClass", 0, 255), ("flirs", None, None), ("isFailed", None, None), ("listening", None, None)]


def value(h, tag, lo, hi):
    return h.bool(tag) if lo is None else h.int(tag, lo, hi)


@harness(functions=[N + "NodeEndPoint." + f for f in ("basicDeviceClass", "flirs", "isFailed", "listening", "parent")])
def follows(h):
    """the information of the node, as it is at any time, the endpoint being made at any time"""
    w = World(h, 9)
    early = w.end(h.int("early", 1, 127))
    for f, lo, hi in FIELDS:
        h.check("as a new node", h.any(h.all(getattr(early, f), getattr(w.node, f)), h.no(h.any(getattr(early, f), getattr(w.node, f)))), (f,))
    late = None
    for step in range(3):
        for f, lo, hi in FIELDS:
            v = value(h, "%s%d" % (f, step), lo, hi)
            setattr(w.node, f, v)
            for e in (early, late):
                if e is not None:
                    h.check("the current value of the node", getattr(e, f) == v, (f, step))
        if late is None:
            late = w.end(h.int("late", 1, 127))
        for e in (early, late):
            for f, lo, hi in FIELDS:
                h.check("each of its own", getattr(e, f) == getattr(w.node, f), (f, step))
    h.check("its parent", early.parent is w.node and late.parent is w.node)


@harness(functions=[N + "NodeEndPoint.__init__"])
def classes(h):
    """classes of its own: those it has been given"""
    w = World(h, 9)
    one, two = w.end(1, [0x25, 0x31]), w.end(2)
    h.check("the node's", list(w.node.supported.keys()) == CLASSES)
    h.check("the endpoint's", list(one.supported.keys()) == [0x25, 0x31])
    h.check("supports its own only", one.supports(0x31) and not one.supports(0x85) and not w.node.supports(0x31))
    for a, b in ((w.node, one), (w.node, two), (one, two)):
        h.check("not shared", a.supported is not b.supported)
        for c in CLASSES:
            if a.supports(c) and b.supports(c):
                h.check("an object of each", a.supported[c] is not b.supported[c], (c,))
    for n in (w.node, one, two):
        for c in n.supported.values():
            h.check("belonging to it", c.node is n)
    # generic and specific class of its own
    g = [h.int("generic%d" % i, 0, 255) for i in range(3)]
    s = [h.int("specific%d" % i, 0, 255) for i in range(3)]
    order = [0, 1, 2] if h.flag("forth") else [2, 1, 0]
    three = (w.node, one, two)
    for i in order:
        three[i].genericDeviceClass = g[i]
        three[i].specificDeviceClass = s[i]
    for i in range(3):
        h.check("its own device class", h.all(three[i].genericDeviceClass == g[i], three[i].specificDeviceClass == s[i]))
    # what one is told stays with it
    v = [h.int("version%d" % i, 1, 255) for i in range(3)]
    for i in order:
        three[i].supported[0x25].__setstate__({"version": v[i], "interviewed": i == 1})
    for i in range(3):
        c = three[i].supported[0x25]
        h.check("its own version", c.version == v[i])
        h.check("interviewed on its own", c.interviewed is (i == 1))


@harness(params=[0, 1, 2], functions=[N + "Node.sendAndReceive", N + "NodeEndPoint.__init__"])
def waiters(h, at):
    """a report is only for who it came from"""
    w = World(h, 9)
    three = [w.node, w.end(1), w.end(2)]
    recs = [Recorder("nodeUpdated", "onMessage") for _ in three]
    heard = [Recorder("onReport", onReport=None) for _ in three]
    for n, r, c in zip(three, recs, heard):
        n.addListener(r)
        n.supported[0x25].addListener(c)
    get, report = h.get(CC + "SwitchBinary:Get"), h.get(CC + "SwitchBinary:Report")
    ts = [h.spawn(n.sendAndReceive(get(), report, timeout=5)) for n in three]
    h.loop.settle()
    h.check("each asks its own", [k.get("destEP", 0) for _, _, k in w.a.sends] == [0, 1, 2])
    v = h.int("value", 0, 255)
    msg = h.get("pyzwave.message:Message").decode(bytes([0x25, 0x03, v]))
    h.run(three[at].handleMessage(msg, 0))
    h.loop.settle()
    for i in range(3):
        st, val = h.outcome(ts[i])
        if i == at:
            h.check("answered", st == "ok" and val is msg)
        else:
            h.check("still waiting", st == "pending")
        h.check("heard by its own listeners", len(heard[i].calls) == (1 if i == at else 0), (i,))
    three[at].supported[0x25].speak("commandClassUpdated")
    for i in range(3):
        h.check("told to its own listeners", len(recs[i].named("nodeUpdated")) == (1 if i == at else 0), (i,))
    with three[at].storageLock():
        for n in three:
            n.commandClassUpdated(None)
        for i in range(3):
            h.check("locked on its own", len(recs[i].named("nodeUpdated")) == ((1 if i == at else 0) + (0 if i == at else 1)), (i,))
    h.check("told after", [len(r.named("nodeUpdated")) for r in recs] == [2 if i == at else 1 for i in range(3)])
    h.loop.advance(5)
    h.loop.settle()
    for i in range(3):
        if i != at:
            h.check("no answer of its own", isinstance(h.outcome(ts[i])[1], asyncio.TimeoutError))


def digits(x):
    return str(x) if isinstance(x, int) else "%d" % x


@harness(functions=[N + "Node.nodeId"])
def text(h):
    w = World(h)
    n, ep = party(h, w)
    h.check("node:endpoint", n.nodeId == "%d:%d" % (w.nid, ep))
    other, oe = h.int("other node", 1, 232), h.int("other endpoint", 0, 127)
    m = h.get(N + "Node")(other, w.a, [])
    if oe > 0:
        m = h.get(N + "NodeEndPoint")(m, oe, w.a, [])
    h.check("the same only if node and endpoint are", h.iff(n.nodeId == m.nodeId, h.all(w.nid == other, ep == oe)))


@harness(functions=[N + "Node.nodeId", N + "Node.endpoint", N + "Node.send"])
def renumbered(h):
    """the text and the address follow the number of the endpoint"""
    w = World(h)
    n, ep = party(h, w)
    h.check("node:endpoint", n.nodeId == "%d:%d" % (w.nid, ep))
    h.check("sent", h.run(n.send(w.cmd(1))) is True)
    new = h.int("new number", 0, 127)
    n.endpoint = new
    h.check("its number", n.endpoint == new)
    h.check("node:endpoint as it is now", n.nodeId == "%d:%d" % (w.nid, new))
    h.check("its node", n.rootNodeId == w.nid)
    h.check("sent again", h.run(n.send(w.cmd(2))) is True)
    h.check("to the endpoint as it was and is", [k.get("destEP", 0) for _, _, k in w.a.sends] == [ep, new])


@harness(params=list(range(0, 233, 29)), fuzz=1, functions=[N + "Node.nodeId"])
def texts(h, base):
    """written out, for samples; text() is about them all"""
    w = World(h, base or 1)
    h.check("the node", w.node.nodeId == str(base or 1) + ":" + "0")
    for ep in (1, 9, 10, 127):
        h.check("its endpoints", w.end(ep).nodeId == str(base or 1) + ":" + str(ep))
