"""C24: messages reach the node or listener they are meant for."""
from hlib import prime, StubAdapter, Recorder, Network, gateway, zip_packet, ip_text, task_errors, ACKREQ
from pyvc.api import harness

A = "pyzwave.application:Application."
CC = "pyzwave.commandclass."
FUNCTIONS = [A + "messageReceived", A + "onMessageReceived"]
ASSUMPTIONS = ["the controller's own node id is no node's (C23)"]

NODES = {"2:0": (2, 0), "2:1": (2, 1), "2:11": (2, 11), "22:1": (22, 1), "21:0": (21, 0), "232:127": (232, 127)}


class World:
    """an application with nodes; what they and the listeners are told"""

    def __init__(self, h, controller=1, nodes=None):
        prime(h)
        self.h = h
        self.a = StubAdapter(h)
        self.a.nodeId = controller
        self.app = h.get("pyzwave.application:Application")(self.a, Recorder())
        Node, EP = h.get("pyzwave.node:Node"), h.get("pyzwave.node:NodeEndPoint")
        self.calls = []
        roots = {}
        for name, (nid, ep) in (NODES if nodes is None else nodes).items():
            if nid not in roots:
                roots[nid] = Node(nid, self.a, [0x25, 0x20])
            node = roots[nid] if ep == 0 else EP(roots[nid], ep, self.a, [0x25, 0x20])
            self.app.nodes[name] = node
            node.addListener(Told(self, name))
        self.answer = {}
        self.app.addListener(Told(self, "app"))


class Told:
    def __init__(self, w, name):
        self.w, self.name = w, name

    def _say(self, what, args):
        self.w.calls.append((self.name, what, args))
        return self.w.answer.get(what, False)

    def onMessage(self, sender, *args):
        return self._say("onMessage", args)

    def messageReceived(self, sender, *args):
        return self._say("messageReceived", args)

    def addNodeStatus(self, sender, *args):
        return self._say("addNodeStatus", args)

    def removeNodeStatus(self, sender, *args):
        return self._say("removeNodeStatus", args)

    def nodeRemoved(self, sender, *args):
        return self._say("nodeRemoved", args)

    def nodesRemoved(self, sender, *args):
        return self._say("nodesRemoved", args)


@harness(params=["handled", "unhandled", "waited for", "raising"], fuzz=60)
def node_message(h, how):
    """a message from any node and endpoint"""
    w = World(h)
    nid, ep, v = h.int("node", 2, 255), h.int("endpoint", 0, 127), h.int("v", 0, 255)
    if not h.symbolic and h.flag("known"):
        nid, ep = h.choice("which", list(NODES.values()))
    w.answer["onMessage"] = h.choice("answer", [True, 1, "yes"]) if how == "handled" else False
    msg = h.get(CC + "Basic:Report")(value=v)
    if how == "raising":
        class Bad:
            def onMessage(self, sender, message):
                raise RuntimeError("x")
        for n in w.app.nodes.values():
            n.addListener(Bad())
    sessions = []
    if how == "waited for":
        sessions = [(n, h.spawn(w.app.nodes[n].waitForMessage(h.get(CC + "Basic:Report"), timeout=60))) for n in list(NODES)]
        h.loop.settle()
    t = h.spawn(w.app.messageReceived(w.a, nid, ep, msg, 0))
    h.loop.settle()
    st, res = h.outcome(t)
    h.check("raises nothing", st == "ok", (st, res))
    # which of the nodes it is from, judged by its numbers
    known = None
    for name, (n, e) in NODES.items():
        if h.all(nid == n, ep == e):
            known = name
    if known is None:
        h.check("not handled", res is False)
        h.check("nobody is told", len(w.calls) == 0)
        h.check("no waiter gets it", len([1 for n, s in sessions if s.done()]) == 0)
        return
    h.check("the result tells whether it was handled", res is (how in ("handled", "waited for")))
    if how == "waited for":
        h.check("exactly its waiter gets it", [n for n, s in sessions if s.done()] == [known])
        h.check("the message", h.outcome([s for n, s in sessions if s.done()][0])[1] is msg)
        h.check("nobody else is told", len(w.calls) == 0)
    else:
        h.check("exactly its listener is told, once", [c[:2] for c in w.calls] == [(known, "onMessage")])
        h.check("the message", w.calls[0][2][0] is msg)


@harness(params=[0, 1, 5, 255], fuzz=30)
def controller_message(h, controller):
    """messages of the controller itself go to the listeners"""
    w = World(h, controller)
    ep, v = h.int("endpoint", 0, 127), h.int("v", 0, 255)
    w.answer["messageReceived"] = h.choice("answer", [True, False, None])
    msg = h.get(CC + "Basic:Report")(value=v)
    res = h.run(w.app.messageReceived(w.a, controller, ep, msg, 0))
    h.check("the listeners are told, once", [c[:2] for c in w.calls] == [("app", "messageReceived")])
    h.check("the message", w.calls[0][2][0] is msg)
    h.check("taken", res is True)


@harness(fuzz=30)
def other_controller(h):
    """the controller has any node id: messages of others are not taken for its own"""
    controller, nid = h.int("controller", 1, 232), h.int("node", 0, 255)
    w = World(h, controller, nodes={})
    if not h.symbolic and h.flag("own"):
        nid = controller
    msg = h.get(CC + "Basic:Report")(value=3)
    res = h.run(w.app.messageReceived(w.a, nid, 0, msg, 0))
    h.check("taken exactly if it is its own", h.iff(nid == controller, res is True))
    h.check("the listeners are told exactly if it is its own", h.iff(nid == controller, len(w.calls) == 1))


def packet(h, cmd):
    return h.get(CC + "Zip:ZipPacket")(command=cmd)


@harness(params=["add", "remove"], fuzz=60)
def progress(h, which):
    """inclusion and exclusion progress, with any status and node"""
    w = World(h)
    status, nid, seq = h.int("status", 0, 255), h.int("node", 0, 255), h.int("seq", 0, 255)
    M = h.get("pyzwave.message:Message")
    if which == "add":
        cmd = M.decode(bytes([0x34, 0x02, seq, status, 0, nid, 1]))
    else:
        if not h.symbolic and h.flag("done"):
            status, nid = 6, h.choice("id", [0, 7, 2])
        cmd = M.decode(bytes([0x34, 0x04, seq, status, nid]))
    for k in ("addNodeStatus", "removeNodeStatus", "messageReceived"):
        w.answer[k] = h.choice("answer", [True, False])
    res = h.run(w.app.onMessageReceived(w.a, packet(h, cmd)))
    h.check("taken", res is True)
    name = "addNodeStatus" if which == "add" else "removeNodeStatus"
    h.check("announced first", len(w.calls) > 0 and w.calls[0][:2] == ("app", name))
    h.check("with its report", w.calls[0][2][0] is cmd)
    rest = [(c[1], c[2]) for c in w.calls[1:]]
    if which == "remove" and h.all(status == 6, nid == 0):
        h.check("announced as node 0", len(rest) == 2 and sorted(x[0] for x in rest) == ["nodeRemoved", "nodesRemoved"])
        d = dict(rest)
        h.check("individually", d["nodeRemoved"][0] == 0)
        h.check("and as a batch", list(d["nodesRemoved"][0]) == [0])
    else:
        h.check("nothing else is announced", len(rest) == 0)


@harness(params=[2, 3, 4], fuzz=10)
def progress_cut_off(h, n):
    """a progress report cut off is announced, and no node is taken to be removed"""
    w = World(h)
    M = h.get("pyzwave.message:Message")
    data = bytes([0x34, 0x04, 1, h.int("status", 0, 255), 0])
    cmd = M.decode(data[:n])
    res = h.run(w.app.onMessageReceived(w.a, packet(h, cmd)))
    h.check("taken", res is True)
    h.check("announced, and nothing else", [c[1] for c in w.calls] == ["removeNodeStatus"])


@harness(params=["handled", "unhandled", "second handles", "raising"], fuzz=20)
def other_messages(h, how):
    """other messages of the controller: handled exactly if a listener says so"""
    w = World(h)
    second = Told(w, "second")
    if how == "raising":
        class Bad:
            async def messageReceived(self, sender, message):
                raise RuntimeError("x")
        w.app.addListener(Bad())
    w.app.addListener(second)
    if how == "second handles":
        second._say = lambda what, args: w.calls.append(("second", what, args)) or True
    w.answer["messageReceived"] = how in ("handled", "raising")
    M = h.get("pyzwave.message:Message")
    seq, v = h.int("seq", 0, 255), h.int("v", 0, 255)
    cmd = M.decode([bytes([0x34, 0x11, seq, v & 1, v]), bytes([0x34, 0x13, seq, v & 15]) + bytes(16), bytes([0x25, 0x03, v]),
                    bytes([0x34, 0x08, seq, 1, v]), bytes([0xEE, 0x01, v])][h.choice("cmd", [0, 1, 2, 3, 4])])
    res = h.run(w.app.onMessageReceived(w.a, packet(h, cmd)))
    h.check("the result tells whether it was handled", res is (how != "unhandled"))
    h.check("the listeners are told, once each", [c[:2] for c in w.calls] == [("app", "messageReceived"),
                                                                           ("second", "messageReceived")])
    for c in w.calls:
        h.check("the message", c[2][0] is cmd)


@harness(params=["no command", "no packet"], fuzz=3)
def nothing(h, what):
    """what carries no message is not handled and told to nobody"""
    w = World(h)
    w.answer["messageReceived"] = True
    empty = h.get("pyzwave.message:Message").decode(b"\x23\x02\x00\x00\x05\x00\x00")
    msg = empty if what == "no command" else h.get(CC + "ZipND:ZipNodeAdvertisement")(nodeId=2)
    res = h.run(w.app.onMessageReceived(w.a, msg))
    h.check("not handled", res is False)
    h.check("nobody is told", len(w.calls) == 0)


@harness(params=[(2, 0), (2, 1), (3, 0), (2, 5), (1, 0)], fuzz=20)
def from_the_network(h, p):
    """the whole way: a packet arriving from the address of a node"""
    nid, ep = p
    net = Network(h, (1, 2, 3))
    net.answers[(0x52, 0x03)] = lambda s, tr: bytes([0x52, 0x04, s.cmd[2], 0, 0x80, 0, 0, 4, 16, 1, 0x25] + (
        [0x60] if s.cmd[4] == 2 else []))
    net.answers[(0x52, 0x05)] = lambda s, tr: bytes([0x52, 0x06, s.cmd[2], s.cmd[3], 0, 2, 0])
    net.answers[(0x52, 0x07)] = lambda s, tr: bytes([0x52, 0x08, s.cmd[2], s.cmd[3], 1, s.cmd[4], 16, 1, 0x25])
    net.answers[(0x52, 0x0B)] = lambda s, tr: bytes([0x52, 0x0C, s.cmd[2]]) + bytes(29)
    gw, net = gateway(h, net)
    app = h.get("pyzwave.application:Application")(gw, Recorder())
    h.run(app.startup())
    h.check("the nodes", sorted(str(k) for k in app.nodes) == ["2:0", "2:1", "2:2", "3:0"])
    told = []

    class Listener:
        def __init__(self, name):
            self.name = name

        def onMessage(self, sender, message):
            told.append((self.name, message))
            return True

        def messageReceived(self, sender, message):
            told.append(("app", message))
    for k in app.nodes:
        app.nodes[k].addListener(Listener(str(k)))
    app.addListener(Listener("app"))
    us = [t for t in net.transports if t.local is not None][0]
    v = h.int("v", 0, 255)
    us.deliver(zip_packet(9, bytes([0x20, 0x03, v]), ACKREQ, src=ep), (ip_text(nid), 4123, 0, 0))
    h.loop.settle()
    name = "%d:%d" % (nid, ep)
    who = "app" if nid == 1 else name
    if nid == 1 or name in ("2:0", "2:1", "2:2", "3:0"):
        h.check("exactly the one it is meant for is told, once", [t[0] for t in told] == [who], told)
        h.check("the message", h.all(told[0][1].compose() == bytes([0x20, 0x03, v])))
    else:
        h.check("nobody is told", len(told) == 0)
    h.check("nothing was raised", len(task_errors(h)) == 0)
