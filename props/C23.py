"""C23: the application's nodes follow the network's node list.

`updates` goes over every pair of node lists of four nodes (with no, one and three endpoints, and one whose multi channel
class is only controlled), starting from the state start-up leaves; `again` starts from states updates have left."""
import hlib
from hlib import prime, StubAdapter, Recorder, gateway, ip_text, node_list_report, task_errors, zip_packet
from pyvc.api import harness

A = "pyzwave.application:Application."
FUNCTIONS = [A + n for n in ("startup", "nodeListUpdated", "loadNode", "loadEndPointNode", "nodes")]
ASSUMPTIONS = ["the controller's answers are those of the adapter's interface (C22 is about the adapter)",
               "start-up comes before the first node list update (see the known finding)"]

ENDPOINTS = {2: 0, 3: 1, 4: 3, 5: 0, 6: 127, 7: 254}
IDS = {2: 2, 3: 3, 4: 231, 5: 232, 6: 10, 7: 11}


class Network(StubAdapter):
    """what the gateway has to tell about the network"""

    def __init__(self, h, nodes, ids=None):
        super().__init__(h)
        self.list = list(nodes)
        self.info = {}
        self.caps = {}
        self.ids = ids or IDS
        self.hold = {}
        self.asked = []
        self.failed = []

    def tell(self, what, key):
        """the information is told once and for all"""
        return self.caps[key] if what == "cap" else self.info[key]

    async def wait(self, what):
        self.asked.append(what)
        f = self.hold.get(what)
        if f is not None:
            await f

    async def getNodeList(self):
        await self.wait("list")
        return set([1] + [self.ids[n] for n in self.list])

    async def getFailedNodeList(self):
        await self.wait("failed")
        return set(self.failed)

    def kind(self, nodeId):
        return [k for k, v in self.ids.items() if v == nodeId][0]

    async def getNodeInfo(self, nodeId):
        h = self.h
        await self.wait("info")
        h.check("never asked about itself", nodeId != 1)
        k = self.kind(nodeId)
        if k not in self.info:
            multi = [0x60] if ENDPOINTS[k] else []
            listening = h.bool("listening %d" % k)
            self.info[k] = dict(listening=listening, optFunc=h.no(listening), basicDeviceClass=h.int("basic %d" % k, 0, 255),
                                genericDeviceClass=h.int("generic %d" % k, 0, 255),
                                specificDeviceClass=h.int("specific %d" % k, 0, 255),
                                commandClass=bytes([0x5E, 0x25] + multi + [0xEF, 0x20] + ([0x60] if k == 5 else [])))
        return h.get("pyzwave.commandclass.NetworkManagementProxy:NodeInfoCachedReport")(**self.info[k])

    async def getMultiChannelEndPoints(self, nodeId):
        await self.wait("endpoints")
        k = self.kind(nodeId)
        self.h.check("only nodes with end points are asked for them", ENDPOINTS[k] > 0)
        return ENDPOINTS[k]

    async def getMultiChannelCapability(self, nodeId, endpoint):
        h = self.h
        await self.wait("capability")
        k = self.kind(nodeId)
        h.check("only its end points", 1 <= endpoint <= ENDPOINTS[k])
        key = (k, endpoint)
        if key not in self.caps:
            self.caps[key] = dict(genericDeviceClass=h.int("g %d %d" % key, 0, 255),
                                  specificDeviceClass=h.int("s %d %d" % key, 0, 255),
                                  commandClass=bytes([0x31 + endpoint if endpoint < 4 else 0x25, 0x70]))
        return h.get("pyzwave.commandclass.NetworkManagementProxy:MultiChannelCapabilityReport")(**self.caps[key])


class World:
    def __init__(self, h, nodes, ids=None):
        prime(h)
        self.h = h
        self.net = Network(h, nodes, ids)
        self.storage = Recorder("nodeUpdated")
        self.app = h.get("pyzwave.application:Application")(self.net, self.storage)
        self.rec = Recorder("nodeAdded", "nodesAdded", "nodeRemoved", "nodesRemoved")
        self.app.addListener(self.rec)

    def expected(self, nodes):
        return ["%d:%d" % (self.net.ids[n], e) for n in nodes for e in range(ENDPOINTS[n] + 1)]

    def names(self):
        return [str(k) for k in self.app.nodes.keys()]

    def holds(self, nodes, before=None):
        """exactly the nodes, with their information; those known before as they were"""
        h, app = self.h, self.app
        h.check("exactly the nodes and their endpoints", sorted(self.names()) == sorted(self.expected(nodes)),
                (self.names(), nodes))
        for n in nodes:
            nid = self.net.ids[n]
            root = app.nodes["%d:0" % nid]
            i = self.net.info[n]
            for e in range(ENDPOINTS[n] + 1):
                node = app.nodes["%d:%d" % (nid, e)]
                h.check("its id", node.nodeId == "%d:%d" % (nid, e))
                h.check("its node", h.all(node.rootNodeId == nid, node.endpoint == e))
                h.check("listening", h.iff(node.listening, i["listening"]))
                h.check("basic class", node.basicDeviceClass == i["basicDeviceClass"])
                c = i if e == 0 else self.net.caps[(n, e)]
                h.check("generic class", node.genericDeviceClass == c["genericDeviceClass"])
                h.check("specific class", node.specificDeviceClass == c["specificDeviceClass"])
                classes = list(c["commandClass"])
                if e == 0:
                    classes = classes[:classes.index(0xEF)]
                else:
                    h.check("belongs to its node", node.parent is root)
                h.check("its command classes", sorted(node.supported) == sorted(classes))
                h.check("talks through the adapter", node.adapter is self.net)
        if before is not None:
            for name, node in before.items():
                if name in app.nodes:
                    h.check("a node already known is kept as it is", app.nodes[name] is node)

    def snapshot(self):
        return {k: self.app.nodes[k] for k in self.names()}

    def announced(self, added, removed, since=0):
        """exactly these nodes were announced, each once, individually and as a batch"""
        h = self.h
        calls = self.rec.calls[since:]
        one = {m: [a[1] for n, a in calls if n == m] for m in ("nodeAdded", "nodeRemoved")}
        batch = {m: [x for n, a in calls if n == m for x in a[1]] for m in ("nodesAdded", "nodesRemoved")}
        want = self.expected(added)
        h.check("exactly the added nodes, individually", sorted(str(x.nodeId) for x in one["nodeAdded"]) == sorted(want))
        h.check("exactly the added nodes, as a batch", sorted(str(x.nodeId) for x in batch["nodesAdded"]) == sorted(want))
        for x in one["nodeAdded"] + batch["nodesAdded"]:
            h.check("the node that is held", x is self.app.nodes[str(x.nodeId)])
        want = self.expected(removed)
        h.check("exactly the removed nodes, individually", sorted(str(x) for x in one["nodeRemoved"]) == sorted(want))
        h.check("exactly the removed nodes, as a batch", sorted(str(x) for x in batch["nodesRemoved"]) == sorted(want))
        for n, a in calls:
            h.check("by the application", a[0] is self.app)

    def update(self, nodes):
        self.net.list = list(nodes)
        self.h.run(self.app.nodeListUpdated(self.net))


def subsets(xs):
    out = [[]]
    for x in xs:
        out = out + [s + [x] for s in out]
    return out


SUBS = subsets([2, 3, 4, 5])


@harness(params=list(range(len(SUBS))), fuzz=4)
def updates(h, i):
    """after start-up with any list, an update to any other"""
    a = SUBS[i]
    b = SUBS[h.choice("to", list(range(len(SUBS))))]
    w = World(h, a)
    h.run(w.app.startup())
    w.holds(a)
    w.announced(a, [])
    before, k = w.snapshot(), len(w.rec.calls)
    # whatever the application has found out about them
    found = h.choice("found", [None, "failed"])
    if found is not None:
        for node in before.values():
            if node.endpoint == 0:
                node.isFailed, node.flirs = True, True
    w.update(b)
    w.holds(b, before)
    if found is not None:
        for name, node in before.items():
            h.check("as it was", node.isFailed is True and node.flirs is True)
    w.announced([n for n in b if n not in a], [n for n in a if n not in b], k)
    # the same list once more
    before, k = w.snapshot(), len(w.rec.calls)
    w.update(b)
    w.holds(b, before)
    w.announced([], [], k)
    h.check("nothing was raised", len(task_errors(h)) == 0)


@harness(params=list(range(len(SUBS))), fuzz=2)
def again(h, i):
    """updates from a state that other updates have left"""
    a = SUBS[i]
    b = SUBS[h.choice("to", [0, 3, 6, 9, 15])]
    w = World(h, a)
    h.run(w.app.startup())
    w.update(b)
    w.update(a)
    w.holds(a)
    k = len(w.rec.calls)
    c = SUBS[h.choice("then", [0, 1, 6, 15])]
    before = w.snapshot()
    w.update(c)
    w.holds(c, before)
    w.announced([n for n in c if n not in a], [n for n in a if n not in c], k)


@harness(params=[[], [2], [3], [2, 3]], fuzz=20)
def any_id(h, nodes):
    """the same with any node ids"""
    x, y = h.int("x", 2, 232), h.int("y", 2, 232)
    h.assume(x != y)
    ids = {2: h.concrete(x) if not h.symbolic else [2, 10, 100, 232][h.choice("nx", [0, 1, 2, 3])],
           3: h.concrete(y) if not h.symbolic else [3, 11, 101, 231][h.choice("ny", [0, 1, 2, 3])]}
    w = World(h, nodes, ids)
    h.run(w.app.startup())
    w.holds(nodes)
    w.announced(nodes, [])
    other = h.choice("to", [[], [2], [3], [2, 3]])
    k = len(w.rec.calls)
    before = w.snapshot()
    w.update(other)
    w.holds(other, before)
    w.announced([n for n in other if n not in nodes], [n for n in nodes if n not in other], k)


@harness(params=[6, 7], fuzz=2)
def many_endpoints(h, n):
    """as many endpoints as a node can have"""
    w = World(h, [2])
    h.run(w.app.startup())
    before, k = w.snapshot(), len(w.rec.calls)
    w.update([2, n])
    w.holds([2, n], before)
    w.announced([n], [], k)
    k = len(w.rec.calls)
    w.update([2])
    w.holds([2], before)
    w.announced([], [n], k)


@harness(params=["root", "endpoint"], fuzz=10)
def stored(h, which):
    """updates of the nodes, however they came, reach the storage"""
    w = World(h, [4])
    h.run(w.app.startup())
    w.update([3, 4])
    for nid in (IDS[3], IDS[4]):
        node = w.app.nodes["%d:%d" % (nid, 0 if which == "root" else 1)]
        n = len(w.storage.calls)
        list(node.supported.values())[0].speak("commandClassUpdated")
        h.check("the storage is told once", len(w.storage.calls) == n + 1)
        h.check("of the node", w.storage.calls[n][1][0] is node)


@harness(params=["info", "endpoints", "capability"], fuzz=10)
def no_answer(h, what):
    """a node the gateway has no information for does not keep the others from being held"""
    w = World(h, [2, 3, 4])
    P = "pyzwave.commandclass.NetworkManagementProxy:"
    orig = {"info": w.net.getNodeInfo, "endpoints": w.net.getMultiChannelEndPoints, "capability": w.net.getMultiChannelCapability}

    async def info(nodeId):
        if nodeId == 3:
            return h.get(P + "NodeInfoCachedReport")()
        return await orig["info"](nodeId)

    async def endpoints(nodeId):
        return 0 if nodeId == 3 else await orig["endpoints"](nodeId)

    async def capability(nodeId, endpoint):
        if nodeId == 3:
            return h.get(P + "MultiChannelCapabilityReport")()
        return await orig["capability"](nodeId, endpoint)
    if what == "info":
        w.net.getNodeInfo = info
    elif what == "endpoints":
        w.net.getMultiChannelEndPoints = endpoints
    else:
        w.net.getMultiChannelCapability = capability
    if h.flag("at start-up"):
        h.run(w.app.startup())
    else:
        w.net.list = []
        h.run(w.app.startup())
        w.update([2, 3, 4])
    names = w.expected([2, 4]) + ["3:0"] + (["3:1"] if what == "capability" else [])
    h.check("exactly the nodes and the endpoints told", sorted(w.names()) == sorted(names))
    if what == "info":
        h.check("it has no command classes", len(w.app.nodes["3:0"].supported) == 0)
    elif what == "capability":
        h.check("it has no command classes", len(w.app.nodes["3:1"].supported) == 0)
    one = [str(a[1].nodeId) for a in w.rec.named("nodeAdded")]
    h.check("announced, each once", sorted(one) == sorted(names))


def release(w):
    """everything that is held back goes on"""
    for _ in range(60):
        for f in list(w.net.hold.values()):
            if not f.done():
                f.set_result(None)
        w.h.loop.settle()


PLANS = [([], [2], [2, 3]), ([], [2, 3], [3]), ([2], [3], [2]), ([2, 3], [], [2, 3]), ([3], [4], [3, 4]), ([], [3], []),
         ([], [4], [4])]


@harness(params=[(i, w) for i in range(len(PLANS)) for w in ("list", "info", "endpoints", "capability")], fuzz=4,
         kind="bounded", note="two updates at a time, the first one held up at any of its questions")
def overlapping(h, p):
    """an update while another one is being carried out"""
    i, what = p
    start, first, second = PLANS[i]
    w = World(h, start)
    h.run(w.app.startup())
    k = len(w.rec.calls)
    w.net.hold[what] = h.loop.create_future()
    w.net.list = list(first)
    t1 = h.spawn(w.app.nodeListUpdated(w.net))
    h.loop.settle()
    w.net.list = list(second)
    t2 = h.spawn(w.app.nodeListUpdated(w.net))
    h.loop.settle()
    third = h.flag("a third one")
    if third:
        t3 = h.spawn(w.app.nodeListUpdated(w.net))
        h.loop.settle()
    release(w)
    h.check("they end", h.all(t1.done(), t2.done(), not third or t3.done()))
    h.check("and raise nothing", h.all(h.outcome(t1)[0] == "ok", h.outcome(t2)[0] == "ok"))
    w.holds(second)
    balance(w, start, second)


def balance(w, start, final):
    """what was announced leads from one list to the other: nothing twice, nothing missing"""
    h = w.h
    have = {n: 0 for n in w.expected([2, 3, 4, 5])}
    for batch in (False, True):
        count = {n: 0 for n in have}
        for m, a in w.rec.calls:
            if m == ("nodesAdded" if batch else "nodeAdded"):
                for x in (a[1] if batch else [a[1]]):
                    count[str(x.nodeId)] += 1
                    last = x
            elif m == ("nodesRemoved" if batch else "nodeRemoved"):
                for x in (a[1] if batch else [a[1]]):
                    count[str(x)] -= 1
            for n, c in count.items():
                h.check("never added twice nor removed twice", 0 <= c <= 1, (n, c))
        h.check("in the end exactly those that are held", [n for n in count if count[n]] == sorted(
            w.expected(final), key=list(have).index))
    held = [a[1] for m, a in w.rec.calls if m == "nodeAdded"]
    for n in w.expected(final):
        h.check("the node held is the one announced last", [x for x in held if str(x.nodeId) == n][-1] is w.app.nodes[n])


@harness(params=["list", "info", "endpoints", "capability", "failed"], fuzz=4,
         kind="bounded", note="one update during start-up")
def during_startup(h, what):
    """an update while start-up is going on"""
    w = World(h, [2, 4])
    w.net.hold[what] = h.loop.create_future()
    t1 = h.spawn(w.app.startup())
    h.loop.settle()
    final = h.choice("final", [[2, 4], [2], [4, 3], []])
    w.net.list = list(final)
    t2 = h.spawn(w.app.nodeListUpdated(w.net))
    h.loop.settle()
    release(w)
    h.check("they end", h.all(t1.done(), t2.done()))
    w.holds(final)
    h.check("and raise nothing", h.all(h.outcome(t1)[0] == "ok", h.outcome(t2)[0] == "ok"))
    for n in w.expected([2, 3, 4, 5]):
        added = [a[1] for m, a in w.rec.calls if m == "nodeAdded" and str(a[1].nodeId) == n]
        removed = [a[1] for m, a in w.rec.calls if m == "nodeRemoved" and str(a[1]) == n]
        h.check("announced once", len(added) <= 1)
        h.check("added exactly if held, or removed since", len(added) - len(removed) == (1 if n in w.expected(final) else 0))


@harness(params=["waiting", "raising"], fuzz=10)
def listeners(h, how):
    """whatever a listener does, the nodes and the other listeners are right"""
    w = World(h, [2])
    h.run(w.app.startup())
    gate = h.loop.create_future()

    class Slow:
        async def nodesAdded(self, sender, nodes):
            if how == "raising":
                raise RuntimeError("x")
            await gate

        async def nodeRemoved(self, sender, node):
            if how == "raising":
                raise RuntimeError("x")
            await gate
    w.app.addListener(Slow())
    k = len(w.rec.calls)
    w.net.list = [3]
    t = h.spawn(w.app.nodeListUpdated(w.net))
    h.loop.settle()
    w.holds([3])
    if not gate.done():
        gate.set_result(None)
    h.loop.settle()
    h.check("ends", h.outcome(t)[0] == "ok")
    w.holds([3])
    w.announced([3], [2], k)


@harness(params=["nodeRemoved", "nodesRemoved", "nodesAdded", "nodeAdded"], fuzz=10)
def slow_listener(h, what):
    """a list that changes again while a slow listener is being told: every change is announced, once"""
    w = World(h, [2, 3])
    h.run(w.app.startup())
    gates = []

    class Slow:
        pass

    async def wait(sender, node):
        gates.append(h.loop.create_future())
        await gates[-1]
    slow = Slow()
    setattr(slow, what, wait)
    w.app.addListener(slow)
    k = len(w.rec.calls)
    lists = [[2, 4], [4, 3], [3, 5], [2, 3], [5], []]
    a, b = h.choice("then", lists), h.choice("and then", lists)
    ts = []
    for nodes in (a, b):
        w.net.list = nodes
        ts.append(h.spawn(w.app.nodeListUpdated(w.net)))
        h.loop.settle()
        w.holds(nodes)
    while [g for g in gates if not g.done()]:
        [g for g in gates if not g.done()][0].set_result(None)
        h.loop.settle()
    h.check("they end", h.all(*[h.outcome(t)[0] == "ok" for t in ts]))
    w.holds(b)
    calls = w.rec.calls[k:]
    added = [n for n in a if n not in [2, 3]], [n for n in b if n not in a]
    removed = [n for n in [2, 3] if n not in a], [n for n in a if n not in b]
    for one, batch, want, name in (("nodeAdded", "nodesAdded", added, lambda x: str(x.nodeId)), ("nodeRemoved", "nodesRemoved", removed, str)):
        want = sorted(w.expected(want[0]) + w.expected(want[1]))
        h.check("each individually, as often as it happened", sorted(name(c[1]) for m, c in calls if m == one) == want)
        h.check("each in a batch, as often as it happened", sorted(name(x) for m, c in calls if m == batch for x in c[1]) == want)


@harness(params=["told at start-up", "told while asked", "not told at start-up", "not even when loading"], fuzz=6, kind="bounded",
         note="sampled lists")
def over_the_gateway(h, how):
    """with the gateway itself: the controller is never taken for a node, however its list was learnt"""
    controller = h.choice("controller", [1, 3])
    net = hlib.Network(h, [1, 2, 3], controller)
    generic = {n: h.choice("generic %d" % n, [0x10, 0xA1]) for n in (1, 2, 3, 4)}
    info = lambda s, tr: bytes([0x52, 0x04, s.cmd[2], 0, 0x80, 0, 0, 4, generic[s.cmd[4]], 1, 0x5E, 0x25]) + \
        (b"\x60" if s.cmd[4] == 2 else b"")
    net.answers[(0x52, 0x03)] = info
    net.answers[(0x52, 0x05)] = lambda s, tr: bytes([0x52, 0x06, s.cmd[2], s.cmd[3], 0, 1, 0])
    net.answers[(0x52, 0x07)] = lambda s, tr: bytes([0x52, 0x08, s.cmd[2], s.cmd[3], 1, s.cmd[4], 0x11, 2, 0x31])
    net.answers[(0x52, 0x0B)] = lambda s, tr: bytes([0x52, 0x0C, s.cmd[2]]) + bytes(29)
    asked = []
    if how != "told at start-up":
        net.answers[(0x52, 0x01)] = lambda s, tr: asked.append((s, tr))
    prime(h)
    gw = h.get("pyzwave.zipgateway:ZIPGateway")("::1", b"\x12\x34")
    app = h.get("pyzwave.application:Application")(gw, Recorder("nodeUpdated"))
    rec = Recorder("nodeAdded", "nodesAdded", "nodeRemoved", "nodesRemoved")
    app.addListener(rec)
    t = h.spawn(gw.connect())

    def report(nodes, wait=20):
        us = [t for t in net.transports if t.local is not None][0]
        net.nodes = list(nodes)
        us.deliver(zip_packet(9, node_list_report(9, nodes, controller)), (ip_text(1), 4123, 0, 0))
        h.loop.settle()
        h.loop.advance(wait)

    def holds(nodes):
        want = []
        for n in nodes:
            if n != controller:
                want = want + ["%d:0" % n] + (["2:1"] if n == 2 else [])
        h.check("exactly the nodes but the controller", sorted(app.nodes.keys()) == sorted(want), sorted(app.nodes.keys()))
        for n in want:
            h.check("with their information", app.nodes[n].genericDeviceClass == (generic[int(n[0])] if n[2] == "0" else 0x11))
        h.check("the controller is known", gw.nodeId == controller)
        added = [a[1] for m, a in rec.calls if m == "nodeAdded"]
        h.check("the controller is never announced", h.no(h.any(*[x.rootNodeId == controller for x in added] + [False])))
    h.loop.settle()
    if how == "told while asked":
        h.check("asked", len(asked) == 1)
        report([1, 2, 3], 0)
    h.loop.finish(t)
    h.loop.advance(20)
    if how == "not told at start-up":
        net.answers.pop((0x52, 0x01))
    t = h.spawn(app.startup())
    h.loop.finish(t)
    h.check("started", h.outcome(t)[0] == "ok", h.outcome(t))
    if how == "not even when loading":
        h.check("no nodes", len(app.nodes) == 0)
    else:
        holds([1, 2, 3])
    for nodes in ([1, 2, 3, 4], [1, 3], [1, 2, 3]):
        report(nodes)
        holds(nodes)
    h.check("nothing was raised", len(h.loop.errors) + len(task_errors(h)) == 0)


@harness(kind="finding", note="update_before_startup", fuzz=1)
def update_before_startup(h):
    """a node list update before start-up: start-up loads and announces the nodes once more"""
    w = World(h, [2])
    w.update([2])
    before = w.snapshot()
    h.run(w.app.startup())
    w.announced([2], [])
