"""C21: each node is reached at its own address over one connection."""
import asyncio

from hlib import (gateway, Network, Recorder, Sent, sent, commands, zip_packet, zip_ack, ip_text, ip_of, node_list_report,
                  advertisement, task_errors, ACKREQ)
from pyvc.api import LoopContract, harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.zipgateway:ZIPGateway.connectToNode", "pyzwave.zipgateway:ZIPGateway.ipOfNode",
             "pyzwave.zipgateway:ZIPGateway.sendToNode", "pyzwave.zipgateway:ZIPGateway.getNodeList",
             "pyzwave.zipgateway:ZIPGateway.onUnsolicitedMessage", "pyzwave.zipgateway:ZIPGateway.setupUnsolicitedConnection"]
ASSUMPTIONS = ["asyncio's Lock, Task, wait_for and timers behave as documented (the installed asyncio runs on a virtual "
               "clock)", "datagrams are handed to the library one at a time, as the event loop does",
               "addresses are samples, and so are the node ids of node list reports: the library treats them as "
               "opaque"]


class World:
    def __init__(self, h, nodes=(1, 2, 3, 232), no_address=(), manual=False):
        self.h = h
        net = Network(h, nodes)
        net.no_address = set(no_address)
        self.gw, self.net = gateway(h, net)
        self.main = net.transports[0]
        self.us = [t for t in net.transports if t.local is not None][0]
        if manual:
            # from now on the harness sends the advertisements
            net.no_address = set(range(256))
        self.rec = Recorder("messageReceived", "nodeListUpdated")
        self.gw.addListener(self.rec)
        self.k = len(net.transports)

    def get(self, v=None):
        return self.h.get(CC + "SwitchBinary:Set")(value=v) if v is not None else self.h.get(CC + "SwitchBinary:Get")()

    def send(self, node, v=None):
        return self.h.spawn(self.gw.sendToNode(node, self.get(v)))

    def advertise(self, node, ip=None):
        self.main.deliver(advertisement(node, ip))
        self.h.loop.settle()

    def nodes(self):
        """the connections made to nodes"""
        return self.net.transports[self.k:]

    def solicitations(self, since=0):
        return [d[3] for d, a in self.main.sent[since:] if d[:2] == b"\x58\x04"]

    def report(self, nodes, wait=True, seq=9):
        self.net.nodes = list(nodes)
        self.us.deliver(zip_packet(seq, node_list_report(seq, nodes)), (ip_text(1), 4123, 0, 0))
        self.h.loop.settle()
        if wait:
            self.h.loop.advance(3 * len(nodes) + 1)

    def reached(self, t, node, v, at=None):
        """the command left once, to the node, over its connection, and to nobody else"""
        h = self.h
        node = node if at is None else at
        st, val = h.outcome(t)
        h.check("sent", st == "ok" and val is True, (st, val))
        mine = [(tr, s) for tr in self.nodes() for s in commands(tr) if s.cmd == bytes([0x25, 0x01, v])]
        h.check("exactly once", len(mine) == 1)
        h.check("to the address of the node", mine[0][0].remote[0] == ip_text(node), (mine[0][0].remote, node))
        h.check("at its port", mine[0][0].remote[1] == 4123)
        return mine[0][0]

    def answers(self, node):
        """whether packets from the address of the node are taken"""
        n, k = len(self.rec.named("messageReceived")), len(self.us.sent)
        self.us.deliver(zip_packet(33, b"\x25\x03\x01", ACKREQ), (ip_text(node), 4123, 0, 0))
        self.h.loop.settle()
        got = self.rec.named("messageReceived")[n:]
        self.h.check("acknowledged if known", len(self.us.sent) - k == len(got))
        if got:
            self.h.check("as the node it is", [g[1] for g in got] == [node])
        return len(got) == 1

    def known(self):
        return set(self.h.run(self.gw.getNodeList()))

    def quiet(self):
        self.h.check("nothing was raised in the event loop", len(self.h.loop.errors) == 0)


# ------------------------------------------------------------------ connections

@harness(fuzz=30, time=90)
def one(h):
    """commands to any node, one after another, at any time: one connection"""
    w = World(h, (1,), manual=True)
    node = h.int("node", 2, 232)
    v1, v2, v3 = h.choice("v", [(1, 2, 3), (0, 255, 128)])
    t = w.send(node, v1)
    h.check("asked for", w.solicitations()[1:] == [node])
    w.advertise(node, ip_of(77))
    h.loop.finish(t)
    tr = w.reached(t, node, v1, 77)
    h.check("one connection", len(w.nodes()) == 1)
    for v in (v2, v3):
        h.loop.advance(h.choice("later%d" % v, [0, 3, 1000]))
        t = w.send(node, v)
        h.loop.finish(t)
        h.check("over the same connection", w.reached(t, node, v, 77) is tr)
        h.check("one connection still", len(w.nodes()) == 1)
        h.check("not asked for again", len(w.solicitations()) == 2)
    w.quiet()


KINDS = ["fd00:bbbb::", "fd00:bbbb:0:1::100", "fe80::1234", "::ffff:10.0.0.2", "ff02::1", "::1", "2001:db8:ffff:ffff:ffff:ffff:ffff:ffff"]


@harness(params=KINDS, fuzz=3, kind="bounded", note="samples of kinds of addresses")
def kinds_of_addresses(h, ip):
    """whatever kind of address is advertised, it is the one connected to"""
    IP = h.get("ipaddress:IPv6Address")
    w = World(h, (1,), manual=True)
    node = h.choice("node", [2, 5, 232])
    t = w.send(node, 7)
    h.loop.settle()
    w.advertise(node, IP(ip).packed)
    h.loop.finish(t)
    h.check("sent", h.outcome(t) == ("ok", True))
    h.check("over one connection", len(w.nodes()) == 1)
    h.check("to the address", IP(w.nodes()[0].remote[0]) == IP(ip) and w.nodes()[0].remote[1] == 4123)
    h.check("the command", [s.cmd for s in commands(w.nodes()[0])] == [b"\x25\x01\x07"])
    w.quiet()


DECOYS = [[], [(3, 3)], [(3, 3), (1, 1)], [(3, 2)], [(3, 3), (3, 3), (232, 232)], ["cut"], ["cut", (3, 3)], ["other"]]


@harness(params=list(range(len(DECOYS))), fuzz=6, kind="bounded",
         note="sampled nodes, addresses and schedules")
def decoys(h, i):
    """advertisements of other nodes arrive first"""
    w = World(h, manual=True)
    t = w.send(2, 7)
    h.loop.settle()
    h.check("asked for", w.solicitations()[-1] == 2)
    h.loop.advance(h.choice("after", [0, 2]))
    for d in DECOYS[i]:
        if d == "cut":
            w.main.deliver(advertisement(2)[:h.choice("cut", [2, 4, 10])])
            h.loop.settle()
        elif d == "other":
            w.main.deliver(zip_packet(5, b"\x25\x03\x01"))
            h.loop.settle()
        else:
            w.advertise(d[0], ip_of(d[1]))
        h.check("not yet", not t.done() and len(w.nodes()) == 0)
    w.advertise(2)
    h.loop.finish(t)
    w.reached(t, 2, 7)
    # the others are reached at their own
    t = w.send(3, 8)
    h.loop.settle()
    w.advertise(2)
    h.check("an advertisement of another node is not taken", len(w.nodes()) == 1)
    w.advertise(3)
    h.loop.finish(t)
    w.reached(t, 3, 8)
    h.check("connections are not shared", len(w.nodes()) == 2)
    w.quiet()


class Waits(LoopContract):
    """The loop waiting for the advertisement of a node.  Whatever came before, one iteration takes the next
    advertisement and ends the wait exactly if it is the one waited for; else nothing has changed."""

    name = "wait for the advertisement of a node"
    on = False

    def __init__(self, w, node):
        self.w, self.node = w, node

    def attach(self, v, where, it):
        own = [k for k, x in v.items() if x is self.w.gw]
        return not self.on and it is None and len(own) == 1 and any([self.h.is_int(x) for x in v.values()])

    def havoc(self, v, it):
        h = self.h
        self.on = True
        gw, loop = self.w.gw, h.loop
        self.before = self.judge(None)
        # what the wait itself uses
        self.modifies = [loop, loop._ready, loop._timers, loop.all_tasks] + self.w.moving()
        return {}

    def step(self, v):
        self.judge(self.before)


@harness(fuzz=30, time=90)
def any_advertisement(h):
    """a command to any node; whatever advertisements came, the next one is of any node: it is taken exactly if it is
    the node's"""
    w = World(h, (1,), manual=True)
    n, a = h.int("node", 2, 232), h.int("advertised", 1, 255)
    v = h.int("v", 0, 255)
    ip = ip_of(77)
    state = []

    def judge(before, other=a):
        now = (len(w.nodes()), len(w.main.sent))
        if before is not None:
            h.check("another node's is passed over", h.all(other != n, now == before, not t.done()))
        return now

    w.moving = lambda: [w, w.main]
    c = Waits(w, n)
    c.judge = judge
    h.cut(c)
    t = w.send(n, v)
    h.check("asked for once", len(w.solicitations()) == 2 and w.solicitations()[-1] == n)
    h.check("not connected yet", len(w.nodes()) == 0)
    if h.symbolic and not c.on:
        h.unsupported("loop contract not attached")
    if not h.symbolic:
        for i in range(h.choice("decoys", [0, 1, 5])):
            d = h.int("d%d" % i, 1, 255)
            if d != n:
                w.advertise(d, ip_of(78))
                judge((0, len(w.main.sent)), d)
    h.loop.advance(h.choice("after", [0, 1]))
    w.advertise(a, ip)
    if not h.symbolic and a != n:
        h.check("not taken", not t.done() and len(w.nodes()) == 0)
        return
    # (an iteration passing it over has ended here)
    h.check("it is the node's", a == n)
    h.loop.finish(t)
    h.check("sent", h.outcome(t)[0] == "ok" and h.outcome(t)[1] is True)
    h.check("one connection, to the node's address", [x.remote[:2] for x in w.nodes()] == [(ip_text(77), 4123)])
    got = [s.cmd for s in commands(w.nodes()[0])]
    h.check("one command", len(got) == 1 and len(got[0]) == 3)
    h.check("the command", got[0] == bytes([0x25, 0x01, v]))
    w.quiet()


@harness(fuzz=60, time=90)
def any_two(h):
    """any two nodes, one after the other: a connection each, to the address each has told"""
    w = World(h, (1,), manual=True)
    n, m = h.int("n", 2, 232), h.int("m", 2, 232)
    h.assume(n != m)
    v1, v2 = h.int("v1", 0, 255), h.int("v2", 0, 255)
    for node, v, ip, k in ((n, v1, 77, 0), (m, v2, 78, 1)):
        t = w.send(node, v)
        h.check("asked for", len(w.solicitations()) == 2 + k and w.solicitations()[-1] == node)
        w.advertise(node, ip_of(ip))
        h.loop.finish(t)
        h.check("sent", h.outcome(t)[0] == "ok" and h.outcome(t)[1] is True)
        h.check("a connection of its own", len(w.nodes()) == k + 1)
        h.check("to its address", w.nodes()[k].remote[:2] == (ip_text(ip), 4123))
        got = [s.cmd for s in commands(w.nodes()[k])]
        h.check("one command", len(got) == 1 and len(got[0]) == 3)
        h.check("the command", got[0] == bytes([0x25, 0x01, v]))
    # and each over its own from then on
    t = w.send(n, v2)
    h.loop.finish(t)
    h.check("no further connection", len(w.nodes()) == 2)
    got = [s.cmd for s in commands(w.nodes()[0])]
    h.check("over its own", len(got) == 2 and len(commands(w.nodes()[1])) == 1)
    h.check("the command again", got[1] == bytes([0x25, 0x01, v2]))
    w.quiet()


@harness(params=[2, 3, 5], fuzz=8, kind="bounded", time=90,
         note="2, 3 or 5 commands at once; any node")
def at_once(h, n):
    """several commands to any node before its connection is up"""
    w = World(h, (1,), manual=True)
    node = h.int("node", 2, 232)
    tasks = []
    gap = h.choice("gap", [0, 1])
    for i in range(n):
        tasks.append(w.send(node, i))
        h.loop.settle()
        if i == 0:
            h.loop.advance(gap)
    h.check("no connection yet", len(w.nodes()) == 0)
    w.advertise(node, ip_of(77))
    if not all(t.done() for t in tasks):
        h.loop.advance(1)
        w.advertise(node, ip_of(77))
    for t in tasks:
        h.loop.finish(t)
    trs = [w.reached(t, node, i, 77) for i, t in enumerate(tasks)]
    h.check("one connection for all", len(w.nodes()) == 1)
    w.quiet()


@harness(params=[5, 232], fuzz=1, kind="bounded", note="one network of as many nodes as there can be")
def every_node(h, n):
    """every node of the largest network, twice"""
    nodes = list(range(1, n + 1))
    if h.symbolic and n > 5:
        nodes = [1, 2, 127, 128, 231, 232]
    w = World(h, nodes)
    first = {}
    for v in (1, 2):
        for node in nodes:
            t = w.send(node, v)
            h.loop.finish(t)
            st, val = h.outcome(t)
            h.check("sent", st == "ok" and val is True)
            mine = [tr for tr in w.nodes() if tr.remote[0] == ip_text(node)]
            h.check("one connection", len(mine) == 1, (node, len(mine)))
            h.check("the command left over it", commands(mine[0])[-1].cmd == bytes([0x25, 0x01, v]), node)
            h.check("over the same connection", first.setdefault(node, mine[0]) is mine[0])
    h.check("one for each", len(w.nodes()) == len(nodes))
    w.quiet()


@harness(params=["ab", "aab", "abab"], fuzz=8, time=90, kind="bounded",
         note="up to four commands at once; any two nodes")
def two_nodes(h, order):
    """commands to any two nodes at once, whose advertisements arrive in any order"""
    w = World(h, (1,), manual=True)
    n, m = h.int("n", 2, 232), h.int("m", 2, 232)
    h.assume(n != m)
    ids = {"a": (n, 77), "b": (m, 78)}
    tasks = []
    for i, x in enumerate(order):
        tasks.append((w.send(ids[x][0], i), ids[x], i))
        if h.flag("settle%d" % i):
            h.loop.settle()
    h.loop.settle()
    for x in h.choice("answers", ["ab", "ba", "bba", "aab"]):
        w.advertise(ids[x][0], ip_of(ids[x][1]))
    for t, (node, at), v in tasks:
        h.loop.finish(t)
        w.reached(t, node, v, at)
    h.check("two connections", sorted(t.remote[0] for t in w.nodes()) == [ip_text(77), ip_text(78)])
    w.quiet()


@harness(params=["opens", "fails", "first cancelled", "second cancelled"], fuzz=8, time=90)
def slow_connection(h, how):
    """a connection that takes its time to come up, or does not: no command leaves before, none is lost by another's failure"""
    w = World(h, (1,), manual=True)
    n = h.int("n", 2, 232)
    gate = h.loop.create_future()
    opened = []

    def opening(remote, local):
        opened.append(remote)
        return gate if len(opened) == 1 else None
    h.loop.opening = opening
    t1 = w.send(n, 1)
    w.advertise(n, ip_of(77))
    h.check("being opened", len(opened) == 1 and len(w.nodes()) == 0)
    h.loop.advance(h.choice("gap", [0, 1]))
    t2 = w.send(n, 2)
    h.loop.settle()
    h.check("both wait for it", not t1.done() and not t2.done() and len(opened) == 1)
    if how == "fails":
        gate.set_exception(OSError("x"))
    elif how == "first cancelled":
        t1.cancel()
    else:
        if how == "second cancelled":
            t2.cancel()
        gate.set_result(None)
    h.loop.settle()
    w.advertise(n, ip_of(77))
    for t in (t1, t2):
        h.loop.finish(t)
    t3 = w.send(n, 3)
    h.loop.settle()
    w.advertise(n, ip_of(77))
    h.loop.finish(t3)
    if how != "second cancelled":
        w.reached(t2, n, 2, 77)
    if how in ("opens", "second cancelled"):
        w.reached(t1, n, 1, 77)
    else:
        h.check("the first fails", h.outcome(t1)[0] == ("error" if how == "fails" else "cancelled"))
    w.reached(t3, n, 3, 77)
    h.check("one connection", len(w.nodes()) == 1)
    w.quiet()


@harness(params=["timeout", "cancel", "cancel second"], fuzz=8, time=90)
def first_fails(h, how):
    """a command that could not get a connection keeps no other from getting one"""
    w = World(h, (1,), manual=True)
    n = h.int("n", 2, 232)
    t1 = w.send(n, 1)
    h.loop.settle()
    h.loop.advance(1)
    t2 = w.send(n, 2)
    h.loop.settle()
    if how == "timeout":
        h.loop.advance(2)
        h.loop.settle()
        st, val = h.outcome(t1)
        h.check("the first fails", st != "pending" and val is not True)
        h.check("nothing is sent", len(w.nodes()) == 0)
    else:
        (t1 if how == "cancel" else t2).cancel()
        h.loop.settle()
    h.loop.advance(h.choice("wait", [0, 1]))
    w.advertise(n, ip_of(77))
    last = t2 if how != "cancel second" else t1
    h.loop.finish(last)
    w.reached(last, n, 2 if last is t2 else 1, 77)
    t3 = w.send(n, 3)
    h.loop.finish(t3)
    w.reached(t3, n, 3, 77)
    h.check("one connection", len(w.nodes()) == 1)
    w.quiet()


@harness(params=["timeout", "cancel"], fuzz=8, time=90)
def third(h, how):
    """one fails, the next looks for the node, and a third command comes: still one connection"""
    w = World(h, (1,), manual=True)
    n = h.int("n", 2, 232)
    t1 = w.send(n, 1)
    h.loop.settle()
    h.loop.advance(1)
    t2 = w.send(n, 2)
    h.loop.settle()
    if how == "timeout":
        h.loop.advance(2)
    else:
        t1.cancel()
    h.loop.settle()
    h.check("the first has failed", t1.done() and not t2.done())
    h.loop.advance(h.choice("gap", [0, 1]))
    t3 = w.send(n, 3)
    h.loop.settle()
    w.advertise(n, ip_of(77))
    h.loop.settle()
    if not t3.done():
        w.advertise(n, ip_of(77))
    for t, v in ((t2, 2), (t3, 3)):
        h.loop.finish(t)
        w.reached(t, n, v, 77)
    h.check("one connection", len(w.nodes()) == 1)
    w.quiet()


@harness(fuzz=6, time=90)
def slow_node(h):
    """a node that does not answer does not keep commands to others waiting"""
    w = World(h, (1,), manual=True)
    n, m = h.int("n", 2, 232), h.int("m", 2, 232)
    h.assume(n != m)
    t1 = w.send(n, 1)
    h.loop.settle()
    t2 = w.send(m, 2)
    h.loop.settle()
    w.advertise(m, ip_of(78))
    h.loop.settle()
    h.check("sent without waiting for the other", t2.done())
    w.reached(t2, m, 2, 78)
    h.loop.advance(4)
    h.check("the other fails", t1.done() and (t1.cancelled() or t1.exception() is not None))
    w.quiet()


# ------------------------------------------------------------------ node list

SETS = [[1], [1, 2], [1, 2, 3], [1, 3], [2, 3], [1, 2, 3, 232], [1, 9]]


@harness(params=[[1], [1, 2], [1, 2, 3]], fuzz=4, kind="bounded", note="sampled nodes")
def nothing_listed(h, nodes):
    """a report listing no node at all: none is known until one comes with nodes"""
    w = World(h, nodes)
    h.check("known at first", w.known() == set(nodes))
    for node in nodes:
        h.check("by their address", w.answers(node))
    w.report([])
    for node in nodes:
        h.check("forgotten", not w.answers(node), (node,))
    w.report(nodes)
    for node in nodes:
        h.check("known again", w.answers(node), (node,))
    h.check("all of them", w.known() == set(nodes))
    w.quiet()


@harness(params=list(range(len(SETS))), fuzz=10, kind="bounded",
         note="sampled nodes, addresses and schedules")
def reports(h, i):
    """node list reports, one after another: what is known is what was reported last"""
    w = World(h, SETS[i])
    h.check("known at first", w.known() == set(SETS[i]))
    resolved = set(SETS[i])
    for k in range(2):
        new = h.choice("report%d" % k, SETS)
        n, m = len(w.main.sent), len(w.rec.named("nodeListUpdated"))
        w.report(new)
        asked = w.solicitations(n)
        h.check("announced once", len(w.rec.named("nodeListUpdated")) == m + 1)
        h.check("what was reported", w.known() == set(new))
        h.check("addresses are asked for new nodes only, once", sorted(asked) == sorted(set(new) - resolved), (asked, new))
        resolved = set(new)
        for node in (1, 2, 3, 9):
            h.check("exactly these are known by their address", w.answers(node) is (node in new), (node, new))
    h.check("the list is not asked for again", len([s for s in commands(w.main) if s.cmd[:2] == b"\x52\x01"]) == 1)
    w.quiet()


@harness(params=["first", "middle", "last", "all"], fuzz=6, kind="bounded",
         note="sampled nodes, addresses and schedules")
def silent(h, where):
    """nodes that do not tell their address do not keep the others from being known"""
    nodes = [1, 2, 3, 4]
    dead = {"first": [1], "middle": [2, 3], "last": [4], "all": nodes}[where]
    early = h.flag("at start")
    w = World(h, nodes if early else [1], dead)
    if not early:
        w.report(nodes, wait=False)
        h.loop.advance(3 * len(nodes) + 1)
        h.check("announced", len(w.rec.named("nodeListUpdated")) == 1)
    h.check("all are known", w.known() == set(nodes))
    for n in nodes:
        ok = n not in dead or (not early and n == 1 and False)
        h.check("those that answered are known by their address", w.answers(n) is ok, (n, dead))
    # asked for again with the next report
    w.net.no_address = set()
    n0 = len(w.main.sent)
    w.report(nodes)
    h.check("only those missing", sorted(w.solicitations(n0)) == sorted(dead))
    for n in nodes:
        h.check("now all of them", w.answers(n) is True)
    w.quiet()


@harness(params=["removed", "removed and back", "other added"], fuzz=6, kind="bounded",
         note="sampled nodes, addresses and schedules")
def overlapping(h, how):
    """another report while the addresses of the last one are being retrieved"""
    w = World(h, [1, 2], manual=True)
    w.report([1, 2, 3, 4], wait=False)
    h.check("asked for the first one", w.solicitations()[-1] == 3)
    h.loop.advance(1)
    last = {"removed": [1, 2, 4], "removed and back": [1, 2, 3, 4], "other added": [1, 2, 3, 4, 5]}[how]
    if how == "removed and back":
        w.report([1, 2], wait=False)
    w.report(last, wait=False)
    # now every node answers whenever it is asked
    w.net.no_address = set()
    w.advertise(3)
    h.loop.advance(20)
    h.check("the last report counts", w.known() == set(last))
    for n in (1, 2, 3, 4, 5):
        h.check("with the addresses of exactly these", w.answers(n) is (n in last), (n, last))
    w.quiet()


@harness(params=["same", "another", "other removed"], fuzz=6, kind="bounded",
         note="sampled nodes, addresses and schedules")
def removed_and_back(h, how):
    """a node that was removed and included again is reached at the address it has then"""
    w = World(h, [1, 2, 3], manual=True)
    for n in (2, 3):
        t = w.send(n, n)
        h.loop.settle()
        w.advertise(n)
        h.loop.finish(t)
        w.reached(t, n, n)
    h.loop.advance(h.choice("later", [0, 100]))
    gone, kept = (3, 2) if how == "other removed" else (2, 3)
    w.report([1, kept])
    h.loop.advance(h.choice("gone for", [0, 30, 600]))
    if how != "other removed":
        w.report([1, 2, 3], wait=False)
        at = {"same": 2, "another": 9}[how]
        ip = ip_of(at)
        h.check("asked for again", w.solicitations()[-1] == 2)
        w.advertise(2, ip)
    k, n = len(w.net.transports), len(w.main.sent)
    t = w.send(kept, 8)
    h.loop.finish(t)
    h.check("another node keeps its connection", len(w.net.transports) == k)
    w.reached(t, kept, 8)
    if how == "other removed":
        w.quiet()
        return
    t = w.send(2, 9)
    h.loop.settle()
    if len(w.solicitations(n)):
        w.advertise(2, ip)
    h.loop.finish(t)
    h.check("sent", h.outcome(t) == ("ok", True))
    mine = [tr for tr in w.nodes() for s in commands(tr) if s.cmd == bytes([0x25, 0x01, 9])]
    h.check("exactly once", len(mine) == 1)
    h.check("to its address", mine[0].remote[0] == ip_text(at), mine[0].remote)
    t = w.send(2, 10)
    h.loop.finish(t)
    h.check("and once more, over the same connection", h.outcome(t) == ("ok", True) and
            [tr for tr in w.nodes() for s in commands(tr) if s.cmd == bytes([0x25, 0x01, 10])] == mine)
    # what a node sends is from that node
    m = len(w.rec.named("messageReceived"))
    mine[0].deliver(zip_packet(3, b"\x25\x03\x07", 0, 1, 0))
    h.loop.settle()
    h.check("answers are the node's", [c[1] for c in w.rec.named("messageReceived")[m:]] == [2])
    w.quiet()


@harness(params=["cut", "while asked"], fuzz=6, kind="bounded",
         note="sampled nodes, addresses and schedules")
def odd_reports(h, how):
    """incomplete reports change nothing; the list asked for by a caller counts like a report"""
    w = World(h, [1, 2, 3])
    if how == "cut":
        data = node_list_report(9, [1])[:h.choice("cut", [2, 3, 4, 5])]
        w.us.deliver(zip_packet(9, data), (ip_text(1), 4123, 0, 0))
        h.loop.advance(10)
        h.check("nothing is forgotten", w.known() == {1, 2, 3})
        for n in (1, 2, 3):
            h.check("nor its address", w.answers(n) is True)
    else:
        w.report([1, 3])
        h.check("the cached list", w.known() == {1, 3})
    t = w.send(3, 5)
    h.loop.finish(t)
    w.reached(t, 3, 5)
    w.quiet()


@harness(params=["lost", "late"], fuzz=4, kind="bounded",
         note="sampled nodes, addresses and schedules")
def list_request(h, how):
    """the list was not known at start-up: it is asked for again when it is needed"""
    net = Network(h, [1, 2])
    late = [True]
    net.answers[(0x52, 0x01)] = lambda s, tr: None if late[0] else node_list_report(s.cmd[2], net.nodes)
    gw, net = gateway(h, net)
    t = h.spawn(gw.getNodeList())
    h.loop.finish(t)
    h.check("empty when not answered", set(t.result()) == set())
    late[0] = False
    h.check("then the answer", set(h.run(gw.getNodeList())) == {1, 2})
    h.check("and kept", set(h.run(gw.getNodeList())) == {1, 2})
    asked = [s for s in commands(net.transports[0]) if s.cmd[:2] == b"\x52\x01"]
    h.check("asked three times", len(asked) == 3)


@harness(params=[[1, 2], [1, 2, 3], [2]], fuzz=4, kind="bounded",
         note="sampled nodes, addresses and schedules")
def report_while_asked(h, listed):
    """a report arrives, and addresses with it, while the list is being asked for: known addresses are kept"""
    net = Network(h, [1, 2])
    held = []
    net.answers[(0x52, 0x01)] = lambda s, tr: held.append((s, tr))
    gw, net = gateway(h, net)
    us = [t for t in net.transports if t.local is not None][0]
    main = net.transports[0]
    t = h.spawn(gw.getNodeList())
    h.loop.settle()
    k = len(main.sent)
    us.deliver(zip_packet(9, node_list_report(9, [1, 2])), (ip_text(1), 4123, 0, 0))
    h.loop.advance(1)
    h.check("addresses asked for", len([d for d, a in main.sent[k:] if d[:2] == b"\x58\x04"]) == 2)
    s, tr = held[-1]
    tr.deliver(zip_packet(77, node_list_report(s.cmd[2], listed)))
    h.loop.finish(t)
    h.check("what was told", set(t.result()) == set(listed))
    h.check("is known", set(h.run(gw.getNodeList())) == set(listed))
    rec = Recorder("messageReceived")
    gw.addListener(rec)
    for n in (1, 2):
        us.deliver(zip_packet(33, b"\x25\x03\x01", ACKREQ), (ip_text(n), 4123, 0, 0))
        h.loop.settle()
    h.check("by their addresses", [c[1] for c in rec.named("messageReceived")] == [n for n in (1, 2) if n in listed])
