"""C10: a request gets its response, whenever it arrives."""
import asyncio

from hlib import (connection, gateway, havoc_seq, zip_packet, zip_ack, zip_nack_waiting, plain_adapter, Sent, Recorder,
                  StubAdapter, Network, commands, task_errors, prime)
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.util:MessageWaiter.addWaitingSession", "pyzwave.util:MessageWaiter.messageReceived",
             "pyzwave.util:MessageWaiter.waitForMessage", "pyzwave.util:MessageWaiter.removeWaitingSession",
             "pyzwave.adapter:Adapter.sendAndReceive", "pyzwave.adapter:Adapter.commandReceived",
             "pyzwave.node:Node.sendAndReceive", "pyzwave.commandclass.CommandClass:CommandClass.sendAndReceive"]
ASSUMPTIONS = ["asyncio's Future, Task, wait_for and timers behave as documented (the installed asyncio runs on a "
               "virtual clock)"]

B_GET, B_REPORT = bytes([0x20, 0x02]), 0x03


def report(h, v):
    return h.get(CC + "Basic:Report")(value=v)


def other(h):
    return h.get(CC + "SwitchBinary:Report")(value=1)


def quiet(h):
    h.check("nothing was raised in the event loop", len(h.loop.errors) == 0)


class OnConnection:
    """requests made through a connection"""

    def __init__(self, h):
        self.h = h
        self.c, self.tr = connection(h)
        havoc_seq(h, self.c)
        self.rec = Recorder("onMessageReceived")
        self.c.addListener(self.rec)

    def request(self, timeout=3):
        h = self.h
        n = len(self.tr.sent)
        t = h.spawn(self.c.sendAndReceive(h.get(CC + "Basic:Get")(), h.get(CC + "Basic:Report"), timeout=timeout))
        h.check("the request is sent at once", len(self.tr.sent) == n + 1)
        s = Sent(*self.tr.sent[n])
        h.check("and it is the one asked for", s.cmd == B_GET)
        return t, s.seq

    def ack(self, seq):
        self.tr.deliver(zip_ack(seq))

    def response(self, v):
        self.tr.deliver(zip_packet(77, bytes([0x20, B_REPORT, v])))

    def other(self, v=1):
        self.tr.deliver(zip_packet(77, bytes([0x25, 0x03, v])))

    def taken(self):
        """messages nobody was waiting for"""
        return [a[1].command for a in self.rec.named("onMessageReceived")]


class OnNode:
    """requests made through a node, whose adapter lets the harness decide when a send ends"""

    def __init__(self, h, via_class=False, endpoint=0):
        self.h = h
        prime(h)
        self.a = StubAdapter(h)
        self.node = h.get("pyzwave.node:Node")(5, self.a, [0x20])
        if endpoint:
            self.node = h.get("pyzwave.node:NodeEndPoint")(self.node, endpoint, self.a, [0x20])
        self.rec = Recorder("onMessage", onMessage=True)
        self.via = self.node.supported[0x20] if via_class else self.node
        # the recorder answers as a coroutine would
        self.node.addListener(AsyncRecorder(self.rec))
        self.gates = []
        self.a.result = self.result

    def result(self, nodeId, cmd, kw):
        f = self.h.loop.create_future()
        self.gates.append(f)
        return f

    def request(self, timeout=3):
        h = self.h
        n = len(self.gates)
        t = h.spawn(self.via.sendAndReceive(h.get(CC + "Basic:Get")(), h.get(CC + "Basic:Report"), timeout=timeout))
        h.check("the request is sent at once", len(self.gates) == n + 1)
        return t, n

    def ack(self, n, result=True):
        if not self.gates[n].done():
            self.gates[n].set_result(result)

    def response(self, v):
        self.h.loop.create_task(self.node.handleMessage(report(self.h, v), 0))

    def other(self, v=1):
        self.h.loop.create_task(self.node.handleMessage(other(self.h), 0))

    def taken(self):
        return [a[1] for a in self.rec.named("onMessage")]


class AsyncRecorder:
    def __init__(self, rec):
        self.rec = rec

    async def onMessage(self, *args):
        return self.rec.onMessage(*args)


KINDS = ["connection", "node", "class", "endpoint"]


def make(h, kind):
    return OnConnection(h) if kind == "connection" else OnNode(h, kind == "class", 2 if kind == "endpoint" else 0)


@harness(params=[(k, o) for k in KINDS for o in
                 ("ack first", "response first", "both at once", "both at once, response first", "other between")])
def order(h, p):
    """the response is received whatever its order with the acknowledgement"""
    kind, how = p
    s = make(h, kind)
    v = h.int("v", 0, 255)
    t, seq = s.request()
    if how == "ack first":
        s.ack(seq)
        h.loop.settle()
        h.check("the ack alone does not complete it", h.outcome(t)[0] == "pending")
        s.response(v)
    elif how == "response first":
        s.response(v)
        h.loop.settle()
        s.ack(seq)
    elif how == "both at once":
        s.ack(seq)
        s.response(v)
    elif how == "both at once, response first":
        s.response(v)
        s.ack(seq)
    else:
        s.other()
        s.ack(seq)
        s.other()
        h.loop.settle()
        h.check("other messages do not complete it", h.outcome(t)[0] == "pending")
        s.response(v)
    h.loop.settle()
    h.check("completed", h.outcome(t)[0] == "ok")
    m = h.outcome(t)[1]
    h.check("with the message", type(m) is h.get(CC + "Basic:Report"))
    h.check("with its content", m.value == v)
    s.response(v)
    h.loop.settle()
    h.check("a further one is nobody's response", len([m for m in s.taken() if m.hid() == 0x2003]) == 1)
    quiet(h)


@harness(params=KINDS)
def none_arrives(h, kind):
    """no response: TimeoutError when the timeout after the ack has passed, and nothing is left behind"""
    s = make(h, kind)
    t, seq = s.request(timeout=7)
    h.loop.advance(1)
    s.ack(seq)
    h.loop.settle()
    h.loop.advance(6)
    h.check("still waiting", h.outcome(t)[0] == "pending")
    s.other()
    h.loop.advance(2)
    h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
    v = h.int("v", 0, 255)
    s.response(v)
    h.loop.settle()
    got = [m for m in s.taken() if m.hid() == 0x2003]
    h.check("a late one goes to the listeners", h.all(len(got) == 1, got[0].value == v))
    quiet(h)


@harness
def any_time(h):
    """the response completes the request at any time before the timeout, and not after it"""
    s = OnNode(h)
    timeout = h.int("timeout", 1)
    when = h.int("when", 0)
    h.assume(when != timeout)
    t, seq = s.request(timeout=timeout)
    s.ack(seq)
    h.loop.settle()
    h.loop.advance(when)
    s.response(3)
    h.loop.settle()
    if when < timeout:
        h.check("completed", h.outcome(t)[0] == "ok")
        h.check("nothing for the listeners", len(s.taken()) == 0)
    else:
        h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
        h.check("the listeners get it", len(s.taken()) == 1)
    quiet(h)


@harness(params=["before", "after", "never"])
def never_acknowledged(h, when):
    """a request of a connection whose acknowledgement is lost: its response is still its response"""
    s = make(h, "connection")
    v = h.int("v", 0, 255)
    t, seq = s.request()
    if when == "before":
        s.response(v)
        h.loop.settle()
    h.check("it comes to an end", h.loop.advance(3.5) is None and (when != "after" or h.outcome(t)[0] == "pending"))
    if when == "after":
        s.response(v)
        h.loop.settle()
    h.loop.advance(3)
    if when == "never":
        h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
        s.response(v)
        h.loop.settle()
        h.check("the listeners get a later one", len([m for m in s.taken() if m.hid() == 0x2003]) == 1)
    else:
        h.check("completed", h.outcome(t)[0] == "ok")
        h.check("with the message", h.outcome(t)[1].value == v)
    quiet(h)


@harness(params=["node", "class", "endpoint"])
def not_delivered(h, kind):
    """a request whose command did not reach the node"""
    s = make(h, kind)
    t, n = s.request()
    if h.choice("early", [0, 1]):
        s.other()
        h.loop.settle()
    s.ack(n, False)
    h.loop.settle()
    h.check("TimeoutError", isinstance(h.task_error(t), asyncio.TimeoutError))
    s.response(1)
    h.loop.settle()
    h.check("a later message goes to the listeners", len([m for m in s.taken() if m.hid() == 0x2003]) == 1)
    quiet(h)


@harness(params=[1, 2, 3, 4])
def any_exception_in_send(h, which):
    """a send that raises"""
    s = OnNode(h)
    err = [None, ValueError("x"), asyncio.TimeoutError(), OSError("x"), asyncio.CancelledError()][which]
    t, n = s.request()
    s.gates[n].set_exception(err) if which != 4 else t.cancel()
    h.loop.settle()
    h.check("it ends", h.outcome(t)[0] != "pending")
    h.check("without a result", h.outcome(t)[0] != "ok")
    s.response(1)
    h.loop.settle()
    h.check("a later message goes to the listeners", len(s.taken()) == 1)
    quiet(h)


@harness(params=[(k, w) for k in KINDS for w in ("before ack", "after ack", "ack and cancel", "response and cancel",
                                                  "cancel and response")])
def cancelled(h, p):
    """a cancelled request leaves nothing behind that could swallow a later message"""
    kind, when = p
    s = make(h, kind)
    t, seq = s.request()
    expected = 1
    if when == "before ack":
        t.cancel()
    elif when == "after ack":
        s.ack(seq)
        h.loop.settle()
        t.cancel()
    elif when == "ack and cancel":
        s.ack(seq)
        t.cancel()
    elif when == "response and cancel":
        s.ack(seq)
        h.loop.settle()
        s.response(9)
        t.cancel()
        expected = None
    else:
        s.ack(seq)
        h.loop.settle()
        t.cancel()
        s.response(9)
        expected = 2
    h.loop.settle()
    h.check("it ended", h.outcome(t)[0] != "pending")
    s.response(1)
    h.loop.settle()
    got = [m for m in s.taken() if m.hid() == 0x2003]
    if expected is None:
        h.check("a later message goes to the listeners", len(got) >= 1)
    else:
        h.check("later messages go to the listeners", len(got) == expected)
    # and the next request works
    t, seq = s.request()
    s.ack(seq)
    s.response(4)
    h.loop.settle()
    h.check("the next request gets its response", h.outcome(t)[0] == "ok")
    h.check("its own", h.outcome(t)[1].value == 4)
    quiet(h)


@harness(params=[(k, n) for k in KINDS for n in (2, 3, 4)], kind="bounded",
         note="2 to 4 requests at a time")
def concurrent(h, p):
    """several requests for the same kind are all completed, but those that gave up"""
    kind, n = p
    s = make(h, kind)
    reqs = [s.request() for _ in range(n)]
    gone = h.choice("gone", list(range(-1, n)))
    if gone >= 0:
        reqs[gone][0].cancel()
        if h.choice("noticed", [0, 1]):
            h.loop.settle()
    v = h.int("v", 0, 255)
    acked = h.choice("acked", [0, 1, 2])      # acks before, at the same time as or after the response
    if acked == 0:
        for t, q in reqs:
            s.ack(q)
        h.loop.settle()
        s.response(v)
    elif acked == 1:
        for t, q in reqs[:n // 2]:
            s.ack(q)
        s.response(v)
        for t, q in reqs[n // 2:]:
            s.ack(q)
    else:
        s.response(v)
        h.loop.settle()
        for t, q in reqs:
            s.ack(q)
    h.loop.settle()
    for i, (t, q) in enumerate(reqs):
        if i == gone:
            h.check("the cancelled one ended", h.outcome(t)[0] not in ("pending", "ok"))
        else:
            h.check("completed", h.outcome(t)[0] == "ok")
            h.check("with the message", h.outcome(t)[1].value == v)
    h.check("and the listeners are not bothered", len(s.taken()) == 0)
    s.response(v)
    h.loop.settle()
    h.check("the next one is nobody's", len(s.taken()) == 1)
    quiet(h)


@harness(params=KINDS)
def different_kinds(h, kind):
    """requests for different kinds are completed by their own kind only"""
    s = make(h, kind)
    t1, q1 = s.request()
    SB = h.get(CC + "SwitchBinary:Report")
    target = s.c if kind == "connection" else s.via
    t2 = h.spawn(target.sendAndReceive(h.get(CC + "SwitchBinary:Get")(), SB))
    q2 = Sent(*s.tr.sent[-1]).seq if kind == "connection" else q1 + 1
    s.ack(q1)
    s.ack(q2)
    h.loop.settle()
    if h.choice("first", [0, 1]):
        s.response(5)
        h.loop.settle()
        h.check("its own", h.outcome(t1)[0] == "ok")
        h.check("not the other", h.outcome(t2)[0] == "pending")
        s.other()
        h.loop.settle()
        h.check("the other one", h.all(h.outcome(t2)[0] == "ok", type(h.outcome(t2)[1]) is SB))
    else:
        s.other()
        h.loop.settle()
        h.check("the other", h.all(h.outcome(t2)[0] == "ok", type(h.outcome(t2)[1]) is SB))
        h.check("not this", h.outcome(t1)[0] == "pending")
        s.response(5)
        h.loop.settle()
        h.check("its own", h.all(h.outcome(t1)[0] == "ok", h.outcome(t1)[1].value == 5))
    quiet(h)


@harness(params=KINDS, fuzz=5)
def one_times_out_another_waits(h, kind):
    """one of two requests gives up; the other one still gets its response, and only once"""
    s = make(h, kind)
    t1, q1 = s.request(timeout=2)
    t2, q2 = s.request(timeout=20)
    s.ack(q1)
    s.ack(q2)
    h.loop.settle()
    h.loop.advance(10)
    h.check("the first timed out", isinstance(h.task_error(t1), asyncio.TimeoutError))
    h.check("the second waits", h.outcome(t2)[0] == "pending")
    s.response(6)
    h.loop.settle()
    h.check("the second completes", h.all(h.outcome(t2)[0] == "ok", h.outcome(t2)[1].value == 6))
    h.check("the listeners are not bothered", len(s.taken()) == 0)
    quiet(h)


@harness
def timeout_in_the_same_instant(h):
    """the response arrives in the instant the timeout passes: either it completes the request or the
    request times out and the listeners get the message, but it never vanishes"""
    s = OnNode(h)
    t, q = s.request(timeout=3)
    s.ack(q)
    h.loop.settle()
    if h.choice("first", [0, 1]):
        h.loop.call_at(3, s.response, 8)
        h.loop.advance(5)
    else:
        h.loop.advance(3)
        s.response(8)
    h.loop.settle()
    if h.outcome(t)[0] == "ok":
        h.check("completed with it", h.outcome(t)[1].value == 8)
    else:
        h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
        h.check("the listeners get it", len(s.taken()) == 1)
    quiet(h)


@harness
def sleeping_node(h):
    """the response after a long sleep: the timeout starts when the command is acknowledged"""
    s = OnConnection(h)
    t, seq = s.request(timeout=3)
    s.tr.deliver(zip_nack_waiting(seq, 100))
    h.loop.settle()
    h.loop.advance(150)
    s.ack(seq)
    h.loop.settle()
    h.loop.advance(2)
    h.check("still waiting", h.outcome(t)[0] == "pending")
    s.response(3)
    h.loop.settle()
    h.check("completed", h.outcome(t)[0] == "ok")
    quiet(h)


@harness(fuzz=5, kind="bounded",
         note="a fixed number of requests in a row")
def in_a_row(h):
    """many requests one after the other, some of them unanswered"""
    s = OnConnection(h)
    for i in range(12):
        t, seq = s.request()
        k = i % 4
        if k == 0:
            s.response(i)
            s.ack(seq)
            h.loop.settle()
        elif k == 1:
            s.ack(seq)
            h.loop.settle()
            h.loop.advance(4)
        elif k == 2:
            h.loop.advance(8)
        else:
            s.ack(seq)
            s.response(i)
            h.loop.settle()
        h.check("it ended", h.outcome(t)[0] != "pending")
        h.check("as expected", (h.outcome(t)[0] == "ok") == (k in (0, 3)))
        if k in (0, 3):
            h.check("with its own response", h.outcome(t)[1].value == i)
    quiet(h)


@harness
def prepared_session(h):
    """a session set up before the wait gets the message that arrives in between"""
    prime(h)
    n = h.get("pyzwave.node:Node")(5, StubAdapter(h), [])
    R = h.get(CC + "Basic:Report")
    session = n.addWaitingSession(R)
    v = h.int("v", 0, 255)
    h.check("handled", n.messageReceived(report(h, v)) is True)
    t = h.spawn(n.waitForMessage(R, session=session))
    h.check("completed", h.outcome(t)[0] == "ok")
    h.check("with the message", h.outcome(t)[1].value == v)
    h.check("nobody waits any more", n.messageReceived(report(h, v)) is False)


@harness
def abandoned_session(h):
    """a session that was given up is not counted as handling a message"""
    prime(h)
    n = h.get("pyzwave.node:Node")(5, StubAdapter(h), [])
    R = h.get(CC + "Basic:Report")
    how = h.choice("how", [0, 1])
    session = n.addWaitingSession(R)
    if how == 0:
        session.cancel()
    else:
        n.removeWaitingSession(R, session)
    h.check("not handled", n.messageReceived(report(h, 1)) is False)
    h.check("nor raised", len(h.loop.errors) == 0)


@harness
def by_kind(h):
    """waiting for any kind: completed by exactly that kind"""
    prime(h)
    n = h.get("pyzwave.node:Node")(5, StubAdapter(h), [])
    a, b = h.int("a", 0, 0xFFFF), h.int("b", 0, 0xFFFF)

    class Kind:
        def __init__(self, hid):
            self._hid = hid

        def hid(self):
            return self._hid
    t = h.spawn(n.waitForMessage(Kind(a)))
    m = Kind(b)
    r = n.messageReceived(m)
    h.loop.settle()
    h.check("handled exactly if it is the kind", h.iff(r is True, a == b))
    if a == b:
        h.check("completed", h.outcome(t)[0] == "ok" and h.outcome(t)[1] is m)
    else:
        h.check("still waiting", h.outcome(t)[0] == "pending")


@harness(params=KINDS)
def of_its_own(h, kind):
    """two nodes (or connections) are asked the same: each request gets the response of its own, whichever is first"""
    one, two = make(h, kind), make(h, kind)
    (t1, a1), (t2, a2) = one.request(), two.request()
    one.ack(a1)
    two.ack(a2)
    h.loop.settle()
    v1, v2 = h.int("v1", 0, 255), h.int("v2", 0, 255)
    first = h.flag("first")
    (one if first else two).response(v1 if first else v2)
    h.loop.settle()
    h.check("only the request of the one that answered is complete",
            [h.outcome(t)[0] for t in (t1, t2)] == (["ok", "pending"] if first else ["pending", "ok"]))
    (two if first else one).response(v2 if first else v1)
    h.loop.settle()
    h.check("both are complete", h.all(h.outcome(t1)[0] == "ok", h.outcome(t2)[0] == "ok"))
    h.check("each with its own response", h.all(h.outcome(t1)[1].value == v1, h.outcome(t2)[1].value == v2))
    h.check("nothing is left over", len(one.taken()) + len(two.taken()) == 0)
    quiet(h)


@harness(params=[20, 255, 300], fuzz=1, kind="bounded", note="300 waiters")
def very_many(h, n):
    """however many wait for the same kind"""
    w = h.get("pyzwave.util:MessageWaiter")()
    prime(h)
    R, G = h.get(CC + "Basic:Report"), h.get(CC + "Basic:Get")
    if h.symbolic:
        n = 3
    tasks = [h.spawn(w.waitForMessage(R, timeout=3 + i % 2)) for i in range(n)]
    w.messageReceived(G())
    h.loop.settle()
    h.check("not by another kind", [h.outcome(t)[0] for t in tasks] == ["pending"] * n)
    late = h.choice("some have given up", [False, True])
    if late:
        h.loop.advance(3)
        left = [i for i in range(n) if i % 2]
        h.check("exactly those whose time is over", [i for i in range(n) if h.outcome(tasks[i])[0] == "pending"] == left)
    h.check("taken", w.messageReceived(R(value=7)) is True)
    h.loop.settle()
    done = [i for i in range(n) if h.outcome(tasks[i])[0] == "ok"]
    h.check("every one is completed", done == ([i for i in range(n) if i % 2] if late else list(range(n))))
    h.check("nobody is left", w.messageReceived(R(value=8)) is not True)
