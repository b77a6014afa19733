"""C08: a queued (waiting) response extends the wait for the sleeping node."""
import asyncio

from hlib import (connection, havoc_seq, zip_packet, zip_ack, zip_nack_waiting, plain_adapter, Sent, NACK, WAITING)
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.adapter:Ack.queued", "pyzwave.adapter:Ack.wait", "pyzwave.adapter:Ack.received",
             "pyzwave.adapter:Adapter.waitForAck", "pyzwave.adapter:Adapter.ackReceived",
             "pyzwave.commandclass.Zip:HeaderExtension.expectedDelay", "pyzwave.zipconnection:ZIPConnection.onPacket"]
ASSUMPTIONS = ["asyncio's Event, wait_for and timers behave as documented (the installed asyncio runs on a virtual "
               "clock)"]


def decode(h, raw):
    return h.get("pyzwave.message:Message").decode(raw)


def waiting(h, ack, name="d"):
    """a waiting response and the wait it asks for"""
    kind = h.choice("ext", ["delay", "none", "other"])
    if kind == "delay":
        d = h.int(name, -(1 << 23), (1 << 23) - 1)
        return zip_nack_waiting(ack, d), h.ite(d < 0, 180, d + 60)
    if kind == "none":
        return zip_nack_waiting(ack), 60
    # a header extension without an expected delay
    return zip_packet(ack, b"", NACK + WAITING, ext=bytes([0x84, 0x02, 0x80, 0x01])), 60


def quiet(h):
    h.check("nothing was raised in the event loop", len(h.loop.errors) == 0)


@harness(params=[3, 100, 100000])
def extended(h, timeout):
    """after the waiting response, the wait is the announced one, counted from the response, whatever the timeout was"""
    a = plain_adapter(h)
    ack = h.int("id", 0, 255)
    t = h.spawn(a.waitForAck(ack, timeout=timeout))
    h.loop.advance(2)
    raw, wait = waiting(h, ack)
    a.ackReceived(decode(h, raw))
    h.loop.settle()
    when = h.int("when", 0, 1 << 25)
    h.assume(when != wait)
    h.loop.advance(when)
    if when < wait:
        h.check("still waiting", h.outcome(t)[0] == "pending")
        a.ackReceived(decode(h, zip_ack(ack)))
        h.loop.settle()
        h.check("the ack ends it", h.outcome(t)[0] == "ok")
    else:
        h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
    quiet(h)


@harness
def extended_again(h):
    """a further waiting response starts the wait it announces, whatever the first announced"""
    a = plain_adapter(h)
    ack = h.int("id", 0, 255)
    t = h.spawn(a.waitForAck(ack, timeout=3))
    raw, wait = waiting(h, ack)
    a.ackReceived(decode(h, raw))
    h.loop.settle()
    first = h.int("first", 0)
    h.assume(first < wait)
    h.loop.advance(first)
    h.check("still waiting", h.outcome(t)[0] == "pending")
    raw2, wait2 = waiting(h, ack, "d2")
    a.ackReceived(decode(h, raw2))
    h.loop.settle()
    when = h.int("when", 0)
    h.assume(when != wait2)
    h.loop.advance(when)
    if when < wait2:
        h.check("still waiting after the second", h.outcome(t)[0] == "pending")
        a.ackReceived(decode(h, zip_ack(ack)))
        h.loop.settle()
        h.check("the ack ends it", h.outcome(t)[0] == "ok")
    else:
        h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
    quiet(h)


@harness
def waiting_then_ack_at_once(h):
    """the waiting response and the ack arrive before either is noticed"""
    a = plain_adapter(h)
    ack = h.int("id", 0, 255)
    t = h.spawn(a.waitForAck(ack, timeout=3))
    raw, _ = waiting(h, ack)
    for _ in range(h.choice("n", [1, 2])):
        a.ackReceived(decode(h, raw))
    a.ackReceived(decode(h, zip_ack(ack)))
    h.loop.settle()
    h.check("the ack ends it", h.outcome(t)[0] == "ok")
    quiet(h)


@harness
def another_packet(h):
    """a waiting response extends only the packet it is for"""
    a = plain_adapter(h)
    one, two = h.int("one", 0, 255), h.int("two", 0, 255)
    h.assume(one != two)
    t1 = h.spawn(a.waitForAck(one, timeout=3))
    t2 = h.spawn(a.waitForAck(two, timeout=3))
    raw, wait = waiting(h, two)
    a.ackReceived(decode(h, raw))
    h.loop.settle()
    h.loop.advance(4)
    h.check("the other one times out as usual", isinstance(h.task_error(t1), asyncio.TimeoutError))
    if wait > 4:
        h.check("this one still waits", h.outcome(t2)[0] == "pending")
    a.ackReceived(decode(h, zip_nack_waiting(one, 5)))
    h.loop.settle()
    h.check("a waiting response for nothing", h.outcome(t1)[0] == "error")
    quiet(h)


@harness(params=[[0, 1, 2], [2, 1, 0], [1, 0, 2], [1, 2, 0]], fuzz=30)
def several_queued(h, order):
    """several commands are queued: each is ended by its own ack, in whatever order they come"""
    a = plain_adapter(h)
    ids = [h.int("id%d" % i, 0, 255) for i in range(3)]
    h.assume(h.all(ids[0] != ids[1], ids[1] != ids[2], ids[0] != ids[2]))
    ts = [h.spawn(a.waitForAck(i, timeout=3)) for i in ids]
    for i in ids:
        a.ackReceived(decode(h, zip_nack_waiting(i, 1000)))
        h.loop.settle()
    left = [0, 1, 2]
    for k in order:
        h.loop.advance(h.choice("later%d" % k, [0, 100]))
        h.check("all of the others wait", h.all(*[h.outcome(ts[j])[0] == "pending" for j in left]))
        a.ackReceived(decode(h, zip_ack(ids[k])))
        h.loop.settle()
        h.check("its own ack ends it", h.outcome(ts[k])[0] == "ok")
        left = [j for j in left if j != k]
    quiet(h)


DELAYS = [None, -5, 0, 1, 10, 300]


@harness(params=DELAYS, fuzz=4)
def whole_send(h, delay):
    """the same through a connection, with its keep-alives going on meanwhile"""
    c, tr = connection(h)
    havoc_seq(h, c)
    t = h.spawn(c.send(h.get(CC + "Basic:Set")(value=1), timeout=3))
    seq = Sent(*tr.sent[0]).seq
    wait = 60 if delay is None else 180 if delay < 0 else delay + 60
    tr.deliver(zip_nack_waiting(seq, delay))
    h.loop.settle()
    h.loop.advance(wait - 1)
    h.check("still waiting", h.outcome(t)[0] == "pending")
    if h.choice("answer", [0, 1]):
        tr.deliver(zip_ack(seq))
        h.loop.settle()
        h.check("success", h.outcome(t) == ("ok", True))
    else:
        h.loop.advance(2)
        h.check("failure", h.outcome(t) == ("ok", False))
    quiet(h)


@harness(fuzz=4, kind="bounded",
         note="fifty waiting responses in a row")
def many_times(h):
    """any number of waiting responses: fifty here, each keeping the send alive"""
    c, tr = connection(h)
    t = h.spawn(c.send(h.get(CC + "Basic:Set")(value=1), timeout=3))
    seq = Sent(*tr.sent[0]).seq
    for i in range(50):
        tr.deliver(zip_nack_waiting(seq, 10))
        h.loop.settle()
        h.loop.advance(65)
        h.check("still waiting", h.outcome(t)[0] == "pending")
    tr.deliver(zip_ack(seq))
    h.loop.settle()
    h.check("success", h.outcome(t) == ("ok", True))
    quiet(h)


@harness
def queued_send_keeps_its_number(h):
    """commands sent meanwhile do not take the number of the queued one"""
    c, tr = connection(h)
    havoc_seq(h, c)
    t = h.spawn(c.send(h.get(CC + "Basic:Set")(value=1)))
    seq = Sent(*tr.sent[0]).seq
    tr.deliver(zip_nack_waiting(seq, 1000))
    h.loop.settle()
    havoc_seq(h, c, "later")
    t2 = h.spawn(c.send(h.get(CC + "Basic:Set")(value=2)))
    seq2 = Sent(*tr.sent[1]).seq
    h.check("another number", seq2 != seq)
    tr.deliver(zip_ack(seq2))
    h.loop.settle()
    h.check("the later one is done", h.outcome(t2) == ("ok", True))
    h.check("the queued one is not", h.outcome(t)[0] == "pending")
    tr.deliver(zip_ack(seq))
    h.loop.settle()
    h.check("until its own ack", h.outcome(t) == ("ok", True))
    quiet(h)
