"""C07: a send succeeds exactly when its own packet is acknowledged."""
from hlib import (connection, havoc_seq, sent, commands, zip_packet, zip_ack, zip_nack_waiting, plain_adapter, Sent,
                  Recorder, ACKREQ, ACKRESP, NACK, WAITING, QFULL, OPTERR, gateway, Network)
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.adapter:Adapter.waitForAck", "pyzwave.adapter:Adapter.ackReceived",
             "pyzwave.adapter:Ack.received", "pyzwave.adapter:Ack.wait", "pyzwave.zipconnection:ZIPConnection.send",
             "pyzwave.zipconnection:ZIPConnection.onPacket", "pyzwave.connection:Connection.send"]
ASSUMPTIONS = ["asyncio's Future, Task, Event, wait_for and timers behave as documented (the installed asyncio runs on a "
               "virtual clock)", "datagrams arrive between callbacks, never inside a call"]


def basic(h, v=1):
    return h.get(CC + "Basic:Set")(value=v)


def quiet(h):
    h.check("nothing was raised in the event loop", len(h.loop.errors) == 0)


@harness(functions=["pyzwave.zipconnection:ZIPConnection.send"])
def packet(h):
    """what leaves: one packet, the endpoints and the command asked for, an ack requested"""
    c, tr = connection(h)
    havoc_seq(h, c)
    v, src, dst = h.int("v", 0, 255), h.int("src", 0, 127), h.int("dst", 0, 127)
    t = h.spawn(c.send(basic(h, v), sourceEP=src, destEP=dst))
    h.check("one datagram", len(tr.sent) == 1)
    s = Sent(*tr.sent[0])
    h.check("an ack is requested, nothing else", s.flags0 == ACKREQ)
    h.check("a command is included", s.flags1 & 0xE0 == 0x40)
    h.check("source endpoint", s.src == src)
    h.check("destination endpoint", s.dst == dst)
    h.check("the command", s.cmd == bytes([0x20, 0x01, v]))
    h.check("not done without an ack", h.outcome(t)[0] == "pending")


@harness
def own_ack(h):
    """success exactly when the ack carries the sequence number of the packet"""
    c, tr = connection(h)
    havoc_seq(h, c)
    t = h.spawn(c.send(basic(h)))
    seq = Sent(*tr.sent[0]).seq
    a = h.int("a", 0, 255)
    extra = h.int("extra", 0, 31)        # whatever flags and reserved bits besides
    src, dst = h.int("src", 0, 127), h.int("dst", 0, 127)
    # whatever it carries
    inside = h.choice("inside", [(b"", None), (b"\x20\x03\x05", None), (b"", bytes([0x84, 0x02, 1, 2])), (b"\x25\x03\xff", bytes([0x84, 0x02, 1, 2]))])
    tr.deliver(zip_packet(a, inside[0], ACKRESP + extra, src, dst, inside[1]))
    h.loop.settle()
    if a == seq:
        h.check("success", h.outcome(t) == ("ok", True))
    else:
        h.check("an ack of another packet", h.outcome(t)[0] == "pending")
        tr.deliver(zip_ack(seq))
        h.loop.settle()
        h.check("success with the right one", h.outcome(t) == ("ok", True))
    quiet(h)


@harness(params=[0, 0.5, 1, 3, 10, 24])
def timeout(h, seconds):
    """no ack: failure when the timeout has passed, not earlier"""
    c, tr = connection(h)
    havoc_seq(h, c)
    a = h.int("a", 0, 255)
    t = h.spawn(c.send(basic(h), timeout=seconds))
    seq = Sent(*tr.sent[0]).seq
    h.assume(a != seq)
    if seconds > 0:
        h.loop.advance(seconds - 0.25)
        h.check("still waiting", h.outcome(t)[0] == "pending")
        tr.deliver(zip_ack(a))
        h.loop.settle()
        h.check("and not disturbed", h.outcome(t)[0] == "pending")
        h.loop.advance(0.5)
    h.check("failure", h.outcome(t) == ("ok", False))
    tr.deliver(zip_ack(seq))
    h.loop.settle()
    h.check("a late ack changes nothing", h.outcome(t) == ("ok", False))
    quiet(h)


@harness(functions=["pyzwave.adapter:Adapter.waitForAck"])
def any_timeout(h):
    """the wait for an ack lasts exactly as long as asked for"""
    a = plain_adapter(h)
    seconds = h.int("seconds", 0)
    ack = h.int("id", 0, 255)
    when = h.int("when", 0)
    h.assume(when != seconds)
    t = h.spawn(a.waitForAck(ack, timeout=seconds))
    h.loop.advance(when)
    if when < seconds:
        h.check("still waiting", h.outcome(t)[0] == "pending")
        r = a.ackReceived(h.get("pyzwave.message:Message").decode(zip_ack(ack)))
        h.loop.settle()
        h.check("the ack ends it", h.outcome(t)[0] == "ok")
    else:
        import asyncio
        h.check("timed out", isinstance(h.task_error(t), asyncio.TimeoutError))
        a.ackReceived(h.get("pyzwave.message:Message").decode(zip_ack(ack)))
    quiet(h)


@harness(params=["acked", "timed out", "cancelled", "queued", "queued and timed out", "queued and cancelled"], functions=["pyzwave.adapter:Adapter.waitForAck"])
def number_used_again(h, how):
    """a number taken again before the one waiting for it first has gone on: each has its own ack"""
    import asyncio
    a = plain_adapter(h)
    decode = h.get("pyzwave.message:Message").decode
    ack = h.int("id", 0, 255)
    first = h.spawn(a.waitForAck(ack, timeout=3))
    h.loop.settle()
    if "queued" in how:
        a.ackReceived(decode(zip_nack_waiting(ack, 5)))
        h.loop.settle()
    if how in ("acked", "queued"):
        # it is about to be used again when the ack arrives
        second = h.loop.create_task(a.waitForAck(ack, timeout=3))
        a.ackReceived(decode(zip_ack(ack)))
    else:
        if "timed out" in how:
            h.loop.advance(65 if "queued" in how else 3)
        else:
            first.cancel()
            h.loop.settle()
        second = h.loop.create_task(a.waitForAck(ack, timeout=3))
    h.loop.settle()
    h.check("the first has ended", h.outcome(first)[0] == ("cancelled" if "cancelled" in how else "error"
                                                           if "timed out" in how else "ok"))
    h.check("the second waits for its own", h.outcome(second)[0] == "pending")
    a.ackReceived(decode(zip_ack(ack)))
    h.loop.settle()
    h.check("and has it", h.outcome(second)[0] == "ok")
    quiet(h)


@harness
def same_instant(h):
    """the ack arrives in the instant the timeout passes, before the timeout is noticed"""
    c, tr = connection(h)
    t = h.spawn(c.send(basic(h), timeout=3))
    seq = Sent(*tr.sent[0]).seq
    h.loop.advance(2.999)
    tr.deliver(zip_ack(seq))
    h.loop.advance(0.001)
    h.check("success", h.outcome(t) == ("ok", True))
    quiet(h)


NOISE = ["nack", "nack_full", "keepalive", "keepalive_request", "report", "report_ackreq", "unknown", "advertisement",
         "garbage", "empty", "cut"]


def noise(h, kind, seq):
    """traffic that is not an acknowledgement, carrying the number of the packet where it has one"""
    if kind == "nack":
        return zip_packet(seq, b"", NACK)
    if kind == "nack_full":
        return zip_packet(seq, b"", NACK + h.choice("bits", [QFULL, OPTERR, QFULL + OPTERR]))
    if kind == "keepalive":
        return bytes([0x23, 0x03, 0x40])
    if kind == "keepalive_request":
        return bytes([0x23, 0x03, 0x80])
    if kind == "report":
        return zip_packet(seq, bytes([0x20, 0x03, 9]))
    if kind == "report_ackreq":
        return zip_packet(seq, bytes([0x20, 0x03, 9]), ACKREQ)
    if kind == "unknown":
        return bytes([0xAA, 0xBB]) + bytes([ACKRESP, 0, seq, 0, 0])
    if kind == "advertisement":
        return bytes([0x58, 0x01, 0, seq]) + bytes(16) + bytes([1, 2, 3, 4])
    if kind == "garbage":
        return bytes([0x23, 0x02, 0, 0xC0, seq, 0, 0, 200, 1])
    if kind == "empty":
        return b""
    return bytes([0x23, 0x02, ACKRESP, 0])


@harness(params=NOISE)
def other_traffic(h, kind):
    """anything that is not an acknowledgement neither completes nor breaks a send"""
    c, tr = connection(h)
    havoc_seq(h, c)
    t = h.spawn(c.send(basic(h)))
    seq = Sent(*tr.sent[0]).seq
    tr.deliver(noise(h, kind, seq))
    h.loop.settle()
    h.check("still waiting", h.outcome(t)[0] == "pending")
    tr.deliver(zip_ack(seq))
    h.loop.settle()
    h.check("success", h.outcome(t) == ("ok", True))
    tr.deliver(noise(h, kind, seq))
    tr.deliver(zip_ack(seq))
    h.loop.settle()
    quiet(h)


ENDS = ["acked", "timeout", "cancelled"]


@harness(params=[(a, b) for a in ENDS for b in ENDS])
def reuse(h, p):
    """a number used by a send that has ended, in any way, can be used again"""
    first, second = p
    c, tr = connection(h)
    havoc_seq(h, c)

    def end(t, seq, how):
        if how == "acked":
            tr.deliver(zip_ack(seq))
            h.loop.settle()
            h.check("success", h.outcome(t) == ("ok", True))
        elif how == "timeout":
            h.loop.advance(5)
            h.check("failure", h.outcome(t) == ("ok", False))
        else:
            t.cancel()
            h.loop.settle()
            h.check("cancelled", h.outcome(t)[0] == "cancelled")
    t1 = h.spawn(c.send(basic(h)))
    seq = Sent(*tr.sent[0]).seq
    end(t1, seq, first)
    havoc_seq(h, c, "seq2")
    n = len(tr.sent)
    t2 = h.spawn(c.send(basic(h)))
    h.check("it is sent", len(tr.sent) == n + 1)
    seq2 = Sent(*tr.sent[n]).seq
    h.assume(seq2 == seq)                   # any number of sends later the counter is back
    h.check("and waited for", h.outcome(t2)[0] == "pending")
    end(t2, seq2, second)
    quiet(h)


@harness(params=[(n, w) for n in (2, 3) for w in range(n)], kind="bounded", note="2 sends and 4 events, 3 sends and 3 events (thorough: 4)", time=60)
def interleaved(h, p):
    """several sends at once: each ends by its own ack, cancellation or timeout only"""
    n, last = p
    c, tr = connection(h)
    tasks, seqs, want = [], [], []
    havoc_seq(h, c)
    for i in range(n):
        tasks.append(h.spawn(c.send(basic(h, i))))
        seqs.append(Sent(*tr.sent[i]).seq)
        want.append("pending")
    for j in range(3 if n == 3 and not h.thorough else 4):
        ev = h.choice("event%d" % j, ["ack", "cancel"])
        i = h.choice("which%d" % j, list(range(n))) if j else last
        if ev == "ack":
            tr.deliver(zip_ack(seqs[i]))
            if want[i] == "pending":
                want[i] = "ok"
        else:
            h.loop.settle()
            tasks[i].cancel()
            if want[i] == "pending":
                want[i] = "cancelled"
        h.loop.settle()
        h.check("each in the state its own events put it in", [h.outcome(t)[0] for t in tasks] == want)
    h.loop.advance(4)
    for t, w in zip(tasks, want):
        h.check("in the end", h.outcome(t)[0] == (w if w != "pending" else "ok"))
        if w != "cancelled":
            h.check("the result", h.outcome(t)[1] == (w == "ok"))
    quiet(h)


@harness
def two_outstanding(h):
    """two sends with any two numbers: an ack with any number completes the one it belongs to"""
    c, tr = connection(h)
    havoc_seq(h, c, "s1")
    t1 = h.spawn(c.send(basic(h, 1)))
    havoc_seq(h, c, "s2")
    t2 = h.spawn(c.send(basic(h, 2)))
    s1, s2 = Sent(*tr.sent[0]).seq, Sent(*tr.sent[1]).seq
    a = h.int("a", 0, 255)
    tr.deliver(zip_ack(a))
    h.loop.settle()
    h.check("the first by its own", h.iff(h.outcome(t1)[0] == "ok", a == s1))
    h.check("the second by its own", h.iff(h.outcome(t2)[0] == "ok", a == s2))
    quiet(h)


@harness
def acks_in_one_instant(h):
    """the acks of several sends arriving before any of them is noticed"""
    c, tr = connection(h)
    havoc_seq(h, c)
    tasks = [h.spawn(c.send(basic(h, i))) for i in range(3)]
    seqs = [Sent(*x).seq for x in tr.sent]
    got = [h.choice("ack%d" % i, [0, 1, 2]) for i in range(3)]
    for i in range(3):
        for _ in range(got[i]):
            tr.deliver(zip_ack(seqs[i]))
    h.loop.settle()
    for i in range(3):
        h.check("success exactly for those acked", (h.outcome(tasks[i]) == ("ok", True)) == (got[i] > 0))
    quiet(h)


@harness
def two_connections(h):
    """connections do not see each other's acks"""
    gw, net = gateway(h, Network(h, nodes=(1, 2)))
    c1 = h.run(gw.connectToNode(1))
    c2 = h.run(gw.connectToNode(2))
    tr1, tr2 = net.transports[-2], net.transports[-1]
    net.mute = True
    n1, n2 = len(tr1.sent), len(tr2.sent)
    s = h.int("s", 0, 255)
    for c in (c1, c2):
        for k in [k for k, v in vars(c).items() if "seq" in k.lower() and isinstance(v, int)]:
            setattr(c, k, s)
    t1 = h.spawn(c1.send(basic(h, 1)))
    t2 = h.spawn(c2.send(basic(h, 2)))
    h.check("each over its own socket", h.all(len(tr1.sent) == n1 + 1, len(tr2.sent) == n2 + 1))
    tr2.deliver(zip_ack(Sent(*tr2.sent[n2]).seq))
    h.loop.settle()
    h.check("the second is done", h.outcome(t2) == ("ok", True))
    h.check("the first is not", h.outcome(t1)[0] == "pending")
    quiet(h)


@harness(fuzz=3)
def command_that_cannot_be_encoded(h):
    """a send failing before anything left leaves nothing behind"""
    c, tr = connection(h)
    havoc_seq(h, c)
    bad = h.get(CC + "Basic:Set")()
    e = h.task_error(h.spawn(c.send(bad)))
    h.check("the caller is told", e is not None)
    h.check("nothing was sent", len(tr.sent) == 0)
    t = h.spawn(c.send(basic(h)))
    tr.deliver(zip_ack(Sent(*tr.sent[0]).seq))
    h.loop.settle()
    h.check("the next send works", h.outcome(t) == ("ok", True))
