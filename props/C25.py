"""C25: the connection is kept alive exactly when it has been idle."""
from hlib import connection, gateway, Network, zip_packet, zip_ack, zip_nack_waiting, Sent, havoc_seq, task_errors
from pyvc.api import harness

Z = "pyzwave.zipconnection:ZIPConnection."
FUNCTIONS = [Z + "connect", Z + "resetKeepAlive", Z + "keepAlive", Z + "send"]
ASSUMPTIONS = ["timers of asyncio fire at the time they were set for (virtual clock)",
               "times are whole seconds (the code compares and adds them only)"]

ALIVE = b"\x23\x03\x80"
IDLE = 25


class Watch:
    """everything a socket sends, with the time it was sent"""

    def __init__(self, h, tr):
        self.h, self.tr, self.log = h, tr, []
        self.then = tr.onsend
        tr.onsend = self._sent

    def _sent(self, tr, data, addr):
        self.log.append((self.h.loop.time(), data[:]))
        if self.then is not None:
            self.then(tr, data, addr)

    def take(self):
        out, self.log = self.log, []
        return out


def timers(h):
    return len([t for t in h.loop.pending_timers()])


def idle(h, w, last, rounds=3):
    """nothing happens from now on, the last thing was sent at `last`: a keep-alive every 25 seconds"""
    for i in range(rounds):
        h.check("only the keep-alive is pending", timers(h) == 1, (i,))
        h.loop.advance(last + IDLE - 1 - h.loop.time())
        h.check("nothing is sent while not idle for long enough", len(w.take()) == 0, (i,))
        h.loop.advance(1)
        got = w.take()
        h.check("one keep-alive after 25 idle seconds", len(got) == 1, (i, len(got)))
        if len(got) == 1:
            h.check("it requests an acknowledgement", got[0][1] == ALIVE, (i,))
            h.check("sent exactly then", got[0][0] == last + IDLE, (i,))
        last = last + IDLE
    h.check("one pending timer", timers(h) == 1)


def start(h):
    h.loop._now = h.int("start", 0, 10**9)
    conn, tr = connection(h)
    w = Watch(h, tr)
    h.check("nothing is sent on connecting", len(tr.sent) == 0)
    havoc_seq(h, conn)
    return conn, tr, w


# how the other end reacts to a keep-alive or a command, and when
@harness(params=["silent", "answered", "answered late", "refused"], fuzz=40)
def idle_connection(h, how):
    """no command at all"""
    conn, tr, w = start(h)
    last = h.loop.time()
    if how == "silent":
        idle(h, w, last, 6)
        return
    for i in range(3):
        h.check("one pending timer", timers(h) == 1, (i,))
        h.loop.advance(IDLE - 1 - (h.loop.time() - last))
        h.check("not early", len(w.take()) == 0, (i,))
        h.loop.advance(1)
        got = w.take()
        h.check("keep-alive", len(got) == 1 and got[0][1] == ALIVE, (i, len(got)))
        last = last + IDLE
        if how == "answered":
            tr.deliver(b"\x23\x03\x40")
            h.loop.settle()
        elif how == "answered late":
            h.loop.advance(h.int("late%d" % i, 1, IDLE - 1))
            tr.deliver(b"\x23\x03\x40")
            h.loop.settle()
        else:
            tr.protocol.error_received(ConnectionRefusedError())
            h.loop.settle()
        h.check("an answer sends nothing", len(w.take()) == 0, (i,))
    h.check("no error escapes", len(task_errors(h)) == 0)


@harness(params=["acknowledged", "late", "never", "waiting", "refused", "cancelled"], fuzz=60)
def after_a_command(h, how):
    """a command at any time, whatever becomes of it; any number of keep-alives before it"""
    conn, tr, w = start(h)
    last = h.loop.time()
    if h.flag("idled"):
        h.loop.advance(IDLE)
        last = last + IDLE
        h.check("keep-alive", len(w.take()) == 1)
    d = h.int("after", 0, IDLE - 1)
    h.loop.advance(d)
    h.check("quiet so far", len(w.take()) == 0)
    cmd = h.get("pyzwave.commandclass.Basic:Set")(value=h.int("v", 0, 255))
    t = h.spawn(conn.send(cmd, timeout=h.choice("timeout", [3, 10])))
    at = last + d
    got = w.take()
    h.check("the command is sent at once", len(got) == 1 and got[0][0] == at and got[0][1][0:2] == b"\x23\x02", (len(got),))
    seq = Sent(got[0][1], None).seq
    if how == "acknowledged":
        tr.deliver(zip_ack(seq))
        h.loop.settle()
    elif how == "waiting":
        tr.deliver(zip_nack_waiting(seq, 1))
        h.loop.advance(h.int("wait", 0, 2))
        tr.deliver(zip_ack(seq))
        h.loop.settle()
    elif how == "late":
        h.loop.advance(h.int("late", 1, 12))
        tr.deliver(zip_ack(seq))
        h.loop.settle()
    elif how == "never":
        h.loop.advance(10)
    elif how == "refused":
        tr.protocol.error_received(OSError())
        h.loop.advance(10)
    else:
        h.loop.advance(h.int("later", 0, 2))
        t.cancel()
        h.loop.settle()
    h.check("the command has ended", t.done() or how == "late")
    h.check("nothing more is sent", len(w.take()) == 0)
    if how == "late":
        # the wait for the acknowledgement may have ended only now
        h.loop.advance(0)
        h.check("ended", t.done())
    idle(h, w, at, 2)


@harness(fuzz=60)
def between_commands(h):
    """two commands up to 60 seconds apart: the keep-alives between them, and after the second"""
    conn, tr, w = start(h)
    last = h.loop.time()
    Set = h.get("pyzwave.commandclass.Basic:Set")
    for i in range(2):
        d = h.int("gap%d" % i, 0, 3 * IDLE - 1)
        h.loop.advance(d)
        got = w.take()
        n = len(got)
        h.check("a keep-alive for every 25 seconds of the gap",
                h.all(n * IDLE <= d, d < (n + 1) * IDLE, *[g[1] == ALIVE for g in got]), (i, n))
        for k, g in enumerate(got):
            h.check("each 25 seconds after what was sent before it", g[0] == last + (k + 1) * IDLE, (i, k))
        t = h.spawn(conn.send(Set(value=i)))
        got = w.take()
        h.check("the command", len(got) == 1 and got[0][1] != ALIVE, (i, len(got)))
        tr.deliver(zip_ack(Sent(got[0][1], None).seq))
        h.loop.settle()
        h.check("acknowledged", t.done())
        last = last + d
    idle(h, w, last, 2)


@harness(fuzz=60)
def overlapping_commands(h):
    """several commands outstanding at the same time, none of them acknowledged"""
    conn, tr, w = start(h)
    Set = h.get("pyzwave.commandclass.Basic:Set")
    tasks = [h.spawn(conn.send(Set(value=1), timeout=30))]
    a, b = h.int("a", 0, IDLE - 1), h.int("b", 0, IDLE - 1)
    h.loop.advance(a)
    tasks.append(h.spawn(conn.send(Set(value=2), timeout=30)))
    h.loop.advance(b)
    tasks.append(h.spawn(conn.send(Set(value=3), timeout=30)))
    at = h.loop.time()
    got = w.take()
    h.check("three commands, nothing else", len(got) == 3 and got[0][1] != ALIVE and got[1][1] != ALIVE and got[2][1] != ALIVE, (len(got),))
    h.loop.advance(IDLE - 1)
    h.check("not early", len(w.take()) == 0)
    h.loop.advance(1)
    got = w.take()
    h.check("keep-alive", len(got) == 1 and got[0][1] == ALIVE and got[0][0] == at + IDLE, (len(got),))
    h.loop.advance(IDLE)
    got = w.take()
    h.check("and again", len(got) == 1 and got[0][1] == ALIVE and got[0][0] == at + 2 * IDLE, (len(got),))
    h.check("every command has ended", h.all(*[t.done() for t in tasks]))
    h.check("one pending timer", timers(h) == 1)


@harness(params=["command", "report", "advertisement", "junk", "ack", "waiting"], fuzz=60)
def received_packets(h, what):
    """what is received is no sign of life of this end: it does not put the keep-alive off"""
    conn, tr, w = start(h)
    at = h.loop.time()
    d = h.int("after", 0, IDLE - 1)
    h.loop.advance(d)
    tr.deliver({"command": b"\x23\x02\x00\x40\x07\x00\x00\x20\x01\x05", "report": b"\x23\x02\x00\x40\x07\x00\x00\x20\x03\x05",
                "advertisement": b"\x58\x01\x00\x05" + bytes(15) + b"\x05" + b"abcd", "junk": h.choice("junk", [b"", b"\x23", b"\x23\x02", b"\x23\x03", b"\x23\x03\x80", b"\x00", b"\xff\xff", b"\x20\x01\x05"]),
                "ack": zip_ack(h.int("seq", 0, 255)), "waiting": zip_nack_waiting(h.int("seq", 0, 255), 5)}[what])
    h.loop.settle()
    w.take()
    idle(h, w, at, 2)


@harness(params=[1, 2, 3], fuzz=40)
def reconnected(h, n):
    """connecting again leaves a single timer"""
    conn, tr, w = start(h)
    for i in range(n):
        h.loop.advance(h.int("gap%d" % i, 0, IDLE - 1))
        h.run(conn.connect())
        h.check("one pending timer", timers(h) == 1, (i,))
    idle(h, Watch(h, h.loop.endpoints[-1]), h.loop.time(), 2)


@harness(params=["gateway", "node"], fuzz=30)
def through_the_gateway(h, which):
    """the gateway's own connection, and the connections of its nodes, each on their own"""
    h.loop._now = h.int("start", 0, 10**9)
    gw, net = gateway(h)
    t0 = h.loop.time()
    main = Watch(h, net.transports[0])
    Set = h.get("pyzwave.commandclass.Basic:Set")
    a = h.int("a", 0, IDLE - 1)
    h.loop.advance(a)
    t = h.spawn(gw.sendToNode(2, Set(value=1)))
    h.check("sent", h.outcome(t) == ("ok", True))
    node = [tr for tr in net.transports if tr.remote and len(tr.sent) == 1 and tr is not net.transports[0]]
    h.check("one node connection", len(node) == 1)
    w = Watch(h, node[0])
    h.check("one timer for each connection", timers(h) == 2)
    main.take()
    b = h.int("b", 0, IDLE - 1)
    h.loop.advance(b)
    main.take()
    if which == "node":
        t = h.spawn(gw.sendToNode(2, Set(value=2)))
        h.check("sent", h.outcome(t) == ("ok", True))
        got = w.take()
        h.check("the command only", len(got) == 1 and got[0][1] != ALIVE)
        last, quiet, log = h.loop.time(), main, w
    else:
        t = h.spawn(gw.send(Set(value=2)))
        h.check("sent", h.outcome(t) == ("ok", True))
        main.take()
        last, quiet, log = h.loop.time(), w, main
    h.check("one timer for each connection", timers(h) == 2)
    h.loop.advance(IDLE - 1)
    h.check("nothing early", len(log.take()) == 0)
    h.loop.advance(1)
    got = log.take()
    h.check("keep-alive of this connection", len(got) == 1 and got[0][1] == ALIVE and got[0][0] == last + IDLE, (len(got),))
    h.loop.advance(IDLE)
    got = log.take()
    h.check("and again", len(got) == 1 and got[0][1] == ALIVE and got[0][0] == last + 2 * IDLE, (len(got),))
    got = quiet.take()
    h.check("the other one has its own", h.all(len(got) >= 2, *[g[1] == ALIVE for g in got]), (len(got),))
    h.check("25 seconds apart", h.all(*[y[0] - x[0] == IDLE for x, y in zip(got, got[1:])]))
    h.check("one timer for each connection", timers(h) == 2)


@harness(fuzz=20)
def not_connected(h):
    """nothing is sent and no timer runs before connecting"""
    from hlib import prime
    prime(h)
    c = h.get("pyzwave.zipconnection:ZIPConnection")("::1", b"\x12\x34")
    h.loop.advance(h.int("d", 0, 1000))
    h.check("no timer", timers(h) == 0)
    h.check("no socket", len(h.loop.endpoints) == 0)
    h.run(c.connect())
    w = Watch(h, h.loop.endpoints[-1])
    idle(h, w, h.loop.time(), 2)


@harness(params=[20, 30, 100, 200], fuzz=1, kind="bounded", note="up to 200 commands not acknowledged yet")
def many_pending(h, n):
    """however many commands have not been acknowledged yet, and whatever has become of them"""
    conn, tr, w = start(h)
    if h.symbolic:
        n = 2
    cmd = h.get("pyzwave.commandclass.Basic:Set")
    queued = h.choice("queued", [False, True])
    tasks = []
    for i in range(n):
        tasks.append(h.spawn(conn.send(cmd(value=i % 256), timeout=1000)))
        if queued:
            tr.deliver(zip_nack_waiting(Sent(*tr.sent[-1]).seq, 1000))
        h.check("pending", h.outcome(tasks[-1])[0] == "pending")
    h.loop.settle()
    last = h.loop.time()
    h.check("all sent", len(w.take()) == n)
    for i in range(3):
        h.loop.advance(IDLE - 1 - (h.loop.time() - last))
        h.check("not early", len(w.take()) == 0)
        h.loop.advance(1)
        got = w.take()
        h.check("one keep-alive after 25 idle seconds", len(got) == 1 and got[0][1] == ALIVE)
        last = h.loop.time()
    for s in [Sent(d, a) for d, a in tr.sent if d[:2] == b"\x23\x02"]:
        tr.deliver(zip_ack(s.seq))
    h.loop.settle()
    h.check("all succeeded", [h.outcome(t)[0] for t in tasks] == ["ok"] * n)
    h.check("not reset by acknowledgements", timers(h) == 1)
    h.loop.advance(IDLE)
    h.check("and on", len(w.take()) == 1)


@harness(params=[0, 1, 2, 5], fuzz=30)
def disconnected(h, n):
    """an ended connection sends nothing any more, whatever has not been acknowledged; connected again, it does"""
    conn, tr, w = start(h)
    cmd = h.get("pyzwave.commandclass.Basic:Set")
    how = h.choice("then", ["pending", "queued", "acknowledged"])
    for i in range(n):
        t = h.spawn(conn.send(cmd(value=i), timeout=1000))
        seq = Sent(*tr.sent[-1]).seq
        if how != "pending":
            tr.deliver(zip_nack_waiting(seq, 500) if how == "queued" else zip_ack(seq))
            h.loop.settle()
    h.loop.advance(h.int("gap", 0, 60))
    w.take()
    before = timers(h)
    conn.disconnect()
    h.check("its timer is gone", timers(h) == before - 1)
    h.loop.advance(h.int("later", 0, 100))
    h.check("nothing is sent", len(w.take()) == 0)
    h.run(conn.connect())
    last = h.loop.time()
    w = Watch(h, h.loop.endpoints[-1])
    h.loop.advance(IDLE - 1)
    h.check("not early", len(w.take()) == 0)
    h.loop.advance(1)
    got = w.take()
    h.check("kept alive again", len(got) == 1 and got[0][1] == ALIVE and got[0][0] == last + IDLE, (len(got),))
