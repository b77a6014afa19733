"""C18: the mailbox loses no message, duplicates none and delivers each once.

`every_history` is an inductive argument over the states of the mailbox: from every state reached so far every operation is
made, with every outcome of the sending, and compared with what the property says, until no operation leads to a new
state. A state is what the service holds (as plain values), with what the property must know (what is stored, which
queue woke up last)."""
from hlib import MailboxSpy, fingerprint
from pyvc.api import harness

FUNCTIONS = ["pyzwave.mailbox:MailboxService.messageReceived", "pyzwave.mailbox:MailboxService.__popQueue__",
             "pyzwave.mailbox:MailboxService.__pushQueue__", "pyzwave.mailbox:QueueItem.checksum"]
ASSUMPTIONS = ["messages are told apart by their CRC-16, as the protocol demands: different messages of equal checksum count "
               "as equal", "crcmod computes the checksum (symbolically an unknown function of the bytes)",
               "the mailbox service keeps its state in plain values, collections or objects held by it"]

MSG = [b"hello", b"world"]


class Boom(Exception):
    pass


def outcomes(kind):
    return {"ok": True, "False": False, "raise": Boom("x")}[kind]


def play(h, ops, queues):
    """make a history; each operation is compared with what the property says"""
    box = MailboxSpy(h)
    stored = {q: [] for q in queues}
    last = None
    for op in ops:
        n = len(box.a.sends)
        kind, q = op[0], op[1]
        box.outcome = outcomes(op[-1]) if op[-1] != "cancel" else (lambda *a: h.loop.create_future())
        if kind == "push":
            coro = box.push(q, op[2])
        else:
            coro = box.wake(q) if kind == "wake" else box.ack(q)
            if kind == "wake":
                last = q
            elif q == 0:
                q = last or 0
        t = h.spawn(coro)
        h.loop.settle()
        if op[-1] == "cancel":
            h.check("is waiting for the send, if any", len(box.a.sends) == n or not t.done())
            t.cancel()
            h.loop.settle()
        h.check("ends", t.done())
        out = box.sent(n)
        if kind == "push":
            if op[2] in stored[q]:
                h.check("an equal one is refused without a notice", len(out) == 0)
                continue
            h.check("a waiting notice with the message", out == [(7, "WAITING", q, op[2], 0)] or
                    [x[:4] for x in out] == [(7, "WAITING", q, op[2])])
            if op[-1] == "ok":
                stored[q].append(op[2])
        else:
            have = stored.setdefault(q, [])
            h.check("exactly one message is sent", len(out) == 1)
            h.check("to the node, of the queue", out[0][:3] == (7, "POP", q))
            if not have:
                h.check("an empty one", out[0][3] == b"")
                h.check("which is the last", bool(out[0][4]) is True)
                continue
            h.check("one of those stored", out[0][3] in have, (ops, out))
            h.check("the last one exactly if no other is left", bool(out[0][4]) is (len(have) == 1))
            if op[-1] == "ok":
                have.remove(out[0][3])
    return box, (sorted((q, tuple(sorted(v))) for q, v in stored.items() if v), last), stored


def operations(queues, messages):
    ops = [("push", q, m, o) for q in queues for m in messages for o in ("ok", "False", "raise", "cancel")]
    ops += [(k, q, o) for k in ("wake", "ack") for q in queues for o in ("ok", "False", "raise", "cancel")]
    return ops + [("ack", 0, "ok"), ("ack", 0, "False")]


@harness(params=["one queue", "two queues"], fuzz=1, time=300)
def every_history(h, what):
    """every history, closed over the states of the mailbox"""
    queues, messages = ([3], MSG + [b"x" * 300]) if what == "one queue" else ([3, 4], MSG[:1])
    todo, seen = [()], set()
    n = 0
    while todo:
        ops = todo.pop(0)
        n += 1
        h.check("there is an end to the states", n < 4000)
        box, spec, stored = play(h, ops, queues)
        key = repr((fingerprint(box.service), spec))
        if key in seen:
            continue
        seen.add(key)
        for q in queues:
            got, flags = box.drain(q)
            h.check("exactly what is stored can be fetched", sorted(got) == sorted(stored[q]), (ops, got))
            h.check("the last one marked", flags == [False] * (len(got) - 1) + [True] * (len(got) > 0))
        for op in operations(queues, messages):
            todo.append(ops + (op,))
    h.check("states were seen", len(seen) >= (8 if what == "one queue" else 4))


@harness(params=["same", "different"], fuzz=30)
def contents(h, what):
    """any contents, handles and nodes"""
    nid = h.int("node", 1, 232)
    q, q2 = h.int("q", 1, 255), h.int("q2", 1, 255)
    box = MailboxSpy(h, nid)
    m1 = h.bytes("m1", 2)
    h.run(box.push(q, m1))
    h.check("the notice", box.sent() == [(nid, "WAITING", q, m1, 0)])
    if what == "same":
        r = h.run(box.push(q2, m1))
        if q == q2:
            h.check("stored already", not r and len(box.a.sends) == 1)
        else:
            h.check("another queue", bool(r) and box.sent(1) == [(nid, "WAITING", q2, m1, 0)])
    else:
        h.assume(q != q2)
    n = len(box.a.sends)
    how = h.choice("how", ["wake", "ack", "ack 0"])
    if how == "wake":
        h.run(box.wake(q))
    elif how == "ack":
        h.run(box.ack(q))
    else:
        # an acknowledgement without a handle is for the queue that woke up last
        box.outcome = False
        h.run(box.wake(q))
        n = len(box.a.sends)
        box.outcome = True
        h.run(box.ack(0))
    h.check("delivered", [x[:4] for x in box.sent(n)] == [(nid, "POP", q, m1)])
    h.check("as the last", bool(box.sent(n)[0][4]) is True)
    n = len(box.a.sends)
    h.run(box.wake(q))
    h.check("only once", [x[:4] for x in box.sent(n)] == [(nid, "POP", q, b"")])
    if what == "same" and q != q2:
        h.run(box.wake(q2))
        h.check("the other queue has its own", [x[:4] for x in box.sent(n + 1)] == [(nid, "POP", q2, m1)])


PAIRS = [(b"a", b"b"), (b"", b"\x00"), (b"\x00", b"\x00\x00"), (b"abc", b"abd"), (b"abc", b"ab"), (b"\x01\x02", b"\x02\x01"),
         (b"x" * 40, b"x" * 41), (b"\xff", b"\xff\xff"), (b"x" * 300 + b"y", b"x" * 300 + b"z"), (b"y" + b"x" * 300, b"z" + b"x" * 300),
         (b"x" * 299, b"x" * 300)]


@harness(params=list(range(len(PAIRS))), fuzz=2)
def different(h, i):
    """different messages are both stored"""
    box = MailboxSpy(h)
    a, b = PAIRS[i] if h.flag("order") else PAIRS[i][::-1]
    h.check("stored", bool(h.run(box.push(9, a))))
    h.check("stored too", bool(h.run(box.push(9, b))))
    n = len(box.a.sends)
    for _ in range(2):
        h.run(box.wake(9))
    out = box.sent(n)
    h.check("both are delivered", sorted(x[3] for x in out) == sorted([a, b]))
    h.check("the second one last", [bool(x[4]) for x in out] == [False, True])


# ------------------------------------------------------------------ operations at the same time

OPS = {"push x": ("push", b"x"), "push y": ("push", b"y"), "wake": ("wake", None), "ack": ("ack", None)}


def pairs():
    import itertools
    out = []
    for n in range(3):
        for a, b in itertools.combinations_with_replacement(sorted(OPS), 2):
            out.append("%d|%s|%s" % (n, a, b))
    return out


@harness(params=pairs, fuzz=6)
def overlapping(h, what):
    """two operations at the same time, with any outcomes, ending in any order"""
    n, *names = what.split("|")
    box = MailboxSpy(h)
    Q = 5
    before = [b"x", b"z"][:int(n)]
    for m in before:
        h.run(box.push(Q, m))
    h.run(box.push(6, b"x"))
    gates = []

    def gate(*a):
        f = h.loop.create_future()
        gates.append(f)
        return f
    box.outcome = gate
    tasks, deliveries, pushes = [], [], []
    owner = {}
    for i, name in enumerate(names):
        kind, m = OPS[name]
        k = len(box.a.sends)
        t = h.spawn(box.push(Q, m) if kind == "push" else box.wake(Q) if kind == "wake" else box.ack(Q))
        h.loop.settle()
        tasks.append(t)
        new = box.sent(k)
        h.check("each sends at most one", len(new) <= 1)
        if new:
            owner[i] = (len(gates) - 1, new[0])
    order = h.choice("order", [[0, 1], [1, 0]])
    delivered, noticed = [], []
    for i in order:
        if i not in owner:
            h.check("without anything to send it ends at once", tasks[i].done())
            continue
        g, s = owner[i]
        end = h.choice("outcome %d" % i, ["ok", "False", "raise", "cancel"])
        if end == "ok":
            gates[g].set_result(True)
            (delivered if s[1] == "POP" else noticed).append(s[3])
        elif end == "cancel":
            tasks[i].cancel()
        else:
            gates[g].set_result(outcomes(end))
        h.loop.settle()
        h.check("ended", tasks[i].done())
    pops = [owner[i][1] for i in owner if owner[i][1][1] == "POP" and len(owner[i][1][3])]
    h.check("no message is being delivered twice", len(pops) == len(set(x[3] for x in pops)))
    # what is left: everything stored before or during, each once, but for what was delivered
    want = set(before)
    got, flags = box.drain(Q)
    h.check("nothing is stored twice", len(got) == len(set(got)), (what, got))
    h.check("nothing unknown", set(got) <= want | set(noticed))
    for m in before:
        if m not in delivered:
            h.check("nothing is lost", m in got, (what, m, got))
        elif m not in noticed:
            h.check("what was delivered is gone", m not in got)
    for m in noticed:
        if m not in delivered and m not in before:
            h.check("what was announced is stored", m in got)
    h.check("the last one marked", flags == [False] * (len(got) - 1) + [True] * (len(got) > 0))
    h.check("the other queue is left alone", box.drain(6)[0] == [b"x"])


@harness(params=[b"", b"\0", b"\0\0", b"x" * 1000], fuzz=4)
def any_size(h, m):
    """a message of any size, the empty one too, is kept until it is delivered"""
    box = MailboxSpy(h)
    h.check("stored", bool(h.run(box.push(5, m))))
    for kind in (box.wake, box.ack, box.wake):
        box.outcome = outcomes(h.choice("failing", ["False", "raise"]))
        h.catch(h.run, kind(5))
    box.outcome = True
    h.run(box.push(5, b"another"))
    n = len(box.a.sends)
    h.run(box.wake(5))
    h.run(box.wake(5))
    out = box.sent(n)
    h.check("both are delivered", sorted(x[3] for x in out) == sorted([m, b"another"]))
    h.check("marked", [bool(x[4]) for x in out] == [False, True])


@harness(params=["wake", "ack"], fuzz=5)
def interrupted_delivery(h, kind):
    """a delivery interrupted at any time keeps the message, with its marks, for the next time"""
    box = MailboxSpy(h)
    for m in (b"one", b"two"):
        h.run(box.push(5, m))
    box.outcome = lambda *a: h.loop.create_future()
    for _ in range(h.choice("times", [1, 2, 3])):
        t = h.spawn(box.wake(5) if kind == "wake" else box.ack(5))
        h.loop.settle()
        h.loop.advance(h.choice("after", [0, 1, 59]))
        t.cancel()
        h.loop.settle()
        h.check("cancelled", t.done())
    got, flags = box.drain(5)
    h.check("both are still there", sorted(got) == [b"one", b"two"])
    h.check("marked", flags == [False, True])


@harness(params=["one queue", "many queues"], fuzz=1, kind="bounded", note="natively 260 messages in one queue, 400 in 200")
def many(h, what):
    """any number of messages can be stored"""
    box = MailboxSpy(h, 7)
    n = 3 if h.symbolic else 260 if what == "one queue" else 400
    queues = [3] if what == "one queue" else list(range(1, 1 + min(n, 200)))
    stored = {q: [] for q in queues}
    for i in range(n):
        q, m = queues[i % len(queues)], bytes([i & 255, i >> 8, 7])
        h.check("taken", bool(h.run(box.push(q, m))))
        stored[q].append(m)
    before = len(box.a.sends)
    h.check("a notice of each", before == n)
    # none is delivered at first
    box.outcome = False
    for q in queues[:10]:
        h.run(box.wake(q))
    box.outcome = True
    for q in queues:
        h.check("stored already", not h.run(box.push(q, stored[q][0])))
    for q in queues:
        got, flags = box.drain(q, n + 1)
        h.check("all of them", sorted(got) == sorted(stored[q]))
        h.check("the last one marked", flags == [False] * (len(got) - 1) + [True] * (len(got) > 0))
