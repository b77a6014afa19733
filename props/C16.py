"""C16: every supervised command is carried out and answered exactly once."""
import asyncio

from hlib import prime, StubAdapter, CLASS_IDS
from layouts import LAYOUTS
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.node:supervision", "pyzwave.node:Node.handleMessage", "pyzwave.node:Node.send",
             "pyzwave.commandclass.CommandClass:CommandClass.handleMessage", "pyzwave.message:Message.decode",
             "pyzwave.commandclass.Supervision:Get.parse_command"]


class Listener:
    """records what it is asked, and answers"""

    def __init__(self, answer, log, name="onMessage"):
        self.answer, self.log = answer, log
        setattr(self, name, self.fn)

    def fn(self, sender, *args):
        self.log.append(args)
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer


def make(h, classes, endpoint=0, nodeId=5):
    """a node or endpoint; what it sends and what its listeners were asked"""
    a = StubAdapter(h)
    node = h.get("pyzwave.node:Node")(nodeId, a, list(classes))
    if endpoint:
        node = h.get("pyzwave.node:NodeEndPoint")(node, endpoint, a, list(classes))
    return node, a


def wrapped(h, command, session, updates, reserved=0):
    """the bytes of a supervision command"""
    return bytes([0x6C, 0x01, (updates << 7) | (reserved << 6) | session, len(command)]) + command


def reports(h, a):
    return [s for s in a.sends if s[1].hid() == 0x6C02]


def image(h, m):
    """what a command is: its bytes, or its kind when it was cut off"""
    exc, b = h.catch(m.compose)
    return b if exc is None else m.hid()


def answered(h, a, nodeId, endpoint, session, handled):
    r = reports(h, a)
    h.check("answered exactly once", len(r) == 1, [s[1] for s in a.sends])
    n, msg, kw = r[0]
    h.check("to the node", n == nodeId)
    h.check("to the endpoint it came from", kw.get("destEP") == endpoint)
    h.check("success or no support, with the session number, complete",
            msg.compose() == bytes([0x6C, 0x02, session, 0xFF if handled else 0x00, 0]))


def draw(h):
    return h.int("session", 0, 63), h.int("updates", 0, 1), h.int("reserved", 0, 1)


@harness(params=["handled", "unhandled", "waited for", "other class", "controlled", "raising listener"], fuzz=20)
def answer(h, how):
    """a switch report inside a supervision command, from a node or an endpoint"""
    prime(h)
    ep = h.choice("endpoint", [0, 1, 127])
    nid = h.choice("node", [1, 5, 232])
    node, a = make(h, [0xEF, 0x25] if how == "controlled" else [0x31] if how == "other class" else [0x25], ep, nid)
    session, updates, reserved = draw(h)
    v = h.int("v", 0, 255)
    log, clog = [], []
    ans = {"handled": h.choice("answer", [True, 1, "yes"]), "raising listener": ValueError("x")}.get(how, False)
    node.addListener(Listener(ans, log))
    if how not in ("controlled", "other class"):
        node.supported[0x25].addListener(Listener(False, clog, "onReport"))
    wait = None
    if how == "waited for":
        wait = node.addWaitingSession(h.get(CC + "SwitchBinary:Report"))
    flags = object()
    exc, msg = h.catch(h.get("pyzwave.message:Message").decode,
                       wrapped(h, bytes([0x25, 0x03, v]), session, updates, reserved))
    h.check("decodes", exc is None, exc)
    exc, r = h.catch(h.run, node.handleMessage(msg, flags))
    h.check("does not fail", exc is None, exc)
    handled = how in ("handled", "waited for")
    h.check("the result", bool(r) is handled)
    answered(h, a, nid, ep, session, handled)
    h.check("nothing else is sent", len(a.sends) == 1)
    if how == "waited for":
        h.check("the waiter got it", wait.done() and wait.result().value == v)
        h.check("nobody else is asked", len(log) == 0)
    else:
        h.check("listeners get the command itself, once", len(log) == 1 and log[0][0].compose() == bytes([0x25, 0x03, v]))
    if how not in ("controlled", "other class"):
        h.check("so do the listeners of its class", len(clog) == 1 and clog[0][0].compose() == bytes([0x25, 0x03, v]))
        h.check("with the flags", clog[0][1] is flags)


@harness(params=["class listener", "coroutine"], fuzz=20)
def class_listener(h, how):
    """a listener of the command class handles it, or not, now or later"""
    prime(h)
    node, a = make(h, [0x25])
    session, updates, reserved = draw(h)
    # any true answer counts
    ret = h.choice("answer", [True, False, 1, 0, "yes", None])
    pause = h.choice("pause", [1, 100000]) if how == "coroutine" else 0
    handled = bool(ret)
    log = []

    class Later:
        async def onReport(self, sender, *args):
            log.append(args)
            import asyncio
            await asyncio.sleep(pause)
            return ret
    node.supported[0x25].addListener(Later() if how == "coroutine" else Listener(ret, log, "onReport"))
    msg = h.get("pyzwave.message:Message").decode(wrapped(h, bytes([0x25, 0x03, 1]), session, updates, reserved))
    t = h.spawn(node.handleMessage(msg, None))
    h.loop.settle()
    if how == "coroutine":
        h.check("not answered before it is known", len(a.sends) == 0)
        h.loop.advance(pause)
    h.check("finished", t.done() and t.exception() is None)
    h.check("the result", bool(t.result()) is handled)
    answered(h, a, 5, 0, session, handled)
    h.check("asked once", len(log) == 1)


# every kind of command, complete or cut off, handled as if it had been received directly
def kinds():
    return ["%04x" % hid for hid, _, _ in LAYOUTS] + ["%04x" % x for x in
                                                     (0x3105, 0x3102, 0x7006, 0x7004, 0x5902, 0x5904, 0x5906, 0x8503, 0x8E03, 0xEE42, 0x2342, 0xEF01)]


LEN = {0x3105: 5, 0x3102: 3, 0x7006: 6, 0x7004: 6, 0x5902: 5, 0x5904: 9, 0x5906: 6, 0x8503: 6, 0x8E03: 7, 0xEE42: 2,
       0x2342: 2, 0xEF01: 1}


def size(hid):
    if hid in LEN:
        return LEN[hid]
    bits = 0
    for i, _, fields in LAYOUTS:
        if i == hid:
            for _, k in fields:
                bits += 128 if k in ("ip", "dsk") else 16 if k == "tail" else int(k[1:])
    return bits // 8


@harness(params=kinds, fuzz=12, time=60)
def like_direct(h, hid):
    """the same command received directly and inside a supervision command: what happens is the same, but for the answer"""
    prime(h)
    hid = int(hid, 16)
    full = size(hid)
    cut = h.choice("length", sorted({0, 1, full - 1, full} - {-1}))
    # contents that would be printed as text are samples
    payload = SAMPLES[hid][:cut] if hid in SAMPLES else bytes(range(1, cut + 1)) if hid in TEXT else h.bytes("payload", cut)
    if hid == 0x3105 and cut:
        payload = bytes([h.choice("type", [1, 5, 200])]) + (bytes([h.choice("format", [0x01, 0x09, 0x22, 0x1C])]) if cut > 1 else b"") + payload[2:]
    data = bytes([hid >> 8, hid & 255]) + payload
    decode = h.get("pyzwave.message:Message").decode
    exc, direct = h.catch(decode, data)
    h.assume(exc is None)
    session, updates, reserved = draw(h)
    classes = sorted(set(CLASS_IDS.values()) | {0x25, 0x20, hid >> 8} - {0xEF})
    ans = h.flag("listener")
    res = []
    sensors = h.choice("sensor version", [4, 5]) if hid == 0x3105 else 4
    for way in ("direct", "supervised"):
        node, a = make(h, [c for c in classes if c != 0x6C])
        node.supported[0x31].__setstate__({"version": sensors})
        node.supported[0x31].supportedTypes[1] = 2
        log = []
        node.addListener(Listener(ans, log))
        updatedlog = []
        node.addListener(Listener(None, updatedlog, "nodeUpdated"))
        if way == "direct":
            exc, r = h.catch(h.run, node.handleMessage(direct, None))
        else:
            e2, msg = h.catch(decode, wrapped(h, data, session, updates, reserved))
            h.check("decodes", e2 is None, e2)
            exc, r = h.catch(h.run, node.handleMessage(msg, None))
        res.append((exc, r, node, a, log, len(updatedlog)))
    (e1, r1, n1, a1, l1, u1), (e2, r2, n2, a2, l2, u2) = res
    if e1 is None and hid != 0x6C01:
        h.check("not answered when received directly", len(reports(h, a1)) == 0)
    h.check("does not fail", e2 is None, e2)
    if hid == 0x6C01:
        return
    if e1 is None:
        h.check("the same result", bool(r1) == bool(r2))
        h.check("the listeners are asked alike", [image(h, m[0]) for m in l1] == [image(h, m[0]) for m in l2])
        h.check("stored alike", u1 == u2)
        answered(h, a2, 5, 0, session, bool(r2))
        h.check("the same is sent", [s[1].compose() for s in a1.sends] == [s[1].compose() for s in a2.sends if s[1].hid() != 0x6C02])
    else:
        answered(h, a2, 5, 0, session, bool(r2))


TEXT = (0x3411, 0x3412, 0x5801, 0x5F08, 0x5F04, 0x6902, 0x6903)
SAMPLES = {0x5902: bytes([0x01, 1, 0, 0x12, 0x34]), 0x5904: bytes([1, 4]) + b"abcdefg", 0x5906: bytes([1, 4, 0x20, 1, 0x25, 3]),
           0x3102: bytes([0x02, 0x80, 1]), 0x8503: bytes([1, 5, 0, 1, 2, 3]), 0x8E03: bytes([1, 5, 0, 1, 0, 1, 2])}


@harness(params=["no command", "no length", "only identifier", "unknown class", "unknown command", "one byte"], fuzz=20)
def odd(h, what):
    """supervision commands with no, an empty or an unknown command in them"""
    prime(h)
    ep = h.choice("endpoint", [0, 3])
    node, a = make(h, [0x25, 0xEE], ep)
    session, updates, reserved = draw(h)
    x = h.int("x", 0, 255)
    log = []
    node.addListener(Listener(h.choice("listener", [None, False]), log))
    if what == "no command":
        data = wrapped(h, b"", session, updates, reserved)
    elif what == "no length":
        data = wrapped(h, b"", session, updates, reserved)[:3]
    elif what == "only identifier":
        data = bytes([0x6C, 0x01])
        session = 0
    elif what == "unknown class":
        data = wrapped(h, bytes([0xEE, x, 1, 2]), session, updates, reserved)
    elif what == "unknown command":
        h.assume(x > 3)
        data = wrapped(h, bytes([0x25, x]), session, updates, reserved)
    else:
        data = wrapped(h, bytes([x]), session, updates, reserved)
    exc, msg = h.catch(h.get("pyzwave.message:Message").decode, data)
    h.check("decodes", exc is None, exc)
    exc, r = h.catch(h.run, node.handleMessage(msg, None))
    h.check("does not fail", exc is None, exc)
    h.check("not handled", not r)
    if what == "only identifier":
        h.check("nothing to answer without a session number", len(a.sends) == 0)
        return
    answered(h, a, 5, ep, session, False)


@harness(params=["in order", "the other way round"], fuzz=10)
def at_once(h, how):
    """several supervised commands are being handled at the same time: each is answered as it was handled"""
    prime(h)
    node, a = make(h, [0x25])
    s1, s2 = h.int("s1", 0, 63), h.int("s2", 0, 63)
    results = [h.flag("first"), h.flag("second")]
    gates = [h.loop.create_future(), h.loop.create_future()]
    log = []

    class Later:
        async def onReport(self, sender, message, flags):
            i = len(log)
            log.append(message)
            await gates[i]
            return results[i]
    node.supported[0x25].addListener(Later())
    decode = h.get("pyzwave.message:Message").decode
    ts = [h.spawn(node.handleMessage(decode(wrapped(h, b"\x25\x03\x01", s1, 0)), None)),
          h.spawn(node.handleMessage(decode(wrapped(h, b"\x25\x03\x02", s2, 0)), None))]
    h.loop.settle()
    h.check("both are carried out", len(log) == 2)
    h.check("none is answered", len(a.sends) == 0)
    n = 0
    for i in ((0, 1) if how == "in order" else (1, 0)):
        gates[i].set_result(None)
        h.loop.settle()
        n += 1
        out = reports(h, a)
        h.check("answered once", len(out) == n)
        h.check("with its number", out[n - 1][1].sessionID == (s1, s2)[i])
        h.check("as it was handled", out[n - 1][1].status == (0xFF if results[i] else 0))
        h.check("the result", ts[i].done() and bool(ts[i].result()) is results[i])


@harness(params=["False", "raises"], fuzz=10)
def failing_send(h, how):
    """each of several supervised commands is answered, also when an answer before could not be sent"""
    prime(h)
    node, a = make(h, [0x25])
    s1, s2 = h.int("s1", 0, 63), h.int("s2", 0, 63)
    a.result = False if how == "False" else ValueError("gone")
    decode = h.get("pyzwave.message:Message").decode
    log = []
    node.addListener(Listener(True, log))
    h.catch(h.run, node.handleMessage(decode(wrapped(h, b"\x25\x03\x01", s1, 0)), None))
    a.result = True
    exc, r = h.catch(h.run, node.handleMessage(decode(wrapped(h, b"\x25\x03\x02", s2, 0)), None))
    h.check("does not fail", exc is None, exc)
    h.check("both are carried out", len(log) == 2)
    out = reports(h, a)
    h.check("both are answered", len(out) == 2)
    h.check("with their session numbers", h.all(out[0][1].sessionID == s1, out[1][1].sessionID == s2))
    h.check("of the handling", h.all(*[o[1].status == 0xFF for o in out]))


ERRORS = {"ValueError": ValueError("x"), "TimeoutError": asyncio.TimeoutError(), "EOFError": EOFError("x"),
          "OSError": OSError("unreachable"), "TypeError": TypeError("x"), "AttributeError": AttributeError("x"),
          "NotImplementedError": NotImplementedError()}


@harness(params=[(w, e) for w in ("class", "send") for e in sorted(ERRORS)], fuzz=4)
def failing_handler(h, we):
    """a command whose handling fails is answered as well"""
    prime(h)
    how, error = we[0], ERRORS[we[1]]
    node, a = make(h, [0x25, 0x59])
    session, updates, reserved = draw(h)
    if how == "class":
        async def broken(*args):
            raise error
        object.__setattr__(node.supported[0x25], "handleMessage", broken)
        data = b"\x25\x03\x01"
    else:
        # handling a group information report sends requests; they cannot be sent
        a.result = lambda n, cmd, kw: error if cmd.hid() != 0x6C02 else True
        data = bytes([0x59, 0x04, 1, 1, 0, 0, 1, 0, 0, 0])
    msg = h.get("pyzwave.message:Message").decode(wrapped(h, data, session, updates, reserved))
    exc, r = h.catch(h.run, node.handleMessage(msg, None))
    h.check("does not fail", exc is None, exc)
    h.check("not handled", not r, r)
    answered(h, a, 5, 0, session, False)


@harness(params=["one after the other", "at the same time"], fuzz=20)
def each_its_own(h, how):
    """supervised commands in a row, with whatever numbers and handled or not, each answered with its own number"""
    prime(h)
    node, a = make(h, [0x25])
    gate = h.loop.create_future()
    n = 3 if how == "one after the other" else 2
    want = [h.flag("handled %d" % i) for i in range(n)]
    log = []

    class Later:
        async def onReport(self, sender, message, flags):
            log.append(message)
            await gate
            return want[message.value]

    class Now:
        def onReport(self, sender, message, flags):
            log.append(message)
            return want[message.value]
    node.supported[0x25].addListener(Now() if how == "one after the other" else Later())
    session = [h.int("session %d" % i, 0, 63) for i in range(n)]
    for i in range(n):
        msg = h.get("pyzwave.message:Message").decode(wrapped(h, bytes([0x25, 0x03, i]), session[i], h.int("updates %d" % i, 0, 1)))
        h.spawn(node.handleMessage(msg, None))
        if how == "one after the other":
            h.loop.settle()
            h.check("answered", len(reports(h, a)) == i + 1)
    if not gate.done():
        gate.set_result(None)
    h.loop.settle()
    h.check("each is carried out", len(log) == n)
    out = [s[1].compose() for s in reports(h, a)]
    h.check("each is answered", len(out) == n)
    for i in range(n):
        h.check("success or no support, with its own session number", out[i] == bytes([0x6C, 0x02, session[i], 0xFF if want[i] else 0, 0]))


@harness(params=[2, 3], fuzz=20)
def repeated(h, n):
    """the same supervised command again and again, with the same session number: each is carried out and answered"""
    prime(h)
    ep = h.choice("endpoint", [0, 3])
    node, a = make(h, [0x25], ep)
    session, updates, reserved = draw(h)
    v = h.int("v", 0, 255)
    want = [h.flag("handled %d" % i) for i in range(n)]
    same = h.flag("the very same object")
    log = []

    class Now:
        def onReport(self, sender, message, flags):
            log.append(message)
            return want[len(log) - 1]
    node.supported[0x25].addListener(Now())
    data = wrapped(h, bytes([0x25, 0x03, v]), session, updates, reserved)
    decode = h.get("pyzwave.message:Message").decode
    msg = decode(data)
    for i in range(n):
        exc, r = h.catch(h.run, node.handleMessage(msg if same else decode(data), None))
        h.check("does not fail", exc is None, exc)
        h.check("the result", bool(r) is want[i])
        h.check("carried out again", len(log) == i + 1 and log[i].compose() == bytes([0x25, 0x03, v]))
        out = reports(h, a)
        h.check("answered again", len(out) == i + 1)
        h.check("as it was handled", out[i][1].compose() == bytes([0x6C, 0x02, session, 0xFF if want[i] else 0, 0]))
        h.check("to the endpoint", out[i][2].get("destEP") == ep)
        if h.flag("later %d" % i):
            h.loop.advance(3)
