"""C32: sensor reports pass only for sensors the node supports; readings and parameters are those the node reports."""
import asyncio

from hlib import prime, StubAdapter, Recorder, plain_adapter
from pyvc.api import harness

CC = "pyzwave.commandclass."
S = CC + "SensorMultilevel:"
C = CC + "Configuration:"
M = "pyzwave.message:Message"
FUNCTIONS = [S + "SensorMultilevel.__report__", S + "SensorMultilevel.interview", C + "Configuration.__report__",
             C + "Configuration.get", C + "Configuration.set", C + "Report.parse_value", C + "Set.compose_value",
             CC + "CommandClass:CommandClass.handleMessage"]
ASSUMPTIONS = ["questions about one class do not overlap", "a report answers the question pending when it arrives"]


class World:
    def __init__(self, h, cls, result=True):
        prime(h)
        self.h = h
        self.a = StubAdapter(h, result)
        self.node = h.get("pyzwave.node:Node")(9, self.a, [cls])
        self.cc = self.node.supported[cls]
        self.inner, self.outer = Recorder("onReport"), Recorder("onMessage", onMessage=True)
        self.cc.addListener(self.inner)
        self.node.addListener(self.outer)

    def handle(self, data):
        msg = self.h.get(M).decode(data)
        self.h.run(self.node.handleMessage(msg, 0))
        return msg

    def reply(self, data):
        msg = self.h.get(M).decode(data)
        self.h.loop.call_io(lambda: self.h.loop.create_task(self.node.handleMessage(msg, 0)))


# ------------------------------------------------------------------ the filter

def table(h, n):
    """what the node told: n types, each with a mask of scales"""
    ts = [h.int("known%d" % i, 0, 255) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(ts[i] != ts[j])
    return ts, [h.int("mask%d" % i, 0, 15) for i in range(n)]


def reading(h, tag=""):
    size = h.choice(tag + "size", [1, 2, 4])
    typ, prec, scale = h.int(tag + "type", 0, 255), h.int(tag + "precision", 0, 7), h.int(tag + "scale", 0, 3)
    return typ, scale, bytes([0x31, 0x05, typ, prec * 32 + scale * 8 + size]) + h.bytes(tag + "value", size)


def passes(h, version, interviewed, ts, ms, typ, scale):
    if h.possible(version < 5) and version < 5:
        return True
    if len(ts) == 0 and not interviewed:
        return True
    for t, m in zip(ts, ms):
        if typ == t:
            return (m >> scale) & 1 == 1
    return False


@harness(params=[0, 1, 2, 3], functions=[S + "SensorMultilevel.__report__", CC + "CommandClass:CommandClass.handleMessage"], fuzz=60)
def filtered(h, n):
    """from any state: any version, interviewed or not, any table of up to three types; two reports in a row"""
    w = World(h, 0x31)
    version, interviewed = h.int("version", 0, 255), h.flag("interviewed")
    ts, ms = table(h, n)
    w.cc.__setstate__({"version": version, "interviewed": interviewed, "supportedTypes": {t: m for t, m in zip(ts, ms)}})
    typ, scale, data = reading(h)
    msg = w.handle(data)
    want = passes(h, version, interviewed, ts, ms, typ, scale)
    h.check("reaches the listeners of the class exactly if supported", h.iff(len(w.inner.calls) == 1, want))
    h.check("reaches the listeners of the node exactly if supported", h.iff(len(w.outer.calls) == 1, want))
    h.check("at most once", len(w.inner.calls) <= 1 and len(w.outer.calls) <= 1)
    for r, i in ((w.inner, 1), (w.outer, 1)):
        for _, args in r.calls:
            h.check("the report itself", args[i] is msg)
    h.check("nothing is sent", len(w.a.sends) == 0)
    h.check("the table stays", len(w.cc.supportedTypes) == n)
    for t, m in zip(ts, ms):
        h.check("as it was", w.cc.supportedTypes.get(t, None) == m)


@harness(functions=[S + "SensorMultilevel.__report__"], fuzz=40)
def history(h):
    """a report does not change what is done with the next"""
    w = World(h, 0x31)
    ts, ms = table(h, 1)
    w.cc.__setstate__({"version": 5, "interviewed": True, "supportedTypes": {ts[0]: ms[0]}})
    t0, s0 = h.int("type", 0, 255), h.int("scale", 0, 3)
    w.handle(bytes([0x31, 0x05, t0, s0 * 8 + 1, 7]))
    k = len(w.outer.calls)
    t1, s1 = h.int("type1", 0, 255), h.int("scale1", 0, 3)
    w.handle(bytes([0x31, 0x05, t1, s1 * 8 + 1, 7]))
    h.check("on its own", h.iff(len(w.outer.calls) == k + 1, passes(h, 5, True, ts, ms, t1, s1)))


@harness(functions=[S + "SensorMultilevel.__report__"])
def application(h):
    """all the way from the adapter"""
    prime(h)
    a = plain_adapter(h)
    app = h.get("pyzwave.application:Application")(a, Recorder("nodeUpdated"))
    node = h.get("pyzwave.node:Node")(9, a, [0x31])
    outer = Recorder("onMessage", onMessage=True)
    node.addListener(outer)
    app.nodes["9:0"] = node
    ts, ms = table(h, 1)
    version = h.choice("version", [4, 5, 11])
    node.supported[0x31].__setstate__({"version": version, "supportedTypes": {ts[0]: ms[0]}})
    typ, scale, data = reading(h)
    for f in a.speak("messageReceived", 9, 0, h.get(M).decode(data), 0):
        h.loop.finish(f)
    h.check("reaches it exactly if supported", h.iff(len(outer.calls) == 1, passes(h, version, False, ts, ms, typ, scale)))


@harness(params=list(range(7)), functions=[S + "SensorMultilevel.__report__"])
def other_classes(h, i):
    """other messages of the class, and reports of other classes, pass"""
    w = World(h, 0x31)
    w.cc.__setstate__({"version": 11, "interviewed": True, "supportedTypes": {}})
    v = h.int("value", 0, 255)
    data = [bytes([0x31, 0x02, v]), bytes([0x31, 0x06, v, v & 15]), bytes([0x31, 0x04, v, 8]), bytes([0x31, 0x01]), bytes([0x31, 0x03, v]),
            bytes([0x30, 0x03, v]), bytes([0x70, 0x06, v, 1, v])][i]
    w.handle(data)
    h.check("reaches the node's listeners", len(w.outer.calls) == 1)


# ------------------------------------------------------------------ the interview

MASKS = [b"\x00", b"\x01", b"\x05", b"\x80\x01", b"\x00\x00\x00\x01", b"\x01" + b"\x00" * 30 + b"\x40", b"\x0f"]


def bits(mask):
    return [8 * i + j + 1 for i, b in enumerate(mask) for j in range(8) if (b >> j) & 1]


class Told(World):
    """the node tells what it supports; `end` is what happens at question `at`"""

    def __init__(self, h, mask, scales, at=None, end=None):
        super().__init__(h, 0x31, self.told)
        self.mask, self.scales, self.at, self.end = mask, scales, at, end
        self.asked = []

    def told(self, nodeId, cmd, kw):
        h, b = self.h, cmd.compose()
        i = len(self.asked)
        how = self.end if i == self.at else None
        if b == b"\x31\x01":
            answer = b"\x31\x02" + self.mask
            self.asked.append(0)
        else:
            h.check("the scales of a type the node named", b[:2] == b"\x31\x03" and len(b) == 3)
            t = h.concrete(b[2])
            self.asked.append(t)
            answer = bytes([0x31, 0x06, t, self.scales[t]])
        if how == "not taken":
            return False
        if how == "cut":
            answer = answer[:2] if answer[1] == 2 else answer[:3]
        if how != "silent":
            self.reply(answer)
        return True


@harness(params=list(range(len(MASKS))), functions=[S + "SensorMultilevel.interview"], fuzz=15)
def interviewed(h, i):
    """over any former table"""
    mask = MASKS[i]
    types = bits(mask)
    scales = {t: h.int("scales%d" % t, 0, 15) for t in types}
    w = Told(h, mask, scales)
    n = h.choice("before", [0, 1, 2])
    ts, ms = table(h, n)
    w.cc.__setstate__({"version": h.int("version", 5, 255), "supportedTypes": {t: m for t, m in zip(ts, ms)}})
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("asked for every type once", sorted(w.asked) == [0] + types)
    h.check("interviewed", w.cc.interviewed is True)
    got = w.cc.supportedTypes
    h.check("exactly the types named", sorted([h.concrete(k) for k in got.keys()]) == types)
    for k in types:
        h.check("with their scales", got[k] == scales[k])


@harness(params=[(at, end) for at in range(3) for end in ("silent", "not taken", "cut")],
         functions=[S + "SensorMultilevel.interview"], fuzz=10)
def incomplete(h, p):
    """an interview not completed changes nothing of what is known"""
    at, end = p
    w = Told(h, b"\x05", {1: h.int("scales1", 0, 15), 3: h.int("scales3", 0, 15)}, at, end)
    n = h.choice("before", [0, 1])
    ts, ms = table(h, n)
    w.cc.__setstate__({"version": 5, "supportedTypes": {t: m for t, m in zip(ts, ms)}, "interviewed": h.flag("was")})
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("not interviewed", w.cc.interviewed is False)
    h.check("known as before", len(w.cc.supportedTypes) == n)
    for k, m in zip(ts, ms):
        h.check("as before", w.cc.supportedTypes.get(k, None) == m)
    typ, scale = h.int("type", 0, 255), h.int("scale", 0, 3)
    k = len(w.outer.calls)
    w.handle(bytes([0x31, 0x05, typ, scale * 8 + 1, 7]))
    h.check("reports as before", h.iff(len(w.outer.calls) == k + 1, passes(h, 5, False, ts, ms, typ, scale)))


@harness(functions=[S + "SensorMultilevel.interview"])
def old(h):
    """before version 5, nothing can be asked and every report passes"""
    w = World(h, 0x31)
    w.cc.__setstate__({"version": h.int("version", 1, 4)})
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("nothing is asked", len(w.a.sends) == 0)
    h.check("nothing is known", len(w.cc.supportedTypes) == 0)
    typ, scale, data = reading(h)
    w.handle(data)
    h.check("reaches the application", len(w.outer.calls) == 1)


@harness(functions=[S + "SensorMultilevel.__report__"])
def asked(h):
    """a reading asked for is the one the node then reports"""
    w = World(h, 0x31)
    ts, ms = table(h, 1)
    w.cc.__setstate__({"version": 5, "interviewed": True, "supportedTypes": {ts[0]: ms[0]}})
    typ, scale = h.int("ask type", 0, 255), h.int("ask scale", 0, 3)
    t = h.spawn(w.cc.sendAndReceive(h.get(S + "Get")(sensorType=typ, scale=scale), h.get(S + "Report")))
    h.loop.settle()
    h.check("asked for", len(w.a.sends) == 1 and w.a.sends[0][1].compose() == bytes([0x31, 0x04, typ, scale * 8]))
    raw = h.bytes("value", 2)
    prec = h.int("precision", 0, 7)
    w.handle(bytes([0x31, 0x05, typ, prec * 32 + scale * 8 + 2]) + raw)
    h.check("answered", h.loop.finish(t))
    st, m = h.outcome(t)
    h.check("with the report", st == "ok" and m.compose is not None and m.sensorType == typ)
    h.check("its scale", m.sensorValue.scale == scale)


# ------------------------------------------------------------------ parameters

def parameters(h, n):
    ns = [h.int("number%d" % i, 0, 255) for i in range(n)]
    for i in range(n):
        for j in range(i):
            h.assume(ns[i] != ns[j])
    return ns, [h.int("value%d" % i, 0, 2**32 - 1) for i in range(n)], [h.choice("size%d" % i, [1, 2, 4]) for i in range(n)]


def restored(w, ns, vs, ss):
    w.cc.__setstate__({"version": 1, "parameters": {n: {"value": v, "size": s} for n, v, s in zip(ns, vs, ss)}})


@harness(params=[0, 1, 2], functions=[C + "Configuration.get", C + "Configuration.__report__"], fuzz=60)
def get(h, n):
    """from any table of known parameters"""
    w = World(h, 0x70)
    ns, vs, ss = parameters(h, n)
    restored(w, ns, vs, ss)
    number = h.int("asked", 0, 255)
    how = h.choice("cached", ["default", "allowed", "not allowed"])
    t = h.spawn(w.cc.get(number) if how == "default" else w.cc.get(number, cached=how == "allowed"))
    h.loop.settle()
    if how != "not allowed":
        for k, v in zip(ns, vs):
            if number == k:
                h.check("the value known", h.outcome(t)[0] == "ok" and h.outcome(t)[1] == v)
                h.check("the node is left alone", len(w.a.sends) == 0)
                return
    h.check("waits for the node", not t.done())
    h.check("asked for once", len(w.a.sends) == 1 and w.a.sends[0][1].compose() == bytes([0x70, 0x05, number]))
    size = h.choice("size", [1, 2, 4])
    raw = h.bytes("value", size)
    w.handle(bytes([0x70, 0x06, number, size]) + raw)
    h.loop.settle()
    want = int.from_bytes(raw, "big")
    st, got = h.outcome(t)
    h.check("the value reported", st == "ok" and got == want)
    p = w.cc.parameters
    h.check("is known now", number in p and h.all(p[number].value == want, p[number].size == size))
    for k, v, s in zip(ns, vs, ss):
        if k != number:
            h.check("the others stay", h.all(p[k].value == v, p[k].size == s))
    t = h.spawn(w.cc.get(number))
    h.loop.settle()
    h.check("the value known now", h.outcome(t)[0] == "ok" and h.outcome(t)[1] == want)
    h.check("without asking", len(w.a.sends) == 1)


@harness(params=[0, 1, 2], functions=[C + "Configuration.__report__"], fuzz=40)
def report(h, n):
    """a report unasked for changes its parameter and no other; it is then stored, with the latest value"""
    w = World(h, 0x70)
    ns, vs, ss = parameters(h, n)
    restored(w, ns, vs, ss)
    rec = Recorder("nodeUpdated")
    w.node.addListener(rec)
    number, size = h.int("reported", 0, 255), h.choice("size", [1, 2, 3, 4, 5, 6, 7])
    raw = h.bytes("raw", size)
    w.handle(bytes([0x70, 0x06, number, size]) + raw)
    want = int.from_bytes(raw, "big")
    h.check("signalled for storage", len(rec.named("nodeUpdated")) == 1)
    known = False
    for k, v, s in zip(ns, vs, ss):
        if k == number:
            known = True
        else:
            h.check("the others stay", h.all(w.cc.parameters[k].value == v, w.cc.parameters[k].size == s))
    h.check("no more parameters", len(w.cc.parameters) == (n if known else n + 1))
    state = w.cc.__getstate__()
    v2 = World(h, 0x70)
    v2.cc.__setstate__(state)
    t = h.spawn(v2.cc.get(number))
    h.loop.settle()
    h.check("the latest value, also after a restart", h.outcome(t)[0] == "ok" and h.outcome(t)[1] == want)


@harness(params=["silent", "not taken", "error", "cut", "other message"], functions=[C + "Configuration.get"])
def unanswered(h, how):
    w = World(h, 0x70, {"not taken": False, "error": OSError("x")}.get(how, True))
    restored(w, [3], [77], [1])
    number = h.int("asked", 0, 255)
    t = h.spawn(w.cc.get(number, cached=False))
    h.loop.settle()
    if how == "cut":
        w.handle(bytes([0x70, 0x06, number, 2]))
    if how == "other message":
        w.handle(bytes([0x70, 0x05, number]))
    h.check("comes to an end", h.loop.finish(t))
    st, val = h.outcome(t)
    if how == "error":
        h.check("the error of the adapter", st == "error" and isinstance(val, OSError))
    elif how == "cut":
        h.check("no value made up", st == "error" or val is None)
    else:
        h.check("a timeout", st == "error" and isinstance(val, asyncio.TimeoutError))
    h.check("what is known stays", w.cc.parameters[3].value == 77 and len(w.cc.parameters) == 1)


@harness(params=[1, 2, 4], functions=[C + "Configuration.set", C + "Set.compose_value"])
def set(h, size):
    result = h.choice("result", [True, False])
    w = World(h, 0x70, result)
    number, value = h.int("number", 0, 255), h.int("value", 0, 256**size - 1)
    t = h.spawn(w.cc.set(number, size, value))
    h.loop.finish(t)
    h.check("whether the node took it", h.outcome(t) == ("ok", result))
    h.check("sent once", len(w.a.sends) == 1)
    h.check("the parameter, its size and value", w.a.sends[0][1].compose() ==
            bytes([0x70, 0x04, number, size]) + value.to_bytes(size, "big"))
