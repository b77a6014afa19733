"""C27: a command class is interviewed only when its interview completed."""
import asyncio
import itertools

from hlib import prime, StubAdapter, Recorder
from pyvc.api import harness

CC = "pyzwave.commandclass."
K = CC + "CommandClass:"
FUNCTIONS = [K + "interviewDecorator", K + "CommandClass.requestVersion", K + "CommandClass.load", "pyzwave.node:Node.interview",
             CC + "Version:Version.interview", CC + "ManufacturerSpecific:ManufacturerSpecific.interview",
             CC + "ZwavePlusInfo:ZwavePlusInfo.interview", CC + "SensorMultilevel:SensorMultilevel.interview",
             CC + "AssociationGrpInfo:AssociationGrpInfo.interview"]
ASSUMPTIONS = ["interviews of one class do not overlap", "version reports are about the class asked for"]

# how an interview of a class may end
ENDS = ["none", "true", "false", "timeout", "error", "cancel"]
# how the question for the version may end
VERSIONS = ["known", "told", "told late", "zero", "silent", "not taken", "cut", "raising"]


class World:
    """a node with scripted command classes (0x25 + i)"""

    def __init__(self, h, n, tag=""):
        prime(h)
        self.h, self.n = h, n
        self.a = StubAdapter(h)
        self.a.result = self.told
        self.log = []
        self.plan = [None] * n
        self.versions = ["known"] * n
        self.says = [3] * n
        w = self
        ids = [0x25, 0x26, 0x27, 0x28, 0x29][:n]
        reg = h.get("pyzwave.commandclass:ZWaveCommandClass")
        old = {i: reg.get(i, None) for i in ids}

        def scripted(k):
            class Scripted(h.get(K + "CommandClass")):
                NAME = "SCRIPTED"

                async def interview(self):
                    w.log.append(("interview", k))
                    w.seen.append(self.version)
                    how = w.plan[k]
                    if how == "false":
                        return False
                    if how == "true":
                        return True
                    if how == "timeout":
                        raise asyncio.TimeoutError()
                    if how == "error":
                        raise TypeError("x")
                    if how == "version":
                        await self.requestVersion()
                    if how == "cancel":
                        await w.h.loop.create_future()
                    return None
            return Scripted
        self.seen = []
        try:
            for k, i in enumerate(ids):
                h.get("pyzwave.commandclass:ZWaveCommandClass")(i)(scripted(k))
            self.node = h.get("pyzwave.node:Node")(9, self.a, list(ids))
        finally:
            for i in ids:
                if old[i] is None:
                    reg.pop(i)
                else:
                    reg[i] = old[i]
        self.cc = [self.node.supported[i] for i in ids]
        self.ids = ids

    def told(self, nodeId, cmd, kw):
        b = cmd.compose()
        h = self.h
        h.check("only the version is asked for here", b[:2] == b"\x86\x13" and len(b) == 3)
        i = h.concrete(b[2])
        k = self.ids.index(i)
        self.log.append(("version", k))
        how = self.versions[k]
        if how == "not taken":
            return False
        if how == "raising":
            raise OSError("x")
        if how in ("told", "zero"):
            self.reply(bytes([0x86, 0x14, i, self.says[k] if how == "told" else 0]))
        elif how == "cut":
            self.reply(bytes([0x86, 0x14, i]))
        elif how == "told late":
            h.loop.call_later(2, self.reply, bytes([0x86, 0x14, i, self.says[k]]))
        return True

    def reply(self, data):
        msg = self.h.get("pyzwave.message:Message").decode(data)
        self.h.loop.call_io(lambda: self.h.loop.create_task(self.node.handleMessage(msg, 0)))


@harness(params=[(v, e) for v in VERSIONS for e in (ENDS if v in ("known", "told") else ["none"])], fuzz=10)
def one_class(h, ve):
    """from any state of the class: any version, interviewed before or not"""
    how, end = ve
    w = World(h, 1)
    c = w.cc[0]
    before = h.flag("before")
    v0 = h.int("version", 1, 255) if how == "known" else 0
    c.__setstate__({"version": v0, "interviewed": before})
    w.says[0] = h.int("says", 1, 255)
    w.versions[0], w.plan[0] = how, end
    rec = Recorder("commandClassUpdated")
    c.addListener(rec)
    h.check("as restored", c.interviewed is before)
    t = h.spawn(c.interview())
    if end == "cancel":
        h.loop.settle()
        h.check("running", h.outcome(t)[0] == "pending")
        h.check("not interviewed while it runs", c.interviewed is False)
        t.cancel()
    h.check("comes to an end", h.loop.finish(t))
    out = h.outcome(t)
    known = how in ("known", "told", "told late")
    h.check("the version is asked for only while it is unknown, and first", w.log ==
            ([] if how == "known" else [("version", 0)]) + ([("interview", 0)] if known else []), w.log)
    if not known:
        h.check("still unknown", c.version == 0)
        h.check("as it was", c.interviewed is before)
        h.check("no interview was made", out[0] in ("ok", "error"))
        return
    v = v0 if how == "known" else w.says[0]
    h.check("the interview knows the version", len(w.seen) == 1 and w.seen[0] == v)
    h.check("the version stays", c.version == v)
    h.check("interviewed exactly if it ran to its end", c.interviewed is (end in ("none", "true")), (end,))
    told = len(rec.calls) - (how != "known")
    if end in ("none", "true", "false"):
        h.check("the change is announced", told == 1, told)
    h.check("what the interview says", out[0] == {"error": "error", "cancel": "cancelled"}.get(end, "ok"), out)
    if end in ("false", "timeout"):
        h.check("not complete", out[1] is False)


@harness(params=[(x, y) for x in ENDS for y in ENDS], fuzz=4)
def two_interviews(h, xy):
    """an interview after another: the last one counts"""
    w = World(h, 1)
    c = w.cc[0]
    w.versions[0] = "told"
    w.says[0] = h.int("says", 1, 255)
    for i, end in enumerate(xy):
        w.plan[0] = end
        t = h.spawn(c.interview())
        if end == "cancel":
            t.cancel()
        h.check("comes to an end", h.loop.finish(t))
        if end != "cancel" or i == 1:
            h.check("the last one counts", c.interviewed is (end in ("none", "true")), (i, end))
    if "cancel" not in xy:
        h.check("the version is asked for once", [x[0] for x in w.log] == ["version", "interview", "interview"], w.log)
    s = c.__getstate__()
    d = World(h, 1).cc[0]
    d.__setstate__(s)
    h.check("remembered", h.all(d.interviewed is (xy[1] in ("none", "true")), d.version == c.version))


def ends3():
    a = [(v, e) for v, e in [("known", "none"), ("known", "false"), ("known", "timeout"), ("known", "error"), ("silent", "none"),
                             ("not taken", "none"), ("cut", "none"), ("raising", "none"), ("told", "none")]]
    return a


@harness(params=list(range(9)), fuzz=1, kind="bounded", note="two classes in every combination of outcomes, and every one of them in the midst of five")
def whole_node(h, first):
    """a class that fails does not keep the others from being interviewed"""
    e = ends3()
    combos = [[e[first], y] for y in e] + [[e[0], e[8], e[first], e[8], e[0]], [e[first]] * 5]
    for combo in combos:
        w = World(h, len(combo))
        for k, (v, end) in enumerate(combo):
            w.versions[k], w.plan[k] = v, end
            w.cc[k].__setstate__({"version": 4 if v == "known" else 0, "interviewed": "False"})
        t = h.spawn(w.node.interview())
        h.check("comes to an end", h.loop.finish(t))
        h.check("no error", h.outcome(t)[0] == "ok", (combo, h.outcome(t)))
        want = []
        for k, (v, end) in enumerate(combo):
            want += ([] if v == "known" else [("version", k)]) + ([("interview", k)] if v in ("known", "told") else [])
        h.check("every class is tried", w.log == want, (combo, w.log))
        for k, (v, end) in enumerate(combo):
            h.check("interviewed exactly if complete", w.cc[k].interviewed is (v in ("known", "told") and end == "none"), (combo, k))


@harness(fuzz=10)
def version_again(h):
    """the version is the one last reported"""
    w = World(h, 1)
    c = w.cc[0]
    w.versions[0] = "told"
    a, b = h.int("a", 1, 255), h.int("b", 1, 255)
    for v in (a, b):
        w.says[0] = v
        h.check("as reported", h.run(c.requestVersion()) == v)
        h.check("kept", c.version == v)


@harness(params=["told", "zero", "not taken", "cut"], fuzz=10)
def version_meanwhile(h, how):
    """an interview asking for the version once more, whatever it is told: it has run to its end all the same"""
    w = World(h, 1)
    c = w.cc[0]
    before, says = h.int("before", 1, 255), h.int("says", 1, 255)
    c.__setstate__({"version": before, "interviewed": "False"})
    w.plan, w.versions, w.says = ["version"], [how], [says]
    h.catch(lambda: h.run(c.interview()))
    if how in ("told", "zero"):
        h.check("the version is what was told", c.version == (says if how == "told" else 0))
    if how != "cut":
        h.check("it ran to its end", c.interviewed is True)


@harness(fuzz=10)
def abandoned(h):
    """an interview of a node that is cancelled goes no further"""
    w = World(h, 3)
    for k in range(3):
        w.cc[k].__setstate__({"version": 4, "interviewed": "True"})
    w.plan = ["none", "cancel", "none"]
    t = h.spawn(w.node.interview())
    h.loop.settle()
    h.check("held up", h.outcome(t)[0] == "pending")
    t.cancel()
    h.loop.settle()
    h.check("cancelled", h.outcome(t)[0] == "cancelled")
    h.check("no further", w.log == [("interview", 0), ("interview", 1)])
    h.check("interviewed", [c.interviewed for c in w.cc] == [True, False, True])


# the classes of the library with an interview: questions in order -> answers
REAL = {0x86: [(0x11, b"\x86\x12\x01\x02\x03\x04\x05")],
        0x72: [(0x04, b"\x72\x05\x00\x01\x00\x02\x00\x03")],
        0x5E: [(0x01, b"\x5e\x02\x01\x05\x00\x06\x00\x07\x00")],
        0x31: [(0x01, b"\x31\x02\x05"), (0x03, b"\x31\x06\x01\x03"), (0x03, b"\x31\x06\x03\x01")],
        0x59: [(0x03, None)],
        0x85: [(0x05, b"\x85\x06\x00")]}


class RealNode:
    def __init__(self, h, classes, version=None):
        prime(h)
        self.h = h
        self.a = StubAdapter(h)
        self.a.result = self.told
        self.node = h.get("pyzwave.node:Node")(9, self.a, list(classes))
        self.version = version
        self.fault = {}     # (class, index) -> how
        self.asked = {}
        self.log = []

    def told(self, nodeId, cmd, kw):
        b = cmd.compose()
        h = self.h
        key = (h.concrete(b[0]), h.concrete(b[1]))
        if key == (0x86, 0x13):
            cls = h.concrete(b[2])
            how = self.fault.get((cls, "version"))
            answer = bytes([0x86, 0x14, cls, self.version if self.version is not None else 6])
            self.log.append((cls, "version"))
        else:
            cls = key[0]
            i = self.asked.get(cls, 0)
            self.asked[cls] = i + 1
            self.log.append((cls, i))
            qs = REAL[cls]
            h.check("a question of the interview", i < len(qs) and qs[i][0] == key[1], (cls, key, i))
            answer = qs[i][1]
            how = self.fault.get((cls, i))
        if how == "not taken":
            return False
        if how == "raising":
            raise OSError("x")
        if how == "silent" or answer is None:
            return True
        if how == "cut":
            answer = answer[:2]
        if how == "late":
            h.loop.call_later(4, self.reply, answer)
        else:
            self.reply(answer)
        return True

    reply = World.reply


FAULTS = ["silent", "not taken", "raising", "cut", "late"]


@harness(params=[(c, i, f) for c in REAL for i in ["version"] + list(range(len(REAL[c]))) for f in FAULTS + ["none"]
                 if (f != "none" or i == "version") and not (c == 0x59 and i == 0 and f in ("silent", "late", "cut"))], fuzz=6)
def library_classes(h, cif):
    """each class of the library with an interview, failing at any of its questions; interviewed before or not"""
    cls, at, fault = cif
    w = RealNode(h, [cls], h.int("version", 5, 255))
    c = w.node.supported[cls]
    before = h.flag("before")
    fine = fault == "none"
    c.__setstate__({"interviewed": before, "version": w.version if at != "version" else 0})
    if not fine:
        w.fault[(cls, at)] = fault
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("without an error", h.outcome(t)[0] == "ok", h.outcome(t))
    asked = ["version"] if at == "version" else []
    if fine:
        asked += list(range(len(REAL[cls])))
    elif at != "version":
        asked += list(range(at + 1))
    h.check("asked up to the question without an answer", w.log[:len(asked)] == [(cls, x) for x in asked], w.log)
    h.check("asked no more than there is", fault == "cut" or len(w.log) == len(asked), w.log)
    if at == "version" and not fine:
        h.check("untouched while the version is unknown", h.all(c.interviewed is before, c.version == 0))
        return
    h.check("interviewed exactly if every question was answered", c.interviewed is fine)
    h.check("the version", c.version == w.version)
    # asked again, it answers
    w.fault, w.asked = {}, {}
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("now it is", c.interviewed is True)


# the fields of the answers: (class, question, answer) -> widths
VALUES = {0x86: (0x12, [("zwaveLibraryType", 1), ("zwaveProtocolVersion", 1), ("zwaveProtocolSubVersion", 1),
                        ("applicationVersion", 1), ("applicationSubVersion", 1)]),
          0x72: (0x05, [("manufacturerID", 2), ("productTypeID", 2), ("productID", 2)]),
          0x5E: (0x02, [("zwavePlusVersion", 1), ("roleType", 1), ("nodeType", 1), ("installerIconType", 2),
                        ("userIconType", 2)])}


@harness(params=sorted(VALUES), fuzz=20)
def values(h, cls):
    """an interview leaves in the class what was reported, each time; also after a restart"""
    answer, fields = VALUES[cls]
    w = RealNode(h, [cls], 5)
    c = w.node.supported[cls]
    for again in range(2):
        data = h.bytes("data%d" % again, sum(n for _, n in fields))
        w.asked = {}
        saved, REAL[cls] = REAL[cls], [(REAL[cls][0][0], bytes([cls, answer]) + data)]
        try:
            t = h.spawn(w.node.interview())
            h.check("comes to an end", h.loop.finish(t))
        finally:
            REAL[cls] = saved
        h.check("complete", h.outcome(t)[0] == "ok" and c.interviewed is True)
        d = RealNode(h, [cls], 5).node.supported[cls]
        d.__setstate__(c.__getstate__())
        at = 0
        for name, n in fields:
            v = data[at] if n == 1 else data[at] * 256 + data[at + 1]
            h.check("the value reported", getattr(c, name) == v, name)
            h.check("and remembered", getattr(d, name) == v, name)
            at += n


@harness(params=[0x25, 0x20, 0x80, 0x87, 0x31], fuzz=10)
def nothing_to_ask(h, cls):
    """classes without an interview of their own (or too old for one) only need their version"""
    v = h.int("version", 1, 4 if cls == 0x31 else 255)
    w = RealNode(h, [cls], v)
    c = w.node.supported[cls]
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("only the version", w.log == [(cls, "version")])
    h.check("known", h.all(c.version == v, c.interviewed is True))


@harness(params=[(c, f) for c in (0x86, 0x72, 0x5E, 0x31, 0x85, 0x59) for f in FAULTS], fuzz=4)
def one_of_many(h, cf):
    """a real node where one class fails: every other one is interviewed"""
    cls, fault = cf
    every = [0x5E, 0x72, 0x25, 0x86, 0x85, 0x59, 0x31, 0x20]
    w = RealNode(h, every, 5)
    w.fault[(cls, "version")] = fault
    t = h.spawn(w.node.interview())
    h.check("comes to an end", h.loop.finish(t))
    h.check("without an error", h.outcome(t)[0] == "ok", h.outcome(t))
    for k in every:
        h.check("interviewed", w.node.supported[k].interviewed is (k != cls), (k,))
    h.check("each asked once", len(w.log) == len(set(w.log)), w.log)


@harness(fuzz=10)
def no_version(h):
    """a class without a number has no version, and is not asked"""
    prime(h)
    a = StubAdapter(h)
    node = h.get("pyzwave.node:Node")(9, a, [])
    c = h.get(K + "CommandClass")(False, node)
    t = h.spawn(c.requestVersion())
    h.check("none", h.loop.finish(t) and h.outcome(t) == ("ok", 0))
    h.check("nothing is sent", len(a.sends) == 0)
