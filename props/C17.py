"""C17: a node's message goes to waiters, its command class, then listeners."""
from hlib import prime, StubAdapter
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.node:Node.handleMessage", "pyzwave.commandclass.CommandClass:CommandClass.handleMessage",
             "pyzwave.commandclass.Configuration:Configuration.__report__",
             "pyzwave.commandclass.AssociationGrpInfo:AssociationGrpInfo.__groupInfoReport__",
             "pyzwave.commandclass.AssociationGrpInfo:AssociationGrpInfo.__groupNameReport__",
             "pyzwave.commandclass.AssociationGrpInfo:AssociationGrpInfo.__groupCommandListReport__",
             "pyzwave.util:MessageWaiter.messageReceived"]


class Listener:
    def __init__(self, answer, log, name):
        self.answer, self.log = answer, log
        setattr(self, name, self.fn)

    def fn(self, sender, *args):
        self.log.append(args)
        if isinstance(self.answer, Exception):
            raise self.answer
        return self.answer


class Slow:
    def __init__(self, answer, log):
        self.answer, self.log = answer, log

    async def onMessage(self, sender, *args):
        import asyncio
        self.log.append(args)
        await asyncio.sleep(5)
        return self.answer


def make(h, classes, endpoint=0):
    a = StubAdapter(h)
    node = h.get("pyzwave.node:Node")(5, a, list(classes))
    if endpoint:
        node = h.get("pyzwave.node:NodeEndPoint")(node, endpoint, a, list(classes))
    return node, a


def decode(h, data):
    return h.get("pyzwave.message:Message").decode(data)


def handle(h, node, msg, flags=None):
    exc, r = h.catch(h.run, node.handleMessage(msg, flags))
    h.check("does not fail", exc is None, exc)
    return r


ANSWERS = {"none": [], "false": [False], "true": [True], "none then true": [None, True], "raises then true": ["boom", True],
           "false, none": [False, None], "true, false": [True, False], "false, something": [0, "yes"], "one": [1], "zero": [0, ""]}


@harness(params=sorted(ANSWERS), fuzz=30)
def dispatch(h, answers):
    """every combination of waiters, class, class listener and listeners"""
    prime(h)
    where = h.choice("class", ["supported", "controlled", "absent"])
    ep = h.choice("endpoint", [0, 2])
    node, a = make(h, {"supported": [0x25, 0x20], "controlled": [0x20, 0xEF, 0x25], "absent": [0x20]}[where], ep)
    waiters = h.choice("waiters", [[], ["live"], ["live", "live"], ["cancelled"], ["cancelled", "live"]])
    other = node.addWaitingSession(h.get(CC + "SwitchBinary:Get"))
    mine = []
    for w in waiters:
        f = node.addWaitingSession(h.get(CC + "SwitchBinary:Report"))
        if w == "cancelled":
            f.cancel()
        mine.append(f)
    h.loop.settle()
    cans = h.choice("class listener", [None, False, True, 1]) if where == "supported" else None
    clog, logs = [], []
    if where == "supported":
        node.supported[0x25].addListener(Listener(cans, clog, "onReport"))
    olog = []
    node.supported[0x20].addListener(Listener(True, olog, "onReport"))
    for ans in ANSWERS[answers]:
        log = []
        logs.append(log)
        node.addListener(Listener(ValueError(ans) if ans == "boom" else ans, log, "onMessage"))
    v = h.int("v", 0, 255)
    msg = decode(h, bytes([0x25, 0x03, v]))
    flags = object()
    r = handle(h, node, msg, flags)
    live = [m for m, w in zip(mine, waiters) if w == "live"]
    h.check("every waiter has it", h.all(*[m.done() and m.result() is msg for m in live]))
    h.check("no other waiter", not other.done())
    h.check("the class has it exactly if it is supported", len(clog) == (1 if where == "supported" else 0))
    if clog:
        h.check("with the flags", clog[0][0] is msg and clog[0][1] is flags)
    h.check("no other class", len(olog) == 0)
    taken = bool(live) or bool(cans)
    for log in logs:
        h.check("listeners are asked exactly if it was not taken", len(log) == (0 if taken else 1))
        if log:
            h.check("with the message", log[0][0] is msg)
    handled = taken or any(x and x != "boom" for x in ANSWERS[answers])
    h.check("handled", h.iff(bool(r), handled))
    # the waiters are gone
    n = [len(x) for x in logs]
    r2 = handle(h, node, decode(h, bytes([0x25, 0x03, v])), None)
    h.check("the next one is for the others", h.iff(bool(r2), bool(cans) or any(x and x != "boom" for x in ANSWERS[answers])))
    h.check("and no waiter changes", h.all(*[m.result() is msg for m in live]))


REPORTS = {"sensor 4": bytes([0x31, 0x05, 1, 0x22, 1, 2]), "sensor 5": bytes([0x31, 0x05, 1, 0x22, 1, 2]),
           "sensor 5 unsupported": bytes([0x31, 0x05, 9, 0x22, 1, 2]), "configuration": bytes([0x70, 0x06, 3, 1, 7]),
           "configuration cut": bytes([0x70, 0x06, 3]), "group name": bytes([0x59, 0x02, 1, 1, 65])}


@harness(params=sorted(REPORTS), fuzz=20)
def own_handler(h, what):
    """a command class with a handler of its own: its listeners are asked exactly if that did not take the report"""
    prime(h)
    node, a = make(h, [0x31, 0x70, 0x59])
    node.supported[0x31].__setstate__({"version": 4 if what == "sensor 4" else 5})
    node.supported[0x31].supportedTypes[1] = 0x02
    takes = what in ("sensor 5 unsupported", "configuration", "group name")
    if what == "sensor 5":
        node.supported[0x31].supportedTypes[1] = 0x01
        takes = False
    ans = h.choice("answer", [None, False, True, 1])
    data = REPORTS[what]
    name = "onGroupNameReport" if what == "group name" else "onReport"
    clog, log = [], []
    node.supported[data[0]].addListener(Listener(ans, clog, name))
    oans = h.flag("other answer")
    node.addListener(Listener(oans, log, "onMessage"))
    r = handle(h, node, decode(h, data))
    h.check("its listeners are asked if its handler did not take it", len(clog) == (0 if takes else 1))
    h.check("the others if neither did", len(log) == (0 if takes or ans else 1))
    h.check("handled", bool(r) is bool(takes or ans or oans))


@harness(params=["plain", "slow"], fuzz=20)
def slow_listener(h, how):
    """the answers of listeners that take their time count as well"""
    prime(h)
    node, a = make(h, [0x20])
    a1, a2 = h.flag("a1"), h.flag("a2")
    l1, l2 = [], []
    node.addListener(Slow(a1, l1))
    node.addListener(Slow(a2, l2) if how == "slow" else Listener(a2, l2, "onMessage"))
    r = handle(h, node, decode(h, bytes([0x25, 0x03, 1])))
    h.check("each asked once", len(l1) == 1 and len(l2) == 1)
    h.check("handled if one of them did", bool(r) is (a1 or a2))


@harness(params=["unknown command", "unknown class", "no command", "unsupported"], fuzz=20)
def unknown(h, what):
    """messages the library does not know go to the listeners like others"""
    prime(h)
    node, a = make(h, [0x25, 0xEE])
    x = h.int("x", 4, 255)
    data = {"unknown command": bytes([0x25, x]), "unknown class": bytes([0xEE, x, 7]), "no command": b"",
            "unsupported": bytes([0x20, 0x03, x])}[what]
    ans = h.choice("answer", [None, False, True])
    log = []
    node.addListener(Listener(ans, log, "onMessage"))
    msg = decode(h, data)
    r = handle(h, node, msg)
    h.check("asked once, with it", len(log) == 1 and log[0][0] is msg)
    h.check("handled", bool(r) is bool(ans))


@harness(params=[0x20, 0x25, 0x31, 0x70, 0x72, 0x85, 0x86, 0xEE], fuzz=10)
def only_its_class(h, cid):
    """only the supported class of the message's number ever sees it"""
    prime(h)
    cls = h.get(CC + "CommandClass:CommandClass")
    seen = []
    ans = h.flag("answer")

    async def spy(self, message, flags):
        seen.append(self.id)
        return ans
    old = cls.handleMessage
    cls.handleMessage = spy
    try:
        where = h.choice("where", ["supported", "controlled", "both", "absent"])
        ids = h.choice("others", [[], [i for i in (0x20, 0x25, 0x31, 0x70, 0x72, 0x85, 0x86, 0xEE) if i != cid]])
        node, a = make(h, ids + ([cid] if where in ("supported", "both") else []) + [0xEF] + ids +
                       ([cid] if where in ("controlled", "both") else []))
        r = handle(h, node, decode(h, bytes([cid, 0x42, 0])))
        h.check("seen by its class only, once", seen == ([cid] if where in ("supported", "both") else []))
        h.check("the result", bool(r) is (ans and where in ("supported", "both")))
    finally:
        cls.handleMessage = old


# ------------------------------------------------------------------ reports update the values

def updated(h, node):
    log = []
    node.addListener(Listener(None, log, "nodeUpdated"))
    return log


@harness(params=[1, 2, 4], fuzz=30)
def configuration(h, size):
    prime(h)
    node, a = make(h, [0x70])
    cc = node.supported[0x70]
    p, q = h.int("p", 0, 255), h.int("q", 0, 255)
    v, w, first = h.bytes("v", size), h.bytes("w", size), h.int("first", 0, 255)
    log = updated(h, node)
    r = handle(h, node, decode(h, bytes([0x70, 0x06, p, 1, first])))
    h.check("handled", bool(r))
    r = handle(h, node, decode(h, bytes([0x70, 0x06, q, size]) + v))
    h.check("handled", bool(r))
    h.check("its value", cc.parameters[q].value == int.from_bytes(v, "big"))
    h.check("its size", cc.parameters[q].size == size)
    if p != q:
        h.check("the other one is kept", h.all(cc.parameters[p].value == first, cc.parameters[p].size == 1, len(cc.parameters) == 2))
    else:
        h.check("there is only one", len(cc.parameters) == 1)
    h.check("stored each time", len(log) == 2)
    handle(h, node, decode(h, bytes([0x70, 0x06, q, size]) + w))
    h.check("a later value replaces it", cc.parameters[q].value == int.from_bytes(w, "big"))


@harness(params=[1, 2, 3], fuzz=30)
def group_info(h, n):
    prime(h)
    node, a = make(h, [0x59])
    cc = node.supported[0x59]
    prof = [h.int("p%d" % i, 0, 0xFFFF) for i in range(n)]
    dyn, lm = h.int("dyn", 0, 1), h.int("lm", 0, 1)
    data = bytes([0x59, 0x04, (lm << 7) | (dyn << 6) | n])
    for i in range(n):
        data = data + bytes([i + 1, 0, prof[i] >> 8, prof[i] & 255, 0, h.int("e%d" % i, 0, 255), 0])
    h.check("handled", bool(handle(h, node, decode(h, data))))
    h.check("all groups", sorted(cc.groupings.keys()) == list(range(1, n + 1)))
    for i in range(n):
        h.check("its profile", cc.groupings[i + 1].profile == prof[i])
    # their names and commands are asked for, and arrive
    asked = [bytes(s[1].compose()) for s in a.sends]
    for i in range(n):
        h.check("the name is asked for", bytes([0x59, 0x01, i + 1]) in asked)
        h.check("the commands are asked for", any(x[:2] == b"\x59\x05" and x[3] == i + 1 for x in asked))
    g = h.choice("which", list(range(1, n + 1)))
    c = [h.int("c%d" % i, 0, 255) for i in range(4)]
    text = h.choice("text", ["", "Lifeline", "räksmörgås"])
    h.assume(c[0] < 0xF1)
    h.assume(c[2] < 0xF1)
    t = text.encode("utf-8")
    h.check("handled", bool(handle(h, node, decode(h, bytes([0x59, 0x02, g, len(t)]) + t))))
    h.check("handled", bool(handle(h, node, decode(h, bytes([0x59, 0x06, g, 4] + c)))))
    h.check("the name", cc.groupings[g].name == text)
    h.check("the commands", len(cc.groupings[g].commands) == 2)
    cmds = cc.groupings[g].commands
    h.check("each of them", h.all(cmds[0][0] == c[0], cmds[0][1] == c[1], cmds[1][0] == c[2], cmds[1][1] == c[3]))
    for i in range(n):
        h.check("profiles are kept", cc.groupings[i + 1].profile == prof[i])
        if i + 1 != g:
            h.check("other names are not touched", cc.groupings[i + 1].name == "")
            h.check("nor their commands", len(cc.groupings[i + 1].commands) == 0)
    # groups nobody knows are ignored
    h.check("handled as well", bool(handle(h, node, decode(h, bytes([0x59, 0x02, 99, 1, 65])))))
    h.check("but not kept", 99 not in cc.groupings)


def cuts():
    out = []
    for name, data in sorted(FULL.items()):
        out += ["%s %d" % (name, n) for n in range(2, len(data) + 1)]
    return out


FULL = {"configuration": bytes([0x70, 0x06, 3, 2, 1, 2]), "group info": bytes([0x59, 0x04, 2, 1, 0, 1, 2, 0, 0, 0, 2, 0, 3, 4, 0, 0, 0]),
        "group name": bytes([0x59, 0x02, 1, 2, 65, 66]), "group commands": bytes([0x59, 0x06, 1, 4, 0x20, 1, 0x25, 3]),
        "sensor": bytes([0x31, 0x05, 1, 0x22, 1, 2]), "association": bytes([0x85, 0x03, 1, 5, 0, 1, 2]),
        "version": bytes([0x86, 0x14, 0x20, 1]), "basic": bytes([0x20, 0x03, 1])}


@harness(params=cuts, fuzz=3)
def cut_off(h, what):
    """a report cut off anywhere neither fails nor makes up values, and does not disturb the next one"""
    prime(h)
    name, n = what.rsplit(" ", 1)
    full = FULL[name]
    node, a = make(h, [0x70, 0x59, 0x31, 0x85, 0x86, 0x20])
    for k in (0x31, 0x59):
        node.supported[k].__setstate__({"version": 5})
    agi = node.supported[0x59]
    grp = h.get(CC + "AssociationGrpInfo:Group")(profile=0x0777)
    grp.name = "Before"
    grp.commands = [[0x20, 0x02]]
    agi.groupings[1] = grp
    log = []
    node.addListener(Listener(True, log, "onMessage"))
    exc, msg = h.catch(decode, h, full[:int(n)])
    h.check("cut off inside a field it is an end-of-data error", exc is None or isinstance(exc, EOFError), exc)
    if exc is not None:
        return
    handle(h, node, msg)
    if int(n) < len(full):
        h.check("no parameter without a value", h.all(*[p.value is not None and p.size for p in node.supported[0x70].parameters.values()]))
        h.check("the name is kept", 1 not in agi.groupings or agi.groupings[1].name in (("Before", "") if name == "group info" else ("Before",)))
        h.check("the commands are kept", name == "group info" or [list(c) for c in agi.groupings[1].commands] == [[0x20, 0x02]])
        h.check("no group without a profile", h.all(*[k is not None and g.profile is not None for k, g in agi.groupings.items()]))
    handle(h, node, decode(h, full))
    if name == "configuration":
        h.check("then the whole one counts", node.supported[0x70].parameters[3].value == 0x0102)
    if name == "group info":
        h.check("then the whole one counts", h.all(agi.groupings[1].profile == 0x0102, agi.groupings[2].profile == 0x0304))
    if name == "group name":
        h.check("then the whole one counts", agi.groupings[1].name == "AB")
    if name == "group commands":
        h.check("then the whole one counts", [list(c) for c in agi.groupings[1].commands] == [[0x20, 1], [0x25, 3]])


@harness(params=["another node", "its endpoint"], fuzz=10)
def whose(h, how):
    """a message is offered to the waiters, the class and the listeners of the node it came from, to no others"""
    prime(h)
    node, a = make(h, [0x25])
    if how == "another node":
        other = h.get("pyzwave.node:Node")(6, a, [0x25])
    else:
        other = h.get("pyzwave.node:NodeEndPoint")(node, 1, a, [0x25])
    two = [node, other] if h.flag("order") else [other, node]
    waits = [n.addWaitingSession(h.get(CC + "SwitchBinary:Report")) if h.flag("waits %d" % i) else None
             for i, n in enumerate(two)]
    clog, log = [[], []], [[], []]
    for n, c, l in zip(two, clog, log):
        n.supported[0x25].addListener(Listener(None, c, "onReport"))
        n.addListener(Listener(None, l, "onMessage"))
    v = h.int("v", 0, 255)
    msg = decode(h, bytes([0x25, 0x03, v]))
    r = handle(h, two[0], msg, None)
    h.check("handled if it was waited for", bool(r) is (waits[0] is not None))
    if waits[0] is not None:
        h.check("the waiter has it", waits[0].done() and waits[0].result() is msg)
    if waits[1] is not None:
        h.check("nobody else's waiter", not waits[1].done())
    h.check("its class", [len(c) for c in clog] == [1, 0])
    h.check("its listeners", [len(l) for l in log] == [0 if waits[0] is not None else 1, 0])
