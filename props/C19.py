"""C19: a stored message is announced every minute until it is delivered."""
import os

from hlib import MailboxSpy
from pyvc.api import LoopContract, harness

FUNCTIONS = ["pyzwave.mailbox:QueueItem._runner", "pyzwave.mailbox:QueueItem.start", "pyzwave.mailbox:QueueItem.stop",
             "pyzwave.mailbox:MailboxService.__popQueue__", "pyzwave.mailbox:MailboxService.__pushQueue__"]
ASSUMPTIONS = ["asyncio.sleep and timers behave as documented (the installed asyncio runs on a virtual clock)",
               "the announcements themselves are sent in no time, except where the harness delays them",
               "bounded: up to 45 minutes (thorough: 300) after a message was stored"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


class Minutes(LoopContract):
    """The loop of the announcements.  Whatever minute it is, one iteration lets 60 seconds pass, makes one
    announcement, a ping exactly if it is a tenth one, and counts the minute; it ends by being cancelled only."""

    name = "announcements of a message"
    minute = None

    def __init__(self, box, judge):
        self.box, self.judge = box, judge

    def find(self, v):
        return [k for k, x in v.items() if self.h.literal(x) == 0]

    def attach(self, v, where, it):
        item = self.h.get("pyzwave.mailbox:QueueItem")
        return self.minute is None and it is None and len(self.find(v)) == 1 and any([type(x) is item for x in v.values()])

    def entry(self, v, it):
        (self.i,) = self.find(v)

    def havoc(self, v, it):
        h = self.h
        self.minute = h.int("minute", 0)
        h.prefer(self.minute <= 30)
        h.loop._now = h.int("now", 0, 10 ** 9)
        self.start = h.time()
        box = self.box
        self.before = len(box.times)
        self.modifies = [h.loop, h.loop._ready, h.loop._timers, h.loop.all_tasks, box, box.times, box.a.sends]
        return {self.i: self.minute}

    def step(self, v):
        h = self.h
        self.judge()
        h.check("the minute is counted", v[self.i] % 10 == (self.minute + 1) % 10)


class Boom(Exception):
    pass


class Clock(MailboxSpy):
    """also remembers when everything was sent"""

    def __init__(self, h, nodeId=7):
        super().__init__(h, nodeId)
        self.times = []
        self.inner = True
        self.outcome = self.note

    def note(self, nodeId, cmd, kw):
        self.times.append(self.h.time())
        r = self.inner
        return r(nodeId, cmd, kw) if callable(r) else r

    def do(self, coro, result=True):
        self.outcome = self.note
        self.inner = result
        t = self.h.spawn(coro)
        self.h.loop.settle()
        self.h.check("ends", t.done())
        self.inner = True

    def notices(self, since=0):
        """(when, WAITING or PING, queue, entry) sent since"""
        return [(self.times[since + i],) + x[1:4] for i, x in enumerate(self.sent(since))]


def schedule(start, minutes, queue, entry):
    return [(start + 60 * k, "PING" if k % 10 == 0 else "WAITING", queue, entry) for k in range(1, minutes + 1)]


@harness(params=[1, 9, 10, 11, 31, 45] + ([300] if THOROUGH else []), fuzz=5, kind="bounded",
         note="up to 45 (thorough: 300) minutes")
def every_minute(h, minutes):
    """one message, for a while, and not a second earlier or later"""
    q = h.int("q", 1, 255)
    box = Clock(h, h.int("node", 1, 232))
    m = h.bytes("m", 2)
    h.loop.advance(h.choice("start", [0, 17]))
    t0 = h.time()
    box.do(box.push(q, m))
    n = len(box.times)
    h.loop.advance(60 * minutes)
    got, want = box.notices(n), schedule(t0, minutes, q, m)
    h.check("as many as minutes", len(got) == minutes)
    for g, w in zip(got, want):
        h.check("when", g[0] == w[0])
        h.check("a ping every tenth time", g[1] == w[1])
        h.check("of the message", h.all(g[2] == w[2], g[3] == w[3]))
    h.check("none is the last one", h.no(h.any(*[x[4] for x in box.sent(n)])))
    h.check("to the mailbox proxy", h.all(*[x[0] == box.nodeId for x in box.sent(n)]))
    h.loop.advance(59)
    h.check("none earlier", len(box.times) == n + minutes)


@harness(params=["ok", "False", "raise"], fuzz=1, kind="bounded", note="natively 5000 minutes")
def for_days(h, outcome):
    """nothing about it changes with time"""
    q = h.int("q", 1, 255)
    box = Clock(h, 7)
    m = h.bytes("m", 2)
    t0 = h.time()
    box.do(box.push(q, m))
    n = len(box.times)
    box.inner = lambda nodeId, cmd, kw: {"ok": True, "False": False, "raise": Boom()}[outcome]
    minutes = 3 if h.symbolic else 5000
    for _ in range(minutes):
        h.loop.advance(60)
    got, want = box.notices(n), schedule(t0, minutes, q, m)
    h.check("as many as minutes", len(got) == minutes, len(got))
    for g, w in zip(got, want):
        h.check("on the minute, a ping every tenth time", g[0] == w[0] and g[1] == w[1])
        h.check("of the message", h.all(g[2] == w[2], g[3] == w[3]))


OUTCOMES = ["ok", "False", "raise", "slow"]


@harness(params=OUTCOMES, fuzz=12, time=120)
def any_minute(h, outcome):
    """the announcements of any minute, and their end at any second of it"""
    box = Clock(h, h.int("node", 1, 232))
    q, m = h.int("q", 1, 255), h.bytes("m", 3)
    t0 = h.time()

    async def slow():
        import asyncio
        await asyncio.sleep(2)
        return True

    def inner(nodeId, cmd, kw):
        if cmd.compose()[2] & 7 == 1:
            return True
        return slow() if outcome == "slow" else {"ok": True, "False": False, "raise": Boom()}[outcome]

    gone = []

    def judge():
        h.check("none goes on once delivered", not gone)
        got = box.notices(c.before)
        h.check("one announcement", len(got) == 1, len(got))
        h.check("after sixty seconds", got[0][0] == c.start + 60)
        h.check("a ping every tenth time", h.iff(got[0][1] == "PING", (c.minute + 1) % 10 == 0))
        h.check("else a notice", h.any(got[0][1] == "PING", got[0][1] == "WAITING"))
        h.check("of the message", h.all(got[0][2] == q, got[0][3] == m))
        h.check("not the last", h.no(box.sent(c.before)[0][4]))
        h.check("to the mailbox proxy", box.sent(c.before)[0][0] == box.nodeId)
        h.check("in its time", h.time() == c.start + (62 if outcome == "slow" else 60))

    c = Minutes(box, judge)
    h.cut(c)
    box.do(box.push(q, m))
    after = h.int("after", 0, 59)
    over = h.choice("over", [0, 2, 3])
    box.inner = inner
    if not h.symbolic:
        minutes = h.choice("minutes", list(range(0, 31)))
        h.loop.advance((62 if outcome == "slow" else 60) * minutes)
        n = len(box.times)
        if outcome != "slow":
            h.check("announced", box.notices(1) == schedule(t0, minutes, q, m))
        h.check("as many as minutes", n <= 1 + minutes)
    else:
        if c.minute is None:
            h.unsupported("loop contract not attached")
        n = len(box.times)
    h.loop.advance(after)
    h.check("not early", h.any(outcome == "slow", len(box.times) == n))
    if over:
        # the iteration ends within, and is judged there; a slow one is cut off by the delivery
        h.loop.advance(59 + over - after)
        if h.symbolic and not (outcome == "slow" and over == 2):
            h.unsupported("the iteration has not ended")
    box.outcome = lambda *a: True
    gone.append(True)
    h.run(box.wake(q))
    n = len(box.times)
    box.outcome = box.note
    h.loop.advance(1500)
    h.check("none once delivered", len(box.times) == n)


@harness(params=["same queue", "other queue", "three"], fuzz=10, kind="bounded",
         note="up to three messages")
def several(h, what):
    """every stored message has announcements of its own"""
    box = Clock(h)
    what = {"same queue": [(3, b"a"), (3, b"b")], "other queue": [(3, b"a"), (4, b"a")],
            "three": [(3, b"a"), (4, b"b"), (3, b"c")]}[what]
    start, pushes = {}, 0
    for i, (q, m) in enumerate(what):
        h.loop.advance(h.choice("gap%d" % i, [0, 20, 61]))
        start[(q, m)] = h.time()
        box.do(box.push(q, m))
    end = h.time() + 23 * 60 + 1
    h.loop.advance(end - h.time())
    allof = box.notices()
    for (q, m), t0 in start.items():
        mine = [x for x in allof if x[2:] == (q, m)]
        h.check("the first when stored", mine[0] == (t0, "WAITING", q, m))
        h.check("then every minute", mine[1:] == schedule(t0, int((end - t0) // 60), q, m))
    h.check("nothing else", len(allof) == sum(1 + int((end - t0) // 60) for t0 in start.values()))


ENDS = ["ok", "False", "raise", "cancel"]


@harness(params=ENDS, fuzz=20, kind="bounded",
         note="one delivery")
def delivery(h, end):
    """the announcements stop with a delivery that succeeds, and with no other"""
    box = Clock(h)
    box.do(box.push(3, b"a"))
    box.do(box.push(4, b"b"))
    pause = h.choice("when", [0, 30, 60, 599, 600, 601])
    h.loop.advance(pause)
    takes = h.choice("takes", [0, 1, 90])
    f = h.loop.create_future()
    box.inner = lambda n, cmd, kw: f if cmd.compose()[2] & 7 == 1 else True
    box.outcome = box.note
    t = h.spawn(box.wake(3) if h.flag("wake") else box.ack(3))
    h.loop.settle()
    h.loop.advance(takes)
    if end == "cancel":
        t.cancel()
    else:
        f.set_result({"ok": True, "False": False, "raise": Boom()}[end])
    h.loop.settle()
    box.inner = True
    n = len(box.times)
    now = h.time()
    h.loop.advance(1500)
    mine = [x for x in box.notices(n) if x[2] == 3]
    if end == "ok":
        h.check("no more", len(mine) == 0)
    else:
        h.check("as before", mine == [x for x in schedule(0, 60, 3, b"a") if now < x[0] <= now + 1500] or
                mine == [x for x in schedule(0, 60, 3, b"a") if now <= x[0] <= now + 1500])
    # the other one, as if nothing had happened
    every = [x for x in box.notices() if x[2] == 4]
    h.check("the others go on", every[1:] == schedule(0, int((now + 1500) // 60), 4, b"b"))
    if end != "ok":
        box.do(box.wake(3))
        n = len(box.times)
        h.loop.advance(1500)
        h.check("until it is delivered", not [x for x in box.notices(n) if x[2] == 3])


@harness(params=ENDS, fuzz=10, kind="bounded",
         note="some minutes")
def not_stored(h, end):
    """messages that were not stored are never announced"""
    box = Clock(h)
    f = h.loop.create_future()
    box.inner = lambda *a: f
    t = h.spawn(box.push(3, b"a"))
    h.loop.settle()
    h.loop.advance(h.choice("takes", [0, 1, 70]))
    if end == "cancel":
        t.cancel()
    else:
        f.set_result({"ok": True, "False": False, "raise": Boom()}[end])
    h.loop.settle()
    box.inner = True
    t0 = h.time()
    h.loop.advance(610)
    got = box.notices(1)
    h.check("announced exactly if stored", got == (schedule(t0, 10, 3, b"a") if end == "ok" else []))
    # once more: refused if stored
    n = len(box.times)
    box.do(box.push(3, b"a"))
    box.inner = True
    t1 = h.time()
    h.loop.advance(600 - (t1 - t0) % 60)
    got = box.notices(n)
    if end == "ok":
        h.check("an equal one is not announced by itself", len(got) == 9 or len(got) == 10)
        h.check("one a minute", h.all(*[b[0] - a[0] == 60 for a, b in zip(got, got[1:])]))
    else:
        h.check("now it is", got[0] == (t1, "WAITING", 3, b"a") and len(got) == 10)


@harness(params=["False", "raise", "slow"], fuzz=10, kind="bounded",
         note="up to 45 announcements")
def failing_announcements(h, how):
    """announcements that cannot be sent do not end them"""
    box = Clock(h)
    box.do(box.push(3, b"a"))
    bad = h.choice("bad", [1, 2, 10])
    count = [0]

    async def slow():
        import asyncio
        await asyncio.sleep(2)
        return False

    def inner(*a):
        count[0] += 1
        if count[0] != bad:
            return True
        return slow() if how == "slow" else {"False": False, "raise": Boom()}[how]
    box.inner = inner
    h.loop.advance(60 * 15 + 30)
    got = box.notices(1)
    h.check("all of them", len(got) == 15)
    h.check("of the message", h.all(*[g[2:] == (3, b"a") for g in got]))
    h.check("pings in place", [i + 1 for i, g in enumerate(got) if g[1] == "PING"] == [10])
    if how != "slow":
        h.check("on time", got == schedule(0, 15, 3, b"a"))


@harness(params=["pushed again", "delivered and pushed again"], fuzz=10, kind="bounded",
         note="one or two pushes")
def one_each(h, how):
    """a message is announced once a minute, also when it was pushed again during or after its delivery"""
    box = Clock(h)
    box.do(box.push(3, b"a"))
    h.loop.advance(h.choice("when", [10, 70]))
    ok = how.startswith("delivered")
    f = h.loop.create_future()
    box.inner = lambda n, cmd, kw: f if cmd.compose()[2] & 7 == 1 else True
    t = h.spawn(box.wake(3))
    h.loop.settle()
    h.loop.advance(5)
    t2 = h.spawn(box.push(3, b"a"))
    h.loop.settle()
    h.check("pushed", t2.done())
    h.loop.advance(5)
    f.set_result(ok)
    h.loop.settle()
    box.inner = True
    n = len(box.times)
    h.loop.advance(600)
    got = box.notices(n)
    # a message that is being delivered may be refused or stored
    h.check("once a minute", len(got) == 10 or ok and len(got) == 0, got)
    h.check("regularly", h.all(*[b[0] - a[0] == 60 for a, b in zip(got, got[1:])]))
    box.do(box.wake(3))
    n = len(box.times)
    h.loop.advance(600)
    h.check("and no more once delivered", len(box.times) == n)
