"""C11: every listener gets every notification, whatever the others do."""
import itertools
import os
from asyncio import CancelledError

from hlib import (connection, zip_packet, StubAdapter, prime, task_errors)
from pyvc.api import LoopContract, harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.util:Listenable.speak", "pyzwave.util:Listenable.ask", "pyzwave.util:Listenable.addListener"]
ASSUMPTIONS = ["asyncio's Task and gather behave as documented (the installed asyncio runs on a virtual clock)",
               "the mixes of listeners are enumerated: every mix of up to 3 (quick) or 4 (thorough) listeners of 6 sorts"]

SORTS = ["plain", "coroutine", "slow", "raising", "raising coroutine", "absent"]


def mixes(n=None):
    n = n or (4 if os.environ.get("VERIF_TIER") == "thorough" else 3)
    out = []
    for k in range(0, n + 1):
        for m in itertools.product(SORTS, repeat=k):
            out.append(m)
    return out


class Plain:
    def __init__(self, i, log, answer):
        self.i, self.log, self.answer = i, log, answer

    def something(self, sender, *args):
        self.log.append((self.i, sender, args))
        return self.answer


class Coro(Plain):
    async def something(self, sender, *args):
        self.log.append((self.i, sender, args))
        return self.answer


class Slow(Plain):
    async def something(self, sender, *args):
        self.log.append((self.i, sender, args))
        await self.gate
        return self.answer


class Raising(Plain):
    def something(self, sender, *args):
        self.log.append((self.i, sender, args))
        raise ValueError("x")


class RaisingCoro(Plain):
    async def something(self, sender, *args):
        self.log.append((self.i, sender, args))
        raise ValueError("x")


class Absent(Plain):
    something = None

    def somethingElse(self, *args):
        self.log.append((self.i, "wrong", args))


MAKE = {"plain": Plain, "coroutine": Coro, "slow": Slow, "raising": Raising, "raising coroutine": RaisingCoro,
        "absent": Absent}


def build(h, mix, log):
    ls = []
    for i, s in enumerate(mix):
        o = MAKE[s](i, log, h.int("answer%d" % i, 0, 1000))
        if s == "slow":
            o.gate = h.loop.create_future()
        ls.append(o)
    return ls


def called(h, mix, log, sender, args):
    """each listener implementing it was called once, in its own way, with the sender and arguments"""
    want = [i for i, s in enumerate(mix) if s != "absent"]
    now = [i for i, s in enumerate(mix) if s in ("plain", "raising")]
    got = [e[0] for e in log]
    h.check("every listener exactly once", sorted(got) == want)
    h.check("the plain ones in order", [i for i in got if i in now] == now)
    h.check("the coroutines in order", [i for i in got if i not in now] == [i for i in want if i not in now])
    h.check("with the sender", all(e[1] is sender for e in log))
    h.check("with the arguments", all(len(e[2]) == len(args) and all(x is y for x, y in zip(e[2], args)) for e in log))


@harness(params=list(range(0, 259, 20)), kind="bounded", fuzz=2, note="all mixes of up to 3 listeners of 6 sorts")
def speak(h, start):
    """a notification"""
    prime(h)
    for mix in mixes()[start:start + 20]:
        sender = h.get("pyzwave.util:Listenable")()
        log = []
        ls = build(h, mix, log)
        for l in ls:
            sender.addListener(l)
        a, b = object(), object()
        e, futures = h.catch(sender.speak, "something", a, b)
        h.check("the sender is not broken", e is None)
        h.loop.settle()
        called(h, mix, log, sender, (a, b))
        for l in ls:
            if hasattr(l, "gate"):
                l.gate.set_result(None)
        h.loop.settle()
        h.check("nothing in the event loop", len(h.loop.errors) == 0)
        # a second one
        log.clear()
        for l in ls:
            if hasattr(l, "gate"):
                l.gate = h.loop.create_future()
        e, futures = h.catch(sender.speak, "something")
        h.loop.settle()
        called(h, mix, log, sender, ())


@harness(params=lambda: list(range(0, len(mixes()), 20)), kind="bounded", fuzz=2, note="all mixes of up to 3 (thorough: 4) listeners of 6 sorts")
def ask(h, start):
    """a question: the answers of those that answered, in order"""
    prime(h)
    for mix in mixes()[start:start + 20]:
        sender = h.get("pyzwave.util:Listenable")()
        log = []
        ls = build(h, mix, log)
        for l in ls:
            sender.addListener(l)
        a, b = object(), object()
        t = h.spawn(sender.ask("something", a, b))
        called(h, mix, log, sender, (a, b))
        slow = [l for l in ls if hasattr(l, "gate")]
        h.check("waits for the slow ones", (h.outcome(t)[0] == "pending") == (len(slow) > 0))
        for l in reversed(slow):
            l.gate.set_result(None)
        h.loop.settle()
        st, got = h.outcome(t)
        h.check("the asker is not broken", st == "ok")
        want = [l.answer for l, s in zip(ls, mix) if s in ("plain", "coroutine", "slow")]
        h.check("the number of answers", len(got) == len(want))
        h.check("the answers", h.all(*[x == y for x, y in zip(got, want)]))


class Alike(Plain):
    """equal to every other one, and without a hash"""

    def __eq__(self, other):
        return True

    __hash__ = None


@harness(params=["speak", "ask"])
def equal_listeners(h, how):
    """listeners are told apart by what they are, not by what they are equal to"""
    prime(h)
    log = []
    sender = h.get("pyzwave.util:Listenable")()
    for i in range(3):
        sender.addListener(Alike(i, log, i))
    if how == "speak":
        sender.speak("something", 5)
    else:
        h.check("every answer", h.run(sender.ask("something", 5)) == [0, 1, 2])
    h.check("each once, in order", [e[0] for e in log] == [0, 1, 2])


class GivingUp(Plain):
    async def something(self, sender, *args):
        self.log.append((self.i, sender, args))
        raise CancelledError()


@harness(params=[0, 1, 2, 3], kind="bounded", note="up to four listeners")
def giving_up(h, at):
    """a listener whose coroutine is cancelled has not answered; the others have"""
    prime(h)
    log = []
    sender = h.get("pyzwave.util:Listenable")()
    ls = [Plain(0, log, 7), Coro(1, log, None), Slow(2, log, 9), Coro(3, log, TimeoutError)]
    ls[2].gate = h.loop.create_future()
    how = h.choice("how", ["raises it", "waits for something cancelled"])
    if how == "raises it":
        ls.insert(at, GivingUp(4, log, 1))
    else:
        gone = Slow(4, log, 1)
        gone.gate = h.loop.create_future()
        ls.insert(at, gone)
    for l in ls:
        sender.addListener(l)
    t = h.spawn(sender.ask("something", 1))
    if how != "raises it":
        gone.gate.cancel()
    h.loop.settle()
    h.check("waits for the others", h.outcome(t)[0] == "pending")
    ls[[l.i for l in ls].index(2)].gate.set_result(None)
    h.loop.settle()
    h.check("the asker is not broken", h.outcome(t) == ("ok", [7, None, 9, TimeoutError]))
    h.check("everyone was asked", sorted(e[0] for e in log) == [0, 1, 2, 3, 4])


@harness
def listener_added_later(h):
    """a listener gets what is said after it was added"""
    prime(h)
    sender = h.get("pyzwave.util:Listenable")()
    log = []
    first, second = Plain(0, log, 1), Plain(1, log, 2)
    sender.addListener(first)
    sender.speak("something", 1)
    sender.addListener(second)
    sender.speak("something", 2)
    h.check("the first gets both, the second one", [(e[0], e[2][0]) for e in log] == [(0, 1), (0, 2), (1, 2)])


@harness
def listeners_are_not_shared(h):
    """the listeners of one object are not those of another"""
    prime(h)
    log = []
    one, two = h.get("pyzwave.util:Listenable")(), h.get("pyzwave.util:Listenable")()
    one.addListener(Plain(0, log, 1))
    two.addListener(Plain(1, log, 1))
    one.speak("something")
    h.check("only its own", [e[0] for e in log] == [0])
    h.check("its sender", log[0][1] is one)


@harness
def asking_from_a_listener(h):
    """a listener that itself notifies others"""
    prime(h)
    log = []
    inner = h.get("pyzwave.util:Listenable")()
    inner.addListener(Plain(1, log, 7))

    class Relay:
        async def something(self, sender, *args):
            return sum(await inner.ask("something", *args))

        def relay(self, sender):
            inner.speak("something")
    outer = h.get("pyzwave.util:Listenable")()
    outer.addListener(Relay())
    outer.addListener(Plain(2, log, 3))
    t = h.spawn(outer.ask("something", 1))
    h.check("both answer", h.outcome(t) == ("ok", [7, 3]))
    outer.speak("relay")
    h.check("all were called", sorted(e[0] for e in log) == [1, 1, 2])


@harness
def asker_cancelled(h):
    """a cancelled question ends cancelled, and later ones work"""
    prime(h)
    log = []
    sender = h.get("pyzwave.util:Listenable")()
    s = Slow(0, log, 1)
    s.gate = h.loop.create_future()
    sender.addListener(s)
    sender.addListener(Plain(1, log, 2))
    t = h.spawn(sender.ask("something"))
    t.cancel()
    h.loop.settle()
    h.check("cancelled", h.outcome(t)[0] == "cancelled")
    s.gate = h.loop.create_future()
    s.gate.set_result(None)
    t = h.spawn(sender.ask("something"))
    h.loop.settle()
    h.check("a later one works", h.outcome(t) == ("ok", [1, 2]))


@harness(kind="bounded", note="fifty listeners")
def many(h):
    """fifty listeners, every third one raising"""
    prime(h)
    log = []
    mix = [("plain", "raising", "coroutine", "absent", "raising coroutine")[i % 5] for i in range(50)]
    sender = h.get("pyzwave.util:Listenable")()
    ls = build(h, mix, log)
    for l in ls:
        sender.addListener(l)
    a = object()
    t = h.spawn(sender.ask("something", a))
    called(h, mix, log, sender, (a,))
    h.check("the answers", len(h.outcome(t)[1]) == 20)


@harness(fuzz=5)
def real_senders(h):
    """an adapter, a node and a command class as senders"""
    prime(h)
    log = []
    name = h.choice("who", ["connection", "node", "class"])
    a, b, c = Raising(0, log, 1), Plain(1, log, True), Coro(2, log, True)
    if name == "connection":
        sender, tr = connection(h)
        what = "onMessageReceived"
    elif name == "node":
        sender = h.get("pyzwave.node:Node")(5, StubAdapter(h), [])
        what = "onMessage"
    else:
        node = h.get("pyzwave.node:Node")(5, StubAdapter(h), [0x20])
        sender = node.supported[0x20]
        what = "onReport"
    for x in (a, b, c):
        setattr(x, what, x.something)
        sender.addListener(x)
    m = h.get(CC + "Basic:Report")(value=1)
    if name == "connection":
        tr.deliver(zip_packet(1, bytes([0x20, 0x03, 1])))
        h.loop.settle()
    elif name == "node":
        r = h.run(sender.handleMessage(m, 0))
        h.check("handled", r is True)
    else:
        r = h.run(node.handleMessage(m, 0))
        h.check("handled", r is True)
    h.check("everyone is told once", sorted(e[0] for e in log) == [0, 1, 2])
    h.check("by the sender", all(e[1] is sender for e in log))
    h.check("nothing in the event loop", len(h.loop.errors) + len(task_errors(h)) == 0)


# ---------------------------------------------------------------- any number of listeners: loop contracts
class EachListener(LoopContract):
    """The loop over the listeners.  Whatever was said to the ones before, one iteration calls the listener
    at hand exactly once, in its own way, with the sender and the arguments, adds the future of its answer
    and nothing for a listener that raised or does not implement the notification, and changes nothing else."""

    name = "listeners of a notification"

    def __init__(self, marker, sender, args):
        self.marker, self.sender, self.args = marker, sender, args
        self.sort = None
        self.active = False

    def attach(self, v, where, it):
        if self.active or it is None or not isinstance(it, (list, tuple)):
            return False
        self.lists = [k for k, x in v.items() if isinstance(x, list) and x is not it and len(x) == 0]
        return len(it) == 1 and it[0] is self.marker and len(self.lists) == 1

    def entry(self, v, it):
        (self.out,) = self.lists
        self.h.check("starts with no answer", len(v[self.out]) == 0)

    def havoc(self, v, it):
        self.active = True
        self.got = self.h.unknown_list()
        # tasks may be waiting to run
        self.modifies = [self.got, self.h.loop, self.h.loop._ready, self.h.loop.all_tasks]
        return {self.out: self.got}

    def element(self, v, it):
        h = self.h
        self.sort = h.choice("sort", SORTS)
        self.log = []
        self.listener = MAKE[self.sort](0, self.log, h.int("answer", 0, 1000))
        if self.sort == "slow":
            self.listener.gate = h.loop.create_future()
        self.modifies.append(self.log)
        return self.listener

    def step(self, v):
        h = self.h
        got = h.appended(self.got)
        now = self.sort in ("plain", "raising")
        h.check("coroutines are not run on the spot", len(self.log) == (1 if now else 0))
        h.loop.settle()
        h.check("called exactly once", len(self.log) == (0 if self.sort == "absent" else 1))
        if self.sort != "absent":
            i, sender, args = self.log[0]
            h.check("with the sender", sender is self.sender)
            h.check("with the arguments", len(args) == len(self.args) and all([x is y for x, y in zip(args, self.args)]))
        h.check("one future for each answer", len(got) == (0 if self.sort in ("absent", "raising") else 1))
        if self.sort == "slow":
            h.check("waits for it", got[0].done() is False)
            self.listener.gate.set_result(None)
            h.loop.settle()
        if self.sort in ("plain", "coroutine", "slow"):
            h.check("its answer", got[0].done() and got[0].result() == self.listener.answer)
        if self.sort == "raising coroutine":
            h.check("its failure", got[0].done() and type(got[0].exception()) is ValueError)
        h.check("nothing in the event loop", len(h.loop.errors) == 0)


@harness(params=[0, 1, 3], fuzz=30)
def speak_to_any_number(h, n):
    """any number of listeners, of any sort, in any order"""
    prime(h)
    args = tuple([object() for i in range(n)])
    sender = h.get("pyzwave.util:Listenable")()
    log = []
    marker = Plain(0, log, 7)
    sender.addListener(marker)
    c = EachListener(marker, sender, args)
    h.cut(c)
    exc, got = h.catch(sender.speak, "something", *args)
    h.check("the sender is not broken", exc is None, exc)
    if c.active:
        h.check("every listener is asked", c.sort is None)
        h.check("the answers, in order", got is c.got)
        h.check("nothing else", len(h.appended(c.got)) == 0)


class EachAnswer(LoopContract):
    """The loop over the answers: one that is no exception is added, in order"""

    name = "answers to a question"

    def __init__(self, marker):
        self.marker = marker
        self.active = self.inside = False

    def attach(self, v, where, it):
        if self.active or it is None or not isinstance(it, (list, tuple)):
            return False
        self.lists = [k for k, x in v.items() if isinstance(x, list) and x is not it and len(x) == 0]
        return len(it) == 1 and it[0] is self.marker and len(self.lists) == 1

    def entry(self, v, it):
        (self.out,) = self.lists

    def havoc(self, v, it):
        self.active = True
        self.got = self.h.unknown_list()
        self.modifies = [self.got]
        return {self.out: self.got}

    def element(self, v, it):
        self.inside = True
        self.answer = self.h.choice("answer", [None, True, False, 0, ValueError("x"), TimeoutError(), CancelledError(), "text"])
        return self.answer

    def step(self, v):
        h = self.h
        got = h.appended(self.got)
        if isinstance(self.answer, BaseException):
            h.check("a failure is no answer", len(got) == 0)
        else:
            h.check("the answer is kept", len(got) == 1 and got[0] is self.answer)


@harness(fuzz=20)
def ask_any_number(h):
    """the answers of any number of listeners: asyncio.gather gives one for each future, in order"""
    prime(h)
    sender = h.get("pyzwave.util:Listenable")()
    marker, a, b = object(), object(), object()
    said = []

    def speak(*args):
        said.append(args)
        f = h.loop.create_future()
        f.set_result(marker)
        return [f]
    sender.speak = speak
    c = EachAnswer(marker)
    h.cut(c)
    t = h.spawn(sender.ask("something", a, b))
    h.check("asked once", len(said) == 1 and said[0] == ("something", a, b))
    st, got = h.outcome(t)
    h.check("the asker is not broken", st == "ok", got)
    if c.active:
        h.check("every answer is looked at", c.inside is False)
        h.check("the answers, in order", got is c.got)
    else:
        h.check("the answer", len(got) == 1 and got[0] is marker)
