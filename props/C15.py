"""C15: node information is split into supported, secure and controlled classes."""
import itertools
import os

from hlib import prime, StubAdapter, Recorder
from pyvc.api import LoopContract, harness

FUNCTIONS = ["pyzwave.node:Node.__init__", "pyzwave.commandclass.CommandClass:CommandClass.load",
             "pyzwave.commandclass.CommandClass:CommandClass.id", "pyzwave.node:Node.supports"]
ASSUMPTIONS = ["the byte F1 followed by anything but 00 is left open: the lists have none (two byte command class numbers)"]

KNOWN = {0x86: "Version", 0x72: "ManufacturerSpecific", 0x31: "SensorMultilevel",
         0x85: "Association", 0x70: "Configuration", 0x5E: "ZwavePlusInfo",
         0x69: "Mailbox", 0x80: "Battery", 0x20: "Basic", 0x59: "AssociationGrpInfo",
         0x87: "Indicator", 0x32: "Meter"}
UNKNOWN = [0x25, 0x01, 0xEE, 0xF0, 0xF2, 0xFF]


def split(lst):
    """what the list means: {class: needs security} of the supported ones, and the controlled ones"""
    supported, controlled = {}, {}
    controls, secure = False, False
    i = 0
    while i < len(lst):
        if lst[i] == 0xF1 and i + 1 < len(lst) and lst[i + 1] == 0x00:
            secure, controls = True, False
            i += 2
            continue
        if lst[i] == 0xEF:
            controls = True
        elif lst[i] == 0xF1:
            pass  # the list ends in the middle of a mark
        elif controls:
            controlled[lst[i]] = secure
        else:
            supported[lst[i]] = secure
        i += 1
    return supported, controlled


def judge(h, lst, node, supported, controlled, every=True):
    have = dict(node.supported)
    if lst and lst[-1] == 0xF1:
        have.pop(0xF1, None)
    if every:
        h.check("the supported classes", h.all(len(have) == len(supported), *[k in have for k in supported]), (lst, sorted(have)))
    for k, secure in supported.items():
        h.check("supported", node.supports(k) is True)
        c = node.supported[k]
        h.check("with its number", c.id == k)
        h.check("needs security exactly after the mark", c.securityS0 is True if secure else c.securityS0 is False, (lst, k))
        h.check("belongs to the node", c.node is node)
    for k in controlled:
        if k not in supported:
            h.check("controlled only", node.supports(k) is False)
    h.check("the mark is no class", h.no(0xEF in node.supported))
    kept = getattr(node, "_controlled", None)
    if every and isinstance(kept, dict):
        have = dict(kept)
        if lst and lst[-1] == 0xF1:
            have.pop(0xF1, None)
        for k in controlled:
            if k not in supported:
                h.check("recorded as controlled", k in have, (lst, k))
        h.check("only those", h.all(*[k in controlled for k in have]), (lst, sorted(have)))


def make(h, lst):
    exc, node = h.catch(h.get("pyzwave.node:Node"), 5, StubAdapter(h), list(lst))
    h.check("every list is accepted", exc is None, exc)
    return node


def lists(n):
    alphabet = [0xF1, 0x00, 0xEF, 0x86, 0x25]
    for t in itertools.product(alphabet, repeat=n):
        if all(t[i] != 0xF1 or i + 1 == n or t[i + 1] == 0 for i in range(n)):
            yield list(t)


@harness(params=lambda: list(range(0, 7 if os.environ.get("VERIF_TIER") == "thorough" else 6)), fuzz=1, time=120, kind="bounded",
         note="lists of up to 5 (thorough: 6) marks, known and unknown classes")
def all_short(h, n):
    """every list of n of the marks, a known and an unknown class"""
    prime(h)
    for lst in lists(n):
        node = make(h, lst)
        judge(h, lst, node, *split(lst))


PRE = [[], [0x72], [0xEF], [0xF1, 0x00], [0xF1, 0x00, 0xEF], [0xEF, 0xF1, 0x00], [0x72, 0xEF, 0x31], [0x72, 0xF1, 0x00, 0x31]]
POST = [[], [0xF1], [0xEF, 0x01], [0xF1, 0x00, 0x01], [0x00], [0x72]]


@harness(params=list(range(len(PRE))), fuzz=40, time=90)
def every_class(h, i):
    """any class number at any place between the marks"""
    prime(h)
    b = h.int("b", 0, 255)
    h.assume(h.no(h.any(b == 0xF1, b == 0xEF)))
    pre, post = PRE[i], h.choice("post", POST)
    if post and post[0] == 0:
        h.assume(b != 0)
    node = make(h, pre + [b] + post)
    # everything but b
    rest, rest_c = split(pre + post)
    b_sup, b_con = split(pre + [0x101] + post)
    isin = 0x101 in b_sup
    h.check("supported or not", h.iff(node.supports(b), h.any(isin, *[b == k for k in rest])))
    if isin:
        c = node.supported[b]
        h.check("with its number", c.id == b)
        again = split(post)[0]
        # repeated later in the list, it is the later one that counts
        if h.no(h.any(*[b == k for k in rest])):
            h.check("needs security exactly after the mark", c.securityS0 is b_sup[0x101])
    for k in rest:
        h.check("the others are still there", node.supports(k) is True)


@harness(params=sorted(KNOWN) + UNKNOWN + [0], fuzz=1)
def implementation(h, k):
    """known classes get their implementation, unknown ones a generic one; updates reach the node"""
    prime(h)
    generic = h.get("pyzwave.commandclass.CommandClass:UnknownCommandClass")
    secure = h.flag("secure")
    node = make(h, ([0xF1, 0x00] if secure else []) + [k, 0xEF, 0x20 if k != 0x20 else 0x86])
    c = node.supported[k]
    if k in KNOWN:
        h.check("its implementation", type(c).__module__ == "pyzwave.commandclass." + KNOWN[k])
    else:
        h.check("the generic one", type(c) is generic)
    h.check("its number", c.id == k)
    h.check("its security", c.securityS0 is secure)
    rec = Recorder("nodeUpdated")
    node.addListener(rec)
    c.speak("commandClassUpdated")
    h.check("its updates reach the node once", len(rec.calls) == 1)


@harness(params=[40, 200], fuzz=10, kind="bounded",
         note="lists of 40 and 200 classes")
def long(h, n):
    """a long list, each class where it was put, in any section"""
    prime(h)
    place = h.choice("marks", [(n, n), (0, n), (3, 7), (n // 2, n // 2 + 1), (1, n - 1), (n - 1, n)])
    ids = [k for k in range(1, 0xEF)][:n]
    lst = ids[:place[0]] + [0xEF] + ids[place[0]:place[1]] + [0xF1, 0x00] + ids[place[1]:]
    node = make(h, lst)
    sup, con = split(lst)
    h.check("all of them", len(sup) + len(con) == len(ids))
    judge(h, lst, node, sup, con)


@harness(params=["supported", "controlled"], fuzz=20, kind="bounded",
         note="permutations and repetitions of fixed lists")
def order(h, where):
    """the order and repetition of the classes in a section do not matter"""
    prime(h)
    perm = h.choice("order", list(itertools.permutations([0x86, 0x72, 0x25])))
    rep = h.choice("again", [0x86, 0x72, 0x25, None])
    sec = list(perm) + ([rep] if rep else [])
    lst = sec + [0xEF, 0x20] if where == "supported" else [0x20, 0xEF] + sec
    node = make(h, lst)
    judge(h, lst, node, *split(lst))


# ---------------------------------------------------------------- any number of classes: loop contract
class Section(LoopContract):
    """The loop over the list.  From any position, in any section and with any classes found so far, one
    iteration passes a mark, which changes the section only, or records the class there in the map of the
    section; nothing else changes.  Hence the maps are those of the whole list."""

    name = "command classes of a node"

    def __init__(self, data):
        self.data = data
        self.i = None

    def attach(self, v, where, it):
        if self.i is not None or it is not None:
            return False
        names = [k for k, x in v.items() if k != "self"]
        self.at = [k for k in names if self.h.literal(v[k]) == 0]
        self.on = [k for k in names if v[k] is True]
        self.off = [k for k in names if v[k] is False]
        nodes = [x for x in v.values() if type(x) is self.h.get("pyzwave.node:Node")]
        return len(self.at) == 1 and len(self.on) == 1 and len(self.off) == 1 and len(nodes) == 1

    def entry(self, v, it):
        (self.at,), (self.on,), (self.off,) = self.at, self.on, self.off
        (self.node,) = [x for x in v.values() if type(x) is self.h.get("pyzwave.node:Node")]
        h = self.h
        h.check("starts with no class", h.all(len(self.node._supported) == 0, len(self.node._controlled) == 0))
        h.check("starts with the supported classes", h.all(v[self.at] == 0, v[self.on] is True, v[self.off] is False))

    def havoc(self, v, it):
        h = self.h
        self.i = h.int("i", 0)
        h.assume(self.i <= len(self.data))
        h.prefer(self.i == 0)
        self.listed, self.secure = h.flag("supported"), h.flag("secure")
        h.forget(self.node._supported)
        h.forget(self.node._controlled)
        self.modifies = [self.node._supported, self.node._controlled]
        return {self.at: self.i, self.on: self.listed, self.off: self.secure}

    def step(self, v):
        h = self.h
        i, n = self.i, len(self.data)
        h.check("only while there are classes", i < n)
        b = self.data[i]
        sup, con = h.written(self.node._supported), h.written(self.node._controlled)
        if b == 0xF1 and i + 1 < n:
            h.assume(self.data[i + 1] == 0)
            h.check("the security mark", h.all(v[self.at] == i + 2, v[self.on] is True, v[self.off] is True))
            h.check("is no class", len(sup) + len(con) == 0)
            return
        h.check("one byte further", v[self.at] == i + 1)
        h.check("security as before", v[self.off] is self.secure)
        if b == 0xEF:
            h.check("the control mark", v[self.on] is False)
            h.check("is no class", len(sup) + len(con) == 0)
            return
        h.check("the section as before", v[self.on] is self.listed)
        if b == 0xF1:
            return  # the list ends in the middle of a mark
        mine, other = (sup, con) if self.listed else (con, sup)
        h.check("nothing in the other section", len(other) == 0)
        h.check("the class is recorded", len(mine) == 1 and mine[0][0] == b)
        c = mine[0][1]
        h.check("with its number", c.id == b)
        h.check("needs security exactly after the mark", c.securityS0 is self.secure)
        h.check("belongs to the node", c.node is self.node)
        if self.listed:
            h.check("its updates reach the node once", h.all(len(c._listeners) == 1, c._listeners[0] is self.node))


@harness(fuzz=300, time=120)
def any_list(h):
    """a list of any bytes"""
    prime(h)
    data = h.anybytes("list")
    c = Section(data)
    h.cut(c)
    exc, node = h.catch(h.get("pyzwave.node:Node"), 5, StubAdapter(h), data)
    h.check("every list is accepted", exc is None, exc)
    if c.i is not None:
        h.check("the whole list", c.i >= len(data))
        h.check("nothing behind it", h.all(len(h.written(node.supported)) == 0, len(h.written(node._controlled)) == 0))
        return
    lst = list(data)
    for i in range(len(lst) - 1):
        h.assume(h.no(h.all(lst[i] == 0xF1, lst[i + 1] != 0)))
    judge(h, lst, node, *split(lst))
