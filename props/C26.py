"""C26: association lists are exact on the wire, in storage and at lifeline setup."""
import itertools
import os

from hlib import prime, StubAdapter, plain_adapter, Recorder
from pyvc.api import LoopContract, harness

A = "pyzwave.commandclass.Association:"
M = "pyzwave.commandclass.MultiChannelAssociation:"
C = A + "Association."
FUNCTIONS = [A + "Nodes", C + "interviewGrouping", C + "setupLifeLine", C + "interview", A + "Groupings.setNumGroups",
             A + "Groupings.__setstate__", A + "Groupings.__getstate__"]
ASSUMPTIONS = ["node ids are 1 to 255 (0 is the marker) and endpoints 0 to 255: no other has an encoding",
               "a group is reported by one report (reportsToFollow 0)"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
KINDS = {"Set": (A + "Set", b"\x85\x01", 1), "Report": (A + "Report", b"\x85\x03", 3),
         "MultiChannelSet": (M + "MultiChannelSet", b"\x8e\x01", 1), "MultiChannelReport": (M + "MultiChannelReport", b"\x8e\x03", 3)}
HEAD = ["groupingIdentifier", "maxNodesSupported", "reportsToFollow"]
MOST = 46  # what fits a frame


def encoded(nodes):
    """the bytes of a list, by the specification"""
    out = [n for n, e in nodes if e is None]
    pairs = [x for n, e in nodes if e is not None for x in (n, e)]
    return bytes(out + ([0] + pairs if pairs else []))


def drawn(h, pattern, tag=""):
    """a list of any nodes; with an endpoint where the pattern has a 1"""
    return [(h.int("%sn%d" % (tag, i), 1, 255), h.int("%se%d" % (tag, i), 0, 255) if p else None) for i, p in enumerate(pattern)]


def plain_pairs(h, nodes):
    return [n for n in nodes if n[1] is None] + [n for n in nodes if n[1] is not None]


def same(h, got, want):
    """the same nodes in the same order"""
    got = [tuple(x) for x in got]
    h.check("as many nodes", len(got) == len(want), (len(got), len(want)))
    for (gn, ge), (n, e) in zip(got, want):
        h.check("the node", gn == n)
        if e is None:
            h.check("the root of it", ge is None)
        else:
            h.check("its endpoint", h.all(ge is not None, ge == e))


def make(h, kind, nodes):
    path, head, n = KINDS[kind]
    prime(h)
    vals = [h.int(x, 0, 255) for x in HEAD[:n]]
    m = h.get(path)(nodes=nodes, **dict(zip(HEAD, vals)))
    return m, head + bytes(vals), dict(zip(HEAD, vals))


def patterns():
    n = 6 if THOROUGH else 5
    return ["".join(p) for k in range(n + 1) for p in itertools.product("01", repeat=k)]


def there_and_back(h, kind, nodes):
    m, head, vals = make(h, kind, list(nodes))
    data = m.compose()
    h.check("encoded exactly", data == head + encoded(nodes))
    r = h.get("pyzwave.message:Message").decode(data)
    h.check("the same message", type(r) is type(m))
    for k, v in vals.items():
        h.check(k, getattr(r, k) == v)
    same(h, r.nodes, plain_pairs(h, nodes))


@harness(params=[(k, p) for k in KINDS for p in (patterns() if k == "MultiChannelReport" else ["", "0", "1", "01", "10", "110", "001"])],
         fuzz=4, kind="bounded", note="lists of up to 5 (thorough: 6) elements in every mix of plain and endpoint ones, any numbers")
def mixed_lists(h, kp):
    kind, p = kp
    there_and_back(h, kind, drawn(h, [c == "1" for c in p]))


def lengths():
    """(plain, with endpoint): every one that fits a frame, in chunks"""
    every = [(p, q) for p in range(MOST + 1) for q in range(MOST // 2 + 1) if p + 2 * q + (q > 0) <= MOST]
    if not THOROUGH:
        every = [(p, q) for p, q in every if p <= 3 or q <= 2 or p + 2 * q + 1 >= MOST - 1]
    return every


@harness(params=list(range(8)), fuzz=1, time=300, kind="bounded",
         note="the plain ones first, then the ones with endpoint, as many of each as fit a frame (46 bytes), any numbers")
def long_lists(h, part):
    for p, q in lengths()[part::8]:
        nodes = [(h.int("n%d.%d.%d" % (p, q, i), 1, 255), None) for i in range(p)]
        nodes += [(h.int("m%d.%d.%d" % (p, q, i), 1, 255), h.int("e%d.%d.%d" % (p, q, i), 0, 255)) for i in range(q)]
        N = h.get(A + "Nodes")
        prime(h)
        lst = N(nodes)
        w = h.get("pyzwave.types:BitStreamWriter")()
        lst.serialize(w)
        data = bytes(w) if not h.symbolic else w
        want = encoded(nodes)
        h.check("encoded exactly", h.all(len(data) == len(want), *[a == b for a, b in zip(data, want)]), (p, q))
        r = N.deserialize(h.get("pyzwave.types:BitStreamReader")(want))
        same(h, r, nodes)


@harness(params=list(range(0, 13)), fuzz=20, kind="bounded", note="any content of up to 12 bytes", time=90)
def any_bytes(h, n):
    """whatever the bytes: plain nodes up to the marker, then pairs"""
    prime(h)
    data = h.bytes("data", n)
    want, i = [], 0
    while i < n and data[i] != 0:
        want.append((data[i], None))
        i += 1
    i += 1
    while i + 1 < n:
        want.append((data[i], data[i + 1]))
        i += 2
    half = i < n
    exc, r = h.catch(h.get("pyzwave.message:Message").decode, b"\x8e\x03\x01\x05\x00" + data)
    if half:
        h.check("half a pair is no list", exc is not None)
        return
    h.check("decodes", exc is None, exc)
    same(h, r.nodes, want)


class PlainOnes(LoopContract):
    """The loop over the plain nodes.  With any number of them read, one iteration records the next byte as a
    node without endpoint and goes on behind it, or, at the marker, leaves the loop."""

    name = "plain nodes of a list"
    list = None

    def __init__(self, data):
        self.data = data

    def find(self, v):
        h = self.h
        rest = [k for k, x in v.items() if h.is_bytes(x) and h.identical(x, self.data)]
        lists = [k for k, x in v.items() if type(x) is list and len(x) == 0]
        return (rest[0], lists[0]) if len(rest) == 1 and len(lists) == 1 else None

    def attach(self, v, where, it):
        return self.list is None and it is None and self.find(v) is not None

    def entry(self, v, it):
        self.rest, self.out = self.find(v)

    def havoc(self, v, it):
        h = self.h
        self.k = h.int("plain ones", 0, 1000)
        h.assume(self.k <= len(self.data))
        h.prefer(self.k == 0)
        self.list = h.unknown_list()
        self.modifies = [self.list]
        return {self.rest: self.data[self.k:], self.out: self.list}

    def step(self, v):
        h, k = self.h, self.k
        new = h.appended(self.list)
        h.check("goes on while there is data", k < len(self.data))
        h.check("a plain node", h.all(len(new) == 1, *[h.all(n == self.data[k], n != 0, e is None) for n, e in new]))
        h.check("continues behind it", v[self.rest] == self.data[k + 1:])
        h.check("the same list", v[self.out] is self.list)


class Pairs(LoopContract):
    """The loop over the pairs.  From any place behind the marker one iteration records the next two bytes as
    node and endpoint and goes on behind them."""

    name = "pairs of a list"
    list = None

    def __init__(self, data, plain):
        self.data, self.plain = data, plain

    def find(self, v):
        h = self.h
        rest = [k for k, x in v.items() if h.is_bytes(x)]
        lists = [k for k, x in v.items() if x is self.plain.list]
        return (rest[0], lists[0]) if len(rest) == 1 and len(lists) == 1 else None

    def attach(self, v, where, it):
        return self.plain.list is not None and self.list is None and it is None and self.find(v) is not None

    def entry(self, v, it):
        h, k, n = self.h, self.plain.k, len(self.data)
        self.rest, self.out = self.find(v)
        h.check("the marker is no node", len(h.appended(v[self.out])) == 0)
        if k == n:
            self.first = n
            h.check("nothing behind the plain ones", len(v[self.rest]) == 0)
        else:
            self.first = k + 1
            h.check("the marker ends the plain ones", self.data[k] == 0)
            h.check("the pairs begin behind the marker", v[self.rest] == self.data[k + 1:])

    def havoc(self, v, it):
        h = self.h
        j = h.int("pairs", 0, 1000)
        self.p = self.first + 2 * j
        h.assume(self.p <= len(self.data))
        h.prefer(j == 0)
        self.list = h.unknown_list()
        self.modifies = [self.list]
        return {self.rest: self.data[self.p:], self.out: self.list}

    def step(self, v):
        h, p = self.h, self.p
        new = h.appended(self.list)
        h.check("goes on while there is a pair", p + 2 <= len(self.data))
        h.check("node and endpoint", h.all(len(new) == 1, *[h.all(n == self.data[p], e is not None, e == self.data[p + 1]) for n, e in new]))
        h.check("continues behind them", v[self.rest] == self.data[p + 2:])
        h.check("the same list", v[self.out] is self.list)


@harness(fuzz=60)
def any_bytes_of_any_number(h):
    """the bytes of a list, however many"""
    prime(h)
    data = h.anybytes("data", 0, 1000)
    first = PlainOnes(data)
    then = Pairs(data, first)
    h.cut(first)
    h.cut(then)
    exc, r = h.catch(h.get(A + "Nodes").deserialize, h.get("pyzwave.types:BitStreamReader")(data))
    if not h.symbolic:
        want, i, n = [], 0, len(data)
        while i < n and data[i] != 0:
            want.append((data[i], None))
            i += 1
        i += 1
        while i + 1 < n:
            want.append((data[i], data[i + 1]))
            i += 2
        h.check("half a pair is no list", (exc is not None) == (i < n), (data, exc, r))
        h.check("the list", exc is not None or [tuple(x) for x in r] == want, (data, r))
        return
    if first.list is None and len(data) == 0:
        h.check("no list", h.all(exc is None, len(r) == 0))
        return
    if then.list is None:
        if first.list is not None and exc is not None:
            h.fail("plain nodes are no error", exc)
        h.unsupported("loop contract not attached")
    if exc is not None:
        h.check("only half a pair is an error", len(data) == then.p + 1, exc)
        return
    h.check("all data is taken", then.p == len(data))
    h.check("that list", h.all(r is then.list, len(h.appended(then.list)) == 0))


class Each(LoopContract):
    """A loop over the elements of a list of any length: any element, then (or now) the code behind the loop."""

    element_ = None
    on = True
    left = False

    def __init__(self, over, draw):
        self.over, self.draw = over, draw

    def attach(self, v, where, it):
        return self.on and it is self.over

    def element(self, v, it):
        self.element_ = self.draw()
        return self.element_

    def leave(self, v, it):
        self.on = False
        self.left = True


def any_element(h):
    n = h.int("n", 1, 255)
    e = h.int("e", 0, 255) if h.flag("endpoint") else None
    return n, e


class Writes(Each):
    """A loop writing elements: one iteration appends the bytes of the element at hand, or none if it is not
    for this pass, to whatever was written so far; nothing else changes."""

    name = "elements of a list are written"

    def __init__(self, over, draw, w, log):
        Each.__init__(self, over, draw)
        self.w, self.log = w, log
        self.second = len(log) > 0

    def attach(self, v, where, it):
        return self.on and it is self.over and (not self.second or self.log[0].left)

    def entry(self, v, it):
        h = self.h
        flags = [k for k, x in v.items() if h.is_bool(x)]
        self.flag = flags[0] if len(flags) == 1 else None
        if self.second:
            h.check("only if there are pairs", self.log[0].seen)
            h.check("after the marker", bytes(self.w) == self.log[0].written + bytes([0]))
        elif self.flag is not None:
            h.check("no endpoint so far", v[self.flag] is False)
            h.check("nothing so far", len(self.w) == 0)

    def havoc(self, v, it):
        h = self.h
        if self.flag is None:
            h.unsupported("loop contract not attached")
        self.written = h.anybytes("written twice" if self.second else "written", 0, 1000)
        h.prefer(len(self.written) == 0)
        h.become(self.w, self.written)
        self.modifies = [self.w]
        self.seen = h.flag("endpoint seen") if not self.second else None
        return {} if self.second else {self.flag: self.seen}

    def step(self, v):
        h = self.h
        n, e = self.element_
        if not self.second:
            h.check("endpoints are seen", h.iff(v[self.flag], h.any(self.seen, e is not None)))
            new = [n] if e is None else []
        else:
            new = [n, e] if e is not None else []
        h.check("written", bytes(self.w) == self.written + bytes(new), new)


@harness(fuzz=60)
def encoding_of_any_number(h):
    """the encoding of a list of any number of elements"""
    prime(h)
    N = h.get(A + "Nodes")
    w = h.get("pyzwave.types:BitStreamWriter")()
    if not h.symbolic:
        k = h.choice("len", list(range(0, 12)) + [60])
        nodes = [any_element(h) for _ in range(k)]
        N(nodes).serialize(w)
        h.check("encoded exactly", bytes(w) == encoded(nodes), nodes)
        return
    lst = h.unknown_list(N)
    log = []
    first = Writes(lst, lambda: any_element(h), w, log)
    log.append(first)
    then = Writes(lst, lambda: any_element(h), w, log)
    h.cut(first)
    h.cut(then)
    N.serialize(lst, w)
    if not first.left:
        h.unsupported("loop contract not attached")
    if then.left:
        h.check("nothing behind the pairs", bytes(w) == then.written)
        return
    h.check("only without pairs", h.no(first.seen))
    h.check("nothing else", bytes(w) == first.written)


class Looks(Each):
    name = "membership of a list"

    def step(self, v):
        h = self.h
        n, e = self.element_
        h.check("not found so far", h.no(h.all(n == self.node, (0 if e is None else e) == self.endpoint)))


@harness(fuzz=60)
def membership_of_any_number(h):
    prime(h)
    N = h.get(A + "Nodes")
    n, e = h.int("node", 1, 255), h.int("endpoint", 0, 255)
    if not h.symbolic:
        nodes = [any_element(h) for _ in range(h.choice("len", list(range(0, 12)) + [60]))]
        if nodes and h.flag("member"):
            n, e = h.choice("which", nodes)
            e = 0 if e is None else e
        h.check("member", N(nodes).contains(n, e) is any(x == n and (y or 0) == e for x, y in nodes))
        return
    lst = h.unknown_list(N)
    c = Looks(lst, lambda: any_element(h))
    c.node, c.endpoint = n, e
    h.cut(c)
    got = N.contains(lst, n, e)
    if not c.left and c.element_ is None:
        h.unsupported("loop contract not attached")
    if c.left:
        h.check("no element is it", got is False)
    else:
        x, y = c.element_
        h.check("this element is it", h.all(got is True, x == n, (0 if y is None else y) == e))


class Copies(Each):
    """A loop making a list of another one: exactly one element for the one at hand."""

    name = "elements of a list are stored and restored"
    made = None

    def __init__(self, over, draw, out, expect):
        Each.__init__(self, over, draw)
        self.out, self.expect = out, expect

    def havoc(self, v, it):
        h = self.h
        if self.out is not None:
            self.modifies = [self.out]
            self.made = self.out
            return {}
        self.made = h.unknown_list()
        self.modifies = [self.made]
        return {self.local(v, lambda x: type(x) is list and len(x) == 0, "list"): self.made}

    def step(self, v):
        new = self.h.appended(self.made)
        self.h.check("one element", len(new) == 1)
        self.expect(self.element_, new[0])


@harness(params=["stored", "pairs", "numbers", "stored nodes", "stored pairs"], fuzz=40)
def storage_of_any_number(h, how):
    """storing and restoring goes element by element"""
    prime(h)
    N = h.get(A + "Nodes")
    n, e = h.int("n", 1, 255), h.int("e", 0, 255)
    if not h.symbolic:
        nodes = [any_element(h) for _ in range(h.choice("len", list(range(0, 12)) + [60]))]
        b = N()
        b.__setstate__(N(nodes).__getstate__() if how.startswith("stored") else nodes if how == "pairs" else [n for n, e in nodes])
        h.check("the same list", [tuple(x) for x in b] == (nodes if how != "numbers" else [(n, None) for n, e in nodes]))
        return
    text = str(n) if how == "stored nodes" else str(n) + ":" + str(e)
    want = (n, None) if how in ("stored nodes", "numbers") else (n, e)
    if how == "pairs" and h.flag("root"):
        want = (n, None)

    def expect(given, made):
        if how == "stored":
            h.check("as text", made == (str(given[0]) if given[1] is None else str(given[0]) + ":" + str(given[1])))
            return
        h.check("the node", h.all(type(made) is tuple, len(made) == 2, made[0] == want[0]))
        h.check("the endpoint", made[1] is None if want[1] is None else h.all(made[1] is not None, made[1] == want[1]))

    lst = h.unknown_list(N)
    if how == "stored":
        c = Copies(lst, lambda: any_element(h), None, expect)
        h.cut(c)
        r = N.__getstate__(lst)
        h.check("that list", c.left and r is c.made)
    else:
        state = h.unknown_list()
        c = Copies(state, lambda: want if how == "pairs" else n if how == "numbers" else text, lst, expect)
        h.cut(c)
        N.__setstate__(lst, state)
    if not c.left:
        h.unsupported("loop contract not attached")
    h.check("nothing else", len(h.appended(c.made)) == 0)


@harness(params=["ints", "mixed", "texts", "state texts"], fuzz=30)
def other_notations(h, how):
    """nodes may be given as numbers, pairs and texts"""
    prime(h)
    a, b, e = h.int("a", 1, 255), h.int("b", 1, 255), h.int("e", 0, 255)
    N = h.get(A + "Nodes")()
    if how == "ints":
        N.__setstate__([a, b])
        same(h, N, [(a, None), (b, None)])
    elif how == "mixed":
        N.__setstate__([a, (b, e), (a, None)])
        same(h, N, [(a, None), (b, e), (a, None)])
    elif how == "texts":
        N.__setstate__(["7", "232:0", "1:127", "10"])
        same(h, N, [(7, None), (232, 0), (1, 127), (10, None)])
    else:
        n = h.get(A + "Nodes")([(1, None), (1, 0), (12, 3), (232, None)])
        h.check("texts", n.__getstate__() == ["1", "1:0", "12:3", "232"])
        N.__setstate__(n.__getstate__())
        same(h, N, [(1, None), (1, 0), (12, 3), (232, None)])


@harness(params=list(range(0, 256, 16)), fuzz=1, time=120)
def stored(h, first):
    """every node with every endpoint and none, stored and restored"""
    prime(h)
    N = h.get(A + "Nodes")
    for n in range(max(first, 1), first + 16):
        nodes = [(n, None)] + [(n, e) for e in range(256)]
        lst, back = N(nodes), N()
        state = lst.__getstate__()
        back.__setstate__(state)
        h.check("the same list", [tuple(x) for x in back] == nodes, n)
        h.check("of numbers", all(type(x) is not str for p in back for x in p))
        h.check("told apart", len(set(state)) == len(nodes))
        for k in (2, 5, 97):
            some = nodes[::k][::-1]
            back = N()
            back.__setstate__(N(some).__getstate__())
            h.check("in its order", [tuple(x) for x in back] == some, n)
    h.check("it was not altered", [tuple(x) for x in lst] == nodes)


@harness(params=patterns(), fuzz=6, kind="bounded", note="lists of up to 5 (thorough: 6) elements, any numbers")
def membership(h, p):
    prime(h)
    nodes = drawn(h, [c == "1" for c in p])
    n, e = h.int("node", 1, 255), h.int("endpoint", 0, 255)
    if not h.symbolic and nodes and h.flag("member"):
        n, e = h.choice("which", nodes)
        e = 0 if e is None else e
    N = h.get(A + "Nodes")(nodes)
    want = h.any(*[h.all(x == n, (0 if y is None else y) == e) for x, y in nodes])
    got = N.contains(n, e)
    h.check("member", h.iff(got, want), (p,))
    got0 = N.contains(n)
    h.check("no endpoint is the root", h.iff(got0, h.any(*[h.all(x == n, (0 if y is None else y) == 0) for x, y in nodes])))
    same(h, N, nodes)


@harness(params=[0, 1, 2, 3, 255], fuzz=20)
def groups(h, n):
    """telling the number of groups adds the missing ones and keeps the others"""
    prime(h)
    G = h.get(A + "Groupings")()
    Group = h.get(A + "Group")
    m = h.int("max", 0, 255)
    old = h.choice("old", [[], [1], [2], [1, 3], [255]])
    for i in old:
        g = Group()
        g.maxNodes = m
        g.nodes = [(i, None)]
        G[i] = g
    G.setNumGroups(n)
    h.check("the groups", sorted(G) == sorted(set(old) | set(range(1, n + 1))))
    for i in old:
        h.check("kept", h.all(G[i].maxNodes == m, [tuple(x) for x in G[i].nodes] == [(i, None)]))
    for i in set(range(1, n + 1)) - set(old):
        h.check("new ones are empty", h.all(G[i].maxNodes == 0, len(G[i].nodes) == 0))
    if 1 in G and 2 in G and 2 not in old:
        G[2].nodes.append((9, None))
        h.check("the new ones are not shared", h.all(*[len(G[i].nodes) == (1 if i in old else 0) for i in G if i != 2]))
    B = h.get(A + "Groupings")()
    B.__setstate__({str(k): v for k, v in G.__getstate__().items()})
    h.check("the same groups restored", sorted(B) == sorted(G))
    for i in G:
        h.check("the same group", h.all(B[i].maxNodes == G[i].maxNodes, [tuple(x) for x in B[i].nodes] == [tuple(x) for x in G[i].nodes]))


class World:
    """a node with associations, and what is asked of it and told to it"""

    def __init__(self, h, classes):
        prime(h)
        self.h = h
        self.a = StubAdapter(h)
        self.a.result = self.told
        self.node = h.get("pyzwave.node:Node")(9, self.a, [0x85] + classes)
        self.cc = self.node.supported[0x85]
        self.cc._version = 2
        self.classes = classes
        self.content = {}     # group -> [max, nodes]
        self.silent = set()
        self.wrong = {}
        self.count = None
        self.log = []
        self.takes = True

    def told(self, nodeId, cmd, kw):
        b = cmd.compose()
        h = self.h
        h.check("to the node", nodeId == 9 and kw.get("destEP", 0) == 0)
        key = (h.concrete(b[0]), h.concrete(b[1]))
        self.log.append(b)
        if key == (0x85, 0x05) and self.count is not None:
            self.reply(bytes([0x85, 0x06, self.count]))
        elif key in ((0x85, 0x02), (0x8E, 0x02)):
            g = h.concrete(b[2])
            if g not in self.silent:
                mx, nodes = self.content[g]
                self.reply(bytes([key[0], 0x03, self.wrong.get(g, g), mx, 0]) + encoded(nodes))
        elif key in ((0x85, 0x01), (0x8E, 0x01)) and self.takes:
            g = h.concrete(b[2])
            rest = [h.concrete(x) for x in b[3:]]
            new = [(rest[1], rest[2])] if rest[0] == 0 else [(rest[0], None)]
            self.content[g][1] = self.content[g][1] + new
        return True

    def reply(self, data):
        msg = self.h.get("pyzwave.message:Message").decode(data)
        self.h.loop.call_io(lambda: self.h.loop.create_task(self.node.handleMessage(msg, 0)))


CLASSES = {"plain": [], "plus": [0x5E], "plus, multi channel": [0x5E, 0x60], "plus, association": [0x5E, 0x8E],
           "plus, both": [0x5E, 0x60, 0x8E], "both": [0x60, 0x8E],
           "controls them": [0x5E, 0xEF, 0x60, 0x8E]}
LISTS = ["", "0", "1", "00", "01", "10", "11", "001", "110"]


def verbs(w):
    """what the node is asked and told with, by the classes it supports"""
    own = w.classes[:w.classes.index(0xEF)] if 0xEF in w.classes else w.classes
    get = b"\x8e\x02" if 0x8E in own else b"\x85\x02"
    if 0x8E in own and 0x60 in own:
        return get, b"\x8e\x01\x01\x00\x01\x00", 0x5E in own
    return get, b"\x85\x01\x01\x01", 0x5E in own


@harness(params=[(c, p) for c in CLASSES for p in LISTS], fuzz=10)
def lifeline(h, cp):
    """the lifeline of a node having any list in its first group"""
    c, p = cp
    w = World(h, CLASSES[c])
    nodes = drawn(h, [x == "1" for x in p])
    mx = h.int("max", 0, 255)
    w.content[1] = [mx, list(nodes)]
    w.takes = h.flag("takes")
    w.cc.groupings.setNumGroups(1)
    w.cc.groupings[1].nodes = list(nodes)
    get, put, plus = verbs(w)
    there = h.any(*[h.all(n == 1, True if e is None else e == 0) for n, e in nodes])
    t = h.spawn(w.cc.setupLifeLine())
    h.check("comes to an end", h.loop.finish(t))
    h.check("no error", h.outcome(t)[0] == "ok", h.outcome(t))
    if not plus:
        h.check("only Z-Wave Plus has a fixed lifeline", len(w.log) == 0)
        same(h, w.cc.groupings[1].nodes, nodes)
        return
    if len(w.log) == 0:
        h.check("left alone only if the controller is in it", there)
        same(h, w.cc.groupings[1].nodes, nodes)
        return
    h.check("set only if the controller is missing", h.no(there))
    h.check("set, then asked", len(w.log) == 2, len(w.log))
    h.check("the controller is added", w.log[0] == put)
    h.check("the group is asked for", w.log[1] == get + b"\x01")
    h.check("size", w.cc.groupings[1].maxNodes == mx)
    same(h, w.cc.groupings[1].nodes, plain_pairs(h, w.content[1][1]))


@harness(params=["no groups", "silent", "wrong group", "not told", "other group"], fuzz=20)
def lifeline_trouble(h, how):
    w = World(h, [0x5E])
    n = h.int("n", 2, 255) if how != "not told" else 17
    mx = h.int("max", 0, 255)
    w.content = {1: [mx, [(n, None)]], 3: [mx, [(n, None)]]}
    if how != "no groups":
        w.cc.groupings.setNumGroups(3)
        w.cc.groupings[1].nodes = [(n, None)]
    if how == "silent":
        w.silent.add(1)
    if how == "wrong group":
        w.wrong[1] = h.int("reported", 0, 255)
        h.assume(w.wrong[1] != 1)
    if how == "not told":
        w.a.result = lambda *a: (w.told(*a), False)[1] if a[1].compose()[1] == 0x02 else w.told(*a)
    g = 3 if how == "other group" else 1
    t = h.spawn(w.cc.setupLifeLine(3) if g == 3 else w.cc.setupLifeLine())
    h.check("comes to an end", h.loop.finish(t))
    if how == "no groups":
        h.check("nothing to do", h.all(len(w.log) == 0, h.outcome(t)[0] == "ok"))
        return
    h.check("set and asked", len(w.log) == 2)
    h.check("of the group", h.all(w.log[0] == bytes([0x85, 0x01, g, 0x01]), w.log[1] == bytes([0x85, 0x02, g])))
    if how in ("silent", "not told"):
        h.check("a timeout", h.outcome(t)[0] == "error" and type(h.outcome(t)[1]).__name__ == "TimeoutError")
        same(h, w.cc.groupings[1].nodes, [(n, None)])
    elif how == "wrong group":
        h.check("ends", h.outcome(t)[0] == "ok")
        same(h, w.cc.groupings[1].nodes, [(n, None)])
    else:
        h.check("ends", h.outcome(t)[0] == "ok")
        same(h, w.cc.groupings[3].nodes, [(n, None), (1, None)])
        same(h, w.cc.groupings[1].nodes, [(n, None)])


@harness(params=[(c, n, s) for c in ("plus", "plus, both", "plain") for n in (0, 1, 2, 3) for s in range(2)] + [("plus", 255, 0)],
         fuzz=8, kind="bounded", note="0 to 3 and 255 groups, none or any one of them silent", time=90)
def whole_interview(h, cns):
    """the interview asks for every group, and sets up the lifeline"""
    c, count, quiet = cns
    w = World(h, CLASSES[c])
    w.count = count
    for g in range(1, count + 1):
        if g <= 3:
            w.content[g] = [h.int("max%d" % g, 0, 255), [(h.int("node%d" % g, 1, 255), None)]]
        else:
            w.content[g] = [5, [(g, None)]]
    if quiet and count:
        w.silent.add(h.choice("quiet", list(range(1, count + 1))))
    get, put, plus = verbs(w)
    before = {g: [x[0], list(x[1])] for g, x in w.content.items()}
    t = h.spawn(w.cc.interview())
    h.check("comes to an end", h.loop.finish(t, 2000))
    h.check("groups are counted first", w.log[0] == b"\x85\x05")
    h.check("every group is asked for, in order", [bytes([h.concrete(y) for y in x]) for x in w.log[1:count + 1]]
            == [get + bytes([g]) for g in range(1, count + 1)])
    rest = w.log[count + 1:]
    known = [] if 1 in w.silent or count == 0 else before[1][1]
    there = h.any(*[n == 1 for n, e in known])
    if not plus or count == 0 or len(rest) == 0:
        if plus and count:
            h.check("left alone only if there", there)
        h.check("nothing else", len(rest) == 0)
        h.check("complete", h.outcome(t)[0] == "ok")
    else:
        h.check("missing", h.no(there))
        h.check("the lifeline", h.all(len(rest) == 2, rest[0] == put, rest[1] == get + b"\x01"))
    for g in range(1, count + 1):
        if g in w.silent:
            h.check("unknown", len(w.cc.groupings[g].nodes) == 0)
            continue
        h.check("its size", w.cc.groupings[g].maxNodes == w.content[g][0])
        same(h, w.cc.groupings[g].nodes, plain_pairs(h, w.content[g][1]))
    h.check("interviewed, unless the lifeline is not known", w.cc.interviewed is (not (1 in w.silent and plus)))
