"""C13: what is stored for a node is restored unchanged."""
import pathlib

from hlib import prime, StubAdapter, CLASS_IDS, SIMPLE, learnt, same_learnt
from pyvc.api import harness

FUNCTIONS = ["pyzwave.persistantstorage:YamlStorage.nodeAdded", "pyzwave.persistantstorage:YamlStorage.nodeUpdated",
             "pyzwave.persistantstorage:YamlStorage.pathForNode",
             "pyzwave.persistantstorage:YamlStorage.cmdClassRepresenter", "pyzwave.util:AttributesMixin.__getstate__",
             "pyzwave.util:AttributesMixin.__setstate__", "pyzwave.util:stateOf",
             "pyzwave.commandclass.CommandClass:CommandClass.__getstate__",
             "pyzwave.commandclass.CommandClass:CommandClass.__setstate__",
             "pyzwave.commandclass.CommandClass:VarDictAttribute", "pyzwave.commandclass.Association:Nodes",
             "pyzwave.commandclass.AssociationGrpInfo:Commands"]
ASSUMPTIONS = ["PyYAML: yaml.load(yaml.dump(x), BaseLoader) is x with every scalar as its text, for trees of exact dict, "
               "list, str, int, float, bool and None (the native runs use the real PyYAML and real files)",
               "a file holds what was last written to it; opening it for writing empties it"]


def storage(h, path):
    return h.get("pyzwave.persistantstorage:YamlStorage")(path)


def make(h, nodeId, classes, store=None, endpoint=None):
    """a node like the application makes it"""
    adapter = StubAdapter(h)
    Node, EndPoint = h.get("pyzwave.node:Node"), h.get("pyzwave.node:NodeEndPoint")
    node = Node(nodeId, adapter, list(classes))
    if endpoint:
        node = EndPoint(node, endpoint, adapter, list(classes))
    if store is not None:
        node.addListener(store)
    return node


def known(h, cc, tag=""):
    """version and interview status, as the library keeps them"""
    ver, done = h.int(tag + "version", 0, 255), h.flag(tag + "interviewed")
    st = cc.__getstate__()
    st["version"], st["interviewed"] = ver, done
    cc.__setstate__(st)
    return ver, done


def same_known(h, cc, want):
    h.check("the version is restored", cc.version == want[0])
    h.check("the interview status is restored", cc.interviewed is want[1])


@harness(params=sorted(CLASS_IDS), fuzz=40, time=90)
def roundtrip(h, name):
    prime(h)
    path = h.tmpdir()
    store = storage(h, path)
    cid = CLASS_IDS[name]
    node = make(h, 5, [cid], store)
    cc = node.supported[cid]
    kn = known(h, cc)
    want = learnt(h, name, cc)
    node.commandClassUpdated(cc)
    other = make(h, 5, [cid])
    exc, _ = h.catch(storage(h, path).nodeAdded, None, other)
    h.check("loads", exc is None, exc)
    same_learnt(h, name, other.supported[cid], want)
    same_known(h, other.supported[cid], kn)
    # and once more, from what was loaded
    store3 = storage(h, path)
    store3.nodeUpdated(other)
    third = make(h, 5, [cid])
    store3.nodeAdded(None, third)
    same_learnt(h, name, third.supported[cid], want)
    same_known(h, third.supported[cid], kn)


@harness(fuzz=30)
def classes_together(h):
    """several classes in one node, one of them generic, in different orders when stored and when loaded"""
    prime(h)
    path = h.tmpdir()
    store = storage(h, path)
    names = sorted(SIMPLE)
    ids = [CLASS_IDS[n] for n in names]
    node = make(h, 9, ids + [0x25, 0xEE], store)
    want = {n: learnt(h, n, node.supported[CLASS_IDS[n]], n) for n in names}
    kn = {i: known(h, node.supported[i], "c%d" % i) for i in (0x25, 0xEE)}
    node.commandClassUpdated(node.supported[0x25])
    other = make(h, 9, [0xEE] + ids[::-1] + [0x25])
    storage(h, path).nodeAdded(None, other)
    for n in names:
        same_learnt(h, n, other.supported[CLASS_IDS[n]], want[n])
        h.check("never interviewed", other.supported[CLASS_IDS[n]].interviewed is False)
    for i in kn:
        same_known(h, other.supported[i], kn[i])


@harness(params=["ManufacturerSpecific", "Version", "ZwavePlusInfo"], fuzz=20)
def latest(h, name):
    """what was stored last is what is restored"""
    prime(h)
    path = h.tmpdir()
    cid = CLASS_IDS[name]
    node = make(h, 5, [cid], storage(h, path))
    learnt(h, name, node.supported[cid], "a")
    node.commandClassUpdated(node.supported[cid])
    want = learnt(h, name, node.supported[cid], "b")
    node.commandClassUpdated(node.supported[cid])
    other = make(h, 5, [cid])
    storage(h, path).nodeAdded(None, other)
    same_learnt(h, name, other.supported[cid], want)


@harness(params=["moved", "removed", "failed", "another", "back"], fuzz=10)
def elsewhere(h, how):
    """what was stored last is there, whatever has happened to the files before"""
    prime(h)
    path = h.tmpdir()
    store = storage(h, path)
    node = make(h, 5, [0x72], store)
    cc = node.supported[0x72]
    kn = known(h, cc)
    want = learnt(h, "ManufacturerSpecific", cc, "a")
    if how == "failed":
        # the directory is not there yet
        store.path = path = path + "/later"
        h.catch(store.nodeUpdated, node)
        if not h.symbolic:
            pathlib.Path(path).mkdir()
            pathlib.Path(path + "/nodes").mkdir()
    else:
        node.commandClassUpdated(cc)
    if how in ("moved", "back"):
        first, path = path, h.tmpdir()
        store.path = path
    elif how == "removed":
        store.pathForNode(node.nodeId).unlink()
        h.check("nothing is stored", not store.pathForNode(node.nodeId).exists())
    elif how == "another":
        # the same node, as another process has known it
        old = make(h, 5, [0x72])
        learnt(h, "ManufacturerSpecific", old.supported[0x72], "b")
        storage(h, path).nodeUpdated(old)
    node.commandClassUpdated(cc)
    if how == "back":
        # and back at where it was before, where something else is stored by now
        old = make(h, 5, [0x72])
        learnt(h, "ManufacturerSpecific", old.supported[0x72], "b")
        storage(h, first).nodeUpdated(old)
        store.path = path = first
        node.commandClassUpdated(cc)
    other = make(h, 5, [0x72])
    exc, _ = h.catch(storage(h, path).nodeAdded, None, other)
    h.check("loads", exc is None, exc)
    same_learnt(h, "ManufacturerSpecific", other.supported[0x72], want)
    same_known(h, other.supported[0x72], kn)


@harness(params=["nodes", "endpoints"], fuzz=20)
def own_files(h, kind):
    """every node and endpoint has settings of its own"""
    prime(h)
    path = h.tmpdir()
    store = storage(h, path)
    what = [(5, None), (55, None), (1, None), (11, None)] if kind == "nodes" else [(5, None), (5, 1), (5, 11), (51, 1), (1, 5)]
    cid = 0x72
    want = {}
    for i in h.choice("order", [list(range(len(what))), list(range(len(what)))[::-1]]):
        node = make(h, what[i][0], [cid], store, what[i][1])
        want[i] = (known(h, node.supported[cid], "n%d" % i)[0], learnt(h, "ManufacturerSpecific", node.supported[cid], "m%d" % i))
        node.commandClassUpdated(node.supported[cid])
    for i in range(len(what)):
        node = make(h, what[i][0], [cid], None, what[i][1])
        storage(h, path).nodeAdded(None, node)
        h.check("its own version", node.supported[cid].version == want[i][0])
        same_learnt(h, "ManufacturerSpecific", node.supported[cid], want[i][1])


@harness(params=["first", "last"], fuzz=20)
def cannot_be_written(h, where):
    """settings that cannot be converted leave what was stored intact"""
    prime(h)
    path = h.tmpdir()
    ids = [0x72, 0x86] if where == "last" else [0x86, 0x72]
    node = make(h, 5, ids, storage(h, path))
    want = learnt(h, "ManufacturerSpecific", node.supported[0x72], "a")
    node.commandClassUpdated(node.supported[0x72])
    learnt(h, "ManufacturerSpecific", node.supported[0x72], "b")

    def broken():
        raise ValueError("no state")
    object.__setattr__(node.supported[0x86], "__getstate__", broken)
    h.catch(storage(h, path).nodeUpdated, node)
    other = make(h, 5, ids)
    exc, _ = h.catch(storage(h, path).nodeAdded, None, other)
    h.check("still loads", exc is None, exc)
    same_learnt(h, "ManufacturerSpecific", other.supported[0x72], want)


@harness(params=sorted(SIMPLE), fuzz=20)
def nothing_stored(h, name):
    """loading a node with nothing stored changes nothing"""
    prime(h)
    path = h.tmpdir()
    cid = CLASS_IDS[name]
    # something is stored for another one
    decoy = make(h, 15, [cid], storage(h, path))
    learnt(h, name, decoy.supported[cid], "decoy")
    decoy.commandClassUpdated(decoy.supported[cid])
    node = make(h, 5, [cid])
    kn = known(h, node.supported[cid])
    want = learnt(h, name, node.supported[cid])
    exc, _ = h.catch(storage(h, path).nodeAdded, None, node)
    h.check("no error", exc is None, exc)
    same_learnt(h, name, node.supported[cid], want)
    same_known(h, node.supported[cid], kn)


@harness(fuzz=20)
def other_classes(h):
    """classes the node no longer supports are ignored, new ones keep what they have"""
    prime(h)
    path = h.tmpdir()
    node = make(h, 5, [0x72, 0x25], storage(h, path))
    want = learnt(h, "ManufacturerSpecific", node.supported[0x72])
    known(h, node.supported[0x25])
    node.commandClassUpdated(node.supported[0x72])
    order = h.choice("order", [[0x72, 0x86], [0x86, 0x72], [0x86, 0x20, 0x72]])
    other = make(h, 5, order)
    mine = learnt(h, "Version", other.supported[0x86], "o")
    exc, _ = h.catch(storage(h, path).nodeAdded, None, other)
    h.check("loads", exc is None, exc)
    same_learnt(h, "ManufacturerSpecific", other.supported[0x72], want)
    same_learnt(h, "Version", other.supported[0x86], mine)


@harness(params=["0", "2"])
def defaults(h, n):
    """a node nothing is known about yet is restored as such"""
    prime(h)
    path = h.tmpdir()
    ids = sorted(CLASS_IDS.values())
    node = make(h, 5, ids, storage(h, path))
    for i in range(1 + int(n)):
        node.commandClassUpdated(node.supported[ids[i]])
    other = make(h, 5, ids)
    exc, _ = h.catch(storage(h, path).nodeAdded, None, other)
    h.check("loads", exc is None, exc)
    for i in ids:
        same_known(h, other.supported[i], (0, False))
    h.check("no groups", len(other.supported[0x85].groupings) == 0)
    h.check("no parameters", len(other.supported[0x70].parameters) == 0)


class Told:
    """a node answering questions from bytes, `says` mapping a question to its answers; what it says is `want`"""

    def __init__(self, h, name, store, tag=""):
        self.h, self.name = h, name
        self.node = make(h, 5, [CLASS_IDS[name]] + ([0x8E] if name == "Association" and h.flag(tag + "multi") else []), store)
        self.node.adapter.result = self.asked
        self.cc = self.node.supported[CLASS_IDS[name]]
        self.version = h.int(tag + "version", 5, 255)
        self.says = {}
        self.tell(tag)

    def asked(self, nodeId, cmd, kw):
        b = cmd.compose()
        if b[:2] == b"\x86\x13":
            self.reply(b"\x86\x14" + b[2:3] + bytes([self.version]))
        else:
            for q, a in self.says.items():
                if self.h.concrete_bool(b == q):
                    self.reply(a)
        return True

    def reply(self, data):
        msg = self.h.get("pyzwave.message:Message").decode(data)
        self.h.loop.call_io(lambda: self.h.loop.create_task(self.node.handleMessage(msg, 0)))

    def tell(self, tag=""):
        h, name = self.h, self.name
        if name in SIMPLE:
            self.want = {n: h.int(tag + n, 0, (1 << bits) - 1) for n, bits in SIMPLE[name]}
            data = b""
            for n, bits in SIMPLE[name]:
                v = self.want[n]
                data += bytes([v]) if bits == 8 else bytes([v >> 8, v & 255])
            q = {"Version": (0x86, 0x11), "ManufacturerSpecific": (0x72, 4), "ZwavePlusInfo": (0x5E, 1)}[name]
            self.says[bytes(q)] = bytes([q[0], q[1] + 1]) + data
        elif name == "Association":
            self.want = {}
            n = h.choice(tag + "groups", [0, 1, 2])
            self.says[b"\x85\x05"] = bytes([0x85, 6, n])
            multi = self.node.supports(0x8E)
            for i in range(1, n + 1):
                mx = h.int("%smax%d" % (tag, i), 0, 255)
                nodes = [(h.choice("%snode%d" % (tag, i), [1, 232]), None), (7, 3), (7, 0)][:3 if multi else i]
                if not multi:
                    nodes = [(k, None) for k, _ in nodes]
                data = bytes([k for k, e in nodes if e is None])
                if multi:
                    data += b"\x00" + b"".join(bytes([k, e]) for k, e in nodes if e is not None)
                c = 0x8E if multi else 0x85
                self.says[bytes([c, 2, i])] = bytes([c, 3, i, mx, 0]) + data
                self.want[i] = (mx, nodes)
        elif name == "AssociationGrpInfo":
            self.want = {}
            n = h.choice(tag + "groups", [0, 1, 2])
            data = b""
            for i in range(1, n + 1):
                profile = h.int("%sprofile%d" % (tag, i), 0, 0xFFFF)
                text = h.choice("%sname%d" % (tag, i), ["", "Lifeline", "r\u00e4ka: b"])
                cmds = [[h.int("%sc%d" % (tag, i), 0, 255), h.int("%sd%d" % (tag, i), 0, 255)]] * (3 - i)
                data += bytes([i, 0, profile >> 8, profile & 255, 0, 0, 0])
                raw = text.encode()
                self.says[bytes([0x59, 1, i])] = bytes([0x59, 2, i, len(raw)]) + raw
                self.says[bytes([0x59, 5, 0x80, i])] = bytes([0x59, 6, i, 2 * len(cmds)]) + b"".join(bytes(c) for c in cmds)
                self.want[i] = (profile, text, cmds)
            self.says[bytes([0x59, 3, 0x40, 0])] = bytes([0x59, 4, 0x80 + n]) + data
        elif name == "Configuration":
            self.want = dict(getattr(self, "want", {}))
            for num in h.choice(tag + "params", [[], [255], [1, 255]]):
                size = h.choice("%ssize%d" % (tag, num), [1, 2, 4])
                v = h.bytes("%svalue%d" % (tag, num), size)
                self.want[num] = (int.from_bytes(v, "big"), size)
                self.reply(bytes([0x70, 6, num, size]) + v)
        elif name == "SensorMultilevel":
            self.want = {}
            types = h.choice(tag + "types", [[], [1], [1, 27, 40]])
            mask = bytearray(5)
            for t in types:
                mask[(t - 1) // 8] |= 1 << (t - 1) % 8
                self.want[t] = h.int("%sscales%d" % (tag, t), 0, 15)
                self.says[bytes([0x31, 3, t])] = bytes([0x31, 6, t, self.want[t]])
            self.says[b"\x31\x01"] = b"\x31\x02" + bytes(mask)


@harness(params=sorted(CLASS_IDS), fuzz=40, time=90)
def learnt_from_the_node(h, name):
    """what a class has learnt from the node's own messages is in the file when the update has been reported, also the
    second time"""
    prime(h)
    path = h.tmpdir()
    w = Told(h, name, storage(h, path))
    for again in range(2):
        if again:
            if name in ("Association", "AssociationGrpInfo", "SensorMultilevel") or h.flag("once"):
                break
            w.tell("again ")
        t = h.spawn(w.node.interview())
        h.check("comes to an end", h.loop.finish(t))
        h.loop.settle()
        h.check("complete", h.outcome(t)[0] == "ok" and w.cc.interviewed is True, h.outcome(t))
        if name == "AssociationGrpInfo":
            # its reports arrive after its interview
            w.node.commandClassUpdated(w.cc)
        other = make(h, 5, [CLASS_IDS[name]])
        exc, _ = h.catch(storage(h, path).nodeAdded, None, other)
        h.check("loads", exc is None, exc)
        same_learnt(h, name, other.supported[CLASS_IDS[name]], w.want)
        same_known(h, other.supported[CLASS_IDS[name]], (w.version, True))
