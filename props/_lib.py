"""Shared by the harnesses: wire-level builders/parsers written from the Z/IP packet format (not
from the code under test) and a scripted gateway at the other end of the recorded sockets."""

ZIP_PACKET = (0x23, 0x02)
ACKREQ, ACKRESP, NACK, WAITING, QFULL, OPTERR = 0x80, 0x40, 0x20, 0x10, 0x08, 0x04
EXT, CMD, MORE, SECURE = 0x80, 0x40, 0x20, 0x10


def prime(h):
    """import the package the way an application does (the adapter first)"""
    h.mod("pyzwave.adapter")


def zip_packet(seq, cmd=b"", flags0=0, src=0, dst=0, ext=None, flags1=None):
    if flags1 is None:
        flags1 = (CMD if len(cmd) else 0) | SECURE | (EXT if ext is not None else 0)
    head = bytes([0x23, 0x02, flags0, flags1, seq, src, dst])
    if ext is not None:
        head = head + bytes([len(ext) + 1]) + ext
    return head + cmd


def zip_ack(seq, src=0, dst=0):
    return zip_packet(seq, b"", ACKRESP, src, dst)


def zip_nack_waiting(seq, delay=None):
    ext = None
    if delay is not None:
        d = delay if delay >= 0 else delay + (1 << 24)
        ext = bytes([0x01, 0x03, (d >> 16) & 0xFF, (d >> 8) & 0xFF, d & 0xFF])
    return zip_packet(seq, b"", NACK | WAITING, ext=ext)


class Sent:
    """a Z/IP packet that left through a socket"""

    def __init__(self, data, addr=None):
        self.data = data
        self.addr = addr
        self.zip = len(data) >= 7 and data[0] == 0x23 and data[1] == 0x02
        if self.zip:
            self.flags0, self.flags1, self.seq = data[2], data[3], data[4]
            self.src, self.dst = data[5] & 0x7F, data[6] & 0x7F
            off = 7
            if self.flags1 & EXT:
                off = 7 + data[7]
            self.cmd = data[off:]
        else:
            self.flags0 = self.flags1 = self.seq = self.src = self.dst = None
            self.cmd = data


def sent(tr, start=0):
    return [Sent(d, a) for d, a in tr.sent[start:]]


def commands(tr, start=0):
    """the commands (not acks, not keep-alives) that left through a socket"""
    return [s for s in sent(tr, start) if s.zip and len(s.cmd) > 0]


def ip_of(i):
    """the 16 address bytes of node i in the scripted network"""
    return bytes([0xfd, 0, 0xbb, 0xbb, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, i])


def ip_text(i):
    return "fd00:bbbb::%x" % i


def advertisement(node, ip=None, home=b"\xea\xec\xfa\xf9"):
    return bytes([0x58, 0x01, 0x00, node]) + (ip_of(node) if ip is None else ip) + home


def mask(nodes, n=29):
    m = [0] * n
    for i in nodes:
        m[(i - 1) // 8] |= 1 << ((i - 1) % 8)
    return bytes(m)


def node_list_report(seq, nodes, controller=1, status=0):
    return bytes([0x52, 0x02, seq, status, controller]) + mask(nodes)


class Network:
    """The scripted other end: acks every command sent through any socket (unless `mute`), answers
    the gateway's own queries, and lets the harness decide the rest."""

    def __init__(self, h, nodes=(1, 2, 3), controller=1):
        self.h = h
        self.nodes = list(nodes)
        self.controller = controller
        self.mute = False
        self.answers = {}      # (class, command) -> fn(Sent, transport) -> reply command bytes or None
        self.no_address = set()
        self.noack = lambda s, tr: False
        self.before_ack = lambda s, tr: None
        h.loop.on_endpoint = self.attach
        self.transports = []

    def attach(self, tr):
        self.transports.append(tr)
        tr.onsend = self.onsend

    def later(self, tr, data):
        self.h.loop.call_io(tr.deliver, data)

    def onsend(self, tr, data, addr):
        if self.mute or addr is not None:
            return
        s = Sent(data[:], addr)
        if not s.zip:
            if len(data) >= 4 and data[0] == 0x58 and data[1] == 0x04:
                node = data[3]
                if node not in self.no_address:
                    self.later(tr, advertisement(node))
            return
        if not (s.flags0 & ACKREQ):
            return
        if self.noack(s, tr):
            return
        self.before_ack(s, tr)
        self.later(tr, zip_ack(s.seq))
        if len(s.cmd) >= 2:
            key = (s.cmd[0], s.cmd[1])
            fn = self.answers.get(key)
            reply = None
            if fn is not None:
                reply = fn(s, tr)
            elif key == (0x5F, 0x02):
                reply = bytes([0x5F, 0x03, 0x01])
            elif key == (0x52, 0x01):
                reply = node_list_report(s.cmd[2], self.nodes, self.controller)
            if reply is not None:
                self.later(tr, zip_packet(0x55, reply))


def gateway(h, net=None, connect=True):
    """a gateway object connected, over recorded sockets, to a scripted network"""
    prime(h)
    net = net or Network(h)
    gw = h.get("pyzwave.zipgateway:ZIPGateway")("::1", b"\x12\x34")
    if connect:
        h.run(gw.connect())
    return gw, net


def connection(h):
    """a connected Z/IP connection and its recorded socket"""
    prime(h)
    c = h.get("pyzwave.zipconnection:ZIPConnection")("::1", b"\x12\x34")
    h.run(c.connect())
    return c, h.loop.endpoints[-1]


def havoc_seq(h, obj, name="seq"):
    """the object's sequence counters take an arbitrary value (any history of earlier commands)"""
    for k in [k for k, v in vars(obj).items() if "seq" in k.lower() and isinstance(v, int)]:
        setattr(obj, k, h.int(name, 0, 255))


class Recorder:
    """a listener that records every notification"""

    def __init__(self, *names, **returns):
        self.calls = []
        for n in names:
            setattr(self, n, self._mk(n, returns.get(n)))

    def _mk(self, n, ret):
        def fn(*args):
            self.calls.append((n, args))
            return ret
        return fn

    def named(self, n):
        return [a for m, a in self.calls if m == n]


class StubAdapter:
    """An adapter object recording sends: what Node/Application/Mailbox see of the transport"""

    def __init__(self, h, result=True):
        self.h = h
        self.sends = []
        self.result = result
        self.nodeId = 1
        self.listeners = []
        self.gate = None

    def addListener(self, l):
        self.listeners.append(l)

    async def send(self, cmd, **kw):
        self.sends.append((0, cmd, kw))
        return await self._res(0, cmd, kw)

    async def sendToNode(self, nodeId, cmd, **kw):
        self.sends.append((nodeId, cmd, kw))
        return await self._res(nodeId, cmd, kw)

    async def _res(self, nodeId, cmd, kw):
        r = self.result
        if callable(r):
            r = r(nodeId, cmd, kw)
        if self.gate is not None:
            await self.gate
        if hasattr(r, "__await__"):
            r = await r
        if isinstance(r, Exception):
            raise r
        return r


def plain_adapter(h):
    """an adapter without a socket: the abstract base with its abstract methods filled in"""
    prime(h)
    base = h.get("pyzwave.adapter:Adapter")

    async def nothing(self, *a, **k):
        return True

    class PlainAdapter(base):
        pass
    for n in sorted(base.__abstractmethods__):
        setattr(PlainAdapter, n, nothing)
    PlainAdapter.__abstractmethods__ = frozenset()
    return PlainAdapter()


def outstanding_dict(h, obj, key):
    """the attribute of obj holding what is outstanding: the dict that has the key of a wait that was
    just begun (found by what it does, whatever its name)"""
    for v in vars(obj).values():
        if isinstance(v, dict) and len(v) and key in v:
            return v
    return None


def task_errors(h):
    """what tasks nobody waits for ended with"""
    out = []
    for t, _ in h.loop.all_tasks:
        if t.done() and not t.cancelled() and t.exception() is not None:
            out.append(t.exception())
    return out


CLASS_IDS = {"Version": 0x86, "ManufacturerSpecific": 0x72, "ZwavePlusInfo": 0x5E, "Association": 0x85,
             "AssociationGrpInfo": 0x59, "Configuration": 0x70, "SensorMultilevel": 0x31}
SIMPLE = {"Version": [("zwaveLibraryType", 8), ("zwaveProtocolVersion", 8), ("zwaveProtocolSubVersion", 8),
                      ("applicationVersion", 8), ("applicationSubVersion", 8)],
          "ManufacturerSpecific": [("manufacturerID", 16), ("productTypeID", 16), ("productID", 16)],
          "ZwavePlusInfo": [("zwavePlusVersion", 8), ("roleType", 8), ("nodeType", 8), ("installerIconType", 16),
                            ("userIconType", 16)]}
NAMES = ["", "Lifeline", "räksmörgås", "a: b - c", "yes", "12", "~", "- x", "tab\there", "line\nbreak", " lead", "'q\"",
         "\u2028", "😀", "0x1F", "1e3", "null", "%TAG", "#c"]


def learnt(h, name, cc, tag=""):
    """the command class learns arbitrary things, through its attributes; what it must know afterwards"""
    if name in SIMPLE:
        want = {}
        for n, bits in SIMPLE[name]:
            want[n] = h.int(tag + n, 0, (1 << bits) - 1)
            setattr(cc, n, want[n])
        return want
    if name == "Association":
        G = h.get("pyzwave.commandclass.Association:Group")
        groups = {}
        for i in range(h.choice(tag + "groups", [0, 1, 2])):
            mx = h.int("%smax%d" % (tag, i), 0, 255)
            nodes = []
            for j in range(h.choice("%snodes%d" % (tag, i), [0, 1, 2])):
                ep = h.choice("%sep%d%d" % (tag, i, j), [None, 0, 127]) if i == 0 else [None, 1][j]
                nodes.append((h.choice("%snode%d%d" % (tag, i, j), [1, 232]) if j == 0 else 2 + i, ep))
            g = G()
            g.maxNodes = mx
            g.nodes = list(nodes)
            cc.groupings[i + 1] = g
            groups[i + 1] = (mx, nodes)
        return groups
    if name == "AssociationGrpInfo":
        G = h.get("pyzwave.commandclass.AssociationGrpInfo:Group")
        groups = {}
        for i in range(h.choice(tag + "groups", [0, 1, 2])):
            g = G(profile=h.int("%sprofile%d" % (tag, i), 0, 0xFFFF))
            text = h.choice("%sname%d" % (tag, i), NAMES if i == 0 else NAMES[:2])
            cmds = [[h.int("%sc%d%d" % (tag, i, j), 0, 255), h.int("%sd%d%d" % (tag, i, j), 0, 255)]
                    for j in range(h.choice("%scmds%d" % (tag, i), [0, 2]))]
            g.name = text
            g.commands = [list(c) for c in cmds]
            cc.groupings[i + 1] = g
            groups[i + 1] = (g.profile, text, cmds)
        return groups
    if name == "Configuration":
        V = h.get("pyzwave.commandclass.Configuration:ConfigurationValue")
        params = {}
        for i in range(h.choice(tag + "params", [0, 1, 2])):
            num = h.choice("%snum%d" % (tag, i), [0, 255]) if i == 0 else 7
            v, size = h.int("%svalue%d" % (tag, i), -(1 << 31), (1 << 32) - 1), h.choice("%ssize%d" % (tag, i), [1, 2, 4])
            cc.parameters[num] = V(value=v, size=size)
            params[num] = (v, size)
        return params
    if name == "SensorMultilevel":
        types = {}
        for i in range(h.choice(tag + "types", [0, 1, 2])):
            t = h.choice("%stype%d" % (tag, i), [1, 255]) if i == 0 else 40
            types[t] = h.int("%sscales%d" % (tag, i), 0, 15)
            cc.supportedTypes[t] = types[t]
        return types
    raise KeyError(name)


def same_learnt(h, name, cc, want):
    if name in SIMPLE:
        for n, v in want.items():
            h.check("%s is equal" % n, getattr(cc, n) == v)
    elif name == "Association":
        h.check("the same groups", sorted(cc.groupings.keys()) == sorted(want))
        for k, (mx, nodes) in want.items():
            g = cc.groupings[k]
            h.check("the size of the group", g.maxNodes == mx)
            h.check("its nodes", [tuple(x) for x in g.nodes] == nodes)
    elif name == "AssociationGrpInfo":
        h.check("the same groups", sorted(cc.groupings.keys()) == sorted(want))
        for k, (profile, text, cmds) in want.items():
            g = cc.groupings[k]
            h.check("the profile", g.profile == profile)
            h.check("the name", g.name == text)
            h.check("the number of commands", len(g.commands) == len(cmds))
            h.check("the commands", h.all(*[h.all(len(x) == 2, x[0] == c[0], x[1] == c[1])
                                            for x, c in zip(g.commands, cmds)]))
    elif name == "Configuration":
        h.check("the same parameters", sorted(cc.parameters.keys()) == sorted(want))
        for k, (v, size) in want.items():
            h.check("its value", cc.parameters[k].value == v)
            h.check("its size", cc.parameters[k].size == size)
    elif name == "SensorMultilevel":
        h.check("the same types", sorted(cc.supportedTypes.keys()) == sorted(want))
        for k, v in want.items():
            h.check("its scales", cc.supportedTypes[k] == v)


def fingerprint(o, depth=4, skip=("_adapter", "_parent", "adapter", "_listeners", "_loop")):
    """what an object holds, as plain values: of its attributes, and of what they hold, `depth` deep"""
    if isinstance(o, (bool, int, str, bytes)) or o is None:
        return repr(o)
    if hasattr(o, "name") and hasattr(o, "value"):
        return str(o.name)
    if depth == 0 or hasattr(o, "add_done_callback"):
        return "..."
    if isinstance(o, dict):
        return sorted((repr(k), repr(fingerprint(v, depth - 1, skip))) for k, v in o.items())
    if isinstance(o, (list, tuple, set)) or type(o).__name__ == "deque":
        return [fingerprint(v, depth - 1, skip) for v in o]
    if hasattr(o, "__dict__"):
        return [(k, fingerprint(vars(o)[k], depth - 1, skip)) for k in sorted(vars(o)) if k not in skip]
    return type(o).__name__


class MailboxSpy:
    """a mailbox service, and what it sends to the mailbox proxy; `outcome` decides how a send ends:
    True, False, an exception, or an awaitable ending in one of those"""

    def __init__(self, h, nodeId=7):
        prime(h)
        self.h, self.nodeId = h, nodeId
        self.a = StubAdapter(h)
        self.outcome = True
        self.a.result = self.result
        self.service = h.get("pyzwave.mailbox:MailboxService")(self.a)
        self.Q = h.get("pyzwave.commandclass.Mailbox:Queue")
        self.W = h.get("pyzwave.commandclass.Mailbox:WakeupNotification")

    def result(self, nodeId, cmd, kw):
        return self.outcome(nodeId, cmd, kw) if callable(self.outcome) else self.outcome

    def message(self, msg):
        return self.service.messageReceived(None, self.nodeId, 0, msg, None)

    def push(self, queue, data):
        return self.message(self.Q(last=False, operation=self.Q.Operation.PUSH, queueHandle=queue, mailboxEntry=data))

    def wake(self, queue):
        return self.message(self.W(queueHandle=queue))

    def ack(self, queue):
        return self.message(self.Q(last=False, operation=self.Q.Operation.ACK, queueHandle=queue))

    def sent(self, since=0):
        """(node, operation, queue, entry, last) of what was sent"""
        out = []
        for n, cmd, kw in self.a.sends[since:]:
            b = cmd.compose()
            self.h.check("a mailbox command", len(b) >= 4 and b[:2] == bytes([0x69, 0x04]))
            f = self.h.concrete(b[2])
            out.append((n, ["PUSH", "POP", "WAITING", "PING", "ACK", "NACK", "QUEUE_FULL", "?"][f & 7], b[3], b[4:], f >> 3))
        return out

    def drain(self, queue, most=20):
        """everything stored in a queue, by waking up until it is empty; the flags of the deliveries"""
        got, flags = [], []
        for _ in range(most):
            n = len(self.a.sends)
            self.outcome = True
            self.h.run(self.wake(queue))
            pops = [x for x in self.sent(n) if x[1] == "POP"]
            self.h.check("a wake-up is answered with one message", len(pops) == 1)
            self.h.check("of its queue", pops[0][2] == queue)
            if len(pops[0][3]) == 0:
                self.h.check("nothing more is left", bool(pops[0][4]) is True)
                return got, flags
            got.append(pops[0][3])
            flags.append(bool(pops[0][4]))
        self.h.fail("the queue has an end")
