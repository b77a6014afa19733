"""C14: the storage lock coalesces updates and never loses one.

`every_history` is an inductive argument over the states of a node: from every state reached so far every operation is
made and compared with what the property says, until no operation leads to a new state.  A state is what the node holds
about its storage (all plain values kept in the node), together with what the property must know (how many locks are held, whether
there was an update); two histories leading to the same one behave alike from there on."""
from hlib import prime, StubAdapter, Recorder, learnt
from pyvc.api import harness

FUNCTIONS = ["pyzwave.node:Node.storageLock", "pyzwave.node:Node.commandClassUpdated"]
ASSUMPTIONS = ["a node keeps the state of its storage lock in plain values, collections or objects held by the node (and in "
               "the locks being held), not elsewhere"]


class Boom(Exception):
    pass


def make(h):
    node = h.get("pyzwave.node:Node")(5, StubAdapter(h), [0x72, 0x86, 0x25])
    rec = Recorder("nodeUpdated")
    node.addListener(rec)
    return node, rec


def leave(h, lock, boom):
    """leave the with statement of a lock"""
    if boom:
        exc, swallowed = h.catch(lock.__exit__, Boom, Boom("x"), None)
        return (exc is None and not swallowed) or isinstance(exc, Boom)
    exc, _ = h.catch(lock.__exit__, None, None, None)
    return exc is None


def fingerprint(o, depth=0):
    out = []
    for k in sorted(vars(o)):
        v = vars(o)[k]
        if isinstance(v, (bool, int, str)) or v is None:
            out.append((k, repr(v)))
        elif hasattr(v, "name") and hasattr(v, "value"):
            out.append((k, str(v.name)))
        elif isinstance(v, (list, dict, set, tuple)):
            out.append((k, len(v)))
        elif hasattr(v, "__dict__") and depth == 0 and k not in ("_adapter", "_parent"):
            out.append((k, tuple(fingerprint(v, 1))))
    return out


def lockstate(lock):
    """what a lock being held keeps itself: the variables of the generator, or its own"""
    gen = getattr(lock, "gen", None)
    frame = getattr(gen, "gi_frame", None)
    own = dict(frame.f_locals) if frame is not None else dict(getattr(lock, "__dict__", {}))
    out = []
    for k in sorted(own):
        v = own[k]
        if isinstance(v, (bool, int, str)) or v is None:
            out.append((k, repr(v)))
        elif hasattr(v, "name") and hasattr(v, "value"):
            out.append((k, str(v.name)))
    return out


def play(h, ops):
    """make a history; what it has led to"""
    node, rec = make(h)
    held, dirty, want = [], False, 0
    for op in ops:
        n = len(rec.calls)
        if op == "update":
            exc, _ = h.catch(node.commandClassUpdated, node.supported[0x72])
            h.check("an update does not fail", exc is None, exc)
            if held:
                dirty = True
            signalled = not held
        elif op == "enter":
            lock = node.storageLock()
            lock.__enter__()
            held.append(lock)
            signalled = False
        else:
            lock = held.pop(-1 if op.startswith("inner") else 0)
            h.check("nothing is swallowed", leave(h, lock, op.endswith("!")))
            signalled = not held and dirty
            if not held:
                dirty = False
        h.check("signalled exactly when it has to be", len(rec.calls) - n == (1 if signalled else 0), (ops, op))
    # the locks are returned as well: one that is forgotten is left
    return node, held, (len(held), dirty)


@harness(params=lambda: [2, 4] if __import__("os").environ.get("VERIF_TIER") != "thorough" else [2, 6], fuzz=2)
def every_history(h, depth):
    """every history with up to `depth` locks held at a time, closed over the states of the node"""
    prime(h)
    todo, seen = [()], set()
    n = 0
    while todo:
        ops = todo.pop(0)
        n += 1
        h.check("there is an end to the states", n < 400)
        node, held, spec = play(h, ops)
        key = (repr(fingerprint(node)), repr([lockstate(x) for x in held]), spec)
        if key in seen:
            continue
        seen.add(key)
        todo.append(ops + ("update",))
        if spec[0] < depth:
            todo.append(ops + ("enter",))
        if spec[0]:
            for o in ("inner", "outer", "inner!", "outer!"):
                todo.append(ops + (o,))
    h.check("all of them were seen", len(seen) >= 2 * depth + 1)


@harness(params=["update", "locked update", "nested locks"], fuzz=4)
def updates_by_a_listener(h, how):
    """what is updated while an update is being signalled is signalled as well"""
    prime(h)
    node, rec = make(h)
    cc = node.supported[0x72]
    todo = [h.choice("times", [1, 2])]

    class Again:
        def nodeUpdated(self, n):
            if todo[0] == 0:
                return
            todo[0] -= 1
            k = len(rec.calls)
            if how == "update":
                node.commandClassUpdated(cc)
            elif how == "locked update":
                with node.storageLock():
                    node.commandClassUpdated(cc)
                    h.check("not inside the lock", len(rec.calls) == k)
            else:
                with node.storageLock():
                    with node.storageLock():
                        node.commandClassUpdated(cc)
                    h.check("not inside the lock", len(rec.calls) == k)
            h.check("signalled at once", len(rec.calls) > k)
    node.addListener(Again())
    want = 1 + todo[0]
    if h.flag("locked"):
        with node.storageLock():
            node.commandClassUpdated(cc)
            h.check("none inside", len(rec.calls) == 0)
    else:
        node.commandClassUpdated(cc)
    h.check("each one is signalled", len(rec.calls) == want, len(rec.calls))
    node.commandClassUpdated(cc)
    h.check("as before", len(rec.calls) == want + 1)
    with node.storageLock():
        node.commandClassUpdated(cc)
        h.check("none inside", len(rec.calls) == want + 1)
    h.check("once", len(rec.calls) == want + 2)


@harness(params=["statement", "raising", "nested"], fuzz=20)
def with_statement(h, how):
    """as applications use it, with values learnt by the command classes"""
    prime(h)
    node, rec = make(h)
    cc = node.supported[0x72]

    def updates(n):
        for i in range(n):
            node.commandClassUpdated(cc)
    before, inside, after = [h.choice(n, [0, 1, 2]) for n in ("before", "inside", "after")]
    updates(before)
    h.check("at once", len(rec.calls) == before)
    boom = None
    try:
        with node.storageLock():
            updates(inside)
            if how == "nested":
                with node.storageLock():
                    h.check("not while locked", len(rec.calls) == before)
            h.check("none inside", len(rec.calls) == before)
            if how == "raising":
                raise Boom()
    except Boom as e:
        boom = e
    h.check("the exception is passed on", (boom is not None) == (how == "raising"))
    h.check("once if there was any", len(rec.calls) == before + (1 if inside else 0))
    updates(after)
    h.check("at once again", len(rec.calls) == before + (1 if inside else 0) + after)
    h.check("with the node", h.all(*[c[1][0] is node for c in rec.calls]))


@harness(fuzz=20)
def reports(h):
    """reports of a node are stored at once outside and once inside a lock; the node is up to date then"""
    prime(h)
    node, rec = make(h)
    R = h.get("pyzwave.commandclass.ManufacturerSpecific:Report")
    node._adapter.result = R(manufacturerID=h.int("m", 0, 65535), productTypeID=h.int("t", 0, 65535), productID=h.int("p", 0, 65535))
    versions = {}
    for i in (0x72, 0x25):
        versions[i] = h.int("v%d" % i, 1, 255)
        node.supported[i].__setstate__({"version": versions[i]})
    seen = []

    class Store:
        def nodeUpdated(self, n):
            seen.append(n.supported[0x25].interviewed)
    node.addListener(Store())
    locked = h.flag("locked")

    async def go():
        node.sendAndReceive = answer
        if locked:
            with node.storageLock():
                await node.supported[0x72].interview()
                await node.supported[0x25].interview()
        else:
            await node.supported[0x72].interview()
            await node.supported[0x25].interview()

    async def answer(*a, **k):
        return node._adapter.result
    h.run(go())
    h.check("signalled", len(seen) >= 1 if not locked else len(seen) == 1)
    h.check("the last one has everything", seen[-1] is True)


@harness(params=["two"], fuzz=20)
def overlapping_tasks(h, _):
    """two tasks work on a node with a lock each, in every order"""
    prime(h)
    node, rec = make(h)
    gates = [h.loop.create_future() for _ in range(4)]
    updates = [h.flag("update%d" % i) for i in range(4)]
    inside = {"n": 0, "dirty": False}

    async def work(i):
        await gates[2 * i]
        with node.storageLock():
            inside["n"] += 1
            if updates[2 * i]:
                node.commandClassUpdated(node.supported[0x72])
                inside["dirty"] = True
            await gates[2 * i + 1]
            if updates[2 * i + 1]:
                node.commandClassUpdated(node.supported[0x72])
                inside["dirty"] = True
            inside["n"] -= 1
    for i in (0, 1):
        h.spawn(work(i))
    h.loop.settle()
    order = h.choice("order", [[0, 1, 2, 3], [0, 2, 1, 3], [0, 2, 3, 1], [2, 0, 1, 3], [2, 0, 3, 1], [2, 3, 0, 1]])
    want = 0
    for g in order:
        gates[g].set_result(None)
        h.loop.settle()
        if inside["n"] == 0 and inside["dirty"]:
            want += 1
            inside["dirty"] = False
        h.check("signalled once all are left, if there was any", len(rec.calls) == want)
