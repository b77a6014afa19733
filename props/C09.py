"""C09: the sequence numbers of outstanding packets are distinct."""
import os

from hlib import connection, havoc_seq, zip_ack, Sent, outstanding_dict, zip_nack_waiting
from pyvc.api import harness

CC = "pyzwave.commandclass."
FUNCTIONS = ["pyzwave.zipconnection:ZIPConnection.send", "pyzwave.adapter:Adapter.waitForAck"]
ASSUMPTIONS = ["fewer than 256 commands are outstanding on one connection"]


def basic(h, v=1):
    return h.get(CC + "Basic:Set")(value=v)


@harness
def advances(h):
    """with nothing outstanding, numbers advance by one modulo 256"""
    c, tr = connection(h)
    havoc_seq(h, c)
    t = h.spawn(c.send(basic(h, 1)))
    tr.deliver(zip_ack(Sent(*tr.sent[0]).seq))
    h.loop.settle()
    h.spawn(c.send(basic(h, 2)))
    a, b = Sent(*tr.sent[0]).seq, Sent(*tr.sent[1]).seq
    h.check("the next number", b == (a + 1) % 256)


@harness(params=[1, 2, 3])
def distinct(h, k):
    """k packets with arbitrary numbers outstanding, then another one"""
    c, tr = connection(h)
    seqs = []
    for i in range(k):
        havoc_seq(h, c, "s%d" % i)
        h.spawn(c.send(basic(h, i)))
        seqs.append(Sent(*tr.sent[i]).seq)
    for i in range(k):
        for j in range(i):
            h.check("distinct", seqs[i] != seqs[j])
    # the packet after the last one: the next number not outstanding
    t = h.spawn(c.send(basic(h, 9)))
    new = Sent(*tr.sent[k]).seq
    h.check("distinct from all", h.no(h.any(*[new == s for s in seqs])))
    last = seqs[-1]
    dist = (new - last) % 256
    h.check("skips only numbers outstanding",
            h.all(*[h.implies(dist > j, h.any(*[(last + j) % 256 == s for s in seqs])) for j in range(1, k + 1)]))
    h.check("and no more of them than there are", h.all(dist >= 1, dist <= k + 1))
    tr.deliver(zip_ack(new))
    h.loop.settle()
    h.check("its own ack completes it", h.outcome(t) == ("ok", True))


def starts():
    # counter values from which every run of outstanding numbers is explored (all at the thorough tier);
    # None: an arbitrary counter with up to ten outstanding numbers in a row
    return [None] + (list(range(256)) if os.environ.get("VERIF_TIER") == "thorough" else [0, 1, 100, 254, 255])


@harness(params=starts, fuzz=4, time=120)
def any_set_outstanding(h, start):
    """whatever set of numbers is outstanding, the next packet takes the first one that is not"""
    c, tr = connection(h)
    havoc_seq(h, c, "before") if start is None else fix_seq(c, 77)
    h.spawn(c.send(basic(h)))
    first = Sent(*tr.sent[0]).seq
    d = outstanding_dict(h, c, first)
    if d is None:
        h.cover("no dictionary of outstanding numbers")
        return
    sample = d[first]
    present = [first]
    if start is None:
        start = h.int("start", 0, 255)
        limit = 10
    else:
        limit = 253
    if h.symbolic:
        def unknown(key):
            present.append(key)
            h.assume(len(present) <= limit + 1)
            return sample
        h.lazydict(d, unknown)
    else:
        run = h.choice("run", [0, 1, 5, 100, 254])
        for i in range(1, run + 1):
            present.append((start + i) % 256)
        for p in present:
            d[p] = sample
    fix_seq(c, start)
    t = h.spawn(c.send(basic(h)))
    h.check("it was sent and is waited for", h.all(len(tr.sent) == 2, h.outcome(t)[0] == "pending"))
    new = Sent(*tr.sent[1]).seq
    h.check("not outstanding", h.all(*[p != new for p in present]))
    dist = (new - start - 1) % 256
    if limit > 10:
        # nothing symbolic here
        h.check("every number skipped is outstanding", {(start + 1 + j) % 256 for j in range(dist)} <= set(present))
        return
    h.check("every number skipped is outstanding",
            h.all(*[h.implies(dist > j, h.any(*[p == (start + 1 + j) % 256 for p in present]))
                    for j in range(len(present) + 1)]))
    h.check("no more skipped than outstanding", dist <= len(present))


def fix_seq(c, v):
    for k in [k for k, x in vars(c).items() if "seq" in k.lower() and isinstance(x, int)]:
        setattr(c, k, v)


@harness(fuzz=2, kind="bounded",
         note="three hundred packets in a row")
def wraps(h):
    """three hundred packets in a row"""
    c, tr = connection(h)
    prev = None
    for i in range(300):
        t = h.spawn(c.send(basic(h)))
        s = Sent(*tr.sent[-1]).seq
        if prev is not None:
            h.check("advances", s == (prev + 1) % 256)
        prev = s
        tr.deliver(zip_ack(s))
        h.loop.settle()
        h.check("success", h.outcome(t) == ("ok", True))


@harness(fuzz=2, kind="bounded",
         note="512 packets while one is queued")
def long_outstanding(h):
    """one command stays queued while all other numbers are used, twice over"""
    c, tr = connection(h)
    t0 = h.spawn(c.send(basic(h)))
    s0 = Sent(*tr.sent[0]).seq
    tr.deliver(zip_nack_waiting(s0, 100000))
    h.loop.settle()
    for i in range(520):
        t = h.spawn(c.send(basic(h)))
        s = Sent(*tr.sent[-1]).seq
        h.check("never the queued number", s != s0)
        tr.deliver(zip_ack(s))
        h.loop.settle()
        h.check("success", h.outcome(t) == ("ok", True))
        h.check("the queued one is untouched", h.outcome(t0)[0] == "pending")
    tr.deliver(zip_ack(s0))
    h.loop.settle()
    h.check("until its own ack", h.outcome(t0) == ("ok", True))


@harness(fuzz=2, kind="bounded",
         note="255 packets outstanding, three orders of completion")
def many_outstanding(h):
    """255 packets outstanding at once, completed in any order"""
    c, tr = connection(h)
    tasks = [h.spawn(c.send(basic(h))) for _ in range(255)]
    seqs = [Sent(*x).seq for x in tr.sent]
    h.check("all different", len(set(seqs)) == 255)
    i = h.choice("which", [0, 1, 100, 254])
    tr.deliver(zip_ack(seqs[i]))
    h.loop.settle()
    h.check("exactly one done", [h.outcome(t)[0] for t in tasks].count("ok") == 1)
    h.check("the right one", h.outcome(tasks[i]) == ("ok", True))


@harness(params=[256, 255, 254, 200], fuzz=1, kind="bounded",
         note="256 packets outstanding")
def only_one_free(h, n):
    """all numbers but one, wherever it is, are taken: that one is used"""
    c, tr = connection(h)
    tasks = [h.spawn(c.send(basic(h))) for _ in range(n)]
    seqs = [Sent(*x).seq for x in tr.sent]
    h.check("all different", len(set(seqs)) == n)
    for i in [n - 1] if h.symbolic else [n - 1, 0, n // 2, n - 2]:
        tr.deliver(zip_ack(seqs[i]))
        h.loop.settle()
        h.check("acknowledged", h.outcome(tasks[i]) == ("ok", True))
        # as many as there is room for
        while len(set(seqs)) < 256:
            tasks.append(h.spawn(c.send(basic(h))))
            seqs.append(Sent(*tr.sent[-1]).seq)
            h.check("its own number", len(set(seqs)) == len(seqs))
        t = h.spawn(c.send(basic(h)))
        h.check("the free number", Sent(*tr.sent[-1]).seq == seqs[i])
        tasks[i] = t
        h.check("the others are untouched", [h.outcome(x)[0] for x in tasks].count("pending") == len(tasks))
