"""Building wire bytes from the golden layout table (shared by C04, C05, C06)."""
from layouts import LAYOUTS, RECEIVE_ONLY

CC = "pyzwave.commandclass."

BY_NAME = {n: (hid, fields) for hid, n, fields in LAYOUTS}


def prime(h):
    h.mod("pyzwave.adapter")


def cls_of(h, name):
    mod, _, c = name.partition(".")
    return h.get(CC + mod + ":" + c)


def values(h, fields):
    """an arbitrary value for every field: name -> value; for reserved fields, the wire value"""
    out = []
    for i, (n, k) in enumerate(fields):
        if k[0] == "b" or k[0] == "r":
            w = int(k[1:])
            v = h.int("%s%d" % (n if n[0] not in "-_" else "res", i), 0, (1 << w) - 1)
        elif k[0] == "u":
            v = h.int(n, 0, (1 << int(k[1:])) - 1)
        elif k == "ip" or k == "dsk":
            v = h.bytes(n, 16)
        elif k == "tail":
            v = h.anybytes(n)
        out.append(v)
    return out


def wire(h, hid, fields, vals, reserved):
    """the bytes of the protocol, written from the layout table"""
    out = bytes([hid >> 8, hid & 0xFF])
    acc, bits = 0, 0
    for (n, k), v in zip(fields, vals):
        if k[0] in "br":
            w = int(k[1:])
            acc = acc * (1 << w) + (v if k[0] == "b" or reserved else 0)
            bits += w
            if bits == 8:
                out = out + bytes([acc])
                acc, bits = 0, 0
            continue
        assert bits == 0, (hid, n)
        if k[0] == "u":
            w = int(k[1:]) // 8
            out = out + bytes([(v >> (8 * (w - 1 - j))) & 0xFF for j in range(w)])
        else:
            out = out + v
    assert bits == 0, hid
    return out


def check_fields(h, msg, fields, vals, got=lambda m, n: getattr(m, n)):
    for (n, k), v in zip(fields, vals):
        if k[0] == "r":
            continue
        x = got(msg, n)
        if k == "ip":
            h.check("%s decoded" % n, x.packed == v)
        elif k == "dsk":
            w = h.get("pyzwave.types:BitStreamWriter")()
            x.serialize(w)
            h.check("%s decoded" % n, bytes(w) == v)
        else:
            h.check("%s decoded" % n, x == v)
