"""(command, bytes kept) for the cuts that fall inside a field, from the layout table."""
from layouts import LAYOUTS


def size(k):
    return 128 if k in ("ip", "dsk") else 0 if k == "tail" else int(k[1:])


def inner_cuts():
    out = []
    for _, name, fields in LAYOUTS:
        border, off = {0}, 0
        bits = 0
        for _, k in fields:
            bits += size(k)
            if bits % 8 == 0:
                border.add(bits // 8)
        best = [c for c in range(bits // 8) if c not in border]
        if best:
            # one cut in the middle of the first field that can be cut, and one in the last
            out += sorted({(name, best[0]), (name, best[-1])})
    return out
