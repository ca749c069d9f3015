"""Applying edits, shared by the table generator and the checks."""
import hashlib


def h(b):
    # white space is layout: the two implementations place it differently
    return hashlib.blake2b(b"".join(b.split()), digest_size=5).hexdigest()


def apply(src, edits):
    edits = sorted(edits, key=lambda x: x[:2])
    out, at = b"", 0
    for s, e, t in edits:
        if s < at:
            return None
        out += src[at:s] + t.encode("utf-8", "surrogatepass")
        at = e
    return out + src[at:]


def greedy(src, diags):
    """Applies whole fixes in order of position, leaving out those that touch an applied one: (text or None, rules applied)."""
    ds = sorted(diags, key=lambda d: (min(f["range"]["pos"] for f in d["fixes"]), max(f["range"]["end"] for f in d["fixes"]), d["rule"]))
    taken, rules, last = [], [], -1
    for d in ds:
        fx = sorted(((f["range"]["pos"], f["range"]["end"], f["text"]) for f in d["fixes"]), key=lambda x: x[:2])
        if fx[0][0] <= last:
            continue
        taken += fx
        last = max(f[1] for f in fx)
        rules.append(d["rule"])
    return (apply(src, taken), rules) if taken else (None, [])
