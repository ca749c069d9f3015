"""C12: applying a set of fixes is exact."""
import base64, collections
import gotest


def judge(r):
    """'' or what is wrong with one recorded application."""
    code, text = base64.b64decode(r["code"]), base64.b64decode(r["text"])
    un = r["un"]
    if len(set(un)) != len(un) or not set(un) <= set(range(len(r["in"]))):
        return "returned as not applied: %s" % un, 0, 0
    if not r["same"]:
        return "the caller's list changed, or passing the diagnostics by value gives another result", 0, 0
    order, conflicts = [], 0
    for i, fx in enumerate(r["in"]):
        if not fx and i not in un:
            return "diagnostic %d has no fix and is not returned" % i, 0, 0
        if fx:
            # a fix's own edits in text order; equal places as listed
            es = sorted(fx, key=lambda e: (e[0], e[1]))
            order.append((es[0][0], es[-1][1], i, es))
    order.sort(key=lambda o: o[:3])
    edits, end = [], 0
    want_un = {i for i, fx in enumerate(r["in"]) if not fx}
    for a, b, i, es in order:
        if end > a:
            want_un.add(i)
            conflicts += 1
            continue
        edits += es
        end = max(end, b)
    if set(un) != want_un:
        return "not applied: %s, want %s" % (sorted(un), sorted(want_un)), 0, 0
    out, last = [], 0
    for a, b, t in edits:
        out += [code[last:a], t.encode()]
        last = b
    out.append(code[last:])
    if b"".join(out) != text:
        return "wrong text %r, want %r" % (text, b"".join(out)), 0, 0
    if r["fixed"] != bool(edits):
        return "says %s about whether anything was applied" % r["fixed"], 0, 0
    return "", len(edits), conflicts


def run(c):
    c.rule = "one evaluation = one application of a generated list of fixes, replayed by an independent model; non-trivial = distinct ones with at least one applied edit"
    h = gotest.build_one("internal/linter", "fixer", "fixer_verif_test.go", "linter")
    hist = collections.Counter()
    for k in range(c.pick(6, 120)):
        for r in gotest.run(h, "TestVerifFixer", c.rng.randrange(1 << 40), 8000):
            c.evaluations += 1
            w, edits, conflicts = judge(r)
            if edits:
                c.saw(r["code"], repr(r["in"]))
                hist["edits %s" % min(edits, 50)] += 1
            hist["with conflicts"] += bool(conflicts)
            hist["with ties"] += len(set((f[0][0], f[-1][1]) for f in r["in"] if f)) < len([f for f in r["in"] if f])
            if w:
                c.violation(w, **{k: v for k, v in r.items()}, code_text=base64.b64decode(r["code"]).decode("utf-8", "replace"))
    c.cov["histogram"] = dict(sorted(hist.items()))
    c.need(hist["with conflicts"] > 1000 and hist["with ties"] > 1000, "too few conflicts or ties")
    c.assumptions = ["the edits of one diagnostic do not overlap (C09 checks that)", "of two fixes that overlap, the one that starts first wins, then the one that ends first, then the one listed first"]
