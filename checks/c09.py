"""C09: every reported range and edit lies inside its file."""
import collections, json
import batch, build, corpus, hostile, tsgo, work


def text_of(path):
    b = open(path, "rb").read()
    return b[3:] if b.startswith(b"\xef\xbb\xbf") else b


def at_boundary(b, i):
    return i == len(b) or b[i] & 0xC0 != 0x80


def fault(d, text):
    """What is wrong with the positions of one diagnostic, '' if nothing."""
    valid = True
    try:
        text.decode("utf-8")
    except UnicodeDecodeError:
        valid = False

    def bad(r, what):
        if not 0 <= r["pos"] <= r["end"] <= len(text):
            return "%s [%d,%d) is not inside the file of %d bytes" % (what, r["pos"], r["end"], len(text))
        if valid and not (at_boundary(text, r["pos"]) and at_boundary(text, r["end"])):
            return "%s [%d,%d) splits a character" % (what, r["pos"], r["end"])
        return ""
    out = []
    if "range" in d:
        out.append(bad(d["range"], "range"))
    for l in d.get("labeled_ranges", []):
        out.append(bad(l["range"], "label"))
    for what, fx in [("fix", d.get("fixes") or [])] + [("suggestion " + s["message"]["id"], s["fixes"]) for s in d.get("suggestions") or []]:
        out += [bad(f["range"], what) for f in fx]
        sp = sorted((f["range"]["pos"], f["range"]["end"]) for f in fx)
        for (a, b), (x, y) in zip(sp, sp[1:]):
            if x < b:
                out.append("%s has overlapping edits [%d,%d) [%d,%d)" % (what, a, b, x, y))
    if d["kind"] == 0 and not (d["rule"] and d["message"]["id"] and d["message"]["description"].strip()):
        out.append("empty rule name, message id or description")
    return "; ".join(filter(None, out))


def run(c):
    b = build.binary()
    c.rule = ("one evaluation = one diagnostic whose range, labels, fixes and suggestions were checked against the bytes of its file; "
              "non-trivial = a distinct (text variant, rule or TS code, message, kind of position)")
    n = c.pick(9000, 120000)
    pool = work.take(c.rng, ["rules", "mut", "conf"], c.pick(6000, 25000)) + work.take(c.rng, ["confx", "mutx", "cmut"], c.pick(3000, 60000))
    pool = [x for x in pool if len(x["files"]) == 1]
    cases = []
    for i in range(n):
        x = pool[i % len(pool)]
        t, names = list(x["files"].values())[0], []
        for f in c.rng.sample(hostile.ALL, c.rng.choice([0, 1, 1, 2, 3])):
            t, names = f(t, c.rng), names + [f.__name__]
        if c.rng.random() < .1:
            t, names = hostile.splice(t, c.rng, list(c.rng.choice(pool)["files"].values())[0]), names + ["splice"]
        cases.append(dict(x, id="n%d" % i, files={x["main"]: t}, variant="+".join(sorted(names)) or "as is"))
    for k in (3, 40):
        for nm, t in hostile.deep(k):
            for ext in ("ts", "tsx", "js"):
                cases.append(dict(id="d%d" % len(cases), files={"main." + ext: t}, main="main." + ext, ts="tsconfig.json", opts={"allowJs": True, "noEmit": True, "checkJs": k == 40}, variant="deep " + nm))
    for i, x in enumerate(c.rng.sample(pool, c.pick(600, 6000))):
        # the same text as JavaScript, where types come from JSDoc
        m = "main." + c.rng.choice(["js", "jsx", "mjs", "cjs"])
        t = list(x["files"].values())[0]
        if c.rng.random() < .5:
            t = "".join("/** @type {%s} */ (%s)" % (c.rng.choice(["string", "any", "{a: number}", "Promise<void>", "import('./x').y", "number|undefined", "("]), w) if c.rng.random() < .15 and w.isidentifier() and w not in hostile.KEEP else w for w in hostile.re.split(r"(\w+)", t))
        if c.rng.random() < .3:
            t = t.replace("function ", "/** @param {string} a\n * @returns {Promise<any>} @template T @deprecated é */\nfunction ")
        cases.append(dict(id="j%d" % i, files={m: t}, main=m, ts=x["ts"], opts={"allowJs": True, "noEmit": True, "checkJs": i % 2 == 0}, variant="javascript"))
    # bytes that are not UTF-8
    for i in range(c.pick(300, 3000)):
        x = c.rng.choice(pool)
        t = list(x["files"].values())[0].encode("utf-8", "surrogateescape")
        p = c.rng.randrange(len(t) + 1)
        t = t[:p] + c.rng.choice([b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f", b"\x80\x80"]) + t[p:]
        cases.append(dict(x, id="u%d" % i, files={x["main"]: t.decode("utf-8", "surrogateescape")}, variant="not utf-8"))
    kinds = collections.Counter()
    for i in range(0, len(cases), 12000):
        part = cases[i:i + 12000]
        with batch.Area("c09") as root:
            mains = corpus.layout(root, part)
            byid = {x["id"]: x for x in part}
            res, bad, stray = batch.lint(b, root, [(x["id"], mains[x["id"]], work.ALL) for x in part], report_syntactic=True, report_semantic=True)
            for js, r in bad:
                c.count("programs_lost_to_a_crash", len(js))
            texts = {}
            for ds in list(res.values()) + [stray]:
                for d in ds:
                    p = d.get("file_path")
                    if p is None or ("range" not in d and d["kind"]):
                        continue
                    try:
                        if p not in texts:
                            texts[p] = text_of(p)
                    except OSError:
                        c.violation("a diagnostic names a file that does not exist: %r" % p, diag=d)
                        continue
                    c.evaluations += 1
                    x = byid.get(batch.case_of(root, p) or "", {})
                    for what in ["range"] + ["fix"] * bool(d.get("fixes")) + ["suggestion"] * bool(d.get("suggestions")) + ["label"] * bool(d.get("labeled_ranges")):
                        kinds[what] += 1
                        c.saw(x.get("variant"), d.get("rule"), d["message"]["id"], what)
                    w = fault(d, texts[p])
                    if w:
                        c.violation("%s (%s): %s" % (d.get("rule") or d["message"]["id"], x.get("variant"), w), ident=dict(rule=d.get("rule"), what=w.split(" ")[0]), program=x, diag=d)
    c.cov["positions_checked"] = dict(kinds)
    c.cov["texts"] = len(cases)
    c.need(kinds["range"] > 10000 and kinds["fix"] > 500 and kinds["suggestion"] > 500, "too few positions")
    c.need(c.cov.get("programs_lost_to_a_crash", 0) < len(cases) // 10, "too many programs without a result")
    c.assumptions = ["positions count bytes of the text after the byte-order mark that the file reader strips", "character boundaries are only defined, and checked, for valid UTF-8"]
