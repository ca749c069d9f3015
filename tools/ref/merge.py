"""Merges the reference's verdicts with the linter's into the committed tables: merge.py REFDIR CORPUS...

Per (program, rule): the diagnostics that must be reported and, where the two implementations disagree on this tree, the
further ones that may be (the recorded differences).  A diagnostic both report is stored with the linter's own range (the
reference often underlines a different part of the same construct).  The same for the texts that fixes and suggestions
produce.  Nothing in the tables comes from the linter alone except as "may"."""
import collections, gzip, json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "lib"))
import corpus

IDS = {"errorCall": "unsafeCall", "errorNew": "unsafeNew", "errorTemplateTag": "unsafeTemplateTag", "errorMemberExpression": "unsafeMemberExpression", "errorComputedMemberAccess": "unsafeComputedMemberAccess", "missingReturn": "missingReturnValue"}
NORM = {"no-unsafe-call", "no-unsafe-member-access", "consistent-return"}


from edits import apply, h

TEXT = {}    # hash -> edited text, of the pairs that differ as text
DIGEST = {}  # hash -> digest of the syntax tree


def keep(kind, name, t):
    k = kind + h(t)
    TEXT[k] = (name, t)
    return k


def digests(keys):
    keys = [k for k in keys if k not in DIGEST]
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/in", "w") as f:
            for k in keys:
                n, t = TEXT[k]
                f.write(json.dumps({"n": n, "t": t.decode("utf-8", "replace")}) + "\n")
        subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "ast.mjs"), d + "/in", d + "/out"], check=True)
        with open(d + "/out") as f:
            for k, l in zip(keys, f.read().split("\n")):
                DIGEST[k] = l


def pair(x, y):
    """Counters of the reference's and the linter's results -> (agreed, differing).  Where the two write the same program
    with other redundant parentheses, the linter's spelling is the one recorded."""
    same = x & y
    a, b = sorted((x - same).elements()), sorted((y - same).elements())
    for k in list(a):
        m = next((j for j in b if DIGEST.get(k) and DIGEST.get(j) == DIGEST[k] and k[0] == j[0]), None)
        m = m or next((j for j in b if DIGEST.get(k) and DIGEST.get(j) == DIGEST[k]), None)
        if m:
            a.remove(k)
            b.remove(m)
            same[m] += 1
    return sorted(same.elements()), a, b


def go_edits(d, src, name):
    r = []
    ed = lambda fx: apply(src, [(x["range"]["pos"], x["range"]["end"], x["text"]) for x in fx])
    if d.get("fixes"):
        t = ed(d["fixes"])
        if t is not None:
            r.append(keep("f", name, t))
    for s in d.get("suggestions") or []:
        t = ed(s["fixes"])
        if t is not None:
            r.append(keep("s", name, t))
    return r


def es_edits(d, src, name):
    r = []
    if d.get("f"):
        r.append(keep("f", name, apply(src, [tuple(d["f"])])))
    for s in d.get("s") or []:
        r.append(keep("s", name, apply(src, [tuple(s[1:])])))
    return r


def overlap(a, b):
    return a[0] <= b[1] and b[0] <= a[1]


def gap(a, b):
    return max(0, a[0] - b[1], b[0] - a[1])


def entry(rule, es, gs, src, stat):
    """es: [(id, start, end)], gs likewise.  A report of the reference is matched with one of the linter: at the same
    place, at an overlapping one, at a near one (the two underline different parts of one construct), then the same with
    another message id (ids renamed or split between versions of the rules)."""
    E, G = sorted(es, key=lambda x: (x[1], x[2], x[0])), sorted(gs, key=lambda x: (x[1], x[2], x[0]))
    must = []
    tests = [("same place", lambda x, y: x == y), ("overlapping place", lambda x, y: x[0] == y[0] and overlap(x[1:], y[1:])),
             ("near place", lambda x, y: x[0] == y[0] and gap(x[1:], y[1:]) <= 60 and b"\n" not in src[min(x[2], y[2]):max(x[1], y[1])]),
             ("other id", lambda x, y: overlap(x[1:], y[1:]))]
    for what, ok in tests:
        left = []
        for x in E:
            c = [y for y in G if ok(x, y)]
            if c:
                y = min(c, key=lambda y: (gap(x[1:], y[1:]), abs(x[1] - y[1]) + abs(x[2] - y[2])))
                G.remove(y)
                must.append(y)
                stat[what] += 1
            else:
                left.append(x)
        E = left
    stat["only reference"] += len(E)
    stat["only linter"] += len(G)
    return sorted(must), sorted(E) + sorted(G)


APART = collections.defaultdict(list)
LEFT = collections.defaultdict(list)
# programs on which a rule's result depends on which other rules run (recorded with C03): not compared
ORDER = json.load(open(os.path.join(corpus.HERE, "corpus", "orderdep.json")))


def main():
    ref = sys.argv[1]
    total = collections.defaultdict(collections.Counter)
    edits = collections.defaultdict(collections.Counter)
    for name in sys.argv[2:]:
        cases = {c["id"]: c for c in corpus.load(name)}
        g = json.load(open("%s/go-%s.json" % (ref, name)))
        es = {}
        for l in open("%s/es-%s.jsonl" % (ref, name)):
            d = json.loads(l)
            es[d["id"]] = d
        rows, todo, differ = [], [], set()
        for cid, c in cases.items():
            e = es.get(cid)
            if not e or e.get("err") or g["all"].get(cid) is None:
                continue
            src = c["files"][c["main"]].encode("utf-8", "surrogateescape")
            if src.startswith(b"\xef\xbb\xbf"):
                src = src[3:]
            row = dict(id=cid)
            for part in ("all", "own"):
                if part == "own" and (not c.get("own") or len(c["own"]) < 2 or g["own"].get(cid) is None):
                    continue
                if part == "all" and c.get("ownOnly"):
                    continue
                skip = set(e.get(part + "Err") or [])
                if part == "all":
                    skip |= set(ORDER.get(name, {}).get(cid, ()))
                per = {}
                A, B = collections.defaultdict(list), collections.defaultdict(list)
                EA, EB = collections.defaultdict(list), collections.defaultdict(list)
                for d in e.get(part) or []:
                    i = d.get("id") or "?"
                    if d["r"] in NORM:
                        i = IDS.get(i, i)
                    A[d["r"]].append((i, d["p"], d["e"] if d["e"] is not None else d["p"]))
                    EA[d["r"]] += es_edits(d, src, c['main'])
                for d in g[part][cid]:
                    if d["kind"] == 0:
                        B[d["rule"]].append((d["message"]["id"], d["range"]["pos"], d["range"]["end"]))
                        EB[d["rule"]] += go_edits(d, src, c['main'])
                todo.append((row, part, per, skip, A, B, EA, EB, src))
                for r in set(EA) | set(EB):
                    x, y = collections.Counter(EA[r]), collections.Counter(EB[r])
                    if (x - y) and (y - x):
                        differ |= set(x - y) | set(y - x)
                if skip:
                    row["skip" + part] = sorted(skip)
                row[part] = per
            rows.append(row)
        digests(sorted(differ))
        for row, part, per, skip, A, B, EA, EB, src in todo:
            for r in sorted((set(A) | set(B)) - skip):
                must, may = entry(r, A[r], B[r], src, total[r])
                for y in may:
                    APART[r].append((name, row["id"], part, "reference" if y in A[r] else "linter", y[0], src[y[1]:y[2]], src[src.rfind(b"\n", 0, y[1]) + 1:].split(b"\n")[0]))
                fm, ea, eb = pair(collections.Counter(EA[r]), collections.Counter(EB[r]))
                edits[r]["same"] += len(fm)
                edits[r]["only reference"] += len(ea)
                edits[r]["only linter"] += len(eb)
                fy = sorted(ea + eb)
                for k in ea + eb:
                    LEFT[r].append((name, row["id"], "reference" if k in ea else "linter", TEXT[k]))
                v = [must, fm]
                if may or fy:
                    v += [may, fy]
                per[r] = v
        p = os.path.join(corpus.HERE, "corpus", "expect-%s.jsonl.gz" % name)
        with open(p, "wb") as raw, gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as f:
            for r in rows:
                f.write((json.dumps(r, ensure_ascii=False, separators=(",", ":"), sort_keys=True) + "\n").encode())
        print(name, len(cases), "cases", len(rows), "with reference", os.path.getsize(p))
    for r in sorted(total):
        print(r, dict(total[r]), "edits", dict(edits[r]))

    if os.environ.get("LEFT"):
        with open(os.environ["LEFT"], "w") as f:
            for r in sorted(LEFT):
                for n, i, who, (fn, t) in LEFT[r]:
                    f.write("=== %s %s %s %s\n%s\n" % (r, n, i, who, t.decode("utf-8", "replace")))
    if os.environ.get("APART"):
        with open(os.environ["APART"], "w") as f:
            for r in sorted(APART):
                for n, i, part, who, mid, what, line in APART[r]:
                    f.write("%s %s %s %s %s %s | %s | %s\n" % (r, n, i, part, who, mid, what.decode("utf-8", "replace").replace("\n", "\\n")[:80], line.decode("utf-8", "replace")[:160]))


main()
