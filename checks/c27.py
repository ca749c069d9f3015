"""C27: verdicts move with the code."""
import collections, json
import batch, build, corpus, tsgo, verdicts, work

BEFORE = {
    "line comment": "// note é 日本 😀\n", "block comment": "/* a\n b é */", "jsdoc": "/** Something. */\n\n", "blank lines": "\n\n \t\n", "spaces": "    ",
    "many comments": "// a\n/* b */ // c\n\n/* d */\n", "byte-order mark": "\ufeff", "type": "type Zq9Before<T> = T | 1;\n", "interface": "interface Zq9BeforeI { a: string }\n",
    "declaration": "declare const zq9Before: number;\n", "function": "function zq9Before(a: number) { return a; }\n", "mark and comment": "\ufeff// é\n", "commented-out code": "// foo!.bar; await 1;\n/* x as any */ ",
}
AFTER = {
    "line comment": "\n// note é", "block comment": " /* a\n b */", "blank lines": "\n\n\n", "type": "\ntype Zq9After = 1;", "declaration": "\ndeclare const zq9After: string;\n",
    "function": "\nfunction zq9After(): number { return 1; }", "many": "\n/* a */ // b\n\n// c\n", "spaces": "   \t ",
}


def shift(d, f):
    """The diagnostic with every position mapped by f and line endings in texts unified."""
    d = json.loads(json.dumps(d))
    rs = [d["range"]] + [l["range"] for l in d.get("labeled_ranges", [])]
    for fx in [d.get("fixes") or []] + [s["fixes"] for s in d.get("suggestions") or []]:
        rs += [x["range"] for x in fx]
        for x in fx:
            x["text"] = x["text"].replace("\r\n", "\n")
    for r in rs:
        if r is not d["range"] or r["pos"] or r["end"]:        # an empty range at the start stands for the whole file
            r["pos"], r["end"] = f(r["pos"]), f(r["end"])
    d.pop("file_path")
    return json.dumps(d, sort_keys=True).replace("\\r\\n", "\\n")


def run(c):
    b = build.binary()
    c.rule = ("one evaluation = one transformed program compared with its original after mapping the positions; non-trivial = a distinct (program, transformation) "
              "where at least one diagnostic moved or stayed")
    pool = []
    for name, n in (("rules", c.pick(1600, 10 ** 6)), ("conf", c.pick(300, 10 ** 6)), ("mut", c.pick(900, 10 ** 6)), ("confx", c.pick(300, 10 ** 6)), ("mutx", c.pick(600, 10 ** 6))):
        exp = verdicts.expected(name)

        def fit(x):
            t = x["files"][x["main"]]
            return len(x["files"]) == 1 and not x.get("links") and x["id"] in exp and exp[x["id"]].get("all") and "\r" not in t and "\u2028" not in t and "\u2029" not in t \
                and not any(m in t for m in ("@ts-", "///", "#!", "use strict", "\ufeff", "@jsx", "zq9", "Zq9")) and len(t) < 20000
        ok = [x for x in corpus.load(name) if fit(x)]
        pool += [dict(x, id="%s-%s" % (name, x["id"])) for x in c.rng.sample(ok, min(n, len(ok)))]
    kinds = collections.Counter()
    for at in range(0, len(pool), 2500):
        part = pool[at:at + 2500]
        cases, maps = [], {}
        for x in part:
            t = x["files"][x["main"]]
            cases.append(x)
            todo = [("before " + k, v + t) for k, v in c.rng.sample(sorted(BEFORE.items()), c.pick(3, 5))]
            todo += [("after " + k, t + v) for k, v in c.rng.sample(sorted(AFTER.items()), c.pick(1, 3))]
            todo += [("crlf", t.replace("\n", "\r\n"))] if "\n" in t else []
            todo += [("other file", t)] if c.rng.random() < .3 else []
            for k, v in todo:
                i = "%s.%d" % (x["id"], len(maps))
                files = {x["main"]: v}
                if k == "other file":
                    files["zq9other.ts"] = "export const zq9 = async () => { await 1; };\nexport interface Zq9 { a: any }\n"
                cases.append(dict(x, id=i, files=files))
                maps[i] = (x, k, v)
        with batch.Area("c27") as root:
            mains = corpus.layout(root, cases)
            res, bad, stray = batch.lint(b, root, [(y["id"], mains[y["id"]], [tuple(y["own"])] if y.get("own") and len(y["own"]) > 1 and y["id"].split(".")[0][-1] in "02468" else work.ALL) for y in cases])
            lost = set(j[0] for js, _ in bad for j in js)
            c.count("programs_lost_to_a_crash", len(lost))
            for i, (x, k, v) in maps.items():
                if i in lost or x["id"] in lost:
                    continue
                t = x["files"][x["main"]]
                if k.startswith("before "):
                    n = len(BEFORE[k[7:]].replace("\ufeff", "").encode())
                    f = lambda p: p + n
                elif k == "crlf":
                    tb, acc, tab = t.encode("utf-8", "surrogateescape"), 0, []
                    for ch in tb:
                        tab.append(acc + len(tab))
                        acc += ch == 10
                    tab.append(acc + len(tab))
                    f = lambda p: tab[p]
                else:
                    f = lambda p: p
                want = collections.Counter(shift(d, f) for d in res[x["id"]])
                got = collections.Counter(shift(d, lambda p: p) for d in res[i])
                c.evaluations += 1
                kinds[k] += 1
                if want:
                    c.saw(x["id"], k)
                if want != got:
                    c.violation("%s, %s: %s" % (x["id"], k, work.diff(want, got)[:900]), ident=dict(case=x["id"], how=k), program=x, transformed=v)
    c.cov["transformations"] = dict(sorted(kinds.items()))
    c.need(len(kinds) >= 18 and c.evaluations > 5000, "too few transformations")
    c.assumptions = ["the inserted declarations use names no program of the corpora uses", "programs with directives whose meaning depends on their place (hashbang, @ts- comments, references, prologues) are left out"]
