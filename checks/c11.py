"""C11: fixes and suggestions produce valid code and settle."""
import collections, json, os, subprocess, sys
import batch, build, corpus, edits, tsgo, verdicts, work

MAXPASS = 10


def run(c):
    b = build.binary()
    c.rule = ("one evaluation = one fix or suggestion applied and parsed, or one program fixed until nothing is left; non-trivial = a distinct edited program "
              "(rule, message, resulting text), parsed and compared with the reference's edit, or a program that settled after at least one edit")
    plan = [("rules", None), ("conf", c.pick(1200, None)), ("mut", c.pick(2500, None)), ("confx", c.pick(1200, None)), ("mutx", c.pick(3000, None)), ("cmut", c.pick(1200, None)), ("tab", None)]
    agreed, kinds = collections.Counter(), collections.Counter()
    settle = []
    for name, n in plan:
        exp = verdicts.expected(name)
        cases = corpus.load(name)
        if n and n < len(cases):
            rich = [x for x in cases if any(v[1] for v in exp.get(x["id"], {}).get("all", {}).values())]
            cases = c.rng.sample(rich, min(n, len(rich)))
        with batch.Area("c11") as root:
            mains = corpus.layout(root, cases)
            todo = []
            for part in ("all", "own"):
                sel = [x for x in cases if part == "all" or (x.get("own") and len(x["own"]) > 1)]
                res, bad, stray = batch.lint(b, root, [(x["id"], mains[x["id"]], work.ALL if part == "all" else [tuple(x["own"])]) for x in sel])
                lost = set(j[0] for js, _ in bad for j in js)
                for x in sel:
                    if x["id"] in lost:
                        continue   # a crash is C13's verdict
                    src = x["files"][x["main"]].encode("utf-8", "surrogateescape")
                    if src.startswith(b"\xef\xbb\xbf"):
                        src = src[3:]
                    got, marks, texts = collections.defaultdict(list), [], []
                    for d in res[x["id"]]:
                        if d["kind"]:
                            continue
                        for kind, mid, fx in [("f", d["message"]["id"], d.get("fixes"))] + [("s", s["message"]["id"], s["fixes"]) for s in d.get("suggestions") or []]:
                            if not fx:
                                continue
                            t = edits.apply(src, [(f["range"]["pos"], f["range"]["end"], f["text"]) for f in fx])
                            if t is None:
                                c.violation("%s on %s: the edits of one %s overlap" % (d["rule"], x["id"], mid), program=x, diag=d)
                                continue
                            got[d["rule"]].append(kind + edits.h(t))
                            marks.append((d["rule"], kind, mid, edits.h(t)))
                            texts.append(t.decode("utf-8", "replace"))
                            kinds[d["rule"], kind] += 1
                    e = exp.get(x["id"], {}).get(part)
                    skip = exp.get(x["id"], {}).get("skip" + part, ())
                    if e is not None:
                        for r in tsgo.RULES if part == "all" else [x["own"][0]]:
                            if r in skip:
                                continue
                            v = e.get(r) or [[], []]
                            m, y, g = (collections.Counter(l) for l in (v[1], v[3] if len(v) > 3 else [], got.get(r, [])))
                            if not m and not g:
                                continue
                            agreed[r] += sum((m & g).values())
                            if m - g or g - m - y:
                                c.violation("%s on %s%s: its edits are not the reference's: %d missing, %d others" % (r, x["id"], " with its options" if part == "own" else "", sum((m - g).values()), sum((g - m - y).values())),
                                            ident=dict(kind="edit", rule=r, case=x["id"]), program=x, edited=[t for t, k in zip(texts, marks) if k[0] == r and k[1] + k[3] not in m])
                    if texts:
                        todo.append((x, marks, src.decode("utf-8", "replace"), texts))
                    if part == "all" and any(d.get("fixes") for d in res[x["id"]] if not d["kind"]) and not x.get("links"):
                        settle.append((name, x))
            with open(root + "/in", "w", encoding="utf-8", errors="replace") as f:
                for x, marks, src, texts in todo:
                    f.write(json.dumps(dict(id=x["id"], n=x["main"], t=src, e=texts)) + "\n")
            r = subprocess.run(["node", corpus.HERE + "/lib/parse.mjs", root + "/in", root + "/out"], capture_output=True, text=True)
            c.need(r.returncode == 0, "parser failed: " + r.stderr[-500:])
            for (x, marks, src, texts), l in zip(todo, open(root + "/out")):
                o = json.loads(l)
                assert o["id"] == x["id"]
                c.evaluations += len(texts)
                if o["n"]:
                    c.count("edits_of_programs_that_do_not_parse", len(texts))
                    continue
                for k, t, faults in zip(marks, texts, o["e"]):
                    c.saw(name, x["id"], k)
                    c.count("edited_programs_parsed")
                    if faults:
                        c.violation("%s on %s: applying %s %s makes a syntax error" % (k[0], x["id"], "the fix of" if k[1] == "f" else "suggestion", k[2]),
                                    ident=dict(kind="syntax", rule=k[0], case=x["id"]), program=x, edited=t)
    c.cov["edits_equal_to_the_reference_per_rule"] = dict(sorted(agreed.items()))
    c.need(len([r for r in agreed if agreed[r] >= 20]) >= 24, "too few rules' edits were compared")

    # settling: every pass applies a greedy conflict-free selection of whole fixes
    settle = c.rng.sample(settle, min(len(settle), c.pick(3000, 25000)))
    passes = collections.Counter()
    with batch.Area("c11s") as root:
        cur = [dict(x, id="%s-%d" % (nm, i)) for i, (nm, x) in enumerate(settle)]
        orig = {x["id"]: (nm, y) for x, (nm, y) in zip(cur, settle)}
        history = collections.defaultdict(list)
        for p in range(MAXPASS + 1):
            mains = corpus.layout(root, cur)
            res, bad, stray = batch.lint(b, root, [(x["id"], mains[x["id"]], work.ALL) for x in cur], flags=("-fix",))
            lost = set(j[0] for js, _ in bad for j in js)
            nxt = []
            for x in cur:
                if x["id"] in lost:
                    c.count("programs_lost_to_a_crash")
                    continue
                src = x["files"][x["main"]].encode("utf-8", "surrogateescape")
                src = src[3:] if src.startswith(b"\xef\xbb\xbf") else src
                t, which = edits.greedy(src, [d for d in res[x["id"]] if d.get("fixes")])
                if t is None:
                    passes[p] += 1
                    c.evaluations += 1
                    if p:
                        c.saw("settled", orig[x["id"]][0], orig[x["id"]][1]["id"])
                    continue
                history[x["id"]].append((which, t.decode("utf-8", "replace")))
                if p == MAXPASS:
                    nm, o = orig[x["id"]]
                    c.evaluations += 1
                    c.violation("%s is still being fixed after %d passes, by %s" % (o["id"], MAXPASS, which), ident=dict(kind="settle", case=o["id"]), program=o, passes=history[x["id"]][-4:])
                    continue
                nxt.append(dict(x, files=dict(x["files"], **{x["main"]: t.decode("utf-8", "surrogateescape")})))
            cur = nxt
    c.cov["passes_until_settled"] = {str(k): v for k, v in sorted(passes.items())}
    c.need(sum(passes.values()) > 500, "too few programs were fixed to the end")
    c.assumptions = ["TypeScript 5.9's parser decides whether an edited program parses", "typescript-eslint's edit is right, up to white space and redundant parentheses, except where the two are recorded to differ",
                     "programs that did not parse before the edit are only compared with the reference"]
