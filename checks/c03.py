"""C03: every file gets exactly its own rules and options."""
import collections, json, os
import batch, build, corpus, tsgo, work

FLAGS = ("-fix", "-fix-suggestions")


def order_dependence(c, b, odd):
    """The recorded programs on which rules are known to influence each other: alone against together."""
    for name, sel in sorted(odd.items()):
        cases = [x for x in corpus.load(name) if x["id"] in sel]
        with batch.Area("c03o") as root:
            mains = corpus.layout(root, cases)
            together, bad, _ = batch.lint(b, root, [(x["id"], mains[x["id"]], [(r,) for r in tsgo.RULES]) for x in cases], procs=1)
            for r in sorted({r for rs in sel.values() for r in rs}):
                mine = [x for x in cases if r in sel[x["id"]]]
                alone, bad2, _ = batch.lint(b, root, [(x["id"], mains[x["id"]], [(r,)]) for x in mine], procs=1)
                if bad or bad2:
                    c.violation("%s: %s" % (name, (bad + bad2)[0][1].why()))
                    return
                for x in mine:
                    c.evaluations += 1
                    w = work.diff(work.view(alone[x["id"]]), work.view([d for d in together[x["id"]] if d.get("rule") == r]))
                    if w:
                        c.violation("%s reports on %s alone something else than with all rules: %s" % (r, x["id"], w), ident=dict(kind="order", case=x["id"], rule=r), program=x)


def run(c):
    b = build.binary()
    nfiles = c.pick(160, 700)
    rounds = c.pick(14, 120)
    c.rule = ("the union of one-rule runs (every rule alone, with every option value drawn) predicts each mixed run; one evaluation = one run compared; "
              "non-trivial = a (file, rule, options) triple whose predicted result is not empty, checked inside a mixed run")
    options = collections.defaultdict(list)
    for x in corpus.load("rules"):
        if len(x["own"]) > 1 and x["own"][1] not in options[x["own"][0]]:
            options[x["own"][0]].append(x["own"][1])
    odd = json.load(open(os.path.join(corpus.HERE, "corpus", "orderdep.json")))
    order_dependence(c, b, odd)
    with batch.Area("c03") as root:
        # every rule's own material is present, together with the options its cases use
        pool = [x for x in corpus.load("rules") if len(x["files"]) == 1 and x["id"] not in odd["rules"]]
        byrule = collections.defaultdict(list)
        for x in pool:
            byrule[x["own"][0]].append(x)
        picks = [x for r in tsgo.RULES for x in c.rng.sample(byrule[r], min(2, len(byrule[r])))]
        picks += c.rng.sample(pool, nfiles - 59)
        c.rng.shuffle(picks)
        projects = []
        per = 20
        variants = collections.defaultdict(list)
        for i in range(0, len(picks), per):
            fs = {}
            for j, x in enumerate(picks[i:i + per]):
                fs["f%d%s" % (j, os.path.splitext(x["main"])[1])] = list(x["files"].values())[0] + "\nexport {};\n"
            projects.append(work.project(root, "p%d" % i, fs, "tsconfig.json" if i // per % 2 else "tsconfig.unstrict.json"))
        for x in picks:
            v = tuple(x["own"][1:])
            if v not in variants[x["own"][0]]:
                variants[x["own"][0]].append(v)
        for r in tsgo.RULES:
            if () not in variants[r]:
                variants[r].append(())
            for o in c.rng.sample(options[r], min(len(options[r]), c.pick(2, 6))):
                if (o,) not in variants[r]:
                    variants[r].append((o,))
        # files that are only imported
        tail = 0
        listed, imported = [], []
        for k, x in enumerate(work.take(c.rng, ["conf", "mut"], c.pick(30, 200), pred=lambda x: len(x["files"]) == 1 and x["id"] not in odd["conf"] and x["id"] not in odd["mut"])):
            lib = list(x["files"].values())[0] + "\nexport const q%d = 1;\n" % k
            ps = work.project(root, "i%d" % k, {"lib.ts": lib, "main.ts": "import * as l from './lib';\nimport './other';\ndeclare const a: any; a.x; l;\n", "other.ts": "declare const b: any; b.y; Promise.resolve(1);\nexport {};\n"})
            imported += [ps[0], ps[2]]
            listed.append(ps[1])
        every = [p for ps in projects for p in ps] + listed
        rel = lambda p: os.path.relpath(p, root)

        def go(gs, **k):
            return tsgo.run(b, tsgo.payload(gs), FLAGS, cwd=root, timeout=600, **k)

        # predictions: each rule alone
        alone = {}
        total = collections.Counter()
        import concurrent.futures as cf
        jobs = [(r, v) for r in tsgo.RULES for v in variants[r]]
        with cf.ThreadPoolExecutor(4) as ex:
            for (r, v), res in zip(jobs, ex.map(lambda j: go([(every, [(j[0],) + j[1]])], procs=2), jobs)):
                c.evaluations += 1
                if not res.ok():
                    c.violation("rule %s %s alone: %s" % (r, v, res.why()))
                    return
                m = collections.defaultdict(collections.Counter)
                for d in res.diags:
                    if d.get("rule") != r:
                        c.violation("running only %s reports %s" % (r, d.get("rule")), diag=d)
                        return
                    if d["file_path"] not in every:
                        c.violation("running %s on listed files reports %s, which is %s" % (r, rel(d["file_path"]), "only imported" if d["file_path"] in imported else "not listed"), diag=d)
                        return
                    m[d["file_path"]][tsgo.key(d)] += 1
                alone[r, json.dumps(v, sort_keys=True)] = m
                total[r] += len(res.diags)
        c.count("rule_option_variants", len(jobs))
        c.count("rules_with_reports", sum(1 for r in total if total[r]))
        c.need(sum(1 for r in total if total[r]) >= 45, "too few rules report anything")

        for k in range(rounds):
            mode = k % 4
            files = c.rng.sample(every, len(every))
            ng = [1, 3, 12, len(files)][mode]
            gs = []
            for i in range(ng):
                rs = c.rng.sample(tsgo.RULES, c.rng.choice([0, 1, 2, 5, 20, 59]) if ng > 1 else c.rng.choice([5, 59]))
                gs.append((files[i::ng], [(r,) + c.rng.choice(variants[r]) for r in rs]))
            res = go(gs, procs=c.rng.choice([1, 4, 8]))
            c.evaluations += 1
            if not res.ok():
                c.violation("mixed run %d: %s" % (k, res.why()), groups=[(list(map(rel, f)), l) for f, l in gs])
                continue
            got = {p: work.view(ds) for p, ds in work.by_file(res.diags).items()}
            bad = False
            for fs, rs in gs:
                for p in fs:
                    want = collections.Counter()
                    for r in rs:
                        x = alone[r[0], json.dumps(r[1:], sort_keys=True)].get(p)
                        if x:
                            want += x
                            c.saw(p, r[0], json.dumps(r[1:], sort_keys=True))
                    g = got.pop(p, collections.Counter())
                    if g != want and not bad:
                        bad = True
                        c.violation("mixed run %d: %s is configured with %d rules; its result is not the union of those rules alone: %s" % (k, rel(p), len(rs), work.diff(want, g)),
                                    rules=rs, text=open(p, "rb").read().decode("utf-8", "replace"), groups=len(gs))
            for p in got:
                c.violation("mixed run %d: a result for %s, which is %s" % (k, rel(p), "only imported" if p in imported else "not listed"))
                break
        # the later of two groups that name the same file decides, and wholly
        a, z = every[:len(every) // 2], every[len(every) // 4:]
        r1, r2 = tsgo.RULES[::2], tsgo.RULES[1::2]
        res = go([(a, [(r,) for r in r1]), (z, [(r,) for r in r2])])
        c.evaluations += 1
        mixed = [(d["rule"], rel(d["file_path"])) for d in res.diags if d["rule"] not in (r2 if d["file_path"] in z else r1)]
        if not res.ok() or mixed:
            c.violation("a file named by two groups gets rules of both: %s %s" % (mixed[:3], "" if res.ok() else res.why()))
        # a group that names no rules configures none
        for tag, g in (("absent", {}), ("null", {"rules": None}), ("empty", {"rules": []})):
            for first in (True, False):
                pl = tsgo.payload([(every[::2], [(r,) for r in tsgo.RULES])])
                pl["configs"].insert(0 if first else 1, dict(file_paths=every[1::2], **g))
                res = tsgo.run(b, pl, FLAGS, cwd=root, timeout=600)
                c.evaluations += 1
                c.saw("no rules", tag, first)
                odd_ones = [(d["rule"], rel(d["file_path"])) for d in res.diags if d["file_path"] not in set(every[::2])]
                if not res.ok() or odd_ones:
                    c.violation("files of a group whose rules are %s get results: %s %s" % (tag, odd_ones[:3], "" if res.ok() else res.why()))
        c.sample(dict(files=len(every), imported_only=len(imported), example_groups=[[rel(f) for f in gs[0][0]][:3], gs[0][1][:4]]))
    c.assumptions = ["of two groups naming the same file, the later one configures it (as the code documents by construction)"]
