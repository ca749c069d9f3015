"""C20: timing reports are complete and do not disturb linting."""
import collections, json, os
import batch, build, corpus, gotest, tsgo, work

FLAGS = ["-debug", "timings"]


def run(c):
    b = build.binary()
    c.rule = ("one evaluation = one run with timings whose frame was checked and compared with its plain twin, or one harness round in which rules count their own invocations; "
              "non-trivial = a distinct (rule, call count) confirmed in several runs, or a round with at least two recorded rules")
    invocations(c)
    with batch.Area("c20") as root:
        cases = work.take(c.rng, ["rules", "conf", "mut"], c.pick(60, 300), pred=lambda x: len(x["files"]) == 1)
        projects = []
        for i in range(0, len(cases), 15):
            fs = {"f%d%s" % (j, os.path.splitext(x["main"])[1]): list(x["files"].values())[0] + "\nexport {};\n" for j, x in enumerate(cases[i:i + 15])}
            projects.append(work.project(root, "p%d" % i, fs))
        every = [p for ps in projects for p in ps]

        def go(gs, procs=4, timings=True, extra=(), **pl):
            r = tsgo.run(b, tsgo.payload(gs, **pl), (FLAGS if timings else []) + list(extra), cwd=root, procs=procs, timeout=600)
            c.evaluations += 1
            if not r.ok():
                c.violation("timings=%s procs=%s: %s" % (timings, procs, r.why()), groups=len(gs))
                return r, None
            if not timings:
                if r.timings:
                    c.violation("a timing frame that was not asked for", frame=r.timings[0])
                return r, None
            if len(r.timings) != 1 or r.frames[-1][0] != tsgo.TIMING:
                c.violation("%d timing frames, the last frame has type %s" % (len(r.timings), r.frames[-1][0] if r.frames else None))
                return r, None
            t = r.timings[0]
            if set(t) != {"rules"} or not isinstance(t["rules"], list):
                c.violation("a timing frame of another shape", frame=t)
                return r, None
            names = [x.get("rule_name") for x in t["rules"]]
            num = [x for x in t["rules"] if not isinstance(x.get("calls"), int) or x["calls"] <= 0]
            if num:
                c.violation("a rule without calls is listed: %s" % num[0])
            dup = [n for n, k in collections.Counter(names).items() if k > 1]
            if dup:
                c.violation("listed more than once: %s" % dup, frame=t)
            ms = [x.get("duration", -1) for x in t["rules"]]
            if any(x < 0 for x in ms):
                c.violation("a negative duration", frame=t)
            for i in range(1, len(ms)):
                if ms[i] > ms[i - 1]:
                    c.violation("%s (%s) is listed before %s (%s)" % (names[i - 1], ms[i - 1], names[i], ms[i]), frame=t)
                    break
            want = {q[0] for f, rs in gs for q in rs if f}
            if set(names) != want:
                c.violation("rules that ran: %d; missing from the report: %s; listed without having run: %s" % (len(want), sorted(want - set(names))[:5], sorted(set(names) - want)[:5]))
            return r, {n: x["calls"] for n, x in zip(names, t["rules"])}

        def same(what, a, b):
            if a is None or b is None:
                return
            d = [(r, a.get(r), b.get(r)) for r in sorted(set(a) | set(b)) if a.get(r) != b.get(r)]
            if d:
                c.violation("%s: call counts differ: %s" % (what, d[:5]))
            else:
                for r, n in a.items():
                    c.saw(r, n)

        rules = work.ALL
        plain, _ = go([(every, rules)], timings=False)
        base, calls = go([(every, rules)], procs=1)
        want = work.view(plain.diags)
        for procs in c.pick([2, 8], [2, 3, 4, 6, 8, 16]):
            r, n = go([(c.rng.sample(every, len(every)), rules)], procs=procs)
            same("GOMAXPROCS=%d" % procs, calls, n)
            d = work.diff(want, work.view(r.diags))
            if d:
                c.violation("asking for timings changes the result: %s" % d)
        # other switches, with timings and without
        for k in range(c.pick(3, 8)):
            kw = dict(report_syntactic=c.rng.random() < .5, report_semantic=c.rng.random() < .7)
            ex = c.rng.sample(["-fix", "-fix-suggestions"], c.rng.randrange(3))
            ov = {p: "const z%d: number = 'x'; z%d;\nPromise.resolve(1);\n" % (j, j) for j, p in enumerate(c.rng.sample(every, 5))}
            kw["source_overrides"] = ov
            fs = c.rng.sample(every, 40)
            r1, _ = go([(fs, rules)], extra=ex, timings=False, **kw)
            r2, _ = go([(fs, rules)], extra=ex, **kw)
            d = work.diff(work.view(r1.diags), work.view(r2.diags))
            if d:
                c.violation("asking for timings changes the result (%s): %s" % (ex, d))
        # additive over files
        for k in range(c.pick(3, 12)):
            fs = c.rng.sample(every, len(every))
            cut = c.rng.randrange(1, len(fs))
            _, n1 = go([(fs[:cut], rules)], procs=c.rng.choice([1, 4]))
            _, n2 = go([(fs[cut:], rules)], procs=c.rng.choice([1, 4]))
            if n1 is not None and n2 is not None:
                same("a partition of the files", calls, {r: n1.get(r, 0) + n2.get(r, 0) for r in set(n1) | set(n2)})
        # independent of the other rules, and of the grouping
        for k in range(c.pick(6, 40)):
            rs = c.rng.sample(rules, c.rng.choice([1, 2, 7, 30]))
            _, n = go([(every, rs)], procs=c.rng.choice([1, 2, 8]))
            if n is not None:
                same("running %d of the rules" % len(rs), {r[0]: calls[r[0]] for r in rs}, n)
        for k in range(c.pick(4, 20)):
            gs, expect = [], collections.Counter()
            fs = c.rng.sample(every, len(every))
            for i in range(c.rng.choice([2, 5])):
                part = fs[i::5]
                gs.append((part, c.rng.sample(rules, c.rng.choice([0, 1, 5, 59]))))
            _, n = go(gs, procs=c.rng.choice([1, 8]))
            for part, rs in gs:
                if rs:
                    _, m = go([(part, rs)])
                    expect.update(m or {})
            if n is not None:
                same("several groups against each alone", dict(expect), n)
        # corner cases: no rules, no files
        go([(every[:3], [])])
        go([([], rules[:3])])
        r, _ = go([(every[:2], rules)], timings=False)
        c.sample(dict(files=len(every), calls=dict(sorted((calls or {}).items())[:5])))
        c.cov["calls_per_run"] = sum((calls or {}).values())
        # the command line's table has the same counts
        table(c, b, projects[0], go)
    c.assumptions = ["durations are not judged beyond their order and sign"]


def table(c, b, files, go):
    import re, subprocess
    d = os.path.dirname(files[0])
    p = subprocess.run([b, "-debug", "timings"], cwd=d, capture_output=True, text=True, errors="replace", timeout=300)
    c.evaluations += 1
    rows = re.findall(r"(?m)^([a-z][a-z-]+) +([0-9.]+) +([0-9.]+)% +(\d+)$", p.stdout)
    _, n = go([(files, work.ALL)])
    if n is None:
        return
    got = {r[0]: int(r[3]) for r in rows}
    if len(got) != len(rows) or got != n:
        d = [(r, n.get(r), got.get(r)) for r in sorted(set(n) | set(got)) if n.get(r) != got.get(r)]
        c.violation("the timing table of the command line differs from the timing frame for the same files (%d rows): %s" % (len(rows), d[:4]), stdout=p.stdout[-3000:])
    else:
        c.saw("table", tuple(sorted(got.items())))


def invocations(c):
    """In-package: rules counting their own invocations against the store."""
    h = gotest.build_one("internal/linter", "timing", "timing_verif_test.go", "linter")
    with batch.Area("c20h") as root:
        names = []
        for i, x in enumerate(work.take(c.rng, ["conf", "mut"], 40, pred=lambda x: len(x["files"]) == 1 and x["main"].endswith(".ts"))):
            names.append("%s/f%d.ts" % (root, i))
            with open(names[-1], "wb") as f:
                f.write(list(x["files"].values())[0].encode("utf-8", "surrogateescape"))
        with open(root + "/list", "w") as f:
            f.write("\n".join(names))
        for r in gotest.run(h, "TestVerifTiming", c.rng.randrange(1 << 40), c.pick(120, 2500), env={"VERIF_FILES": root + "/list"}, procs=8):
            if "bad" in r:
                c.violation(r["bad"])
            elif "round" in r:
                c.evaluations += 1
                if r["records"] >= 2:
                    c.saw("round", r["round"])
            else:
                c.cov["harness_calls_confirmed"] = r["calls"]
