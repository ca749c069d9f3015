"""C02: the multiset of results does not depend on threads, order, batching or repetition."""
import collections, concurrent.futures as cf, os
import batch, build, tsgo, work

FLAGS = ("-fix", "-fix-suggestions")
CFGS = ["tsconfig.json", "tsconfig.minimal.json", "tsconfig.unstrict.json"]


def groups(c, paths, own):
    """Splits files into config groups with different rule lists (each file in one group)."""
    g = [[], [], []]
    for p in paths:
        g[c.rng.randrange(3)].append(p)
    some = sorted(c.rng.sample(tsgo.RULES, 30))
    lists = [work.ALL, [(r,) for r in some], [(r,) for r in reversed(tsgo.RULES)]]
    return [(f, l) for f, l in zip(g, lists) if f]


def run(c):
    b = build.binary()
    nproj, per = c.pick((8, 45), (60, 70))
    solo = c.pick(60, 600)
    reps = c.pick(2, 6)
    c.rule = ("projects of %d corpus files each, all rules, fixes, type errors; every run is compared as a multiset per file with the "
              "reference run (1 thread); non-trivial = a file with at least one diagnostic, counted per (file, run variant)" % per)
    with batch.Area("c02") as root:
        projects, paths = [], []
        for i in range(nproj):
            cs = work.take(c.rng, ["rules", "conf", "mut"], per, pred=lambda x: len(x["files"]) == 1)
            fs = {}
            for j, x in enumerate(cs):
                ext = os.path.splitext(x["main"])[1]
                t = list(x["files"].values())[0]
                # half of them are modules, the rest share the global scope of the project
                fs["d%d/f%d%s" % (j % 5, j, ext)] = t + ("\nexport {};\n" if j % 2 else "")
            projects.append(work.project(root, "p%d" % i, fs, CFGS[i % 3]))
        # plus some files without any project
        loose = []
        os.makedirs(root + "/loose")
        for j, x in enumerate(work.take(c.rng, ["rules", "conf"], 20, pred=lambda x: len(x["files"]) == 1)):
            p = root + "/loose/l%d%s" % (j, os.path.splitext(x["main"])[1])
            open(p, "wb").write((list(x["files"].values())[0] + "\nexport {};\n").encode("utf-8", "surrogateescape"))
            loose.append(p)
        every = [p for ps in projects for p in ps] + loose
        gs = groups(c, every, None)
        kw = dict(report_semantic=True, report_syntactic=True)

        def go(gs, procs, **k):
            r = tsgo.run(b, tsgo.payload(gs, **dict(kw, **k)), FLAGS, cwd=root, procs=procs, timeout=600)
            return r

        base = go(gs, 1)
        if not base.ok():
            c.violation("the reference run failed: " + base.why(), groups=gs)
            return
        ref = {p: work.view(ds) for p, ds in work.by_file(base.diags).items()}
        c.need(len(ref) > len(every) // 3, "too few files with diagnostics")
        known = set(every) | {None}
        for p in ref:
            if p not in known:
                c.violation("a result names a file that was not listed: %s" % p)
        c.count("files", len(every))
        c.count("diagnostics_in_reference_run", len(base.diags))
        texts = {p: open(p, "rb").read().decode("utf-8", "replace")[:1500] for p in every}

        def compare(r, tag, files, expect=ref):
            c.evaluations += 1
            if not r.ok():
                c.violation("%s: run failed: %s" % (tag, r.why()))
                return
            got = {p: work.view(ds) for p, ds in work.by_file(r.diags).items()}
            for p in files:
                a, g = expect.get(p, collections.Counter()), got.get(p, collections.Counter())
                if a:
                    c.saw(p, tag)
                if a != g:
                    c.violation("%s: results of one file differ from the reference run: %s" % (tag, work.diff(a, g)), file=os.path.relpath(p, root), text=texts.get(p))
                    break
            for p in got:
                if p not in files and p is not None:
                    c.violation("%s: results for a file that was not listed: %s" % (tag, p))
                    break

        # thread counts, repeated
        for k in range(reps):
            for procs in (8, 2, 3, 16, 5):
                compare(go(gs, procs), "threads=%d #%d" % (procs, k), every)
        # order of files inside groups and of groups
        for k in range(reps * 2):
            sh = [(c.rng.sample(f, len(f)), l) for f, l in gs]
            c.rng.shuffle(sh)
            compare(go(sh, c.rng.choice([1, 4, 8])), "shuffled #%d" % k, every)
        # one group per file
        rl = {p: l for f, l in gs for p in f}
        compare(go([([p], rl[p]) for p in c.rng.sample(every, len(every))], 8), "one group per file", every)
        # a file listed twice is linted once
        compare(go([(f + f[: len(f) // 2], l) for f, l in gs], 8), "files listed twice", every)
        # random splits into separate runs
        for k in range(reps):
            sh = c.rng.sample(every, len(every))
            n = c.rng.choice([2, 3, 7])
            rs = [r for i in range(n) for r in [go([([p], rl[p]) for p in sh[i::n]], 4)]]
            for i, r in enumerate(rs):
                compare(r, "split %d/%d #%d" % (i, n, k), sh[i::n])
        # a file on its own
        picks = c.rng.sample(every, min(solo, len(every)))
        with cf.ThreadPoolExecutor(6) as ex:
            for p, r in zip(picks, ex.map(lambda p: go([([p], rl[p])], 2), picks)):
                compare(r, "alone", [p])
        c.sample(dict(variants="threads 1,2,3,5,8,16; shuffles; splits; alone", files=len(every), example=os.path.relpath(every[0], root), example_result=[dict(x) for x in base.diags[:1]]))
    c.assumptions = ["type errors are included because they are reported through the same path"]
