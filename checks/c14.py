"""C14: concurrent linting is free of data races."""
import concurrent.futures as cf, json, os, re, subprocess
import batch, build, corpus, tsgo, work

SPLIT = "WARNING: DATA RACE"


def accesses(report):
    """The functions of the two accesses, innermost first, without package paths."""
    out = []
    for part in re.split(r"\n\n", report):
        if re.match(r"\s*(Previous )?([Rr]ead|[Ww]rite|[Aa]tomic [a-z]+) at ", part.lstrip("\n")):
            fn = re.findall(r"(?m)^  ([\w./*()\[\],-]+)\(\)$", part)
            out.append([f.rsplit("/", 1)[-1] for f in fn])
    return out


def run(c):
    b = build.binary("race")
    c.rule = ("one evaluation = one run of the executable built with the race detector (a report anywhere is a violation); non-trivial = a distinct run (files, rules, switches, thread count) that linted "
              "at least four files with at least two threads and produced output")
    env = {"GORACE": "halt_on_error=0 exitcode=66 history_size=3 atexit_sleep_ms=0"}
    seen = set()

    def look(what, rc, err, **data):
        for r in err.split(SPLIT)[1:]:
            r = r.split("==================")[0]
            acc = accesses(r)
            key = tuple(sorted(a[0] if a else "?" for a in acc))
            if key in seen:
                continue
            seen.add(key)
            c.violation("%s: data race between %s" % (what, " and ".join(" < ".join(a[:4]) for a in acc)), ident=dict(kind="race", between=list(key)), report=r[:6000], **data)
        if rc == 66 and SPLIT not in err:
            c.violation("%s: the race detector ended the run without a report" % what)

    rng = c.rng
    with batch.Area("c14") as root:
        # many one-file programs, resolved and created in parallel
        cases = work.take(rng, ["rules", "conf", "mut", "confx", "cmut"], c.pick(700, 5000))
        mains = corpus.layout(root, cases)
        # one program with many files, checked by several checkers
        big = work.take(rng, ["rules"], c.pick(120, 480), pred=lambda x: len(x["files"]) == 1)
        projects = []
        for i in range(0, len(big), 30):
            fs = {"f%d%s" % (j, os.path.splitext(x["main"])[1]): "import * as shared from './shared';\n" + list(x["files"].values())[0] + "\nexport {};\nshared.two(shared.one);\n" for j, x in enumerate(big[i:i + 30])}
            fs["shared.ts"] = "/** @deprecated x */\nexport const one: { a?: Promise<string>[]; b: 'x' | 'y' } = { b: 'x' };\nexport function two<T extends { b: string }>(x: T): x is T & { a: any } { return !!x; }\nexport enum E { A, B = 'b' }\nexport class K<T> { constructor(readonly t: T) {} m(): this { return this; } }\n"
            projects.append(work.project(root, "big%d" % i, fs))
        # a tree of configs with references, so that resolution shares state
        tree = []
        for i in range(8):
            d = "%s/tree/p%d" % (root, i)
            os.makedirs(d + "/src/deep")
            for n in ("a.ts", "src/b.ts", "src/deep/c.ts", "src/deep/d.ts"):
                with open("%s/%s" % (d, n), "w") as f:
                    f.write("Promise.resolve(%d);\nconst n: any = 1; n.x;\n" % i)
                tree.append("%s/%s" % (d, n))
            with open(d + "/tsconfig.json", "w") as f:
                json.dump({"compilerOptions": {"composite": True, "types": []}, "include": ["src/deep/c.ts"], "references": [{"path": "../p%d" % ((i + 1) % 8)}, {"path": "../p%d" % ((i * 3 + 1) % 8)}]}, f)
        with open(root + "/tree/tsconfig.json", "w") as f:
            json.dump({"files": [], "references": [{"path": "p%d" % i} for i in range(8)]}, f)
        every = [p for ps in projects for p in ps]
        jobs = []
        ids = list(mains)
        n = c.pick(100, 240)
        for i in range(0, len(ids), n):
            jobs.append(("many programs", [mains[x] for x in ids[i:i + n]]))
        for ps in projects:
            jobs.append(("one program", ps))
        jobs.append(("a tree of configs", tree))
        jobs.append(("everything", [mains[x] for x in rng.sample(ids, min(len(ids), 40))] + rng.sample(every, 30) + tree))
        jobs = jobs + rng.sample(jobs, min(len(jobs), c.pick(6, 24)))

        def one(k):
            what, files = jobs[k]
            r = __import__("random").Random("%s/%d" % (c.seed, k))
            files = r.sample(files, len(files))
            ov = {p: "export const v%d = Promise.resolve(%d);\nv%d;\n" % (i, i, i) for i, p in enumerate(r.sample(files, min(len(files), r.choice([0, 3, 9]))))}
            gs = [(files[i::3], r.sample(work.ALL, [59, 59, 30][i])) for i in range(3)]
            kw = dict(source_overrides=ov, report_syntactic=r.random() < .6, report_semantic=r.random() < .6)
            fl = [x for x in ("-fix", "-fix-suggestions") if r.random() < .8] + (["-debug", "timings"] if r.random() < .7 else [])
            procs = r.choice([2, 4, 8, 8])
            res = tsgo.run(b, tsgo.payload(gs, **kw), fl, cwd=root, procs=procs, timeout=800, env=dict(env, **({"OXC_LOG": "debug"} if r.random() < .2 else {})))
            return what, files, fl, kw, procs, res

        with cf.ThreadPoolExecutor(3) as ex:
            for what, files, fl, kw, procs, res in ex.map(one, range(len(jobs))):
                c.evaluations += 1
                err = res.stderr.decode("utf-8", "replace")
                look("%s, %d files, %s" % (what, len(files), fl), res.rc, err, switches=dict(flags=fl, procs=procs, overrides=len(kw["source_overrides"])))
                c.count("diagnostics", len(res.diags))
                c.count("files", len(files))
                if res.rc not in (0, 66) or res.timed_out:
                    c.count("runs_that_ended_early")
                if len(files) >= 4 and procs >= 2 and res.diags:
                    c.saw(what, tuple(sorted(files)), tuple(fl), procs, len(res.diags))
        # the command line
        e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "OXC_", "OXLINT_"))}
        for ps in projects[:c.pick(1, 4)]:
            p = subprocess.run([b, "-debug", "timings", "-list-files"], cwd=os.path.dirname(ps[0]), env=dict(e, GOMAXPROCS="8", **env), capture_output=True, text=True, errors="replace", timeout=800)
            c.evaluations += 1
            look("command line on %d files" % len(ps), p.returncode, p.stderr)
            if "Found" in p.stdout:
                c.saw("cli", len(ps), p.stdout.count("─────"))
        # a run that fails in the middle: the error path shares the channels
        for k in range(c.pick(2, 8)):
            gs = [(every[:20], work.ALL[:20]), ([root + "/nowhere/none%d.ts" % k], work.ALL[:3])]
            res = tsgo.run(b, tsgo.payload(gs), cwd=root, procs=8, timeout=600, env=env)
            c.evaluations += 1
            look("a missing file among others", res.rc, res.stderr.decode("utf-8", "replace"))
    c.need(c.cov["diagnostics"] > 500, "the instrumented runs reported too little")
    c.sample(dict(jobs=[(w, len(f)) for w, f in jobs][:6]))
    c.assumptions = ["the race detector sees races between accesses that both execute in a run; it reports no false ones", "assembly and unsafe accesses of the compiler are instrumented like any other Go code"]
