"""C13: no program makes the linter crash, hang or lose its output."""
import collections, concurrent.futures as cf, json, os, re, resource
import batch, build, corpus, hostile, tsgo, work

CANARY = "declare const p: Promise<void>;\np;\nexport const x: any = 1;\nx.y;\nawait 1;\n"
CPU = 150  # seconds of processor time one run may use; ordinary runs of this size use a few


def tokens(text):
    return re.findall(r"[A-Za-z_$][\w$]*|\d+(?:\.\d+)?n?|'[^'\n]*'|\"[^\"\n]*\"|`[^`]*`|//[^\n]*|\s+|=>|\?\?=?|\?\.|\.\.\.|[&|]{2}=?|[=!]==?|\S", text)


def mangle(text, rng, other):
    """Edits at token level: the results are close to valid, so they get past the parser and confuse what comes after."""
    t = tokens(text)
    o = tokens(other)
    if not t or not o:
        return text
    solid = [i for i, x in enumerate(t) if not x.isspace()] or [0]
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        k = rng.randrange(8)
        i = rng.choice(solid)
        if i >= len(t):
            continue
        if k == 0:
            t[i] = ""
        elif k == 1:
            j = rng.choice(solid)
            if j < len(t):
                t[i], t[j] = t[j], t[i]
        elif k == 2:
            t[i] = rng.choice(o)
        elif k == 3:
            t.insert(i, rng.choice(o) + " ")
        elif k == 4:
            a = rng.randrange(len(o))
            t.insert(i, "".join(o[a:a + rng.randrange(2, 25)]))
        elif k == 5:
            t[i] = t[i] + rng.choice([".", "?.", "!", "()", "[0]", "<T>", ", ", " as any", " satisfies", " = ", ";", "{", "}", "`", "${", "=>", "?", ":", "...", "@", "#", "async ", "await ", "static {", "get ", "enum "])
        elif k == 6:
            j = min(len(t), i + rng.randrange(1, 12))
            del t[i:j]
        else:
            j = min(len(t), i + rng.randrange(1, 20))
            t[i:i] = t[i:j]
        solid = [i for i, x in enumerate(t) if x and not x.isspace()] or [0]
        if not t:
            t = [" "]
    return "".join(t)


def cap():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))


def where(r):
    """The first frames of a panic that are worth naming, or how the run ended."""
    e = r.stderr.decode("utf-8", "replace")
    i = e.find("panic:")
    if i < 0:
        i = e.find("fatal error:")
    if i < 0:
        return "exit %s" % r.rc, ""
    msg = e[i:].split("\n", 1)[0][:160]
    fn = [f for f in re.findall(r"(?m)^([\w./*()\[\]-]+)\(.*\)$", e[i:]) if not f.startswith(("panic", "runtime", "sync")) and "/internal/debug." not in f]
    return msg, " < ".join(f.rsplit("/", 1)[-1] for f in (fn or ["?"])[:2])


def run(c):
    b = build.binary()
    rng = c.rng
    c.rule = ("one evaluation = one (program, rule set) linted to the end by the real executable, next to other programs and a file whose results are known; "
              "non-trivial = a distinct program that reports compiler errors or is no corpus program as it stands")
    texts = collections.Counter()

    def lint(root, jobs, chunk):
        """jobs: [(id, files, rules)]; returns nothing, reports every program whose run does not end well."""
        canary = root + "/canary"
        if not os.path.isdir(canary):
            work.project(root, "canary", {"main.ts": CANARY})
        cf_ = canary + "/main.ts"

        def one(js):
            gs = {}
            for _, f, rs in js:
                gs.setdefault(json.dumps(rs), ([], rs))[0].extend(f)
            return tsgo.run(b, tsgo.payload([(f, rs) for f, rs in gs.values()] + [([cf_], work.ALL)], report_semantic=True, report_syntactic=True),
                            ["-fix", "-fix-suggestions"], cwd=root, procs=2, timeout=800, pre=cap)

        base = work.view(tsgo.run(b, tsgo.payload([([cf_], work.ALL)], report_semantic=True, report_syntactic=True), ["-fix", "-fix-suggestions"], cwd=root).diags)
        c.need(sum(base.values()) >= 3, "the known file has no results")

        def settle(js, r):
            if r is not None and r.ok():
                own = [d for d in r.diags if d.get("file_path") == cf_]
                df = work.diff(base, work.view(own))
                if df and len(js) > 1:
                    return [x for h in (js[:len(js) // 2], js[len(js) // 2:]) for x in settle(h, one(h))]
                return [(js, r, "the results of another file change: " + df)] if df else []
            if len(js) == 1:
                return [(js, r, "")]
            out = []
            k = max(1, len(js) // 6)
            for i in range(0, len(js), k):
                out += settle(js[i:i + k], one(js[i:i + k]))
            return out or [(js, r, "only together")]

        chunks = [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)]
        with cf.ThreadPoolExecutor(5) as ex:
            for js, r in zip(chunks, ex.map(one, chunks)):
                for x in js:
                    c.evaluations += 1
                errs = {d.get("file_path") for d in r.diags if d["kind"] == 1}
                for x in js:
                    if not x[0].startswith("="):
                        c.saw(x[0])
                    if errs & set(x[1]):
                        c.saw(x[0])
                        c.count("programs_with_compiler_errors")
                c.count("diagnostics", len(r.diags))
                for bad, r1, why in settle(js, r):
                    if why:
                        c.violation("%d programs: %s; %s" % (len(bad), why, r1.why()[:600] if not r1.ok() else ""), programs={f: open(f, "rb").read().decode("utf-8", "replace") for x in bad[:20] for f in x[1]})
                        continue
                    msg, fn = where(r1)
                    timeout = r1.timed_out or r1.rc in (-24, -9)
                    texts[msg] += 1
                    cid, f, rs = bad[0]
                    c.violation("%s with %d rules: %s" % (cid, len(rs), "does not end within %d s of processor time" % CPU if timeout else r1.why()[:900]),
                                ident={"panic": msg, "at": fn}, program={x: open(x, "rb").read().decode("utf-8", "replace") for x in f[:8]}, rules=rs,
                                tsconfig=open(os.path.join(os.path.dirname(f[0]), "tsconfig.json")).read() if os.path.exists(os.path.join(os.path.dirname(f[0]), "tsconfig.json")) else "")

    pools = {nm: corpus.load(nm) for nm in ["rules", "conf", "mut", "confx", "mutx", "cmut"]}
    owns = collections.defaultdict(list)
    for x in pools["rules"]:
        if x.get("own") and len(x["own"]) > 1 and x["own"][1]:
            owns[x["own"][0]].append(x["own"][1])

    def ruleset(r):
        """All rules, each with defaults or with options that one of its own tests uses."""
        if r.random() < .5:
            return work.ALL
        k = r.randrange(12)  # few distinct sets, so that files still share groups
        rr = __import__("random").Random("%s/opts/%d" % (c.seed, k))
        return [(x, rr.choice(owns[x])) if owns[x] and rr.random() < .8 else (x,) for x in tsgo.RULES]

    # the corpora as they stand, and single rules on programs of other rules
    picks = []
    for nm, n in (("rules", c.pick(1500, None)), ("conf", c.pick(1500, None)), ("confx", c.pick(1500, None)), ("mut", c.pick(800, None)), ("mutx", c.pick(800, None)), ("cmut", c.pick(800, None))):
        p = pools[nm]
        picks += p if n is None or n >= len(p) else rng.sample(p, n)
    for i in range(0, len(picks), 6000):
        with batch.Area("c13") as root:
            part = picks[i:i + 6000]
            mains = corpus.layout(root, part)
            jobs = []
            for x in part:
                rs = ruleset(rng)
                if rng.random() < .1:
                    rs = [(r,) for r in rng.sample(tsgo.RULES, rng.choice([1, 1, 2, 5]))]
                jobs.append(("=" + x["id"], [mains[x["id"]]], rs))
            lint(root, jobs, 250)
    # hostile variants
    rounds = c.pick(1, 12)
    every = [x for p in pools.values() for x in p]
    for k in range(rounds):
        with batch.Area("c13") as root:
            vs = []
            for i, x in enumerate(rng.sample(every, min(len(every), c.pick(5500, 8000)))):
                m = x["main"]
                t = x["files"][m]
                o = rng.choice(every)
                o = o["files"][o["main"]]
                for _ in range(rng.choice([1, 1, 2])):
                    j = rng.random()
                    t = mangle(t, rng, o) if j < .75 else hostile.splice(t, rng, o) if j < .83 else rng.choice(hostile.ALL)(t, rng)
                t = t.encode("utf-8", "surrogatepass").decode("utf-8", "surrogateescape")
                if rng.random() < .02:
                    t += "\udcff\udc80\udcfe"
                y = dict(x, id="h%d-%d" % (k, i), files=dict(x["files"], **{m: t}))
                if rng.random() < .25 and m.endswith((".ts", ".tsx")) and len(y["files"]) == 1:
                    # the same text under another kind of file
                    n = os.path.splitext(m)[0] + rng.choice([".js", ".jsx", ".tsx", ".d.ts", ".mts", ".cts", ".mjs", ".cjs"])
                    y["files"], y["main"] = {n: t}, n
                    y["opts"] = dict(y.get("opts") or {}, allowJs=True, checkJs=rng.random() < .5, noEmit=True)
                if rng.random() < .3:
                    y["opts"] = dict(y.get("opts") or {}, **rng.choice([{"strict": False, "strictNullChecks": False}, {"noUncheckedIndexedAccess": True, "exactOptionalPropertyTypes": True}, {"experimentalDecorators": True}, {"isolatedModules": True, "verbatimModuleSyntax": True}, {"target": "es5"}, {"noLib": True}, {"module": "commonjs"}, {"lib": ["es5"]}]))
                vs.append(y)
            mains = corpus.layout(root, vs)
            lint(root, [(y["id"], [mains[y["id"]]], ruleset(rng)) for y in vs], 250)
    # depth and size
    with batch.Area("c13") as root:
        jobs = []
        for n in c.pick([3, 40, 260], [2, 7, 30, 90, 260, 700, 1300]):
            for k, (nm, t) in enumerate(hostile.deep(n)):
                fs = work.project(root, "d%d_%d" % (n, k), {"main" + (".tsx" if nm == "jsx" else ".ts"): t})
                jobs.append(("%s x %d" % (nm, n), fs, work.ALL))
        rng.shuffle(jobs)
        lint(root, jobs, 12)
        # files that are no text, or unusual names
        odd = {"nul.ts": b"\0" * 4000, "bytes.ts": bytes(range(256)) * 40, "utf16.ts": "\ufeffPromise.resolve();".encode("utf-16-le"), "utf16be.ts": "\ufeffconst a: any = 1; a.b;".encode("utf-16-be"),
               "empty.ts": b"", "one.ts": b"\n", "json.ts": b'{"a": 1}', "html.tsx": b"<html><body></body></html>", "a b.ts": b"Promise.resolve();", "\u65e5\u672c.ts": b"Promise.resolve();",
               "q'uote.ts": b"Promise.resolve();", "a.b.c.d.ts": b"declare const a: any;", "%20.ts": b"Promise.resolve();", "#.ts": b"Promise.resolve();", "[x].ts": b"Promise.resolve();", "$&.ts": b"x;"}
        fs = work.project(root, "odd", odd)
        # the listed finding, so that it is seen in every run
        x = [x for x in pools["confx"] if x["id"] == "k3075"]
        lint(root, [("=k3075", [corpus.layout(root, x)["k3075"]], work.ALL)], 1)
        lint(root, [("odd " + os.path.basename(f), [f], work.ALL) for f in fs] + [("odd together", fs, work.ALL)], 1)
    if texts:
        c.cov["ends"] = dict(texts)
    c.need(c.cov["diagnostics"] > 5000 and c.cov["programs_with_compiler_errors"] > 1000, "too little came back")
    c.sample(dict(program="a token-level mutation", text=mangle("class A { async m() { await this.b?.c(); } }", rng, "enum E { x = 1 }")))
    c.assumptions = ["bounded work is judged as %d s of processor time for at most 250 small programs, about a hundred times what such a run uses" % CPU,
                     "programs nested deeper than 1300 levels are not explored"]
