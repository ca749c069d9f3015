"""C07: a broken tsconfig is reported and harms no other project."""
import collections, concurrent.futures as cf, json, os
import batch, build, corpus, tsgo, work
import c08

SW = {"OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS": "true"}
SRC = {
    "main.ts": "import { other } from './other';\ndeclare const p: Promise<string>;\np;\nconst a: any = other;\na.b.c();\nexport const n: string = 1;\n",
    "other.ts": "export async function other(x?: string) { if (x) { return; } await 1; return `${{}}`; }\nother();\n",
    "deep/inner.ts": "export const e = [1, 2].sort();\nexport enum E { A, B = 'b' }\nlet t: string | 'x' = 'y'; export default t;\n",
}


def breakages(rng):
    """(name, {file: text or json}, the same with the offending part left out or None). tsconfig.json is the config of the project."""
    base = {"compilerOptions": {"strict": True, "types": [], "target": "es2022", "noEmit": True}}

    def opt(name, value):
        k = json.loads(json.dumps(base))
        k["compilerOptions"][name] = value
        if isinstance(value, list) and name == "lib":
            return ("option %s=%s" % (name, json.dumps(value)), {"tsconfig.json": k}, {"tsconfig.json": {"compilerOptions": dict(base["compilerOptions"], lib=[])}})
        return ("option %s=%s" % (name, json.dumps(value)), {"tsconfig.json": k}, {"tsconfig.json": base})

    def conflict(**kw):
        k = json.loads(json.dumps(base))
        for a, v in kw.items():
            k["compilerOptions"].pop(a, None) if v is None else k["compilerOptions"].__setitem__(a, v)
        return ("options %s" % json.dumps(kw), {"tsconfig.json": k}, None)

    def top(rest=None, **kw):
        return ("members %s" % json.dumps(kw), {"tsconfig.json": dict(base, **kw)}, {"tsconfig.json": dict(base, **(rest or {}))})

    good = json.dumps(base, indent=1)
    yield "syntax cut", {"tsconfig.json": good[:rng.randrange(1, len(good) - 2)]}, {"tsconfig.json": "{}"}
    yield "syntax garbage", {"tsconfig.json": rng.choice(["hello", "[1]", "{ 'compilerOptions': {} }", "{]", "}{", "null x", "<xml/>", "{\"compilerOptions\": {\"strict\": true} \"include\": []}", "{\"a\": }", "/* open", "{\"a\": \"b}"])}, None
    yield "syntax nul", {"tsconfig.json": "\0\0\0"}, None
    for n in ("strictt", "Strict1", "notAnOption", "é", "strictNullcheck", ""):
        yield opt(n, rng.choice([True, 1, "x", None, [], {}]))
    for n, v in (("strict", "yes"), ("strict", 1), ("strict", []), ("lib", "es2020"), ("lib", ["es1999"]), ("lib", [1]), ("types", "node"), ("paths", []), ("skipLibCheck", "true"), ("maxNodeModuleJsDepth", "1"), ("rootDirs", "x"), ("customConditions", {})):
        yield opt(n, v)
    for n, v in (("module", "es1999"), ("jsx", "vue"), ("moduleResolution", "webpack"), ("moduleDetection", "x"), ("newLine", "nl"), ("target", "es1999")):
        yield opt(n, v)
    for n, v in (("module", "amd"), ("module", "system"), ("moduleResolution", "classic"), ("moduleResolution", "node10"), ("baseUrl", "."), ("outFile", "x.js"), ("target", "es5"), ("target", "es3"), ("esModuleInterop", False), ("allowSyntheticDefaultImports", False), ("alwaysStrict", False), ("downlevelIteration", True), ("importsNotUsedAsValues", "error"), ("charset", "utf8"), ("keyofStringsOnly", True)):
        yield conflict(**{n: v})
    yield conflict(declarationMap=True)
    yield conflict(emitDeclarationOnly=True, noEmit=None)
    yield conflict(isolatedDeclarations=True)
    yield conflict(strict=False, strictPropertyInitialization=True)
    yield conflict(exactOptionalPropertyTypes=True, strict=False)
    yield conflict(allowImportingTsExtensions=True, noEmit=None)
    yield conflict(module="nodenext", moduleResolution="bundler")
    yield conflict(checkJs=True, allowJs=False)
    yield conflict(composite=True, declaration=False)
    yield conflict(incremental=False, composite=True)
    yield conflict(jsxFactory="a b", jsx="react")
    yield conflict(jsxFragmentFactory="x", jsx="react-jsx")
    yield conflict(paths={"*": []})
    yield conflict(paths={"a**": ["x"]})
    yield conflict(paths={"a": "x"})
    yield conflict(noEmit=None, rootDir="deep")
    yield conflict(noEmit=None, allowJs=True, outDir=".")
    yield conflict(types=["not-there"])
    yield conflict(inlineSourceMap=True, sourceMap=True)
    yield conflict(mapRoot="x")
    yield conflict(emitDecoratorMetadata=True)
    yield conflict(resolveJsonModule=True, module="none")
    yield conflict(verbatimModuleSyntax=True, isolatedModules=False)
    yield conflict(reactNamespace="1", jsx="react")
    for kw in (dict(include="*.ts"), dict(files="main.ts"), dict(exclude="x"), dict(references={}), dict(references=["../x"]), dict(references=[{}]), dict(extends=1), dict(compilerOptions=[]), dict(compilerOptions="x"), dict(include=[1, "**/*"]), dict(include=["**/**/*", "**"]), dict(include=["../**/..", "**/*"]), dict(exclude=["**/../x"])):
        yield top(**kw)
    yield top(extends="./gone.json")
    yield top(extends="gone-package/tsconfig")
    yield top(extends=["./gone.json", "./gone2.json"])
    yield top(extends="./tsconfig.json")
    yield top(extends="")
    yield "base with syntax error", {"tsconfig.json": dict(base, extends="./base.json"), "base.json": '{ "compilerOptions": { "strict": true, '}, None
    yield "base with unknown option", {"tsconfig.json": dict(base, extends="./base.json"), "base.json": {"compilerOptions": {"bogus": 1}}}, {"tsconfig.json": base}
    yield "base of base missing", {"tsconfig.json": dict(base, extends="./base.json"), "base.json": {"extends": "./gone.json"}}, {"tsconfig.json": base}
    yield "circular bases", {"tsconfig.json": dict(base, extends="./base.json"), "base.json": {"extends": "./tsconfig.json"}}, None
    yield "base in another folder, bad value", {"tsconfig.json": dict(base, extends="./deep/base.json"), "deep/base.json": {"compilerOptions": {"module": "what"}}}, {"tsconfig.json": base}
    yield top(references=[{"path": "./gone"}])
    yield top(references=[{"path": "../gone/tsconfig.json"}, {"path": "./gone"}])
    yield "reference to itself", {"tsconfig.json": dict(base, references=[{"path": "."}])}, None
    yield "reference to a project that is not composite", {"tsconfig.json": dict(base, references=[{"path": "./deep"}]), "deep/tsconfig.json": base}, None
    yield "reference to a broken project", {"tsconfig.json": dict(base, references=[{"path": "./ref"}]), "ref/tsconfig.json": '{ "compilerOptions": {', "ref/x.ts": "export {};\n"}, None
    yield "reference cycle", {"tsconfig.json": {"compilerOptions": dict(base["compilerOptions"], composite=True, noEmit=False), "references": [{"path": "./ref"}]}, "ref/tsconfig.json": {"compilerOptions": {"composite": True, "types": []}, "references": [{"path": ".."}]}, "ref/x.ts": "export {};\n"}, None
    # several things wrong at once, in one file and in the files it extends
    one = {"bogus": 1, "strictt": True, "lib": "es2020", "module": "es1999", "target": "es1999", "paths": [], "types": "node", "jsx": "vue", "newLine": "nl"}
    for k in range(14):
        a, z = rng.sample(sorted(one), rng.randrange(2, 5)), rng.sample(sorted(one), rng.randrange(1, 4))
        files = {"tsconfig.json": {"compilerOptions": dict(base["compilerOptions"], **{n: one[n] for n in a})}}
        if k % 2:
            where = rng.choice(["base.json", "deep/base.json"])
            files[where] = {"compilerOptions": {n: one[n] for n in z}}
            if rng.random() < .5:
                files[where]["extends"] = rng.choice(["./gone.json", "gone-package", "./" + os.path.basename(where)])
            ext = ["./" + where] + rng.sample(["./gone1.json", "gone-package/x", "./tsconfig.json", "./gone2.json"], rng.randrange(3))
            rng.shuffle(ext)
            files["tsconfig.json"]["extends"] = ext
        elif k % 4:
            files["tsconfig.json"]["extends"] = rng.sample(["./gone1.json", "gone-package/x", "./tsconfig.json", "./gone2.json"], 2)
        if rng.random() < .4:
            files["tsconfig.json"]["references"] = [{"path": "./gone"}]
        yield "several problems %d" % k, files, None
    for k in range(8):
        o = dict(base["compilerOptions"])
        for m in rng.sample([dict(declarationMap=True), dict(mapRoot="x"), dict(emitDecoratorMetadata=True), dict(checkJs=True, allowJs=False), dict(types=["not-there", "nor-there"]), dict(baseUrl="."), dict(target="es5"), dict(moduleResolution="classic"), dict(outFile="x.js"), dict(paths={"a**": ["x"], "b**": ["y"]}), dict(inlineSourceMap=True, sourceMap=True)], rng.randrange(2, 6)):
            o.update(m)
        files = {"tsconfig.json": {"compilerOptions": o}}
        if k % 2:
            files["tsconfig.json"].update(rng.choice([dict(files=["main.ts", "gone1.ts", "other.ts", "gone2.ts"]), dict(references=[{"path": "./gone"}, {"path": "./deep"}])]))
        if k % 3 == 0:
            files = {"tsconfig.json": {"extends": "./deep/base.json"}, "deep/base.json": dict(files["tsconfig.json"], **({"files": ["../main.ts", "gone.ts"]} if k % 2 else {"include": ["../*.ts"]}))}
        yield "several conflicts %d" % k, files, None
    yield top(rest=dict(files=["main.ts"]), files=["main.ts", "gone.ts"])
    yield top(rest=dict(files=["main.ts", "other.ts"]), files=["main.ts", "note.txt", "other.ts"])
    yield top(rest=dict(files=["main.ts"]), files=["main.ts", "plain.js"])
    yield top(rest=dict(files=["main.ts"]), files=["main.ts", "deep"])
    yield "output folder listed", {"tsconfig.json": {"compilerOptions": {"types": [], "strict": True}, "include": ["**/*"], "references": [{"path": "./lib"}]}, "lib/tsconfig.json": {"compilerOptions": {"composite": True, "outDir": "../dist", "rootDir": ".", "types": []}}, "lib/l.ts": "export const l = Promise.resolve(1);\nl;\n", "dist/l.d.ts": "export declare const l: Promise<number>;\ntype X = string | 'a';\n"}, None


def run(c):
    b = build.binary()
    rng = c.rng
    c.rule = ("one evaluation = one project (broken or not) in one run, whose results are compared with the compiler's own configuration errors (broken) or with a run without the broken projects (others); "
              "non-trivial = a distinct broken configuration")
    seen = collections.Counter()
    good_pool = [x for x in corpus.load("rules") if len(x["files"]) == 1 and x.get("ts") == "tsconfig.json"]

    def norm(d):
        h = d["message"].get("help", "")
        return d["message"]["id"], h.split("\nSee https://")[0], d["file_path"], d["range"]["pos"] if "range" in d else None, d["range"]["end"] if "range" in d else None

    for rnd in range(c.pick(1, 14)):
        with batch.Area("c07") as root:
            # projects that stay whole
            goods = []
            cases = rng.sample(good_pool, 25)
            mains = corpus.layout(root, cases)
            goods += list(mains.values())
            goods += work.project(root, "whole", SRC)
            os.makedirs(root + "/loose")
            for n, t in SRC.items():
                p = root + "/loose/" + n.replace("/", "_")
                with open(p, "w") as f:
                    f.write(t)
                goods.append(p)

            def put(d, files):
                for n, t in files.items():
                    p = "%s/%s" % (d, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as f:
                        f.write(t if isinstance(t, str) else json.dumps(t, indent=1))
            bad = []
            for i, (name, files, twin) in enumerate(breakages(rng)):
                d = "%s/bad%d" % (root, i)
                put(d, dict(SRC, **{"note.txt": "x", "plain.js": "Promise.resolve();\n"}))
                put(d, files)
                srcs = ["%s/%s" % (d, n) for n in SRC] + [d + "/" + n for n in files if n.endswith(".ts")]
                bad.append((name, d, files, twin, srcs))
            ref = c08.reference([{"config": d + "/tsconfig.json", "cwd": d, "files": []} for _, d, _, _, _ in bad])

            def go(fs, env=None, procs=4, cwd="/"):
                gs = [(fs[::2], work.ALL[:30] + work.ALL[30:]), (fs[1::2], work.ALL)]
                return tsgo.run(b, tsgo.payload(gs, report_semantic=True, report_syntactic=True), ["-fix", "-fix-suggestions"], cwd=cwd, procs=procs, env=env, timeout=300)

            r0 = go(goods)
            c.need(r0.ok(), "the whole projects cannot be linted: " + r0.why())
            base0 = work.view(r0.diags)
            c.need(len(base0) > 40, "the whole projects report little")
            rs = go(goods, SW)
            bases = work.view(rs.diags)

            def judge(part, r, env, what):
                """part: indexes of the broken projects in this run, next to the whole ones."""
                if not r.ok():
                    c.violation("%s: %s" % (what, r.why()), configs={bad[i][0]: bad[i][2] for i in part})
                    return
                dirs = tuple(bad[i][1] + "/" for i in part)
                rest = [d for d in r.diags if not (d.get("file_path") or "").startswith(dirs)]
                df = work.diff(base0 if env is None else bases, work.view(rest))
                if df:
                    c.violation("%s: other projects' results change: %s" % (what, df), configs={bad[i][0]: bad[i][2] for i in part})
                for i in part:
                    name, d, files, twin, srcs = bad[i]
                    c.evaluations += 1
                    own = [x for x in r.diags if (x.get("file_path") or "").startswith(d + "/")]
                    errs = collections.Counter(norm(x) for x in own if x["kind"] == 1 and not x["message"]["id"].startswith("TS"))
                    a = ref[i]
                    roots = set(a["roots"])
                    gov = [s for s in srcs if s in roots and os.path.dirname(s) != d + "/ref" and os.path.dirname(s) != d + "/lib" and not (os.path.dirname(s) == d + "/deep" and "deep/tsconfig.json" in files)]
                    probs = a["parse"] or a["program"]
                    want = collections.Counter(("tsconfig-error", x["text"], x["file"] or d + "/tsconfig.json", *((x["pos"], x["end"]) if x["pos"] >= 0 else (None, None))) for x in probs)
                    if env is None:
                        if not gov:
                            seen["governs nothing"] += 1
                            continue
                        if set(errs) - set(want) and "deep/tsconfig.json" not in files and "ref/tsconfig.json" not in files or set(want) - set(errs):
                            c.violation("%s: %s: configuration problems not reported %s; reported but not the compiler's %s" % (what, name, list(want - errs)[:2], list(errs - want)[:2]), files=files)
                        res = [x for x in own if x not in () and (x["kind"] == 0 or x["message"]["id"].startswith("TS")) and x["file_path"] in gov]
                        if probs and res:
                            c.violation("%s: %s: a file of a broken project is linted all the same: %s" % (what, name, json.dumps(res[0])[:400]), files=files)
                        if not probs and not res:
                            c.violation("%s: %s: no result for a project that is whole" % (what, name), files=files)
                        seen["broken" if probs else "whole after all"] += 1
                        if probs:
                            c.saw(name, json.dumps(files))
                    else:
                        if errs:
                            c.violation("%s: %s: a configuration problem is reported in spite of the switch: %s" % (what, name, list(errs)[:2]), files=files)
                        # each governed file is linted: the first file has a promise that no option hides
                        lint = {x["file_path"] for x in own if x["kind"] == 0}
                        for s in gov:
                            if os.path.basename(s) in ("main.ts", "other.ts") and s not in lint:
                                c.violation("%s: %s: %s has no results in spite of the switch" % (what, name, os.path.relpath(s, d)), files=files)
                                break

            idx = list(range(len(bad)))
            plan = []
            for env, nm in ((None, "without the switch"), (SW, "with the switch")):
                for i in idx:
                    fs = goods + bad[i][4]
                    rng.shuffle(fs)
                    plan.append(([i], fs, env, rng.choice([1, 4, 8]), rng.choice([root, "/"]), "%s next to whole projects, %s" % (bad[i][0], nm)))
            for k in range(c.pick(3, 6)):
                part = rng.sample(idx, rng.choice([2, 5, 20, len(idx)]) if k else len(idx))
                fs = goods + [s for i in part for s in bad[i][4]]
                rng.shuffle(fs)
                plan.append((part, fs, [None, SW][k % 2], 8, root, "%d broken projects at once" % len(part)))
            with cf.ThreadPoolExecutor(6) as ex:
                for x, r in zip(plan, ex.map(lambda x: go(*x[1:5]), plan)):
                    judge(x[0], r, x[2], x[5])

            # with the switch, the results are those under the configuration without the offending part
            def twin_runs(i):
                name, d, files, twin, srcs = bad[i]
                gov = [s for s in srcs if s in set(ref[i]["roots"])]
                if not gov:
                    return None
                r1 = go(gov, SW)
                put(d, twin)
                return r1, go(gov)

            twins = [i for i in idx if bad[i][3] and (ref[i]["parse"] or ref[i]["program"])]
            with cf.ThreadPoolExecutor(6) as ex:
                for i, rr in zip(twins, ex.map(twin_runs, twins)):
                    if rr is None:
                        continue
                    r1, r2 = rr
                    name, d, files, twin, srcs = bad[i]
                    c.evaluations += 1
                    if not r1.ok() or not r2.ok():
                        c.violation("%s: %s" % (name, (r1 if not r1.ok() else r2).why()), files=files)
                        continue
                    c.need(not any(x["message"]["id"] == "tsconfig-error" for x in r2.diags), "the configuration without the offending part of %s is broken too" % name)
                    df = work.diff(work.view(r1.diags), work.view(r2.diags))
                    if df:
                        c.violation("%s: with the switch the results are not those of the rest of the configuration: %s" % (name, df), files=files, twin=twin)
                    seen["compared with the rest"] += 1
    c.cov["projects"] = dict(seen)
    c.need(seen["broken"] > 60 and seen["compared with the rest"] > 25, "too few broken configurations were seen: %s" % dict(seen))
    c.sample([n for n, _, _ in breakages(rng)][:20])
    c.assumptions = ["what is wrong with a configuration is what the pinned compiler says about it (harness/tsref)", "a configuration with a syntax error counts as an empty one, as the project's patch to the compiler has it"]
