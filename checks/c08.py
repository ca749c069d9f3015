"""C08: reported TypeScript errors are exactly the compiler's."""
import collections, concurrent.futures as cf, json, os, subprocess
import batch, build, corpus, hostile, tsgo, work
import c13

FEW = [(r,) for r in ("no-floating-promises", "no-unsafe-member-access", "await-thenable", "restrict-template-expressions")]


def reference(qs, timeout=800):
    """What the compiler reports for each request (see harness/tsref)."""
    r = subprocess.run([build.reference()], input=json.dumps(qs).encode("utf-8", "surrogatepass"), capture_output=True, timeout=timeout)
    if r.returncode:
        raise RuntimeError("the reference program failed: " + r.stderr.decode("utf-8", "replace")[:1500])
    return json.loads(r.stdout)


def want(ds):
    """Reference diagnostics as the comparable multiset; a range the compiler leaves inverted is its empty end."""
    return collections.Counter({("TS%d" % d["code"], d["text"], d["end"] if d["end"] < d["pos"] else d["pos"], d["end"]): 1 for d in ds})


def got(ds):
    return collections.Counter((d["message"]["id"], d["message"]["description"], d["range"]["pos"], d["range"]["end"]) for d in ds)


# texts whose errors depend on the options
TEXTS = ["export const __esModule = true;\n", "export const require = 1, exports = 2;\n", "const require = 1; const exports = 2; export {};\n", "import m from './m';\nconst exports = m; export { exports };\n",
         "export async function f() {}\nconst Promise = 1;\n", "class B { static b() {} } class R extends B { static x = super.b(); }\nconst Reflect = 1; export {};\n", "class C { #a = 1; m() { return this.#a; } }\nfunction f() { const WeakMap = 1; class D { #a = 1; m() { return this.#a; } } }\nexport {};\n",
         "export {}; { const WeakSet = 1; class D { #m() {} n() { this.#m(); } } }\n", "export = 1;\n", "import fs = require('./m');\nfs;\n", "export default 1; export = 2;\n", "await 1;\nexport {};\n", "await 1;\n", "for await (const x of []) {}\nexport {};\n", "import.meta.x;\nexport {};\n", "import('./m').then(m => m.gone);\n", "import d, { x as y, gone } from './m';\nlet z: d = y;\n", "import type { x } from './m';\nx;\n", "import { type T, x } from './m';\n", "export { T } from './m';\nexport * from './m';\n", "import j from './d.json' with { type: 'json' };\nj.a.b;\n", "import j from './d.json';\nj.a;\n",
         "import './missing';\nimport x from 'missing-package';\n", "import m from './m.ts';\nm;\n", "import m from './m.js';\nm;\n", "1n; 2n ** 3n; x ??= 1; var x;\n", "/a/v.test(''); /b/dy; /(?<n>a)\\k<n>/; /\\p{L}/u;\n", "function* g() { yield; } [...g()]; for (const x of 'abc') {}\n", "enum E { A } const enum F { A } declare enum G { A } E.A; F.A; F;\n", "namespace N { export const x = 1 } N.x; class P { constructor(private x: number) {} }\n", "abstract class A { abstract m(): void; x: number; } class B extends A { m() {} n() {} }\n",
         "class A { m() {} x = 1; } class B extends A { m() {} x = 2; override gone() {} }\n", "function d(...x: any[]): any {} @d class K { @d p = 1; @d m(@d x) {} }\n", "declare const o: { a?: number; [k: string]: any }; o.zz; o.a.toFixed(); const p: { a?: 1 } = { a: undefined };\n", "declare const a: string[]; a[0].length; const [f] = a; f.length;\n", "let i; i = 1; i.x; function f(a, b?) { return this; } const o = { a: [], b: null };\n", "function u(a: number): number { if (a) return 1; } function v(a: number) { switch (a) { case 1: a++; case 2: return 1; } }\n", "lbl: for (;;) { break; } function w() { return 1; 2; } while (true) {} 3;\n", "import { x } from './m';\nfunction loc(unused: 1) { const y = 1; type T = 1; } class Q { private p = 1; #h = 2; }\n", "try {} catch (e) { e.message; } Array(1).at(0); Object.groupBy; Promise.try; 'a'.at(0); new Set([1]).union;\n", "using r = null; { await using s = null; } export {};\n", "let s: string = null; let n: number = undefined; s.length; (null as string | null).x;\n", "declare let f: (x: string) => void, g: (x: 'a' | number) => void; f = g; g = f; f.call(1, 2, 3);\n", "export const x = { a: Math.random() ? 1 : '' }, y = () => x; export default class { m() { return y; } }\n", "export function f() { class L { private p = 1 } return L; } export const g = f();\n", "<div a={1}>{gone}</div>; <></>; <Foo x />;\n", "var q = <number>1; <T>(x: T) => x; <const T,>(x: T) => x;\n", "with (x) {} arguments; 010; '\\08'; delete x; var eval = 1; var let_ = 1, yield_; function yield_() {}\n", "/// <reference path='./gone.ts' />\n/// <reference types='gone' />\n/// <reference lib='gone' />\nexport {};\n", "/// <reference path='./m.ts' />\n/// <reference lib='es2015' />\nMap;\n", "declare global { var gg: string } gg = 1; declare module './m' { interface Z { a: 1 } } export {};\n", "declare module 'x' { export const a: 1 } import { a, b } from 'x';\n", "document.x; window.y; setTimeout('x'); console.log(); process.env; Buffer;\n", "const u: unique symbol = Symbol(); const { a = 1, ...r } = { a: 2, b: 3 }; r.c; let v = <any>r as const;\n"]
WITH = [{"noEmit": True}, {"noEmit": False}, {"module": "commonjs"}, {"module": "preserve"}, {"module": "nodenext"}, {"module": "node20"}, {"module": "es2015"}, {"module": "esnext", "moduleResolution": "bundler"}, {"target": "es2015"}, {"target": "es2018"}, {"target": "es2021"}, {"target": "esnext"}, {"isolatedModules": True}, {"verbatimModuleSyntax": True}, {"erasableSyntaxOnly": True}, {"experimentalDecorators": True}, {"declaration": True}, {"isolatedDeclarations": True, "declaration": True}, {"strict": True}, {"strict": False}, {"strictNullChecks": False}, {"noImplicitAny": False}, {"useUnknownInCatchVariables": False}, {"noImplicitOverride": True}, {"noPropertyAccessFromIndexSignature": True}, {"exactOptionalPropertyTypes": True, "strict": True}, {"noUncheckedIndexedAccess": True}, {"noImplicitReturns": True, "noFallthroughCasesInSwitch": True}, {"allowUnreachableCode": False, "allowUnusedLabels": False}, {"noUnusedLocals": True, "noUnusedParameters": True}, {"lib": ["es2015"]}, {"lib": ["esnext", "dom"]}, {"lib": ["es5"]}, {"noLib": True}, {"jsx": "preserve"}, {"jsx": "react"}, {"jsx": "react-jsx"}, {"resolveJsonModule": True}, {"resolveJsonModule": False}, {"allowImportingTsExtensions": True, "noEmit": True}, {"importHelpers": True}, {"moduleDetection": "force"}, {"moduleDetection": "legacy"}, {"noResolve": True}, {"skipLibCheck": True}, {"skipDefaultLibCheck": True}, {"noUncheckedSideEffectImports": True}, {"useDefineForClassFields": False}, {"strictPropertyInitialization": False}, {"noImplicitThis": False}, {"allowUmdGlobalAccess": True}, {"preserveConstEnums": True}, {"composite": True}, {"checkJs": True, "allowJs": True}, {"strictBuiltinIteratorReturn": False}, {"rewriteRelativeImportExtensions": True}]


def run(c):
    b = build.binary()
    rng = c.rng
    c.rule = ("one evaluation = one linted file under one setting of the two switches, whose compiler errors are compared as a multiset (code, text, range) with a run of the compiler alone; "
              "non-trivial = a distinct file with at least one error")
    codes = set()

    def compare(root, cases, what):
        """cases: [(files linted, config or None)]; every file is asked for once."""
        qs, order = [], []
        for files, cfg in cases:
            qs.append({"config": cfg or "", "cwd": root, "roots": [] if cfg else files, "files": files})
        order = [f for files, _ in cases for f in files]
        ref = reference(qs)
        again = None
        R = {}
        for (files, cfg), a in zip(cases, ref):
            if cfg and (a["parse"] or a["program"]):
                for f in files:
                    R[f] = None  # a configuration problem: C07 judges those
                continue
            for f in files:
                R[f] = (want(a["syntactic"].get(f, [])), want(a["semantic"].get(f, []))) if f not in a["missing"] else None
        whole = {tuple(f): i for i, (f, _) in enumerate(cases)}
        chunk = []
        chunks = []
        for files, cfg in cases:
            chunk += [f for f in files if R[f] is not None]
            if len(chunk) >= 300:
                chunks.append(chunk)
                chunk = []
        if chunk:
            chunks.append(chunk)

        def one(k):
            fs = chunks[k]
            r = {}
            for syn, sem in ((False, False), (True, False), (False, True), (True, True)):
                r[syn, sem] = tsgo.run(b, tsgo.payload([(fs, FEW)], report_syntactic=syn, report_semantic=sem), cwd=root, procs=3, timeout=600)
            return r

        with cf.ThreadPoolExecutor(4) as ex:
            for fs, rs in zip(chunks, ex.map(one, range(len(chunks)))):
                plain = rs[False, False]
                for (syn, sem), r in rs.items():
                    if not r.ok():
                        c.violation("%s: %d files, syntactic=%s semantic=%s: %s" % (what, len(fs), syn, sem, r.why()), files=fs[:10])
                        continue
                    df = work.diff(work.view([d for d in plain.diags if d["kind"] == 0]), work.view([d for d in r.diags if d["kind"] == 0]))
                    if df:
                        c.violation("%s: reporting errors (syntactic=%s semantic=%s) changes what rules report: %s" % (what, syn, sem, df), files=fs[:10])
                    by = work.by_file([d for d in r.diags if d["kind"] == 1])
                    for f in list(by):
                        if f not in R or f not in fs:
                            c.violation("%s: an error for %s, which was not listed: %s" % (what, f, json.dumps(by[f][0])[:300]))
                    for f in fs:
                        c.evaluations += 1
                        w = collections.Counter()
                        if syn:
                            w += R[f][0]
                        if sem:
                            w += R[f][1]
                        g = got(by.get(f, []))
                        if sum(w.values()):
                            c.saw(what, os.path.relpath(f, root))
                        codes.update(k[0] for k in w)
                        if g != w:
                            t = open(f, "rb").read().decode("utf-8", "replace")
                            c.violation("%s: %s, syntactic=%s semantic=%s: not reported %s; reported but not the compiler's %s" % (what, os.path.relpath(f, root), syn, sem, list((w - g).elements())[:3], list((g - w).elements())[:3]),
                                        program={f: t}, tsconfig=open(os.path.dirname(f) + "/tsconfig.json").read() if os.path.exists(os.path.dirname(f) + "/tsconfig.json") else None)

    # one program per file, with options that change which errors there are
    pools = {n: corpus.load(n) for n in ["rules", "conf", "confx", "mut", "mutx", "cmut"]}
    cases = []
    for n, k in (("rules", c.pick(200, 4000)), ("conf", c.pick(900, None)), ("confx", c.pick(900, None)), ("mut", c.pick(150, 5000)), ("mutx", c.pick(150, 5000)), ("cmut", c.pick(200, 4000))):
        p = pools[n]
        cases += p if k is None or k >= len(p) else rng.sample(p, k)
    allp = [x for p in pools.values() for x in p]
    extra = []
    for i, x in enumerate(rng.sample(allp, c.pick(700, 9000))):
        m = x["main"]
        t = x["files"][m]
        o = rng.choice(allp)
        k = rng.random()
        if k < .45:
            t = c13.mangle(t, rng, o["files"][o["main"]])
        elif k < .6:
            t = rng.choice([hostile.cut, hostile.junk, hostile.crlf, hostile.unicode, hostile.bom])(t, rng)
        elif k < .9:
            ls = t.split("\n")
            for _ in range(rng.choice([1, 2, 5])):
                ls.insert(rng.randrange(len(ls) + 1), rng.choice(["// @ts-ignore", "// @ts-expect-error", "// @ts-expect-error unused", "/* @ts-ignore */", "// @ts-nocheck", "const zz%d: string = 1;" % rng.randrange(9), "undeclared();", "type ZZ = Missing;"]))
            if rng.random() < .15:
                ls.insert(0, "// @ts-nocheck")
            t = "\n".join(ls)
        t = t.encode("utf-8", "surrogatepass").decode("utf-8", "surrogateescape")
        y = dict(x, id="e%d" % i, files=dict(x["files"], **{m: t}))
        if rng.random() < .2 and len(x["files"]) == 1:
            n = os.path.splitext(m)[0] + rng.choice([".js", ".jsx", ".d.ts", ".mts", ".cts", ".tsx"])
            y["files"], y["main"] = {n: t}, n
            y["opts"] = dict(x.get("opts") or {}, allowJs=True, checkJs=rng.random() < .6, noEmit=True)
        if rng.random() < .4:
            y["opts"] = dict(y.get("opts") or {}, **rng.choice([{"noUnusedLocals": True, "noUnusedParameters": True}, {"strict": False}, {"skipLibCheck": True}, {"declaration": True}, {"declaration": True, "isolatedDeclarations": True}, {"noEmit": True}, {"isolatedModules": True},
                                                                {"verbatimModuleSyntax": True}, {"erasableSyntaxOnly": True}, {"lib": ["es2015"]}, {"noImplicitReturns": True, "noFallthroughCasesInSwitch": True}, {"allowUnreachableCode": False, "allowUnusedLabels": False}, {"composite": True}, {"forceConsistentCasingInFileNames": True}]))
        extra.append(y)
    for part in [cases[i:i + 6000] for i in range(0, len(cases), 6000)] + [extra]:
        with batch.Area("c08") as root:
            mains = corpus.layout(root, part)
            js = []
            for x in part:
                d = "%s/c/%s" % (root, x["id"])
                js.append(([mains[x["id"]]], d + "/tsconfig.json"))
            compare(root, js, "one file per program")
    # texts whose errors depend on the options
    with batch.Area("c08") as root:
        js = []
        for i in range(c.pick(700, 6000)):
            o = {"types": [], "noEmit": True}
            for k in rng.sample(WITH, rng.choice([0, 1, 1, 2, 3])):
                o.update(k)
            if i < len(TEXTS) * 4:
                o["noEmit"] = i // len(TEXTS) % 2 == 0
                if i >= len(TEXTS) * 2:
                    o.update(module="commonjs", target=["es2015", "es2021"][i // len(TEXTS) % 2])
            t = TEXTS[i] if i < len(TEXTS) else TEXTS[i % len(TEXTS)] if i < len(TEXTS) * 4 else rng.choice(TEXTS) if rng.random() < .6 else rng.choice(TEXTS) + rng.choice(TEXTS)
            fs = {"main" + rng.choice([".ts"] * 5 + [".tsx", ".mts", ".cts"] + [".js"] * bool(o.get("allowJs"))): t, "m.ts": "export const x = 1;\nexport type T = string;\nconst d = 2;\nexport default d;\n", "d.json": '{"a": 1}'}
            if rng.random() < .15:
                fs["package.json"] = '{"type": "%s"}' % rng.choice(["module", "commonjs"])
            d = "%s/o%d" % (root, i)
            os.makedirs(d)
            for n, x in fs.items():
                with open("%s/%s" % (d, n), "w") as f:
                    f.write(x)
            with open(d + "/tsconfig.json", "w") as f:
                json.dump({"compilerOptions": o, "include": ["*"]}, f)
            js.append(([d + "/" + n for n in fs if not n.endswith(".json")], d + "/tsconfig.json"))
        compare(root, js, "options")
    # programs of many files, all or some of them listed; files that share declarations
    with batch.Area("c08") as root:
        js = []
        pool = [x for x in pools["conf"] + pools["confx"] + pools["rules"] if len(x["files"]) == 1]
        for i in range(c.pick(24, 400)):
            n = rng.choice([2, 5, 12, 40])
            xs = rng.sample(pool, n)
            fs = {"f%d%s" % (j, os.path.splitext(x["main"])[1]): list(x["files"].values())[0] + ("\nexport {};\n" if rng.random() < .8 else "") for j, x in enumerate(xs)}
            fs["shared.ts"] = "export interface Shared { a: string }\nexport const bad: number = 'x';\n"
            fs["user.ts"] = "import { Shared, bad, gone } from './shared';\nconst s: Shared = { a: 1 };\nimport './f0';\nimport './nowhere';\n/// <reference path='./gone.ts' />\nexport default s.b + bad;\n"
            ps = work.project(root, "p%d" % i, fs, options=rng.choice([{"noEmit": True}, {"noEmit": True, "checkJs": True}, {"noEmit": True, "noUnusedLocals": True}]))
            some = ps if rng.random() < .5 else sorted(rng.sample(ps, max(1, len(ps) // 2)))
            js.append((some, "%s/p%d/tsconfig.json" % (root, i)))
        compare(root, js, "many files per program")
    # files of no project, and projects that refer to each other
    with batch.Area("c08") as root:
        os.makedirs(root + "/plain")
        files = []
        for i, x in enumerate(rng.sample(pool, c.pick(150, 800))):
            p = "%s/plain/f%d%s" % (root, i, os.path.splitext(x["main"])[1])
            with open(p, "wb") as f:
                f.write((list(x["files"].values())[0] + "\nexport {};\n").encode("utf-8", "surrogateescape"))
            files.append(p)
        for i in range(0, len(files), 75):
            compare(root, [(files[i:i + 50], None)], "default options")
        js = []
        for i in range(c.pick(40, 200)):
            d = "%s/r%d" % (root, i)
            for s in ("a", "b"):
                os.makedirs("%s/%s" % (d, s))
            with open(d + "/a/x.ts", "w") as f:
                f.write("export const x: string = 1;\nexport interface X { a: number }\n")
            with open(d + "/a/tsconfig.json", "w") as f:
                json.dump({"compilerOptions": {"composite": True, "types": [], "strict": True}}, f)
            with open(d + "/b/y.ts", "w") as f:
                f.write("import { x, X, z } from '../a/x';\nexport const y: X = { a: x };\n")
            with open(d + "/b/tsconfig.json", "w") as f:
                json.dump({"compilerOptions": {"types": [], "strict": True, "noUnusedLocals": i % 2 == 0}, "references": [{"path": "../a"}]}, f)
            js += [([d + "/a/x.ts"], d + "/a/tsconfig.json"), ([d + "/b/y.ts"], d + "/b/tsconfig.json")]
        compare(root, js, "references")
    c.cov["distinct_error_codes"] = len(codes)
    c.need(len(codes) > c.pick(250, 400), "few kinds of errors were seen (%d)" % len(codes))
    c.sample(sorted(codes)[:40])
    c.assumptions = ["the reference is the pinned compiler itself, called from a program of its own (harness/tsref)", "an error whose range the compiler leaves inverted (a missing token at the end) is taken as empty at its end"]
