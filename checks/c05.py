"""C05: linting with in-memory overrides equals linting a tree that holds the same texts; nothing is ever written."""
import collections, hashlib, json, os, shutil
import batch, build, corpus, tsgo, work

FLAGS = ("-fix", "-fix-suggestions")


def snapshot(root):
    """Names, types, contents, times of a tree."""
    out = {}
    for dp, dn, fn in os.walk(root):
        for n in dn + fn + [""]:
            p = os.path.join(dp, n) if n else dp
            st = os.lstat(p)
            h = ""
            if n in fn and n and not os.path.islink(p):
                h = hashlib.blake2b(open(p, "rb").read(), digest_size=8).hexdigest()
            out[os.path.relpath(p, root)] = (st.st_mode, st.st_mtime_ns if n in fn or not n else 0, st.st_size if n in fn else 0, h)
    return out


LIB = ["export const v = %s;\nexport type T = %s;\n/** @deprecated gone */ export function f%d(): %s { return null!; }\n", "export class v { private p = %s; m(): %s { return null!; } }\nexport type T = v; export declare const f%d: () => %s;\n",
       "export enum T { A = 1 as any as number, B }\nexport const v: %s = null!; export async function f%d(x?: %s): Promise<%s> { return null!; }\n"]
TY = ["any", "number", "string | undefined", "Promise<void>", "() => Promise<number>", "string[]", "1 | 2", "null", "unknown", "{ a: any }", "Error"]


def lib(rng, k):
    t = rng.choice(LIB)
    n = t.count("%s")
    vals = [rng.choice(TY) for _ in range(n)]
    if t is LIB[0]:
        return t % (rng.choice(["1", "'s' as any", "null", "Promise.resolve(1)", "[1, 2]", "{ a: 1 as any }"]), vals[0], 0, vals[1])
    if t is LIB[1]:
        return t % (rng.choice(["1", "''"]), vals[0], 0, vals[1])
    return t % (vals[0], 0, vals[1], vals[2])


USE = "import { v, T, f0 } from '%s';\nimport * as ns from '%s';\nlet t: T = null!; v; v.a; f0(); f0; [t].sort(); `${t}`; `${v}`; if (v) {} if (t) {} v + 1; ns.v + ''; const q: number = v; async () => { await v; await f0(); };\nglobalThing; globalThing.x; for (const k in v) {}\nfunction g(x: T | string) { return x!; } const z: string = t as string;\nexport { v as w, q };\n"


def tree(rng, k):
    """One project as {name: text} plus what may be overridden: every file, the config too."""
    f = {}
    f["lib/a.ts"] = lib(rng, k)
    f["lib/b.ts"] = "export * from './a';\n" if rng.random() < .6 else lib(rng, k)
    f["lib/index.ts"] = "export { v, T, f0 } from './b';\n"
    f["g.d.ts"] = "declare const globalThing: %s;\n" % rng.choice(TY)
    f["node_modules/pkg/package.json"] = json.dumps({"name": "pkg", "types": rng.choice(["one.d.ts", "two.d.ts"])})
    f["node_modules/pkg/one.d.ts"] = "export declare const v: %s; export type T = %s; export declare function f0(): %s;\n" % tuple(rng.choice(TY) for _ in range(3))
    f["node_modules/pkg/two.d.ts"] = "export declare const v: %s; export type T = %s; /** @deprecated */ export declare function f0(): %s;\n" % tuple(rng.choice(TY) for _ in range(3))
    for i, m in enumerate(["./lib/a", "./lib", "./lib/b", "pkg", "./main0"]):
        f["main%d.ts" % i] = USE % (m, m) if m != "./main0" else "import { w, q } from './main0'; w; w.x; `${w}`; const s: string = q; export {};\n"
    f["ref.ts"] = "/// <reference path='./g.d.ts' />\nglobalThing; globalThing.a; `${globalThing}`;\nif (globalThing) {}\n"
    f["base.json"] = json.dumps({"compilerOptions": {"strict": rng.random() < .5, "target": "esnext", "module": "esnext", "moduleResolution": "bundler", "types": []}})
    f["tsconfig.json"] = json.dumps({"extends": "./base.json", "compilerOptions": {"noUncheckedIndexedAccess": rng.random() < .5, "lib": ["esnext"]}, "files": ["g.d.ts", "ref.ts"] + ["main%d.ts" % i for i in range(5)]})
    return f


def write(root, files):
    for n, t in files.items():
        p = os.path.join(root, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t.encode("utf-8", "surrogateescape"))


def run(c):
    b = build.binary()
    c.rule = ("for each project: tree A on disk + overrides against tree B where those texts are saved, all rules, fixes, type errors; "
              "non-trivial = an (project, set of overridden roles) pair where overriding changes the result of the run")
    with batch.Area("c05") as root:
        A, B, C = root + "/aa", root + "/bb", root + "/cc"
        cases = []
        multi = [x for x in corpus.load("conf") if len(x["files"]) > 1]
        for k in range(c.pick(70, 700)):
            if k % 3 == 0:
                x = c.rng.choice(multi)
                y = c.rng.choice(multi)
                fs = {n: t for n, t in x["files"].items()}
                names = sorted(fs)
                new = {n: fs[n] for n in names}
                for n in c.rng.sample(names, c.rng.randrange(1, len(names) + 1)):
                    m = c.rng.randrange(4)
                    if m == 3:
                        new[n] = ""
                    elif m == 0:
                        new[n] = "\ufeff// é\n" + fs[n]
                    elif m == 1:
                        new[n] = list(y["files"].values())[0] + "\n" + fs[n]
                    else:
                        new[n] = fs[n].replace("number", "any").replace("string", "Promise<void>")
                cfg = {"extends": "../fixtures/" + x["ts"], "compilerOptions": {"types": []}, "files": [n for n in names]}
                fs["tsconfig.json"] = json.dumps(cfg)
                new["tsconfig.json"] = fs["tsconfig.json"]
                lint = [n for n in names if not n.endswith(".json")]
            else:
                fs, nw = tree(c.rng, k), tree(c.rng, k)
                roles = c.rng.choice([["lib/a.ts"], ["lib/b.ts"], ["lib/index.ts", "lib/a.ts"], ["g.d.ts"], ["main0.ts", "main4.ts"], ["node_modules/pkg/package.json"], ["node_modules/pkg/one.d.ts", "node_modules/pkg/two.d.ts"],
                                      ["tsconfig.json"], ["base.json"], ["ref.ts", "lib/a.ts"], sorted(fs)])
                new = dict(fs)
                for r in roles:
                    new[r] = nw[r]
                # a buffer emptied in the editor, and one filled while the saved file is empty
                for r in roles:
                    if r.endswith(".ts") and c.rng.random() < .2:
                        new[r] = ""
                    elif r.endswith(".ts") and c.rng.random() < .1:
                        fs[r] = ""
                if "main0.ts" in roles:
                    new["main0.ts"] = "any.x;\n" + new["main0.ts"].replace("v + 1", "1 + v")
                lint = [n for n in fs if n.startswith(("main", "ref"))]
                if c.rng.random() < .5:
                    lint = c.rng.sample(lint, 3)
            cases.append((fs, new, lint))
        if not os.path.isdir(A + "/fixtures"):
            for r in (A, B, C):
                shutil.copytree(corpus.FIX, r + "/fixtures")
        for k, (fs, new, lint) in enumerate(cases):
            write("%s/t%d" % (A, k), fs)
            write("%s/t%d" % (B, k), new)
            write("%s/t%d" % (C, k), fs)
        before = {r: snapshot(r) for r in (A, B)}
        kw = dict(report_semantic=True, report_syntactic=True)

        def view(r, rt):
            o = collections.defaultdict(collections.Counter)
            for d in r.diags:
                o[(d.get("file_path") or "").replace(rt, "@")][tsgo.key(d).replace(rt, "@")] += 1
            return o

        def shifted(diags, rt, marked):
            """The same diagnostics with the ranges of the given files moved back by a byte-order mark."""
            def mv(x):
                if isinstance(x, dict):
                    if set(x) == {"pos", "end"}:
                        return {"pos": max(0, x["pos"] - 3), "end": max(0, x["end"] - 3)}
                    return {k: mv(v) for k, v in x.items()}
                return [mv(v) for v in x] if isinstance(x, list) else x
            o = collections.defaultdict(collections.Counter)
            for d in diags:
                f = d.get("file_path") or ""
                o[f.replace(rt, "@")][tsgo.key(mv(d) if f in marked else d).replace(rt, "@")] += 1
            return o

        def one(k):
            fs, new, lint = cases[k]
            rs = [(r,) for r in tsgo.RULES]
            over = {"%s/t%d/%s" % (A, k, n): t for n, t in new.items() if t != fs[n]}
            extra = dict(over)
            go = lambda rt, **p: tsgo.run(b, tsgo.payload([(["%s/t%d/%s" % (rt, k, n) for n in lint], rs)], **dict(kw, **p)), FLAGS, cwd=root, procs=2)
            return (go(A, source_overrides=over), go(B), go(A), go(B, source_overrides={"%s/t%d/%s" % (B, k, n): t for n, t in new.items()}),
                    go(A, source_overrides=dict(over, **{"%s/t%d/unrelated%d.ts" % (A, k, i): "any.x;" for i in range(3)}, **{"%s/elsewhere/x.ts" % A: "let a;"})))

        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(4) as ex:
            for k, (a, bb, plain, same, more) in enumerate(ex.map(one, range(len(cases)))):
                fs, new, lint = cases[k]
                c.evaluations += 5
                fails = [r for r in (a, bb, plain, same, more) if not r.ok()]
                if fails:
                    c.violation("project %d: run failed: %s" % (k, fails[0].why()), files=fs, new=new)
                    continue
                va, vb = view(a, A), view(bb, B)
                if va != view(plain, A):
                    c.saw(k, tuple(n for n in new if new[n] != fs[n]))
                bom = [n for n in new if new[n].startswith("\ufeff")]
                for tag, r, rt in (("overrides on the old tree", a, A), ("overrides equal to what is saved", same, B), ("overrides plus unrelated ones", more, A)):
                    v = view(r, rt)
                    if v != vb and bom:
                        # listed finding: only the offset of the mark differs
                        sh = shifted(r.diags, rt, {"%s/t%d/%s" % (rt, k, n) for n in bom if r is same or new[n] != fs[n]})
                        if sh == vb:
                            c.violation("project %d: %s: ranges of a file that starts with a byte-order mark are 3 bytes later than from disk" % (k, tag), ident={"kind": "bom-offset"}, files=fs, new=new)
                            continue
                    if v != vb:
                        d = [n for n in set(v) | set(vb) if v[n] != vb[n]]
                        c.violation("project %d: %s differ from the saved tree at %s: %s" % (k, tag, d[0], work.diff(vb[d[0]], v[d[0]])), overridden=[n for n in new if new[n] != fs[n]], files=fs, new=new, lint=lint)
                        break
        # a file that is not on disk yet, imported by one that is
        for k in range(c.pick(6, 60)):
            fs = tree(c.rng, k)
            gone = c.rng.choice([["lib/a.ts"], ["lib/b.ts"], ["main4.ts"], ["g.d.ts"]])
            ra, rb = A + "/n%d" % k, B + "/n%d" % k
            if k % 3 == 1:
                fs[gone[0]] = ""
            write(rb, fs)
            write(ra, {n: t for n, t in fs.items() if n not in gone})
            lint = ["main%d.ts" % i for i in range(5)] + ["ref.ts"]
            go = lambda rt, **p: tsgo.run(b, tsgo.payload([(["%s/%s" % (rt, n) for n in lint], work.ALL)], **dict(kw, **p)), FLAGS, cwd=root)
            x, y = go(ra, source_overrides={"%s/%s" % (ra, n): fs[n] for n in gone}), go(rb)
            c.evaluations += 2
            if not x.ok() or not y.ok():
                c.violation("new file %s: run failed: %s" % (gone, [r.why() for r in (x, y) if not r.ok()][0]), files=fs)
            elif view(x, ra) != view(y, rb):
                vx, vy = view(x, ra), view(y, rb)
                d = [n for n in set(vx) | set(vy) if vx[n] != vy[n]]
                c.violation("override of the missing file %s differs from the saved tree at %s: %s" % (gone, d[0], work.diff(vy[d[0]], vx[d[0]])), files=fs)
            else:
                c.saw("new", k, gone[0])
            for r, rt in ((A, ra), (B, rb)):
                for p, v in snapshot(rt).items():
                    before[r][os.path.normpath(os.path.join(os.path.relpath(rt, r), p))] = v
        for r in (A, B):
            after = snapshot(r)
            before[r]["."] = after["."]
            if after != before[r]:
                ch = [p for p in set(after) | set(before[r]) if after.get(p) != before[r].get(p)]
                c.violation("linting changed the tree: %s" % ch[:5])
            c.count("files_watched_for_writes", len(after))
        c.sample(dict(project=sorted(cases[1][0]), overridden=[n for n in cases[1][1] if cases[1][1][n] != cases[1][0][n]]))
