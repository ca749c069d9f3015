"""C06: each file is linted under the TypeScript project the search rules give it."""
import collections, json, os, re
import batch, build, tsgo

EXT = (".ts", ".tsx", ".mts", ".cts", ".d.ts")
RULES = [("no-floating-promises",), ("no-redundant-type-constituents",), ("restrict-template-expressions",)]
JSEXT = (".js", ".jsx", ".mjs", ".cjs")


# ---- the model: which files a config includes, and the search

def pattern(p, base):
    """A regular expression for an include or exclude pattern, over absolute paths; None if it ends in a bare `**`."""
    p = os.path.normpath(os.path.join(base, p))
    out = ""
    parts = p.strip("/").split("/")
    for s in parts:
        if s == "**":
            out += "(?:/%s)*?"
        else:
            out += "/" + "".join("[^/]*" if ch == "*" else "[^/]" if ch == "?" else re.escape(ch) for ch in s)
    return out, parts[-1]


def include_re(p, base):
    out, last = pattern(p, base)
    if "*" not in last and "?" not in last and "." not in last:
        out += "(?:/%s)*?/[^/]*"
        last = "*"
    # wildcards do not descend into package folders and hidden folders, nor match hidden files
    out = out.replace("(?:/%s)*?", "(?:/(?!(?:node_modules|bower_components|jspm_packages)(?:/|$))[^./][^/]*)*?")
    if last.startswith("*"):
        i = out.rindex("/[^/]*")
        out = out[:i] + "/(?!\\.)" + out[i + 1:]
    return re.compile("^%s$" % out)


def exclude_re(p, base):
    out, last = pattern(p, base)
    return re.compile("^%s(?:/.*)?$" % out.replace("(?:/%s)*?", "(?:/[^/]+)*?"))


class Config:
    def __init__(self, tree, path):
        self.path = path
        self.raw = raw = json.loads(tree.files[path])
        eff = {}
        chain, p = [], path
        while p:
            r = json.loads(tree.files[p])
            chain.append((p, r))
            e = r.get("extends")
            p = os.path.normpath(os.path.join(os.path.dirname(p), e)) if e else None
        opts = {}
        for p, r in reversed(chain):
            d = os.path.dirname(p)
            if os.path.basename(p) == "jsconfig.json":
                opts["allowJs"] = (d, True)
            for k in ("files", "include", "exclude"):
                if k in r:
                    eff[k] = (d, r[k])
            for k, v in r.get("compilerOptions", {}).items():
                opts[k] = (d, v)
        base = os.path.dirname(path)
        self.allowjs = opts.get("allowJs", (0, False))[1]
        files = eff.get("files")
        inc = eff.get("include", (base, None if files else ["**/*"]))
        if "include" not in eff and files is not None:
            inc = (base, [])
        exc = eff.get("exclude")
        if exc is None:
            exc = (base, ["node_modules", "bower_components", "jspm_packages"])
            for k in ("outDir", "declarationDir"):
                if k in opts:
                    exc[1].append(os.path.normpath(os.path.join(opts[k][0], opts[k][1])))
        exts = EXT + (JSEXT if self.allowjs else ())
        incs = [include_re(p, inc[0]) for p in inc[1]]
        excs = [exclude_re(p, exc[0]) for p in exc[1]]
        self.names = {os.path.normpath(os.path.join(files[0], f)) for f in files[1]} if files else set()
        for f in tree.sources:
            if f.endswith(exts) and any(r.match(f) for r in incs) and not any(r.match(f) for r in excs):
                self.names.add(f)
        self.refs = []
        for r in raw.get("references", ()):
            q = os.path.normpath(os.path.join(base, r["path"]))
            self.refs.append(q if q.endswith(".json") else q + "/tsconfig.json")


class Tree:
    def __init__(self, root):
        self.root, self.files, self.sources = root, {}, []
        self.configs = {}

    def config(self, p):
        if p not in self.files:
            return None
        if p not in self.configs:
            self.configs[p] = Config(self, p)
        return self.configs[p]

    def up(self, d, skip_ts=False, skip_js=False):
        while True:
            for n, s in (("tsconfig.json", skip_ts), ("jsconfig.json", skip_js)):
                if not s and d + "/" + n in self.files:
                    return d + "/" + n
            if d.endswith("/node_modules") or d in ("/", ""):
                return None
            d, skip_ts, skip_js = os.path.dirname(d), False, False

    def find(self, f):
        """(config path or None, how it was found)"""
        start = self.up(os.path.dirname(f))
        visited, how = set(), "nearest"
        while start:
            level, depth = [start], 0
            while level:
                nxt = []
                for n in level:
                    if n in visited:
                        continue
                    visited.add(n)
                    k = self.config(n)
                    if not k:
                        continue
                    if f in k.names:
                        return n, "%s+%d" % (how, depth)
                    nxt += [x for x in k.refs if x not in nxt]
                level, depth = nxt, depth + 1
            start = self.up(os.path.dirname(start), True, not start.endswith("/tsconfig.json"))
            how = "ancestor"
        return None, "none"


# ---- generated trees

def grow(rng, root, serial):
    t = Tree(root)
    dirs = [root]
    for _ in range(rng.randrange(2, 8)):
        d = rng.choice(dirs) + "/" + rng.choice(["src", "lib", "test", "pkg", "a", "b.c", "node_modules/dep", "packages/x", "dist", "é", ".hid"])
        if d.count("/") - root.count("/") <= 6:
            dirs.append(d)
    dirs = sorted(set(dirs))
    for d in dirs:
        for n in rng.sample(["a", "b", "main", "x.test", "util", ".dot", "index"], rng.randrange(1, 5)):
            e = rng.choice([".ts"] * 5 + [".tsx", ".mts", ".cts", ".d.ts", ".js", ".jsx", ".mjs"])
            t.sources.append(d + "/" + n + e)
    names = []
    for d in dirs:
        if rng.random() < .62 or d == root and rng.random() < .8:
            names.append(d + "/tsconfig.json")
        if rng.random() < .12:
            names.append(d + "/jsconfig.json")
        while rng.random() < .3:
            names.append("%s/tsconfig.%s.json" % (d, rng.choice(["lib", "test", "build", "base"])))
    names = sorted(set(names))
    rel = lambda p, d: os.path.relpath(p, d) if rng.random() < .9 else p
    bases = []
    for i, p in enumerate(rng.sample(names, len(names))):
        d = os.path.dirname(p)
        o = {"types": ["m%d" % (serial * 40 + i)], "typeRoots": ["ROOT/types"]}
        c = {"compilerOptions": o}
        if rng.random() < .45:
            o["composite"] = rng.random() < .85
        if rng.random() < .2:
            o["allowJs"] = rng.random() < .8
        if rng.random() < .15:
            o["outDir"] = rng.choice(["dist", "lib", "../dist"])
        if rng.random() < .2:
            o["disableSolutionSearching"] = True
        pats = ["**/*", "*", "src", "src/**/*", "lib/*", "*.ts", "**/*.test.ts", "a*", "./", "../**/*", "packages/*/src", "test", "**/src/*", "**/b.c/**/*", "**/?.ts", "main.*", "src/*.tsx"]
        r = rng.random()
        if r < .15:
            c["files"] = []
        elif r < .35:
            c["files"] = [rel(f, d) for f in rng.sample(t.sources, min(len(t.sources), rng.randrange(1, 4))) if not f.endswith(JSEXT)]
            if rng.random() < .3:
                c["include"] = rng.sample(pats, 1)
        elif r < .75:
            c["include"] = rng.sample(pats, rng.randrange(1, 4))
        if rng.random() < .3:
            c["exclude"] = rng.sample(["src", "**/*.test.ts", "lib", "**/node_modules", "a.ts", "test/**/*", "**/util.*", "*.tsx", "**/src", "packages/*"], rng.randrange(1, 3))
        if bases and rng.random() < .3:
            q = os.path.relpath(rng.choice(bases), d)
            c["extends"] = q if q.startswith("../") else "./" + q
        if rng.random() < .55:
            refs = []
            for q in rng.sample(names, min(len(names), rng.randrange(1, 5))):
                x = os.path.relpath(q, d)
                if x.endswith("/tsconfig.json") and rng.random() < .7:
                    x = os.path.dirname(x)
                if x == "tsconfig.json":
                    x = rng.choice([".", "./tsconfig.json"])
                refs.append({"path": x})
            if rng.random() < .15:
                refs.insert(rng.randrange(len(refs) + 1), {"path": rng.choice(["./nowhere", "../gone/tsconfig.json"])})
            c["references"] = refs
        t.files[p] = json.dumps(c)
        bases.append(p)
    return t


def mark(diags):
    """What was observed per file: the marker type a rule's message names, and how often another rule reported."""
    obs = collections.defaultdict(list)
    for d in diags:
        m = re.search(r"\b(m\d+): 1", json.dumps(d.get("labeled_ranges")))
        obs[d["file_path"]].append(m.group(1) if m and d.get("rule") == "restrict-template-expressions" else d.get("rule") or d["message"]["description"][:80])
    return obs


def run(c):
    b = build.binary()
    rng = c.rng
    trees = c.pick(230, 5000)
    c.rule = ("one evaluation = one file of a generated directory tree linted in some run, whose project is read off a type that only one config declares and compared with an independent model of the search; "
              "non-trivial = a distinct (tree, file) that is decided by something else than the first config looked at, or found in no project")
    kinds = collections.Counter()
    with batch.Area("c06") as top:
        at = 0
        while at < trees:
            n = min(50, trees - at)
            root = "%s/g%d" % (top, at)
            ts = []
            for i in range(n):
                t = grow(rng, "%s/n%d/t" % (root, i), i)
                t.files = {p: x.replace("ROOT", root) for p, x in t.files.items()}
                ts.append(t)
                for f in t.sources:
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, "w") as h:
                        if f.endswith(".d.ts"):
                            h.write("export declare const q: Marker['k'];\nexport type Z = { a: string | 'x' };\n")
                        elif f.endswith(JSEXT):
                            h.write("/** @type {Marker['k']} */\nlet q = x();\nexport const s = `${q}`;\nPromise.resolve(1);\n")
                        else:
                            h.write("declare const q: Marker['k'];\nexport const s = `${q}`;\nPromise.resolve(1);\n")
                for p, x in t.files.items():
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as h:
                        h.write(x)
                    m = json.loads(x)["compilerOptions"]["types"][0]
                    os.makedirs("%s/types/%s" % (root, m), exist_ok=True)
                    with open("%s/types/%s/index.d.ts" % (root, m), "w") as h:
                        h.write('interface Marker { k: { %s: 1 } }\n' % m)
            expect = {}
            for t in ts:
                for f in t.sources:
                    expect[f] = t.find(f)
            everything = [f for t in ts for f in t.sources]
            runs = [everything, rng.sample(everything, len(everything))]
            for _ in range(c.pick(4, 6)):
                runs.append(rng.sample(everything, rng.choice([len(everything) // 2, 20, 60])))
            for t in rng.sample(ts, c.pick(2, 4)):
                runs += [[f] for f in rng.sample(t.sources, min(3, len(t.sources)))]
            for k, files in enumerate(runs):
                if k % 3 == 2:  # several groups, listed with the other kind of separator where that is accepted
                    gs = [(files[::2], RULES), (files[1::2], RULES[::-1])]
                else:
                    gs = [(files, RULES)]
                r = tsgo.run(b, tsgo.payload(gs), cwd=rng.choice([root, top, "/"]), procs=rng.choice([1, 3, 8]),
                             env={"OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS": "true"}, timeout=300)
                if not r.ok():
                    c.violation("run %d on %d files: %s" % (k, len(files), r.why()), files=files[:50])
                    continue
                obs = mark(r.diags)
                for f in files:
                    c.evaluations += 1
                    p, how = expect[f]
                    want = None if p is None else json.loads(next(t for t in ts if f.startswith(t.root + "/")).files[p])["compilerOptions"]["types"][0]
                    rule = "no-redundant-type-constituents" if f.endswith(".d.ts") else "no-floating-promises"
                    got = sorted(obs.pop(f, []))
                    # a declaration file has no expression to carry the marker
                    wants = [rule] if f.endswith(".d.ts") or want is None else sorted([want, rule])
                    if k == 0:
                        kinds[how if how.split("+")[-1] in "012" or how == "none" else how.split("+")[0] + "+3"] += 1
                    if how != "nearest+0":
                        c.saw(at, f)
                    if got != wants:
                        t = next(t for t in ts if f.startswith(t.root + "/"))
                        c.violation("%s (linted with %d others): the search gives %s (%s), observed %s instead of %s" % (os.path.relpath(f, t.root), len(files) - 1, p and os.path.relpath(p, t.root), how, got, wants),
                                    tree={os.path.relpath(q, t.root): json.loads(x) for q, x in t.files.items()}, sources=[os.path.relpath(s, t.root) for s in t.sources],
                                    markers={os.path.relpath(q, t.root): json.loads(x)["compilerOptions"]["types"] for q, x in t.files.items()})
                        break
                else:
                    for f in obs:
                        c.violation("a result for %s, which was not asked for" % f)
                        break
            if at == 0:
                t = ts[0]
                c.sample({os.path.relpath(f, t.root): [expect[f][0] and os.path.relpath(expect[f][0], t.root), expect[f][1]] for f in t.sources[:6]})
            import shutil
            shutil.rmtree(root)
            at += n
    c.cov["decided_by"] = dict(sorted(kinds.items()))
    c.need(kinds["nearest+1"] > 40 and kinds["ancestor+0"] > 40 and kinds["ancestor+1"] > 20 and kinds["none"] > 40, "too few files are decided by references or ancestors")
    c.assumptions = ["`includes` means: listed or matched as a root file of the config, as the code documents (an editor also counts files that are only imported)",
                     "program-level diagnostics are suppressed with the documented switch, so that trees with unusual references are still linted (C07 judges those diagnostics)"]
