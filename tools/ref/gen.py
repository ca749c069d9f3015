"""Generates the program corpora (run once; the result is committed).

  rules: the snippets of the repository's rule tests (dumped through an overlay of rule_tester.go)
  mut:   seeded token-level mutants of them
  conf:  single-file programs of the TypeScript compiler's own conformance suite
"""
import json, os, random, re, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "lib"))
import corpus

def rules(dump):
    seen, out = {}, []
    for l in open(dump):
        c = json.loads(l)
        main = c.get("FileName") or ("react.tsx" if c.get("Tsx") else "file.ts")
        files = {main: c["Code"]}
        for k, v in (c.get("Files") or {}).items():
            files[k] = v
        links = []
        txt = "".join(files.values())
        if re.search(r"""['"]\.\.?/""", txt):
            for f in sorted(os.listdir(corpus.FIX)):
                if not f.startswith("tsconfig") and f not in files and re.search(r"""['"]\./%s""" % re.escape(f.split(".")[0]), txt):
                    links.append(f)
        own = [c["Rule"]] + ([c["Options"]] if "Options" in c else [])
        k = json.dumps([files, main, os.path.basename(c["TSConfig"]), own], sort_keys=True)
        if k in seen:
            continue
        seen[k] = 1
        r = dict(id="r%d" % len(out), files=files, main=main, ts=os.path.basename(c["TSConfig"]), own=own)
        if links:
            r["links"] = links
        out.append(r)
    return out

TOK = re.compile(r"""(?P<com>//[^\n]*|/\*.*?\*/)|(?P<str>'(?:\\.|[^'\\\n])*'|"(?:\\.|[^"\\\n])*")|(?P<tpl>`(?:\\.|[^`\\])*`)|(?P<re>/(?![*/])(?:\\.|\[[^\]\n]*\]|[^/\\\n\[])+/[a-z]*(?=[\s).,;]))|(?P<num>\d[\w.]*)|(?P<id>[A-Za-z_$#][\w$]*)|(?P<op>>>>=|\?\?=|&&=|\|\|=|===|!==|\*\*=|<<=|>>=|\.\.\.|=>|==|!=|<=|>=|&&|\|\||\?\?|\?\.|\+\+|--|\+=|-=|\*=|/=|[-+*/%&|^!~?:;,.<>=(){}\[\]@])|(?P<ws>\s+)|(?P<x>.)""", re.S)
TYPES = ["string", "number", "boolean", "any", "unknown", "never", "void", "null", "undefined", "object", "bigint", "symbol", "Promise<string>", "Promise<void>", "string[]", "string | undefined", "string | null", "number | null", "() => void", "() => Promise<void>", "{ a: string }", "true", "'a'", "1", "Error", "RegExp", "readonly string[]", "[string, number]", "string & { __b: true }", "Map<string, any>", "any[]", "T"]
OPS = {"&&": ["||", "??"], "||": ["&&", "??"], "??": ["||", "&&"], "===": ["!==", "==", ">"], "!==": ["===", "!="], "==": ["!=", "==="], "!=": ["==", "!=="], "+": ["-", "*", "+="], "-": ["+", "*"], "?.": ["."], ".": ["?."], "+=": ["-=", "="], "??=": ["||=", "="], "||=": ["??="], "<": ["<="], ">": [">=", "=="], ">=": [">", "==="], "|": ["&"], "&": ["|"], "!": ["", "!!"]}
IDS = {"const": ["let", "var"], "let": ["const", "var"], "var": ["let"], "await": ["", "void"], "async": [""], "return": ["", "throw", "await", "return await"], "then": ["catch", "finally"], "catch": ["then"], "finally": ["then", "catch"], "private": ["public", "protected", "private readonly", "private static"], "public": ["private"], "protected": ["private"], "readonly": [""], "static": [""], "function": ["async function"], "if": ["while"], "while": ["if"], "in": ["of"], "of": ["in"], "true": ["false", "undefined"], "false": ["true", "null"], "null": ["undefined", "0"], "undefined": ["null", "''"], "for": ["for await"], "class": ["abstract class"], "any": ["unknown"], "void": [""], "as": ["satisfies"], "Promise": ["PromiseLike", "Array"], "Error": ["TypeError", "Object"], "indexOf": ["includes", "lastIndexOf"], "match": ["search", "exec"], "filter": ["map", "find"], "sort": ["toSorted", "reverse"], "String": ["Number"], "declare": [""], "this": ["self"], "new": [""], "throw": ["return"], "export": [""], "number": ["string"], "string": ["number"], "default": ["case 'zz'"], "case": ["default: case"], "enum": ["const enum"], "extends": ["implements"]}
TY = set("string number boolean any unknown never void null undefined object bigint symbol".split())

def mutate(src, rng):
    toks = [(m.lastgroup, m.group()) for m in TOK.finditer(src)]
    n = rng.choice([1, 1, 1, 2, 2, 3])
    for _ in range(n):
        idx = [i for i, (k, _) in enumerate(toks) if k not in ("ws", "com", "x")]
        if not idx:
            break
        op = rng.random()
        i = rng.choice(idx)
        k, t = toks[i]
        if op < 0.45:
            # replace a token by a plausible alternative
            cand = [j for j in idx if toks[j][1] in OPS or toks[j][1] in IDS or toks[j][1] in TY or toks[j][0] in ("str", "num", "tpl")]
            if not cand:
                continue
            i = rng.choice(cand); k, t = toks[i]
            prev = next((toks[j][1] for j in range(i - 1, -1, -1) if toks[j][0] not in ("ws", "com")), "")
            if t in TY and prev in (":", "|", "<", ",", "&", "(", "=", "as", "[") and rng.random() < .8:
                r = rng.choice(TYPES)
            elif t in IDS:
                r = rng.choice(IDS[t])
            elif t in OPS:
                r = rng.choice(OPS[t])
            elif k == "str":
                r = rng.choice(["''", "'b'", "1", "null", "`x`", "undefined", "('a' as string)", '"it\'s"', "'\\n'"])
            elif k == "tpl":
                r = rng.choice(["'t'", "`${1}`", t[:-1] + "${'q'}`", t + ".length"])
            elif k == "num":
                r = rng.choice(["0", "-1", "1n", "'1'", "NaN", "1.5", "undefined"])
            else:
                continue
            toks[i] = (k, r)
        elif op < 0.62:
            # wrap or decorate an identifier / literal
            cand = [j for j in idx if toks[j][0] in ("id", "str", "num", "tpl") and toks[j][1] not in TY]
            if not cand:
                continue
            i = rng.choice(cand); k, t = toks[i]
            toks[i] = (k, rng.choice(["(%s)", "(%s as any)", "(%s as unknown)", "%s!", "(%s as string)", "await %s", "void %s", "(0, %s)", "/* c */ %s", "%s /* é */", "((%s))", "!%s", "`${%s}`", "(%s satisfies unknown)", "%s?.a", "%s[0]", "%s()", "(%s ?? null)", "[%s]", "{ a: %s }", "%s | undefined", "%s | null", "%s & {}", "...%s"]) % t)
        elif op < 0.72:
            # delete a token
            toks[i] = (k, "")
        elif op < 0.80:
            # swap two tokens of the same kind
            cand = [j for j in idx if toks[j][0] == k and j != i]
            if cand:
                j = rng.choice(cand)
                toks[i], toks[j] = toks[j], toks[i]
        elif op < 0.86:
            # optional / non-optional members and parameters
            cand = [j for j in idx if toks[j][1] == ":"]
            if cand:
                j = rng.choice(cand)
                toks[j] = ("op", rng.choice(["?:", ": readonly", ": null |", ": undefined |"]))
        elif op < 0.93:
            # duplicate a line
            lines = "".join(x for _, x in toks).split("\n")
            j = rng.randrange(len(lines))
            lines.insert(j, lines[j])
            toks = [(m.lastgroup, m.group()) for m in TOK.finditer("\n".join(lines))]
        else:
            s = "".join(x for _, x in toks)
            w = rng.choice(["async function w() {\n%s\n}", "function w<T>() {\n%s\n}", "try {\n%s\n} catch (e) {}", "class W { m() {\n%s\n} }", "const w = async () => {\n%s\n};", "namespace N {\n%s\n}", "if (x) {\n%s\n}", "// é\n%s", "%s\nexport {};", "for (const q of [1]) {\n%s\n}", "const w = () => (\n%s\n)", "switch (1 as number) { case 1:\n%s\n}"])
            s = w % s
            if rng.random() < .25:
                s = s.replace("\n", "\r\n")
            toks = [(m.lastgroup, m.group()) for m in TOK.finditer(s)]
    return "".join(x for _, x in toks)

def mut(base, n, seed, prefix="m"):
    rng = random.Random(seed)
    byrule = {}
    for c in base:
        byrule.setdefault(c["own"][0], []).append(c)
    out, seen = [], set()
    names = sorted(byrule)
    tries = 0
    while len(out) < n and tries < n * 8:
        tries += 1
        r = names[tries % len(names)]
        c = rng.choice(byrule[r])
        if len(c["files"]) > 1 or len(c["files"][c["main"]]) > 3000:
            continue
        t = mutate(c["files"][c["main"]], rng)
        k = (t, c["ts"], json.dumps(c["own"], sort_keys=True))
        if t == c["files"][c["main"]] or k in seen:
            continue
        seen.add(k)
        d = dict(c, id="%s%d" % (prefix, len(out)), files={c["main"]: t})
        out.append(d)
    return out

SEC = re.compile(r"^//// \[(.+?)\](?: ////)?\s*$")

def baseline_sources(path):
    """The original source files embedded in a compiler baseline."""
    try:
        t = open(path, encoding="utf-8").read()
    except UnicodeDecodeError:
        return None
    files, cur, first = {}, None, True
    for line in t.split("\n"):
        m = SEC.match(line)
        if m:
            n = m.group(1)
            if first:
                first = False
                cur = None
                continue
            if n in files or not n.endswith((".ts", ".tsx", ".mts", ".cts")):
                break
            if "/" in n.lstrip("/") and (".." in n or "node_modules" in n):
                return None
            cur = n.lstrip("/")
            files[cur] = []
            continue
        if cur is not None:
            files[cur].append(line)
    return {k: "\n".join(v).strip("\n") + "\n" for k, v in files.items()}

def conf(tsdir, n, seed):
    rng = random.Random(seed)
    fs = sorted(glob.glob(tsdir + "/testdata/baselines/reference/**/*.js", recursive=True))
    rng.shuffle(fs)
    out = []
    for f in fs:
        if len(out) >= n:
            break
        files = baseline_sources(f)
        if not files or not (80 < sum(map(len, files.values())) < 7000) or len(files) > 4:
            continue
        if any(re.search(r"[^\w./-]", k) for k in files):
            continue
        cand = [k for k in files if not k.endswith(".d.ts")]
        if not cand:
            continue
        main = max(cand, key=lambda k: len(files[k]))
        out.append(dict(id="f%d" % len(out), files=files, main=main, ts=rng.choice(["tsconfig.json", "tsconfig.minimal.json", "tsconfig.minimal.json", "tsconfig.unstrict.json"]), own=None, src=os.path.basename(f)))
    return out

if __name__ == "__main__":
    import build
    what = sys.argv[1]
    if what == "rules":
        r = rules(sys.argv[2]); corpus.save("rules", r)
    elif what == "mut":
        r = mut(corpus.load("rules"), int(sys.argv[2]), int(sys.argv[3])); corpus.save("mut", r)
    elif what == "conf":
        r = conf(build.ts_module_dir(), int(sys.argv[2]), int(sys.argv[3])); corpus.save("conf", r)
    print(what, len(r))
