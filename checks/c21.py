"""C21: the command line reports every problem and a matching summary."""
import collections, json, os, re, subprocess
import batch, build, corpus, hostile, tsgo, work

HEAD = re.compile("^ \x1b\\[7m\x1b\\[1m\x1b\\[38;5;37m ([a-z-]+) \x1b\\[0m — (.*)$", re.S)
WHERE = re.compile("^  \x1b\\[2m╭─┴─+\\(\x1b\\[0m \x1b\\[3m\x1b\\[38;5;117m(.*):(\\d+):(\\d+)\x1b\\[0m \x1b\\[2m\\)─+\x1b\\[0m$", re.S)
CODE = re.compile("^  \x1b\\[2m│ +(\\d+) │\x1b\\[0m  (.*)$", re.S)
CONT = "    \x1b[2m│\x1b[0m"
BIG = "  \x1b[2m│\x1b[0m  Error range is too big. Skipping code block printing."
FOOT = re.compile("^  \x1b\\[2m╰─+\x1b\\[0m$")
SUM = re.compile(r"^Found (?:\x1b\[[0-9;]*m)*(\d+)\x1b\[0m (errors?) .*linted \x1b\[1m(\d+)\x1b\[22m\x1b\[2m (files?) with \x1b\[1m(\d+)\x1b\[22m\x1b\[2m (rules?) in .* using \x1b\[1m(\d+)\x1b", re.S)
UL = re.compile("\x1b\\[4m(?:\x1b\\[[0-9:;]*m)*")
BREAKS = re.compile("\r\n|[\n\r\u2028\u2029]")


class Bad(Exception):
    pass


def parse(out):
    """The printed report as [(rule, message, path, line, column, None | [(line number, text, highlighted part or None)])], summary."""
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    i, res = 0, []
    if lines and lines[0] == "":
        i = 1
    while i < len(lines) and not lines[i].startswith("Found "):
        m = HEAD.match(lines[i])
        if not m:
            raise Bad("line %d of the output is no heading of a problem: %r" % (i, lines[i][:120]))
        rule, msg = m.group(1), [m.group(2)]
        i += 1
        while i < len(lines) and lines[i].startswith(CONT):
            t = lines[i][len(CONT):]
            if t[:len(rule) + 1].strip(" "):
                raise Bad("a continued message is not indented: %r" % t)
            msg.append(t[len(rule) + 1:])
            i += 1
        m = WHERE.match(lines[i]) if i < len(lines) else None
        if not m:
            raise Bad("line %d of the output does not say where: %r" % (i, lines[i:i + 1]))
        i += 1
        rows = []
        if i < len(lines) and lines[i] == BIG:
            rows = None
            i += 1
        else:
            # a line of the source may hold a carriage return or separator of its own, never a newline
            while i < len(lines) and CODE.match(lines[i]):
                k = CODE.match(lines[i])
                t, hi = k.group(2), None
                if UL.search(t):
                    a, b = UL.split(t, 1)
                    hi, z = b.split("\x1b[0m", 1)
                    t = a + hi + z
                    hi = (len(a), len(a) + len(hi))
                rows.append((int(k.group(1)), t, hi))
                i += 1
        if i >= len(lines) or not FOOT.match(lines[i]) or lines[i + 1:i + 2] != [""]:
            raise Bad("line %d of the output does not close the box: %r" % (i, lines[i:i + 1]))
        i += 2
        res.append((rule, "\n".join(msg), m.group(1), int(m.group(2)), int(m.group(3)), rows))
    s = SUM.match("\n".join(lines[i:]))
    if not s:
        raise Bad("the output has no summary: %r" % lines[i:i + 2])
    if len(lines) > i + 1:
        raise Bad("text after the summary: %r" % lines[i + 1])
    return res, s.groups()


def u16(t):
    return len(t) + sum(1 for ch in t if ord(ch) > 0xFFFF)


class Text:
    def __init__(self, raw):
        self.raw = raw
        self.starts = [0]
        t = raw.decode("utf-8", "surrogateescape")
        self.lines = []
        at = 0
        for m in BREAKS.finditer(t):
            self.lines.append(t[at:m.start()])
            at = m.end()
        self.lines.append(t[at:])
        b = 0
        self.starts = []
        at = 0
        for m in BREAKS.finditer(t):
            self.starts.append(b)
            b += len(t[at:m.end()].encode("utf-8", "surrogateescape"))
            at = m.end()
        self.starts.append(b)

    def at(self, pos):
        """(line index, text before pos on that line)"""
        import bisect
        l = bisect.bisect_right(self.starts, pos) - 1
        return l, self.raw[self.starts[l]:pos].decode("utf-8", "surrogateescape")


def box(text, d, rows):
    """'' or what is wrong with the printed source lines."""
    (l0, pre0), (l1, pre1) = text.at(d["range"]["pos"]), text.at(d["range"]["end"])
    if rows is None:
        return "" if l1 - l0 >= 8 else "the code of a range of %d lines is left out" % (l1 - l0 + 1)
    nums = [n for n, _, _ in rows]
    if not nums or nums != list(range(nums[0], nums[0] + len(nums))):
        return "line numbers %s are not consecutive" % nums
    if nums[0] > l0 + 1 or nums[-1] < l1 + 1 or nums[0] < 1 or nums[-1] > len(text.lines):
        return "lines %d-%d are shown for a problem on lines %d-%d of %d" % (nums[0], nums[-1], l0 + 1, l1 + 1, len(text.lines))
    cuts = set()
    for n, t, hi in rows:
        src = text.lines[n - 1].rstrip()
        if t.rstrip() == "" and src == "":
            continue
        if not src.endswith(t.rstrip()) or not t.rstrip():
            return "line %d is shown as %r, the source has %r" % (n, t[:80], src[:80])
        cut = len(src) - len(t.rstrip())
        if src[:cut].strip():
            return "line %d is shown as %r, without its beginning %r" % (n, t[:80], src[:cut])
        cuts.add(cut)
    if len(cuts) > 1:
        return "the lines are indented by different amounts: %s" % sorted(cuts)
    cut = cuts.pop() if cuts else 0
    for n, t, hi in rows:
        src = text.lines[n - 1]
        a = len(pre0) if n - 1 == l0 else 0
        z = len(pre1) if n - 1 == l1 else len(src)
        want = src[a:z].strip() if l0 <= n - 1 <= l1 else ""
        got = t[hi[0]:hi[1]].strip() if hi else ""
        if want != got:
            return "line %d: highlighted is %r, the problem's text there is %r" % (n, got[:80], want[:80])
        if want:
            i = hi[0] + len(t[hi[0]:hi[1]]) - len(t[hi[0]:hi[1]].lstrip()) + cut
            k = a + len(src[a:z]) - len(src[a:z].lstrip())
            if i != k:
                return "line %d: the highlight starts at character %d, the problem at %d" % (n, i, k)
    return ""


def judge(c, name, out, expect, texts, nfiles, root, flags, procs):
    """Compares a parsed report with the problems the same rules find."""
    try:
        got, (errs, ew, files, fw, rules, rw, threads) = parse(out)
    except Bad as e:
        c.violation("%s: %s" % (name, e), output=out[:20000])
        return
    want = collections.defaultdict(list)
    for d in expect:
        l, pre = texts[d["file_path"]].at(d["range"]["pos"])
        want[d["rule"], d["message"]["description"], os.path.relpath(d["file_path"], root), l + 1, u16(pre) + 1].append(d)
    left = collections.Counter({k: len(v) for k, v in want.items()})
    for g in got:
        k = g[:5]
        if left[k] <= 0:
            c.violation("%s: prints %s, which the rules do not report there (as often)" % (name, k), near=[x for x in want if x[0] == k[0]][:5])
            return
        left[k] -= 1
        ws = [box(texts[d["file_path"]], d, g[5]) for d in want[k]]
        if all(ws):
            c.violation("%s: %s: %s" % (name, k, ws[0]), rows=g[5], text=texts[want[k][0]["file_path"]].raw.decode("utf-8", "replace")[:20000])
            return
        c.saw(k, g[5] and len(g[5]))
        c.count("boxes" if g[5] else "boxes_left_out")
    miss = [k for k, n in left.items() if n > 0]
    if miss:
        c.violation("%s: %d problems are not printed, such as %s" % (name, len(miss), miss[0]))
    if int(errs) != len(got) or int(files) != nfiles or int(rules) != len(tsgo.RULES):
        c.violation("%s: the summary says %s errors, %s files, %s rules; there are %d, %d, %d" % (name, errs, files, rules, len(got), nfiles, len(tsgo.RULES)))
    if (ew == "error") != (len(got) == 1) or (fw == "file") != (nfiles == 1):
        c.violation("%s: the summary says %s %s in %s %s" % (name, errs, ew, files, fw))
    if int(threads) != procs:
        c.violation("%s: the summary says %s threads, %d were allowed" % (name, threads, procs))


TARGET = ["const p1 = Promise.resolve(1);\np1;\n", "async function f1() { await 1; }\n", "declare const a1: any;\nconst b1 = a1.c.d;\n",
          "declare const arr1: number[];\nfor (const i in arr1) {\n  i;\n}\n", "  \t'' + { a: 1 };\n", "Promise.resolve('\U0001d11eé'); /* é */ \n",
          "\u3000Promise.resolve(2);\u3000\n", "Promise.resolve(\n\t3\n);\n", "delete [1, 2][0]", "Promise.resolve(4)", "Promise.resolve('é')\n\n", "Promise.resolve(() => {\n" + "  void 0;\n" * 20 + "});\n"]
TALL = ["Promise.resolve(() => {\n" + "  void 0;\n" * k + "});\n" for k in range(4, 16)]


def program(rng, pool):
    """A source text with problems in awkward places."""
    r = rng.random()
    if r < .45:
        t = "".join(rng.choice(TARGET if rng.random() < .8 else TALL) for _ in range(rng.randrange(1, 6)))
    else:
        x = rng.choice(pool)
        t = list(x["files"].values())[0]
    if "\x1b" in t:
        return "export {};\n"
    for _ in range(rng.randrange(4)):
        k = rng.randrange(9)
        if k == 0:
            t = t.replace("\r", "").replace("\n", rng.choice(["\r\n", "\r", "\u2028", "\u2029"]))
        elif k == 1:
            t = re.sub("\n", lambda m: rng.choice(["\n", "\r\n", "\r", "\u2028", "\n\n", "\n"]), t)
        elif k == 2:
            t = hostile.unicode(t, rng)
        elif k == 3:
            t = t.rstrip() if rng.random() < .5 else t + rng.choice(["\n", "\n\n\n", "\t", " \n \n", "\r", "\u2029"])
        elif k == 4:
            t = re.sub("(?m)^", lambda m: rng.choice(["", "  ", "\t", "\u3000", " \t ", "\u00a0"]), t)
        elif k == 5:
            t = re.sub("(?m)$", lambda m: rng.choice(["", " ", " // é", " /* \U0001d11e */", "\t"]), t)
        elif k == 6:
            t = "\n" * rng.choice([1, 7, 98, 996]) + t
        elif k == 7:
            t = rng.choice(["\ufeff", "#!/usr/bin/env node\n", "// é\r", "export {};\n"]) + t.lstrip("\ufeff")
        else:
            t = re.sub("\n[ \t]*", " ", t)
    return t


def cli(b, cwd, flags, procs, timeout=300):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "OXC_", "OXLINT_"))}
    e["GOMAXPROCS"] = str(procs)
    try:
        p = subprocess.run([b] + flags, cwd=cwd, env=e, capture_output=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "", "timed out"
    return p.returncode, p.stdout.decode("utf-8", "surrogateescape"), p.stderr.decode("utf-8", "replace")


def run(c):
    b = build.binary()
    c.rule = ("one evaluation = one command line run whose printed report was parsed and compared with the problems a headless run of all rules finds in the files that belong to the project; "
              "non-trivial = a distinct printed problem (rule, message, place) whose source box was checked")
    pool = [x for x in corpus.load("rules") + corpus.load("conf") if len(x["files"]) == 1 and x["main"].endswith((".ts", ".tsx"))]
    rng = c.rng
    n = c.pick(180, 1500)
    import concurrent.futures as cf
    with batch.Area("c21") as root:
        import shutil
        shutil.copytree(corpus.FIX, root + "/fixtures")
        jobs = []
        for k in range(n):
            d = "%s/p%d" % (root, k)
            mine = d + rng.choice(["", "", "/sub", "/a b é"])
            os.makedirs(mine)
            own, other = {}, {}
            size = rng.choice([1, 1, 2, 5, 30]) if k != 3 else 0
            for j in range(size):
                fn = rng.choice(["", "src/", "src/deep/er/", "x y/"]) + "f%d%s" % (j, rng.choice([".ts", ".ts", ".tsx", ".mts", ".cts"]))
                t = program(rng, pool)
                if j % 2:
                    t = "import './f%d';" % j + t if not t.startswith(("\ufeff", "#!")) else t
                own["%s/%s" % (mine, fn)] = t
            if k == 3 or rng.random() < .3:
                own[mine + "/types.d.ts"] = "declare const ambient%d: string | 'x';\n" % k
            imports = ""
            if rng.random() < .6:
                other[mine + "/node_modules/dep/index.ts"] = "export const d = 1;\nPromise.resolve(1);\n"
                other[mine + "/node_modules/dep/package.json"] = '{"name":"dep","types":"index.ts"}'
                imports += "import 'dep';\n"
            if rng.random() < .4:  # a package of a package of the workspace, with sources of its own
                other[mine + "/packages/one/node_modules/inner/lib/index.ts"] = "export const d = 1;\nPromise.resolve(1);\n"
                imports += "import './packages/one/node_modules/inner/lib/index';\n"
            if rng.random() < .6 and mine != d:
                other[d + "/shared/out.ts"] = "export const o = 1;\nPromise.resolve(2);\n"
                imports += "import '%s/shared/out';\n" % os.path.relpath(d, mine)
            if rng.random() < .4 and mine != d:  # a sibling whose name starts like the project's directory
                other[mine + "-more/out.ts"] = "export const o = 1;\nPromise.resolve(2);\n"
                imports += "import '../%s-more/out';\n" % os.path.basename(mine)
            if imports:
                own[mine + "/imports.ts"] = imports + "export const q: Promise<number> = Promise.resolve(1);\nq;\n"
            for p, t in list(own.items()) + list(other.items()):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t.encode("utf-8", "surrogateescape"))
            name = "tsconfig.json"
            flags, cwd = [], mine
            if rng.random() < .3:
                name = "tsconfig.other.json"
                v = rng.randrange(3)
                cwd = [mine, root, d][v]
                flags = ["-tsconfig", [name, os.path.relpath(mine + "/" + name, root), mine + "/" + name][v]]
            cfg = {"extends": os.path.relpath(root + "/fixtures/" + rng.choice(["tsconfig.json", "tsconfig.unstrict.json"]), mine), "compilerOptions": {"types": []}, "include": ["**/*"]}
            bare = not flags and rng.random() < .12 and k != 3
            if bare:
                name = None
            else:
                with open("%s/%s" % (mine, name), "w") as f:
                    json.dump(cfg, f)
            jobs.append(dict(k=k, mine=mine, own=own, flags=flags, cwd=cwd, name=name, list=rng.random() < .3, procs=rng.choice([1, 2, 4, 8]), single=rng.random() < .15))

        def one(j):
            fl = list(j["flags"]) + (["-list-files"] if j["list"] else []) + (["-singleThreaded"] if j["single"] else [])
            files = sorted(j["own"])
            cfgp = j["mine"] + "/tsconfig.json"
            # the headless run that says what is to be found uses the same configuration under its usual name
            made = False
            if j["name"] is None:
                with open(cfgp, "w") as f:
                    f.write("{}")
                made = True
            elif j["name"] != "tsconfig.json":
                shutil.copyfile(j["mine"] + "/" + j["name"], cfgp)
                made = True
            h = tsgo.run(b, tsgo.payload([(files, work.ALL)]), cwd=root, procs=2)
            if made:
                os.unlink(cfgp)
            return h, cli(b, j["cwd"], fl, j["procs"])

        with cf.ThreadPoolExecutor(4) as ex:
            for j, (h, (rc, out, err)) in zip(jobs, ex.map(one, jobs)):
                c.evaluations += 1
                name = "project %d (%s)" % (j["k"], " ".join(j["flags"]) or ("no tsconfig" if j["name"] is None else "tsconfig.json"))
                if not h.ok():
                    c.violation("%s: the headless run to compare with failed: %s" % (name, h.why()), files=j["own"])
                    continue
                if rc != 0:
                    i = err.find("panic:")
                    c.violation("%s: ended with status %s: %s" % (name, rc, err[i:i + 900] if i >= 0 else err[-600:]), files=j["own"])
                    continue
                if j["list"]:
                    ls = []
                    while out.startswith("Found file: "):
                        l, _, out = out.partition("\n")
                        ls.append(l[len("Found file: "):])
                    if sorted(ls) != sorted(os.path.relpath(p, j["mine"]) for p in j["own"]):
                        c.violation("%s: lists the files %s, the project has %s" % (name, sorted(ls)[:8], sorted(os.path.relpath(p, j["mine"]) for p in j["own"])[:8]))
                texts = {}
                for p, t in j["own"].items():
                    raw = t.encode("utf-8", "surrogateescape")
                    texts[p] = Text(raw[3:] if raw.startswith(b"\xef\xbb\xbf") else raw)
                judge(c, name, out, [d for d in h.diags if d["kind"] == 0], texts, len(j["own"]), j["mine"], j["flags"], 1 if j["single"] else j["procs"])
                c.count("problems", sum(d["kind"] == 0 for d in h.diags))
        # what does not load is refused
        bad = root + "/bad"
        os.makedirs(bad)
        open(bad + "/a.ts", "w").write("Promise.resolve(1);\n")
        for txt, fl in (("{", []), ('{"compilerOptions": {"noSuchOption": 1}}', []), (None, ["-tsconfig", "nowhere.json"]), ('{"files": []}', []), (None, ["-debug", "nonsense"])):
            if txt is not None:
                open(bad + "/tsconfig.json", "w").write(txt)
            rc, out, err = cli(b, bad, fl, 2)
            c.evaluations += 1
            if rc != 1 or "Found" in out or "panic" in err:
                c.violation("a project that does not load (%s %s) ends with status %s: %s" % (txt, fl, rc, err[-300:]), stdout=out[:500])
    c.sample(dict(projects=n))
    c.need(c.cov.get("boxes", 0) > 300, "too few problems printed")
    c.assumptions = ["what the rules find in the project's own files is taken from a headless run of the same binary under the same configuration (C02, C15-C18 judge it)",
                     "a file that holds an escape character is not used: the report could not be parsed"]
