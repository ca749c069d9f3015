"""C04: payload versions agree, JSON presentation is irrelevant, bad payloads are refused."""
import collections, json, os
import batch, build, corpus, tsgo, work


def render(rng, v, names=True):
    """The same JSON value, written differently (member order, whitespace, escapes)."""
    ws = lambda: rng.choice(["", "", " ", "\n", "\t ", "\r\n"])
    if isinstance(v, dict):
        items = list(v.items())
        rng.shuffle(items)
        return "{" + ws() + ("," + ws()).join(render(rng, k) + ws() + ":" + ws() + render(rng, x) for k, x in items) + ws() + "}"
    if isinstance(v, list):
        return "[" + ws() + ("," + ws()).join(render(rng, x) for x in v) + ws() + "]"
    if isinstance(v, str):
        s = json.dumps(v, ensure_ascii=rng.random() < .5)
        if rng.random() < .3:
            s = '"' + "".join("\\u%04x" % ord(ch) if rng.random() < .3 and ord(ch) < 0x10000 and ch not in '"\\' and ord(ch) >= 32 else json.dumps(ch, ensure_ascii=False)[1:-1] for ch in v) + '"'
        if rng.random() < .2:
            s = s.replace("/", "\\/")
        return s
    return json.dumps(v)


def junk(rng, v, depth=0):
    """Adds unknown members at every object the payload format defines."""
    names = ["x", "comment", "Version", "VERSION", "Configs", "FilePaths", "filepaths", "rule", "Rules", "sourceOverrides", "reportsemantic", "file", "$schema", "Files", "files_", "Name", "option"]
    vals = [1, None, "y", [], {}, [{"name": "no-such-rule"}], True, 2.5, {"version": 9}]
    if isinstance(v, dict):
        r = {k: junk(rng, x, depth + 1) if k in ("configs", "files", "rules") else x for k, x in v.items()}
        for _ in range(rng.randrange(3)):
            n = rng.choice(names)
            if n not in r:
                r[n] = rng.choice(vals)
        return r
    if isinstance(v, list):
        return [junk(rng, x, depth + 1) for x in v]
    return v


def run(c):
    b = build.binary()
    c.rule = ("equivalent presentations of one payload are run and compared as multisets; invalid payloads must give exit != 0, one error frame and nothing else; "
              "non-trivial = a presentation whose run reports something, or a distinct kind of refusal")
    with batch.Area("c04") as root:
        cases = work.take(c.rng, ["rules"], c.pick(40, 200), pred=lambda x: len(x["files"]) == 1)
        # odd path characters travel through the JSON too
        fs = {}
        for i, x in enumerate(cases):
            nm = "f%d%s" % (i, os.path.splitext(x["main"])[1])
            if i % 7 == 0:
                nm = "d é/\"q\" %d😀\\%s" % (i, nm) if i % 2 else "d é/'q' %d😀%s" % (i, nm)
            if "\\" in nm:
                nm = nm.replace("\\", "_")
            fs[nm] = list(x["files"].values())[0] + "\nexport {};\n"
        files = work.project(root, "p", fs)
        rules = [(r,) for r in tsgo.RULES]

        def go(pl, flags=("-fix",)):
            return tsgo.run(b, pl if isinstance(pl, bytes) else pl.encode("utf-8"), flags, cwd=root)

        # --- equivalent presentations
        for k in range(c.pick(25, 250)):
            ng = c.rng.choice([1, 2, len(files)])
            gs = []
            for i in range(ng):
                gs.append((files[i::ng], [(r,) for r in c.rng.sample(tsgo.RULES, c.rng.choice([3, 30, 59]))]))
            v2 = tsgo.payload(gs)
            ref = go(json.dumps(v2))
            c.evaluations += 1
            if not ref.ok():
                c.violation("valid payload: " + ref.why(), payload=v2)
                return
            want = work.view(ref.diags)
            v1 = {"files": [{"file_path": p, "rules": [r[0] for r in rs]} for f, rs in gs for p in f]}
            ov = dict(v2, source_overrides={}, report_semantic=False, report_syntactic=False)
            variants = [("v1", json.dumps(v1)), ("v1 with version 0", json.dumps(dict(version=0, **v1))), ("v1 rewritten", render(c.rng, junk(c.rng, v1))),
                        ("v2 rewritten", render(c.rng, v2)), ("v2 with unknown members", render(c.rng, junk(c.rng, v2))), ("v2 with explicit defaults", render(c.rng, ov)),
                        ("v2 with null options", json.dumps(dict(v2, configs=[dict(g, rules=[dict(r, options=None) for r in g["rules"]]) for g in v2["configs"]]))),
                        ("v2 with v1's member", json.dumps(dict(v2, files=[{"file_path": files[0], "rules": ["await-thenable"]}])))]
            if k % 3 == 0:
                # the same file listed again with other rules, next to or away from its first entry
                fl = [(p, c.rng.sample(tsgo.RULES, 20)) for p in c.rng.sample(files, min(8, len(files)))]
                fl += [(p, c.rng.sample(tsgo.RULES, 25)) for p, _ in c.rng.sample(fl, 4)]
                fl.sort(key=lambda x: x[0]) if k % 2 else c.rng.shuffle(fl)
                d2 = go(json.dumps(tsgo.payload([([p], [(r,) for r in rs]) for p, rs in fl])))
                d1 = go(json.dumps({"files": [{"file_path": p, "rules": rs} for p, rs in fl]}))
                c.evaluations += 2
                if not d1.ok() or not d2.ok() or work.view(d1.diags) != work.view(d2.diags):
                    c.violation("files listed twice: version 1 and 2 differ: %s %s %s" % (d1.ok() or d1.why(), d2.ok() or d2.why(), work.diff(work.view(d2.diags), work.view(d1.diags))), files=fl)
                elif d2.diags:
                    c.saw("listed twice", k)
            for tag, text in variants:
                r = go(text)
                c.evaluations += 1
                if not r.ok():
                    c.violation("%s: refused or failed: %s" % (tag, r.why()), payload=text[:3000])
                    continue
                if want:
                    c.saw(tag, k)
                g = work.view(r.diags)
                if g != want:
                    c.violation("%s: other diagnostics than the plain version-2 payload: %s" % (tag, work.diff(want, g)), payload=text[:3000])
        # options survive a rewrite
        n = 0
        for x in c.rng.sample([x for x in corpus.load("rules") if len(x["own"]) > 1 and len(x["files"]) == 1], c.pick(40, 400)):
            f = work.project(root, "o%d" % n, {"f" + os.path.splitext(x["main"])[1]: list(x["files"].values())[0]}, x["ts"] if x["ts"] != "tsconfig.includeTypes.json" else "tsconfig.json")
            n += 1
            pl = tsgo.payload([(f, [tuple(x["own"])])])
            a, g = go(json.dumps(pl)), go(render(c.rng, pl))
            c.evaluations += 2
            if a.ok() != g.ok() or work.view(a.diags) != work.view(g.diags):
                c.violation("options written differently: %s" % work.diff(work.view(a.diags), work.view(g.diags)), options=x["own"])
            elif a.diags:
                c.saw("options", x["own"][0], json.dumps(x["own"][1]))

        # --- refusals
        good = json.dumps(tsgo.payload([(files[:3], rules[:5])], source_overrides={files[0]: "let a = 1;"}))
        good1 = json.dumps({"files": [{"file_path": files[0], "rules": ["await-thenable", "no-unsafe-call"]}]})
        bad = []
        for base, nm in ((good, "v2"), (good1, "v1")):
            cuts = range(len(base)) if c.thorough else sorted(set(c.rng.sample(range(len(base)), min(len(base), 60))) | {0, 1, len(base) - 1, len(base) - 2})
            for i in cuts:
                bad.append(("%s truncated" % nm, base[:i]))
            for t in ("x", "}", "]", " {}", ",", "null", "\x00", base):
                bad.append(("%s with trailing %r" % (nm, t[:4]), base + t))
            bad += [(nm + " single quotes", base.replace('"', "'")), (nm + " trailing comma", base[:-1] + ",}"), (nm + " comment", "//x\n" + base), (nm + " unquoted", base.replace('"rules"', "rules"))]
        for v in (1, 3, 4, 20, 22, -1, -2, 200, 2147483647):
            bad.append(("version %d" % v, json.dumps(dict(tsgo.payload([(files[:1], rules[:2])]), version=v))))
            bad.append(("version %d of both shapes" % v, json.dumps(dict(tsgo.payload([(files[:1], rules[:2])]), files=[{"file_path": files[0], "rules": ["await-thenable"]}], version=v))))
            bad.append(("version %d of the first shape" % v, json.dumps(dict(files=[{"file_path": files[0], "rules": ["await-thenable"]}], version=v))))
        for v in ("2", "", True, [2], {"a": 2}, 2.5, "two", 1e30):
            bad.append(("version of wrong type %r" % (v,), json.dumps(dict(tsgo.payload([(files[:1], rules[:2])]), version=v))))
        for nm, v in (("empty object", "{}"), ("array", "[]"), ("string", '"x"'), ("number", "2"), ("true", "true"), ("empty", ""), ("blank", " \n"), ("v1 without files", '{"version":0}'),
                      ("v1 with no file", '{"files":[]}'), ("v1 null files", '{"files":null}'), ("only configs", json.dumps({"configs": []})), ("configs without version", json.dumps({"configs": [{"file_paths": files[:1], "rules": [{"name": "await-thenable"}]}]})),
                      ("raw bytes", b'{"version":2,"configs":[{"file_paths":["\xff"],"rules":[]}]}'), ("deep", "[" * 20000), ("NaN", '{"version":NaN}')):
            bad.append((nm, v))

        def wrong(o, path):
            """Every payload member replaced by values of every wrong type."""
            types = [1, "s", True, [], {}, 1.5]
            if path == () or path[-1] != "options":
                for t in types:
                    yield path, t

        base = tsgo.payload([(files[:2], [("await-thenable",)])], source_overrides={files[0]: "x"}, report_semantic=True)

        def subst(path, t):
            v = json.loads(json.dumps(base))
            o = v
            for k in path[:-1]:
                o = o[k]
            o[path[-1]] = t
            return v

        spots = {("version",): [int], ("configs",): [list], ("configs", 0): [dict], ("configs", 0, "file_paths"): [list], ("configs", 0, "file_paths", 0): [str], ("configs", 0, "rules"): [list],
                 ("configs", 0, "rules", 0): [dict], ("configs", 0, "rules", 0, "name"): [str], ("source_overrides",): [dict], ("source_overrides", files[0]): [str], ("report_semantic",): [bool], ("report_syntactic",): [bool]}
        for path, okt in spots.items():
            for t in [1, "s", True, [], {}, 1.5, ["x"], {"x": 1}]:
                if type(t) in okt:
                    continue
                bad.append(("wrong type %s at %s" % (type(t).__name__, "/".join(map(str, path)).replace(files[0], "FILE")), json.dumps(subst(path, t))))
        for path, t in ((("files",), {}), (("files",), "x"), (("files",), 3), (("files", 0), "x"), (("files", 0, "file_path"), 3), (("files", 0, "rules"), "x"), (("files", 0, "rules", 0), 4), (("files", 0, "rules", 0), {"name": "await-thenable"})):
            v = {"files": [{"file_path": files[0], "rules": ["await-thenable"]}]}
            o = v
            for k in path[:-1]:
                o = o[k]
            o[path[-1]] = t
            bad.append(("v1 wrong type at %s: %r" % ("/".join(map(str, path)), t), json.dumps(v)))
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(6) as ex:
            for (tag, text), r in zip(bad, ex.map(lambda x: go(x[1]), bad)):
                c.evaluations += 1
                w = tsgo.stream_fault(r, failed=True)
                c.saw("refusal", tag)
                if w or len(r.frames) != 1:
                    c.violation("%s: not refused as it must be: %s (frames: %d, exit %s)" % (tag, w or "more than an error frame", len(r.frames), r.rc), payload=repr(text)[:3000])
        c.count("refusals", len(bad))
        c.sample(dict(kinds_of_refusal=sorted({t for t, _ in bad})[:12], rewritten=render(c.rng, v2)[:300]))
    c.assumptions = ["version 0 is the documented spelling of version 1", "repeated member names are not decided"]
