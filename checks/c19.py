"""C19: absent options, {}, spelled-out defaults and partially filled objects mean the same; members are order-independent."""
import collections, concurrent.futures as cf, json, os, re, shutil, sys
import batch, build, corpus, tsgo
sys.path.insert(0, os.path.join(corpus.HERE, "tools", "ref"))
import genopt

# defaults the schema leaves to the member's description
IMPLICIT = {("no-misused-spread", "allow"): [], ("prefer-string-starts-ends-with", "allowSingleElementEquality"): "never", ("prefer-nullish-coalescing", "ignorePrimitives"): False}
NONE = object()
# programs and values for members that few other programs depend on
EXTRA = {
    "no-floating-promises": ["declare function known1(): Promise<void>; known1(); declare const o: { known2(): Promise<void> }; o.known2(); declare const pr: Promise<number>; pr; class Safe extends Promise<number> {} new Safe(() => {});"],
    "only-throw-error": ["class Allowed { a = 1 } throw new Allowed();", "try { Math.random(); } catch (e) { throw e; }", "try { Math.random(); } catch (e: any) { throw e; }", "Promise.resolve().catch((e) => { throw e; });"],
    "prefer-optional-chain": ["declare const big: bigint | undefined; if (big && big.toString()) {} declare const b2: bigint; b2 && b2.toString(); declare const b3: bigint | null; b3 && b3.toString();"],
    "prefer-promise-reject-errors": ["class Allowed { a = 1 } Promise.reject(new Allowed()); new Promise((_, rej) => rej(new Allowed()));"],
    "promise-function-async": ["interface MyP { then(): void } function f1(x: boolean): Promise<number> | MyP { return null!; } class Own<T> { x!: T } function f2() { return new Own<number>(); } const f3 = () => new Own<string>();"],
    "switch-exhaustiveness-check": ["declare const li: 'a' | 'b'; switch (li) { case 'a': break; // skip it\n }\nswitch (li) { case 'a': break;\n // no default\n }\nswitch (li) { case 'a': break;\n /* x */ }"],
}
VALUES = {
    ("no-floating-promises", "allowForKnownSafeCalls"): [{"from": "file", "name": ["known1", "known2", "id"]}],
    ("no-floating-promises", "allowForKnownSafePromises"): [{"from": "lib", "name": ["Promise"]}, {"from": "file", "name": "Safe"}],
    ("only-throw-error", "allow"): [{"from": "file", "name": ["Allowed", "Sub"]}],
    ("prefer-promise-reject-errors", "allow"): [{"from": "file", "name": "Allowed"}],
    ("promise-function-async", "allowedPromiseNames"): ["Own", "MyP"],
    ("no-deprecated", "allow"): [{"from": "lib", "name": ["escape", "unescape", "substr", "getYear"]}],
    ("no-misused-spread", "allow"): [{"from": "lib", "name": ["Map", "Promise", "Array", "ReadonlyArray", "Set"]}],
    ("prefer-readonly-parameter-types", "allow"): [{"from": "file", "name": ["Obj", "Cls", "Sub"]}],
    ("no-unnecessary-condition", "allowConstantLoopConditions"): True,
    ("switch-exhaustiveness-check", "defaultCaseCommentPattern"): "^\\s*(skip it|x)",
}


def members(sch, rule):
    """{member: (default or NONE, schema)} of a rule's options object, None if its options are no object."""
    d = sch[rule][rule.replace("-", "_") + "_options"]
    if d.get("type") != "object":
        return None
    return {k: (p["default"] if "default" in p else IMPLICIT.get((rule, k), NONE), p) for k, p in d["properties"].items()}


def filled(ms, part, rng=None):
    o = {k: d for k, (d, _) in ms.items() if d is not NONE}
    o.update(part)
    ks = list(o)
    if rng:
        rng.shuffle(ks)
    return {k: o[k] for k in ks}


def nested(sch, rule, rng):
    """Pairs of options objects that mean the same by the documentation of a member with several forms."""
    out = []
    if rule == "no-misused-promises":
        ks = list(sch[rule]["checksVoidReturnOptions"]["properties"])
        al = lambda v: {k: v for k in ks}
        w = lambda v: {"checksVoidReturn": v}
        out += [({}, w(True)), (w(True), w({})), (w(True), w(al(True))), (w(False), w(al(False)))]
        for k in ks:
            out.append((w({k: False}), w(dict(al(True), **{k: False}))))
            out.append((w({k: True}), w(True)))
        for _ in range(3):
            s = {k: rng.random() < .5 for k in rng.sample(ks, 3)}
            f = dict(al(True), **s)
            out.append((w(s), w({k: f[k] for k in reversed(ks)})))
    elif rule == "prefer-nullish-coalescing":
        ks = list(sch[rule]["ignorePrimitivesOptions"]["properties"])
        al = lambda v: {k: v for k in ks}
        w = lambda v: {"ignorePrimitives": v}
        out += [({}, w(False)), (w(False), w({})), (w(False), w(al(False))), (w(True), w(al(True)))]
        for k in ks:
            out.append((w({k: True}), w(dict(al(False), **{k: True}))))
            out.append((w({k: False}), w(False)))
        for _ in range(3):
            s = {k: rng.random() < .5 for k in rng.sample(ks, 2)}
            f = dict(al(False), **s)
            out.append((w(s), w({k: f[k] for k in reversed(ks)})))
    elif rule == "no-unnecessary-condition":
        w = lambda v: {"allowConstantLoopConditions": v}
        out += [(w(True), w("always")), (w(False), w("never")), ({}, w(False))]
    return out


def lists(ms, rng, text):
    """Pairs for members that hold lists of type specifiers: one name or a list of one, any order of the entries."""
    out = []
    for k, (d, p) in ms.items():
        if p.get("type") == "array" and "$ref" in p.get("items", {}):
            es = [{"from": rng.choice(["file", "lib"]), "name": n} for n in ["Obj", "Cls", "Error", "Promise", "Own", "Thenable", rng.choice(genopt.IDENT.findall(text) or ["x"])]]
            many = [dict(e, name=[e["name"]]) for e in es]
            mixed = rng.sample(es, len(es)) + many[:2]
            out += [({k: es}, {k: many}), ({k: es}, {k: mixed})]
    return out


def run(c):
    b = build.binary()
    sch = json.load(open(os.path.join(corpus.HERE, "corpus", "schemas.json")))
    rng = c.rng
    # the snapshot is of the documentation: a schema in the tree that says something else is a change of the documentation
    per_o, per_r = c.pick((80, 70), (400, 200))
    pool = collections.defaultdict(list)
    for x in corpus.load("omat"):
        pool["o", x["own"][0]].append(x)
    for x in corpus.load("rules"):
        if x["own"] and x["own"][0] in sch and not x.get("links") and not x.get("opts") and all(len(t) < 5000 and not n.startswith("..") for n, t in x["files"].items()):
            pool["r", x["own"][0]].append(x)
    c.rule = ("one evaluation = results of one rule on its whole set of programs compared under two spellings of the same options; "
              "non-trivial = such a comparison with at least one report, with distinct options")
    with batch.Area("c19") as root:
        shutil.copytree(corpus.FIX, root + "/fixtures")
        files, texts = {}, {}
        for r in sorted(sch):
            d = root + "/c/" + r
            take = [{"files": {"file.ts": t}, "main": "file.ts"} for t in EXTRA.get(r, ())] + rng.sample(pool["o", r], min(per_o, len(pool["o", r]))) + rng.sample(pool["r", r], min(per_r, len(pool["r", r])))
            mains, every = [], []
            for i, x in enumerate(take):
                for n, t in x["files"].items():
                    p = os.path.normpath("%s/p%d/%s" % (d, i, n))
                    if not re.search(r"^\s*(import|export)\b", t, re.M):
                        t += "\nexport {};\n"
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    open(p, "wb").write(t.encode("utf-8", "surrogateescape"))
                    if n.endswith((".ts", ".tsx", ".mts", ".cts")):
                        every.append(p)
                        if n == x["main"]:
                            mains.append(p)
            json.dump({"extends": "../../fixtures/tsconfig.json", "compilerOptions": {"types": []}, "files": every}, open(d + "/tsconfig.json", "w"))
            files[r], texts[r] = mains, [list(x["files"].values())[0] for x in take]
        rules = sorted(sch)
        c.cov["programs"] = sum(map(len, files.values()))

        def lint(opts):
            """opts: {rule: (options,) or ()} -> {rule: frozenset} of results, or None"""
            pl = tsgo.payload([(files[r], [(r,) + tuple(o)]) for r, o in sorted(opts.items())])
            r = tsgo.run(b, pl, ("-fix", "-fix-suggestions"), cwd=root, procs=1, timeout=600)
            if not r.ok():
                return r.why()
            out = {k: collections.Counter() for k in opts}
            for d in r.diags:
                if d["kind"] == 0:
                    k = json.dumps([d["file_path"], d["message"]["id"], d["range"], d.get("fixes"), [[s["message"]["id"], s["fixes"]] for s in d.get("suggestions") or []]], sort_keys=True)
                    out[d["rule"]][k] += 1
            return {k: frozenset(v.items()) for k, v in out.items()}

        # pairs[i] = {rule: (a, b, member or None)}: both spellings mean the same
        per = {r: [] for r in rules}
        sens = {}
        for r in rules:
            ms = members(sch, r)
            if ms is None:
                per[r] += [((), ("in-try-catch",), None)]
                continue
            dflt = filled(ms, {})
            per[r] += [((), ({},), None), ((), (dflt,), None), (({},), ({k: dflt[k] for k in reversed(list(dflt))},), None)]
            per[r] += [((), ({k: d},), None) for k, (d, _) in ms.items() if d is not NONE]
            for k, (d, p) in ms.items():
                # the same with everything else away from its default
                rest = {q: genopt.value(rng, p2, sch[r], texts[r][0], q) if not isinstance(d2, bool) else not d2 for q, (d2, p2) in ms.items() if q != k and p2.get("type") in ("boolean", "string") and q != "defaultCaseCommentPattern"}
                if (r, k) in VALUES:
                    v = VALUES[r, k]
                    per[r].append((({k: v},), (filled(ms, {k: v}, rng),), k))
                    per[r].append(((rest,), (filled(ms, rest, rng),), None))
                    per[r].append(((dict(rest, **{k: v}),), (filled(ms, dict(rest, **{k: v}), rng),), (k, json.dumps([rest]))))
                if rest and d is not NONE:
                    per[r].append(((rest,), (filled({k: (d, p)}, rest, rng),), None))
                    if isinstance(d, bool):
                        per[r].append(((dict(rest, **{k: not d}),), (filled(ms, dict(rest, **{k: not d}), rng),), (k, json.dumps([rest]))))
                for _ in range(c.pick(2, 6)):
                    v = d
                    for _ in range(8):
                        v = genopt.value(rng, p, sch[r], rng.choice(texts[r]), k)
                        if v != d:
                            break
                    if v != d and v not in ("", [], None):
                        per[r].append((({k: v},), (filled(ms, {k: v}, rng),), k))
            for _ in range(c.pick(3, 12)):
                ks = rng.sample(sorted(ms), min(len(ms), rng.randrange(1, 4)))
                s = {k: genopt.value(rng, ms[k][1], sch[r], rng.choice(texts[r]), k) for k in ks}
                per[r].append(((s,), (filled(ms, s, rng),), None))
            per[r] += [((x,), (y,), None) for x, y in nested(sch, r, rng) + lists(ms, rng, rng.choice(texts[r]))]
        # distinct options are linted once; each run takes the next undone options of every rule
        want = {r: [] for r in rules}
        for r in rules:
            for x, y, _ in per[r]:
                for o in (x, y):
                    k = json.dumps(o)
                    if k not in want[r]:
                        want[r].append(k)
        results = {r: {} for r in rules}
        batches = [{r: want[r][i] for r in rules if i < len(want[r])} for i in range(max(map(len, want.values())))]
        with cf.ThreadPoolExecutor(8) as ex:
            for bt, res in zip(batches, ex.map(lambda bt: lint({r: json.loads(k) for r, k in bt.items()}), batches)):
                if isinstance(res, str):
                    # which rule's options are at fault
                    for r, k in bt.items():
                        one = lint({r: json.loads(k)})
                        if isinstance(one, str):
                            c.violation("%s with options %s failed: %s" % (r, k, one[:600]), rule_name=r, options=k)
                            results[r][k] = None
                        else:
                            results[r][k] = one[r]
                    continue
                for r in bt:
                    results[r][bt[r]] = res[r]
        c.cov["runs"] = len(batches)
        moved, tried = set(), set()
        for r in rules:
            base = results[r].get("[]")
            for x, y, m in per[r]:
                kx, ky = json.dumps(x), json.dumps(y)
                a, z = results[r][kx], results[r][ky]
                if a is None or z is None:
                    continue
                c.evaluations += 1
                if a or z:
                    c.saw(r, kx, ky)
                if m:
                    m, ref = (m, base) if isinstance(m, str) else (m[0], results[r].get(m[1]))
                    tried.add((r, m))
                    if a != ref:
                        moved.add((r, m))
                if a != z:
                    # checkers of one run may see files in another order: only a difference that stays counts
                    again = [(lint({r: x}), lint({r: y})) for _ in range(3)]
                    if any(isinstance(q, str) for p in again for q in p):
                        c.violation("%s: a repeated run failed" % r, options=[kx, ky])
                        continue
                    A, Z = {p[0][r] for p in again} | {a}, {p[1][r] for p in again} | {z}
                    if A & Z:
                        c.count("differences_that_did_not_repeat")
                        continue
                    d1, d2 = sorted(k for k, _ in a - z)[:2], sorted(k for k, _ in z - a)[:2]
                    c.violation("%s: options %s and %s mean the same but results differ: only with the first %s; only with the second %s" % (r, kx, ky, d1, d2),
                                ident=dict(rule=r, a=kx, b=ky), first=x, second=y, only_first=d1, only_second=d2)
        c.cov["option_members"] = len(tried)
        c.cov["option_members_that_change_results"] = len(moved)
        c.cov["insensitive_members"] = sorted("%s.%s" % t for t in tried - moved)
        c.need(len(moved) >= 0.75 * len(tried), "only %d of %d option members change a result on these programs: %s" % (len(moved), len(tried), sorted(tried - moved)))
        c.sample(dict(rule=rules[0], programs=len(files[rules[0]]), spellings=want[rules[0]][:6]))
    c.assumptions = ["corpus/schemas.json holds the documented defaults (a copy of the schemas the options were generated from)"]
