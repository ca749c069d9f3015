"""C15..C18: the linter's verdicts on the committed corpora against the recorded verdicts of typescript-eslint.

corpus/expect-<name>.jsonl.gz (made by tools/ref/merge.py from runs of the reference implementation) gives, per program and
rule, the diagnostics that must be there and, where the two implementations are recorded to disagree, those that may be."""
import collections, gzip, json, os
import batch, build, corpus, tsgo

IDS = {"errorCall": "unsafeCall", "errorNew": "unsafeNew", "errorTemplateTag": "unsafeTemplateTag", "errorMemberExpression": "unsafeMemberExpression", "errorComputedMemberAccess": "unsafeComputedMemberAccess", "missingReturn": "missingReturnValue"}
NORM = {"no-unsafe-call", "no-unsafe-member-access", "consistent-return"}


def expected(name):
    with gzip.open(os.path.join(corpus.HERE, "corpus", "expect-%s.jsonl.gz" % name), "rt", encoding="utf-8") as f:
        return {r["id"]: r for r in map(json.loads, f)}


def mid(d):
    i = d["message"]["id"]
    return IDS.get(i, i) if d["rule"] in NORM else i


def split(c, b, root, jobs, what):
    """Lints jobs; programs without a result are reported. Returns {case id: diagnostics}."""
    res, bad, stray = batch.lint(b, root, jobs)
    if stray:
        c.violation("%s: a diagnostic for no linted program: %s" % (what, json.dumps(stray[0])[:300]), diag=stray[0])
    for js, r in bad:
        if len(js) > 1:
            k = max(1, len(js) // 8)
            for i in range(0, len(js), k):
                res.update(split(c, b, root, js[i:i + k], what))
        else:
            res[js[0][0]] = None
            c.violation("%s: program %s has no result: %s" % (what, js[0][0], r.why()[:500]), program=open(js[0][1], "rb").read().decode("utf-8", "replace"), rules=js[0][2])
    return res


def judge(must, may, got):
    """'' or how the multiset got departs from must <= got <= must + may."""
    m, y, g = (collections.Counter(tuple(x) for x in l) for l in (must, may, got))
    lost, extra = m - g, g - m - y
    if not lost and not extra:
        return ""
    return "; ".join(filter(None, [lost and "missing %s" % sorted(lost.elements())[:4], extra and "not expected %s" % sorted(extra.elements())[:4]]))


def run(c, rules):
    b = build.binary()
    rules = list(rules)
    c.rule = ("one evaluation = one (program, rule, options) verdict compared with the recorded reference verdict (message ids, counts and places); "
              "non-trivial = distinct ones where at least one diagnostic is required")
    plan = [("rules", None, None), ("conf", c.pick(1500, None), None), ("mut", c.pick(3000, None), None), ("confx", c.pick(2000, None), None),
            ("mutx", c.pick(4000, None), None), ("cmut", c.pick(1500, None), None), ("mat", c.pick(2500, None), None), ("opt", c.pick(2000, None), None), ("omat", c.pick(5000, None), None), ("tab", None, None)]
    per_rule, empty = collections.Counter(), collections.Counter()
    recorded = 0
    for name, n, _ in plan:
        exp = expected(name)
        cases = [x for x in corpus.load(name) if x["id"] in exp]
        own_of = lambda x: x.get("own") and x["own"][0] in rules
        if n and n < len(cases):
            mine = [x for x in cases if own_of(x) or any(r in rules for r in exp[x["id"]].get("all", {}))]
            rest = [x for x in cases if x not in mine] if len(mine) < n else []
            cases = c.rng.sample(mine, min(len(mine), n)) + c.rng.sample(rest, min(len(rest), max(0, n - len(mine))))
        with batch.Area(c.pid.lower()) as root:
            mains = corpus.layout(root, cases)
            for part in ("all", "own"):
                sel = [x for x in cases if part in exp[x["id"]]]
                if part == "own":
                    sel = [x for x in sel if x["own"][0] in rules]
                jobs = [(x["id"], mains[x["id"]], [(r,) for r in rules] if part == "all" else [tuple(x["own"])]) for x in sel]
                res = split(c, b, root, jobs, "%s/%s" % (name, part))
                for x in sel:
                    ds = res[x["id"]]
                    if ds is None:
                        continue
                    e = exp[x["id"]]
                    skip = e.get("skip" + part, ())
                    got = collections.defaultdict(list)
                    for d in ds:
                        if d["kind"] == 0:
                            got[d["rule"]].append((mid(d), d["range"]["pos"], d["range"]["end"]))
                        else:
                            c.violation("%s: internal diagnostic %s" % (x["id"], json.dumps(d)[:300]), program=x, diag=d)
                    for r in (rules if part == "all" else [x["own"][0]]):
                        if r in skip:
                            continue
                        v = e[part].get(r) or [[], []]
                        must, may = v[0], v[2] if len(v) > 2 else []
                        c.evaluations += 1
                        if must:
                            c.saw(name, x["id"], part, r)
                            per_rule[r] += 1
                        else:
                            empty[r] += 1
                        recorded += len(may)
                        w = judge(must, may, got.get(r, []))
                        if w:
                            c.violation("%s on %s%s: %s" % (r, x["id"], " with its options" if part == "own" else "", w),
                                        ident=dict(rule=r, case=x["id"], part=part), program=x, required=must, tolerated=may, reported=got.get(r, []))
        c.count("programs", len(cases))
    c.cov["verdicts_with_reports_per_rule"] = dict(sorted(per_rule.items()))
    c.cov["verdicts_without_reports"] = sum(empty.values())
    c.cov["diagnostics_left_open_by_recorded_differences"] = recorded
    for r in rules:
        c.need(per_rule[r] >= 20, "rule %s: only %d programs with required reports" % (r, per_rule[r]))
    c.assumptions = ["typescript-eslint 8 on TypeScript 5.9 (the oracle) decides as the rule's documentation says",
                     "diagnostics on which both implementations are recorded to differ (mostly compiler 5.9 against 7.0) are not judged"]
