"""C10: fix flags only add fixes."""
import collections, json
import batch, build, corpus, tsgo, work

FLAGS = {"none": (), "fix": ("-fix",), "suggestions": ("-fix-suggestions",), "both": ("-fix", "-fix-suggestions")}


def run(c):
    b = build.binary()
    c.rule = ("one evaluation = one program linted under the four flag combinations and compared; non-trivial = a distinct (program, rule, part) "
              "where a fix or suggestion appears only under its flag")
    n = c.pick(6000, 60000)
    cases = work.take(c.rng, ["rules"], c.pick(3500, 10 ** 6)) + work.take(c.rng, ["mut", "conf", "confx", "mutx", "cmut"], n)
    parts = collections.Counter()
    for i in range(0, len(cases), 10000):
        chunk = cases[i:i + 10000]
        with batch.Area("c10") as root:
            mains = corpus.layout(root, chunk)
            # half of the programs with all rules, the others with their own rule and options
            jobs = [(x["id"], mains[x["id"]], [tuple(x["own"])] if x.get("own") and len(x["own"]) > 1 and k % 2 else work.ALL) for k, x in enumerate(chunk)]
            out, lost = {}, set()
            for nm, fl in FLAGS.items():
                res, bad, stray = batch.lint(b, root, jobs, flags=fl)
                for js, r in bad:
                    lost |= set(j[0] for j in js)
                out[nm] = res
            c.count("programs_lost_to_a_crash", len(lost))

            def view(ds, fixes, sugg):
                r = collections.Counter()
                for d in ds:
                    d = dict(d)
                    if not fixes:
                        d.pop("fixes", None)
                    if not sugg:
                        d.pop("suggestions", None)
                    r[json.dumps(d, sort_keys=True)] += 1
                return r
            for x in chunk:
                i = x["id"]
                if i in lost:
                    continue
                c.evaluations += 1
                o = {k: out[k][i] for k in FLAGS}
                for nm in FLAGS:
                    for d in o[nm]:
                        if d.get("fixes") is not None and nm not in ("fix", "both"):
                            c.violation("%s on %s: fixes although -fix is off (%s)" % (d["rule"], i, nm), program=x, diag=d)
                        if d.get("suggestions") is not None and nm not in ("suggestions", "both"):
                            c.violation("%s on %s: suggestions although -fix-suggestions is off (%s)" % (d["rule"], i, nm), program=x, diag=d)
                for d in o["both"]:
                    if d.get("fixes"):
                        parts["fixes"] += 1
                        c.saw(i, d["rule"], "f")
                    if d.get("suggestions"):
                        parts["suggestions"] += 1
                        c.saw(i, d["rule"], "s")
                for nm, f, s in (("none", 0, 0), ("fix", 1, 0), ("suggestions", 0, 1)):
                    w = work.diff(view(o["both"], f, s), view(o[nm], True, True))
                    if w:
                        c.violation("%s: with flags %s the result is not that of both flags without the parts switched off: %s" % (i, FLAGS[nm], w[:600]), program=x)
    c.cov["parts_seen"] = dict(parts)
    c.need(parts["fixes"] > 1000 and parts["suggestions"] > 1000, "too few fixes and suggestions")
    c.need(c.cov.get("programs_lost_to_a_crash", 0) < len(cases) // 10, "too many programs without a result")
