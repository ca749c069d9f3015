"""C22: rules see every syntax node exactly once, in order."""
import collections, os
import batch, build, corpus, gotest, hostile


class Gen:
    """Random destructuring in every place the grammar has for it."""

    def __init__(self, rng):
        self.r, self.n = rng, 0

    def id(self):
        self.n += 1
        return self.r.choice(("a", "b", "c.d", "e[0]", "f().g", "x", "y", "this.z", "h[k()]"))

    def expr(self, d):
        r = self.r.random()
        if d <= 0 or r < .35:
            return self.r.choice(("1", "v", "'s'", "[]", "{}", "v.w", "g()", "null", "`t${v}`", "/r/", "-v", "function () {}", "class {}"))
        return self.r.choice((
            lambda: "[%s]" % ", ".join(self.expr(d - 1) for _ in range(self.r.randrange(4))),
            lambda: "{ %s }" % ", ".join(self.prop(d - 1) for _ in range(self.r.randrange(4))),
            lambda: "(%s)" % self.assign(d - 1),
            lambda: "g(%s)" % self.expr(d - 1),
            lambda: "[...%s]" % self.expr(d - 1),
            lambda: "(() => (%s))" % self.expr(d - 1),
            lambda: "(%s ? %s : %s)" % (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1)),
            lambda: "({ p: %s } as any)" % self.expr(d - 1),
            lambda: "[%s][0]" % self.expr(d - 1),
            lambda: "(v %s %s)" % (self.r.choice(("+=", "??=", "||=", "&&=", "-=")), self.expr(d - 1)),
            lambda: "((%s = %s) => v)" % (self.binding(d - 1), self.expr(d - 1)),
        ))()

    def key(self, d):
        return self.r.choice(("a", "'q'", "0", "[%s]" % self.expr(d - 1), "[g(%s)]" % self.expr(d - 1), "class", "async"))

    def prop(self, d):
        return self.r.choice((lambda: "%s: %s" % (self.key(d), self.expr(d)), lambda: "v", lambda: "...%s" % self.expr(d), lambda: "m() { %s }" % self.stmt(d - 1), lambda: "get p() { return %s; }" % self.expr(d)))()

    def target(self, d):
        r = self.r.random()
        if d <= 0 or r < .3:
            return self.id()
        if r < .62:
            es = [self.r.choice((lambda: self.deft(d - 1), lambda: self.deft(d - 1), lambda: ""))() for _ in range(self.r.randrange(1, 4))]
            if self.r.random() < .3:
                es.append("..." + self.target(d - 1))
            elif es[-1] == "":
                es.append("a")
            return "[%s]" % ", ".join(es)
        ps = [self.r.choice((lambda: "%s: %s" % (self.key(d), self.deft(d - 1)), lambda: "%s: %s" % (self.key(d), self.deft(d - 1)), lambda: "v", lambda: "v = %s" % self.expr(d - 1)))() for _ in range(self.r.randrange(1, 4))]
        if self.r.random() < .25:
            ps.append("..." + (self.target(d - 1) if self.r.random() < .7 else "a"))
        return "{ %s }" % ", ".join(ps)

    def deft(self, d):
        t = self.target(d)
        return t if self.r.random() < .6 else "%s = %s" % (t, self.expr(d))

    def assign(self, d):
        t = self.target(d)
        e = self.expr(d) if self.r.random() < .8 else self.assign(d - 1)[0:]
        if e.startswith("{") and "} =" in e and not e.startswith("({"):
            e = "(%s)" % e
        return "%s = %s" % (t, e)

    def binding(self, d):
        r = self.r.random()
        if d <= 0 or r < .3:
            self.n += 1
            return "n%d" % self.n
        if r < .65:
            return "[%s]" % ", ".join(self.r.choice((lambda: self.binding(d - 1), lambda: "%s = %s" % (self.binding(d - 1), self.expr(d - 1))))() for _ in range(self.r.randrange(1, 4)))
        return "{ %s }" % ", ".join("%s: %s" % (self.key(d), self.r.choice((lambda: self.binding(d - 1), lambda: "%s = %s" % (self.binding(d - 1), self.expr(d - 1))))()) for _ in range(self.r.randrange(1, 4)))

    def stmt(self, d):
        return self.r.choice((
            lambda: "(%s);" % self.assign(d), lambda: "(%s);" % self.assign(d), lambda: "(%s);" % self.assign(d + 1),
            lambda: "for (%s of %s) { %s }" % (self.pat(d), self.expr(d - 1), self.stmt(d - 1) if d > 0 else ""),
            lambda: "for (%s in %s) ;" % (self.pat(d), self.expr(d - 1)),
            lambda: "async () => { for await (%s of %s) ; };" % (self.pat(d), self.expr(d - 1)),
            lambda: "for (const %s of %s) ;" % (self.binding(d), self.expr(d - 1)),
            lambda: "for ((%s); (%s); (%s)) ;" % (self.assign(d - 1), self.expr(d - 1), self.assign(d - 1)),
            lambda: "const %s = %s;" % (self.binding(d), self.expr(d)),
            lambda: "try { } catch (%s) { (%s); }" % (self.binding(d), self.assign(d - 1)),
            lambda: "function fn%d(%s = %s) { return (%s); }" % (self.r.randrange(10 ** 6), self.binding(d), self.expr(d - 1), self.assign(d - 1)),
            lambda: "class C%d { p = %s; static [%s] = 1; m(%s) { (%s); } }" % (self.r.randrange(10 ** 6), self.expr(d - 1), self.expr(d - 1), self.binding(d - 1), self.assign(d - 1)),
            lambda: "switch (%s) { case %s: (%s); }" % (self.expr(d - 1), self.expr(d - 1), self.assign(d - 1)),
            lambda: "g(%s);" % self.assign(d),
            lambda: "((%s));" % self.assign(d),
        ))()

    def pat(self, d):
        while True:
            t = self.target(max(1, d))
            if t[0] in "[{":
                return t

    def program(self):
        return "\n".join(self.stmt(self.r.randrange(1, 6)) for _ in range(self.r.randrange(3, 9))) + "\n"


def run(c):
    c.rule = ("one evaluation = the log of one listening rule on one file, compared event by event with the syntax tree; non-trivial = distinct files (with at least 20 nodes)")
    h = gotest.build_one("internal/linter", "visit", "visit_verif_test.go", "linter")
    kinds, hist = collections.Counter(), collections.Counter()
    pool = [(x["files"][x["main"]], os.path.splitext(x["main"])[1]) for nm in ("rules", "conf", "confx", "mutx") for x in corpus.load(nm)]
    pool = c.rng.sample(pool, c.pick(6000, len(pool)))
    texts = []
    for t, ext in pool:
        if c.rng.random() < .15:
            t = c.rng.choice(hostile.ALL)(t, c.rng)
        texts.append((t, ext))
    for _ in range(c.pick(2000, 40000)):
        texts.append((Gen(c.rng).program(), c.rng.choice((".ts", ".ts", ".tsx", ".js"))))
    texts += [(t, ".tsx" if n == "jsx" else ".ts") for n, t in hostile.deep(150)]
    c.rng.shuffle(texts)
    for at in range(0, len(texts), 1000):
        with batch.Area("c22") as root:
            names = []
            for i, (t, ext) in enumerate(texts[at:at + 1000]):
                ext = ext if ext in (".ts", ".tsx", ".js", ".jsx", ".mts", ".cts") else ".ts"
                names.append("%s/f%d%s" % (root, i, ext))
                with open(names[-1], "wb") as f:
                    f.write(t.encode("utf-8", "surrogateescape"))
            with open(root + "/list", "w") as f:
                f.write("\n".join(names))
            rows = gotest.run(h, "TestVerifVisit", c.rng.randrange(1 << 40), env={"VERIF_FILES": root + "/list"}, procs=8)
        for r in rows:
            if "bad" in r:
                i = int(os.path.basename(r["file"])[1:].split(".")[0]) if r["file"] else 0
                c.violation("%s: %s" % (os.path.basename(r["file"]), r["bad"]), text=texts[at + i][0])
            elif "kinds" in r:
                i = int(os.path.basename(r["file"])[1:].split(".")[0])
                if sum(r["kinds"].values()) >= 20:
                    c.saw(texts[at + i])
                for k, n in r["kinds"].items():
                    kinds[k] += n
            else:
                hist.update(r["hist"])
                c.evaluations += r["hist"]["logs"]
    c.cov.update(events=dict(sorted(hist.items())), node_kinds_seen=len(kinds), nodes=sum(kinds.values()))
    c.need(len(kinds) > 200 and hist["patterns at depth 4"] > 200 and hist["patterns"] > 2000, "too few kinds of nodes or patterns")
    c.assumptions = ["the compiler's own child enumeration lists every node once, in order", "a literal that is a target only through parentheses or a type assertion (an error in most places) may be told either way",
                     "pattern notifications of nodes other than array and object literals carry no obligation"]
