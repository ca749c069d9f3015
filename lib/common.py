"""What every check shares: tiers, seeds, verdicts, evidence, replays, known findings."""
import hashlib, json, os, random, sys, time, traceback
import gotest

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known-findings.jsonl")


class Inconclusive(Exception):
    """The monitors saw too little to decide (never folded into a verdict)."""


class Check:
    def __init__(self, pid, level="exploration"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.rule = ""
        self.seen_findings = {}
        self.findings = []
        if os.path.exists(FINDINGS):
            for l in open(FINDINGS, encoding="utf-8"):
                l = l.strip()
                if l.startswith("{"):
                    f = json.loads(l)
                    if f.get("property") == pid and f.get("status") == "open":
                        self.findings.append(f)

    thorough = property(lambda s: s.tier == "thorough")

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def saw(self, *key):
        """Counts one distinct non-trivial observation."""
        self.nontrivial.add(hashlib.blake2b(repr(key).encode("utf-8", "surrogatepass"), digest_size=8).digest())

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def count(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, what, **data):
        """Reports a violation unless a listed finding covers exactly it (match: a dict whose members all equal, or a list of such)."""
        ident = data.pop("ident", None)
        for f in self.findings:
            ms = f["match"] if isinstance(f["match"], list) else [f["match"]]
            if ident is not None and any(m and all(ident.get(k) == v for k, v in m.items()) for m in ms):
                if f["id"] not in self.seen_findings:
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
                self.seen_findings[f["id"]] = self.seen_findings.get(f["id"], 0) + 1
                return False
        n = len(self.violations)
        self.violations.append(what)
        if n < 12:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, n))
            with open(p, "w", encoding="utf-8", errors="backslashreplace") as f:
                json.dump(dict(property=self.pid, what=what, seed=self.seed, tier=self.tier, ident=ident, **data), f, indent=1, default=repr, ensure_ascii=True)
            print("  %s: %s" % (self.pid, what[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, VERIF)), flush=True)
        return True

    def need(self, cond, what):
        if not cond:
            raise Inconclusive(what)

    def finish(self):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.nontrivial), rule=self.rule, samples=self.samples or ["none"])
        cov.update(self.cov)
        if self.seen_findings:
            cov["known_findings_seen"] = self.seen_findings
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
        print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (self.pid, self.tier, self.evaluations, len(self.nontrivial), len(self.violations), time.time() - self.t0), flush=True)


def main(pid, fn, level="exploration"):
    c = Check(pid, level)
    try:
        fn(c)
        if not c.violations:
            c.need(c.evaluations > 0 and c.nontrivial, "nothing was observed")
        c.finish()
    except Inconclusive as e:
        if c.violations:
            c.finish()
            sys.exit(1)
        print("INCONCLUSIVE %s: %s" % (pid, e), flush=True)
        sys.exit(2)
    except gotest.Crashed as e:
        c.violation("the harness crashed: %s" % e)
        c.finish()
    except Exception:
        traceback.print_exc()
        if c.violations:
            c.finish()
            sys.exit(1)
        sys.exit(2)
    sys.exit(1 if c.violations else 0)
