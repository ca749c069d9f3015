"""C28: in-memory file layers answer like a real file system."""
import build, gotest

LAYERS = {
    "overrides": ("cmd/tsgolint", "main", "func verifLayer(b vfs.FS, m map[string]string) vfs.FS { return newOverlayFS(b, m) }\nconst verifRefusesWrites, verifDirs = false, false\n"),
    "project": ("internal/utils", "utils", "func verifLayer(b vfs.FS, m map[string]string) vfs.FS { return NewOverlayVFS(b, m) }\nconst verifRefusesWrites, verifDirs = true, true\n"),
}


def harness(layer):
    pkg, name, glue = LAYERS[layer]
    return gotest.build_one(pkg, "fs-" + layer, "fs_verif_test.go", name, glue)


def run(c):
    c.rule = "one evaluation = one call on a layer, compared with the model and with the calls that reached the recording base; non-trivial = distinct (layer, operation, in memory or below, run)"
    for layer in LAYERS:
        h = harness(layer)
        for k in range(c.pick(4, 40)):
            rows = gotest.run(h, "TestVerifFS", c.rng.randrange(1 << 40), c.pick(4000, 20000))
            for r in rows:
                if "bad" in r:
                    c.violation("%s layer: %s" % (layer, r["bad"]), **r)
                else:
                    for op, n in r["counts"].items():
                        c.evaluations += n
                        c.count("%s: %s" % (layer, op), n)
                        c.saw(layer, op, k)
    c.need(len([k for k in c.cov if k.startswith("overrides")]) >= 22 and len([k for k in c.cov if k.startswith("project")]) >= 22, "not every operation was driven")
    c.assumptions = ["directories of in-memory files are only compared for absolute, normalised paths", "the layer for a missing project file may refuse to write to an in-memory path; it must not write below"]
