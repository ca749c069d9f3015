"""setup_cmd: builds everything the checks share, so that a check only rebuilds what changed."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks"))
import build
t = time.time()


def step(what, f):
    # what cannot be built here is the business of the check that needs it
    try:
        r = f()
    except Exception as e:
        r = "failed: %s" % str(e)[-300:]
    print(what, r if isinstance(r, str) else "", "%.0fs" % (time.time() - t), flush=True)


print(build.binary("plain"), "%.0fs" % (time.time() - t), flush=True)
print(build.binary("race"), "%.0fs" % (time.time() - t), flush=True)
import gotest, shims, c28
step("compiler on its own", build.reference)
for n in ("fixer", "timing", "visit"):
    step(n, lambda: gotest.build_one("internal/linter", n, n + "_verif_test.go", "linter"))
for layer in c28.LAYERS:
    step("files " + layer, lambda: c28.harness(layer))
step("bindings", lambda: os.remove(shims.comparer(os.path.join(build.REPO, "shim"))[0]))
