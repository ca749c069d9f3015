"""In-package Go harnesses of /verif/harness, compiled into the current tree and run."""
import json, os, subprocess, tempfile
import build


def build_one(pkg, name, src, package, glue="", kind="plain"):
    """Compiles harness/<src> (its first line is `package PKG`) as a test of pkg, with glue appended."""
    with open(os.path.join(build.VERIF, "harness", src)) as f:
        t = f.read().replace("package PKG", "package " + package, 1) + "\n" + glue
    d = os.path.join(build.BUILD, "gen", name)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, src)
    if not os.path.exists(p) or open(p).read() != t:
        with open(p, "w") as f:
            f.write(t)
    return build.harness(pkg, name, {"zz_" + src: p}, kind)


class Crashed(Exception):
    pass


def run(binary, test, seed=0, n=0, env=None, timeout=600, procs=4, crash=False):
    """Runs one harness test; returns the JSON lines it wrote (crash: also how it ended)."""
    with tempfile.TemporaryDirectory(prefix="verif-go-") as d:
        e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
        e.update(VERIF_OUT=d + "/out", VERIF_RUN_SEED=str(seed), VERIF_N=str(n), GOMAXPROCS=str(procs))
        e.update(env or {})
        r = subprocess.run([binary, "-test.run=^%s$" % test, "-test.timeout=0"], capture_output=True, text=True, errors="replace", env=e, cwd=d, timeout=timeout)
        rows = [json.loads(l) for l in open(d + "/out", encoding="utf-8", errors="surrogateescape")] if os.path.exists(d + "/out") else []
        if r.returncode and not crash:
            raise Crashed("harness %s failed: %s" % (test, (r.stdout + r.stderr)[-1500:]))
        return (rows, r) if crash else rows
