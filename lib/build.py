"""Builds the real tsgolint from /repo's working tree, offline.

/repo's typescript-go submodule is absent here, but the same revision is in the
Go module cache; /repo/patches is applied to a private copy (as `just init`
does), /repo's own go.mod is copied with a `replace` to that copy, and
internal/collections (also produced by `just init`) is supplied through an
-overlay.  Nothing is written in /repo.

Everything lives in VERIF/.build; binaries are keyed by a hash of every Go
source that goes into them, so an unchanged tree rebuilds nothing.
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
GOROOT = "/opt/veriftools/go1.26.10"
TSMOD = "github.com/microsoft/typescript-go"


class BuildError(Exception):
    pass


def _env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("GO")}
    e.update(
        HOME=os.environ.get("HOME") or "/root",
        GOROOT=GOROOT,
        PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GONOSUMDB="*", GOFLAGS="-mod=mod",
        GOCACHE=os.path.join(BUILD, "gocache"), GOTELEMETRY="off",
        CGO_ENABLED="0", GOGC="400",
    )
    e.update(extra or {})
    return e


def _modcache():
    out = subprocess.run([GOROOT + "/bin/go", "env", "GOMODCACHE"], env=_env(), capture_output=True, text=True, cwd="/")
    return out.stdout.strip() or "/root/go/pkg/mod"


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def ts_module_dir():
    m = re.search(r"microsoft/typescript-go (v\S+)", _read(REPO + "/go.mod").decode())
    if not m:
        raise BuildError("no typescript-go version in go.mod")
    d = os.path.join(_modcache(), TSMOD + "@" + m.group(1))
    if not os.path.isdir(d):
        raise BuildError("typescript-go %s is not in the module cache" % m.group(1))
    return d


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.p = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.p, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def ts_dir():
    """Patched copy of typescript-go (internal/ only), refreshed when the patches change."""
    src = ts_module_dir()
    patches = sorted(glob.glob(REPO + "/patches/*.patch"))
    h = hashlib.sha256(src.encode())
    for p in patches:
        h.update(os.path.basename(p).encode() + b"\0" + _read(p))
    key = h.hexdigest()[:16]
    dst = os.path.join(BUILD, "ts")
    stamp = os.path.join(BUILD, "ts.stamp")
    if os.path.isdir(dst) and os.path.exists(stamp) and _read(stamp).decode() == key:
        return dst
    if os.path.exists(stamp):
        os.unlink(stamp)
    tmp = dst + ".new"
    for d in (tmp, dst):
        if os.path.isdir(d):
            subprocess.run(["rm", "-rf", d], check=True)
    os.makedirs(tmp)
    subprocess.run(["cp", "-r", "--no-preserve=mode", src + "/internal", src + "/go.mod", src + "/go.sum", tmp], check=True)
    for p in patches:
        r = subprocess.run(["patch", "-p1", "-s", "--no-backup-if-mismatch", "-i", p], cwd=tmp, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("patch %s does not apply: %s" % (p, r.stdout[-500:]))
    # test files are never built and only cost disk
    subprocess.run("find . -name '*_test.go' -delete; rm -rf internal/fourslash internal/testutil internal/testrunner", shell=True, cwd=tmp, check=True)
    os.rename(tmp, dst)
    with open(stamp, "w") as f:
        f.write(key)
    return dst


def modfile(ts, extra_requires=()):
    d = os.path.join(BUILD, "mod")
    os.makedirs(d, exist_ok=True)
    gm = _read(REPO + "/go.mod").decode()
    gm += "\nreplace %s => %s\n" % (TSMOD, ts)
    for r in extra_requires:
        gm += "require %s\n" % r
    sums = set()
    for p in (REPO + "/go.sum", VERIF + "/lib/extra.sum", ts + "/go.sum"):
        if os.path.exists(p):
            sums |= set(l for l in _read(p).decode().splitlines() if l.strip())
    mf, sf = os.path.join(d, "go.mod"), os.path.join(d, "go.sum")
    k = hashlib.sha256(gm.encode()).hexdigest()
    keyf = os.path.join(d, "key")
    if not (os.path.exists(keyf) and _read(keyf).decode() == k):
        with open(mf, "w") as f:
            f.write(gm)
        with open(keyf, "w") as f:
            f.write(k)
    if os.path.exists(sf):
        old = set(l for l in _read(sf).decode().splitlines() if l.strip())
    else:
        old = set()
    if not sums <= old:
        with open(sf, "w") as f:
            f.write("\n".join(sorted(sums | old)) + "\n")
    return mf


def overlay(ts, extra=None, name="base"):
    rep = {}
    d = ts + "/internal/collections"
    for f in sorted(os.listdir(d)):
        if f.endswith(".go") and not f.endswith("_test.go"):
            rep["%s/internal/collections/%s" % (REPO, f)] = d + "/" + f
    rep.update(extra or {})
    p = os.path.join(BUILD, "mod", "overlay-%s.json" % name)
    with open(p, "w") as f:
        json.dump({"Replace": rep}, f, indent=1)
    return p


def source_key(extra=()):
    h = hashlib.sha256()
    files = []
    for top in ("cmd", "internal", "shim", "patches"):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith("_test.go"):
                    continue
                if f.endswith((".go", ".s", ".mod", ".sum", ".patch", ".h", ".c")):
                    files.append(os.path.join(dp, f))
    files += [REPO + "/go.mod", REPO + "/go.sum", os.path.abspath(__file__)]
    files += list(extra)
    for p in files:
        h.update(p.replace(REPO, "").encode() + b"\0")
        h.update(_read(p) if os.path.exists(p) else b"-")
        h.update(b"\1")
    return h.hexdigest()[:20]


GCFLAGS = ["-gcflags=all=-dwarf=false", "-gcflags=github.com/typescript-eslint/...=-l -dwarf=false",
           "-gcflags=github.com/typescript-eslint/tsgolint/internal/rules/...=-l -dwarf=false -c=1"]


def go(args, env=None, cwd=None, timeout=1700, check=True, capture=True):
    r = subprocess.run([GOROOT + "/bin/go"] + args, env=_env(env), cwd=cwd or REPO, capture_output=capture, text=True, timeout=timeout)
    if check and r.returncode:
        raise BuildError("go %s failed:\n%s" % (" ".join(args[:3]), ((r.stdout or "") + (r.stderr or ""))[-4000:]))
    return r


def _variant(kind):
    if kind == "race":
        return ["-race"], {"CGO_ENABLED": "1"}
    return [], {}


def binary(kind="plain"):
    """The tsgolint executable of the current tree; kind is plain or race."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    key = source_key()
    out = os.path.join(BUILD, "bin", "tsgolint-%s-%s" % (kind, key))
    if os.path.exists(out):
        return out
    with Lock("build"):
        if os.path.exists(out):
            return out
        ts = ts_dir()
        mf = modfile(ts)
        ov = overlay(ts)
        flags, env = _variant(kind)
        t = time.time()
        tmp = out + ".tmp%d" % os.getpid()
        go(["build", "-trimpath", "-modfile=" + mf, "-overlay=" + ov] + flags + GCFLAGS + ["-ldflags=-s -w", "-o", tmp, "./cmd/tsgolint"], env)
        os.rename(tmp, out)
        olds = sorted(glob.glob(os.path.join(BUILD, "bin", "tsgolint-%s-*" % kind)), key=os.path.getmtime)
        for o in olds[:-3]:
            try:
                os.unlink(o)
            except OSError:
                pass
        sys.stderr.write("built %s in %.1fs\n" % (os.path.basename(out), time.time() - t))
    return out


def harness(pkg, name, files, kind="plain", test=True):
    """Compiles an in-package test harness: `files` maps a name that will appear in /repo/<pkg>/ to a file of /verif."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    key = hashlib.sha256((source_key(sorted(files.values())) + name).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "bin", "%s-%s-%s.test" % (name, kind, key))
    if os.path.exists(out):
        return out
    with Lock("build"):
        if os.path.exists(out):
            return out
        ts = ts_dir()
        mf = modfile(ts)
        rep = {"%s/%s/%s" % (REPO, pkg, k): v for k, v in files.items()}
        # the repository's own tests of that package stay out of the harness
        for p in glob.glob("%s/%s/*_test.go" % (REPO, pkg)):
            rep.setdefault(p, "")
        ov = overlay(ts, rep, name)
        flags, env = _variant(kind)
        t = time.time()
        tmp = out + ".tmp%d" % os.getpid()
        go(["test", "-c", "-vet=off", "-trimpath", "-modfile=" + mf, "-overlay=" + ov] + flags + GCFLAGS + ["-ldflags=-s -w", "-o", tmp, "./" + pkg], env)
        os.rename(tmp, out)
        for o in sorted(glob.glob(os.path.join(BUILD, "bin", "%s-%s-*.test" % (name, kind))), key=os.path.getmtime)[:-3]:
            try:
                os.unlink(o)
            except OSError:
                pass
        sys.stderr.write("built %s in %.1fs\n" % (os.path.basename(out), time.time() - t))
    return out


def reference():
    """The program of harness/tsref, built inside the compiler's module only (it changes with the patches, not with tsgolint)."""
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    src = os.path.join(VERIF, "harness", "tsref", "main.go")
    ts = ts_dir()
    key = hashlib.sha256(_read(src) + _read(os.path.join(BUILD, "ts.stamp")) + _read(os.path.abspath(__file__))).hexdigest()[:20]
    out = os.path.join(BUILD, "bin", "tsref-" + key)
    if os.path.exists(out):
        return out
    with Lock("build"):
        if os.path.exists(out):
            return out
        mf = modfile(ts)
        ov = overlay(ts, {ts + "/internal/tsref/main.go": src}, "tsref")
        tmp = out + ".tmp%d" % os.getpid()
        go(["build", "-trimpath", "-modfile=" + mf, "-overlay=" + ov] + GCFLAGS + ["-ldflags=-s -w", "-o", tmp, TSMOD + "/internal/tsref"])
        os.rename(tmp, out)
        for o in sorted(glob.glob(os.path.join(BUILD, "bin", "tsref-*")), key=os.path.getmtime)[:-2]:
            os.unlink(o)
    return out


if __name__ == "__main__":
    for k in sys.argv[1:] or ["plain"]:
        print(binary(k))
