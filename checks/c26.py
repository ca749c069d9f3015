"""C26: the npm launcher runs the platform's binary with the same arguments, streams, environment and directory, and ends as it does."""
import hashlib, json, os, platform, random, shutil, signal, subprocess, sys
import batch, build

# the stand-in for the platform binary: records what it was given, then does what the test asks for
STANDIN = r'''#!%(py)s
import hashlib, json, os, signal, sys, time
plan = json.load(open(os.environb[b"VERIF_PLAN"]))
rec = dict(argv=[a.decode("latin-1") for a in map(os.fsencode, sys.argv[1:])], cwd=os.getcwdb().decode("latin-1"), exe=sys.argv[0],
           env={k.decode("latin-1"): v.decode("latin-1") for k, v in os.environb.items()})
open(plan["record"] + ".started", "a").write("x")
n, h = 0, hashlib.sha256()
if plan["read"] == "all":
    while True:
        b = os.read(0, 65536)
        if not b:
            break
        n += len(b)
        h.update(b)
rec.update(stdin=n, digest=h.hexdigest(), tty=[os.isatty(i) for i in range(3)], ino=[[os.fstat(i).st_dev, os.fstat(i).st_ino] for i in range(3)])
def put(fd, size, seed):
    import random
    r = random.Random(seed)
    while size > 0:
        b = r.randbytes(min(size, 40000))
        size -= len(b)
        while b:
            b = b[os.write(fd, b):]
put(1, plan["out"], plan["seed"])
put(2, plan["err"], plan["seed"] + 1)
json.dump(rec, open(plan["record"], "w"))
if plan["signal"]:
    if plan["signal"] not in (9,):
        signal.signal(plan["signal"], signal.SIG_DFL)
    os.kill(os.getpid(), plan["signal"])
    time.sleep(20)
os._exit(plan["status"])
'''


def expected(size, seed):
    r, b = random.Random(seed), b""
    while len(b) < size:
        b += r.randbytes(min(size - len(b), 40000))
    return b


def run(c):
    rng = c.rng
    node = shutil.which("node")
    arch = {"x86_64": "x64", "aarch64": "arm64"}.get(platform.machine(), platform.machine())
    src = os.path.join(build.REPO, "npm", "core", "bin", "tsgolint.js")
    c.rule = ("one evaluation = one run of the launcher over a recording stand-in binary, comparing arguments, environment, directory, stream identity, "
              "stream contents and exit status; non-trivial = distinct (kind of run, exit, sizes, arguments)")
    with batch.Area("c26") as root:
        app = root + "/app"
        core = app + "/node_modules/oxlint-tsgolint"
        os.makedirs(core + "/bin")
        shutil.copy(src, core + "/bin/tsgolint.js")
        os.makedirs(app + "/node_modules/.bin")
        os.symlink("../oxlint-tsgolint/bin/tsgolint.js", app + "/node_modules/.bin/tsgolint")
        os.chmod(core + "/bin/tsgolint.js", 0o755)
        mine = app + "/node_modules/@oxlint-tsgolint/linux-%s" % arch
        # packages of other platforms lie next to it and must not run
        decoys = [app + "/node_modules/@oxlint-tsgolint/" + d for d in ("darwin-x64", "darwin-arm64", "win32-x64", "win32-arm64", "linux-x64", "linux-arm64")]
        decoys = [d for d in decoys if d != mine]
        for d in decoys:
            os.makedirs(d)
            for n in ("tsgolint", "tsgolint.exe"):
                with open(d + "/" + n, "w") as f:
                    f.write("#!/bin/sh\necho decoy >> %s/decoy\nexit 0\n" % root)
                os.chmod(d + "/" + n, 0o755)
        def install():
            os.makedirs(mine, exist_ok=True)
            with open(mine + "/tsgolint", "w") as f:
                f.write(STANDIN % dict(py=sys.executable))
            os.chmod(mine + "/tsgolint", 0o755)
        install()
        dirs = [root + "/work", root + "/work/dir with space", root + "/work/\u00fcber"]
        for d in dirs:
            os.makedirs(d, exist_ok=True)
        base_env = {"PATH": os.path.dirname(node) + ":/usr/bin:/bin", "HOME": root}
        k = [0]

        def launch(args=(), stdin=b"", plan=None, env=None, cwd=None, via="bin", timeout=120, bad=None):
            """Returns (exit status, stdout, stderr, record or None, started how often)."""
            k[0] += 1
            p = dict(dict(read="all", out=0, err=0, status=0, signal=0, seed=k[0]), **(plan or {}))
            p["record"] = "%s/rec%d" % (root, k[0])
            with open("%s/plan%d" % (root, k[0]), "w") as f:
                json.dump(p, f)
            e = dict(base_env, VERIF_PLAN="%s/plan%d" % (root, k[0]))
            e.update(env or {})
            cmd = [app + "/node_modules/.bin/tsgolint"] if via == "bin" else [node, core + "/bin/tsgolint.js"]
            si = open("%s/in%d" % (root, k[0]), "wb+")
            si.write(stdin)
            si.seek(0)
            so, se = open("%s/out%d" % (root, k[0]), "wb+"), open("%s/err%d" % (root, k[0]), "wb+")
            pipe = p.get("pipe")
            try:
                if pipe:
                    pr = subprocess.Popen(cmd + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or dirs[0])
                    out, err = pr.communicate(stdin, timeout=timeout)
                    rc = pr.returncode
                else:
                    pr = subprocess.Popen(cmd + list(args), stdin=si, stdout=so, stderr=se, env=e, cwd=cwd or dirs[0])
                    rc = pr.wait(timeout)
                    so.seek(0), se.seek(0)
                    out, err = so.read(), se.read()
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                c.violation("the launcher does not end", args=list(map(repr, args)), plan=p)
                return None
            ino = [[os.fstat(f.fileno()).st_dev, os.fstat(f.fileno()).st_ino] for f in (si, so, se)]
            for f in (si, so, se):
                n = f.name
                f.close()
                os.unlink(n)
            rec = json.load(open(p["record"])) if os.path.exists(p["record"]) else None
            started = os.path.getsize(p["record"] + ".started") if os.path.exists(p["record"] + ".started") else 0
            return rc, out, err, rec, started, e, ino, p

        def check(kind, r, args, stdin, plan, cwd):
            if r is None:
                return
            rc, out, err, rec, started, e, ino, p = r
            c.evaluations += 1
            c.count(kind)
            c.saw(kind, tuple(args), len(stdin), json.dumps(plan, sort_keys=True))
            bad = []
            if os.path.exists(root + "/decoy"):
                bad.append("the binary of another platform ran")
                os.unlink(root + "/decoy")
            if started != 1:
                bad.append("the binary ran %d times" % started)
            if rec:
                if rec["argv"] != [os.fsencode(a).decode("latin-1") for a in args]:
                    bad.append("arguments %r arrived as %r" % (list(args), rec["argv"]))
                if rec["cwd"] != os.fsencode(cwd or dirs[0]).decode("latin-1"):
                    bad.append("directory %r became %r" % (cwd or dirs[0], rec["cwd"]))
                want = {os.fsencode(a).decode("latin-1"): os.fsencode(b).decode("latin-1") for a, b in e.items()}
                drop = ("LC_CTYPE",)
                got = {a: b for a, b in rec["env"].items() if a not in drop or a in want}
                if got != want:
                    bad.append("environment differs: %r" % sorted(set(got.items()) ^ set(want.items()))[:4])
                if not p.get("pipe"):
                    if rec["ino"] != ino:
                        bad.append("the streams are not the launcher's own: %r for %r" % (rec["ino"], ino))
                if rec["stdin"] != len(stdin) or rec["digest"] != hashlib.sha256(stdin).hexdigest():
                    if p["read"] == "all":
                        bad.append("standard input of %d bytes arrived as %d bytes" % (len(stdin), rec["stdin"]))
                if out != expected(p["out"], p["seed"]):
                    bad.append("standard output of %d bytes arrived as %d" % (p["out"], len(out)))
                if p["signal"]:
                    if not rc:
                        bad.append("killed by signal %d, yet status 0" % p["signal"])
                    if not err.startswith(expected(p["err"], p["seed"] + 1)):
                        bad.append("standard error was altered")
                else:
                    if rc != p["status"]:
                        bad.append("exit status %d became %s" % (p["status"], rc))
                    if err != expected(p["err"], p["seed"] + 1):
                        bad.append("standard error of %d bytes arrived as %d: %r" % (p["err"], len(err), err[-200:]))
            if bad:
                c.violation("%s: %s" % (kind, "; ".join(bad)), args=[repr(a) for a in args], plan=p, stderr=repr(err[-600:]))

        def one(kind, args=(), stdin=b"", plan=None, env=None, cwd=None, via="bin"):
            check(kind, launch(args, stdin, plan, env, cwd, via), args, stdin, plan, cwd)

        # exit statuses
        for s in c.pick([0, 1, 2, 3, 42, 64, 100, 126, 127, 128, 130, 137, 139, 143, 200, 254, 255], range(256)):
            one("exit status", plan=dict(status=s), via=rng.choice(["bin", "js"]))
        # signals: never a success
        for s in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT, signal.SIGSEGV, signal.SIGABRT, signal.SIGHUP, signal.SIGPIPE, signal.SIGBUS, signal.SIGILL, signal.SIGUSR1, signal.SIGQUIT)[:c.pick(7, 11)]:
            one("signal", plan=dict(signal=int(s), err=rng.choice([0, 500])))
        # arguments
        lists = [["headless"], ["headless", "-fix", "-fix-suggestions"], ["--", "a"], ["-h"], [""], ["", "", ""], ["a b", "c\td", "e\nf"], ["'", '"', "`x`", "$HOME", "$(exit 3)", "*", "?", "a;b", "|", "&&", "\\", "\\\\"],
                 ["\u00fc", "\u65e5\u672c", "\U0001f600"], ["--inspect"], ["--version"], ["-e", "process.exit(7)"], ["--eval=1"], ["-r", "x"], ["x" * 100000], ["a"] * 3000, ["--max-old-space-size=1"], ["%PATH%", "^", "!"], ["-"], ["--help"]]
        for a in lists:
            one("arguments", a, via=rng.choice(["bin", "js"]))
        alphabet = "ab-= \t\n'\"\\$`*?;|&<>(){}[]#~!%^\u00e9\u2028\U0001f4a9"
        for _ in range(c.pick(25, 300)):
            one("arguments", ["".join(rng.choice(alphabet) for _ in range(rng.randrange(0, 12))) for _ in range(rng.randrange(0, 9))], plan=dict(status=rng.randrange(256)))
        # streams
        for size in (0, 1, 65535, 65536, 65537, 1 << 20, (1 << 20) + 7, 5 << 20):
            one("streams", ["headless"], rng.randbytes(size), dict(out=size, err=size // 3, status=rng.choice([0, 1, 2])))
            one("streams through pipes", ["headless"], rng.randbytes(min(size, 60000)), dict(out=min(size, 60000), err=0, status=rng.choice([0, 1, 2]), pipe=True))
        one("streams through pipes", ["headless"], rng.randbytes(3 << 20), dict(out=3 << 20, err=0, pipe=True))
        for _ in range(c.pick(10, 150)):
            one("streams", [], rng.randbytes(rng.randrange(0, 300000)), dict(out=rng.randrange(0, 2000000), err=rng.randrange(0, 2000000), status=rng.randrange(256), read=rng.choice(["all", "none"])))
        # environment and directory
        for _ in range(c.pick(10, 100)):
            env = {"V%d" % i: "".join(rng.choice(alphabet) for _ in range(rng.randrange(0, 20))) for i in range(rng.randrange(0, 30))}
            env.update(rng.choice([{}, {"OXC_LOG": "debug"}, {"GOMAXPROCS": "3"}, {"OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS": "true"}, {"NO_COLOR": "1", "FORCE_COLOR": "0"}]))
            one("environment", [], b"", dict(status=rng.randrange(256)), env, rng.choice(dirs))
        # a binary that is not there, not executable, or not a program: failure, and nothing else runs
        def broken(kind, prepare):
            shutil.rmtree(mine)
            prepare()
            r = launch(["headless"], b"{}")
            if r:
                rc, out, err, rec, started, *_ = r
                c.evaluations += 1
                c.count("missing binary")
                c.saw("missing", kind)
                if rc == 0 or rec or os.path.exists(root + "/decoy"):
                    c.violation("%s: the launcher ended with status %s%s" % (kind, rc, " and another platform's binary ran" if os.path.exists(root + "/decoy") else ""), stderr=repr(err[-500:]))
                if out:
                    c.violation("%s: the launcher wrote to standard output: %r" % (kind, out[:200]))
            if os.path.exists(root + "/decoy"):
                os.unlink(root + "/decoy")
            shutil.rmtree(mine, ignore_errors=True)
            install()

        def write(text, mode):
            os.makedirs(mine)
            with open(mine + "/tsgolint", "wb") as f:
                f.write(text)
            os.chmod(mine + "/tsgolint", mode)
        broken("platform package missing", lambda: None)
        broken("platform package empty", lambda: os.makedirs(mine))
        broken("not executable", lambda: write(b"#!/bin/sh\nexit 0\n", 0o644))
        broken("not a program", lambda: write(b"\x7fELFgarbage", 0o755))
        broken("interpreter missing", lambda: write(b"#!/nowhere/x\n", 0o755))
        broken("a directory", lambda: os.makedirs(mine + "/tsgolint"))
        # hoisted next to the package or nested inside it: resolution as Node does it
        nested = core + mine[len(app):]
        os.makedirs(os.path.dirname(nested))
        os.rename(mine, nested)
        one("nested package", ["x"], b"abc", dict(status=5))
        c.cov["launches"] = k[0]
        c.sample(dict(arguments=lists[7], statuses="every listed status", node=subprocess.run([node, "--version"], capture_output=True, text=True).stdout.strip()))
    c.assumptions = ["one platform (the one the check runs on) is exercised", "Node's own behaviour is as installed here"]
