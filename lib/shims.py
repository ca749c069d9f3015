"""C24: a program that holds every binding of the shim against the compiler entity of the same name."""
import glob, hashlib, json, os, re, subprocess
import build

PRE = build.TSMOD


def packages(root):
    out = []
    for dp, dn, fn in os.walk(root):
        dn.sort()
        if any(f.endswith(".go") for f in fn):
            out.append(os.path.relpath(dp, root))
    return sorted(out)


def lister():
    src = os.path.join(build.VERIF, "harness", "shim", "list.go")
    out = os.path.join(build.BUILD, "bin", "shimlist-" + hashlib.sha256(build._read(src)).hexdigest()[:16])
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out):
        build.go(["build", "-o", out, src], dict(GOFLAGS=""), cwd="/tmp")
    return out


def listing(dirs):
    r = subprocess.run([lister()] + dirs, capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[-1500:])
    return json.loads(r.stdout)


def target(name, kinds):
    """Compiler entities a shim function of that name may stand for: [(receiver or '', name)]."""
    low = name[:1].lower() + name[1:]
    return [("", name), ("", low)] + [(name[:i], name[i + 1:]) for i, ch in enumerate(name) if ch == "_" and i]


def comparer(shimroot):
    """Builds the comparison program for the shim below shimroot. Returns (path, {pkg: shim decls}, {pkg: compiler decls}, unresolved names)."""
    ts = build.ts_dir()
    pkgs = packages(shimroot)
    A = listing([os.path.join(shimroot, p) for p in pkgs])
    B = listing([os.path.join(ts, "internal", p) for p in pkgs])
    gen = os.path.join(build.BUILD, "gen", "shim")
    subprocess.run(["rm", "-rf", gen], check=True)
    os.makedirs(gen)
    rep, rows, imports, lost = {}, [], [], []
    for i, p in enumerate(pkgs):
        a, b = A[os.path.join(shimroot, p)], B[os.path.join(ts, "internal", p)]
        funcs = {(d["Recv"], d["Name"]): d for d in b["decls"] or [] if d["Kind"] == "func"}
        others = {(d["Kind"], d["Name"]): d for d in b["decls"] or [] if d["Kind"] != "func"}
        table, used = {}, False
        for d in a["decls"]:
            n, k = d["Name"], d["Kind"]
            if not n[:1].isupper() or (p == "ast" and d.get("helper")):
                continue
            if k == "func":
                ts_ = [t for t in target(n, funcs) if t in funcs]
                fld = re.match(r"(\w+?)_(\w+)$", n)
                if ts_:
                    t = ts_[0]
                    f = funcs[t]
                    if f["Generic"]:
                        lost.append((p, k, n))
                        continue
                    key = "%s.%s" % t if t[0] else t[1]
                    table[key] = ("(*%s).%s" if f["Ptr"] else "%s.%s") % t if t[0] else t[1]
                    rows.append('%s(%s, %s, s%d.%s, c%d.VerifFuncs[%s])' % ("wrapper" if d["Body"] else "function", json.dumps(p), json.dumps(n), i, n, i, json.dumps(key)))
                elif fld and ("type", fld.group(1)) in others and d["Body"]:
                    rows.append('field(%s, %s, %s, s%d.%s)' % (json.dumps(p), json.dumps(n), json.dumps(fld.group(2)), i, n))
                else:
                    lost.append((p, k, n))
                    continue
            elif k == "type":
                if d["Generic"] or (k, n) not in others:
                    if (k, n) not in others:
                        lost.append((p, k, n))
                    continue
                rows.append('typ(%s, %s, reflect.TypeFor[s%d.%s](), reflect.TypeFor[c%d.%s]())' % (json.dumps(p), json.dumps(n), i, n, i, n))
            elif (k, n) not in others:
                lost.append((p, k, n))
                continue
            elif k == "const":
                rows.append('constant(%s, %s, s%d.%s, c%d.%s)' % (json.dumps(p), json.dumps(n), i, n, i, n))
            else:
                rows.append('variable(%s, %s, &s%d.%s, &c%d.%s)' % (json.dumps(p), json.dumps(n), i, n, i, n))
            used = True
        if not used:
            continue
        f = os.path.join(gen, "in%d.go" % i)
        with open(f, "w") as o:
            o.write("package %s\n\nvar VerifFuncs = map[string]any{\n%s}\n" % (b["package"], "".join("\t%s: %s,\n" % (json.dumps(k), v) for k, v in sorted(table.items()))))
        rep[os.path.join(ts, "internal", p, "zz_verif.go")] = f
        imports += ['s%d "%s/shim/%s"' % (i, PRE, p), 'c%d "%s/internal/%s"' % (i, PRE, p)]
    if ("ast", "func", "DefaultLocale") in lost and ("ast", "type", "DiagnosticsMessage") in lost:
        # the two hand-written helpers
        i = pkgs.index("ast")
        rows.append('variable("ast", "DefaultLocale", ptr(s%d.DefaultLocale()), &locale.Default)' % i)
        rows.append('typ("ast", "DiagnosticsMessage", reflect.TypeFor[s%d.DiagnosticsMessage](), reflect.TypeFor[diagnostics.Message]())' % i)
        imports += ['locale "%s/internal/locale"' % PRE, 'diagnostics "%s/internal/diagnostics"' % PRE]
        lost = [x for x in lost if x[2] not in ("DefaultLocale", "DiagnosticsMessage")]
    main = os.path.join(gen, "main.go")
    body = "\n".join(rows)
    imports = [m for m in imports if re.search(r"\b%s\." % m.split()[0], body)]
    with open(main, "w") as o:
        o.write("package main\n\nimport (\n\t\"reflect\"\n%s\n)\n\nvar _ = reflect.TypeFor[int]\n\nfunc main() {\n%s\n}\n" % ("\n".join("\t" + m for m in imports), "\n".join("\t" + r for r in rows)))
    home = os.path.join(build.REPO, "shim", "compiler", "verifall")
    rep[home + "/main.go"] = main
    rep[home + "/lib.go"] = os.path.join(build.VERIF, "harness", "shim", "lib.go")
    # the shim files themselves may come from another place than the tree
    if os.path.realpath(shimroot) != os.path.realpath(os.path.join(build.REPO, "shim")):
        for p in pkgs:
            for f in glob.glob(os.path.join(shimroot, p, "*.go")):
                rep[os.path.join(build.REPO, "shim", p, os.path.basename(f))] = f
    out = os.path.join(build.BUILD, "bin", "shimcmp-%d" % os.getpid())
    with build.Lock("build"):
        mf = build.modfile(ts)
        ov = build.overlay(ts, rep, "shim")
        r = build.go(["build", "-trimpath", "-modfile=" + mf, "-overlay=" + ov] + build.GCFLAGS[:1] + ["-ldflags=-s -w", "-o", out, PRE + "/shim/compiler/verifall"], check=False)
    return out, A, B, lost, (r.stdout or "") + (r.stderr or "") if r.returncode else ""


def compare(shimroot):
    """[(package, kind, name, '' or what is wrong)], listing of the shim, names without a counterpart, build error."""
    out, A, B, lost, err = comparer(shimroot)
    if err:
        return [], A, lost, err
    try:
        r = subprocess.run([out], capture_output=True, text=True, timeout=300)
    finally:
        os.unlink(out)
    rows = [json.loads(l) for l in r.stdout.splitlines()]
    if r.returncode:
        return rows, A, lost, "the comparison ended with %s: %s" % (r.returncode, r.stderr[-800:])
    return rows, A, lost, ""


def exported(listing_, root):
    return {(os.path.relpath(d, root), x["Kind"], x["Name"]) for d, v in listing_.items() for x in v["decls"] or [] if x["Name"][:1].isupper()}


def generated(dst):
    """Runs the tree's generator on a copy of the tree's shim below dst."""
    ts = build.ts_dir()
    subprocess.run(["cp", "-r", os.path.join(build.REPO, "shim"), dst], check=True)
    # what it writes must be its own work
    for p in packages(dst + "/shim"):
        f = os.path.join(dst, "shim", p, "shim.go")
        if os.path.exists(f):
            with open(f, "w") as o:
                o.write("package %s\n" % re.search(r"^package (\w+)", build._read(os.path.join(build.REPO, "shim", p, "shim.go")).decode(), re.M).group(1))
    exe = os.path.join(dst, "gen_shims")
    with build.Lock("build"):
        mf = build.modfile(ts)
        ov = build.overlay(ts, name="gen")
        build.go(["build", "-trimpath", "-modfile=" + mf, "-overlay=" + ov] + build.GCFLAGS[:1] + ["-o", exe, "./tools/gen_shims"])
        m = build._read(mf).decode().replace("=> ./shim/", "=> %s/shim/" % dst)
        with open(dst + "/shim/compiler/go.mod", "w") as o:
            o.write(m)
        subprocess.run(["cp", mf[:-3] + "sum", dst + "/shim/compiler/go.sum"], check=True)
        env = build._env(dict(GOFLAGS="-mod=mod -trimpath -gcflags=all=-dwarf=false"))
        r = subprocess.run([exe], cwd=dst, env=env, capture_output=True, text=True, timeout=600)
    for f in ("go.mod", "go.sum"):
        subprocess.run(["cp", os.path.join(build.REPO, "shim", "compiler", f), dst + "/shim/compiler/" + f], check=True)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
