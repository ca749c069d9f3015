"""C24: every binding of the compiler shim stands for the compiler entity of its name, and the generator produces the same bindings."""
import os
import batch, build, shims


def judge(c, what, root):
    rows, listing, lost, err = shims.compare(root)
    if err:
        c.violation("%s: the bindings cannot be held against the compiler: %s" % (what, err[-1500:]))
    for r in rows:
        c.evaluations += 1
        c.count("%s: %s" % (what, r["Kind"]))
        c.saw(what, r["Pkg"], r["Kind"], r["Name"])
        if r["Bad"]:
            c.violation("%s: %s %s.%s %s" % (what, r["Kind"], r["Pkg"], r["Name"], r["Bad"]), ident=dict(pkg=r["Pkg"], name=r["Name"]), **r)
    for x in lost:
        c.count("%s: names without a compiler entity to compare with" % what)
    return shims.exported(listing, root), rows


def run(c):
    c.rule = ("one evaluation = one exported binding exercised in a program linked with the pinned, patched compiler: code address and type of "
              "functions, type identity, value and type of constants and variables, and accessors called on objects whose fields all hold values of "
              "their own; non-trivial = all of them")
    committed = os.path.join(build.REPO, "shim")
    have, rows = judge(c, "committed", committed)
    c.need(c.violations or len(rows) > 3000, "only %d bindings seen" % len(rows))
    c.sample(rows[:3])
    with batch.Area("c24") as root:
        rc, out = shims.generated(root)
        if rc:
            c.violation("the generator failed on the committed descriptions: " + out)
            return
        gen = root + "/shim"
        want = shims.exported(shims.listing([os.path.join(gen, p) for p in shims.packages(gen)]), gen)
        for x in sorted(want - have)[:20]:
            c.violation("the generator exposes %s %s.%s, the committed bindings do not" % (x[1], x[0], x[2]), ident=dict(pkg=x[0], name=x[2]))
        for x in sorted(have - want)[:20]:
            c.violation("the committed bindings expose %s %s.%s, the generator does not" % (x[1], x[0], x[2]), ident=dict(pkg=x[0], name=x[2]))
        c.cov["generated_bindings"] = len(want)
        same = all(build._read(os.path.join(gen, p, "shim.go")) == build._read(os.path.join(committed, p, "shim.go")) for p in shims.packages(committed) if os.path.exists(os.path.join(committed, p, "shim.go")))
        c.cov["generated_files_are_byte_identical"] = same
        if not same and not c.violations:
            judge(c, "generated", gen)
    c.assumptions = ["functions with a body of their own in the shim are compared by type only"]
