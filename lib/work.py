"""Workloads built from the committed corpora, and the multiset views the oracles compare."""
import collections, os, random
import batch, build, corpus, tsgo

ALL = [(r,) for r in tsgo.RULES]


def take(rng, names, n, multi=None, pred=None):
    """n cases drawn from the named corpora."""
    pool = []
    for nm in names:
        pool += corpus.load(nm)
    if pred:
        pool = [c for c in pool if pred(c)]
    if n < len(pool):
        pool = rng.sample(pool, n)
    return pool


def view(diags):
    """Canonical multiset of a result."""
    return collections.Counter(tsgo.key(d) for d in diags)


def by_file(diags):
    r = collections.defaultdict(list)
    for d in diags:
        r[d.get("file_path")].append(d)
    return r


def diff(a, b, n=3):
    """Short description of how two multisets differ, '' if equal."""
    if a == b:
        return ""
    m = list((a - b).elements())[:n]
    p = list((b - a).elements())[:n]
    return "only in first (%d): %s; only in second (%d): %s" % (sum((a - b).values()), m, sum((b - a).values()), p)


def project(root, name, files, tsconfig="tsconfig.json", options=None, extra=None):
    """One TypeScript project holding many files: {relative name: text}. Returns absolute paths in order."""
    import json, shutil
    fx = os.path.join(root, "fixtures")
    if not os.path.isdir(fx):
        shutil.copytree(corpus.FIX, fx)
    d = os.path.join(root, name)
    out = []
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape"))
        out.append(p)
    cfg = {"extends": os.path.relpath(os.path.join(fx, tsconfig), d), "compilerOptions": dict({"types": [], "allowJs": True}, **(options or {})), "include": ["**/*"]}
    cfg.update(extra or {})
    with open(os.path.join(d, "tsconfig.json"), "w") as f:
        json.dump(cfg, f)
    return out
