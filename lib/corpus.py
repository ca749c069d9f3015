"""Program corpora and how they are laid out on disk.

A case is {id, files: {name: text}, main: name, ts: tsconfig name, own: [rule, options] | None}.
Each case becomes one directory with its own tsconfig.json (one TypeScript program per case),
so thousands of independent programs are linted by one process.
"""
import gzip, json, os, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = os.path.join(HERE, "corpus", "fixtures")
NODE_TYPES = "/opt/veriftools/node/node_modules/@types"


def load(name):
    with gzip.open(os.path.join(HERE, "corpus", name + ".jsonl.gz"), "rt", encoding="utf-8") as f:
        return [json.loads(l) for l in f]


def save(name, rows):
    p = os.path.join(HERE, "corpus", name + ".jsonl.gz")
    with open(p, "wb") as raw, gzip.GzipFile(fileobj=raw, mode="wb", mtime=0, filename="") as g:
        for r in rows:
            g.write((json.dumps(r, ensure_ascii=False, separators=(",", ":"), sort_keys=True) + "\n").encode("utf-8", "surrogatepass"))


def layout(root, cases):
    """Writes the cases below root; returns {case id: absolute path of its main file}."""
    os.makedirs(root, exist_ok=True)
    fx = os.path.join(root, "fixtures")
    if not os.path.isdir(fx):
        shutil.copytree(FIX, fx)
    mains = {}
    for c in cases:
        d = "%s/c/%s" % (root, c["id"])
        files = []
        for n, t in c["files"].items():
            p = os.path.normpath(os.path.join(d, n))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(t.encode("utf-8", "surrogateescape"))
            if "/node_modules/" not in p and n.endswith((".ts", ".tsx", ".mts", ".cts", ".js", ".jsx", ".mjs", ".cjs")):
                files.append(p)
        for lk in c.get("links") or []:
            src, dst = os.path.join(fx, lk), os.path.join(d, lk)
            if not os.path.exists(dst):
                (shutil.copytree if os.path.isdir(src) else shutil.copyfile)(src, dst)
        opts = {"types": []}
        if c["ts"] == "tsconfig.includeTypes.json":
            opts = {"types": ["node"], "typeRoots": [NODE_TYPES]}
        opts.update(c.get("opts") or {})
        with open(d + "/tsconfig.json", "w") as f:
            json.dump({"extends": "../../fixtures/" + c["ts"], "compilerOptions": opts, "files": sorted(files)}, f)
        mains[c["id"]] = os.path.normpath(os.path.join(d, c["main"]))
    return mains
