"""Runs many independent one-directory programs through the real executable."""
import concurrent.futures as cf, os, shutil, tempfile
import corpus, tsgo


class Area:
    """Scratch directory that is removed again."""

    def __init__(self, tag="v"):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="verif-%s-" % tag, dir=base))

    def __enter__(self):
        return self.root

    def __exit__(self, *a):
        shutil.rmtree(self.root, ignore_errors=True)


def case_of(root, path):
    pre = root + "/c/"
    return path[len(pre):].split("/", 1)[0] if path and path.startswith(pre) else None


def lint(binary, root, jobs, flags=("-fix", "-fix-suggestions"), chunk=250, workers=6, procs=2, timeout=300, **payload):
    """jobs: [(case id, main path, [(rule, options?)...])]. Returns ({case id: [diagnostics]}, [(job chunk, Result) that failed])."""
    res = {j[0]: [] for j in jobs}
    bad = []
    chunks = [jobs[i:i + chunk] for i in range(0, len(jobs), chunk)]

    def one(js):
        # group files with identical rule lists, as the editor integration does
        groups = {}
        for cid, main, rules in js:
            groups.setdefault(repr(rules), ([], rules))[0].append(main)
        pl = tsgo.payload([(f, r) for f, r in groups.values()], **payload)
        return tsgo.run(binary, pl, flags, cwd=root, procs=procs, timeout=timeout)

    stray = []
    with cf.ThreadPoolExecutor(workers) as ex:
        for js, r in zip(chunks, ex.map(one, chunks)):
            if not r.ok():
                bad.append((js, r))
            for d in r.diags:
                c = case_of(root, d.get("file_path"))
                if c in res:
                    res[c].append(d)
                else:
                    stray.append(d)
    return res, bad, stray
