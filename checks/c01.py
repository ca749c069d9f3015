"""C01: the output stream is a sequence of complete, well-formed frames, and nothing is lost on the way."""
import collections, json, os, time
import batch, build, corpus, tsgo, work

FLAGS = ("-fix", "-fix-suggestions")


def slow(rng, total):
    """A reader that stalls: tiny reads, bursts, pauses (bounded in number, not in time)."""
    def read(f):
        out, pauses = [], 0
        fd = f.fileno()
        while True:
            n = rng.choice([1, 3, 5, 17, 4096, 65536, 1 << 20])
            b = os.read(fd, n)
            if not b:
                return b"".join(out)
            out.append(b)
            if pauses < total and rng.random() < .3:
                pauses += 1
                time.sleep(rng.choice([0, .001, .01]))
    return read


# a program in which T is quoted by the messages of several rules
def quoting(lit, ident, n=1):
    return "".join("declare const o%d: any;\no%d[%s];\no%d.%s;\nfunction f%d(x: %s | %s | string) {}\n`${%s}`;\n({}) + %s;\nclass K%d { private %s = 1; m() { return this.%s; } }\n"
                   % (i, i, lit, i, ident, i, lit, lit, lit, lit, i, ident, ident) for i in range(n)) + "export {};\n"


ODD = {
    "escaped": "'\\u0000\\b\\x7f\\\\ \\' \\\"'", "quotes": "'\"\"\"\\\\\"'", "unicode": "'é漢字😀\u2028x\u2029'", "bom": "'a\ufeffb'",
    "lone surrogate escape": "'\\uD800'", "lone trail": "'\\udc00x'", "split pair": "'\\ud83d' + '\\ude00'", "html": "'<script>&amp;</script>'",
    "nul": "'a\x00b'", "controls": "'\x01\x02\x1b\x7f\x85'", "replacement": "'\ufffd'", "tab": "'\t'",
}


def run(c):
    b = build.binary()
    c.rule = "one evaluation = one process run whose whole output stream is decoded strictly and compared with what it must contain; non-trivial = a run that emitted frames, keyed by workload"

    def ok(r, tag, timing=0, failed=False, **data):
        c.evaluations += 1
        c.count("frames_decoded", len(r.frames))
        c.count("bytes_decoded", len(r.out))
        if r.frames:
            c.saw(tag)
        w = tsgo.stream_fault(r, failed, timing)
        if w:
            c.violation("%s: %s" % (tag, w), stderr=r.stderr.decode("utf-8", "replace")[-1500:], out_head=r.out[:200], **data)
            return False
        return True

    with batch.Area("c01") as root:
        # 1. many programs, fast and slow readers, every flag combination
        cases = work.take(c.rng, ["rules", "conf", "mut"], c.pick(900, 6000))
        mains = corpus.layout(root, cases)
        files = sorted(mains.values())
        parts = [files[i::c.pick(3, 12)] for i in range(c.pick(3, 12))]
        for i, fs in enumerate(parts):
            pl = tsgo.payload([(fs, work.ALL)], report_semantic=True, report_syntactic=True)
            ref = tsgo.run(b, pl, FLAGS, cwd=root, timeout=600)
            if not ok(ref, "bulk %d" % i):
                continue
            want = work.view(ref.diags)
            for flags, timing in ((FLAGS, 0), (FLAGS + ("-debug", "timings"), 1), ((), 0)):
                r = tsgo.run(b, pl, flags, cwd=root, procs=c.rng.choice([1, 4, 8]), timeout=900, reader=slow(c.rng, 150))
                if ok(r, "bulk %d, stalling reader, flags %s" % (i, " ".join(flags)), timing):
                    got = work.view(r.diags)
                    if not flags:
                        strip = lambda v: collections.Counter(tsgo.key(d, fixes=False) for d in v)
                        if strip(r.diags) != strip(ref.diags):
                            c.violation("stalling reader: other diagnostics: " + work.diff(strip(ref.diags), strip(r.diags)))
                    elif got != want:
                        c.violation("stalling reader: other diagnostics: " + work.diff(want, got))
            if i == 0:
                c.sample(dict(workload="bulk", programs=len(fs), frames=len(ref.frames), bytes=len(ref.out)))
        # 2. many diagnostics in one file (far beyond every channel and buffer)
        for n in c.pick([700, 6000], [700, 6000, 40000]):
            t = "declare const a: any;\n" + "".join("a.b%d;\n" % i for i in range(n)) + "export {};\n"
            f = work.project(root, "many%d" % n, {"f.ts": t})[0]
            r = tsgo.run(b, tsgo.payload([([f], [("no-unsafe-member-access",)])]), cwd=root, timeout=600, reader=slow(c.rng, 100))
            if ok(r, "many %d" % n):
                got = collections.Counter(t[d["range"]["pos"]:d["range"]["end"]] for d in r.diags)
                if got != collections.Counter("b%d" % i for i in range(n)):
                    c.violation("%d diagnostics expected in one file, got %d (%d distinct)" % (n, len(r.diags), len(got)))
        # ... nor of type errors, which one goroutine reports in a burst before any rule runs
        for n in c.pick([9000], [6000, 40000]):
            t = "const a = {};\n" + "".join("a.b%d;\n" % i for i in range(n)) + "export {};\n"
            f = work.project(root, "errors%d" % n, {"f.ts": t})[0]
            for procs in (1, 8):
                r = tsgo.run(b, tsgo.payload([([f], [("await-thenable",)])], report_semantic=True), cwd=root, timeout=600, procs=procs, reader=slow(c.rng, 200))
                if ok(r, "type errors %d" % n):
                    got = collections.Counter(t[d["range"]["pos"]:d["range"]["end"]] for d in r.diags)
                    if got != collections.Counter("b%d" % i for i in range(n)):
                        c.violation("%d type errors expected in one file, got %d (%d distinct)" % (n, len(r.diags), len(got)))
        # logging never reaches the output stream
        pl = tsgo.payload([(parts[0][:40], work.ALL)], report_semantic=True)
        ref = tsgo.run(b, pl, FLAGS, cwd=root)
        if ok(ref, "log: off"):
            for env in ({"OXC_LOG": "debug"}, {"OXC_LOG": "DEBUG"}, {"OXC_LOG": "trace"}):
                r = tsgo.run(b, pl, FLAGS, cwd=root, env=env)
                if ok(r, "log: %s" % env):
                    if work.view(r.diags) != work.view(ref.diags):
                        c.violation("with %s: other diagnostics: %s" % (env, work.diff(work.view(ref.diags), work.view(r.diags))))
                    c.count("log_bytes_on_stderr", len(r.stderr))
        # 3. long texts: nothing is cut short
        plain = None
        for size in c.pick([3, 4090, 5000, 70000, 409595, 409700, 1000000], [3] + list(range(4085, 4101)) + [5000, 65530, 65540, 70000] + list(range(409300, 409700, 13)) + [1000000, 5000000]):
            word = "q" + "z" * (size - 1)
            t = quoting("'" + word + "'", word)
            f = work.project(root, "long", {"f.ts": t})[0]
            r = tsgo.run(b, tsgo.payload([([f], work.ALL)]), FLAGS, cwd=root, timeout=600, reader=slow(c.rng, 60) if size > 4000 else None)
            if not ok(r, "long text %d" % size):
                continue
            norm = collections.Counter(json.dumps([d["rule"], d["message"], d.get("fixes"), d.get("suggestions")]).replace(word, "@") for d in r.diags)
            for k in list(norm):
                pass
            # positions of fixes move with the size: compare rule + message only, and the quoted text in full
            norm = collections.Counter(json.dumps([d["rule"], d["message"]["id"], d["message"]["description"].replace(word, "@")]) for d in r.diags)
            if plain is None:
                plain = norm
                c.need(sum("@" in k for k in norm) >= 3, "the long-text workload quotes nothing")
            else:
                # a message may quote a documented abbreviation of the text, but must not disappear
                a, g = collections.Counter(json.loads(k)[0] + "/" + json.loads(k)[1] for k in plain.elements()), collections.Counter(json.loads(k)[0] + "/" + json.loads(k)[1] for k in norm.elements())
                if a != g:
                    c.violation("text of %d characters: diagnostics differ from those of a 3-character text: %s" % (size, work.diff(a, g)))
        # 4. odd texts: nothing is dropped
        ref = None
        for name, lit in [("plain", "'abc'")] + sorted(ODD.items()):
            t = quoting(lit, "abc")
            f = work.project(root, "odd", {"f.ts": t})[0]
            r = tsgo.run(b, tsgo.payload([([f], [(x,) for x in ("no-unsafe-member-access", "no-duplicate-type-constituents", "no-base-to-string", "restrict-plus-operands")])]), FLAGS, cwd=root)
            if ok(r, "odd text: " + name, text=t):
                g = collections.Counter((d["rule"], d["message"]["id"]) for d in r.diags)
                if "split" in name:
                    continue  # not a literal type
                if ref is None:
                    ref = g
                    c.need(len(ref) >= 3, "the odd-text workload reports too little")
                    c.sample(dict(workload="odd texts", program=t, expected=[list(k) for k in ref]))
                elif g != ref:
                    c.violation("odd text (%s): a diagnostic was lost or added: %s" % (name, work.diff(ref, g)), text=t)
        # raw bytes that are not UTF-8
        for k, raw in enumerate([b"\xff\xfe", b"\x80", b"\xc3", b"\xed\xa0\x80", b"\xf5\x80\x80\x80"]):
            t = b"declare const o: any;\no['a" + raw + b"'];\no.b;\nfunction f(x: 'a" + raw + b"' | 'a" + raw + b"') {}\nexport {};\n"
            if raw == b"\xff\xfe":
                t = t.replace(b"declare", b"/**/declare")
            f = work.project(root, "raw%d" % k, {"f.ts": t})[0]
            r = tsgo.run(b, tsgo.payload([([f], [("no-unsafe-member-access",), ("no-duplicate-type-constituents",)])]), FLAGS, cwd=root)
            if ok(r, "raw bytes %r" % raw, text=repr(t)):
                g = collections.Counter(d["rule"] for d in r.diags)
                if g != {"no-unsafe-member-access": 2, "no-duplicate-type-constituents": 1}:
                    c.violation("raw bytes %r: a diagnostic was lost: %s" % (raw, dict(g)), text=repr(t))
        # 5. nothing to do, and runs that fail
        some = parts[0][:60]
        for tag, pl in (("no configs", tsgo.payload([])), ("no files", tsgo.payload([([], work.ALL)])), ("no rules", tsgo.payload([(some[:5], [])]))):
            r = tsgo.run(b, pl, FLAGS, cwd=root)
            if ok(r, tag) and r.frames:
                c.violation("%s: %d frames" % (tag, len(r.frames)))
            c.saw(tag)
        bad = [("garbage", b"\x00\x01garbage", None), ("empty input", b"", None), ("version", b'{"version": 7}', None),
               ("unknown rule", tsgo.payload([(some, work.ALL + [("no-such-rule",)])]), None)]
        for k in range(c.pick(6, 40)):
            n = c.rng.choice([1, 10, 60])
            bad.append(("missing file #%d" % k, tsgo.payload([(some[:n] + [root + "/nowhere/x%d.ts" % k], work.ALL)]), c.rng.choice([1, 2, 8])))
        for tag, pl, procs in bad:
            r = tsgo.run(b, pl, FLAGS + ("-debug", "timings"), cwd=root, procs=procs, reader=slow(c.rng, 40) if procs else None)
            ok(r, "failing run: " + tag.split(" #")[0] + str(procs), failed=True)
            if "missing" in tag and not r.broken:
                # what the linter reported before it failed is complete
                c.count("diagnostics_before_failure", len(r.diags))
    c.assumptions = ["no member of a frame may repeat and the body must be UTF-8 JSON"]
