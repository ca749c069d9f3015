"""Driving the real executable and decoding its output strictly."""
import json, os, struct, subprocess, threading

ERR, DIAG, TIMING = 0, 1, 2


class Broken(Exception):
    """The output stream does not consist of well-formed frames."""


class Result:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.stderr, self.timed_out = rc, out, err, timed_out
        self.frames = None
        self.broken = None
        try:
            self.frames = parse(out)
        except Broken as e:
            self.broken = str(e)
            self.frames = []

    @property
    def diags(self):
        return [m for t, m in self.frames if t == DIAG]

    @property
    def errors(self):
        return [m for t, m in self.frames if t == ERR]

    @property
    def timings(self):
        return [m for t, m in self.frames if t == TIMING]

    def ok(self):
        return self.rc == 0 and not self.broken and not self.timed_out and not self.errors

    def why(self):
        if self.timed_out:
            return "timed out"
        if self.broken:
            return "broken output stream: " + self.broken
        e = self.stderr.decode("utf-8", "replace")
        i = e.find("panic:")
        return "exit %s errors=%s stderr=%s" % (self.rc, [x.get("error") for x in self.errors][:2], e[i:i + 600] if i >= 0 else e[-600:])


def _nodup(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Broken("duplicate member %r" % k)
        d[k] = v
    return d


def parse(b):
    o, r, n = 0, [], len(b)
    while o < n:
        if n - o < 5:
            raise Broken("%d stray bytes at end of stream: %r" % (n - o, b[o:o + 16]))
        ln, t = struct.unpack_from("<IB", b, o)
        if t > 2:
            raise Broken("unknown frame type %d at offset %d of %d: %r" % (t, o, n, b[max(0, o - 20):o + 40]))
        if o + 5 + ln > n:
            raise Broken("frame at offset %d promises %d bytes, only %d left" % (o, ln, n - o - 5))
        try:
            m = json.loads(b[o + 5:o + 5 + ln].decode("utf-8"), object_pairs_hook=_nodup)
        except Broken:
            raise
        except Exception as e:
            raise Broken("frame at offset %d is not JSON: %s" % (o, e))
        r.append((t, m))
        o += 5 + ln
    return r


def run(binary, payload, flags=(), cwd="/", env=None, timeout=240, stdin=None, procs=None, reader=None, pre=None):
    """One headless run. payload is an object, or raw bytes."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "OXC_", "OXLINT_"))}
    if procs:
        e["GOMAXPROCS"] = str(procs)
    e.update(env or {})
    data = payload if isinstance(payload, bytes) else json.dumps(payload).encode()
    p = subprocess.Popen([binary, "headless"] + list(flags), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=e, preexec_fn=pre)
    if reader is None:
        try:
            out, err = p.communicate(data, timeout=timeout)
            return Result(p.returncode, out, err)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
            return Result(None, out, err, True)
    buf = [b""]
    t = threading.Thread(target=lambda: buf.__setitem__(0, p.stderr.read()))
    t.start()
    p.stdin.write(data)
    p.stdin.close()
    out = reader(p.stdout)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        t.join()
        return Result(None, out, buf[0], True)
    t.join()
    return Result(p.returncode, out, buf[0])


def payload(configs, **kw):
    """configs: [(files, [(rule, options?)...])]"""
    return dict(version=2, configs=[dict(file_paths=list(f), rules=[dict(name=r[0], **({"options": r[1]} if len(r) > 1 else {})) for r in rs]) for f, rs in configs], **kw)


def key(d, ranges=True, fixes=True):
    """Canonical, hashable form of a diagnostic."""
    c = {k: v for k, v in d.items()}
    if not ranges:
        c.pop("range", None)
    if not fixes:
        c.pop("fixes", None)
        c.pop("suggestions", None)
    return json.dumps(c, sort_keys=True)


RULES = """await-thenable consistent-return consistent-type-exports dot-notation no-array-delete no-base-to-string no-confusing-void-expression no-deprecated no-duplicate-type-constituents no-floating-promises no-for-in-array no-implied-eval no-meaningless-void-operator no-misused-promises no-misused-spread no-mixed-enums no-redundant-type-constituents no-unnecessary-boolean-literal-compare no-unnecessary-condition no-unnecessary-qualifier no-unnecessary-template-expression no-unnecessary-type-arguments no-unnecessary-type-assertion no-unnecessary-type-conversion no-unnecessary-type-parameters no-unsafe-argument no-unsafe-assignment no-unsafe-call no-unsafe-enum-comparison no-unsafe-member-access no-unsafe-return no-unsafe-type-assertion no-unsafe-unary-minus no-useless-default-assignment non-nullable-type-assertion-style only-throw-error prefer-find prefer-includes prefer-nullish-coalescing prefer-optional-chain prefer-promise-reject-errors prefer-readonly prefer-readonly-parameter-types prefer-reduce-type-parameter prefer-regexp-exec prefer-return-this-type prefer-string-starts-ends-with promise-function-async related-getter-setter-pairs require-array-sort-compare require-await restrict-plus-operands restrict-template-expressions return-await strict-boolean-expressions strict-void-return switch-exhaustiveness-check unbound-method use-unknown-in-catch-callback-variable""".split()
assert len(RULES) == 59


def _range(r):
    return isinstance(r, dict) and set(r) == {"pos", "end"} and all(type(r[k]) is int for k in r)


def _msg(m):
    return isinstance(m, dict) and {"id", "description"} <= set(m) <= {"id", "description", "help"} and all(isinstance(v, str) for v in m.values()) and m["id"] and m["description"]


def _fix(f):
    return isinstance(f, dict) and set(f) == {"text", "range"} and isinstance(f["text"], str) and _range(f["range"])


def shape(t, m):
    """'' if the frame body has the documented shape for its type, otherwise what is wrong."""
    if not isinstance(m, dict):
        return "body is not an object"
    if t == ERR:
        return "" if set(m) == {"error"} and isinstance(m["error"], str) and m["error"] else "bad error frame %r" % m
    if t == TIMING:
        if set(m) != {"rules"} or not isinstance(m["rules"], list):
            return "bad timing frame"
        for r in m["rules"]:
            if set(r) != {"rule_name", "duration", "calls"} or not isinstance(r["rule_name"], str) or type(r["duration"]) is not int or type(r["calls"]) is not int or r["duration"] < 0 or r["calls"] < 0:
                return "bad timing record %r" % r
        return ""
    if not {"kind", "message", "file_path"} <= set(m) <= {"kind", "range", "message", "file_path", "labeled_ranges", "rule", "fixes", "suggestions"}:
        return "unexpected members %s" % sorted(m)
    if m["kind"] not in (0, 1) or type(m["kind"]) is not int:
        return "kind %r" % m["kind"]
    if not _msg(m["message"]):
        return "bad message %r" % m["message"]
    if "range" in m and not _range(m["range"]):
        return "bad range %r" % m["range"]
    if m["kind"] == 0:
        if not isinstance(m.get("rule"), str) or not m["rule"] or not isinstance(m["file_path"], str) or "range" not in m:
            return "rule diagnostic without rule, file or range"
    else:
        if {"rule", "fixes", "suggestions", "labeled_ranges"} & set(m):
            return "internal diagnostic with members of a rule diagnostic"
        if not (m["file_path"] is None or isinstance(m["file_path"], str)):
            return "bad file_path"
    for l in m.get("labeled_ranges", []):
        if set(l) != {"label", "range"} or not isinstance(l["label"], str) or not _range(l["range"]):
            return "bad label %r" % l
    for f in m.get("fixes", []):
        if not _fix(f):
            return "bad fix %r" % f
    for s in m.get("suggestions", []):
        if set(s) != {"message", "fixes"} or not _msg(s["message"]) or not all(_fix(f) for f in s["fixes"]):
            return "bad suggestion %r" % s
    return ""


def stream_fault(r, failed=False, timing=0):
    """What is wrong with the stream of a run that should have succeeded (or failed), '' if nothing."""
    if r.timed_out:
        return "timed out"
    if r.broken:
        return r.broken
    for t, m in r.frames:
        s = shape(t, m)
        if s:
            return s
    kinds = [t for t, _ in r.frames]
    if failed:
        if r.rc == 0:
            return "exit status 0 on failure"
        if r.rc is None or r.rc < 0 or kinds.count(ERR) != 1:
            return "failure (exit %s) with %d error frames: %s" % (r.rc, kinds.count(ERR), r.why()[:300])
        if kinds[-1] != ERR:
            return "frames follow the error frame"
        return ""
    if r.rc != 0:
        return r.why()
    if ERR in kinds:
        return "error frame on success"
    if kinds.count(TIMING) != timing or (timing and kinds[-1] != TIMING):
        return "%d timing frames (want %d), last frame type %s" % (kinds.count(TIMING), timing, kinds[-1] if kinds else None)
    return ""
