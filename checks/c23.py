"""C23: quoted string literals denote exactly the original string."""
import collections, json, os, re, subprocess
import batch, build, corpus, edits, gotest

CH = list("abz019 _$'\"`\\/{}[]()^.*+?|-!<>=&;:,#@~%\n\r\t\v\f\b\0") + ["\u2028", "\u2029", "\u0085", "\u00a0", "\ufeff", "\u007f", "\u0080", "\u009f", "\u00ad", "\u200b", "\u200d", "\u202e", "\ufffd", "\uffff", "\ue000", "é", "ß", "日", "😀", "𝒳", "\U0010ffff",
     "\x01", "\x1b", "\x1f", "e\u0301", "ü"]
WORDS = ["${", "${a}", "\\n", "\\u0041", "\\0", "\\x41", "\\'", '\\"', "*/", "//", "</script>", "\\\n", "\r\n", "a-b", "use strict", "0", "1e3", "-1", "NaN", "__proto__", "constructor", "hasOwnProperty", "class", "a.b", "[x]", "\\8", "\\07", "'+'", '"+"', "{", "}", "'; let x = '", "\\\\", "\\"]


def strings(rng, n):
    xs = [""] + CH + WORDS + ["x" * 40, "long " * 60, "é" * 200]
    xs += ["".join(rng.choice(CH) for _ in range(rng.choice((1, 2, 2, 3, 4, 6, 10)))) for _ in range(n)]
    xs += ["".join(rng.choice(rng.choice((CH, WORDS))) for _ in range(rng.randrange(2, 5))) for _ in range(n)]
    return xs


def lit(s, rng=None):
    """A literal for s, written by this check."""
    return "'" + "".join("\\u{%x}" % ord(ch) if not (ch.isascii() and (ch.isalnum() or ch in " _-")) else ch for ch in s) + "'"


def rex(s):
    """A regular expression body that matches exactly s (no flags)."""
    o = ""
    for ch in s:
        if ch in "^$\\.*+?()[]{}|/":
            o += "\\" + ch
        elif ch in "\n\r\u2028\u2029":
            o += {"\n": "\\n", "\r": "\\r"}.get(ch) or "\\u%04x" % ord(ch)
        else:
            o += ch
    return o


PROGS = {  # name: (rule, options, text maker, what must hold)
    "enum member": ("switch-exhaustiveness-check", None, lambda s: "enum E { %s = 1, zz = 2 }\ndeclare const e: E;\nswitch (e) {\n  case E.zz: break;\n}\n" % lit(s), "string"),
    "enum member with default": ("switch-exhaustiveness-check", dict(considerDefaultExhaustiveForUnions=False), lambda s: "enum E { zz = 2, %s = 'v' }\ndeclare const e: E;\nswitch (e) {\n  case E.zz: break;\n  default: break;\n}\n" % lit(s), "string"),
    "enum without cases": ("switch-exhaustiveness-check", None, lambda s: "declare enum E { %s = 1, zz = 2 }\ndeclare const e: E;\nswitch (e) {}\n" % lit(s), "string"),
    "union member": ("switch-exhaustiveness-check", None, lambda s: "declare const u: %s | 'zz';\nswitch (u) {\n  case 'zz': break;\n}\n" % lit(s), "string"),
    "enum comparison": ("no-unsafe-enum-comparison", None, lambda s: "enum E { %s = 'val', zz = 'other' }\ndeclare const e: E;\nif (e === 'val') {}\n" % lit(s), "string"),
    "enum comparison, template name": ("no-unsafe-enum-comparison", None, lambda s: "enum E { [`%s`] = 'val', zz = 'other' }\ndeclare const e: E;\nif (e === 'val') {}\n" % lit(s)[1:-1], "either"),
    "enum comparison by value": ("no-unsafe-enum-comparison", None, lambda s: "enum E { zz = %s }\ndeclare const e: E;\nif (e === %s) {}\n" % (lit(s), lit(s)), "syntax"),
    "includes": ("prefer-includes", None, lambda s: "declare const s: string;\n/%s/.test(s);\n" % (rex(s) or "(?:)"), "string"),
    "includes, RegExp": ("prefer-includes", None, lambda s: "declare const s: string;\nnew RegExp(%s).test(s);\n" % lit(rex(s)), "string"),
    "starts": ("prefer-string-starts-ends-with", None, lambda s: "declare const s: string;\n/^%s/.test(s);\n" % rex(s), "string"),
    "ends": ("prefer-string-starts-ends-with", None, lambda s: "declare const s: string;\n/%s$/.test(s);\n" % rex(s), "string"),
    "starts, match": ("prefer-string-starts-ends-with", None, lambda s: "declare const s: string;\ns.match(/^%s/) !== null;\n" % rex(s), "string"),
    "starts, slice": ("prefer-string-starts-ends-with", None, lambda s: "declare const s: string;\ns.slice(0, %d) === %s;\n" % (len(s.encode("utf-16-le")) // 2, lit(s)), "string"),
    "starts, index": ("prefer-string-starts-ends-with", None, lambda s: "declare const s: string;\ns.indexOf(%s) === 0;\n" % lit(s), "string"),
    "exec": ("prefer-regexp-exec", None, lambda s: "declare const s: string;\ns.match(%s);\n" % lit(rex(s)), "regexp"),
    "exec, raw": ("prefer-regexp-exec", None, lambda s: "declare const s: string;\ns.match(%s);\n" % lit(s), "regexp-raw"),
    "template": ("no-unnecessary-template-expression", None, lambda s: "const t = `a${%s}b`;\n" % lit(s), "template"),
    "template, double quotes": ("no-unnecessary-template-expression", None, lambda s: "const t = `${%s}b${'$'}`;\n" % json.dumps(s), "template"),
    "template, nested": ("no-unnecessary-template-expression", None, lambda s: "const t = `$${`%s`}{`;\n" % s.replace("\\", "\\\\").replace("`", "\\`").replace("${", "\\${").replace("\r", "\\r"), "template"),
    "member": ("dot-notation", dict(allowKeywords=False), lambda s: "declare const o: any;\no.while; o.%s;\n" % ("class" if not s else "default"), "keyword"),
}


def node(mode, rows):
    with batch.Area("c23n") as d:
        with open(d + "/in", "w") as f:
            f.writelines(json.dumps(r) + "\n" for r in rows)
        r = subprocess.run(["node", os.path.join(build.VERIF, "lib/lits.mjs"), mode, d + "/in", d + "/out"], capture_output=True, text=True)
        assert r.returncode == 0, r.stderr[-800:]
        return [json.loads(l) for l in open(d + "/out")]


def run(c):
    c.rule = ("one evaluation = one literal that the linter wrote, parsed by TypeScript and evaluated by node; non-trivial = distinct (place, string) with a character that needs care")
    # the quoting functions on every character and on mixtures
    xs = [chr(i) for i in range(0x3100) if not 0xd800 <= i < 0xe000] + [chr(c.rng.choice((c.rng.randrange(0x3100, 0xd800), c.rng.randrange(0xe000, 0x110000)))) for _ in range(c.pick(2000, 100000))]
    xs += strings(c.rng, c.pick(20000, 400000))
    xs += [a + b for a in CH for b in CH]
    has_double = "func QuoteDoubleStringLiteral(" in open(build.REPO + "/internal/utils/string_literal.go").read()
    h = gotest.build_one("internal/utils", "quote", "quote_verif_test.go", "utils", "var verifQuoteDouble = %s\n" % ("QuoteDoubleStringLiteral" if has_double else "QuoteSingleStringLiteral"))
    with batch.Area("c23") as d:
        with open(d + "/in", "w") as f:
            json.dump(xs, f)
        rows = gotest.run(h, "TestVerifQuote", env={"VERIF_IN": d + "/in"})
    c.need(len(rows) == len(xs), "the harness lost strings")
    for x, row, faults in zip(xs, rows, node("quote", [[x, r[1], r[2]] for x, r in zip(xs, rows)])):
        for style, l, fl in zip(("single", "double"), row[1:], faults):
            c.evaluations += 1
            if l[:1] != ("'" if style == "single" or not has_double else '"'):
                fl = fl or "uses another quote"
            if not x.isalnum():
                c.saw("quote", style, x)
            if fl:
                c.violation("%s-quoted literal %s for %r %s" % (style, l, x, fl), string=x, literal=l)
    # the literals rules write
    b = build.binary()
    cases, meta = [], {}
    pool = strings(c.rng, c.pick(130, 2500))
    for name, (rule, opts, mk, kind) in PROGS.items():
        for s in (pool if name != "member" else pool[:2]):
            if kind == "string" and name.startswith("enum") and (re.fullmatch(r"-?[0-9.]+(e[0-9]+)?|NaN|-?Infinity", s) or s == "zz"):
                continue      # not an allowed enum member name
            if name.startswith(("starts", "ends", "includes")) and s == "":
                continue
            if kind == "regexp" and "\n" in s and False:
                continue
            i = "s%d" % len(cases)
            cases.append(dict(id=i, ts="tsconfig.json", main="main.ts", files={"main.ts": mk(s)}))
            meta[i] = (name, rule, opts, kind, s)
    wrote, parsed, todo = collections.Counter(), [], []
    with batch.Area("c23e") as root:
        mains = corpus.layout(root, cases)
        res, bad, stray = batch.lint(b, root, [(x["id"], mains[x["id"]], [(meta[x["id"]][1],) + ((meta[x["id"]][2],) if meta[x["id"]][2] else ())]) for x in cases])
    for js, r in bad:
        c.count("runs_that_failed", 1)
    for x in cases:
        t = x["files"]["main.ts"]
        src = t.encode()
        texts = []
        for dg in res[x["id"]]:
            for es in [dg.get("fixes")] + [s["fixes"] for s in dg.get("suggestions") or []]:
                if es:
                    texts.append(edits.apply(src, [(e['range']['pos'], e['range']['end'], e['text']) for e in es]).decode("utf-8", "replace"))
        if texts:
            todo.append((x, texts))
    got = node("edits", [dict(id=x["id"], n="main.ts", t=[x["files"]["main.ts"]] + texts) for x, texts in todo])
    want_rx = node("edits", [dict(id=x["id"], n="a.ts", t=["/%s/" % (rex(meta[x["id"]][4]) or "(?:)")]) for x, _ in todo])
    for (x, texts), g, w in zip(todo, got, want_rx):
        name, rule, opts, kind, s = meta[x["id"]]
        if g["t"][0]["errors"]:
            c.count("programs that do not parse")
            continue
        for text, e in zip(texts, g["t"][1:]):
            c.evaluations += 1
            wrote[name] += 1
            if not s.isalnum():
                c.saw(name, s)
            fault = ""
            if e["errors"]:
                fault = "the edited program does not parse"
            elif not all(one for _, one in e["strings"]):
                fault = "a literal spans lines"
            elif kind in ("string", "either"):
                ident = re.fullmatch(r"[^\W\d][\w]*|[\w$]+", s) and ("." + s) in text
                vals = [v for v, _ in e["strings"]]
                if name in ("enum member", "enum member with default", "enum without cases", "enum comparison", "enum comparison, template name"):
                    vals = vals + [t2 for t2 in e["templates"]]
                    need = 1 + (name != "enum comparison, template name")     # the declaration and the new reference
                    ident = ident or any(("." + s) in text for _ in [0]) and s and need == 2
                else:
                    need = 2 if name in ("union member",) else 1
                if vals.count(s) < need and not ident:
                    fault = "no literal denotes %r: %r" % (s, vals)
            elif kind == "regexp":
                if [w["t"][0]["regexps"][0][0], ""] not in e["regexps"]:
                    fault = "no regular expression matches exactly %r: %r" % (s, e["regexps"])
            elif kind == "template":
                if e["templates"][:1] != g["t"][0]["templates"][:1] and not (e["strings"] and [e["strings"][0][0]] == g["t"][0]["templates"][:1]):
                    fault = "the template denotes %r, before %r" % (e["templates"][:1] or e["strings"], g["t"][0]["templates"][:1])
            elif kind == "keyword":
                if not {"while", "default"} & {v for v, _ in e["strings"]} and '["class"]' not in text:
                    fault = "no quoted keyword"
            if fault:
                c.violation("%s (%s): %s; edited: %r" % (rule, name, fault, text[:300]), ident=dict(place=name, string=s), program=x, edited=text)
    c.cov["literals_written_per_place"] = dict(wrote)
    c.need(len(wrote) >= 17 and sum(wrote.values()) > 2000, "too few literals were written")
    c.assumptions = ["strings are sequences of Unicode scalar values: the compiler itself replaces lone surrogates before a rule sees the string"]
