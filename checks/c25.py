"""C25: allow-list entries match by name and declaration site, the same way in every rule, against a model that knows where each type was declared."""
import collections, json, os, re
import batch, build, tsgo

# what each origin of a type is, by construction: names it may be listed under, files under the working directory it is
# declared in, whether it is of the library, and the packages it is declared in
class Origin:
    def __init__(self, key, text, names, files=(), lib=False, packages=(), outside=False, tname=None, dep=True, call=None, bases=(("Promise", "lib"),), alias=False, args="", pre=""):
        self.key, self.text, self.names, self.files, self.lib, self.packages = key, text, names, tuple(files), lib, tuple(packages)
        self.outside, self.dep, self.call, self.bases, self.alias = outside, dep, call, bases, alias
        self.tname = tname or names[0]
        self.args, self.pre = args, pre

    def where(self, spec):
        """Whether the declaration site is the one an entry asks for."""
        if isinstance(spec, str):
            return True
        f = spec["from"]
        if f == "lib":
            return self.lib
        if f == "file":
            if "path" not in spec:
                return any(not x.startswith("../") for x in self.files)
            return os.path.normpath(spec["path"]) in self.files
        return spec["package"] in self.packages

    def matches(self, spec):
        n = [spec] if isinstance(spec, str) else [spec["name"]] if isinstance(spec["name"], str) else spec["name"]
        return any(x in n for x in self.names) and self.where(spec)


BODY = "extends Promise<number> { mut: number; }"
CLASS = "extends Promise<number> { mut: number = 1; }"
DCLASS = "extends Promise<number> { mut: number; }"
D = "/** @deprecated */ "


def world(rng):
    """(files relative to the root, origins). The working directory is proj/."""
    F, O = {}, []

    def both(k, stem, path, dts=False, packages=(), spec=None, files=None, outside=False, bits=("class", "interface", "alias", "generic", "enum", "default", "call")):
        """One module with one type of each sort, and an origin for each."""
        decl = "declare " if dts else ""
        N = stem
        t = []
        cl = DCLASS if dts else CLASS
        fs = files if files is not None else [path[len("proj/"):] if path.startswith("proj/") else "../" + path]
        imp = lambda what, local=None: "import { %s } from '%s';\n" % (what if not local else "%s as %s" % (what, local), spec)
        mk = lambda kind, names, text, **kw: O.append(Origin("%s %s" % (k, kind), text, names, fs, packages=packages, outside=outside, **kw))
        if "class" in bits:
            t.append("%sexport %sclass %sC %s" % (D, decl, N, cl))
            mk("class", [N + "C"], imp(N + "C"))
            mk("class under another local name", [N + "C"], imp(N + "C", "Local"), tname="Local")
            mk("class through a namespace import", [N + "C"], "import * as ns from '%s';\n" % spec, tname="ns.%sC" % N)
        if "interface" in bits:
            t.append("%sexport interface %sI %s" % (D, N, BODY))
            mk("interface", [N + "I"], imp(N + "I"))
            mk("interface in an intersection", [N + "I"], imp(N + "I"), tname="(%sI & { tag: 1 })" % N, dep=False, bases=None)
        if "alias" in bits:
            t.append("%sexport type %sA = Promise<number> & { mut: number };" % (D, N))
            t.append("export type %sO = { mut: number };" % N)
            mk("alias of an object type", [N + "O"], imp(N + "O"), dep=False, bases=(), alias=True)
        if "generic" in bits:
            t.append("export interface %sG<T> extends Promise<T> { mut: T; }" % N)
            mk("generic interface", [N + "G"], imp(N + "G"), tname="%sG<string>" % N, dep=False)
        if "enum" in bits:
            t.append("export %senum %sE { A = 1, B = 2 }" % (decl, N))
            mk("enum", [N + "E"], imp(N + "E"), dep=False, bases=(), alias="enum")
        if "call" in bits:
            t.append("export %sfunction %sF(): Promise<number>%s" % (decl, N, ";" if dts else " { return null!; }"))
            t.append("export %sconst %sV: { %sM(): Promise<number> }%s" % (decl, N, N, ";" if dts else " = null!;"))
            mk("function", [N + "F"], imp(N + "F"), call="%sF()" % N)
            mk("function under another local name", ["fn", N + "F"], imp(N + "F", "fn"), call="fn()")
        if "default" in bits:
            t.append("export default class %s" % cl if not dts else "declare class %sD %s\nexport default %sD;" % (N, cl, N))
            mk("default export", ["default"] if not dts else [N + "D"], "import Dflt from '%s';\n" % spec, tname="Dflt", dep=False)
        F[path] = "\n".join(t) + "\n"

    # files of the project
    both("a file", "Fa", "proj/src/a.ts", spec="./src/a")
    both("a file in a deeper directory", "Fb", "proj/src/deep/er/b.ts", spec="./src/deep/er/b")
    both("a file with the same name elsewhere", "Fa", "proj/other/a.ts", spec="./other/a")
    both("a declaration file", "Fd", "proj/types/d.d.ts", dts=True, spec="./types/d")
    both("a file in a directory named like the working directory and more", "Fp", "proj-more/p.ts", spec="../proj-more/p", outside=True, bits=("class", "interface", "alias", "enum"))
    both("a file outside", "Fo", "outside/o.ts", spec="../outside/o", outside=True)
    # re-exports: the declaration counts, not the way
    F["proj/barrel.ts"] = "export * from './src/a';\nexport { FbC as Renamed, FbI } from './src/deep/er/b';\nexport type { PaI as PkgRenamed } from 'pa';\n"
    O.append(Origin("a re-export of everything", "import { FaC } from './barrel';\n", ["FaC"], ["src/a.ts"]))
    O.append(Origin("a renamed re-export", "import { Renamed } from './barrel';\n", ["FbC"], ["src/deep/er/b.ts"], tname="Renamed", dep=True))
    O.append(Origin("a named re-export", "import { FbI } from './barrel';\n", ["FbI"], ["src/deep/er/b.ts"]))
    # globals
    F["proj/globals.d.ts"] = "%sinterface GlI %s\n%sdeclare class GlC %s\ndeclare namespace NsOut { namespace NsIn {\n%sinterface NsI %s } }\ninterface Map<K, V> { extra: number }\n" % (D, BODY, D, DCLASS, D, BODY)
    F["proj/globals2.ts"] = "export {};\ndeclare global {\n%sinterface DgI %s }\n" % (D, BODY)
    O.append(Origin("a global interface", "", ["GlI"], ["globals.d.ts"]))
    O.append(Origin("a global class", "", ["GlC"], ["globals.d.ts"]))
    O.append(Origin("a type in nested namespaces", "", ["NsI"], ["globals.d.ts"], tname="NsOut.NsIn.NsI"))
    O.append(Origin("an interface declared globally in a module", "", ["DgI"], ["globals2.ts"]))
    O.append(Origin("a type of the file itself", "%sinterface OwnI %s\n" % (D, BODY), ["OwnI"], ["@self"]))
    O.append(Origin("a class of the file itself", "%sclass OwnC %s\n" % (D, CLASS), ["OwnC"], ["@self"]))
    # the library
    O.append(Origin("a library interface", "", ["Promise"], lib=True, tname="Promise<number>", dep=False, bases=()))
    O.append(Origin("a library interface merged with one of the project", "", ["Map"], ["globals.d.ts"], lib=True, tname="Map<string, number>", dep=False, bases=(), alias="map"))
    O.append(Origin("a library class", "", ["Date"], lib=True, dep=False, bases=(), alias="map"))
    # packages
    def package(k, stem, at, name, packages, main="index.d.ts", spec=None, sub=None):
        d = "proj/node_modules/" + at
        pj = {"version": "1.0.0", "types": main}
        if name:
            pj["name"] = name
        F[d + "/package.json"] = json.dumps(pj)
        path = d + "/" + (sub or main)
        both(k, stem, path, dts=True, packages=packages, spec=spec or at, bits=("class", "interface", "alias", "call", "default"))

    package("a package", "Pa", "pa", "pa", ["pa"])
    package("a package with a similar name", "Pax", "pa-x", "pa-x", ["pa-x"])
    package("a scoped package", "Ps", "@sc/ps", "@sc/ps", ["@sc/ps", ])
    package("types of a package", "Pt", "@types/pt", "@types/pt", ["pt", "@types/pt"], spec="pt")
    package("types of a scoped package", "Pu", "@types/sc__pu", "@types/sc__pu", ["@sc/pu", "sc__pu", "@types/sc__pu"], spec="@sc/pu")
    package("a package in another one", "Pn", "pa/node_modules/pn", "pn", ["pn"], spec="./node_modules/pa/node_modules/pn/index")
    package("a package under an alias", "Pr", "alias", "real-name", ["real-name"])
    package("a deep file of a package", "Pd", "pd", "pd", ["pd"], sub="lib/deep/x.d.ts", spec="pd/lib/deep/x")
    package("a deep file under a nameless package.json", "Pm", "pm", "pm", ["pm"], sub="esm/x.d.ts", spec="pm/esm/x")
    F["proj/node_modules/pm/esm/package.json"] = json.dumps({"type": "module"})
    F["proj/node_modules/pm/package.json"] = json.dumps({"name": "pm"})
    both("a package without package.json", "Pz", "proj/node_modules/pz/index.d.ts", dts=True, packages=["pz"], spec="pz", bits=("class", "interface"))
    both("a scoped package without package.json", "Pq", "proj/node_modules/@sc/pq/index.d.ts", dts=True, packages=["@sc/pq"], spec="@sc/pq", bits=("class", "interface"))
    # a package that only passes on what another declares
    F["proj/node_modules/pf/package.json"] = json.dumps({"name": "pf", "version": "1.0.0", "types": "index.d.ts"})
    F["proj/node_modules/pf/index.d.ts"] = "export { PaI, PaC as PfC } from 'pa';\n"
    O.append(Origin("a package's re-export of another's", "import { PaI } from 'pf';\n", ["PaI"], ["node_modules/pa/index.d.ts"], packages=["pa"]))
    O.append(Origin("the project's re-export of a package", "import { PkgRenamed } from './barrel';\n", ["PaI"], ["node_modules/pa/index.d.ts"], packages=["pa"], tname="PkgRenamed"))
    # a package that extends the one next to it (the interface is in two places)
    F["proj/augment.ts"] = "import 'pa';\ndeclare module 'pa' { interface PaM { more: number } }\nexport {};\n"
    F["proj/node_modules/pa/index.d.ts"] += "export interface PaM %s\n" % BODY
    O.append(Origin("an interface of a package the project adds to", "import { PaM } from 'pa';\n", ["PaM"], ["node_modules/pa/index.d.ts", "augment.ts"], packages=["pa"], dep=False))
    # ambient modules
    F["proj/ambient.d.ts"] = ("declare module 'am' {\n%sexport interface AmI %s\n%sexport class AmC %s\nexport namespace In {\n%sinterface AmN %s }\n}\n"
                              "declare module '@sc/am' {\n%sexport interface AsI %s\n}\n") % (D, BODY, D, DCLASS, D, BODY, D, BODY)
    O.append(Origin("an interface of an ambient module", "import { AmI } from 'am';\n", ["AmI"], ["ambient.d.ts"], packages=["am"]))
    O.append(Origin("a class of an ambient module", "import { AmC } from 'am';\n", ["AmC"], ["ambient.d.ts"], packages=["am"]))
    O.append(Origin("a type in a namespace of an ambient module", "import { In } from 'am';\n", ["AmN"], ["ambient.d.ts"], packages=["am"], tname="In.AmN"))
    O.append(Origin("an interface of a scoped ambient module", "import { AsI } from '@sc/am';\n", ["AsI"], ["ambient.d.ts"], packages=["@sc/am"]))
    return F, O


def entries(o, O, rng, n):
    """Allow-list entries for an origin: true and near ones."""
    nm = rng.choice(o.names)
    out = []
    add = out.append
    for x in o.names:
        add(x)
        add({"from": "file", "name": x})
        add({"from": "lib", "name": x})
    add({"from": "file", "name": ["Nothing", nm]})
    for f in o.files:
        for v in {f, "./" + f, "src/../" + f}:
            add({"from": "file", "name": nm, "path": v})
        add({"from": "file", "name": "Nothing", "path": f})
        for v in {f[:-3], os.path.basename(f) if "/" in f else "x/" + f, os.path.dirname(f) or "src", f + "x"}:
            if v not in o.files:
                add({"from": "file", "name": nm, "path": v})
    for p in o.packages:
        add({"from": "package", "name": nm, "package": p})
        add({"from": "package", "name": [nm, "Nothing"], "package": p})
        add({"from": "package", "name": "Nothing", "package": p})
        for v in {p + "x", p + "-x", p[:-1], p.split("/")[-1], "@other/" + p.split("/")[-1], p.upper()} - set(o.packages) - {""}:
            add({"from": "package", "name": nm, "package": v})
    for p in rng.sample(["pa", "pf", "pn", "am", "@sc/ps", "real-name", "alias", "pt", "@sc/pu", "pd", "pm", "typescript", "pz", "@sc/pq", "node_modules", "@sc", "@types"], 5):
        add({"from": "package", "name": nm, "package": p})
    add({"from": "lib", "name": ["Nothing", nm]})
    add("Nothing")
    add(nm + "x")
    add(nm.lower())
    add({"from": "lib", "name": "Promise"})
    other = rng.choice(O)
    add({"from": "file", "name": other.names, "path": (other.files or ["src/a.ts"])[0]})
    add({"from": "file", "name": nm, "path": (other.files or ["src/a.ts"])[0]})
    seen, u = set(), []
    for e in out:
        k = json.dumps(e, sort_keys=True)
        if k not in seen:
            seen.add(k)
            u.append(e)
    rng.shuffle(u)
    return u[:n]


TYPE_RULES = ["restrict-template-expressions", "no-floating-promises", "only-throw-error", "prefer-promise-reject-errors", "no-misused-spread", "prefer-readonly-parameter-types", "no-deprecated"]


def probe(o):
    """(text, {line: rule})"""
    lines = o.text.split("\n")[:-1] if o.text else []
    at = {}

    def put(rule, s):
        lines.append(s)
        if rule:
            at[len(lines)] = rule
    if o.call:
        put("no-floating-promises", o.call + ";")
    else:
        put(None, "export {};")
        put(None, "declare const v: unknown;")
        at_dep = len(lines)
        lines[at_dep - 1] = "declare const v: %s;" % o.tname
        if o.dep:
            at[at_dep] = "no-deprecated"
        if o.alias != "enum":  # this rule looks at the members of an enum one by one
            put("restrict-template-expressions", "export const s = `${v}`;")
        if o.alias is False:
            put("no-floating-promises", "v;")
            put("no-misused-spread", "export const q = { ...v };")
        put("only-throw-error", "export function t() { throw v; }")
        put("prefer-promise-reject-errors", "export const r = Promise.reject(v);")
        if o.alias != "enum":
            put("prefer-readonly-parameter-types", "export function p(x: typeof v): void {}")
    return "\n".join(lines) + "\n", at


def options(rule, es, call):
    if rule == "no-floating-promises":
        return {"checkThenables": True, ("allowForKnownSafeCalls" if call else "allowForKnownSafePromises"): es}
    if rule == "restrict-template-expressions":
        return {"allow": es, "allowNumber": False}
    return {"allow": es}


def expected(o, rule, es, self_path):
    """Whether the list lets the type through in that rule."""
    files = tuple(self_path if f == "@self" else f for f in o.files)
    o2 = Origin(o.key, o.text, o.names, files, o.lib, o.packages, o.outside, o.tname, o.dep, o.call, o.bases, o.alias)

    def one(e):
        if o.call:
            n = [e] if isinstance(e, str) else [e["name"]] if isinstance(e["name"], str) else e["name"]
            called = o.call[:-2]
            # a value entry goes by the name written at the call, and for packages by the declaration
            byval = called in n and (isinstance(e, str) or e["from"] != "package" or o2.where(e))
            decl = o.names[-1]
            return byval or (decl in n and o2.where(e))
        if o2.matches(e):
            return True
        if rule == "restrict-template-expressions" and ("Promise", "lib") in (o.bases or ()) or (rule == "restrict-template-expressions" and o.bases is None):
            p = Origin("", "", ["Promise"], lib=True)
            if p.matches(e):
                return True
        if rule == "no-deprecated":
            n = [e] if isinstance(e, str) else [e["name"]] if isinstance(e["name"], str) else e["name"]
            local = o.tname.split(".")[-1]
            return local in n and (isinstance(e, str) or e["from"] != "package" or o2.where(e))
        return False
    return any(one(e) for e in es)


def run(c):
    b = build.binary()
    rng = c.rng
    F, O = world(rng)
    per, lists = c.pick((14, 4), (60, 30))
    c.rule = ("one evaluation = one rule's verdict on one probe (type origin times allow-list) compared with the model; "
              "non-trivial = such a probe where the list names the type or its source, distinct in origin, rule and list")
    with batch.Area("c25") as root:
        for p, t in F.items():
            os.makedirs(os.path.dirname(root + "/" + p), exist_ok=True)
            open(root + "/" + p, "w").write(t)
        proj = root + "/proj"
        json.dump({"compilerOptions": {"target": "es2022", "module": "esnext", "moduleResolution": "bundler", "strict": True, "types": [], "noEmit": True, "skipLibCheck": True, "lib": ["es2022", "dom"]},
                   "include": ["**/*.ts"]}, open(proj + "/tsconfig.json", "w"))
        probes = []  # path, origin, entries, at
        for o in O:
            es = entries(o, O, rng, per)
            sets = [[]] + [[e] for e in es]
            for _ in range(lists):
                sets.append(rng.sample(es, min(len(es), rng.randrange(2, 4))))
            text, at = probe(o)
            for i, s in enumerate(sets):
                rel = "p%d.ts" % len(probes)
                if "@self" in o.files:
                    s = [json.loads(json.dumps(e).replace("@self", rel)) for e in s]
                probes.append((rel, o, s, at))
                open(proj + "/" + rel, "w").write(text)
        cfgs = []
        for rel, o, s, at in probes:
            cfgs.append(([proj + "/" + rel], [(r, options(r, s, bool(o.call))) for r in sorted(set(at.values()))]))
        got = collections.defaultdict(set)
        r = tsgo.run(b, tsgo.payload(cfgs, report_semantic=True), cwd=proj, timeout=600)
        if not r.ok():
            c.violation("the run failed: " + r.why())
            return
        for d in r.diags:
            if d["kind"] != 0:
                if d.get("file_path") and os.path.basename(d["file_path"]).startswith("p"):
                    c.count("type_errors_in_probes")
                    c.cov.setdefault("first_type_error", [os.path.basename(d["file_path"]), d["message"]["description"]])
                continue
            rel = os.path.relpath(d["file_path"], proj)
            text = open(d["file_path"]).read()
            got[rel].add((text.count("\n", 0, d["range"]["pos"] + (len(text[d["range"]["pos"]:]) - len(text[d["range"]["pos"]:].lstrip()))) + 1, d["rule"]))
        c.need(not c.cov.get("type_errors_in_probes"), "probes do not type check: %s" % (c.cov.get("first_type_error"),))
        allowed = collections.Counter()
        for rel, o, s, at in probes:
            for line, rule in sorted(at.items()):
                want = not expected(o, rule, s, rel)
                have = (line, rule) in got[rel]
                c.evaluations += 1
                allowed[rule, want] += 1
                if s:
                    c.saw(o.key, rule, json.dumps(s, sort_keys=True))
                if want != have:
                    c.violation("%s: %s with the allow-list %s is %s, expected %s" % (rule, o.key, json.dumps(s), "reported" if have else "let through", "a report" if want else "none"),
                                ident=dict(rule=rule, origin=o.key, entries=json.dumps(s)), file=open(proj + "/" + rel).read(), line=line)
        c.cov["origins"] = len(O)
        c.cov["probes"] = len(probes)
        c.cov["verdicts"] = {"%s %s" % (r, "reported" if w else "allowed"): n for (r, w), n in sorted(allowed.items())}
        c.need(all(allowed[r, w] > 20 for r in TYPE_RULES for w in (True, False)), "too few verdicts of one kind: %s" % c.cov["verdicts"])
        c.sample(dict(origin=probes[3][1].key, entries=probes[3][2], program=open(proj + "/" + probes[3][0]).read()))
    c.assumptions = ["a value entry (no-floating-promises calls, no-deprecated) goes by the name at the use, and for packages by the declaring package, as the reference documents"]
