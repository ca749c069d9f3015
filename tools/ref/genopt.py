"""Two more corpora (run once; the result is committed).

  mat: statements over values of many types, drawn from templates that each rule cares about
  opt: programs of the other corpora with a full set of random option values for one rule
"""
import json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "lib"))
import corpus

SCH = json.load(open(os.path.join(corpus.HERE, "corpus", "schemas.json")))

PRE = """interface Obj { a: string; b?: number; c: { d: string | null }; m(): void; p(): Promise<number>; readonly r: string[] }
interface ToStr { toString(): string }
class Cls { x = 1; private readonly y = this.x; protected z?: Cls; static s() {} m() {} am() { return this.y; } arrow = () => {}; get g() { return 1; } set g(v) {} }
class Sub extends Cls { override m() {} }
class Own extends Error { code = 1; }
enum E { A, B = 5 } enum S { A = 'a', B = 'b' }
declare const enum CE { X = 1 }
type Thenable = { then(a: (v: number) => void): void };
type Branded = string & { __b: true };
declare function id<T>(x: T): T;
declare function cb(f: () => void): void;
declare function acb(f: () => Promise<void>): void;
declare function take(x: string): void;
declare function anyf(): any;
declare function voidf(): void;
declare function neverf(): never;
declare const gen: { f: (a: string, b?: number) => number };
"""
TYPES = """string
number
boolean
bigint
symbol
any
unknown
never
void
null
undefined
object
{}
string | null
string | undefined
number | undefined
number | null
boolean | null
boolean | undefined
bigint | undefined
string | number
string | boolean
number | bigint
'a'
'a' | 'b'
'a' | 'b' | null
'a' | undefined
1 | 2
0
1n
true
false
''
E
E | undefined
E.A
S
S | null
string[]
readonly string[]
number[]
any[]
unknown[]
(string | undefined)[]
[string, number]
[string, number?]
readonly [1, 2]
Array<number> | null
Promise<void>
Promise<string>
Promise<any>
Promise<number> | undefined
Promise<number> | number
PromiseLike<string>
Thenable
Promise<string>[]
Promise<any[]>
Map<string, number>
ReadonlyMap<string, any>
Set<any>
Set<Promise<void>>
WeakMap<object, string>
Record<string, number>
Record<string, any>
Record<'a' | 'b', string>
{ [k: string]: string | undefined }
Obj
Obj | undefined
Obj | null
Readonly<Obj>
Partial<Obj>
{ a: any; b: string }
{ a?: { b?: string } }
{ a: () => string | undefined }
() => void
() => string
() => Promise<void>
(() => void) | undefined
((x: any) => any) | null
(...a: any[]) => unknown
new () => Cls
typeof Cls
Cls
Cls | undefined
Sub
Own
Error
Error | string
TypeError | undefined
unknown[] | string
Date
RegExp
URL
Function
Branded
string & {}
ToStr
Iterable<string>
AsyncIterable<number>
Generator<number>
AsyncGenerator<string>
Iterator<number>
`a${string}`
keyof Obj
T
T | null
T[]
U
Awaited<T>
Uint8Array
ArrayLike<string>
Intl.NumberFormat
Symbol
String
Number
Boolean
bigint | number | string
null | undefined
string | Promise<string>
any | string
unknown | number
never | string
""".strip().split("\n")
# %a %b: values, %A %B: their types, %k: a fresh number
GROUPS = {
    "ARR": ["string[]", "number[]", "any[]", "(string | undefined)[]", "readonly string[]", "[string, number]", "unknown[]", "T[]", "Promise<string>[]", "Array<number> | null", "string[] | number[]", "Obj[]", "('a' | 'b')[]", "(string | number)[]", "boolean[]", "any"],
    "STR": ["string", "'a'", "'a' | 'b'", "string | null", "string | undefined", "Branded", "`a${string}`", "any", "string | number", "S", "U", "String"],
    "PROM": ["Promise<void>", "Promise<string>", "Promise<any>", "Promise<number> | undefined", "PromiseLike<string>", "Thenable", "Promise<number> | number", "any", "unknown", "number", "() => Promise<void>", "Awaited<T>", "Promise<Promise<string>>", "AsyncGenerator<string>", "Promise<unknown>", "Promise<never>", "Sub"],
    "ENUM": ["E", "S", "E | undefined", "S | null", "E.A", "S.A", "number", "string", "E | S", "E | string", "CE", "'a'", "1 | 2", "bigint"],
    "NULL": ["string | null", "string | undefined", "number | undefined", "boolean | null", "Obj | undefined", "Obj | null", "{ a?: { b?: string } }", "Cls | undefined", "(() => void) | undefined", "E | undefined", "T | null", "null | undefined", "string | null | undefined", "{ a: Obj | null } | undefined", "bigint | undefined", "any", "unknown", "0 | '' | null", "false | undefined", "boolean | undefined | null"],
    "OBJ": ["Obj", "Obj | undefined", "Readonly<Obj>", "Cls", "Sub", "{ a: any; b: string }", "Record<string, any>", "any", "{ [k: string]: string | undefined }", "Partial<Obj>", "typeof Cls", "Map<string, number>", "Set<any>", "Date", "Iterable<string>", "Function", "Promise<Obj>", "ToStr", "Error", "URL", "unknown"],
    "FN": ["() => void", "() => string", "() => Promise<void>", "(() => void) | undefined", "((x: any) => any) | null", "(...a: any[]) => unknown", "Function", "any", "new () => Cls", "typeof Cls", "() => never", "(this: void) => void", "() => void | Promise<void>", "<V>(x: V) => V", "unknown"],
    "ERR": ["Error", "Own", "Error | string", "TypeError | undefined", "unknown", "any", "string", "never", "Sub", "Promise<Error>", "null", "Readonly<Error>", "Error & { a: 1 }", "T"],
    "NUM": ["number", "bigint", "1 | 2", "number | bigint", "number | undefined", "any", "E", "string", "0", "Number", "1n", "number & {}", "symbol"],
}
STMT = """NUM~%a + %b;
STR~%a + 'x';
NUM~1 + %a;
NUM~%a + 1n;
STR~let s%k = 'x'; s%k += %a;
NUM~let n%k = 1; n%k += %a;
OBJ~`${%a}`;
`a${%a}b${%b}`;
`${'lit'}`;
tag`${%a}`;
STR~String(%a);
STR~'' + %a;
OBJ~%a.toString();
NULL~%a?.toString();
ARR~[%a].join();
ARR~%a.join(',');
%a.toLocaleString();
PROM~if (%a) {}
if (!%a) {}
NULL~while (%a) { break; }
for (; %a; ) { break; }
do {} while (%a);
NULL~%a ? 1 : 2;
%a && %b;
NULL~%a || %b;
NULL~%a ?? %b;
if (%a && %b) {}
if (%a || %b) {}
NULL~%a ? %a : %b;
NULL~!%a ? %b : %a;
NULL~%a != null ? %a : %b;
NULL~%a !== undefined ? %a : %b;
NULL~%a === null || %a === undefined ? %b : %a;
NULL~let q%k = %a; if (!q%k) { q%k = %b; }
NULL~let w%k = %a; w%k ||= %b;
NULL~let v%k = %a; v%k ??= %b;
NULL~let u%k = %a; u%k &&= %b;
NULL~%a === true;
NULL~%a !== false;
NULL~%a == null;
%a === undefined;
ENUM~%a == %b;
ENUM~%a === %b;
ENUM~%a < %b;
ENUM~switch (%a) { case %b: break; }
STR~switch (%a) { case 'a': break; }
STR~switch (%a) { case 'a': break; default: break; }
ENUM~switch (%a) { case E.A: break; /* no default */ }
NULL~switch (%a) { case null: case undefined: break; }
OBJ~%a.a;
NULL~%a?.a;
NULL~%a!.a;
OBJ~%a.a.b;
NULL~%a?.a?.b?.c;
NULL~%a && %a.a;
NULL~%a && %a.a && %a.a.b;
NULL~%a != null && %a.a;
NULL~%a !== undefined && %a.a();
NULL~!%a || !%a.a;
NULL~(%a || {}).a;
NULL~(%a ?? {}).a;
NULL~typeof %a !== 'undefined' && %a.a;
OBJ~%a['a'];
OBJ~%a['class'];
ARR~%a[0];
ARR~%a[%b];
ARR~%a[0]?.a;
FN~%a();
NULL~%a?.();
OBJ~%a.m();
OBJ~%a.p();
FN~new %a();
FN~%a`x`;
PROM~void %a;
FN~void %a();
PROM~await %a;
PROM~async function f%k() { await %a; }
PROM~async function f%k() { return await %a; }
PROM~async function f%k() { try { return %a; } catch { return %b; } }
PROM~async function f%k() { try { return await %a; } finally { voidf(); } }
PROM~async function f%k() { return %a; }
async function f%k(): Promise<void> { %a; }
PROM~async () => { for await (const x of %a) { x; } };
async () => { await using x = %a; };
PROM~async function* f%k() { yield %a; }
PROM~function f%k() { return %a; }
function f%k(): string { return %a; }
function f%k(): unknown { return %a; }
function f%k(): Promise<any> { return %a; }
function f%k() { if (%a) { return %b; } return; }
function f%k() { if (%a) return %b; }
function f%k(x: %A): x is %B { return !!x; }
function f%k(x: %A) { return x; }
function f%k(x: readonly %A[], y: Readonly<%B>) {}
class C%k { constructor(private readonly x: %A, public y: %B) {} m() { return this.x; } }
class C%k { private x: %A = %a; m() { return this.x; } }
class C%k { private x = %a; m() { this.x = %b; } }
class C%k { get v(): %A { return %a; } set v(x: %B) {} }
class C%k { m(): C%k { return this; } n = (): C%k => this; }
PROM~const f%k = () => %a;
FN~const f%k = (): void => %a;
PROM~const f%k = async () => %a;
const f%k = (): %A => %b;
PROM~cb(() => %a);
cb(async () => { await %a; });
cb(() => voidf());
FN~cb(%a);
PROM~acb(() => %a);
[%a].forEach(async x => { x; });
[%a].map(x => voidf());
[1].forEach(() => %a);
take(%a);
ARR~take(...%a);
id<%A>(%a);
id<any>(%a);
OBJ~const c%k: %A = %b;
OBJ~const c%k: string = %a;
OBJ~const c%k: { x: %A } = { x: %b };
ARR~const [d%k] = %a;
OBJ~const { a: e%k } = %a;
OBJ~const { a: g%k = 1 } = %a;
const [h%k = %b] = [%a];
PROM~const o%k = { ...%a };
OBJ~const o%k = { ...%a, ...(%b) };
ARR~const o%k = [...%a];
FN~const o%k = { m: %a, n() { return %b; } };
const o%k: { f: () => void } = { f: async () => { await %a; } };
const o%k: { f(): void } = { f() { return %a; } };
OBJ~%a as %B;
%a as any;
%a as unknown;
%a as const;
<%B>%a;
NULL~%a!;
NULL~%a!!;
%a as %A;
%a satisfies %B;
STR~const x%k = %a as string; x%k.length;
NULL~(%a as %B | null)!;
type T%k = %A | %B;
type T%k = %A & %B;
type T%k = %A | %A;
type T%k = (%A | any) & string;
type T%k<V extends %A = %B> = V;
interface I%k { m(x: %A): %B; m(x: %B): %B }
function g%k<V extends %A>(x: V): void {}
function g%k<V>(x: V[], y: %A): V { return x[0]; }
function g%k<V = %A>(x: V = %a as any) { return x; }
ARR~for (const k in %a) { k; }
OBJ~for (const k of %a) { k; }
for (const k of [%a, %b]) { k; }
ARR~delete %a[0];
delete %a.a;
NUM~-%a;
NUM~+%a;
NUM~~~%a;
!!%a;
NUM~Number(%a);
Boolean(%a);
NUM~BigInt(%a);
ARR~%a.indexOf(%b) !== -1;
ARR~%a.indexOf('a') >= 0;
STR~/a/.test(%a);
STR~%a.match(/a/);
STR~%a.match(/a/g);
STR~%a.match('x');
ARR~%a.filter(x => x)[0];
ARR~%a.filter(x => x).at(0);
ARR~%a.find(x => !!x)?.a;
ARR~%a.sort();
ARR~%a.toSorted();
ARR~%a.reduce((x, y) => x, %b as %A);
ARR~%a.reduce((x, y) => ({ ...x }), {} as Record<string, number>);
STR~%a[0] === 'a';
STR~%a[%a.length - 1] === 'a';
STR~%a.charAt(0) === 'a';
STR~%a.slice(0, 3) === 'abc';
STR~%a.substring(0, 1) === 'x';
ARR~%a.lastIndexOf('a') === 0;
STR~/^abc/.test(%a);
STR~/abc$/.test(%a);
ERR~throw %a;
try { voidf(); } catch (e) { throw e; }
try { voidf(); } catch (e) { %a.then(() => { throw e; }); }
ERR~Promise.reject(%a);
Promise.reject();
ERR~new Promise((res, rej) => rej(%a));
new Promise<%A>((res) => { res(%b); });
PROM~new Promise(async (res) => { res(%a); });
PROM~Promise.resolve(%a);
Promise.all([%a, %b]);
ARR~Promise.all(%a);
PROM~%a.then(() => {});
PROM~%a.then(() => {}, () => {});
PROM~%a.then(() => {}).catch(() => {});
PROM~%a.catch((e) => { e; });
PROM~%a.catch((e: any) => e.message);
PROM~%a.then(() => {}, (e: Error) => {});
PROM~%a.finally(() => {});
PROM~(async () => { await %a; })();
FN~setTimeout(%a, 1);
setTimeout('a', 1);
new Function('a');
eval(%a);
OBJ~const um%k = %a.m;
OBJ~const { m: um%k } = %a;
OBJ~cb(%a.m);
OBJ~%a.m || voidf();
%a instanceof Cls;
OBJ~'a' in %a;
ENUM~%a === E.A;
ENUM~%a === 1;
ENUM~%a < E.B;
ENUM~%a | E.A;
const b%k = %a; b%k.then;
export type { T as X%k } from './none';
return voidf();
const r%k = voidf();
const r%k = %a && voidf();
cb(() => { return voidf(); });
console.log(voidf());
void voidf();
void neverf();
NULL~const z%k = id(%a) as %A;
const y%k = %a ? true : false;
if (%a === %a) {}
if (id(%a)) {}
ARR~if (%a.length) {}
ARR~if (!%a.length && %b) {}
if ((%a)) { } else if (%b) { }
[%a, %b].filter(Boolean);
[%a].filter(x => %b);
[%a].some((x) => { return x; });
[%a].every(async x => x);
OBJ~%a.a = %b;
OBJ~%a.r.push('x');
OBJ~Object.keys(%a);
OBJ~Object.assign({}, %a);
OBJ~JSON.stringify(%a);
const j%k: any = %a;
const jj%k: Set<string> = new Set<any>(%a);
const jk%k: Map<string, string> = %a as any;
new Map(%a);
new Set<%A>();
new Map<string, %A>([['a', %b]]);
const l%k: string[] = %a as any[];
function dd%k(x = %a, { y = %b }: { y?: %B } = {}) { return [x, y]; }
function de%k({ y = 1 }: { y: number }, [z = 's']: [string]) { return y + z; }
[1, 2].map((x = 3) => x);
/** @deprecated use other */ function old%k() { return %a; } old%k();
/** @deprecated */ const oldc%k = %a; oldc%k;
class D%k { /** @deprecated */ p = %a; q() { return this.p; } } new D%k().p;
declare const ov%k: { /** @deprecated */ (x: string): void; (x: number): void }; ov%k(%a);
namespace N%k { export type X = %A; export const v = %a; const w: N%k.X = N%k.v; }
enum M%k { A = 1, B = 'b' }
export { }; type EX%k = typeof %a;
""".strip().split("\n")
CTX = ["%s", "%s", "%s", "function ctx%d<T, U extends string>() {\n%s\n}", "async function ctx%d<T extends object, U>() {\n%s\n}", "class Ctx%d<T, U> { m() {\n%s\n} }", "const ctx%d = async <T, U>() => {\n%s\n};", "try {\n%s\n} catch (e) {}", "if (Math.random()) {\n%s\n}", "function* ctx%d() {\n%s\n}"]


def program(rng, k):
    n = rng.randrange(3, 9)
    wrap = rng.choice(CTX)
    generic = "<T" in wrap
    decl, body, top, names = [], [], [], {}
    pool = [t for t in TYPES if generic or not re.search(r"\b[TU]\b", t)]
    base = rng.sample(pool, 3)

    def var(tag):
        ts = [t for t in GROUPS[tag] if generic or not re.search(r"\b[TU]\b", t)] if tag and rng.random() < .75 else base if rng.random() < .5 else pool
        t = rng.choice(ts)
        if t not in names:
            names[t] = "v%d" % len(names)
            kw = rng.choice(["declare const %s: %s;", "declare const %s: %s;", "declare let %s: %s;", "declare var %s: %s;"])
            (body if generic else decl).append((kw if not generic else "let %s!: %s;") % (names[t], t))
        return names[t], t

    for j in range(n):
        tag, s = re.match(r"(?:([A-Z]+)~)?(.*)$", rng.choice(STMT), re.S).groups()
        if s.startswith("return") or (s.startswith(("export", "enum", "namespace")) and wrap != "%s"):
            continue
        (x, X), (y, Y) = var(tag), var(tag if rng.random() < .5 else "")
        par = lambda t: "(%s)" % t if re.search(r"[|&]|=>|^new |^keyof|^typeof", t) else t
        s = s.replace("\\n", "\n").replace("%a", x).replace("%b", y).replace("%A", par(X)).replace("%B", par(Y)).replace("%k", str(j))
        body.append(s)
    w = wrap % "\n".join(body) if wrap.count("%") == 1 else wrap % (0, "\n".join(body))
    return PRE + "\n".join(decl + top) + "\n" + w + "\nexport {};\n"


def mat(n, seed):
    rng = random.Random(seed)
    out = []
    for k in range(n):
        ts = rng.choice(["tsconfig.json"] * 4 + ["tsconfig.noUncheckedIndexedAccess.json", "tsconfig.unstrict.json", "tsconfig.exactOptionalPropertyTypes.json", "tsconfig.minimal.json"])
        if not os.path.exists(os.path.join(corpus.FIX, ts)):
            ts = "tsconfig.json"
        out.append(dict(id="x%d" % k, files={"file.ts": program(rng, k)}, main="file.ts", ts=ts, own=None))
    return out


IDENT = re.compile(r"\b[A-Za-z_$][\w$]{1,}\b")
LIBN = ["Error", "Promise", "RegExp", "URL", "Map", "Set", "Date", "Array", "String", "Function", "Thenable", "TypeError"]


def spec(rng, text):
    ids = IDENT.findall(text) or ["x"]
    nm = lambda: rng.choice(ids) if rng.random() < .7 else rng.choice(LIBN)
    k = rng.randrange(5)
    name = nm() if rng.random() < .6 else sorted({nm(), nm(), nm()})
    if k == 0:
        return nm()
    if k == 1:
        return {"from": "file", "name": name}
    if k == 2:
        return {"from": "file", "name": name, "path": rng.choice(["file.ts", "./file.ts", "react.tsx", "other.ts"])}
    if k == 3:
        return {"from": "lib", "name": name}
    return {"from": "package", "name": name, "package": rng.choice(["typescript", "node", "foo", "errors", "@types/node"] + re.findall(r"""(?:from|module) ['"]([\w@/-]+)['"]""", text))}


def value(rng, s, defs, text, name=""):
    if "$ref" in s:
        r = s["$ref"]
        if r.endswith("typeOrValueSpecifier"):
            return spec(rng, text)
        return value(rng, defs[r.split("/")[-1]], defs, text)
    if "oneOf" in s:
        return value(rng, rng.choice(s["oneOf"]), defs, text, name)
    if "enum" in s:
        return rng.choice(s["enum"])
    t = s.get("type")
    if t == "boolean":
        d = s.get("default")
        return (not d) if isinstance(d, bool) and rng.random() < .6 else rng.random() < .5
    if t == "array":
        if name == "ignoredTypeNames":
            return rng.sample(["Error", "RegExp", "URL", "URLSearchParams", "Foo", "Cls", "Obj", "T"], rng.randrange(0, 5))
        if s["items"].get("type") == "string":
            ids = IDENT.findall(text) or ["x"]
            return sorted({rng.choice(ids + TYPES[:12]) for _ in range(rng.randrange(0, 4))})
        return [value(rng, s["items"], defs, text) for _ in range(rng.randrange(0, 3))]
    if t == "string":
        if name == "allowPattern":
            return rng.choice(["", "^[a-z]+$", "^cl", "_", "[A-Z]", "^a$"])
        if name == "defaultCaseCommentPattern":
            return rng.choice(["^skip\\sdefault", "no default", "^no\\s*default$", "x"])
        return ""
    if t == "object":
        return {k: value(rng, p, defs, text, k) for k, p in s["properties"].items() if not (k in ("defaultCaseCommentPattern",) and rng.random() < .5)}
    raise Exception(s)


def opt(n, seed):
    rng = random.Random(seed)
    pool = {r: [] for r in SCH}
    for c in corpus.load("rules") + corpus.load("mut") + corpus.load("mutx"):
        if c["own"][0] in pool and len(c["files"][c["main"]]) < 4000:
            pool[c["own"][0]].append(c)
    extra = []
    for nm in ("confx", "mat"):
        for c in corpus.load(nm):
            if sum(map(len, c["files"].values())) < 5000:
                extra.append(c)
    weights = {"prefer-optional-chain": 3, "prefer-nullish-coalescing": 3, "strict-boolean-expressions": 2, "restrict-plus-operands": 2, "no-misused-promises": 2, "restrict-template-expressions": 2, "no-unnecessary-condition": 2}
    total = sum(weights.get(r, 1) for r in SCH)
    out, seen = [], set()
    for r in sorted(SCH):
        want = n * weights.get(r, 1) // total
        tries = 0
        got = 0
        own = pool[r]
        while got < want and tries < want * 5:
            tries += 1
            c = rng.choice(own) if rng.random() < .6 else rng.choice(extra)
            text = "\n".join(c["files"].values())
            o = value(rng, SCH[r][r.replace("-", "_") + "_options"], SCH[r], text)
            k = json.dumps([c["files"], c["main"], c["ts"], r, o], sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            d = dict(c, id="o%d" % len(out), own=[r, o], ownOnly=True)
            d.pop("src", None)
            out.append(d)
            got += 1
    return out


# per rule with options: which of the statements above it looks at, and more of its own
REL = {
    "consistent-return": (r"function f%k|=> \{", ["function f%k(): %A { if (%b) { return %a; } return; }", "function f%k() { if (%b) return undefined; return %a; }", "const f%k = () => { if (%b) { return %a; } };", "async function f%k(): Promise<%A> { if (%b) { return %a; } return; }", "function f%k(): %A | void { if (%b) { return void 0; } return %a; }", "class C%k { get v() { if (%b) { return %a; } return; } m(): void | %A { if (%b) return; return %a; } }", "function f%k() { switch (%b) { case 1: return undefined; default: return; } }"]),
    "dot-notation": (r"\['", ["OBJ~%a['c'];", "OBJ~%a['while'];", "new Cls()['y'];", "new Cls()['z'];", "OBJ~%a['snake_case'];", "OBJ~%a?.['a'];", "OBJ~%a.true;", "OBJ~%a[`a`];", "OBJ~%a[null];", "OBJ~%a['constructor'];", "class Q%k { private pp = %a; protected pr = 1; private static ps = 2; t() { return [this['pp'], this['pr'], Q%k['ps']]; } } new Q%k()['pp'];"]),
    "no-base-to-string": (r"toString|String\(|`|''|join", ["OBJ~%a.toLocaleString();", "OBJ~'' + %a + '';", "OBJ~[%a, %b].join();", "OBJ~String(%a);", "OBJ~`${%a}${%b}`;", "OBJ~tag`${%a}`;", "OBJ~%a + 'x' + %b;", "OBJ~let sb%k = ''; sb%k += %a;"]),
    "no-confusing-void-expression": (r"void", ["const f%k = () => voidf();", "const f%k = (): void => voidf();", "const f%k = (): void => { return voidf(); };", "function f%k(): void { return voidf(); }", "function f%k() { if (%a) return voidf(); }", "cb(() => { if (%a) return voidf(); });", "%a ? voidf() : voidf();", "%a && voidf();", "%a || void voidf();", "const r%k = void voidf();", "[1].map(() => voidf());", "foo%k: { console.log(voidf()); }", "function f%k(): void | %A { return voidf(); }", "const o%k = { m(): void { return voidf(); }, n: (): void => voidf() };", "type F%k = () => void; const f%k: F%k = () => { return voidf(); };", "(voidf(), 1);", "voidf()?.x;", "const n%k = () => { voidf(); return voidf(); };"]),
    "no-deprecated": (r"deprecated", ["/** @deprecated */ function Foo%k() {} Foo%k(); new (class { /** @deprecated */ a = 1; })().a;", "/** @deprecated */ type Obj%k = %A; let t%k: Obj%k;", "class Dep%k { /** @deprecated */ a = 1; /** @deprecated */ m() { return this.a; } /** @deprecated */ static s = 1; } new Dep%k().m(); Dep%k.s; const { a: da%k } = new Dep%k();", "enum DE%k { /** @deprecated */ A, B } DE%k.A; DE%k['A'];", "interface DI%k { /** @deprecated */ x: %A } declare const di%k: DI%k; di%k.x; di%k['x'];", "escape('x'); unescape('x');", "new Date().getYear(); ''.substr(1);"]),
    "no-duplicate-type-constituents": (r"type T%k|%A \|", ["type T%k = %A | %B | %A;", "type T%k = %A & %B & %A;", "type T%k = (%A | %B) | (%A & %A);", "function f%k(x?: %A | undefined, y: %B | %B = %b) {}", "type T%k = Array<%A | %A> | %B;", "type T%k = (%A & %B) | (%A & %B);", "let x%k: (%A | %B) & (%A | %B);"]),
    "no-floating-promises": (r"then|async|Promise|finally|catch", ["PROM~%a;", "PROM~void %a;", "PROM~%a, %b;", "PROM~%a ? %b : %a;", "PROM~%a ?? %b;", "PROM~%a && %b;", "(async () => { %a; })();", "(async function () {})();", "(() => %a)();", "PROM~[%a, %b];", "PROM~[1, 2].map(() => %a);", "PROM~id(%a);", "acb(async () => {});", "Promise.all([%a]);", "PROM~!%a;", "PROM~await %a;", "class SP%k extends Promise<number> {} new SP%k(() => {}); ", "declare function known%k(): Promise<void>; known%k();", "PROM~const kp%k = { f: () => %a }; kp%k.f();", "PROM~new Promise(() => %a);"]),
    "no-meaningless-void-operator": (r"void", ["void %a;", "void neverf();", "void voidf();", "void (%a as never);", "FN~void %a();", "void undefined;"]),
    "no-misused-promises": (r"if|\?|=>|\.\.\.|while|async|const o%k|&&", ["PROM~if (%a) {}", "PROM~if (%a && %b) {}", "PROM~if (%a ?? %b) {}", "PROM~%a ? 1 : 2;", "cb(async () => %a);", "PROM~cb(() => %a);", "let fv%k: () => void = async () => {}; fv%k = async () => {};", "const o%k: { f: () => void; g(): void } = { f: async () => {}, async g() {} };", "function f%k(): () => void { return async () => {}; }", "class B%k { m(): void {} } class S%k extends B%k { async m() {} }", "interface IB%k { m(): void } class SI%k implements IB%k { async m() {} }", "interface IB%k { m(): void } interface IC%k extends IB%k { m(): Promise<void> }", "PROM~const o%k = { ...%a };", "PROM~const o%k = { ...(%a || {}) };", "[1].forEach(async () => {});", "[1].filter(async () => true);", "new Promise(async (r) => { r(1); });", "declare function opt%k(f?: () => void, ...g: (() => void)[]): void; opt%k(async () => {}, async () => {});", "const oc%k = { f: undefined as (() => void) | undefined }; oc%k.f = async () => {};"]),
    "no-misused-spread": (r"\.\.\.", ["const o%k = [...%a];", "OBJ~const o%k = { ...%a };", "OBJ~const o%k = { ...%a, x: 1 };", "STR~[...%a, 1];", "const o%k = { ...id(%a) };", "const o%k = { ...(%a || %b) };", "take(...%a);", "const o%k = { ...new Cls() };", "const o%k = { ...Cls };", "const o%k = { ...[%a] };", "const o%k = { ...(() => 1) };", "ARR~const o%k = { ...%a };", "const o%k = { ...new Map<string, %A>() };"]),
    "no-unnecessary-boolean-literal-compare": (r"=== true|!== false", ["NULL~%a === true;", "NULL~%a === false;", "NULL~%a !== true;", "NULL~%a !== false;", "NULL~true == %a;", "NULL~!(%a === false);", "NULL~if (%a != false) {}", "NULL~while (!(true !== %a)) { break; }", "declare const nb%k: boolean | null; nb%k === true; nb%k === false; nb%k !== true; nb%k !== false; !(nb%k === true);", "declare const bb%k: boolean; bb%k === true; false !== bb%k; !(bb%k === false);", "declare const ub%k: boolean | undefined; if (ub%k === false) {} ub%k != true ? 1 : 2;"]),
    "no-unnecessary-condition": (r"if|\?|while|for|&&|\|\||===|filter|switch", ["while (true) { break; }", "while (1) { break; }", "for (; true; ) { break; }", "do {} while (true);", "while (0) {}", "do {} while (1);", "declare function isA%k(x: unknown): x is %A; if (isA%k(%a)) {}", "declare function asA%k(x: unknown): asserts x is %A; asA%k(%a);", "declare function as1%k(x: unknown): asserts x; as1%k(%a);", "NULL~%a?.toString();", "NULL~%a ?? %b;", "NULL~%a == null;", "declare const tr%k: true; while (tr%k) { break; }"]),
    "no-unnecessary-type-assertion": (r" as |!|<%B>", ["%a as %A;", "<%A>%a;", "const lc%k = 'a' as const;", "let lc%k = 'a' as 'a';", "const lc%k = 1 as const; const ld%k = <const>'x';", "const o%k = { p: 'a' as const };", "class A%k { readonly x = 'a' as const; y = 1 as const; }", "NULL~%a!.toString();", "NULL~const nn%k = %a!;", "OBJ~(%a as Obj).a;", "%a as any as %A;", "const tt%k: %A = %a as %A;", "enum LE%k { A = 1 } const le%k = LE%k.A as LE%k;"]),
    "no-unsafe-member-access": (r"%a\??\.|\[", ["%a?.x;", "anyf()?.x.y;", "anyf().x?.y;", "anyf()?.[0]?.z;", "anyf()[%a];", "OBJ~%a[anyf()];", "OBJ~%a?.[anyf()];", "anyf()?.x();", "(anyf())?.x!.y;", "class A%k extends anyf().B {}", "interface X%k { f: typeof globalThis }"]),
    "only-throw-error": (r"throw", ["ERR~throw %a;", "ERR~throw (%a);", "ERR~throw %a ?? %b;", "ERR~throw %a ? %b : %a;", "ERR~throw %a, %b;", "ERR~throw id(%a);", "throw 'a';", "throw anyf();", "try { voidf(); } catch (e) { throw e; }", "try { voidf(); } catch (e) { const f = e; throw f; }", "try { voidf(); } catch ({ a }) { throw a; }", "try { voidf(); } catch (e: any) { (() => { throw e; })(); }", "PROM~%a.catch((e) => { throw e; });", "PROM~%a.then(() => {}, (e) => { throw e; });", "PROM~%a.catch((...e) => { throw e; });", "PROM~%a.catch(function (e) { throw e; });", "try { voidf(); } catch (e) { e = %a; throw e; }", "ERR~throw %a as %B;", "ERR~async function f%k() { throw await %a; }"]),
    "prefer-nullish-coalescing": (r"\|\||\?|if \(!q", ["NULL~%a || %b;", "NULL~if (%a || %b) {}", "NULL~Boolean(%a || %b);", "NULL~!(%a || %b);", "NULL~%a || (%b && %a);", "NULL~%a && %b || %a;", "NULL~while (%a || %b) { break; }", "NULL~(%a || %b) ? 1 : 2;", "NULL~const x%k = %a ? %a : %b;", "NULL~const x%k = !%a ? %b : %a;", "NULL~%a === undefined ? %b : %a;", "NULL~%a !== null && %a !== undefined ? %a : %b;", "NULL~%a == null ? %b : %a;", "NULL~let x%k = %a; if (!x%k) x%k = %b;", "NULL~let x%k = %a; if (x%k == null) { x%k = %b; }", "NULL~let x%k = %a; if (x%k === undefined) x%k = %b; else voidf();", "NULL~let x%k = %a; x%k ||= %b;", "NULL~let x%k = %a; if (x%k ||= %b) {}", "NULL~Boolean(((%a || %b) && 1));", "OBJ~%a.a || %b;", "OBJ~%a.a ? %a.a : %b;", "OBJ~const x%k = { p: %a }; if (!x%k.p) { x%k.p = %b; }"]),
    "prefer-promise-reject-errors": (r"reject|rej", ["Promise.reject();", "ERR~Promise.reject(%a);", "ERR~Promise.reject(%a, %b);", "ERR~new Promise((_, rej) => rej(%a));", "ERR~new Promise(function (res, rej) { rej(%a ?? %b); });", "new Promise((_, rej) => { rej(); });", "ERR~Promise['reject'](%a);", "ERR~Promise?.reject(%a);", "ERR~new Promise((_, rej) => { if (%b) rej?.(%a); });", "class PP%k extends Promise<number> {} PP%k.reject(%a);", "Promise.reject(undefined);", "Promise.reject(anyf());", "ERR~Promise.reject(%a as %B);"]),
    "prefer-readonly": (r"class C%k", ["class C%k { private a = %a; private b = () => %a; private c = function () {}; private static d = 1; }", "class C%k { private a = () => 1; m() { this.a = () => 2; } }", "class C%k { #p = %a; #q = () => 1; m() { this.#p; } }", "class C%k { private x: %A; constructor() { this.x = %a; } }", "class C%k { private x: %A = %a; set() { ({ x: this.x } = { x: %b as any }); } }", "class C%k { private static f = (x: %A) => x; private async g() {} }", "class C%k { constructor(private a = %a, private readonly b = 1) { this.a; } }", "class C%k { private accessor z = %a; private n = async () => {}; }"]),
    "prefer-readonly-parameter-types": (r"function|=>|class C%k", ["function f%k(x: %A, y: readonly %A[]) {}", "const f%k = (x: %A, { a }: { readonly a: %B }) => x;", "class C%k { constructor(private x: %A, readonly y: %B) {} m(z: readonly [%A]) {} }", "interface I%k { (x: %A): void; new (x: %B): I%k; m(y: %A): void }", "type F%k = (x: %A) => %B;", "declare function d%k(x: Readonly<%A>): void;", "const cbk%k: (x: %A) => void = (x) => {};", "[%a].map((x) => x);", "interface M%k { readonly a: string; m(): void } function fm%k(x: M%k) {}", "interface N%k { readonly a: string; readonly n: () => void } function fn%k(x: N%k, y: Readonly<Obj>) {}", "function fs%k(x: Set<%A>, y: ReadonlySet<%A>, ...z: readonly %B[]) {}", "class Priv%k { readonly a = 1; #b = 2; } function fp%k(x: Priv%k) {}"]),
    "prefer-string-starts-ends-with": (r"===|test|indexOf|slice", ["STR~%a[0] === 'a';", "STR~%a[0] !== 'a';", "STR~%a.charAt(0) === 'b';", "STR~%a.charAt(%a.length - 1) == 'c';", "STR~%a[%a.length - 1] !== 'q';", "STR~'a' === %a[0];", "STR~%a.indexOf('foo') === 0;", "STR~%a.slice(-3) === 'foo';", "STR~%a?.[0] === 'a';", "STR~%a.substring(0, 3) === 'foo';", "STR~%a.match(/^foo/) !== null;", "STR~/^foo/.test(%a);", "STR~%a[0] === '😀';", "STR~%a[0] === %b;"]),
    "promise-function-async": (r"=>|function f%k|class C%k|Promise", ["PROM~function f%k(): %A { return %a; }", "PROM~const f%k = () => %a;", "PROM~const f%k = function () { return %a; };", "PROM~const f%k = (): %A => { return %a; };", "PROM~class M%k { m() { return %a; } static s() { return %a; } n = () => %a; }", "PROM~const o%k = { m() { return %a; }, f: () => %a, get g() { return %a; } };", "PROM~function f%k(x: 1): %A; function f%k(x: any): any { return %a; }", "PROM~export default function () { return %a; }", "PROM~function f%k() { return anyf(); }", "PROM~function f%k(x: boolean) { if (x) return %a; return %b; }", "PROM~abstract class AB%k { abstract m(): Promise<%A>; n(): PromiseLike<%A> { return null!; } }"]),
    "require-array-sort-compare": (r"sort", ["ARR~%a.sort();", "ARR~%a.toSorted();", "ARR~%a?.sort();", "ARR~%a.sort((x, y) => 0);", "ARR~%a.sort(undefined);", "[%a, %b].sort();", "['a', 'b'].toSorted();", "ARR~%a['sort']();", "STR~[%a].sort();"]),
    "restrict-plus-operands": (r"\+|-", ["NUM~%a + %b;", "STR~%a + %b;", "NULL~%a + 'x';", "NUM~'x' + %a;", "NUM~%a + 'x';", "NUM~let q%k = %a; q%k += %b;", "NUM~let s%k: any = %a; s%k += %b;", "STR~let s%k = %a; s%k += 1n;", "NULL~1 + %a;", "/a/ + %a;", "%a + /a/;", "%a + true;", "null + %a;", "STR~%a + 1n;", "STR~1n + %a;", "STR~2 + %a;", "NUM~%a + undefined;", "OBJ~%a + %b;", "OBJ~'x' + %a;", "ENUM~%a + %b;", "ENUM~'' + %a;", "%a + %b + %a;"]),
    "restrict-template-expressions": (r"`", ["NUM~`${%a}`;", "NULL~`${%a}`;", "OBJ~`${%a} ${%b}`;", "ARR~`${%a}`;", "ERR~`${%a}`;", "ENUM~`${%a}`;", "FN~`${%a}`;", "PROM~`${%a}`;", "`${/a/}${true}${null}${undefined}${1n}`;", "`${neverf()}${anyf()}`;", "STR~`${%a}`;", "`${[%a, %b]}`;", "`${[[%a]]}`;", "`${new URL('a')}${new URLSearchParams()}${new Error('x')}`;"]),
    "return-await": (r"return|=> ", ["PROM~async function f%k() { return await %a; }", "PROM~async function f%k() { return %a; }", "PROM~async function f%k() { try { return await %a; } catch (e) { return %b; } }", "PROM~async function f%k() { try { return %a; } finally { } }", "PROM~async function f%k() { try { voidf(); } catch (e) { return await %a; } finally { voidf(); } }", "PROM~async function f%k() { try { voidf(); } catch (e) { return %a; } }", "PROM~const f%k = async () => await %a;", "PROM~const f%k = async () => %a;", "PROM~const f%k = async () => (%b ? await %a : %a);", "PROM~async function f%k() { using u = null; return %a; }", "PROM~async function f%k() { await using u = null; return await %a; }", "PROM~async function f%k() { try { try { return %a; } catch {} } finally {} }", "PROM~async function f%k() { return (voidf(), await %a); }", "PROM~async function f%k() { return %b && await %a; }", "PROM~async function f%k() { try { return %b ?? %a; } catch (e) { throw e; } }", "PROM~async function f%k() { if (%b) { using u = null; } return await %a; }"]),
    "strict-boolean-expressions": (r"if|\?|while|for|&&|\|\||!|filter|Boolean", ["if (%a) {}", "NULL~if (%a) {}", "NULL~if (!%a) {}", "NULL~%a && %b;", "NULL~%a || %b || %a;", "ENUM~if (%a) {}", "NUM~while (%a) { break; }", "STR~%a ? 1 : 2;", "ENUM~!%a;", "ARR~%a.filter((x) => x);", "ARR~%a.some((x) => { return x; });", "declare function asr%k(x: unknown): asserts x; asr%k(%a);", "NULL~%a?.toString() ? 1 : 2;", "PROM~if (%a) {}", "STR~[%a].find((x) => x);", "declare const en%k: E | null; if (en%k) {} if (!en%k) {}", "NUM~!!%a;", "NULL~(%a ?? %b) ? 1 : 2;"]),
    "strict-void-return": (r"cb\(|=>", ["FN~cb(%a);", "cb(() => %a);", "cb(() => anyf());", "cb(async () => {});", "cb(function () { return %a; });", "cb(function* () {});", "let fv%k: () => void = () => %a;", "const o%k: { f: () => void; g(): void } = { f: () => %a, g() { return %b; } };", "class B%k { m(): void {} } class S%k extends B%k { m() { return %a; } }", "interface IB%k { m(): void } class SI%k implements IB%k { m() { return %a; } n = anyf; }", "function f%k(): () => void { return () => %a; }", "cb(anyf());", "cb(anyf as () => any);", "cb(() => { if (%b) return anyf(); return; });", "cb(%b ? () => %a : () => {});", "[1].forEach((x) => %a);", "setTimeout(() => %a, 1);"]),
    "switch-exhaustiveness-check": (r"switch", ["ENUM~switch (%a) { case E.A: case E.B: break; }", "ENUM~switch (%a) { case E.A: break; default: break; }", "ENUM~switch (%a) { case 'a': break; // no default\n }", "ENUM~switch (%a) { case 'a': break; /* skip default */ }", "ENUM~switch (%a) { }", "ENUM~switch (%a) { default: }", "NULL~switch (%a) { case null: break; default: break; }", "NUM~switch (%a) { case 1: case 2: break; default: break; }", "declare const bo%k: boolean; switch (bo%k) { case true: break; case false: break; default: }", "declare const li%k: 'a' | 'b' | 3; switch (li%k) { case 'a': case 'b': case 3: break; }", "declare const lj%k: 'a' | 'b' | 3; switch (lj%k) { case 'a': break; // no default\n }", "declare const lk%k: E; switch (lk%k) { case E.A: break; default: voidf(); }", "declare const ll%k: E; switch (ll%k) { case E.A: case E.B: break; default: voidf(); }", "declare const lm%k: 'a' | number; switch (lm%k) { case 'a': break; }", "declare const ln%k: 1 | string; switch (ln%k) { case 1: break; default: break; }"]),
    "unbound-method": (r"um%k|\.m\b|cb\(", ["const um%k = Cls.s;", "const um%k = new Cls().m;", "const { s: um%k } = Cls;", "const { m: um%k } = new Cls();", "cb(Cls.s);", "cb(new Sub().m);", "class Q%k { static st() {} in() {} t = () => {}; u() { const f = this.in; const g = Q%k.st; return [f, g, this.t]; } }", "Cls.s?.();", "const um%k = Cls['s'];", "OBJ~const um%k = %a.m ?? Cls.s;", "Promise.resolve().then(console.log);", "const { log: um%k, ...rs%k } = console;", "typeof Cls.s; void new Cls().m; if (Cls.s) {}", "let um%k; um%k = Cls.s; ({ s: um%k } = Cls);", "class St%k { static a(this: void) {} static b() { return this; } static c = () => {}; } [St%k.a, St%k.b, St%k.c];"]),
    "prefer-optional-chain": (r"&&|\|\|", ["NULL~%a && %a.a;", "NULL~%a != null && %a.a != null && %a.a.b;", "NULL~!%a || !%a.a;", "%a && %a.a;", "%a && %a.toString();", "%a && %a.a && %a.a.b();", "%a !== null && %a.a;", "%a === null || %a.a;", "NULL~typeof %a === 'undefined' || %a.a === 1;", "NULL~%a && %a[0];", "FN~%a && %a();", "NULL~(%a ?? {}).a;", "NULL~(%a || {})?.a;", "NUM~%a && %a.toFixed();", "STR~%a && %a.length;", "STR~%a && %a.length > 0;"]),
}


def omat(n, seed):
    """Programs made of the statements one rule looks at, with random values for that rule's options."""
    global STMT
    rng = random.Random(seed)
    allst = STMT
    ot = ["tsconfig.json"] * 5 + ["tsconfig.noUncheckedIndexedAccess.json", "tsconfig.exactOptionalPropertyTypes.json"]
    out = []
    names = sorted(set(SCH) - {"consistent-type-exports"})
    missing = [r for r in names if r not in REL]
    assert not missing, missing
    for r in names:
        pat, more = REL[r]
        STMT = [s for s in allst if re.search(pat, s)] + more * 4
        for k in range(n // len(names)):
            text = program(rng, k)
            o = value(rng, SCH[r][r.replace("-", "_") + "_options"], SCH[r], text)
            ts = rng.choice(ot)
            if not os.path.exists(os.path.join(corpus.FIX, ts)):
                ts = "tsconfig.json"
            out.append(dict(id="y%d" % len(out), files={"file.ts": text}, main="file.ts", ts=ts, own=[r, o], ownOnly=True))
    STMT = allst
    return out


if __name__ == "__main__":
    what, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rows = dict(mat=mat, opt=opt, omat=omat)[what](n, seed)
    corpus.save(what, rows)
    print(what, len(rows))
