"""Corpus tab: systematic tables (run once; the result is committed). Every entry of every table a rule keeps (names, operators,
characters, globals, contexts) gets its own statement, with near misses; statements are packed a dozen to a program."""
import itertools, json, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "lib"))
import corpus

rng = random.Random(7)
out = []
PRE = """interface Obj { a: string; b?: number; c: { d: string | null }; m(): void; readonly r: string[] }
class Cls { x = 1; static s() {} m() {} get g() { return 1; } }
enum E { A, B = 5 } enum S { A = 'a', B = 'b' }
declare const any: any; declare const unk: unknown; declare const str: string; declare const num: number; declare const big: bigint; declare const bool: boolean;
declare const sym: symbol; declare const obj: Obj; declare const arr: string[]; declare const nums: number[]; declare const mstr: string | undefined; declare const mnum: number | null;
declare const prom: Promise<number>; declare const fn: () => void; declare const afn: () => Promise<void>; declare const re: RegExp; declare const tup: [string, number]; declare const err: Error;
"""


def prog(body, own=None, ts="tsconfig.json", pre=PRE, name="file.ts"):
    c = dict(id="t%d" % len(out), files={name: pre + body + "\nexport {};\n"}, main=name, ts=ts, own=own)
    if own:
        c["ownOnly"] = True
    out.append(c)


def pack(sts, n=12, own=None, wrap="{\n%s\n}", **k):
    sts = list(dict.fromkeys(sts))
    for i in range(0, len(sts), n):
        prog("\n".join(wrap.replace("%s", s) for s in sts[i:i + n]), own, **k)


def T(*fmts, **vals):
    ks = list(vals)
    return [re.sub(r"<(%s)>" % "|".join(ks), lambda m: str(d[m[1]]), f) for f in fmts for d in (dict(zip(ks, v)) for v in itertools.product(*vals.values()))]


# --- unbound-method: every static and prototype member of the built-in globals
G = json.load(open("/tmp/globals.json")) if os.path.exists("/tmp/globals.json") else {}
for g, ms in G.items():
    sts = ["const f = %s.%s;" % (g, m) if re.match(r"^[\w$]+$", m) else "const f = %s['%s'];" % (g, m) for m in ms]
    pack(sts, 20)
    pack(["const { %s: f } = %s;" % (m, g) for m in ms if re.match(r"^[\w$]+$", m)], 20)
for g in ("Math", "JSON", "Promise", "Object", "console", "Number", "Reflect", "String", "Array", "Intl"):
    prog("namespace N { class %s { static max() {} static resolve() {} m() {} } const f = %s.max; const g = %s.resolve; }" % (g, g, g))
    prog("function f() { const %s = { max() { return this; }, resolve() { return this; }, log() { return this; } }; const f = %s.max; [1].map(%s.resolve); cb(%s.log); } declare function cb(x: unknown): void;" % (g, g, g, g))
CTXU = """<e>;
void <e>;
typeof <e>;
!<e>;
delete (<e> as any);
<e>();
new (<e> as any)();
<e>``;
<e>?.();
if (<e>) {}
while (<e>) { break; }
for (; <e>; ) { break; }
<e> ? 1 : 2;
num > 1 ? <e> : 2;
num > 1 ? 2 : <e>;
num > 1 && <e>;
<e> && num;
<e> || num;
num || <e>;
<e> ?? num;
any ?? <e>;
<e> == null;
<e> === undefined;
<e> !== fn;
<e> instanceof Function;
(<e>);
(<e>)();
(<e> as any);
(<e> as () => void)();
<e>!;
<e>!();
(<e> satisfies unknown);
let x = <e>;
let x; x = <e>;
obj.m = <e>;
const x = { <e> };
const x = { y: <e> };
const x = [<e>];
fn(<e>);
any(...<e>);
`${<e>}`;
const x = () => <e>;
const x = () => { return <e>; };
throw <e>;
<e>.length;
<e>.name;
<e>.bind(obj);
<e>['call'](obj);
num, <e>;
<e>, num;
const { x = <e> } = any;
function q(x = <e>) {}
switch (<e>) { case fn: }
switch (fn) { case <e>: }
async () => await <e>;
function* q() { yield <e>; }
const x = <any><e>;
class Q { x = <e>; }
class Q { static x = <e>; }
class Q { @<e> m() {} }
<e>++;
-<e>;
'x' in <e>;
<e> in any;
export default <e>;
""".strip().split("\n")
pack([c.replace("<e>", e) for c in CTXU for e in ("cls.m", "Cls.s", "cls['m']", "cls?.m", "sub.arrow", "it.f", "it.g", "it.h")], 10,
     pre=PRE + "declare const cls: Cls; declare const sub: { arrow: () => void }; declare const it: { f(): void; g: (this: void) => void; h(this: void): void };\n",
     wrap="function w() {\n%s\n}")
for s in ("true", "false"):
    pack(["const f = Cls.s;", "const f = new Cls().m;", "const { s } = Cls;", "const { m } = new Cls();", "const f = Math.max;", "const f = Cls['s'];"], 6, own=["unbound-method", dict(ignoreStatic=s == "true")])
DESTR = """const { m } = cls;
const { m: y } = cls;
const { ['m']: y } = cls;
const { m = fn } = cls;
const { m: y = fn } = cls;
const { ...r } = cls;
let m; ({ m } = cls);
let y; ({ m: y } = cls);
let y; ({ m: y = fn } = cls);
const { a: { m } } = { a: cls };
const { m } = cls, { s } = Cls;
function q({ m }: Cls) {}
const q = ({ m }: Cls) => m;
function q({ m }: Cls | { m: string }) {}
function q({ m } = cls) {}
for (const { m } of [cls]) {}
for (const { m } in cls) {}
const { log } = console;
const { log: y } = console;
const { all, resolve } = Promise;
const { length } = arr;
const { map } = arr;
const { push, pop } = Array.prototype;
const { toString } = obj;
const { m } = any;
const { m } = cls as Cls & { m: () => void };
const { m, x } = cls;
const { s } = Cls;
const [{ m }] = [cls];
const { x: { m } } = { x: cls };
let { m } = cls;
var { m }: { m: () => void } = cls;
var { m }: { m(): void } = cls;
try {} catch ({ m }) {}
class Q { constructor(private cls: Cls) { const { m } = this.cls; } }
class Q { m() {} n() { const { m } = this; m(); } }
class Q { static m() {} static n() { const { m } = this; m(); } }
class Q { m = () => {}; n() { const { m } = this; m(); } }
class Q { #m() {} n() { const m = this.#m; m(); } }
class Q { m = function () {}; n() { const m = this.m; m(); } }
class Q { m = this.n; n() {} }
class Q extends Cls { n() { const m = super.m; const f = super['m']; } }
""".strip().split("\n")
pack(DESTR, 4, pre=PRE + "declare const cls: Cls;\n", wrap="function w() {\n%s\n}")

# --- dot-notation: every word the language knows, and near misses
WORDS = """abstract boolean break byte case catch char class const continue debugger default delete do double else enum export extends false final finally float for function goto if implements import in instanceof int interface long native new null package private protected public return short static super switch synchronized this throw throws transient true try typeof var void volatile while with
let yield await async of get set eval arguments undefined NaN Infinity as any never unknown type namespace module declare readonly constructor prototype __proto__ then catch2 ab1 $ _ $a _b a$1 été ö x1 default2 If IF""".split()
ODDN = ["1a", "a-b", "a b", "", "a.b", "0", "1", "-1", "\\u0061b", "a\\u0062", "\\n", "é", "e\\u0301", "𝒜", "a\\u{62}", "ª", "·", "a·", "a\\u200d", "@", "#x", "名前", "x\\x41"]
for opts in ({}, dict(allowKeywords=False), dict(allowKeywords=True), dict(allowPattern="^[a-z]+(_[a-z]+)+$"), dict(allowPattern="^a"), dict(allowKeywords=False, allowPattern="^c")):
    pack(T("any['<w>'];", w=WORDS + ODDN), 30, own=["dot-notation", opts])
    pack(T("any.<w>;", "any?.<w>;", w=[w for w in WORDS if "\\" not in w]), 40, own=["dot-notation", opts])
    pack(T("any[`<w>`];", 'any?.["<w>"];', "any[('<w>')];", "any[<w>];", w=["if", "abc", "null", "true", "a_b", "false", "undefined", "c1"]), 40, own=["dot-notation", opts])
    pack(T("<o>['<w>'];", "<o>['<w>'] = 1 as never;", "delete <o>['<w>'];", "<o>['<w>']();", o=["5", "1.5", "0x1", "(5)", "(a => a)", "'s'", "[]", "({})", "(function () {})", "any\n", "any /* c */ ", "any['x']", "any()", "new any()", "new any", "(await any)", "any!", "(any as any)", "`t`", "/r/", "this", "1e3", "5n", "1_000", "-5", "any['y'] "], w=["toString", "if"]), 40, own=["dot-notation", opts], wrap="async function q(this: any) {\n%s\n}")
PRIV = "class P { private priv = 1; protected prot = 1; pub = 1; #h = 1; [k: string]: any; m() { this['priv']; this['prot']; this['pub']; } private pm() {} protected pg() {} } class PS extends P { n() { this['prot']; this['priv']; } } declare const p: P; declare const ix: { [k: string]: number; a: number }; declare const rec: Record<string, number>; declare const map: { [k: `x${string}`]: number }; declare const mi: { [K in 'a' | 'b']?: number };\n"
for o in ({}, dict(allowPrivateClassPropertyAccess=True), dict(allowProtectedClassPropertyAccess=True), dict(allowIndexSignaturePropertyAccess=True), dict(allowPrivateClassPropertyAccess=True, allowProtectedClassPropertyAccess=True, allowIndexSignaturePropertyAccess=True)):
    for ts in ("tsconfig.json", "tsconfig.noPropertyAccessFromIndexSignature.json"):
        pack(T("<o>['<w>'];", "<o>?.['<w>'];", "<o>!['<w>'];", "<o>['<w>'] = 1 as any;", o=["p", "ix", "rec", "map", "mi", "(p as P | undefined)", "(rec as typeof rec | { q: 1 })", "(p as P & { z: 1 })"], w=["priv", "prot", "pub", "a", "b", "zz", "xq", "pm", "pg", "m"]), 40, own=["dot-notation", o], pre=PRE + PRIV, ts=ts)

# --- regular expressions as plain strings
CH = [chr(i) for i in range(33, 127)] + [" ", "é", "😀", "\u2028"]
ESC = ["\\" + ch for ch in "abcdefgDhijklmnopqrstuvwxyzABCPSWZ0123456789.*+?|^$[](){}/\\-'\"`,:;!&%#@~_ "] + ["\\x41", "\\u0041", "\\u{41}", "\\cA", "\\k<a>", "\\p{L}", "\\u", "\\x4", "\\00", "\\01", "\\18", "[a]", "[^a]", "a|b", "(a)", "(?:a)", "(?=a)", "a*", "a+", "a?", "a{2}", "a{", "a}", "]", "", "^a", "a$", "^a$", "^", "$", "a^", "$a", "\\^a", "a\\$", ".", "\\.", "a.b", "a\\.b", "^.", ".$", "^\\.", "ab", "a b", "'", '"', "`", "\\n\\t", "^ab", "ab$", "^\\^", "\\$$", "^a\\$", "^\\\\", "\\\\$", "(?<n>a)", "(?!a)", "\\ba", "a\\b"]
PAT = [re.escape(ch) if False else ch for ch in CH if ch not in "/\\*+?()[{|"] + ESC
pack(T("/<p>/.test(str);", p=[p for p in PAT if p and p != "/"]), 30)
pack(T("/^<p>/.test(str);", "/<p>$/.test(str);", p=[p for p in PAT if p and p != "/" and not p.startswith("*")]), 30)
pack(T("str.match(/<p>/);", p=[p for p in PAT if p and p != "/"]), 30)
lit = lambda p: "'%s'" % p.replace("\\", "\\\\").replace("'", "\\'") if "\u2028" not in p else "'\\u2028'"
pack(["new RegExp(%s).test(str);" % lit(p) for p in PAT] + ["RegExp(%s).test(str);" % lit(p) for p in PAT[::5]], 30)
pack(["str.match(%s);" % lit(p) for p in PAT], 30)
pack(["new RegExp(%s).test(str);" % lit("^" + p) for p in PAT[::2]] + ["new RegExp(%s).test(str);" % lit(p + "$") for p in PAT[::2]], 30)
FL = ["", "g", "i", "m", "s", "u", "y", "v", "d", "gi", "iu", "mu"]
pack(T("/a/<f>.test(str);", "/^a/<f>.test(str);", "/a$/<f>.test(str);", "str.match(/a/<f>);", "str.match(new RegExp('a', '<f>'));", "new RegExp('a', '<f>').test(str);", "str.match(RegExp('a', '<f>'));", "new RegExp('^a', '<f>').test(str);", "{ const r = /a/<f>; r.test(str); str.match(r); }", "{ const r = new RegExp('a', '<f>'); r.test(str); str.match(r); }", "{ let r = /a/<f>; r.test(str); str.match(r); }", f=FL), 30)
pack(T("<r>.test(<a>);", r=["/a/", "/^a/", "/a$/", "re", "(/a/)", "new RegExp('a')", "RegExp('^a')", "new RegExp(str)", "new RegExp('^' + str)", "new RegExp(`^a`)", "new RegExp('a', undefined)", "(/a/ as RegExp)", "(num > 1 ? /a/ : /b/)", "any"],
       a=["str", "'x'", "str + str", "(str)", "str ?? ''", "num > 1 ? str : ''", "any", "num", "mstr", "String(num)", "await prom", "str as string", "str!", "`x${num}`", "...tup", "str, 1", "", "obj.a", "obj?.a", "(() => str)()", "<any>str", "str = 'a'", "(str, str)", "!str", "typeof str", "[]", "class {}", "() => 1", "new Cls()", "yield_"]), 30, wrap="async () => {\n%s\n};", pre=PRE + "declare const yield_: string;\n")

# --- indexOf and friends
OPS = ["===", "!==", "==", "!=", "<", "<=", ">", ">="]
CONST = ["-1", "0", "1", "-0", "+0", "- 1", "(-1)", "~0", "-1n", "'-1'", "NEG", "-2", "0.5", "null", "undefined", "+1", "-(1)", "Z"]
pack(T("arr.indexOf('a') <o> <c>;", "<c> <o> arr.indexOf('a');", o=OPS, c=CONST), 40, pre=PRE + "const NEG = -1; const Z = 0; let LET = -1;\n")
RCV = ["arr", "str", "nums", "tup", "(arr as readonly string[])", "(str as 'a' | 'b')", "new Uint8Array()", "any", "new Set<string>()", "({} as { indexOf(x: string): number })", "({} as { indexOf(x: string): number; includes(x: string): boolean })", "({} as { indexOf(x: string, from?: number): number; includes(x: string): boolean })", "({} as { indexOf(x: string, from: number): number; includes(x: string, from: number): boolean })",
       "({} as { indexOf(x: string): number; includes: boolean })", "({} as string[] | undefined)", "({} as string[] | string)", "({} as string[] | { indexOf(x: string): number })", "({} as { indexOf(x: string): number; includes(y: string): boolean })", "({} as { indexOf(x: string): number; includes(x: number): boolean })", "({} as { indexOf<T>(x: T): number; includes<T>(x: T): boolean })", "({} as { indexOf?(x: string): number; includes?(x: string): boolean })",
       "(arr as Array<string> & { z: 1 })", "({} as ReadonlyArray<string> | Int8Array)", "('x' as string & { __b: 1 })", "unk", "({} as { indexOf(...a: string[]): number; includes(...a: string[]): boolean })", "({} as { indexOf(x: string): number; includes(x?: string): boolean })", "new Map<string, 1>()", "obj.r", "obj?.r", "arr!", "arguments", "(globalThis as any).q", "document.querySelectorAll('a')", "Buffer_"]
pack(T("<r>.indexOf('a' as never) !== -1;", "<r>.indexOf('a' as never) === -1;", "<r>?.indexOf('a' as never) !== -1;", "<r>.lastIndexOf('a' as never) !== -1;", "<r>.indexOf('a' as never, 1 as never) >= 0;", "<r>['indexOf']('a' as never) > -1;", "<r>.indexOf?.('a' as never) < 0;", r=RCV), 30, wrap="function q() {\n%s\n}", pre=PRE + "declare const Buffer_: { indexOf(x: number): number; includes(x: number): boolean; }\n")
pack(T("<e> === 0;", "0 === <e>;", "<e> !== 0;", "<e> == 0;", "<e> != 0;", "<e> === 1;", "<e> === -1;", "<e> === <n>;", e=["str.indexOf('b')", "str.lastIndexOf('b')", "str.search('b')", "str.indexOf('b', 0)", "str.lastIndexOf('b', 1)", "str.indexOf()", "str?.indexOf('b')", "mstr?.indexOf('b')", "arr.indexOf('b')", "any.indexOf('b')", "str['indexOf']('b')"], n=["str.length - 1", "str.length - 'b'.length", "str.length - 2", "mstr?.length", "obj.a.length - 1", "str.length"]), 40)
IDX = ["0", "1", "-1", "str.length - 1", "str.length - 2", "obj.a.length - 1", "str.length", "(0)", "+0", "num", "0n", "'0'", "str['length'] - 1", "-0", "0x0", "0.0", "str.length-1.0"]
RHS = ["'a'", "'ab'", "''", "'é'", "'😀'", "str", "num", "'\\n'", "`a`", "`a${num}`", "undefined", "null", "mstr", "('a')", "'\\u0061'"]
pack(T("str[<i>] === 'a';", "str.charAt(<i>) === 'a';", "str.at(<i>) === 'a';", "'a' === str[<i>];", "str[<i>] !== 'a';", "str[<i>] == 'a';", "mstr?.[<i>] === 'a';", "mstr?.charAt(<i>) !== 'a';", "arr[<i>] === 'a';", "any[<i>] === 'a';", "str?.[<i>] === 'a';", "str.charAt?.(<i>) === 'a';", i=IDX), 40)
pack(T("str[0] === <r>;", "str.charAt(0) === <r>;", "str[str.length - 1] === <r>;", "str.charAt(str.length - 1) !== <r>;", r=RHS), 40)
for v in ("always", "never"):
    pack(T("str[0] === 'a';", "str.charAt(0) === 'a';", "str[str.length - 1] === 'a';", "str.charAt(str.length - 1) !== 'a';", "str.slice(0, 1) === 'a';", "str.at(0) === 'a';", "str.indexOf('a') === 0;", "/^a/.test(str);", "arr[0] === 'a';"), 9, own=["prefer-string-starts-ends-with", dict(allowSingleElementEquality=v)])
ARG = ["0, 1", "0, 2", "0, 3", "0", "1", "-1", "-2", "-3", "0, str.length", "0, 'ab'.length", "-'ab'.length", "str.length - 1", "str.length - 2", "str.length - 'ab'.length", "0, -1", "0, obj.a.length", "-obj.a.length", "str.length - obj.a.length", "1, 2", "-2, 0", "", "num", "0, num", "-2, str.length", "str.length - 2, str.length", "0, mstr!.length", "(0), 2", "0, 2, 3", "...tup", "'0', 2", "0, 2.0", "0, +2", "- 2", "-(2)", "0, mstr?.length", "0, b.length", "-b.length", "0, b2.length"]
pack(T("str.<m>(<a>) === <r>;", m=["slice", "substring", "substr"], a=ARG, r=["'ab'", "'a'", "obj.a", "''", "b"]), 40, pre=PRE + "declare const b: string; declare const b2: string;\n")
pack(T("<r> <o> <s>.slice(0, 2);", "<s>.slice(-2) <o> <r>;", "<s>.slice(0, 2) <o> <r>;", r=["'ab'", "'😀'", "'é'", "'e\u0301'", "`ab`", "any", "'\\x61b'", "('ab')", "null", "mstr"], o=["===", "!=", "==", "!==", "<"], s=["str", "mstr!", "arr", "any", "(str as 'abc')", "str?.trim()"]), 40)
pack(T("str.match(<r>) <o> null;", "null <o> str.match(<r>);", "!str.match(<r>);", "if (str.match(<r>)) {}", "str.match(<r>) <o> undefined;", "!!str.match(<r>);", "const x = str.match(<r>);", "str.match(<r>)?.[0];", "mstr?.match(<r>) <o> null;", "any.match(<r>) <o> null;", "str['match'](<r>) <o> null;", "str.match?.(<r>);", "str.matchAll(<r> as any);", r=["/^a/", "/a$/", "/a/", "/^a$/", "'^a'", "re", "/^a/g", "new RegExp('^a')", "/^./", "str", "'a'", "/^a/i", "any", "num as never", "str as 'x' | 'y'", "undefined as never", "/a/g", "mstr as any", "(re as RegExp | string)"], o=["===", "!==", "==", "!="]), 40)

# --- prefer-find
IX = ["0", "'0'", "0n", "-0", "+0", "`0`", "' 0 '", "'0x0'", "'00'", "0.9", "NaN", "null", "undefined", "false", "true", "''", "0.0", "0x0", "Z", "ZL", "ZS", "0 as 0", "(0)", "0!", "1 - 1", "'0' + ''", "-1", "1", "num", "`${0}`", "[0]", "~~0", "!1", "void 0", "Z as number", "Number.MIN_VALUE", "0e5", "00", "-'0'", "+'0'", "+' '", "-0n", "ZN", "ZO.z", "NaN as number", "[]", "'-0'", "Infinity", "1e-9", "'\\n'", "new Number(0)", "this", "x0", "Symbol.iterator as any", "Symbol() as any", "{} as any"]
pack(T("arr.filter(x => x)[<i> as never];", "arr.filter(x => x).at(<i> as never);", "arr.filter(x => x)?.[<i>];", i=IX), 30, pre=PRE + "const Z = 0; let ZL = 0; const ZS = '0'; const ZN = null; const ZO = { z: 0 } as const; function q(x0 = 0) {}\n", ts="tsconfig.unstrict.json")
pack(T("arr.filter(x => x)[<i>];", "arr.filter(x => x).at(<i>);", i=IX), 30, pre=PRE + "const Z = 0; let ZL = 0; const ZS = '0'; const ZN: any = null; const ZO = { z: 0 } as const; const x0 = 0;\n")
pack(T("<r>.filter((x: any) => x)[0];", "<r>.filter((x: any) => x).at(0);", "<r>?.filter((x: any) => x)[0];", "<r>['filter']((x: any) => x)[0];", "<r>.filter?.((x: any) => x)[0];", "<r>.filter((x: any) => x)?.[0];", "(<r>.filter((x: any) => x))[0];", "<r>[`filter`]((x: any) => x).at(0);", "<r>.filter((x: any) => x)!.at(0);", "<r>.filter((x: any) => x)['at'](0);", "<r>.filter((x: any) => x).at?.(0);", "<r>.filter((x: any) => x).at(0, 1 as never);", "<r>.filter((x: any) => x).at();", "(num, <r>.filter((x: any) => x))[0];", "(num > 1 ? <r>.filter((x: any) => x) : arr.filter(x => x))[0];", "(num > 1 ? <r>.filter((x: any) => x) : arr)[0];", "(<r> && <r>.filter((x: any) => x))[0];", "<r>.filter((x: any) => x)[0] = 1 as never;", "<r>.filter((x: any) => x).shift();", "<r>[FIL]((x: any) => x)[0];", "const [f] = <r>.filter((x: any) => x);", r=RCV[:8] + ["(arr as Array<string> | undefined)!", "({} as string[] | number[])", "({} as { filter(x: any): string[] })", "new Float32Array()", "({} as string[] & { q: 1 })", "({} as readonly [1, 2])", "({} as any[])", "({} as T[])", "({} as string[] | null)", "({} as never)", "({} as string[] | Set<1>)", "({} as ArrayLike<string>)"]), 30, pre=PRE + "const FIL = 'filter'; type T = 1;\n")

# --- calls by name
GL = ["", "window.", "globalThis.", "global.", "self.", "window['", "globalThis[`", "top.", "any.", "(window).", "window?.", "globalThis.window.", "document.defaultView!."]
NM = ["setTimeout", "setInterval", "setImmediate", "execScript", "Function", "eval", "setTimeOut", "requestAnimationFrame", "queueMicrotask"]
AR = ["'a()'", "str", "`a${num}`", "() => 1", "function () {}", "fn", "fn.bind(null)", "str + 'x'", "any", "unk as any", "num", "obj.m", "cbs", "new Function()", "afn", "Cls", "null", "undefined", "...tup", "", "fn.call(null)", "obj.m.bind(obj)", "fn?.bind(null)", "(fn as Function)", "(fn as () => void | string)", "(str as any)", "sof", "fn()", "(() => 'a')", "String", "Cls.s", "any.bind(1)", "str.bind(1)", "'a' + fn", "fn + 'a'", "(1, 'a')", "num > 1 ? fn : 'a'", "async () => {}", "class {}", "obj['m']", "fof()", "({} as { (): void; x: 1 })", "({} as Function & { x: 1 })", "({} as object)", "({} as Foo)"]
cl = lambda g, n: g + n + ("']" if g.endswith("['") else "`]" if g.endswith("[`") else "")
for g in GL:
    pack([("%s(%s);" % (cl(g, n), a)) for n in NM for a in (AR if g in ("", "window.") and n in ("setTimeout", "execScript", "setImmediate") else AR[::6])], 40, pre=PRE + "declare const cbs: (() => void) | string; declare const sof: string | Function; declare function fof(): () => void; interface Foo {} declare const global: any; declare const setImmediate: any; declare const execScript: any;\n")
    pack([("new %s(%s);" % (cl(g, n), a)) for n in ("Function", "setTimeout") for a in ("'a'", "'a', 'b'", "", "str", "...arr")] + [("%s(%s);" % (cl(g, "Function"), a)) for a in ("'a'", "'a', 'b'", "")], 40, pre=PRE + "declare const global: any;\n")
pack(T("function q<i>(setTimeout: any, Function: any) { setTimeout('a'); new Function('a'); }", "import_('x');", "{ const setTimeout = (x: any) => x; setTimeout('a'); }", "{ class Function { constructor(x: string) {} } new Function('a'); }", "namespace N<i> { function setTimeout(x: string) {} setTimeout('a'); }", "window.foo.setTimeout('a');", "const { setTimeout: st } = window; st('a');", i=[1]), 7, pre=PRE + "declare function import_(x: string): void;\n")

# --- promise calls
PM = ["then", "catch", "finally", "Then", "all", "resolve", "reject", "allSettled", "race", "any"]
FNS = ["fn", "() => {}", "e => {}", "(e) => {}", "(e: any) => {}", "(e: unknown) => {}", "(e: Error) => {}", "function (e) {}", "(...e) => {}", "(...[e]) => {}", "({ e }) => {}", "([e]) => {}", "(e = 1) => {}", "(e, f) => {}", "async e => {}", "null", "undefined", "afn", "any", "str as any", "e => Promise.resolve(1)", "(...e: any[]) => {}", "(...e: [any]) => {}", "(...e: unknown[]) => {}", "(...e: [unknown]) => {}", "(this: void, e) => {}", "(e?) => {}", "((e) => {})", "hoc(e => {})", "handler", "handlerAny", "(e: any, f: any) => {}", "void 0", "async function (e) {}", "(e): void => {}", "<T>(e: T) => {}", "e => e", "...[fn]", "(e: string | any) => {}", "({ a }: any) => {}", "([a]: any) => {}", "(e: any = 1) => {}", "(e: never) => {}", "(e: {}) => {}", "undefined as any", "num > 1 ? (e => {}) : undefined"]
PRM = PRE + "declare function hoc<T>(x: T): T; declare const handler: (e: unknown) => void; declare const handlerAny: (e: any) => void; declare const thenable: { then(a: (x: number) => void, b?: (e: any) => void): void }; declare const mp: Promise<number> | undefined; declare const pu: Promise<number> | string; declare class MyP<T> extends Promise<T> {} declare const my: MyP<1>; declare const pany: Promise<any>; declare const fake: { catch(f: (e: any) => void): void; then(f: any, g?: any): void; finally(f: any): void };\n"
pack(T("<p>.<m>(<f>);", p=["prom", "fake", "my"], m=["then", "catch", "finally"], f=FNS), 40, pre=PRM)
pack(T("prom.then(fn, <f>);", "prom.then(undefined, <f>);", "prom?.catch(<f>);", "mp?.then(fn, <f>);", "prom['catch'](<f>);", "prom[`then`](fn, <f>);", "prom.then(...[fn], <f>);", "prom.then(fn, <f>, 1 as never);", "prom.catch<void>(<f>);", "(prom as any).catch(<f>);", "(mp!).catch(<f>);", f=FNS), 40, pre=PRM)
EXP = ["prom", "afn()", "my", "mp", "pu", "thenable", "pany", "Promise.resolve(1)", "Promise.reject(1)", "new Promise(() => {})", "[prom]", "arr.map(async () => 1)", "[prom, 1]", "(async () => {})()", "(async function () {})()", "afn", "import('x')", "prom.then(fn)", "prom.then(fn, fn)", "prom.catch(fn)", "prom.catch()", "prom.finally(fn)", "prom.finally()", "prom.then(fn).finally(fn)", "prom.catch(fn).finally(fn)", "prom.then(fn).catch(fn)", "prom.catch(null)", "prom.catch(undefined)", "prom.then(null, fn)", "prom.then(fn, undefined)", "prom.then(undefined)", "prom.catch(1 as any)", "Promise.all([prom])", "Promise.allSettled([prom])", "any", "prom as any", "prom!", "fake.then()", "tpl``", "prom.then().catch(fn).then()", "new Cls()", "obj.m()", "await prom", "void prom", "!prom", "prom && prom", "prom || fn()", "fn() || prom", "num > 1 ? prom : num", "num > 1 ? num : prom", "prom ?? num", "mp ?? num", "num, prom", "prom, num", "x_ = prom", "x_ ||= prom as any", "(prom)", "prom satisfies Promise<number>", "<Promise<number>>prom", "({ p: prom }).p", "[prom].length", "tupP", "roP", "setP", "mapP", "cond()", "gen()", "[afn()].forEach(async () => {})", "prom.then(async () => {})", "prom['catch'](fn)", "prom?.then(fn)", "prom?.catch(fn)", "(prom as Promise<number> | null)?.then()", "delete any.p", "typeof prom", "async () => prom", "() => prom", "`${prom}`", "prom == null", "any[prom as any]", "safe", "safe.then()", "super_", "new (class extends Promise<void> {})(() => {})", "(() => prom)()", "[[prom]]", "({ then() {} })", "({ then(a: any, b: any) {} })", "jq"]
PRE2 = PRM + "declare function tpl(x: any): Promise<1>; declare let x_: any; declare const tupP: [Promise<1>, 2]; declare const roP: readonly Promise<1>[]; declare const setP: Set<Promise<1>>; declare const mapP: { a: Promise<1> }; declare function cond(): Promise<1> | void; declare function gen<T extends Promise<1>>(): T; type Safe<T> = Promise<T> & { __s: 1 }; declare const safe: Safe<1>; declare const super_: Promise<Promise<1>>; interface JQ { then(a: (x: any) => any): JQ; then(a: () => void, b: () => void): JQ; catch(f: any): JQ } declare const jq: JQ;\n"
for o in ({}, dict(ignoreVoid=False), dict(ignoreIIFE=True), dict(checkThenables=True), dict(checkThenables=True, ignoreVoid=False, ignoreIIFE=True), dict(allowForKnownSafePromises=["Safe", "MyP"]), dict(allowForKnownSafeCalls=["tpl", "cond", "afn"])):
    pack(T("<e>;", e=EXP), 30, own=["no-floating-promises", o], pre=PRE2, wrap="async () => {\n%s\n};")
    pack(T("void (<e>);", "(<e>) as any;", "num > 1 && (<e>);", "{ 'use strict'; <e> }", e=EXP[::3]), 30, own=["no-floating-promises", o], pre=PRE2, wrap="async () => {\n%s\n};")
pack(T("await <e>;", "for await (const x of <e> as any) {}", "for await (const x of <e>) {}", "async () => { await using x = <e> as any; }", "Promise.all([<e>]);", "Promise.all(<e> as any);", "Promise.race([<e>, 1]);", e=EXP[:28] + ["num", "str", "null", "undefined", "unk", "fn", "obj", "arr", "new Set([prom])", "1", "(num as number | Promise<number>)", "(async function* () {})()", "(function* () {})()", "[1, 2]", "[prom]", "tupP", "roP"]), 20, pre=PRE2, wrap="async () => {\n%s\n};")
CTXP = """if (<e>) {}
while (<e>) { break; }
do { break; } while (<e>);
for (; <e>; ) { break; }
<e> ? 1 : 2;
!<e>;
<e> && 1;
<e> || 1;
1 && <e>;
<e> ?? 1;
if (<e> && num) {}
if (num || <e>) {}
if (!(<e>)) {}
arr.find(() => <e>);
arr.filter(async () => true);
arr.some(async x => true);
arr.every(() => <e>);
arr.findIndex(async x => true);
arr.findLast(async x => true);
arr.findLastIndex(async x => true);
arr.map(async x => true);
arr.forEach(async x => {});
arr.forEach(() => <e>);
arr.sort(async () => 1 as never);
cbv(() => <e>);
cbv(async () => {});
cbv(afn);
cbv(<e> as any);
cbu(async () => {});
cba(async () => {});
cbo({ f: async () => {} });
cbo({ f: () => <e> });
cbo({ async f() {} });
cbo({ f() { return <e>; } });
cbo({ f });
cbr(1, async () => {}, async () => {});
new CbV(async () => {});
const v: () => void = async () => {};
const v: () => void = () => <e>;
let v: () => void; v = async () => {};
const v: { f: () => void } = { f: async () => {} };
const v: { f(): void } = { async f() {} };
const v: { f?: () => void } = { f: async () => {} };
const v: [() => void] = [async () => {}];
const v: (() => void)[] = [async () => {}];
const v = (): (() => void) => async () => {};
function v(): () => void { return async () => {}; }
const v = <() => void>(async () => {});
const v = (async () => {}) as () => void;
const v = (async () => {}) satisfies () => void;
({ ...<e> });
const v = { ...<e> };
const v = { ...num > 1 && <e> };
const v = { ...num > 1 ? <e> : {} };
class V { f: () => void = async () => {}; }
class V extends Vo { async m() {} }
class V extends Vo { m = async () => {}; }
class V implements Vi { async m() {} }
class V implements Vi { m = async () => {}; }
interface V extends Vi { m(): Promise<void> }
class V extends Vo { static async m() {} }
class V extends Vo { get m() { return async () => {}; } }
class V extends Vo { override async m(): Promise<void> {} }
class V extends Vo { async ['m']() {} }
class V implements Vi { async ['m']() {} }
abstract class V extends Vo { abstract m(): Promise<void>; }
class V<T extends () => void> { m(x: T) {} } new V().m(async () => {});
cbg<() => void>(async () => {});
cbt`${async () => {}}`;
cbv?.(async () => {});
(cbv)(async () => {});
cbn(async () => {});
(function (f: () => void) {})(async () => {});
window.addEventListener('x', async () => {});
setTimeout(async () => {}, 1);
new Promise(async (r, j) => {});
new Promise<void>(async r => r());
[1].reduce(async () => 1 as never);
using_(async () => {});
switch (<e>) { case 1: }
x_ = <e> ? 1 : 2;
x_ = !<e>;
cbv(async function* () {} as any);
const { a = async () => {} }: { a?: () => void } = {};
function q(a: () => void = async () => {}) {}
for (const f of [async () => {}] as (() => void)[]) {}
cbv(num > 1 ? async () => {} : fn);
cbv((0, async () => {}));
cbv((async () => {})!);
cbv(any ?? (async () => {}));
cbv(any && (async () => {}));
cbv(function () { return <e>; });
cbv(function () { if (num) return; return <e>; });
cbv(() => { return <e>; });
cbv(() => void <e>);
cbv(() => <e> as any);
""".strip().split("\n")
PRE3 = PRE2 + "declare function cbv(f: () => void): void; declare function cbu(f: () => void | Promise<void>): void; declare function cba(f: () => any): void; declare function cbo(o: { f: () => void }): void; declare const f: () => Promise<void>; declare function cbr(n: number, ...fs: (() => void)[]): void; declare class CbV { constructor(f: () => void); } declare class Vo { m(): void; static m(): void } interface Vi { m(): void } declare function cbg<T>(x: T): void; declare function cbt(s: any, f: () => void): void; declare function cbn(f?: (() => void) | null): void; declare function using_(f: { (): void } | { (x: string): string }): void;\n"
for o in (None, dict(checksConditionals=False), dict(checksSpreads=False), dict(checksVoidReturn=False)) + tuple(dict(checksVoidReturn={k: False}) for k in ("arguments", "attributes", "inheritedMethods", "properties", "returns", "variables")):
    es = ["prom", "mp", "pu", "thenable", "any", "afn()", "afn", "num", "await prom", "[prom]", "(async () => {})()"] if o is None else ["prom", "mp"]
    pack([s.replace("<e>", e) for s in CTXP for e in es], 12, own=o and ["no-misused-promises", o], pre=PRE3, wrap="async () => {\n%s\n};")
for o in (dict(allowReturnAny=True), dict(allowReturnAny=False)):
    pack([s.replace("<e>", e) for s in CTXP for e in ("prom", "any", "num")], 12, own=["strict-void-return", o], pre=PRE3, wrap="async () => {\n%s\n};")
for name, os_ in (("no-confusing-void-expression", [dict(ignoreArrowShorthand=a, ignoreVoidOperator=b, ignoreVoidReturningFunctions=d) for a in (True, False) for b in (True, False) for d in (True, False)]), ("no-meaningless-void-operator", [dict(checkNever=True), dict(checkNever=False)])):
    for o in os_:
        pack([s.replace("<e>", e) for s in CTXP for e in ("fn()", "void fn()", "any", "nev()", "obj.m?.()")][::1 if name[3] == "m" else 2], 14, own=[name, o], pre=PRE3 + "declare function nev(): never;\n", wrap="async () => {\n%s\n};")
VCTX = """<e>;
(<e>);
return <e>;
return void <e>;
return (<e>);
const x = <e>;
let x; x = <e>;
fn(<e> as never);
num > 1 ? <e> : 1;
num > 1 ? <e> : <e>;
num && <e>;
<e> && num;
num || <e>;
<e> ?? 1;
<e>, 1;
1, <e>;
() => <e>;
() => (<e>);
() => void <e>;
(): void => <e>;
() => { return <e>; };
() => { <e>; };
() => { return <e>; num; };
if (num) { return <e>; }
if (num) return <e>;
if (num) { return <e>; } else { return; }
switch (num) { case 1: return <e>; }
try { return <e>; } catch {}
for (;;) { return <e>; }
void <e>;
!<e>;
typeof <e>;
`${<e>}`;
[<e>];
({ a: <e> });
({ ...<e> as any });
throw <e>;
await <e>;
<e> as any;
<e>!;
if (<e>) {}
new Cls(...[<e>] as []);
const f = (): (() => void) => () => <e>;
const f: () => void = () => <e>;
const f: () => void = () => { return <e>; };
const f: () => any = () => <e>;
const f: () => void | number = () => <e>;
const f = function (): void { return <e>; };
const f = function () { return <e>; };
class Q { m(): void { return <e>; } n() { return <e>; } x = <e>; y = () => <e>; get g() { return <e>; } }
function* q() { yield <e>; }
<e>?.toString;
any?.a(<e>);
fn2(() => <e>);
fn2(() => { return <e>; });
fn3(() => <e>);
fn4(() => <e>);
num > 1 && (num > 2 || <e>);
label: <e>;
""".strip().split("\n")
for o in [dict(ignoreArrowShorthand=a, ignoreVoidOperator=b, ignoreVoidReturningFunctions=d) for a in (True, False) for b in (True, False) for d in (True, False)]:
    pack([s.replace("<e>", e) for s in VCTX for e in ("fn()", "any.x", "nev()", "mv()", "obj.m()")], 8, own=["no-confusing-void-expression", o], pre=PRE + "declare function nev(): never; declare function mv(): void | undefined; declare function fn2(f: () => void): void; declare function fn3(f: () => unknown): void; declare function fn4<T>(f: () => T): void;\n", wrap="async function w() {\n%s\n}")
    
# --- return-await contexts
RA = """return <e>;
return await <e>;
return (<e>);
return num > 1 ? <e> : 1;
return num > 1 && <e>;
return num || await <e>;
return num, <e>;
return <e> as any;
return <e>!;
return await (<e>);
return num > 1 ? await <e> : <e>;
return (await <e>) ?? 1;
return async () => <e>;
const f = async () => <e>;
const f = async () => await <e>;
const f = async () => (await <e>);
const f = async () => num > 1 ? <e> : await <e>;
return void <e>;
return [<e>];
return await <e> + 1;
return <e> satisfies any;
return await <e>, num;
""".strip().split("\n")
RW = ["%s", "try { %s } catch {}", "try {} catch { %s }", "try {} catch { %s } finally {}", "try { %s } finally {}", "try {} finally { %s }", "try { try { %s } catch {} } finally {}", "try { try {} catch { %s } } catch {}", "try { try { } finally { %s } } catch {}", "try {} catch { try { %s } finally {} }", "try { if (num) { %s } } catch {}", "try { (async () => { %s })(); } catch {}", "using d = any; %s", "await using d = any; %s", "{ using d = any; } %s", "if (num) { using d = any; %s }", "for (using d of any) { %s }", "for await (using d of any) { %s }", "try { switch (num) { case 1: %s } } catch {}", "label: { %s }", "try { class Q { async m() { %s } } } catch {}", "using d = any; (async () => { %s })();", "try { for (;;) { %s } } catch (e) { throw e; }", "try {} catch { try {} catch { %s } }", "try {} finally { try { %s } catch {} }", "for (const x of arr) { %s }"]
for o in ("in-try-catch", "always", "never", "error-handling-correctness-only"):
    pack([w.replace("%s", s.replace("<e>", e)) for w in RW for s in RA[:6 if o != "in-try-catch" else 22] for e in ("prom", "num", "any", "afn()")][::1], 12, own=["return-await", o], wrap="async function w() {\n%s\n}")
    pack([s.replace("<e>", e) for s in RA for e in ("prom", "num", "any", "thenable", "unk", "mp", "new Promise(() => {})", "gen()")], 12, own=["return-await", o], pre=PRE2, wrap="async function w() {\n%s\n}")
# --- require-await, promise-function-async
BODY = ["", "return 1;", "return prom;", "await prom;", "for await (const x of any) {}", "await using x = any;", "using x = any;", "const f = async () => { await prom; };", "return any;", "return thenable;", "return num > 1 ? prom : 1;", "yield 1;", "yield prom;", "yield* any;", "yield* agen();", "yield* arr;", "return prom; await prom;", "throw err;", "return await prom;", "return Promise.resolve(1);", "return (prom);", "return prom as any;", "return;", "class Q { x = async () => { await prom; } }", "return new Promise(() => {});", "if (num) { return prom; } return prom;", "if (num) { return prom; } return 1;", "yield* gen2();", "yield* (agen as any)();", "for (const x of arr) { await x; }"]
HEAD = ["async function q() { <b> }", "const q = async () => { <b> };", "const q = async function () { <b> };", "class Q { async q() { <b> } }", "const q = { async q() { <b> } };", "async function* q() { <b> }", "class Q { async *q() { <b> } }", "class Q { static async q() { <b> } }", "class Q { async 'a b'() { <b> } }", "class Q { async [str]() { <b> } }", "class Q { async #q() { <b> } }", "export default async function () { <b> }", "class Q { x = async () => { <b> }; }", "class Q { x = 1\n async q() { <b> } }", "const q = { a, async q() { <b> } };", "async function q(this: any) { <b> }", "(async () => { <b> })();", "num\nasync () => { <b> };", "class Q { private async q() { <b> } }", "class Q { public static override async q() { <b> } }", "async function q(): Promise<any> { <b> }", "class Q { async q?() { <b> } }", "const q = async <T,>(x: T) => { <b> };", "foo(async () => { <b> }); declare function foo(x: any): void;", "class Q { async\nq() { <b> } }", "class Q { @any async q() { <b> } }"]
pack([h.replace("<b>", b) for h in HEAD for b in BODY], 6, pre=PRM + "declare const a: any; declare function agen(): AsyncGenerator<number>; declare function gen2(): Generator<number>;\n", wrap="%s" if False else "() => {\n%s\n};")
pack(["const q = async () => %s;" % e for e in EXP[:60]] + ["const q = () => %s;" % e for e in EXP], 20, pre=PRE2)
NA = [h.replace("async ", "").replace("async\n", "") for h in HEAD]
for o in ({}, dict(checkArrowFunctions=False), dict(checkFunctionDeclarations=False), dict(checkFunctionExpressions=False), dict(checkMethodDeclarations=False), dict(allowAny=False), dict(allowedPromiseNames=["MyP"])):
    pack([h.replace("<b>", b) for h in NA for b in ("return prom;", "return any;", "return my;", "return unk;", "if (num) return prom; return 1;", "return mp;")], 8, own=["promise-function-async", o], pre=PRM + "declare const a: any;\n", wrap="() => {\n%s\n};")

# --- throwing and rejecting
TH = ["err", "new Error()", "any", "unk", "str", "num", "'a'", "1", "null", "undefined", "obj", "{}", "new Cls()", "new (class extends Error {})()", "Error()", "Error", "fn()", "(err as Error | string)", "(err as Error | undefined)", "err!", "err ?? 'x'", "err || 'x'", "err && 'x'", "'x' && err", "num > 1 ? err : 'x'", "num > 1 ? err : err", "(1, err)", "(err, 1)", "x_ = err", "x_ += 'a'", "x_ ??= err", "x_ ||= err", "await prom", "await Promise.reject(err)", "`t`", "[err]", "sym", "big", "() => err", "err as unknown", "err as any", "err as never", "ne", "new TypeError()", "new DOMException()", "new AggregateError([])", "tt", "errLike", "ro", "typeof err", "!err", "delete any.a", "err.message", "err.cause", "any?.x", "err satisfies Error", "<Error>err", "function () {}", "class {}", "e1", "new Promise(() => {})", "(err as Readonly<Error>)", "Object.create(null)", "arguments[0]", "this", "yield_"]
THP = PRE + "declare let x_: any; declare const ne: never; declare const tt: Error & { x: 1 }; interface EL { name: string; message: string; stack?: string } declare const errLike: EL; declare const ro: Readonly<Error>; class E1 extends TypeError { x = 1 } declare const e1: E1; declare const yield_: ReadonlyArray<Error>;\n"
for o in ({}, dict(allowThrowingAny=False, allowThrowingUnknown=False), dict(allowThrowingAny=True, allowThrowingUnknown=True), dict(allow=["EL", "Cls"]), dict(allowThrowingAny=False, allowThrowingUnknown=False, allowRethrowing=False), dict(allowRethrowing=True, allowThrowingUnknown=False, allowThrowingAny=False)):
    pack(T("if (num) throw <e>;", e=[e for e in TH if e != "{}"] + ["({})"]), 20, own=["only-throw-error", o], pre=THP, wrap="async function w(this: any) {\n%s\n}")
    RT = ["try {} catch (e) { throw e; }", "try {} catch (e) { throw (e); }", "try {} catch (e) { throw e as any; }", "try {} catch (e) { if (num) { throw e; } }", "try {} catch (e) { () => { throw e; }; }", "try {} catch (e) { e = 1; throw e; }", "try {} catch (e) { let f = e; throw f; }", "try {} catch (e) { { const e = 'x' as any; throw e; } }", "try {} catch ({ e }) { throw e; }", "try {} catch (e: unknown) { throw e; }", "try {} catch (e: any) { throw e!; }", "let e: any; try {} catch { throw e; }", "try {} catch (e) { try {} catch { throw e; } }", "try {} catch (e) { try {} catch (e) { throw e; } }"] + \
        T("<p>.<m>(<a><f> => { throw <v>; });", p=["prom", "any", "fake", "mp?", "my"], m=["catch", "then", "finally"], a=["", "fn, ", "undefined, ", "...[fn], ", "fn, fn, "], f=["e", "(e)", "(e: any)", "(e: unknown)", "(e, f)", "(f, e)", "(...e)", "({ e })", "async e"], v=["e"])[::2] + \
        ["prom.catch(function (e) { throw e; });", "prom.catch(e => { if (num) { throw e; } });", "prom.catch(e => { () => { throw e; }; });", "prom['catch'](e => { throw e; });", "prom[`then`](fn, e => { throw e; });", "prom.catch((e => { throw e; }));", "prom.catch(hoc(e => { throw e; }));", "prom.catch((e: any = 1) => { throw e; });", "prom?.catch((e: any) => { throw e; });", "const f = (e: any) => { throw e; }; prom.catch(f);", "prom.catch<never>(e => { throw e; });", "new Promise((_, e: any) => { throw e; });", "prom.catch(e => { e = 1; throw e; });", "prom.catch(e => { throw e!; });", "prom.catch(e => { throw (e as any); });"]
    pack(RT, 15, own=["only-throw-error", o], pre=PRM, wrap="async function w() {\n%s\n}")
for o in ({}, dict(allowEmptyReject=True), dict(allowThrowingAny=True), dict(allowThrowingUnknown=True)):
    pack(T("Promise.reject(<e>);", "new Promise((resolve, reject) => reject(<e>));", e=[e for e in TH if e not in ("arguments[0]", "this")] + [""]), 30, own=["prefer-promise-reject-errors", o], pre=THP, wrap="async function w(this: any) {\n%s\n}")
    pack(["Promise.reject();", "Promise?.reject(1);", "Promise.reject?.(1);", "Promise['reject'](1);", "Promise[`reject`](1);", "(Promise).reject(1);", "Promise.resolve(1);", "MyP.reject(1);", "class P2 extends Promise<1> { static m() { this.reject(1); super.reject(1); } }", "const P = Promise; P.reject(1);", "any.reject(1);", "new Promise(function (a, b) { b(1); });", "new Promise((a, b) => { b(1); b(err); a(1); });", "new Promise((a, { b }: any) => b(1));", "new Promise((a, ...b) => b[0](1));", "new Promise((...[a, b]) => b(1));", "new Promise((a, b = 1 as any) => b(1));", "new Promise(fn);", "new Promise((a, b) => { const c = b; c(1); });", "new Promise((a, b) => { setTimeout(() => b(1)); });", "new Promise((a, b) => { { const b = (x: any) => x; b(1); } });", "new Promise((a, b) => b?.(1));", "new Promise((a, b) => b!(1));", "new Promise((a, b) => b.call(null, 1));", "new MyP((a, b) => b(1));", "new Promise((a, b) => b(...[1]));", "new Promise((a, b) => a(b(1)));", "new any((a: any, b: any) => b(1));", "new Promise(async (a, b) => { b(1); });", "new Promise((a, b) => { b(); });", "new Promise((a, b) => prom.catch(b));", "new Promise<void>((a, b) => b('x'));", "new Promise((a, b) => { b(a); });", "Promise.reject(1, 2 as never);", "new Promise((a, b) => b`x` as never);", "new Promise((b) => b(1));", "const { reject } = Promise; reject(1);", "Promise.withResolvers().reject(1);", "new (Promise)((a, b) => b(1));", "new Promise((a, b) => { function b2() { b(1); } b2(); });"], 10, own=["prefer-promise-reject-errors", o], pre=PRM, wrap="async function w() {\n%s\n}")

# --- type keyword matrices
TY = ["string", "number", "boolean", "bigint", "symbol", "any", "unknown", "never", "void", "null", "undefined", "object", "'a'", "1", "1n", "-1", "-1n", "true", "false", "`a${string}`", "`a`", "E", "E.A", "S", "S.A", "Obj", "string[]", "Function", "unique symbol" if False else "typeof sym2", "{}", "{ a: 1 }", "Missing", "AliasAny", "AliasStr", "AliasUnion", "AliasNever", "(string)", "keyof Obj", "Obj['a']", "readonly string[]", "() => void", "this_", "Array<string>", "`a${number}`", "Uppercase<'a'>", "1.5", "0x1", "\"a\"", "Promise<any>"]
TP = PRE + "declare const sym2: unique symbol; type AliasAny = any; type AliasStr = string; type AliasUnion = 'a' | 1; type AliasNever = never; type this_ = { z: 1 };\n"
par = lambda t: "(%s)" % t if "=>" in t else t
pack(T("type Q = <a> | <b>;", "type Q = <a> & <b>;", a=[par(t) for t in TY], b=[par(t) for t in TY]), 60, pre=TP, wrap="function w() {\n%s\n}")
pack(T("type Q = <a> | <b> | <c>;", "type Q = <a> & <b> & <c>;", "type Q = (<a> | <b>) & <c>;", "type Q = <a> | (<b> & <c>);", "function q(x?: <a> | <b>): <c> | <a> {}", "const x: Array<<a> | <b>> = [];", a=[par(t) for t in TY[::3]], b=[par(t) for t in TY[1::5]], c=[par(t) for t in TY[::6]]), 60, pre=TP, wrap="function w() {\n%s\n}")
for o in (dict(ignoreIntersections=True), dict(ignoreUnions=True)):
    pack(T("type Q = <a> | <a>;", "type Q = <a> & <a>;", "function q(x?: <a> | undefined) {}", "type Q = <a> | string | (<a>);", "interface Q { x?: <a> | undefined; y?(z?: undefined | <a>): void }", a=[par(t) for t in TY]), 40, own=["no-duplicate-type-constituents", o], pre=TP, wrap="function w() {\n%s\n}")
DUP = ["{ a: 1 }", "{ a: string; b?: number }", "() => void", "(a: string) => number", "new () => Cls", "[string, number]", "[a: string, b?: number]", "{ [k: string]: 1 }", "{ [K in 'a']: 1 }", "keyof Obj", "typeof obj", "Obj['a']", "Array<string>", "string[]", "Map<string, Obj>", "import('x').Y", "`a${string}`", "-1", "readonly string[]", "Promise<string | number>", "T extends string ? 1 : 2", "(string)", "infer_", "Obj & Cls", "{ m(): void }", "{ get a(): 1 }", "abstract new () => void", "asserts_", "unique_", "typeof import('y')", "this_", "Record<'a', 1>", "[...string[]]", "A.B", "E.A"]
pack(T("type Q<T> = <a> | <b>;", "type Q<T> = (<a>) & (<b>);", "type Q<T> = <a> | 1 | <b>;", a=DUP, b=DUP[::4])[:2000] + ["type Q<T> = (%s) | (%s);" % (a, a) for a in DUP] + ["type Q<T> = (%s) | 'z' | (%s);" % (a, a) for a in DUP], 40, pre=TP, wrap="function w() {\n%s\n}")

# --- values of every type in operators
VAL = ["any", "unk", "str", "num", "big", "bool", "sym", "obj", "arr", "nums", "mstr", "mnum", "prom", "fn", "re", "tup", "err", "null", "undefined", "'a'", "1", "1n", "true", "`a`", "E.A", "S.A", "en", "sn", "({})", "[]", "(() => 1)", "new Date()", "new Cls()", "nev", "tv", "(str as string | number)", "(num as number | bigint)", "(any as null | any)", "bstr", "bnum", "(str as 'a' | 'b')", "(num as 1 | 2)", "new Map()", "new Set()", "Symbol.iterator", "new URL('x')", "globalThis", "Cls", "Math", "E", "(any as object)", "(any as { toString(): string })", "(any as {})", "(any as [1, 'a'])", "(any as string[][])", "(any as Error | string)", "(any as bigint | string)", "(any as void)", "(any as unknown[])", "(any as any[])", "(any as RegExp | null)", "(any as Record<string, 1>)", "(any as readonly string[])", "(any as -1)", "(any as boolean | string)", "(any as T1)", "tn", "ts", "(any as String)", "(any as Number)", "(any as BigInt)"]
VP = PRE + "declare const en: E; declare const sn: S; declare const nev: never; declare const bstr: string & { __b: 1 }; declare const bnum: number & { __b: 1 }; interface T1 { toString(x?: number): string }\n"
VW = "function w<T, TN extends number, TS extends string>(tv: T, tn: TN, ts: TS) {\n%s\n}"
for o in [None] + [{k: v} for k in ("allowAny", "allowBoolean", "allowNullish", "allowNumberAndString", "allowRegExp", "skipCompoundAssignments") for v in (True, False)]:
    vs = VAL if o is None else VAL[:44]
    pack(T("<a> + <b>;", a=vs, b=vs if o is None else ["str", "num", "big", "any"]) + T("{ let l = <a>; l += <b>; }", a=vs, b=["str", "num"]), 60, own=o and ["restrict-plus-operands", o], pre=VP, wrap=VW)
for o in [None] + [{k: v} for k in ("allowAny", "allowBoolean", "allowNullish", "allowNumber", "allowRegExp", "allowNever", "allowArray") for v in (True, False)] + [dict(allow=["Error", dict(name="URL", **{"from": "lib"})]), dict(allow=[])]:
    pack(T("`<d>{<a>}`;", "`x<d>{<a>}<d>{num}`;", "`<d>{[<a>]}`;", "tag`<d>{<a>}`;", d=["$"], a=VAL), 60, own=o and ["restrict-template-expressions", o], pre=VP + "declare function tag(...x: any[]): void;\n", wrap=VW)
for o in (None, dict(ignoredTypeNames=["Cls", "Error"]), dict(ignoredTypeNames=[]), dict(checkUnknown=True)):
    pack(T("<a>.toString();", "String(<a>);", "<a>.toLocaleString();", "`<d>{<a>}`;", "<a> + '';", "'' + <a>;", "[<a>].join(',');", "[<a>, <a>].toString();", "''.concat(<a> as never);", "{ let l = ''; l += <a>; }", "String([<a>]);", "<a>?.toString();", "<a>['toString']();", "new String(<a>);", "window.String(<a>);", "any[<a> as never];", "<a>.toString;", "<a>.toString?.();", "tag`<d>{<a>}`;", "'' == <a>;", "(<a> as unknown as [typeof tup]).join();", d=["$"], a=VAL), 60, own=o and ["no-base-to-string", o], pre=VP + "declare function tag(...x: any[]): void;\n", wrap=VW)
pack(T("-<a>;", "+<a>;", "~<a>;", "!<a>;", "-(<a>);", "- -<a>;", "void <a>;", "delete any[<a>];", "<a>!;", "<a> as any;", "<a> as unknown;", "<a> as string;", "<a> as never;", "<a> as typeof <a>;", "<any><a>;", "<a> as const;", "<a> satisfies unknown;", "<a> as object;", "<a> as {};", "<a> as string | number;", "<a> as Obj;", "<a> as any[];", "<a> as Function;", a=VAL), 60, pre=VP, wrap=VW)
for o in (None, dict(checkLiteralConstAssertions=True), dict(typesToIgnore=["string", "any", "never"])):
    pack(T("<a>!;", "<a>! + '';", "<a> as typeof <a>;", "const c = <a> as const;", "let c = <a> as const;", "const c = <a> as string;", "any = <a>!;", "any(<a>!);", "take(<a>!);", "take(<a> as string);", "take(<a> as string | number);", "const c: string = <a>!;", "const c: unknown = <a> as any;", "<a>!!;", "(<a>)!;", "<a>!.toString();", "<a> as NonNullable<typeof <a>>;", "<a>! as string;", "const { x = <a>! } = any;", "[<a>!];", "({ a: <a>! });", "`<d>{<a>!}`;", "return <a>!;", "<a>! && 1;", d=["$"], a=VAL[:40]), 40, own=o and ["no-unnecessary-type-assertion", o], pre=VP + "declare function take(x: string | undefined): void;\n", wrap=VW)
CMP = ["===", "!==", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "??", "in", "instanceof", "&", "|", "**", "%", "-"]
EV = ["en", "sn", "E.A", "S.A", "num", "str", "0", "'a'", "any", "unk", "null", "undefined", "E2.A", "(en as E | null)", "(en as E | string)", "(en as E | E2)", "big", "5", "E['A']", "(1 as number)", "bool", "(en as E & { x: 1 })", "tn", "E.B", "(sn as S | undefined)", "F.A", "F.A | F.B", "CE.X"]
pack(T("<a> <o> <b>;", a=EV, b=EV, o=CMP[:8]), 80, pre=VP + "enum E2 { A, B } enum F { A = 1, B = 2 } declare const enum CE { X = 1 }\n", wrap=VW)
pack(T("switch (<a>) { case <b>: break; case <c>: break; }", a=EV[:16], b=EV[:14], c=EV[2:8:2]), 40, pre=VP + "enum E2 { A, B } enum F { A = 1, B = 2 }\n", wrap=VW)
BV = ["bool", "true", "false", "(bool as boolean | undefined)", "(bool as boolean | null)", "(bool as true | undefined)", "(bool as true)", "any", "num", "str", "!bool", "(bool)", "tb", "(num > 1)", "fnb()", "unk", "(bool as boolean | string)", "bool!", "obj?.b === 1"]
for o in (None, dict(allowComparingNullableBooleansToTrue=False), dict(allowComparingNullableBooleansToFalse=False), dict(allowComparingNullableBooleansToTrue=False, allowComparingNullableBooleansToFalse=False)):
    pack(T("<a> <o> <b>;", "<b> <o> <a>;", "!(<a> <o> <b>);", "if (!(<a> <o> <b>)) {}", "if (<a> <o> <b>) {}", "const x = <a> <o> <b>;", "(<a>) <o> (<b>);", "!!(<a> <o> <b>);", "typeof (<a> <o> <b>);", "(<a> <o> <b>) && bool;", "num > 1 && <a> <o> <b>;", "`$<d>{<a> <o> <b>}`;", "/* a */ <a> /* b */ <o> /* c */ <b> /* d */;", "!/* x */(/* y */ <a> <o> <b> /* z */);", "(<a> <o> <b>).toString();", "return <a> <o> <b>;", "!!!(<a> <o> <b>);", d=[""], a=BV, b=["true", "false"], o=CMP[:4]), 60, own=o and ["no-unnecessary-boolean-literal-compare", o], pre=VP + "declare function fnb(): boolean;\n", wrap="function w<TB extends boolean>(tb: TB) {\n%s\n}")

# --- conversions
CONV = ["String(<a>)", "<a>.toString()", "'' + <a>", "<a> + ''", "Number(<a>)", "+<a>", "~~<a>", "!!<a>", "Boolean(<a>)", "BigInt(<a>)", "`$<d>{<a>}`", "new String(<a>)", "String?.(<a>)", "String(<a>, 1)", "Number()", "-(-<a>)", "<a> * 1", "<a> | 0", "window.String(<a>)", "!(!<a>)", "!!!<a>", "+(+<a>)", "\"\" + <a>", "`` + <a>", "<a>.toString(10)", "<a>['toString']()", "<a>?.toString()", "x_ += ''", "<a>.valueOf()", "Object(<a>)", "BigInt.asIntN(1, <a>)", "Number(...[<a>])"]
CCTX = ["<e>;", "const x = <e>;", "const x = <e>.length;", "const x = (<e>)['length'];", "fn(<e> as never);", "-(<e>);", "typeof <e>;", "<e> + 'x';", "'x' + <e>;", "<e> ? 1 : 2;", "num > 1 ? <e> : 1;", "() => <e>;", "() => { return <e>; };", "[<e>];", "({ a: <e> });", "({ [<e> as never]: 1 });", "<e> as any;", "(<e>)!;", "await <e>;", "async () => await <e>;", "if (<e>) {}", "<e> === str;", "x_[<e> as never];", "x_ = <e>;", "<e>, 1;", "x_(...<e> as any);", "function* q() { yield <e>; }", "new x_(<e>);", "throw <e>;", "switch (<e>) { case str: }", "`$<d>{<e>}`;", "<e> && 1;", "1 ** +(<e>);", "x_`a`[<e> as never];", "class Q { x = <e>; }", "class Q extends (<e> as any) {}", "const { x = <e> } = x_;", "for (const q of <e> as any) {}", "delete x_[<e> as never];", "void <e>;", "(<e>)();", "return <e>"]
pack([c.replace("<e>", e.replace("<a>", a)).replace("<d>", "") for c in CCTX[:1] for e in CONV for a in VAL[:44]], 60, pre=VP + "declare let x_: any;\n", wrap=VW)
pack([c.replace("<e>", e.replace("<a>", a)).replace("<d>", "") for c in CCTX for e in CONV[:12] for a in (["str", "num", "bool", "big", "(str as string)", "str || 'a'", "num++", "num + 1", "'a'", "fnn()", "{ a: 1 }.a", "await prom", "x => x", "-num", "num as number"])][::2], 30, pre=VP + "declare let x_: any; declare function fnn(): number;\n", wrap="async function w() {\n%s\n}")

# --- arrays and members
ARRV = ["arr", "nums", "tup", "any", "obj", "(arr as readonly string[])", "(arr as string[] | undefined)!", "(arr as string[] | Obj)", "(any as any[])", "str", "new Uint8Array()", "ta", "({} as string[] & { x: 1 })", "arguments", "({} as ArrayLike<1>)", "re.exec('')", "re.exec('')!", "({} as RegExpExecArray | null)", "obj.r", "obj?.r", "new Set()", "({} as [1] | [2])", "({} as { length: number; [i: number]: string })", "({} as Record<number, 1>)", "({} as NodeListOf<Element>)", "Object.keys(obj)", "[1, 2]", "({} as string[][])[0]", "null", "unk as string[]", "({} as Map<1, 2>)", "({} as T2)", "({} as (string | number)[])", "({} as ('a' | 'b')[])", "({} as bigint[])", "({} as unknown[])", "({} as never[])", "({} as (string | undefined)[])", "({} as Date[])", "({} as E[])"]
AP = PRE + "interface T2 extends Array<string> { q: 1 }\n"
AW = "function w<TA extends string[]>(ta: TA) {\n%s\n}"
pack(T("delete <a>[0];", "delete <a>[num];", "delete <a>['0'];", "delete <a>?.[0];", "delete (<a>[0]);", "delete <a>[0]!;", "delete <a>['length' as never];", "delete <a>[0 as never];", "delete <a>[(num)];", "delete <a>[num, 1];", "delete (<a> as any)[0];", "for (const k in <a>) {}", "for (const k in (<a>)) {}", "for (const k of <a> as any) {}", "for (let k in <a>) { break; }", "for (any.x in <a>) {}", "<a>.sort();", "<a>.toSorted();", "<a>?.sort();", "<a>['sort']();", "<a>.sort(undefined);", "<a>.sort((a: any, b: any) => 1);", "<a>.sort?.();", "<a>.sort;", "<a>.sort(...[]);", "<a>.Sort();", "<a>[`sort`]();", "<a>.toSorted?.();", "{ let s = 'sort' as const; <a>[s](); }", "({ ...<a> });", "[...<a> as never];", "fn2(...<a>);", "new Cls2(...<a>);", "fn3(...<a> as []);", a=ARRV), 50, pre=AP + "declare function fn2(...x: any[]): void; declare class Cls2 { constructor(...x: any[]); } declare function fn3(): void;\n", wrap=AW)
for o in (dict(ignoreStringArrays=True), dict(ignoreStringArrays=False)):
    pack(T("<a>.sort();", "<a>.toSorted();", "<a>?.sort();", a=ARRV), 40, own=["require-array-sort-compare", o], pre=AP, wrap=AW)
pack(T("<a>.reduce((x: any, y: any) => x, {} as <t>);", "<a>.reduce((x: any, y: any) => x, <<t>>{});", "<a>.reduce<<t>>((x: any, y: any) => x, {} as <t>);", "<a>['reduce']((x: any, y: any) => x, [] as <t>);", "<a>.reduce((x: any, y: any) => x, null as <t>);", "<a>?.reduce((x: any, y: any) => x, ({} as <t>));", "<a>.reduceRight((x: any, y: any) => x, {} as <t>);", "<a>.reduce(fn as any, {} as <t>, 1 as never);", "<a>.reduce(...([fn] as any), {} as <t>);", "<a>.reduce((x: any, y: any) => x, '' as <t>);", "<a>.reduce((x: any, y: any) => x, {} as <t> as <t>);", "<a>.reduce((x: any, y: any) => x, str as <t>);", a=ARRV[:14], t=["Obj", "any", "string", "{ a: 1 }", "Record<string, number>", "string[]", "const" if False else "unknown", "number | string"]), 40, pre=AP, wrap=AW)
SP = ["any", "obj", "arr", "str", "num", "null", "undefined", "prom", "fn", "new Map()", "new Set()", "new Cls()", "Cls", "tup", "mp1", "(function* () {})()", "new Date()", "'a'", "unk", "mstr", "(obj as Obj | string)", "(prom as Promise<1> | Obj)", "E", "ro", "new WeakMap()", "ta", "({} as Cls | null)", "afn", "() => 1", "class {}", "new (class { x = 1 })()", "({} as Iterable<1>)", "({} as Function)", "({} as ReadonlyMap<1, 2>)", "({} as string[] | undefined)", "bool && obj", "bool && arr", "`t`", "re", "err", "new Proxy(obj, {})", "({} as { (): void; x: 1 })", "Object.assign(() => 1, { x: 1 })", "document.all", "sym", "big", "new Array()", "new String('')", "({} as ReturnType<typeof JSON.parse>)"]
for o in (None, dict(allow=["Cls", "Map", "string", "Promise"]), dict(allow=[dict(name="Map", **{"from": "lib"}), dict(name=["Set", "Array"], **{"from": "lib"})])):
    pack(T("({ ...<a> });", "[...<a> as never];", "[...<a>];", "fn2(...<a>);", "new Map([...<a>]);", "({ x: 1, ...(<a>) });", "({ ...(<a>)! });", "({ ...num > 1 ? <a> : {} });", "({ ...num > 1 && <a> });", "({ ...await (<a>) });", "Object.assign({}, <a>);", "({ ...(<a> as any) });", a=SP), 40, own=o and ["no-misused-spread", o], pre=PRE + "declare function fn2(...x: any[]): void; declare const mp1: Map<1, 2>; declare const ro: readonly string[];\n", wrap="async function w<TA extends string[]>(ta: TA) {\n%s\n}")
pack(T("<x 0>" if False else "const q = <div {...<a>} />;", a=[s for s in SP if "<" not in s]), 20, name="react.tsx", pre=PRE + "declare const mp1: Map<string, number>; declare const ro: readonly string[]; declare const ta: string[]; declare namespace JSX { interface IntrinsicElements { div: any } }\n")

# --- enums
MI = ["", " = 1", " = 'a'", " = `a`", " = -1", " = +1", " = 1 + 1", " = 1 << 2", " = 'a' + 'b'", " = `a$<d>{1}`", " = E.A", " = S.A", " = num", " = str", " = 'a'.length", " = ~1", " = (1)", " = ('a')", " = null as any", " = E['A']", " = x", " = CN", " = CS", " = 1n as any", " = true as any", " = Math.random()", " = NaN", " = 'a' as any", " = -'a'", " = Other.Z"]
pack([("enum Q { A%s, B%s, C%s }" % (a, b, c2)).replace("<d>", "") for a in MI for b in MI for c2 in ("", " = 'z'")], 30, pre=PRE + "const CN = 3; const CS = 's'; declare enum Other { Z }\n", wrap="namespace NQ {\n%s\n}")
pack(["enum Q { %s } enum Q { %s }" % (a, b) for a in ("A", "A = 1", "A = 'a'", "", "A = num as any") for b in ("B = 2", "B = 'b'", "B", "")] + ["enum Q { %s } namespace Q { export const z = 1; } enum Q { %s }" % (a, b) for a in ("A", "A = 'a'", "") for b in ("B = 2", "B = 'b'")] + ["declare enum Q { A%s } declare enum Q { B%s }" % (a, b) for a in ("", " = 'a'", " = 1") for b in ("", " = 'b'", " = 2")] + ["const enum Q { A%s, B%s }" % (a, b) for a in ("", " = 'a'", " = 1") for b in (" = 1", " = 'b'", " = 2")], 1, wrap="%s")

# --- names and lookups in types
SW = ["'a' | 'b'", "boolean", "E", "S", "'a' | undefined", "1 | 2 | 3", "string", "number", "'a' | string", "any", "unknown", "never", "null | undefined", "boolean | null", "'a'", "E | 'x'", "{ k: 'a' } | { k: 'b' }", "bigint", "1n | 2n", "typeof s1 | typeof s2", "'a' | 1", "`x${string}`", "'a' | `x${number}`", "E.A", "undefined", "true", "'a' & { b: 1 }", "('a' & { b: 1 }) | 'b'", "TS1", "'a-b' | \"c'd\"", "'a' | null", "keyof Obj", "symbol", "void", "object | 'a'", "'' | 0", "Obj", "readonly string[]", "number | 'a'", "1 | -1", "0.5 | 1e3", "'\\n' | 'a\\\\'"]
CS = ["", "case 'a' as any: break;", "default:", "case 'a' as any: default: break;", "case 1 as any: case 2 as any: break; case 3 as any:", "case E.A as any: break;", "case E.A as any: case E.B as any:", "case true as any:", "case undefined as any: break;", "case null as any:", "case 'b' as any: // no default", "// no default", "/* skip default */", "case 'a' as any: break;\n// No Default", "case 'a' as any: break; // some", "case x: break;", "case (x): default: never(x);", "case 'a': case 'b': break;", "case E.A: case E.B: break;", "case S.A: break;", "case true: case false:", "case undefined: case 'a':", "case 1: case 2: case 3:", "case s1: case s2:", "case 1n:", "default: throw 1;", "case 'a': break; default: // skip"]
for o in (None, dict(allowDefaultCaseForExhaustiveSwitch=False), dict(requireDefaultForNonUnion=True), dict(considerDefaultExhaustiveForUnions=True), dict(allowDefaultCaseForExhaustiveSwitch=False, considerDefaultExhaustiveForUnions=True, requireDefaultForNonUnion=True), dict(defaultCaseCommentPattern="^skip\\s*default"), dict(defaultCaseCommentPattern="skip")):
    pack(["{ const x = any as %s; switch (x as typeof x) { %s\n} }" % (t, cs) for t in SW for cs in CS][::1 if o is None else 2], 20, own=o and ["switch-exhaustiveness-check", o], pre=PRE + "declare const s1: unique symbol; declare const s2: unique symbol; declare function never(x: never): never;\n", wrap="function w<TS1 extends 'a' | 'b'>() {\n%s\n}")
NQ = "namespace A { export type T = 1; export interface I {} export class C {} export const v = 1; export function f() {} export enum En { X, Y = En.X } export namespace B { export type T2 = A.T; export const w = A.v; export class D extends A.C implements A.I {} %s } %s } namespace A.B.Deep { export type Z = A.B.T2; %s } enum Q { A1, B1 = Q.A1, C1 = Q['A1'], %s }"
NS = ["let x: A.T;", "let x: A.B.T2;", "let x: B.T2;", "const y = A.v;", "const y = A.B.w;", "A.f();", "A.B;", "let v: typeof A.v;", "type T = 2; let x: A.T;", "const v = 2; A.v;", "class C {} new A.C();", "let x: A.En.X;", "A.En.X;", "let x: A.B.D;", "class Z extends A.C {}", "class Z2 implements A.I {}", "export { A };", "export import AA = A.B;", "import BB = A.B; let q: BB.T2;", "let x: import('x').A;", "A['v'];", "A?.v;", "(A).v;", "A!.v;", "function f2(A: any) { A.v; }", "{ let A = { v: 1 }; A.v; }", "let x: Array<A.T>;", "let x: A.T | A.I;", "let k: keyof typeof A.B;", "A.B.Deep;", "let z: A.B.Deep.Z;", "x_ = A.v as A.T;"]
pack([NQ % (s if p == 0 else "", s if p == 1 else "", s if p == 2 else "", "") for s in NS for p in range(3)] + [NQ % ("", "", "", "D1 = %s" % s) for s in ("Q.A1 | Q.B1", "A1", "Q.A1 + 1", "(Q.A1)", "Q['A1'] | 1", "A.En.X", "-Q.A1", "+Q.B1")] + [NQ % ("", "", "", "") + "\nnamespace Other { %s }\n%s" % (s, s) for s in NS], 1, wrap="%s", pre="declare let x_: any;\n")

# --- literals in templates
LT = ["'a'", "\"a\"", "`a`", "1", "1n", "true", "null", "undefined", "NaN", "Infinity", "''", "'`'", "'${'", "'$'", "'{'", "'\\\\'", "'\\''", "'\\n'", "\"\\\"\"", "'\\u0041'", "'\\`'", "`a${num}`", "`${num}`", "str", "num", "(str)", "'a' as const", "-1", "0x10", "1e3", "1_000", "0.1", "/r/", "[1]", "{}.a", "'\\0'", "'$' + ''", "'é😀'", "'\\${'", "`\\``", "`$`", "'a\\\nb'", "0b11", "0o17", "010", ".5", "5.", "1e21", "0xffn", "'</script>'", "'\\x41'", "' '", "'  '", "'\\t'", "E.A", "S.A", "obj.a", "any", "ts", "tn", "bool", "mstr", "str!", "str as string", "tag`x`", "'a', 'b'", "num > 1 ? 'a' : 'b'", "function () {}", "sn", "(str as 'x')", "(num as 1)", "str + 'a'", "/* c */ 'a'", "'a' /* c */", "\n'a'\n", "// c\n'a'\n", "`/* c */`"]
pack([t.replace("<a>", a) for t in ("`${<a>}`;", "`x${<a>}`;", "`${<a>}x`;", "`${<a>}${num}`;", "`$${<a>}`;", "`\\$${<a>}`;", "`${<a>}{`;", "`${<a>}${<a>}`;", "tag`${<a>}`;", "`\n${<a>}\n`;", "`${<a>} `;", "type Q = `${typeof str}`;", "`$${num}${<a>}{x`;", "`${(<a>)}`;") for a in LT], 24, pre=PRE + "declare function tag(...x: any[]): string; declare const sn: S;\n", wrap="function w<TS extends string, TN extends number>(ts: TS, tn: TN) {\n%s\n}")
LTT = ["'a'", "1", "string", "number", "'`'", "'${'", "`a`", "`a${string}`", "true", "null", "undefined", "T", "U", "E", "'a' | 'b'", "keyof Obj", "'a' & string", "any", "bigint", "1n", "-1", "('a')", "Uppercase<'a'>", "S.A", "never", "AliasStr", "'\\n'", "infer_", "Obj['a']", "boolean", "/* c */ 'a'", "unknown"]
pack([t.replace("<a>", a) for t in ("type Q<T extends string, U> = `${<a>}`;", "type Q<T extends string, U extends number> = `x${<a>}`;", "type Q<T extends string, U extends number> = `${<a>}x`;", "type Q<T extends string, U extends number> = `${<a>}${<a>}`;", "type Q<T extends string, U extends number> = `$${<a>}{`;", "type Q<T extends string, U extends number> = [`${<a>}`];") for a in LTT], 24, pre=TP, wrap="function w() {\n%s\n}")

# --- deprecated: every way to mention something
DEP = "/** @deprecated why */ declare const dv: number; /** @deprecated */ declare function df(): void; declare function of(x: 1): void; /** @deprecated one */ declare function of(x: 2): void; /** @deprecated */ declare class Dc { x: 1 } declare class Mc { /** @deprecated */ p: number; /** @deprecated */ m(): void; /** @deprecated */ static s: number; /** @deprecated */ get g(): number; constructor(); /** @deprecated */ constructor(x: number); /** @deprecated */ accessor acc: number; } /** @deprecated */ declare enum De { A } declare enum Me { /** @deprecated */ A, B } /** @deprecated */ interface Di { x: 1 } interface Mi { /** @deprecated */ x: number; /** @deprecated */ m(): void; /** @deprecated */ (): void; /** @deprecated */ new (): void; /** @deprecated */ [k: string]: any } /** @deprecated */ type Dt = 1; /** @deprecated */ declare namespace Dn { const v: 1; namespace In { const w: 2 } } declare const mc: Mc; declare const mi: Mi; declare const du: Mc | { p: string }; declare const di2: Mc & { z: 1 }; declare function dp(/** @deprecated */ x: number): void; declare function gg<T>(x?: T): T;\n"
DU = ["<n>;", "<n>();", "new <n>();", "const x = <n>;", "let x: typeof <n>;", "export { <n> };", "export { <n> as z };", "export default <n>;", "({ <n> });", "({ x: <n> });", "[<n>];", "<n>?.x;", "<n>!;", "<n>.x;", "<n>['x'];", "typeof <n>;", "`${<n>}`;", "<n>``;", "class Q extends <n> {}", "class Q implements <n> {}", "interface Q extends <n> {}", "let x: <n>;", "gg<<n>>();", "function q(x = <n>) {}", "<n> = 1 as never;", "({ [<n>]: 1 });", "const { x = <n> } = any;", "import X = <n>;", "<n>++;", "delete <n>;", "for (const k of <n> as any) {}", "@<n> class Q {}", "void <n>;", "(<n>);", "<n> as any;", "return <n>;", "type Q = <n>[];", "type Q = keyof <n>;", "type Q = <n>['x'];", "gg(<n>);", "switch (1 as any) { case <n>: }", "<n>.y.z;", "abstract class Q { abstract x: <n>; }", "function q(): <n> { throw 1; }", "x is <n>", "let <n>2 = 1;", "namespace <n>3 {}", "throw <n>;"]
DN = ["dv", "df", "of", "Dc", "De", "De.A", "Me.A", "Me.B", "Me['A']", "Di", "Dt", "Dn", "Dn.v", "Dn.In.w", "mc.p", "mc['p']", "mc.m", "mc.m()", "Mc.s", "mc.g", "mc.acc", "mc[`p`]", "mc[K]", "mi.x", "mi.m", "mi()", "mi.other", "du.p", "di2.p", "Mc", "of(1)", "of(2)", "mc?.p", "mc!.p", "new Mc(1)", "new Mc()", "(mc).p", "this_.p", "new mi()"]
pack([u.replace("<n>", n) for u in DU for n in DN], 6, pre=PRE + DEP + "const K = 'p'; declare const this_: Mc;\n", wrap="%s")
pack(["const { p } = mc;", "const { p: y } = mc;", "const { ['p']: y } = mc;", "const { p = 1 } = mc;", "let p; ({ p } = mc);", "function q({ p }: Mc) {}", "const { a: { p } } = { a: mc };", "const [{ p }] = [mc];", "const [p] = [mc];", "for (const { p } of [mc]) {}", "const { ...r } = mc; r.p;", "const { s } = Mc;", "const { A } = Me;", "const { [K]: z } = mc;", "const { `p`: z } = mc;", "const { v } = Dn;", "class Q extends Mc { p = 2; m() { super.m(); this.p; } }", "class Q { /** @deprecated */ x = 1; y = this.x; m() { this.x = 2; } }", "class Q { /** @deprecated */ constructor() {} } new Q();", "class Q extends Mc { constructor() { super(1); } }", "class Q extends Mc { constructor() { super(); } }", "/** @deprecated */ function q() { q(); }", "/** @deprecated */ let q = 1; q;", "/** @deprecated */ const q = () => {}; q();", "/** @deprecated */ const { q } = any; q;", "const o = { /** @deprecated */ a: 1, /** @deprecated */ m() {}, /** @deprecated */ get g() { return 1; } }; o.a; o.m(); o.g; const { a } = o;", "type Q = { /** @deprecated */ a: 1 }; declare const q: Q; q.a;", "function q(/** @deprecated */ x: number) { x; }", "mc.p = 1; mc.p++; delete mc.p;", "export * from './deprecated';", "import { z } from './z'; z;", "type M = { [K in keyof Mc]: 1 }; declare const mm: M; mm.p;", "declare const pk: Pick<Mc, 'p'>; pk.p;", "declare const pa: Partial<Mc>; pa.p;", "Reflect.get(mc, 'p');", "'p' in mc;", "mc?.['p'];", "mc['m']();", "mc.m?.();", "mc.m``;"], 1, pre=PRE + DEP + "const K = 'p';\n", wrap="%s")

rng.shuffle(out)
for i, c in enumerate(out):
    c["id"] = "t%d" % i
if __name__ == "__main__":
    corpus.save("tab", out)
    print(len(out), sum(len(c["files"][c["main"]]) for c in out))
