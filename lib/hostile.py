"""Source texts that are unusual rather than typical: encodings, line endings, cut-off files, depth."""
import re

WORD = re.compile(r"\b[a-z][A-Za-z0-9]{1,12}\b")
KEEP = set("""abstract any as assert asserts async await bigint boolean break case catch class const continue debugger declare default delete do else enum export extends false finally for from
function get global if implements import in infer instanceof interface is keyof let module namespace never new null number object of out override package private protected public readonly require
return satisfies set static string super switch symbol this throw true try type typeof undefined unique unknown using var void while with yield lib test console log then catch length map filter find
push concat indexOf includes slice charAt match exec toString valueOf prototype constructor reduce forEach sort join some every all resolve reject race values keys entries then next value done""".split())


def unicode(text, rng):
    """Renames words to names with characters of two to four bytes, and puts such characters in comments."""
    suf = {}

    def sub(m):
        w = m.group()
        if w in KEEP:
            return w
        if w not in suf:
            suf[w] = w + rng.choice(["é", "日本", "𝒳", "ß", "ñ", ""])
        return suf[w]
    t = WORD.sub(sub, text)
    return rng.choice(["", "// 日本語 ✓ 😀\n", "/* é */ "]) + t.replace("\n", rng.choice(["\n", " // 😀\n", "\n"]), 3)


def crlf(text, rng):
    return text.replace("\r\n", "\n").replace("\n", rng.choice(["\r\n", "\r\n", "\r", "\u2028"]))


def bom(text, rng):
    return "\ufeff" + text


def cut(text, rng):
    return text[:rng.randrange(len(text) + 1)] if text else text


def cut_front(text, rng):
    return text[rng.randrange(len(text) + 1):] if text else text


def junk(text, rng):
    i = rng.randrange(len(text) + 1)
    return text[:i] + rng.choice(["\x00", "\u2028", "`${", "/*", "'", '"', "<<<<<<< HEAD\n", "#!", "\\", "@", "\ufffd", "(((", "}}}", "<T", "0x", "\\u{", "async ", "?.", "=>", "...", "\ufeff", "/**", "//", "#x", "é😀", "\t\v\f\u00a0\u3000"]) + text[i:]


def splice(text, rng, other):
    return text[:rng.randrange(len(text) + 1)] + other[rng.randrange(len(other) + 1):]


def lines(text, rng):
    ls = text.split("\n")
    rng.shuffle(ls)
    return "\n".join(ls)


def dup(text, rng):
    return text + "\n" + text


ALL = [unicode, crlf, bom, cut, cut_front, junk, lines, dup]


def deep(n):
    """Texts that nest or repeat one construct n times: (name, text)."""
    yield "parens", "const a = " + "(" * n + "1" + ")" * n + ";\n"
    yield "not", "declare const x: boolean; if (" + "!" * n + "x) {}\n"
    yield "plus", "declare const x: any; const a = " + " + ".join(["x"] * n) + ";\n"
    yield "concat", "const a = " + " + ".join(["'a'", "1", "{}"] * (n // 3)) + ";\n"
    yield "and", "declare const x: any; const a = " + " && ".join("x.a%d" % i for i in range(n)) + ";\n"
    yield "chain", "declare const x: any; x" + ".a" * n + ";\n"
    yield "optchain", "declare const x: any; x" + "?.a" * n + ";\n"
    yield "andchain", "declare const x: any; " + " && ".join("x" + ".a" * i for i in range(0, min(n, 60))) + ";\n"
    yield "calls", "declare const f: any; f" + "()" * n + ";\n"
    yield "then", "Promise.resolve(1)" + ".then(x => x)" * min(n, 60) + ";\n"
    yield "blocks", "{" * n + "Promise.resolve();" + "}" * n + "\n"
    yield "arrows", "const f = " + "() => " * min(n, 300) + "1;\n"
    yield "arrays", "const a = " + "[" * n + "]" * n + ";\n"
    yield "objects", "const a = " + "{ a: " * min(n, 300) + "1" + "}" * min(n, 300) + ";\n"
    yield "destructure", "let a: any; " + "[" * min(n, 300) + "a" + "]" * min(n, 300) + " = a;\n"
    yield "ternary", "declare const x: boolean; const a = " + "x ? 1 : " * n + "2;\n"
    yield "templates", "const a = " + "`${" * min(n, 300) + "1" + "}`" * min(n, 300) + ";\n"
    yield "union", "type U = " + " | ".join("'u%d'" % i for i in range(n * 4)) + "; declare const u: U; switch (u) { case 'u1': break; }\n"
    yield "members", "interface I {" + "".join("m%d: string;" % i for i in range(n * 4)) + "} declare const i: I; `${i}`;\n"
    yield "statements", "declare function f(): Promise<void>;\n" + "f();\n" * n
    yield "classes", "".join("class C%d extends C%d { private a = 1; m() { return this.a; } }\n" % (i, i - 1) if i else "class C0 { m(): any { return 1; } }\n" for i in range(min(n, 100)))
    yield "cyclic class", "class A extends B { m() { return this; } } class B extends C {} class C extends A {}\nnew A().m();\n"
    yield "recursive type", "type A<T> = { a: A<A<T>> } & T; declare const a: A<A<string>>; const b: A<number> = a as any; f(b); declare function f(x: A<string>): void;\n"
    yield "recursive alias", "type J = string | J[] | { [k: string]: J }; declare const j: J; `${j}`; const k = j as any as J; function f(x: J) { return x + ''; }\n"
    yield "recursive function", "function f() { return g(); } function g() { return h(); } function h() { return f(); } f();\nconst a = () => a(); const b = async () => await b();\n"
    yield "recursive mapped", "type D<T> = { [K in keyof T]: D<T[K]> }; interface N { n: N; m: Map<N, D<N>> } declare const d: D<N>; const e: D<D<N>> = d; function f(x: D<N>): void { x; } f(e);\n"
    yield "recursive conditional", "type C<T> = T extends [infer H, ...infer R] ? [H, ...C<R>] : []; declare const c: C<[" + ",".join(["1"] * min(n, 45)) + "]>; c[0]; function f(x: C<string[]>) { return x; }\n"
    yield "self-referential generics", "interface F<T extends F<T>> { a: T; b: F<T>[] } declare const f: F<any>; class X implements F<X> { a = this; b = [] } function g<T extends F<T>>(t: T): T { return t.a; } g(new X());\n"
    yield "circular import", "import * as self from './main'; import s, { a as b } from './main'; export * from './main'; export { b as a }; export default self; self.a; s; b();\n"
    yield "circular alias", "import A = B; import B = C; import C = A; A.x; namespace N { export import M = N; } N.M.M.M.x;\n"
    yield "circular variable", "const a = b, b = c, c = a; a.x(); let { x, y = x } = { x: y, y: x }; for (const q of q) q; const f = (z = f) => z;\n"
    yield "circular enum", "enum E { A = B, B = A, C = E.C, D = F.D } enum F { D = E.D } E.A === F.D; switch (E.A as E) { case E.B: }\n"
    yield "circular getter", "class G { get a() { return this.b; } get b() { return this.a; } set a(v) { this.b = v; } set b(v) { this.a = v; } } new G().a.b;\n"
    yield "long line", "const a = '" + "é" * n * 20 + "'; Promise.resolve(a);\n"
    yield "comments", "/* " + "* / " * n + "*/ Promise.resolve(); " + "// x\n" * n
    yield "decorators", "".join("@(d as any) " for _ in range(min(n, 200))) + "class D {} declare const d: any;\n"
    yield "overloads", "".join("function f(a: %d): %s;\n" % (i, ("string", "Promise<number>", "void")[i % 3]) for i in range(min(n, 200))) + "function f(a: any): any {} f(1); f(2).then; f(3 as any);\n"
    yield "intersections", "type T = " + " & ".join("{ a%d: string; f(): %d }" % (i, i) for i in range(min(n, 150))) + "; declare const t: T; t.f; t as any as { a1: string }; t + 1;\n"
    yield "jsx", "const a = " + "<a>" * min(n, 200) + "</a>" * min(n, 200) + ";\n"
    yield "regexp", "'" + "a" * n + "'.match('" + "(" * 50 + "a" + ")" * 50 + "'); /" + "a?" * 50 + "/.test('x'); new RegExp('" + "a" * n + "').test('x');\n"
    yield "cases", "declare const x: number; switch (x) {" + "".join("case %d: break;" % i for i in range(n)) + "}\n"
    yield "empty", ""
    yield "only newline", "\n"
    yield "only BOM", "\ufeff"
    yield "only comment", "/* a */"
    yield "unterminated", "`${`${`${"
    yield "hashbang", "#!/usr/bin/env node\nPromise.resolve();\n"
    yield "nul", "\0" * n
    yield "directives", "// @ts-nocheck\n// @ts-ignore\n/// <reference path='nope.ts' />\n/// <reference types='nope' />\n/// <reference lib='esnext' />\nPromise.resolve();\n"
