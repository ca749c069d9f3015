// Two modes. quote: lines [value, literal...] -> lines of the faults of each literal ('' if none).
// edits: lines {id, n, t: [texts]} -> per text {errors, strings: [[value, one line?]...], regexps: [[source, flags]...]}.
import { createRequire } from 'node:module'; import fs from 'node:fs'; import readline from 'node:readline';
const ts = createRequire('/opt/veriftools/node/node_modules/x.js')('typescript');
const [mode, inp, outp] = process.argv.slice(2);
const rl = readline.createInterface({ input: fs.createReadStream(inp) });
const out = fs.createWriteStream(outp);
const NL = /[\n\r\u2028\u2029]/;
function fault(v, lit) {
  if (NL.test(lit)) return 'spans lines';
  const s = ts.createSourceFile('a.ts', '(' + lit + ')', { languageVersion: 99 }, false);
  const e = s.statements.length === 1 && s.statements[0].expression?.expression;
  if (s.parseDiagnostics.length || !e || e.kind !== ts.SyntaxKind.StringLiteral) return 'is not one string literal';
  if (e.text !== v) return 'denotes ' + JSON.stringify(e.text) + ' to the compiler';
  let got; try { got = (0, eval)('"use strict";(' + lit + ')'); } catch (x) { return 'does not evaluate: ' + x; }
  return got === v ? '' : 'evaluates to ' + JSON.stringify(got);
}
for await (const l of rl) {
  const c = JSON.parse(l);
  if (mode === 'quote') { out.write(JSON.stringify(c.slice(1).map(x => fault(c[0], x))) + '\n'); continue; }
  out.write(JSON.stringify({ id: c.id, t: c.t.map(text => {
    const s = ts.createSourceFile(c.n, text, { languageVersion: 99 }, true), r = { errors: s.parseDiagnostics.length, strings: [], regexps: [], templates: [] };
    const walk = n => {
      if (n.kind === ts.SyntaxKind.StringLiteral) r.strings.push([n.text, !NL.test(n.getText(s))]);
      if (n.kind === ts.SyntaxKind.NoSubstitutionTemplateLiteral || n.kind === ts.SyntaxKind.TemplateExpression) {
        const x = n.getText(s);
        try { r.templates.push(String((0, eval)(x))); } catch {}
      }
      if (n.kind === ts.SyntaxKind.RegularExpressionLiteral) {
        const m = /^\/([^]*)\/([a-z]*)$/.exec(n.text);
        try { const q = new RegExp(m[1], m[2]); r.regexps.push([q.source, q.flags]); } catch (e) { r.regexps.push([String(e), null]); }
      }
      ts.forEachChild(n, walk);
    };
    walk(s); return r; }) }) + '\n');
}
out.end();
