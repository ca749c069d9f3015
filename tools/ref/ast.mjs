// stdin-file: JSON lines {n: file name, t: text}; out: one line per text, a digest of its syntax tree without redundant
// parentheses, empty statements, layout and comments, or "" if it does not parse.
import { createRequire } from 'node:module'; import fs from 'node:fs'; import readline from 'node:readline'; import crypto from 'node:crypto';
const ts = createRequire('/opt/veriftools/node/node_modules/x.js')('typescript');
const rl = readline.createInterface({ input: fs.createReadStream(process.argv[2]) });
const out = [];
function dump(n, o) {
  if (n.kind === ts.SyntaxKind.ParenthesizedExpression || n.kind === ts.SyntaxKind.ParenthesizedType) { dump(n.expression ?? n.type, o); return; }
  if (n.kind === ts.SyntaxKind.EmptyStatement) return;
  o.push('(', n.kind);
  if (n.text !== undefined && n.kind !== ts.SyntaxKind.SourceFile) o.push(JSON.stringify(n.text));
  if (n.kind === ts.SyntaxKind.TypeOperator || n.kind === ts.SyntaxKind.PrefixUnaryExpression || n.kind === ts.SyntaxKind.PostfixUnaryExpression) o.push('op', n.operator);
  if (n.kind === ts.SyntaxKind.VariableDeclarationList) o.push('fl', n.flags & 7);
  if (n.isTypeOnly) o.push('ty');
  if (n.isTypeOf) o.push('to');
  if (n.token) o.push('tk', n.token);
  if (n.keywordToken) o.push('kw', n.keywordToken);
  ts.forEachChild(n, (c) => { dump(c, o); });
  o.push(')');
}
for await (const l of rl) {
  const c = JSON.parse(l); let s;
  try { s = ts.createSourceFile(c.n, c.t, { languageVersion: 99 }, false); } catch { out.push(''); continue; }
  if (s.parseDiagnostics.length) { out.push(''); continue; }
  const o = []; dump(s, o); out.push(crypto.createHash('md5').update(o.join(' ')).digest('hex').slice(0, 16));
}
fs.writeFileSync(process.argv[3], out.join('\n') + '\n');
