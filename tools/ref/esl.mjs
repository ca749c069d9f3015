// Reference verdicts: typescript-eslint on the same files and tsconfig.
// stdin: JSON lines {id, dir, main, tsconfig, own}; stdout: JSON lines {id, all: {...}, own: [...]}
import { createRequire } from 'node:module';
import fs from 'node:fs'; import path from 'node:path';
const req = createRequire('/opt/veriftools/node/node_modules/x.js');
const ts = req('typescript'); const { Linter } = req('eslint');
const plugin = req('@typescript-eslint/eslint-plugin'); const parser = req('@typescript-eslint/parser');
const RULES = JSON.parse(process.env.RULES);
const sf = new Map();
const reader = fs.readFileSync(0, 'utf8').split('\n').filter(Boolean);
function host(opts, dir) {
  const base = ts.createCompilerHost(opts, true);
  return { ...base, getCurrentDirectory: () => dir,
    getSourceFile(f, lv, ...r) {
      if (f.startsWith('/opt/')) { const k = f + JSON.stringify(lv); if (!sf.has(k)) sf.set(k, base.getSourceFile(f, lv, ...r)); return sf.get(k); }
      return base.getSourceFile(f, lv, ...r);
    } };
}
const EXT = ['**/*.ts', '**/*.tsx', '**/*.js', '**/*.jsx', '**/*.mts', '**/*.cts', '**/*.mjs', '**/*.cjs'];
for (const line of reader) {
  const c = JSON.parse(line); const res = { id: c.id };
  fs.writeSync(2, c.id + '\n');
  try {
    const p = ts.getParsedCommandLineOfConfigFile(c.dir + '/tsconfig.json', {}, { ...ts.sys, onUnRecoverableConfigFileDiagnostic(d) { throw new Error(ts.flattenDiagnosticMessageText(d.messageText, '\n')); } });
    const program = ts.createProgram({ rootNames: p.fileNames, options: p.options, host: host(p.options, c.dir) });
    const code = program.getSourceFile(c.main).text;
    const linter = new Linter({ cwd: c.dir, configType: 'flat' });
   
    const b = (u) => Buffer.byteLength(code.slice(0, u));
    const ls = [0]; for (const m of code.matchAll(/\r\n|[\n\r\u2028\u2029]/g)) ls.push(m.index + m[0].length);
    const off = (l, col) => ls[l - 1] + col - 1;
    const run = (rules) => {
      const errs = [];
      const one = (rs) => linter.verify(code, [{ files: EXT, languageOptions: { parser, parserOptions: { programs: [program], ecmaFeatures: { jsx: /x$/.test(c.main) }, range: true } }, plugins: { t: plugin }, linterOptions: { reportUnusedDisableDirectives: 'off', noInlineConfig: true }, rules: rs }], { filename: c.main });
      let msgs = [];
      try { msgs = one(rules); } catch (e) {
        // a reference rule threw: run the rules one by one and note which have no verdict
        for (const [k, v] of Object.entries(rules)) { try { msgs.push(...one({ [k]: v })); } catch (e2) { errs.push(k.slice(2)); } }
      }
      const f = msgs.find((m) => m.fatal || !m.ruleId);
      if (f) throw new Error('fatal ' + f.message);
      return [msgs.map((m) => ({ r: m.ruleId.slice(2), id: m.messageId, p: b(off(m.line, m.column)), e: m.endLine ? b(off(m.endLine, m.endColumn)) : null,
        f: m.fix ? [b(m.fix.range[0]), b(m.fix.range[1]), m.fix.text] : undefined,
        s: m.suggestions ? m.suggestions.map((s) => [s.messageId, b(s.fix.range[0]), b(s.fix.range[1]), s.fix.text]) : undefined })), errs];
    };
    const all = {}; for (const r of RULES) all['t/' + r] = 'error';
    if (!c.ownOnly) [res.all, res.allErr] = run(all);
    if (c.own) { const o = c.own.length > 1 ? [].concat([c.own[1]]) : []; [res.own, res.ownErr] = run({ ['t/' + c.own[0]]: ['error', ...o] }); }
  } catch (e) { res.err = String(e.message).slice(0, 200); }
  fs.writeSync(1, JSON.stringify(res) + '\n');
}
