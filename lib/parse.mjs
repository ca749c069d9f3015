// in: JSON lines {id, n: file name, t: text, e: [edited texts]}; out: per line the number of syntax errors of the text and, if it has none, of each edited text.
import { createRequire } from 'node:module'; import fs from 'node:fs'; import readline from 'node:readline';
const ts = createRequire('/opt/veriftools/node/node_modules/x.js')('typescript');
const rl = readline.createInterface({input: fs.createReadStream(process.argv[2])});
const out = fs.createWriteStream(process.argv[3]);
const K={'.ts':3,'.tsx':4,'.js':1,'.jsx':2};
for await (const l of rl) { const c=JSON.parse(l); 
 const p=(t)=>{ let s; try { s=ts.createSourceFile(c.n,t,{languageVersion:99, impliedNodeFormat: undefined},false); } catch { return -1; } return s.parseDiagnostics.length; };
 const o={id:c.id, n:p(c.t)}; if(c.e&&o.n===0){ o.e=c.e.map(p);} out.write(JSON.stringify(o)+'\n'); }
out.end();
