import fs from 'fs';
const names=['Math','Object','Number','String','Array','Promise','Proxy','Reflect','JSON','Intl','Date','RegExp','console','Atomics','Symbol','Boolean','BigInt','Map','Set','Error','ArrayBuffer','Uint8Array','URL','Infinity','globalThis'];
const r={};
for(const n of names){const g=n==='globalThis'?{parseInt,parseFloat,isNaN,isFinite,escape,unescape,encodeURI,decodeURI,encodeURIComponent,setTimeout,fetch,structuredClone}:globalThis[n]; if(g==null||typeof g==='number')continue; r[n]=Object.getOwnPropertyNames(g).filter(x=>x!=='arguments'&&x!=='caller'); if(typeof g==='function'&&g.prototype) r[n+'.prototype']=Object.getOwnPropertyNames(g.prototype);}
for (const n of Object.getOwnPropertyNames(Intl)) { const g=Intl[n]; if(typeof g==='function') { r['Intl.'+n]=Object.getOwnPropertyNames(g); if (g.prototype) r['new Intl.'+n+'()']=Object.getOwnPropertyNames(g.prototype).filter(x=>x!=='constructor'); } }
for (const [k,e] of [['arr','[] as string[]'],['str',"''"],['num','1'],['re','/a/'],['new Date()',''],['new Map()',''],['prom',''],['new Set()',''],['fn','']]) { const o={arr:[],str:'',num:1,re:/a/,'new Date()':new Date(),'new Map()':new Map(),prom:Promise.resolve(),'new Set()':new Set(),fn:()=>1}[k]; r[k]=Object.getOwnPropertyNames(Object.getPrototypeOf(o)).filter(x=>x!=='constructor'&&x!=='caller'&&x!=='arguments'); }
fs.writeFileSync('/tmp/globals.json',JSON.stringify(r));
