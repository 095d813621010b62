// node snippets.mjs LIST OUT SEED PER: pieces of the programs in LIST, each made a program of its own:
// 's'|'m' \t node type \t hex(text)
import fs from 'fs';
import * as acorn from './vendor/acorn.mjs';
const [, , listFile, outFile, seed, per] = process.argv;
let st = 0;
const rnd = n => { st = (Math.imul(st, 1664525) + 1013904223) >>> 0; return Math.floor(st / 4294967296 * n); };
const out = [];
for (const path of fs.readFileSync(listFile, 'utf8').split('\n')) {
  if (!path) continue;
  st = Number(seed) >>> 0;
  for (const c of path) st = (Math.imul(st, 31) + c.charCodeAt(0)) >>> 0;
  let text, ast = null, mode = 's';
  try { text = fs.readFileSync(path, 'utf8'); } catch { continue; }
  for (const m of ['script', 'module']) {
    try { ast = acorn.parse(text, { ecmaVersion: 2019, sourceType: m, allowHashBang: true }); mode = m[0]; break; } catch { }
  }
  if (!ast) continue;
  const all = new Map();
  const put = (n, s) => { if (!all.has(n.type)) all.set(n.type, []); all.get(n.type).push(s); };
  const walk = (n, up) => {
    if (n.end - n.start <= 260 && n.end - n.start >= 3) {
      const s = text.slice(n.start, n.end);
      if (/Statement$|Declaration$/.test(n.type)) { if (!/^For/.test(up)) put(n, s); }
      else if (n.type === 'MethodDefinition') put(n, 'class A { ' + s + ' }');
      else if (n.type === 'Property') put(n, (up === 'ObjectPattern' ? '({ ' + s + ' } = x);' : 'x = { ' + s + ' };'));
      else if (n.type === 'SwitchCase') put(n, 'switch (x) { ' + s + ' }');
      else if (n.type === 'CatchClause') put(n, 'try { } ' + s);
      else if (/Pattern$/.test(n.type)) put(n, 'function f(' + s + ') { }');
      else if (/Expression$|Literal$/.test(n.type)) put(n, 'x = ' + s + ';');
    }
    for (const k in n) {
      const v = n[k];
      if (Array.isArray(v)) { for (const c of v) if (c && c.type) walk(c, n.type); }
      else if (v && v.type && typeof v.start === 'number') walk(v, n.type);
    }
  };
  walk(ast, '');
  const kinds = [...all.keys()];
  // every kind of piece as often as any other
  for (let i = 0; i < Number(per) && kinds.length; i++) {
    const k = kinds[rnd(kinds.length)], l = all.get(k);
    out.push(mode + '\t' + k + '\t' + Buffer.from(l[rnd(l.length)]).toString('hex'));
  }
}
fs.writeFileSync(outFile, out.join('\n') + '\n');
