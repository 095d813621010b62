// dev: cross-validate the generator's own s-expressions against acorn. input: gendump .. dump lines
import fs from 'fs';
import { analyse } from './norm.mjs';
let n = 0, bad = 0;
for (const l of fs.readFileSync(0, 'utf8').split('\n')) {
  if (!l) continue;
  const [i, mode, h, hx] = l.split('\t');
  const text = Buffer.from(h, 'hex').toString(), exp = Buffer.from(hx, 'hex').toString();
  n++;
  let got;
  try { got = analyse(text, mode, false).parts.join('\n\u0001'); } catch (e) { got = 'ERR ' + e.message; }
  if (got !== exp) { bad++; if (bad < 40) { const a = got.split('\n\u0001'), b = exp.split('\n\u0001'); let k = 0; while (a[k] === b[k]) k++; console.log('===', i, mode, '\n' + text.slice(0, 1500) + '\n got ' + (a[k]||'').slice(0,800) + '\n exp ' + (b[k]||'').slice(0,800)); } }
}
console.log('n', n, 'bad', bad);
