// node batch.mjs LIST OUT [--text]: for every path in LIST, one line in OUT:
// path \t mode \t tokendigest \t hash,hash,...      (mode "-" = the reference parser rejects it)
import fs from 'fs';
import { analyse, fnv } from './norm.mjs';
const [, , listFile, outFile, flag] = process.argv;
const out = fs.openSync(outFile, 'w');
function tokenDigest(text, toks) {
  const stack = [], texts = [];
  for (let i = 0; i < toks.length; i += 3) {
    const s = text.slice(toks[i], toks[i + 1]);
    if (toks[i + 2] === 1) continue;
    if (s === '${') { stack.push(1); continue; }
    if (s === '{') stack.push(0);
    if (s === '}') { if (stack.pop() === 1) continue; }
    texts.push(s);
  }
  return fnv(texts.join('\n'));
}
for (const path of fs.readFileSync(listFile, 'utf8').split('\n')) {
  if (!path) continue;
  let line = path + '\t-\t\t';
  try {
    const text = fs.readFileSync(path, 'utf8');
    let r = null, mode = 'script';
    for (const m of (flag === '--script' ? ['script'] : flag === '--module' ? ['module'] : ['script', 'module'])) {
      try { r = analyse(text, m, true); mode = m; break; } catch (e) { r = null; }
    }
    if (r) line = path + '\t' + mode + '\t' + tokenDigest(text, r.tokens) + '\t' + r.parts.map(fnv).join(',');
  } catch (e) { line = path + '\t-\t\t'; }
  fs.writeSync(out, line + '\n');
}
fs.closeSync(out);
