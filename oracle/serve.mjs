// node serve.mjs IN OUT: one verdict per line of IN ('s'|'m' + hex of the text):
// "O \t hex(parts joined by \x01)" or "E \t hex(message) \t byte offset"
import fs from 'fs';
import { analyse } from './norm.mjs';
const out = [];
for (const l of fs.readFileSync(process.argv[2], 'utf8').split('\n')) {
  if (!l) continue;
  const text = Buffer.from(l.slice(1), 'hex').toString('utf8');
  try {
    const r = analyse(text, l[0] === 'm' ? 'module' : 'script', false);
    out.push('O\t' + Buffer.from(r.parts.join('\x01')).toString('hex'));
  } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    out.push('E\t' + Buffer.from(e.message).toString('hex') + '\t' + Buffer.byteLength(text.slice(0, e.pos)));
  }
}
fs.writeFileSync(process.argv[3], out.join('\n') + '\n');
