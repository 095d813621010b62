// debug helper: node one.mjs file|-e src [module]
import fs from 'fs';
import { analyse } from './norm.mjs';
const t = process.argv[2] === '-e' ? process.argv[3] : fs.readFileSync(process.argv[2], 'utf8');
const m = process.argv.includes('module') ? 'module' : 'script';
for (const p of analyse(t, m, false).parts) console.log(p);
