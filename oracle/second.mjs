// node --experimental-vm-modules second.mjs m|s < TEXT: the verdict of the engine itself
import vm from 'vm';
import fs from 'fs';
const text = fs.readFileSync(0, 'utf8');
let out = 'accept';
try {
  if (process.argv[2] === 'm') new vm.SourceTextModule(text);
  else new vm.Script(text);
} catch (e) {
  out = e instanceof SyntaxError || (e && e.name === 'SyntaxError') ? 'reject' : 'error ' + e;
}
console.log(out);
