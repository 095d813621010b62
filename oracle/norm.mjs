// Reference side of the differential monitor: parse with acorn, flatten ESTree to the
// same s-expression normal form as harness/src/sexp.rs.
import * as acorn from './vendor/acorn.mjs';
let src = '';
function raw(n) { return src.slice(n.start, n.end); }
function list(ns, f) { let s = ''; for (const n of ns) s += f(n); return s; }
function idt(n) { return '(id ' + raw(n) + ')'; }
function part(n) {
  if (n.type === 'ExpressionStatement' && n.directive !== undefined) return '(dir ' + lit(n.expression) + ')';
  if (n.type === 'FunctionDeclaration' && !n.async) return func(n, '(fndecl');
  return stmt(n);
}
function parts(ns) { return '[' + list(ns, part) + ']'; }
function opt(n) { return n ? expr(n) : '_'; }
function lit(n) {
  const r = n.raw;
  if (n.regex) return '(re ' + n.regex.pattern + ' ' + n.regex.flags + ')';
  if (n.value === null && r === 'null') return '(null)';
  if (typeof n.value === 'boolean') return '(bool ' + r + ')';
  if (typeof n.value === 'string') return '(str ' + r + ')';
  if (typeof n.value === 'number') return '(num ' + r + ')';
  throw new Error('lit ' + r);
}
function vars(n) {
  let s = '(' + n.kind;
  for (const d of n.declarations) { s += ' (' + pat(d.id); if (d.init) s += ' = ' + expr(d.init); s += ')'; }
  return s + ')';
}
function func(f, tag = '(fn') {
  return tag + (f.async ? ' async' : '') + (f.generator ? ' *' : '') + ' ' + (f.id ? raw(f.id) : '') + params(f.params) + parts(f.body.body) + ')';
}
function params(ps) { return '<' + list(ps, pat) + '>'; }
function cls(c, tag = '(class ') {
  let s = tag + (c.id ? raw(c.id) : '') + (c.superClass ? ' extends ' + expr(c.superClass) : '');
  for (const m of c.body.body) {
    s += '(' + (m.kind === 'get' ? 'get ' : m.kind === 'set' ? 'set ' : m.kind === 'constructor' ? 'ctor ' : 'method ') + key(m) + expr(m.value) + ')';
  }
  return s + ')';
}
function key(p) { return p.computed ? '[' + expr(p.key) + ']' : (p.key.type === 'Identifier' ? idt(p.key) : lit(p.key)); }
function left(n) { return n.type === 'VariableDeclaration' ? vars(n) : pat(n); }
function stmt(n) {
  switch (n.type) {
    case 'VariableDeclaration': return vars(n);
    case 'FunctionDeclaration': return '(expr ' + func(n) + ')';
    case 'ClassDeclaration': return cls(n, '(classdecl ');
    case 'ExpressionStatement':
      return '(expr ' + expr(n.expression) + ')';
    case 'BlockStatement': return '(block ' + parts(n.body) + ')';
    case 'EmptyStatement': return '(empty)';
    case 'DebuggerStatement': return '(debugger)';
    case 'WithStatement': return '(with ' + expr(n.object) + stmt(n.body) + ')';
    case 'ReturnStatement': return '(return ' + opt(n.argument) + ')';
    case 'LabeledStatement': return '(label ' + raw(n.label) + stmt(n.body) + ')';
    case 'BreakStatement': return '(break ' + (n.label ? raw(n.label) : '') + ')';
    case 'ContinueStatement': return '(continue ' + (n.label ? raw(n.label) : '') + ')';
    case 'IfStatement': return '(if ' + expr(n.test) + stmt(n.consequent) + (n.alternate ? ' else ' + stmt(n.alternate) : '') + ')';
    case 'SwitchStatement': return '(switch ' + expr(n.discriminant) + list(n.cases, c => '(case ' + opt(c.test) + parts(c.consequent) + ')') + ')';
    case 'ThrowStatement': return '(throw ' + expr(n.argument) + ')';
    case 'TryStatement': return '(try ' + parts(n.block.body) + (n.handler ? '(catch ' + (n.handler.param ? pat(n.handler.param) : '') + parts(n.handler.body.body) + ')' : '') + (n.finalizer ? '(finally ' + parts(n.finalizer.body) + ')' : '') + ')';
    case 'WhileStatement': return '(while ' + expr(n.test) + stmt(n.body) + ')';
    case 'DoWhileStatement': return '(do ' + stmt(n.body) + expr(n.test) + ')';
    case 'ForStatement': return '(for ' + (!n.init ? '_' : n.init.type === 'VariableDeclaration' ? vars(n.init) : expr(n.init)) + ';' + opt(n.test) + ';' + opt(n.update) + stmt(n.body) + ')';
    case 'ForInStatement': return '(forin ' + left(n.left) + expr(n.right) + stmt(n.body) + ')';
    case 'ForOfStatement': return (n.await ? '(forawait ' : '(forof ') + left(n.left) + expr(n.right) + stmt(n.body) + ')';
    case 'ImportDeclaration': return '(import ' + list(n.specifiers, s => s.type === 'ImportSpecifier' ? '(n ' + raw(s.imported) + (s.imported.start === s.local.start ? '' : ' ' + raw(s.local)) + ')' : s.type === 'ImportDefaultSpecifier' ? '(d ' + raw(s.local) + ')' : '(* ' + raw(s.local) + ')') + lit(n.source) + ')';
    case 'ExportAllDeclaration': if (n.exported) later('export * as', n); return '(export-all ' + lit(n.source) + ')';
    case 'ExportDefaultDeclaration': {
      const d = n.declaration;
      return '(export-default ' + (d.type === 'FunctionDeclaration' ? func(d, '(fndecl') : /Declaration$/.test(d.type) ? stmt(d) : expr(d)) + ')';
    }
    case 'ExportNamedDeclaration':
      if (n.declaration) return '(export ' + (n.declaration.type === 'FunctionDeclaration' ? func(n.declaration, '(fndecl') : stmt(n.declaration)) + ')';
      return '(export-names ' + list(n.specifiers, s => '(' + raw(s.local) + (s.exported.start === s.local.start ? '' : ' ' + raw(s.exported)) + ')') + (n.source ? lit(n.source) : '') + ')';
  }
  throw new Error('stmt ' + n.type);
}
function pat(n) {
  switch (n.type) {
    case 'Identifier': return idt(n);
    case 'ObjectPattern': return '(objpat' + list(n.properties, p => p.type === 'RestElement' ? pat(p) : '(p ' + (p.shorthand ? 'short ' : '') + key(p) + pat(p.value) + ')') + ')';
    case 'ArrayPattern': return '(arrpat' + list(n.elements, e => ' ' + (e ? pat(e) : '_')) + ')';
    case 'RestElement': return '(rest ' + pat(n.argument) + ')';
    case 'AssignmentPattern': return '(def ' + pat(n.left) + expr(n.right) + ')';
    default: return expr(n);
  }
}
function tpl(t) {
  return '(tpl' + list(t.quasis, q => ' {' + raw(q) + (q.tail ? '}t' : '}')) + list(t.expressions, e => ' ' + expr(e)) + ')';
}
function expr(n) {
  switch (n.type) {
    case 'Identifier': return idt(n);
    case 'Literal': return lit(n);
    case 'ThisExpression': return '(this)';
    case 'Super': return '(super)';
    case 'ArrayExpression': return '(arr' + list(n.elements, e => ' ' + (e ? expr(e) : '_')) + ')';
    case 'ObjectExpression': return '(obj' + list(n.properties, p => p.type === 'SpreadElement' ? expr(p) :
      '(' + p.kind + ' ' + (p.method ? 'method ' : '') + (p.shorthand ? 'short ' : '') + key(p) + (p.shorthand ? '' : expr(p.value)) + ')') + ')';
    case 'FunctionExpression': return func(n);
    case 'ClassExpression': return cls(n);
    case 'ArrowFunctionExpression': return '(arrow' + (n.async ? ' async' : '') + params(n.params) + (n.body.type === 'BlockStatement' ? parts(n.body.body) : expr(n.body)) + ')';
    case 'AssignmentExpression': return '(' + n.operator + ' ' + (n.operator === '=' ? pat(n.left) : expr(n.left)) + expr(n.right) + ')';
    case 'AwaitExpression': return '(await ' + expr(n.argument) + ')';
    case 'BinaryExpression': case 'LogicalExpression': if (n.operator === '??') later('??', n); return '(' + n.operator + ' ' + expr(n.left) + expr(n.right) + ')';
    case 'ChainExpression': return later('?.', n);
    case 'CallExpression': return '(call ' + expr(n.callee) + '<' + list(n.arguments, expr) + '>)';
    case 'ImportExpression': return '(call (id import)<' + expr(n.source) + '>)';
    case 'NewExpression': return '(new ' + expr(n.callee) + '<' + list(n.arguments, expr) + '>)';
    case 'ConditionalExpression': return '(? ' + expr(n.test) + expr(n.consequent) + expr(n.alternate) + ')';
    case 'MemberExpression': return '(. ' + expr(n.object) + (n.computed ? '[' : '') + expr(n.property) + (n.computed ? ']' : '') + ')';
    case 'MetaProperty': if (n.meta.name === 'import') later('import.meta', n); return '(meta ' + raw(n.meta) + '.' + raw(n.property) + ')';
    case 'SequenceExpression': return '(seq ' + list(n.expressions, expr) + ')';
    case 'SpreadElement': return '(spread ' + expr(n.argument) + ')';
    case 'TaggedTemplateExpression': return '(tag ' + expr(n.tag) + tpl(n.quasi) + ')';
    case 'TemplateLiteral': return tpl(n);
    case 'UnaryExpression': return '(u' + n.operator + ' ' + expr(n.argument) + ')';
    case 'UpdateExpression': return '(' + (n.prefix ? 'pre' : 'post') + n.operator + expr(n.argument) + ')';
    case 'YieldExpression': return (n.delegate ? '(yield* ' : '(yield ') + (n.argument ? expr(n.argument) : '') + ')';
  }
  throw new Error('expr ' + n.type);
}
// syntax of a later edition, only read because dynamic import needs that edition
function later(what, n) {
  const e = new SyntaxError(what + ' is not part of the language here');
  e.pos = n.start;
  throw e;
}
// returns {mode, parts:[...], tokens:[[start,end]...] (utf16)} or null
export function analyse(text, mode, wantTokens) {
  src = text;
  const tokens = [];
  const opts = { ecmaVersion: /\bimport\b[^]*?\(/.test(text) ? 2020 : 2019, sourceType: mode, allowHashBang: false, onToken: wantTokens ? t => { if (t.type.label !== 'eof') tokens.push(t.start, t.end, t.type.label === '`' || t.type.label === 'template' ? 1 : 0); } : undefined };
  const ast = acorn.parse(text, opts);
  return { parts: ast.body.map(part), tokens };
}
export function fnv(s) {
  const b = Buffer.from(s, 'utf8');
  let a = 0x811c9dc5 | 0, c = 0x1234567 | 0;
  for (let i = 0; i < b.length; i++) { a = Math.imul(a ^ b[i], 0x01000193); c = Math.imul((c ^ b[i]) + 0x9e3779b9 | 0, 0x85ebca6b); c ^= c >>> 13; }
  return (a >>> 0).toString(16).padStart(8, '0') + (c >>> 0).toString(16).padStart(8, '0');
}
