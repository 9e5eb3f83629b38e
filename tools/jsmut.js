// Lists mutants of /repo/index.js (JSON lines: line, replaced range, text): development tool,
// used to measure the checks of index.js; no check runs it.
'use strict';
const fs = require('fs');
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const src = fs.readFileSync(process.argv[2] || '/repo/index.js', 'utf8');
const ast = acorn.parse(src, {ecmaVersion: 2022, sourceType: 'script', locations: true});
const out = [];
const put = (n, text, kind) => out.push({kind, line: n.loc.start.line, start: n.start, end: n.end, old: src.slice(n.start, n.end), text});
const T = n => src.slice(n.start, n.end);
const OPS = {'<': ['<=', '>='], '<=': ['<'], '>': ['>=', '<='], '>=': ['>'], '==': ['!='], '!=': ['=='], '===': ['!=='], '!==': ['==='], '+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '&&': ['||'], '||': ['&&']};
function walk(n, parent) {
  if (!n || typeof n.type !== 'string') return;
  switch (n.type) {
  case 'BinaryExpression': case 'LogicalExpression':
    for (const o of OPS[n.operator] || []) {
      if (n.operator === '+' && (n.left.type === 'Literal' && typeof n.left.value === 'string' || n.right.type === 'Literal' && typeof n.right.value === 'string')) continue;
      const a = n.left.end, b = n.right.start;
      const mid = src.slice(a, b);
      out.push({kind: 'op', line: n.loc.start.line, start: a, end: b, old: mid, text: mid.replace(n.operator, o)});
    }
    if (n.type === 'LogicalExpression') { put(n, T(n.left), 'dropright'); put(n, T(n.right), 'dropleft'); }
    break;
  case 'Literal':
    if (typeof n.value === 'number') { put(n, String(n.value + 1), 'const'); if (n.value > 0) put(n, String(n.value - 1), 'const'); }
    else if (typeof n.value === 'string' && n.value && n.value !== 'use strict') put(n, JSON.stringify(n.value.slice(0, -1)), 'str');
    else if (typeof n.value === 'boolean') put(n, String(!n.value), 'bool');
    else if (n.regex) {
      const r = n.regex.pattern;
      for (const [a, b] of [['+', '*'], ['*', '+'], ['^', ''], ['$', ''], ['\\d', '.'], ['{8}', '+'], ['A-F', ''], ['0-9', ''], ['\\0', ''], ['\\n', ''], ['\\r', ''], ['_', '']])
        if (r.includes(a)) put(n, '/' + r.replace(a, b) + '/' + n.regex.flags, 're');
      if (n.regex.flags) put(n, '/' + r + '/', 're');
    }
    break;
  case 'IfStatement': case 'ConditionalExpression': case 'WhileStatement':
    put(n.test, '!(' + T(n.test) + ')', 'neg');
    if (n.type === 'IfStatement') { put(n.test, 'true', 'true'); put(n.test, 'false', 'false'); }
    break;
  case 'UnaryExpression':
    if (n.operator === '!' || n.operator === '+' || n.operator === '-') put(n, T(n.argument), 'unary');
    break;
  case 'ExpressionStatement':
    if (n.directive) break;
    put(n, ';', 'del'); break;
  case 'CallExpression':
    if (n.callee.type === 'MemberExpression' && !n.callee.computed) {
      const m = n.callee.property.name;
      if (['trim', 'toLowerCase', 'toString', 'concat', 'replace'].includes(m)) put(n, T(n.callee.object), 'dropcall');
    }
    if (n.arguments.length > 1) put(n.arguments[n.arguments.length - 1], 'undefined', 'arg');
    break;
  case 'BreakStatement': case 'ContinueStatement': put(n, ';', 'delbreak'); break;
  case 'AssignmentExpression':
    if (n.operator === '+=') put({...n}, T(n.left) + ' -= ' + T(n.right), 'assign');
    break;
  case 'UpdateExpression': if (parent.type === 'ExpressionStatement') put(n, T(n.argument) + '--', 'upd'); break;
  }
  for (const k of Object.keys(n)) {
    const v = n[k];
    if (Array.isArray(v)) v.forEach(c => walk(c, n)); else if (v && typeof v === 'object' && v.type) walk(v, n);
  }
}
walk(ast, null);
const seen = new Set();
for (const m of out) {
  const t = src.slice(0, m.start) + m.text + src.slice(m.end);
  if (seen.has(t) || t === src) continue;
  seen.add(t);
  try { acorn.parse(t, {ecmaVersion: 2022}); } catch (e) { continue; }
  console.log(JSON.stringify(m));
}
