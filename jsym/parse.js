// node parse.js file : ESTree JSON of a script
'use strict';
var acorn;
for (var p of ['/opt/veriftools/node/node_modules/acorn', 'acorn']) { try { acorn = require(p); break; } catch (e) {} }
var src = require('fs').readFileSync(process.argv[2], 'utf8').replace(/^#!.*/, '');
var ast = acorn.parse(src, { ecmaVersion: 'latest', sourceType: 'script', locations: false, allowReturnOutsideFunction: true });
var lines = []; for (var i = 0, n = 1; i <= src.length; i++) { lines.push(n); if (src[i] == '\n') n++; }
process.stdout.write(JSON.stringify(ast, function (k, v) {
	if (k === 'start') return lines[v];
	if (k === 'end') return undefined;
	if (typeof v === 'bigint') return { bigint: v.toString() };
	if (v instanceof RegExp) return undefined;
	return v;
}));
