// node run.js target.js harness.js cases.json : concrete execution of the harness with given inputs; one JSON result per case
'use strict';
var fs = require('fs'), vm = require('vm');
var target = fs.readFileSync(process.argv[2], 'utf8'), harness = fs.readFileSync(process.argv[3], 'utf8'), cases = JSON.parse(fs.readFileSync(process.argv[4], 'utf8'));
var ARGS = ['exports', 'require', 'module', '__filename', '__dirname', 'sym', 'P', 'loadModule'];
function compile(src, file) { return vm.compileFunction(src, ARGS, { filename: file }); }
var hf = compile(harness, process.argv[3]), mf = compile(target, process.argv[2]);
function Skip() { }
function filler(key, n) { var k = 0; for (var i = 0; i < key.length; i++) k += key.charCodeAt(i); var b = Buffer.alloc(n); for (i = 0; i < n; i++) b[i] = 65 + (i + k) % 26; return b; }
function ser(v, d) {
	d = d | 0;
	if (v === undefined) return { u: 1 };
	if (v === null || typeof v == 'boolean' || typeof v == 'string') return v;
	if (typeof v == 'number') return isFinite(v) ? v : { n: isNaN(v) ? 'nan' : v > 0 ? 'inf' : '-inf' };
	if (Buffer.isBuffer(v)) return { b: v.toString('hex') };
	if (d > 6) return '...';
	if (Array.isArray(v)) return v.map(function (x) { return ser(x, d + 1); });
	if (typeof v == 'function') return { f: 1 };
	return { o: Object.keys(v).map(function (k) { return [k, ser(v[k], d + 1)]; }) };
}
cases.forEach(function (cs) {
	var vals = new Map(cs.inputs), seen = {}, obs = [], fails = [];
	function val(n) { var q = n, i = 1; while (seen[q]) { i++; q = n + '#' + i; } seen[q] = 1; if (!vals.has(q)) throw new Skip(); var v = vals.get(q); return typeof v == 'string' ? Number(v) : v; }
	var sym = {
		symbolic: false,
		byte: val, unit: val, int: val, fp: val, bool: function (n) { return val(n) === 1; }, pick: function (n) { return val(n); },
		str: function (n, l) { var s = ''; for (var i = 0; i < l; i++) s += String.fromCharCode(val(n + '.' + i)); return s; },
		bytes: function (n, l) { var b = Buffer.alloc(l); for (var i = 0; i < l; i++) b[i] = val(n + '.' + i); return b; },
		opaque: function (n, l) { return filler(n, l); },
		check: function (c, m) { if (!c) fails.push(m); }, assume: function (c) { if (!c) throw new Skip(); }, reach: function () { }, obs: function (k, v) { obs.push([k, ser(v)]); }, fail: function (m) { fails.push(m); }
	};
	function loadModule(y) {
		var m = { exports: {} };
		mf.call(m.exports, m.exports, function (n) { return /\.node$/.test(n) ? y : require(n); }, m, '/repo/index.js', '/repo');
		return m.exports;
	}
	var r = {};
	try { hf.call(undefined, {}, require, {}, '', '', sym, cs.params, loadModule); }
	catch (e) { if (e instanceof Skip) r.skip = true; else fails.push('uncaught exception ' + (e && e.name) + ': ' + (e && e.message)); }
	r.fails = fails; r.obs = obs;
	process.stdout.write(JSON.stringify(r) + '\n');
});
