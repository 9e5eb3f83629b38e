// C17: maxSize and minSize
var m = loadModule({});
if (P.mode === 'max' || P.mode === 'min') {
	var len = sym.int('len', 0, 1099511627776), given, ls;
	if (P.ls === 'sym') ls = given = sym.int('line', 1, 2147483647);
	else if (P.ls === 'none') { ls = 128; given = undefined; }
	else { given = P.ls; ls = P.ls || 128; }
	if (P.mode === 'max') {
		var mx = m.maxSize(len, given);
		sym.obs('max', mx);
		sym.reach('max');
		if (len === 0) sym.check(mx === 0, 'maxSize(0) is not 0');
		else {
			var need = 2 * len + 2 + 64 + (ls === 128 ? 2 * Math.floor(len * 2 / 128) : 2 * Math.floor(2 * len / ls));
			sym.check(mx >= need, 'maxSize is smaller than the space encodeTo demands');
			// any encoding: chars characters on lines of at least ls (the first one ls-col) characters each
			var chars = sym.int('chars', 1), col = sym.int('col', 0), nl = sym.int('newlines', 0);
			sym.assume(chars >= len && chars <= 2 * len && col < ls);
			sym.assume(P.ls === 'sym' ? nl <= Math.floor(2 * len / ls) + 1 : nl * ls <= chars + col);
			sym.check(chars + 2 * nl <= mx, 'an encoding can be longer than maxSize');
		}
	} else {
		var mn = m.minSize(len, given);
		sym.obs('min', mn);
		sym.reach('min');
		if (len === 0) sym.check(mn === 0, 'minSize(0) is not 0');
		else {
			// no line holds more than ls bytes of data, and a line end is written only before further data
			var nl2 = sym.int('newlines', 0);
			sym.assume(nl2 === Math.floor((len - 1) / ls));
			sym.check(len + 2 * nl2 >= mn, 'minSize exceeds the size of an encoding without escapes');
			sym.check(mn >= len, 'minSize is smaller than the data');
		}
	}
} else if (P.mode === 'ratio') {
	var r = sym.fp('ratio'), ok = r >= 0 && r <= 1, far = r <= -1.2e-16 || r >= 1.0000000000000005, v, threw = false;
	try { v = m.maxSize(P.len, P.ls, r); } catch (e) { threw = true; }
	sym.reach(threw ? 'rejected' : 'accepted');
	if (ok) sym.check(!threw, 'a valid escape ratio is rejected');
	if (far) sym.check(threw, 'an escape ratio outside 0..1 is accepted');
} else if (P.mode === 'ratio1') {
	var n = sym.int('len', 1, 1099511627776);
	sym.check(m.maxSize(n, P.ls, 1) === m.maxSize(n, P.ls), 'escape ratio 1 is not the default');
	var z = m.maxSize(n, P.ls, 0);
	sym.obs('z', z);
	sym.check(z >= m.minSize(n, P.ls), 'maxSize at ratio 0 is below minSize');
	sym.reach('ratio1');
}
