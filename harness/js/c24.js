// C24: the warnings of from_post. P.mode 'fields': any numbers in the fields; 'crc': any checksum text; 'text': a fixed article with arbitrary bytes at one place.
var m = loadModule(y), i, r;
var datalen, CRC = P.mode === 'text' ? Buffer.from([1, 35, 69, 103]) : P.mode === 'crc' ? Buffer.from([0x1a, 0x0b, 0xf2, 0xdc]) : newCrc('crc', 0);
if (P.mode === 'crc') CRC[P.at >> 1] = sym.byte('crcbyte');
y.decode = function (data) { return P.mode === 'text' || P.mode === 'crc' ? Buffer.from('abcde') : sym.opaque('decoded', datalen); };
y.crc32 = function (data, init) { return Buffer.from(data.length === 0 ? [0, 0, 0, 0] : CRC); };
function parse(b) {
	try { return m.from_post(b); } catch (x) { sym.fail('from_post throws ' + x.name + ': ' + x.message); }
}
if (P.mode === 'fields') {
	var f = {}, w = [], o = [], has = function (k) { return P.has.indexOf(k) >= 0; };
	var num = function (k) {
		var v, s, j, d;
		if (P.digits) {   // as single characters, without leading zeros
			s = '';
			for (j = 0; j < P.digits; j++) s += String.fromCharCode(48 + (d = sym.byte(k + '.' + j, { lo: j === 0 && P.digits > 1 ? 1 : 0, hi: 9 })));
			f[k] = Number(s);
			return s;
		}
		v = sym.int(k, P.pos ? 1 : 0, 1000000000000);
		f[k] = v;
		return String(v);
	};
	datalen = P.empty ? 0 : P.same ? sym.int('esize', 1, 1000000000000) : sym.int('datalen', P.digits ? 1 : 0, P.digits ? 99 : 1000000000000);
	var crcText = function (kind) {
		var c = P.empty ? Buffer.from([0, 0, 0, 0]) : CRC, s;
		if (kind === 'other') c = newCrc('othercrc', 1);
		s = c.toString('hex');
		if (kind === 'upper') s = s.toUpperCase();
		if (kind === 'short') s = s.slice(1);
		if (kind === 'long') s = s + '0';
		if (kind === 'bad') s = s.slice(0, 7) + 'g';
		return s;
	};
	var kind = function (k) { return k === undefined ? undefined : k === 'other' ? 'other' : k === 'short' || k === 'long' || k === 'bad' ? 'bad' : 'same'; };
	var t = '=ybegin';
	if (has('bpart')) t += ' part=' + num('bpart');
	if (has('total')) t += ' total=' + num('total');
	t += ' line=' + (has('line') ? num('line') : '128') + ' size=' + num('size') + ' name=a\r\n';
	if (has('ypart')) { t += '=ypart'; if (has('pbegin')) t += ' begin=' + num('pbegin'); if (has('pend')) t += ' end=' + num('pend'); t += '\r\n'; }
	var u = '=yend size=';
	if (P.same) { f.esize = datalen; u += String(datalen); } else u += num('esize');
	if (has('epart')) u += ' part=' + num('epart');
	if (P.pcrc) u += ' pcrc32=' + crcText(P.pcrc);
	if (P.crc) u += ' crc32=' + crcText(P.crc);
	var b = Buffer.concat([Buffer.from(t + (P.empty === 'line' ? '' : P.empty ? '\r\n' : 'abc\r\n')), Buffer.from(u + '\r\n')]);
	if (P.empty !== 'line' && !P.empty && !P.digits) sym.assume(datalen > 0);
	r = parse(b);
	sym.check(!(r instanceof Error), 'from_post fails with ' + r.code);
	sym.reach('parsed');
	consistency(f, has('ypart'), kind(P.pcrc), kind(P.crc), datalen, w, o);
	sym.obs('warnings', (r.warnings || []).map(function (x) { return x.code; }).sort());
	sym.reach(w.length ? 'inconsistent' : 'consistent');
	sameWarnings(r.warnings, w, o);
} else if (P.mode === 'crc') {
	// the stated checksum differs from the true one in one character, which is arbitrary
	var c = CRC.toString('hex'), ch = sym.unit('char', { lo: 33, hi: 126 }), s = c.slice(0, P.at) + String.fromCharCode(ch) + c.slice(P.at + 1), w = [], o = [];
	if (P.upper) s = s.toUpperCase();
	var k = !hex8(s) ? 'bad' : s.toLowerCase() === c ? 'same' : 'other', x = P.field === 'pcrc32';
	r = parse(Buffer.from('=ybegin line=128 size=5 name=a\r\nabcde\r\n=yend size=5 ' + P.field + '=' + s + '\r\n'));
	sym.check(!(r instanceof Error), 'from_post fails with ' + r.code);
	sym.reach('checksum ' + k);
	consistency({ size: 5, esize: 5 }, false, x ? k : undefined, x ? undefined : k, 5, w, o);
	sym.obs('warnings', (r.warnings || []).map(function (x) { return x.code; }).sort());
	sameWarnings(r.warnings, w, o);
} else {
	var t = Buffer.from(P.text, 'latin1'), win = sym.bytes('w', P.n), b = Buffer.concat([t.slice(0, P.at), win, t.slice(P.at + P.del)]), x = ref(b, 'utf8');
	if (!x.code) {
		r = parse(b);
		sym.check(!(r instanceof Error), 'from_post fails with ' + r.code);
		sym.reach('parsed');
		sameProps(r.props, x.lines);
		var B = find(x.lines, 'begin'), Q = find(x.lines, 'part'), E = find(x.lines, 'end'), f = {}, canon = true;
		var field = function (k, list, key) {
			var v = find(list, key);
			if (v === undefined || v === '') return;
			if (!digits(v)) { x.w.push('invalid_prop_' + key); canon = false; return; }
			if (v.length > 1 && v[0] === '0') { canon = false; return; }
			f[k] = Number(v);
		};
		field('line', B, 'line'); field('total', B, 'total'); field('bpart', B, 'part'); field('size', B, 'size'); field('pbegin', Q, 'begin'); field('pend', Q, 'end'); field('esize', E, 'size'); field('epart', E, 'part');
		var crcKind = function (v) { return !v ? undefined : !hex8(v) ? 'bad' : v.toLowerCase() === (x.dataStart === undefined ? '00000000' : '01234567') ? 'same' : 'other'; };
		if (canon) consistency(f, Q !== undefined, crcKind(find(E, 'pcrc32')), crcKind(find(E, 'crc32')), x.dataStart === undefined ? 0 : 5, x.w, x.o);
		sym.obs('warnings', (r.warnings || []).map(function (q) { return q.code; }).sort());
		// what disagreement means for numbers that are not written canonically is not specified
		sameWarnings(r.warnings, x.w, x.o, canon ? null : function (c) { return !(c === 'ignored_line_data' || c === 'duplicate_property' || c === 'duplicate_line' || c === 'missing_yend_newline' || c.slice(0, 13) === 'invalid_prop_') || c === 'invalid_prop_crc32' || c === 'invalid_prop_pcrc32'; });
	} else sym.reach('error');
}
