// C23: from_post. P.mode 'round': articles of post and YEncoder, with text around; 'text': a fixed article with arbitrary bytes at one place.
var m = loadModule(y), decoded = [];
if (P.enc) m.encoding = P.enc;
var ENC = P.enc || 'utf8', i;
y.decode = function (data, raw) {
	var o = null, k = enc.length - 1;
	if (k >= 0 && data.length === enc[k].out.length && data.equals(enc[k].out)) o = enc[k].data;
	decoded.push({ data: data, raw: raw, out: o });
	return o || sym.opaque('other' + decoded.length, sym.int('otherlen' + decoded.length, 0, 1000000));
};
if (P.mode === 'round') {
	// any encoding: contains no CRLF followed by '=y', starts neither with a critical character nor with '=y'
	P.encoded = function (data, k) {
		var b, j;
		if (P.e === 0 || data.length === 0) return Buffer.alloc(0);
		var n = P.e === 'big' ? 4 : P.e, first = P.first === '=' && n > 1;
		b = Buffer.concat([first ? Buffer.from([61, sym.byte('second' + k, [64, 74, 77, 125, 110, 73, 96])]) : Buffer.from([sym.byte('first' + k, { lo: 1, hi: 255, no: [10, 13, 61] })]), sym.bytes('enc' + k, n - (first ? 2 : 1))]);
		if (b.length === 4) b = Buffer.concat([b.slice(0, 2), sym.opaque('encmid' + k, sym.int('encmidlen' + k, 0, 1000000), '\r\n='), Buffer.from(P.e === 'big' ? '\r\n' : ''), sym.opaque('encmore' + k, 40, '\r\n='), b.slice(2, 4)]);
		return b;
	};
	var name = P.pre + sym.str('name', P.n, { lo: 0, hi: 65535, gaplo: P.n > 1 ? 0xd800 : 65536, gaphi: P.n > 1 ? 0xdbff : 65536 }) + (P.suf || ''), clean = '', ch, art, e, len, size, total, data, want, pos = 0, k, r;
	for (i = 0; i < name.length; i++) { ch = name[i]; if (ch !== '\r' && ch !== '\n' && ch !== '\0' && clean.length < 256) clean += ch; }
	clean = Buffer.from(clean, ENC);
	if (P.enc) clean = Buffer.from(clean.toString('latin1').replace(/[\r\n\0]/g, ''), 'latin1');
	clean = clean.toString(ENC);
	if (P.by === 'post' || P.by === 'single') {
		len = P.e === 0 ? 0 : sym.int('len', 1, 1000000);
		data = sym.opaque('data', len);
		if (P.by === 'post') art = m.post(name, data, P.line); else art = m.multi_post(name, len, 1, P.line).encode(data);
		want = [['begin', [['line', String(P.line || 128)], ['size', String(len)], ['name', clean]]], ['end', [['size', String(len)], ['crc32', crcOf(data).toString('hex')]]]];
	} else {
		size = sym.int('size', 1, 1000000000); total = sym.int('parts', 2, 10000);
		e = m.multi_post(name, size, total, P.line);
		var fed = [];
		for (k = 0; k < P.parts; k++) {
			len = sym.int('len' + k, 1, 1000000);
			sym.assume(pos + len <= size && k + 1 <= total && (k + 1 < total || pos + len === size));
			data = sym.opaque('data' + k, len); fed.push(data);
			art = e.encode(data);
			pos += len;
		}
		want = [['begin', [['part', String(P.parts)], ['total', String(total)], ['line', String(P.line || 128)], ['size', String(size)], ['name', clean]]], ['part', [['begin', String(pos - len + 1)], ['end', String(pos)]]],
			['end', [['size', String(len)], ['part', String(P.parts)], ['pcrc32', crcOf(data).toString('hex')]]]];
		if (P.parts === total) want[2][1].push(['crc32', crcOfPieces(fed).toString('hex')]);
	}
	var coded = enc[enc.length - 1].out, before, after, all;
	before = P.before === 'blob' ? Buffer.concat([Buffer.from('some text'), sym.opaque('text', sym.int('textlen', 0, 1000000), '\r\n='), Buffer.from('\r\n')]) : P.before ? Buffer.concat([sym.bytes('text', P.before - 2), Buffer.from('\r\n')]) : Buffer.alloc(0);
	if (P.fixedBefore) before = Buffer.from(P.fixedBefore);
	after = P.after === undefined ? Buffer.alloc(0) : P.after === 'blob' ? Buffer.concat([Buffer.from('\r\n'), sym.opaque('rest', sym.int('restlen', 0, 1000000), '\r\n=')]) : Buffer.concat([Buffer.from('\r\n'), sym.bytes('rest', P.after)]);
	if (P.fixedAfter) after = Buffer.from(P.fixedAfter);
	all = Buffer.concat([before, art, after]);
	try { r = P.raw === undefined ? m.from_post(all) : m.from_post(all, P.raw); } catch (x) { sym.fail('from_post throws ' + x.name + ': ' + x.message); }
	sym.check(!(r instanceof Error), 'from_post fails with ' + r.code);
	sym.reach('parsed');
	sym.obs('props', r.props);
	sym.check(r.yencStart === before.length, 'yencStart is wrong');
	sym.check(r.yencEnd === before.length + art.length + (after.length ? 2 : 0), 'yencEnd is wrong');
	// an article without data may be reported without a data range
	var trailer = art.length - coded.length;
	if (P.e === 0 && r.dataStart === undefined) sym.check(r.dataEnd === undefined, 'dataEnd without dataStart');
	else {
		sym.check(decoded.length === 1, 'not decoded exactly once');
		sym.check(decoded[0].data.length === coded.length && decoded[0].data.equals(coded), 'other bytes than the encoded data are decoded');
		sym.check(!decoded[0].raw === !P.raw, 'the dot unstuffing flag is not passed on');
		sym.check(r.dataEnd - r.dataStart === coded.length && (coded.length === 0 || all.slice(r.dataStart, r.dataEnd).equals(coded)), 'dataStart and dataEnd do not delimit the encoded data');
		sym.check(hasAt(all, r.dataStart - 2, '\r\n') && hasAt(all, r.dataEnd, '\r\n=yend '), 'dataStart and dataEnd do not delimit the encoded data');
		sym.check(r.data.length === data.length && r.data.equals(data), 'data is not the original data');
		sym.check(r.crc32.equals(crcOf(data)), 'crc32 is not that of the data');
	}
	// the header line does not keep white space around the name
	var d = Object.getOwnPropertyDescriptor(r.props, 'begin');
	sym.check(d !== undefined && typeof d.value.name === 'string' && d.value.name.trim() === clean.trim(), 'name is not the name given');
	want[0][1][want[0][1].length - 1][1] = d.value.name;
	sameProps(r.props, want);
	sameWarnings(r.warnings, after.length ? [] : ['missing_yend_newline'], []);
} else {
	y.crc32 = function () { return Buffer.from([1, 35, 69, 103]); };
	var t = Buffer.from(P.text, 'latin1'), win = sym.bytes('w', P.n), b = Buffer.concat([t.slice(0, P.at), win, t.slice(P.at + P.del)]), x = ref(b, ENC), r;
	try { r = m.from_post(b); } catch (ex) { sym.fail('from_post throws ' + ex.name + ': ' + ex.message); }
	if (x.code) {
		sym.reach('error ' + x.code);
		sym.obs('code', r.code);
		sym.check(r instanceof Error && r.code === x.code, 'expected the error ' + x.code + ', got ' + r.code);
	} else {
		sym.reach('parsed');
		sym.check(!(r instanceof Error), 'from_post fails with ' + r.code + ' though nothing required is missing');
		sym.obs('range', [r.yencStart, r.dataStart, r.dataEnd, r.yencEnd]);
		sym.check(r.yencStart === x.yencStart && r.dataStart === x.dataStart && r.dataEnd === x.dataEnd && r.yencEnd === x.yencEnd, 'the parts of the article are not delimited correctly');
		if (x.dataStart !== undefined) sym.check(decoded.length === 1 && decoded[0].data.length === x.dataEnd - x.dataStart && decoded[0].data.equals(b.slice(x.dataStart, x.dataEnd)), 'other bytes than the encoded data are decoded');
	}
}
