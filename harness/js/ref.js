// What from_post has to find in an article: an independent reading of the yEnc header lines and of the documented warnings.
function hasAt(b, i, s) { return i >= 0 && i + s.length <= b.length && b.slice(i, i + s.length).equals(Buffer.from(s)); }
function firstAt(b, i, s) { return i >= b.length ? -1 : b.indexOf(s, i); }
function lower(c) { return (c >= 'a' && c <= 'z') || c === '_'; }
function blank(s) { return s.trim() === ''; }
// properties of one line; w: warnings that must appear, o: warnings that may
function refLine(text, lines, w, o) {
	var i = text.indexOf(' '), tag = i < 0 ? text.slice(2) : text.slice(2, i), rest = i < 0 ? '' : text.slice(i + 1).trim(), props = [], k, ks, e, v, key, j;
	while (rest !== '') {
		// first '=' that follows a property name
		e = -1; ks = -1;
		for (k = 0; k < rest.length && e < 0; k++) {
			if (rest[k] !== '=') continue;
			for (j = k; j > 0 && (lower(rest[j - 1]) || (rest[j - 1] >= '0' && rest[j - 1] <= '9')); ) { j--; if (lower(rest[j])) ks = j; }
			if (ks >= 0) e = k;
		}
		if (e < 0) { (blank(rest) ? o : w).push('ignored_line_data'); break; }
		if (ks > 0) (blank(rest.slice(0, ks)) ? o : w).push('ignored_line_data');
		key = rest.slice(ks, e);
		if (tag === 'begin' && key === 'name') { v = rest.slice(e + 1); rest = ''; }
		else { j = rest.indexOf(' ', e + 1); v = j < 0 ? rest.slice(e + 1) : rest.slice(e + 1, j); rest = j < 0 ? '' : rest.slice(j + 1); }
		for (j = 0; j < props.length && props[j][0] !== key; j++);
		if (j < props.length) w.push('duplicate_property');
		props[j] = [key, v];
	}
	for (j = 0; j < lines.length && lines[j][0] !== tag; j++);
	if (j < lines.length) w.push('duplicate_line');
	lines[j] = [tag, props];
}
function find(list, key) { for (var j = 0; list && j < list.length; j++) if (list[j][0] === key) return list[j][1]; return undefined; }
function ref(b, enc) {
	var r = { w: [], o: [], lines: [] }, p, q;
	p = hasAt(b, 0, '=ybegin ') ? 0 : firstAt(b, 0, '\r\n=ybegin ');
	if (p < 0) { r.code = 'no_start_found'; return r; }
	if (!hasAt(b, p, '=ybegin ')) p += 2;
	r.yencStart = p;
	for (q = firstAt(b, p + 8, '\r\n'); q >= 0; q = firstAt(b, p, '\r\n')) {
		refLine(b.slice(p, q).toString(enc).trim(), r.lines, r.w, r.o);
		p = q + 2;
		if (!hasAt(b, p, '=y')) { r.dataStart = p; break; }
		if (hasAt(b, p, '=yend ')) break;
	}
	if (q < 0) { r.code = 'no_end_found'; return r; }
	if (r.dataStart !== undefined) {
		for (q = b.length - 8; q >= p && !hasAt(b, q, '\r\n=yend '); q--);
		if (q < p) { r.code = 'no_end_found'; return r; }
		r.dataEnd = q;
		p = q + 2;
	}
	q = firstAt(b, p + 6, '\r\n');
	if (q < 0) { r.w.push('missing_yend_newline'); q = r.yencEnd = b.length; } else r.yencEnd = q + 2;
	refLine(b.slice(p, q).toString(enc).trim(), r.lines, r.w, r.o);
	var B = find(r.lines, 'begin'), E = find(r.lines, 'end');
	if (!find(B, 'line') || !find(B, 'size') || find(B, 'name') === undefined || !find(E, 'size')) r.code = 'missing_required_properties';
	return r;
}
function digits(s) { if (s === '') return false; for (var i = 0; i < s.length; i++) if (!(s[i] >= '0' && s[i] <= '9')) return false; return true; }
function hex8(s) { if (s.length !== 8) return false; for (var i = 0; i < 8; i++) if (!((s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f') || (s[i] >= 'A' && s[i] <= 'F'))) return false; return true; }
// Consistency of the stated fields. f: values of begin.line, begin.total, begin.part, begin.size, part.begin, part.end, end.size, end.part as numbers
// (undefined: absent); hasPart: there is a =ypart line; pcrc, crc: stated (undefined: absent) as 'same', 'other', or 'bad' (not a CRC).
function consistency(f, hasPart, pcrc, crc, datalen, w, o) {
	function zero(v, name) { if (v !== undefined && v === 0) w.push('zero_prop_' + name); }
	zero(f.line, 'line'); zero(f.total, 'total'); zero(f.bpart, 'part'); zero(f.pbegin, 'begin'); zero(f.pend, 'end'); zero(f.epart, 'part');
	var differ = f.bpart !== undefined && f.epart !== undefined && f.bpart !== f.epart;
	if (differ) w.push('part_number_mismatch');
	if (f.total !== undefined && ((f.bpart !== undefined && f.bpart > f.total) || (f.epart !== undefined && f.epart > f.total))) (differ ? o : w).push('part_number_exceeds_total');
	if (f.pbegin !== undefined && f.pend !== undefined) {
		var bad = false;
		if (f.pbegin > f.pend) { w.push('invalid_part_range'); bad = true; }
		if (f.pend - f.pbegin + 1 !== f.esize) { (bad ? o : w).push('size_mismatch_part_range'); bad = true; }
		if (f.pend > f.size) (bad ? o : w).push('part_range_exceeds_size');
	} else if ((f.total !== undefined && f.total > 1) || (f.bpart !== undefined && f.bpart > 1) || (f.epart !== undefined && f.epart > 1)) w.push('missing_part_range');
	if (pcrc === 'bad') { w.push('invalid_prop_pcrc32'); o.push('pcrc32_mismatch'); }
	if (crc === 'bad') { w.push('invalid_prop_crc32'); o.push('crc32_mismatch'); }
	if (f.bpart === undefined ? f.size !== f.esize : f.size < f.esize) w.push('size_mismatch');
	if (f.esize !== datalen) w.push('data_size_mismatch');
	if (pcrc === 'other') w.push('pcrc32_mismatch');
	if (crc === 'other' && !hasPart) w.push('crc32_mismatch');
}
// given: warnings of the result; w must be there, o may be
function sameWarnings(given, w, o, skip) {
	var left = w.slice(), may = o.slice(), i, j, c;
	if (given === undefined) given = [];
	sym.check(Array.isArray(given), 'warnings is not an array');
	for (i = 0; i < given.length; i++) {
		c = given[i].code;
		sym.check(typeof c === 'string' && typeof given[i].message === 'string', 'a warning without code or message');
		if (skip && skip(c)) continue;
		j = left.indexOf(c);
		if (j >= 0) { left.splice(j, 1); continue; }
		j = may.indexOf(c);
		sym.check(j >= 0, 'unfounded warning ' + c);
		may.splice(j, 1);
	}
	sym.check(left.length === 0, 'missing warning ' + left.join(','));
}
function sameProps(props, lines) {
	sym.check(props !== null && typeof props === 'object', 'props is not an object');
	var tags = Object.keys(props), i, j, k;
	sym.check(tags.length === lines.length, 'props does not list exactly the lines of the article');
	for (i = 0; i < lines.length; i++) {
		for (j = 0; j < tags.length && tags[j] !== lines[i][0]; j++);
		sym.check(j < tags.length, 'a line is missing from props');
		var o = Object.getOwnPropertyDescriptor(props, lines[i][0]).value, keys = Object.keys(o);
		sym.check(keys.length === lines[i][1].length, 'props of a line are not exactly those of the article');
		for (k = 0; k < lines[i][1].length; k++) {
			var d = Object.getOwnPropertyDescriptor(o, lines[i][1][k][0]);
			sym.check(d !== undefined && d.value === lines[i][1][k][1], 'a property has another value');
		}
	}
}
