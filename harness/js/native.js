// Stand-in for the native module: every call is recorded, encodings are opaque Buffers, checksums arbitrary bytes.
// The same data gives the same checksum; combining follows the algebra of concatenation.
var enc = [], crcs = [], pieces = [], decs = [], other = 0;
function num(v) { return typeof v === 'number'; }
function encoded(data, line_size, col) {
	var o = P.encoded ? P.encoded(data, enc.length) : sym.opaque('enc' + enc.length, sym.int('enclen' + enc.length, 0, 1000000));
	enc.push({ data: data, line_size: line_size, col: col, n: arguments.length, out: o });
	return o;
}
var ZERO4 = Buffer.from([0, 0, 0, 0]);
// arbitrary checksum values; different data (or sequences of data) are taken to have different, nonzero checksums
function newCrc(name, k) {
	return Buffer.from([sym.byte(name + '.0', { lo: 16 * k, hi: 16 * k + 15 }), sym.byte(name + '.1'), sym.byte(name + '.2'), sym.byte(name + '.3', { lo: 1, hi: 255 })]);
}
function entryOf(data) {
	for (var i = 0; i < crcs.length; i++) if (crcs[i].data.length === data.length && crcs[i].data.equals(data)) return crcs[i];
	var e = { data: data, crc: data.length === 0 ? ZERO4 : newCrc('crc' + crcs.length, crcs.length) };
	crcs.push(e);
	return e;
}
function crcOf(data) { return entryOf(data).crc; }
// checksum of the concatenation of the given pieces (list of data Buffers)
function crcOfPieces(all) {
	var list = [], i, j;
	for (i = 0; i < all.length; i++) if (all[i].length !== 0) list.push(entryOf(all[i]).data);
	if (list.length === 0) return ZERO4;
	if (list.length === 1) return crcOf(list[0]);
	for (i = 0; i < pieces.length; i++) {
		if (pieces[i].list.length !== list.length) continue;
		for (j = 0; j < list.length; j++) if (pieces[i].list[j] !== list[j]) break;
		if (j === list.length) return pieces[i].crc;
	}
	var c = newCrc('pcrc' + pieces.length, 8 + pieces.length);
	pieces.push({ list: list, crc: c });
	return c;
}
// the data whose checksum c is (list of pieces), or null
function piecesOf(c) {
	var i;
	if (c.equals(ZERO4)) return [];
	for (i = 0; i < crcs.length; i++) if (crcs[i].crc.equals(c)) return [crcs[i].data];
	for (i = 0; i < pieces.length; i++) if (pieces[i].crc.equals(c)) return pieces[i].list;
	return null;
}
function unknown() { other++; return sym.bytes('othercrc' + other, 4); }
var y = {
	encode: encoded,
	crc32: function (data, init) {
		if (init === undefined || init === false || init === null) return Buffer.from(crcOf(data));
		var la = piecesOf(init);
		return la === null ? unknown() : Buffer.from(crcOfPieces(la.concat([data])));
	},
	crc32_combine: function (a, b, len) {
		var i, la = piecesOf(a), db = null;
		if (b.equals(ZERO4) && len === 0) db = ZERO4.slice(0, 0);
		for (i = 0; db === null && i < crcs.length; i++) if (crcs[i].crc.equals(b) && crcs[i].data.length === len) db = crcs[i].data;
		return la === null || db === null ? unknown() : Buffer.from(crcOfPieces(la.concat([db])));
	}
};
