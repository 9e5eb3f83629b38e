// C22: YEncoder. Any sequence of P.calls encode() calls with data of any length against any declared size and number of parts.
var m = loadModule(y);
if (P.enc) m.encoding = P.enc;
var name = P.pre + sym.str('name', P.n), clean = '', i, ch;
for (i = 0; i < name.length; i++) { ch = name[i]; if (ch !== '\r' && ch !== '\n' && ch !== '\0' && clean.length < 256) clean += ch; }
clean = Buffer.from(clean, P.enc || 'utf8');
if (P.enc) clean = Buffer.from(clean.toString('latin1').replace(/[\r\n\0]/g, ''), 'latin1');
var size = sym.int('size', 0, 1099511627776), parts = P.parts === 'sym' ? sym.int('parts', 2, 1000000) : P.parts;
var line = P.line === 'none' ? undefined : P.line === 'sym' ? sym.int('line', 1, 2147483647) : P.line, L = line ? line : 128, e;
try { e = line === undefined ? m.multi_post(name, size, parts) : m.multi_post(name, size, parts, line); } catch (x) { sym.fail('multi_post throws ' + x.name); }
var multi = parts > 1, part = 0, pos = 0, fed = [], done = false;
sym.check(e.size === size && e.line_size === L && e.part === 0 && e.pos === 0, 'properties of a new YEncoder');
for (i = 0; i < P.calls; i++) {
	var len, data, arg, out = null, err = null, before = enc.length;
	if (P.data === 'string') { arg = 'h\u00e9' + i; data = Buffer.from(arg); len = 4; }
	else if (P.data === 'array') { arg = [i, 61]; data = Buffer.from(arg); len = 2; }
	else { len = sym.int('len' + i, 0, 1099511627776); arg = data = sym.opaque('data' + i, len); }
	var ok;
	if (multi) ok = part < parts && pos + len <= size && (part + 1 !== parts || pos + len === size);
	else ok = !done && len === size;
	try { out = e.encode(arg); } catch (x) { err = x; }
	if (!ok) {
		sym.reach('refused');
		sym.check(err !== null, 'a part that does not fit the declared file is accepted');
		sym.check(err.name === 'Error', 'refused with ' + err.name);
		sym.check(e.part === part && e.pos === pos, 'a refused call changes the state');
		continue;
	}
	sym.reach('accepted');
	sym.check(err === null, 'encode throws ' + (err && err.message));
	part++; fed = fed.concat([data]);
	sym.check(enc.length === before + 1 && Buffer.isBuffer(enc[before].data) && enc[before].data.equals(data), 'not the data is encoded');
	sym.check(enc[before].line_size === L || (L === 128 && !enc[before].line_size), 'encoded with another line size');
	sym.check(!enc[before].col, 'encoding does not start at column 0');
	var crc = crcOf(data).toString('hex'), want;
	if (multi) want = [Buffer.from('=ybegin part=' + part + ' total=' + parts + ' line=' + L + ' size=' + size + ' name='), clean, Buffer.from('\r\n=ypart begin=' + (pos + 1) + ' end=' + (pos + len) + '\r\n'), enc[before].out,
		Buffer.from('\r\n=yend size=' + len + ' part=' + part + ' pcrc32=' + crc + (part === parts ? ' crc32=' + crcOfPieces(fed).toString('hex') : ''))];
	else { want = [Buffer.from('=ybegin line=' + L + ' size=' + size + ' name='), clean, Buffer.from('\r\n'), enc[before].out, Buffer.from('\r\n=yend size=' + size + ' crc32=' + crc)]; done = true; }
	pos = pos + len;
	if (part === parts) sym.reach('complete');
	sym.obs('part', out);
	sym.check(Buffer.isBuffer(out) && out.equals(Buffer.concat(want)), 'the part is not what the file and its position require');
	sym.check(e.part === part && e.pos === pos, 'part or pos not advanced');
	sym.check(e.crc.equals(crcOfPieces(fed)), 'crc is not that of the data so far');
}
