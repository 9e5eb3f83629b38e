// C21: post
// file name: fixed text, then n arbitrary UTF-16 units, then fixed text
var name = P.pre + sym.str('name', P.n) + P.suf, data, N, arg;
var m = loadModule(y);
if (P.enc) m.encoding = P.enc;
if (P.data === 'opaque') { N = sym.int('size', 0, 1099511627776); arg = data = sym.opaque('data', N); }
else if (P.data === 'array') { arg = [1, 2, 61, 0, 255]; data = Buffer.from(arg); N = 5; }
else if (P.data === 'string') { arg = 'h\u00e9llo'; data = Buffer.from(arg); N = 6; }
else { arg = data = sym.bytes('data', P.len); N = P.len; }
var line = P.line === 'none' ? undefined : P.line === 'sym' ? sym.int('line', 1, 2147483647) : P.line, L = line ? line : 128, r;
try { r = line === undefined ? m.post(name, arg) : m.post(name, arg, line); } catch (e) { sym.fail('post throws ' + e.name + ': ' + e.message); }
sym.reach('posted');
sym.check(Buffer.isBuffer(r), 'post does not return a Buffer');
sym.check(enc.length === 1 && Buffer.isBuffer(enc[0].data) && enc[0].data.equals(data), 'not the data is encoded');
sym.check(enc[0].line_size === L || (L === 128 && !enc[0].line_size), 'encoded with another line size');
sym.check(!enc[0].col, 'encoding does not start at column 0');
var clean = '', i, ch;
for (i = 0; i < name.length; i++) { ch = name[i]; if (ch !== '\r' && ch !== '\n' && ch !== '\0' && clean.length < 256) clean += ch; }
clean = Buffer.from(clean, P.enc || 'utf8');
// other characters may become line ends in a single byte encoding
if (P.enc) clean = Buffer.from(clean.toString('latin1').replace(/[\r\n\0]/g, ''), 'latin1');
var crc = crcOf(data);
var want = Buffer.concat([Buffer.from('=ybegin line=' + L + ' size=' + N + ' name='), clean, Buffer.from('\r\n'), enc[0].out, Buffer.from('\r\n=yend size=' + N + ' crc32=' + crc.toString('hex'))]);
sym.obs('post', r);
sym.check(r.equals(want), 'the article is not header, encoded data, trailer');
