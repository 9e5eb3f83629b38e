// C20: decodeChunk. P: arg (how the state and the output are passed), n (state length), len (data length)
var calls = [], result;
var y = {
	decodeIncr: function (data, state, output) {
		calls.push({ data: data, state: state, output: output, n: arguments.length });
		// arbitrary answer of the native part
		var ended = sym.pick('ended', 3), st = sym.pick('state', 7), rd = sym.int('read', 0, 1000000), wr = sym.int('written', 0, 1000000);
		result = { read: rd, written: wr, ended: ended, state: st };
		if (!Buffer.isBuffer(output)) result.output = own = sym.opaque('decoded', wr);
		return result;
	}
};
var own = null;
var m = loadModule(y);
var STATES = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
// what the native decoder has to start from after the characters s
function stateOf(s) {
	function ends(t) { var k = s.length - t.length; if (k < 0) return false; for (var i = 0; i < t.length; i++) if (s[k + i] !== t[i]) return false; return true; }
	if (ends('\r\n.\r')) return 5;
	if (ends('\r\n.=')) return 6;
	if (ends('\r\n.')) return 4;
	if (ends('\r\n=')) return 6;
	if (ends('\r\n')) return 0;
	if (ends('\r')) return 2;
	if (ends('=')) return 1;
	return 3;
}
var data = sym.opaque('data', P.len), outbuf = Buffer.alloc(3), prev, expected, r;
var given = P.arg;
if (P.kind === 'none') { prev = given === 'undef' ? undefined : null; expected = 0; }
else if (P.kind === 'table') { var k = sym.pick('which', 9); prev = (STATES.concat(['\r\n=y', '\r\n.\r\n']))[k]; expected = k < 7 ? k : stateOf(prev); }
else if (P.kind === 'str') { prev = sym.str('prev', P.n); var lit = prev; 
	sym.assume(!(P.n >= 2 && prev[P.n - 1] === '=' && prev[P.n - 2] === '='));   // a run of '=' is not decided by the last characters alone
	expected = stateOf(prev); }
else if (P.kind === 'buf') { prev = sym.bytes('prev', P.n); var i, txt = ''; for (i = 0; i < P.n; i++) { sym.assume(prev[i] < 128); txt += String.fromCharCode(prev[i]); }
	sym.assume(!(P.n >= 2 && prev[P.n - 1] === 61 && prev[P.n - 2] === 61));
	expected = stateOf(txt); }
function call(p, out) {
	switch (P.args) {
		case 'data': return m.decodeChunk(data);
		case 'data-state': return m.decodeChunk(data, p);
		case 'data-out': return m.decodeChunk(data, out);
		case 'data-out-state': return m.decodeChunk(data, out, p);
		case 'data-state-out': return m.decodeChunk(data, p, out);
		case 'data-undef-state': return m.decodeChunk(data, undefined, p);
	}
}
var withOut = P.args.indexOf('out') >= 0;
try { r = call(prev, outbuf); } catch (e) { sym.fail('decodeChunk throws ' + e.name); }
sym.check(r.ended === true || r.ended === false, 'ended is not a boolean');
if (withOut) sym.check(r.output === outbuf, 'output is not the supplied Buffer');
else sym.check(Buffer.isBuffer(r.output), 'output is not a Buffer');
sym.check(typeof r.state === 'string' && (r.ended || r.state.length <= 4), 'state is not a string of up to four characters');
if (data.length === 0) {
	sym.reach('empty');
	sym.check(r.read === 0 && r.written === 0 && r.ended === false, 'empty input reports progress');
	if (!withOut) sym.check(r.output.length === 0, 'empty input produces output');
	if (calls.length) { sym.check(calls.length === 1 && calls[0].state === expected, 'decoding starts from the wrong state'); }
	else sym.check(stateOf(r.state) === expected, 'empty input changes the state');
	sym.obs('state', r.state);
} else {
	sym.reach('decoded');
	sym.check(calls.length === 1, 'native decoder not called exactly once');
	sym.check(calls[0].data === data, 'other data decoded');
	sym.check(calls[0].state === expected, 'decoding starts from the wrong state');
	sym.check(withOut ? calls[0].output === outbuf : !calls[0].output, 'output Buffer not passed on');
	sym.check(r.read === result.read && r.written === result.written, 'read or written differ from the native result');
	if (!withOut) sym.check(r.output === own, 'output is not what the decoder produced');
	sym.check(r.ended === (result.ended !== 0), 'ended is wrong');
	if (result.ended === 0) sym.check(r.state === STATES[result.state], 'state does not describe the decoder state');
	else sym.check(r.state === (result.ended === 1 ? '\r\n=y' : '\r\n.\r\n'), 'state does not tell the kind of end');
	sym.obs('result', { read: r.read, written: r.written, ended: r.ended, state: r.state });
	// feed it back
	if (result.ended === 0 && P.again) {
		var st1 = result.state, st2 = r.state;
		calls = [];
		try { r = call(st2, outbuf); } catch (e) { sym.fail('decodeChunk throws ' + e.name + ' for a state it returned'); }
		sym.check(calls.length === 1 && calls[0].state === st1, 'a returned state does not continue the stream');
		sym.reach('continued');
	}
}
