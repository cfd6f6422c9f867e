"use strict";
// C02: pipelined NNTP sessions. A client reads response lines and bodies from one byte stream and relies on
// decodeChunk to find where each body ends; whatever follows must be left for the response parser.
const M = require('../model.js'), G = require('../gen.js'), { chunk } = require('../stream.js');
exports.rule = 'a case is one simulated session of 1-4 pipelined articles with intact, damaged, near-miss and missing markers, cut by the network near the markers, decoded piece by piece with marker continuations lying in memory after pieces; non-trivial if a marker or near-miss was split over pieces or something followed a marker in its piece; distinct by the hash of its event history';
exports.quick = 600000;

function article(sim, k) {
	const parts = [Buffer.from('222 ' + k + ' <' + k + '@x>\r\n=ybegin line=128 size=9 name=f\r\n')];
	let body = G.wire(sim, G.length(sim, 900), false);
	// break up accidental markers? no: they are legal input, the model sees them too
	const n = sim.draw(3);
	for (let i = 0; i < n; i++) {
		sim.fault('near-miss marker');
		const t = Buffer.from(sim.pick(['\r\n=x', '\r\n.\r', '\r\n..\r\n', '\n=y', '\r=y', '\r\n.=z', '=\r\n=z', '\r\n.\n', '\r\r\n=', '=\r\n.', '\r\n=\r\n', '\r\n.\r\r\n', '==y', '\r\n==y', '\r\n.y', '\r\n..=y', '=\r\n=y', '=\r\n.\r\n', '=\n=y', '\r\n=\r\n.\r\n', '\r\n.\r\n', '\r\n=y', '\r\n.=y', '\r\n.=\r\n']), 'latin1');
		const p = sim.draw(body.length + 1);
		body = Buffer.concat([body.subarray(0, p), t, body.subarray(p)]);
	}
	parts.push(body);
	switch (sim.draw(6)) {
		case 0: case 1: parts.push(Buffer.from('\r\n=yend size=9\r\n.\r\n')); break;
		case 2: parts.push(Buffer.from('\r\n.\r\n')); sim.fault('article truncated'); break;
		case 3: parts.push(Buffer.from('\r\n.=yend size=9\r\n.\r\n')); break;
		case 4: parts.push(Buffer.from('\r\n=yend size=9\r\n.\r\n')); parts[1] = Buffer.alloc(0); parts[2] = Buffer.from(sim.pick(['=yend size=0\r\n.\r\n', '.\r\n', '.=yend\r\n.\r\n'])); break;
		default: parts.push(Buffer.from('\r\n=y')); sim.fault('connection ends inside a control line');
	}
	return Buffer.concat(parts);
}
// reference: the sessions's outcome, from the complete stream
function reference(stream) {
	const res = []; let at = 0;
	for (;;) {
		const b = stream.indexOf('=ybegin', at); if (b < 0) break;
		const l = stream.indexOf('\r\n', b); if (l < 0) break;
		const out = [];
		const r = M.decodeEnd(stream.subarray(l + 2), 0, out);
		res.push({ data: Buffer.from(out), ended: r.ended, start: l + 2, end: l + 2 + r.read });
		at = l + 2 + r.read;
		if (!r.ended) break;
	}
	return res;
}
exports.run = function(sim, env) {
	const N = sim.range(1, 3), arts = [];
	for (let i = 0; i < N; i++) arts.push(article(sim, i));
	const stream = Buffer.concat(arts);
	const ref = reference(stream);
	const pieces = G.cuts(sim, stream, 150);
	const m0 = env.machine(sim); const roam = sim.chance(1, 4);
	let at = 0, buf = Buffer.alloc(0), mode = 'line', state = null, mstate = 0, cur = [], raw = [], got = [], split = false, pi = 0, last = -1;
	const deliver = () => {
		if (pi >= pieces.length) return;
		let piece = stream.subarray(at, at + pieces[pi]); at += pieces[pi]; pi++;
		if (mode === 'line') { buf = Buffer.concat([buf, piece]); } else buf = piece;
		for (let guard = 0; ; guard++) {
			if (guard > 1000) sim.fail('no-progress', 'session does not advance');
			if (mode === 'line') {
				const b = buf.indexOf('=ybegin'); if (b < 0) break;
				const l = buf.indexOf('\r\n', b); if (l < 0) break;
				buf = buf.subarray(l + 2); mode = 'body'; state = null; mstate = 0; cur = []; raw = [];
				if (!buf.length) break;
			} else {
				if (mstate !== 0 && mstate !== 3) split = true;
				const r = chunk(sim, env, roam ? env.machine(sim) : m0, buf, state, mstate, Buffer.concat(raw));
				cur.push(r.bytes); raw.push(buf.subarray(0, r.read)); state = r.state; mstate = r.mstate;
				if (!r.ended) { break; }
				got.push({ data: Buffer.concat(cur), ended: r.ended });
				buf = buf.subarray(r.read); mode = 'line';
				if (buf.length) { sim.probe('bytes follow the marker in its piece'); split = true; }
			}
		}
		sim.at(1 + sim.draw(9), deliver);
	};
	sim.at(0, deliver);
	sim.loop();
	if (mode === 'body') got.push({ data: Buffer.concat(cur), ended: 0 });
	sim.check(got.length === ref.length, 'session', 'client saw ' + got.length + ' bodies, stream has ' + ref.length);
	for (let i = 0; i < ref.length; i++) {
		sim.check(got[i].ended === ref[i].ended, 'session', 'body ' + i + ' ended as ' + got[i].ended + ', not ' + ref[i].ended);
		sim.check(!got[i].data.compare(ref[i].data), 'session', 'body ' + i + ' decoded wrongly');
	}
	// history check: no end reported but where the model has one (checked per call), and everything before it read
	return split;
};
