"use strict";
// Simulated NNTP clients decoding pipelined streams with decodeChunk. Used by C01 (segmentation),
// C02 (markers and what follows them) and C14 (crash and resume).
const M = require('./model.js'), G = require('./gen.js');

// one decodeChunk call on machine m, checked against the model in every documented respect
// form: how output is given. Returns {read, bytes, ended, state}
// prev: the raw data received before this piece (since the start of the article), if the client keeps it
// instead of the state: decodeChunk takes any last part of it, of at least four bytes, as the state.
function previous(sim, prev) {
	// the very start of an article counts as the start of a line
	const t = prev.length < 8 ? Buffer.concat([Buffer.from('\r\n'), prev]) : prev;
	const n = t.length;
	if (n < 4 || t[n - 1] === 0x3d && t[n - 2] === 0x3d) return null; // "==": depends on what's before it
	const k = Math.min(n, sim.chance(2, 3) ? 4 : 5 + sim.draw(12));
	return t.subarray(n - k);
}
function chunk(sim, env, m, piece, state, mstate, prev) {
	let form = sim.draw(6);
	if (prev && piece.length && sim.chance(1, 6)) {
		const t = previous(sim, prev);
		if (t) {
			sim.probe('previous data given as the state');
			state = t.toString('latin1');
			if (form === 2 && sim.chance(1, 2)) state = t;
		}
	}
	const src = env.input(piece);
	const before = Buffer.from(piece);
	let out = null, ret, inPlace = false;
	const y = m.y;
	const st = state;
	switch (form) {
		case 0: ret = st === null && sim.chance(1, 2) ? y.decodeChunk(src) : y.decodeChunk(src, st); break;
		case 1: out = env.output(piece.length); ret = y.decodeChunk(src, st, out); break;
		case 2: out = env.output(piece.length + sim.draw(40)); ret = y.decodeChunk(src, out, st); break;
		case 3: inPlace = true; out = src; ret = y.decodeChunk(src, st, src); break;
		case 4: ret = y.decodeChunk(src, st, null); break;
		default: ret = y.decodeChunk(src, st, undefined);
	}
	sim.counts.calls++; sim.counts.bytes += piece.length;
	const exp = [];
	const e = M.decodeEnd(before, mstate, exp);
	const expb = Buffer.from(exp);
	const where = () => ' [' + m.name + ', ' + piece.length + ' bytes, state ' + JSON.stringify(M.STR[mstate]) + ']';
	sim.ev('chunk', m.name, form, src.at & 63, before, st, ret.read, ret.written, ret.ended, ret.state, ret.output ? ret.output.subarray(0, ret.written) : null);
	if (ret.read !== e.read) sim.fail('read', 'read is ' + ret.read + ', not ' + e.read + where());
	if (ret.ended !== (e.ended > 0)) sim.fail('ended', 'ended is ' + ret.ended + ', not ' + (e.ended > 0) + where());
	if (ret.written !== exp.length) sim.fail('written', 'written is ' + ret.written + ', not ' + exp.length + where());
	const es = e.ended ? M.ENDSTR[e.ended] : M.STR[e.state];
	if (ret.state !== es) sim.fail('state', 'state is ' + JSON.stringify(ret.state) + ', not ' + JSON.stringify(es) + where());
	if (!Buffer.isBuffer(ret.output)) sim.fail('output', 'no output buffer' + where());
	if (out) { if (ret.output !== out) sim.fail('output', 'output is not the supplied buffer' + where()); }
	else if (ret.output.length !== exp.length) sim.fail('output', 'output has ' + ret.output.length + ' bytes, not ' + exp.length + where());
	if (ret.output.subarray(0, exp.length).compare(expb)) sim.fail('data', 'decoded bytes differ at ' + diffAt(ret.output, expb) + where());
	if (!inPlace && src.compare(before)) sim.fail('input-changed', 'input buffer was modified' + where());
	env.around(src, 'the input');
	if (out && !inPlace) env.around(out, 'the output');
	sim.cover(m.idx, mstate * 8 + e.state, Math.min(piece.length, 96), form + e.ended * 8, src.at & 63);
	if (e.ended) sim.probe('ended ' + e.ended); else sim.probe('state ' + JSON.stringify(M.STR[e.state]));
	return { read: e.read, bytes: expb, ended: e.ended, state: ret.state, mstate: e.state };
}
function diffAt(a, b) { for (let i = 0; i < b.length; i++) if (a[i] !== b[i]) return i; return b.length; }

module.exports = { chunk, diffAt };
