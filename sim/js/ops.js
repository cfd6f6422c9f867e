"use strict";
// Single library calls on simulated machines, each checked against the reference models.
const M = require('./model.js'), G = require('./gen.js');
const { diffAt } = require('./stream.js');

function cmp(sim, cls, got, exp, where) {
	if (got.length !== exp.length) sim.fail(cls, 'result has ' + got.length + ' bytes, not ' + exp.length + ' (first difference at ' + diffAt(got, exp) + ')' + where);
	if (Buffer.compare(got, exp)) sim.fail(cls, 'bytes differ at ' + diffAt(got, exp) + ' of ' + exp.length + where);
}
function lineSize(sim) {
	switch (sim.draw(9)) {
		case 0: case 1: case 2: return 128;
		case 3: return sim.pick([64, 256, 32, 16, 48, 96, 512, 1024]) + sim.range(-2, 2);
		case 4: return sim.range(1, 14);
		case 5: return sim.range(12, 80);
		case 6: return sim.range(60, 300);
		case 7: return sim.pick([997, 1000, 4096, 65535, 100000, 0x7ffffff0, 254, 255, 257, 130, 126]);
		default: return sim.range(1, 700);
	}
}
function column(sim, ls) {
	switch (sim.draw(5)) {
		case 0: case 1: return 0;
		case 2: return Math.max(0, ls - sim.draw(4));
		case 3: return Math.min(ls, sim.draw(5));
		default: return Math.min(ls, sim.draw(Math.min(ls, 100000) + 1));
	}
}
// ---- one-shot decoding through the documented API
function decodeApi(sim, env, m, data, raw) {
	const exp0 = []; M.decodeNoEnd(data, raw, 0, exp0); const exp = Buffer.from(exp0);
	const form = sim.draw(4);
	const src = env.input(data);
	const where = ' [' + m.name + ', ' + ['decode', 'decodeTo', 'decodeTo in place', 'decodeTo larger'][form] + (raw ? ' stripping dots' : '') + ', ' + data.length + ' bytes at ' + (src.at & 63) + ']';
	let got;
	if (form === 0) {
		got = raw ? m.y.decode(src, true) : sim.chance(1, 2) ? m.y.decode(src, false) : m.y.decode(src);
		sim.ev('decode', m.name, raw, src.at & 63, data, got);
		cmp(sim, 'decode', got, exp, where);
	} else {
		const out = form === 2 ? src : env.output(data.length + (form === 3 ? 1 + sim.draw(70) : 0));
		const n = raw ? m.y.decodeTo(src, out, true) : sim.chance(1, 2) ? m.y.decodeTo(src, out, false) : m.y.decodeTo(src, out);
		sim.ev('decodeTo', m.name, form, raw, src.at & 63, out.at & 63, data, n, out.subarray(0, n));
		if (n !== exp.length) sim.fail('decode', 'length ' + n + ', not ' + exp.length + where);
		cmp(sim, 'decode', out.subarray(0, n), exp, where);
		if (form !== 2) env.around(out, 'the output');
		if (form === 3) for (let i = data.length; i < out.length; i++) if (out[i] !== 0x5c) sim.fail('stray-write', 'output byte ' + i + ' beyond the input length ' + data.length + ' was changed' + where);
		got = out.subarray(0, n);
	}
	if (form !== 2) { if (src.compare(data)) sim.fail('input-changed', 'input was modified' + where); }
	env.around(src, 'the input');
	sim.counts.calls++; sim.counts.bytes += data.length;
	sim.cover(m.idx, form + (raw ? 8 : 0), Math.min(data.length, 200), src.at & 63, 1);
	return exp;
}
// classes of native states which can't be told apart by what follows
function canon(raw, st) {
	if (st === 6) st = 1;
	if (!raw) return st === 1 ? 1 : 3;
	if (st === 4 || st === 5) { return st === 5 ? 2 : 3; }
	return st;
}
// ---- native incremental decoding without end search: pieces on different machines
function decodePieces(sim, env, data, raw, machines, pieces) {
	const exp0 = [];
	let inPlace = sim.chance(1, 3);
	const src = env.input(data), out = inPlace ? null : env.output(data.length);
	let st = 0, mst = 0, at = 0, w = 0;
	for (const n of pieces) {
		if (n === 0) continue;
		const m = machines.length === 1 ? machines[0] : sim.pick(machines);
		const e0 = exp0.length;
		mst = M.decodeNoEnd(data.subarray(at, at + n), raw, mst, exp0);
		const dst = inPlace ? src.at + w : out.at + w;
		const r = env.h.call(1, m.id, 0, raw ? 1 : 0, src.at + at, dst, n, st);
		const where = ' [' + m.name + (raw ? ', stripping dots' : '') + ', native state ' + st + ', piece ' + at + '+' + n + ' at ' + ((src.at + at) & 63) + (inPlace ? ', in place' : '') + ']';
		const got = (inPlace ? src : out).subarray(w, w + r[0]);
		sim.ev('piece', m.name, raw, inPlace, (src.at + at) & 63, dst & 63, n, st, r[0], r[1], got);
		const exp = Buffer.from(exp0.slice(e0));
		if (r[0] !== exp.length) sim.fail('decode', 'native length ' + r[0] + ', not ' + exp.length + where);
		cmp(sim, 'decode', got, exp, where);
		if (canon(raw, r[1]) !== canon(raw, mst)) sim.fail('native-state', 'state ' + r[1] + ' after a piece, which does not stand for ' + mst + where);
		sim.cover(m.idx, 64 + (raw ? 8 : 0) + canon(raw, st), Math.min(n, 200), canon(raw, mst), (src.at + at) & 63);
		if (st !== 0 && st !== 3) sim.fault('cut inside a sequence');
		st = r[1]; at += n; w += r[0];
		sim.counts.calls++; sim.counts.bytes += n;
	}
	env.around(src, 'the input');
	if (out) { env.around(out, 'the output'); if (src.compare(data)) sim.fail('input-changed', 'input was modified by native decode'); }
	return Buffer.from(exp0);
}
// ---- encoding
function model(data, ls, col, end) { const o = []; const c = M.encode(data, ls, col, end, o); return { buf: Buffer.from(o), col: c }; }
function encodeApi(sim, env, m, data, ls, col) {
	const src = env.input(data);
	const c0 = col === ls ? 0 : col; // documented binding behaviour: a column at the line size means a new line
	const exp = model(data, ls, c0, true).buf;
	const form = sim.draw(3);
	const where = ' [' + m.name + ', ' + (form ? 'encodeTo' : 'encode') + ', ' + data.length + ' bytes, line size ' + ls + ', column ' + col + ']';
	let got;
	if (form === 0) {
		got = ls === 128 && col === 0 && sim.chance(1, 3) ? m.y.encode(src) : col === 0 && sim.chance(1, 2) ? m.y.encode(src, ls) : m.y.encode(src, ls, col);
		sim.ev('encode', m.name, src.at & 63, data, ls, col, got);
		cmp(sim, 'encode', got, exp, where);
	} else {
		const need = m.y.maxSize(data.length, ls);
		const out = env.output(need + (form === 2 ? sim.draw(60) : 0));
		const n = ls === 128 && col === 0 && sim.chance(1, 3) ? m.y.encodeTo(src, out) : col === 0 && sim.chance(1, 2) ? m.y.encodeTo(src, out, ls) : m.y.encodeTo(src, out, ls, col);
		sim.ev('encodeTo', m.name, src.at & 63, out.at & 63, data, ls, col, n, out.subarray(0, n));
		if (n !== exp.length) sim.fail('encode', 'length ' + n + ', not ' + exp.length + where);
		got = out.subarray(0, n);
		cmp(sim, 'encode', got, exp, where);
		env.around(out, 'the output');
		for (let i = need; i < out.length; i++) if (out[i] !== 0x5c) sim.fail('stray-write', 'output byte ' + i + ' beyond maxSize ' + need + ' was changed' + where);
	}
	if (src.compare(data)) sim.fail('input-changed', 'input was modified' + where);
	env.around(src, 'the input');
	sim.counts.calls++; sim.counts.bytes += data.length;
	sim.cover(m.idx, form, Math.min(data.length, 300), Math.min(ls, 300), c0 === 0 ? 0 : c0 >= ls - 1 ? 2 : 1);
	return exp;
}
// one piece through the incremental encoder (binding or native); returns new column
function encodePiece(sim, env, m, data, ls, col, outs, how) {
	const exp = model(data, ls, col, false);
	const src = env.input(data);
	let got, c, name;
	if (how === 0) {
		name = 'encodeIncr';
		const r = m.binding.encodeIncr(src, ls, col); got = r.output || Buffer.alloc(0); c = r.col;
		if (data.length && r.written !== got.length) sim.fail('encode', 'written ' + r.written + ' but output has ' + got.length + ' bytes');
	} else if (how === 1) {
		name = 'encodeIncr to';
		const out = env.output(M.maxSize(data.length, ls) || 66 + 0);
		const r = m.binding.encodeIncr(src, out, ls, col); got = out.subarray(0, r.written); c = r.col;
		env.around(out, 'the output');
	} else {
		name = 'native';
		const out = env.output(Math.max(66, M.maxSize(data.length, ls)));
		const r = env.h.call(3, m.id, 0, 0, src.at, out.at, data.length, ls, col, 0); got = out.subarray(0, r[0]); c = r[1];
		env.around(out, 'the output');
	}
	const where = ' [' + m.name + ', ' + name + ', ' + data.length + ' bytes, line size ' + ls + ', column ' + col + ']';
	sim.ev('epiece', m.name, how, src.at & 63, data, ls, col, c, got);
	cmp(sim, 'encode', got, exp.buf, where);
	if (c !== exp.col) sim.fail('column', 'column ' + c + ', not ' + exp.col + where);
	if (src.compare(data)) sim.fail('input-changed', 'input was modified' + where);
	env.around(src, 'the input');
	outs.push(Buffer.from(got));
	sim.counts.calls++; sim.counts.bytes += data.length;
	sim.cover(m.idx, 16 + how, Math.min(data.length, 300), Math.min(ls, 300), Math.min(col, 300));
	return c;
}
// ---- CRC
function crcBuf(c) { const b = Buffer.allocUnsafe(4); b.writeUInt32BE(c >>> 0); return b; }
function rd(sim, b, what) { if (!Buffer.isBuffer(b) || b.length !== 4) sim.fail('crc', what + ' did not return a 4 byte Buffer'); return b.readUInt32BE(0); }
function crc(sim, env, m, data, init, native) {
	const src = env.input(data);
	const exp = M.crc32(data, init);
	let c;
	if (native) c = env.h.call(4, m.id, 0, 0, src.at, 0, data.length, init);
	else c = rd(sim, init === 0 && sim.chance(1, 2) ? m.y.crc32(src) : m.y.crc32(src, crcBuf(init)), 'crc32');
	sim.ev('crc32', m.name, src.at & 63, data, init, c);
	if (c !== exp) sim.fail('crc', 'crc32 of ' + data.length + ' bytes at ' + (src.at & 63) + ' from ' + init.toString(16) + ' is ' + c.toString(16) + ', not ' + exp.toString(16) + ' [' + m.name + ']');
	if (src.compare(data)) sim.fail('input-changed', 'crc32 modified its input');
	env.around(src, 'the input');
	sim.counts.calls++; sim.counts.bytes += data.length;
	sim.cover(m.idx, 32, Math.min(data.length, 600), src.at & 63, init ? 1 : 0);
	return c;
}
module.exports = { cmp, lineSize, column, decodeApi, decodePieces, canon, model, encodeApi, encodePiece, crcBuf, rd, crc };
