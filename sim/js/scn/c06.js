"use strict";
// C06: pieces of files arrive in any order, over and over; their CRCs are computed and combined anywhere.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js'), H = require('../huge.js');
exports.rule = 'a case is one simulated run: a file made of data pieces and holes (zero runs of any length up to 2^45) whose pieces arrive out of order with losses and duplicates, CRCs computed incrementally on different machines and combined in the order of arrival, plus zero-run and shift round trips; non-trivial if at least 2 combinations were made; distinct by the hash of its event history';
exports.quick = 900000;
const LENS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0x100000000, 0x100000001, 0x1ffffffff, 0x200000000, 0x1fffffffe, 0x20000000, 0x1fffffff, 0x7ffffffff, 2 ** 40, 2 ** 40 + 12345, 2 ** 45 - 1];
function hugeLen(sim) {
	switch (sim.draw(4)) {
		case 0: return sim.pick(LENS);
		case 1: return sim.draw(100000);
		case 2: return sim.draw(0x100000000);
		default: return sim.draw(0x100000000) * sim.range(1, 4096) + sim.draw(0x100000000);
	}
}
exports.run = function(sim, env) {
	if (sim.chance(1, 60000)) { H.run(sim, env, env.machine(sim), 'crc32'); return false; }
	let combos = 0;
	const Y = () => env.machine(sim);
	const call = (what, got, exp, where) => {
		const c = O.rd(sim, got, what);
		sim.counts.calls++;
		sim.ev(what, where, c);
		if (c !== exp) sim.fail('crc', what + ' is ' + c.toString(16).padStart(8, '0') + ', not ' + exp.toString(16).padStart(8, '0') + ' [' + where + ']');
		return c;
	};
	const combine = (a, b, len) => {
		const m = Y(); combos++;
		const exp = M.combine(a, b, len);
		const A = O.crcBuf(a), B = O.crcBuf(b);
		if (env.native && sim.chance(1, 5)) { const c = env.h.call(5, m.id, 0, 0, a, b, len); if (c !== exp) sim.fail('crc', 'native crc32_combine with length ' + len + ' is ' + c.toString(16) + ', not ' + exp.toString(16)); sim.ev('ncombine', a, b, len, c); return c; }
		const c = call('crc32_combine', m.y.crc32_combine(A, B, len), exp, m.name + ' length ' + len + ' of ' + a.toString(16) + ', ' + b.toString(16));
		if (A.readUInt32BE(0) !== a || B.readUInt32BE(0) !== b) sim.fail('input-changed', 'crc32_combine modified its arguments');
		return c;
	};
	const zeroes = (c, len) => {
		const m = Y();
		const exp = M.zeroes(c, len);
		const I = O.crcBuf(c);
		const r = call('crc32_zeroes', c === 0 && sim.chance(1, 2) ? m.y.crc32_zeroes(len) : m.y.crc32_zeroes(len, I), exp, m.name + ' length ' + len + ' from ' + c.toString(16));
		if (I.readUInt32BE(0) !== c) sim.fail('input-changed', 'crc32_zeroes modified its argument');
		return r;
	};
	const shift = (n, c) => {
		const m = Y();
		return call('crc32_shift', c === 0x80000000 && sim.chance(1, 2) ? m.y.crc32_shift(n) : m.y.crc32_shift(n, O.crcBuf(c)), M.shift(c, n), m.name + ' by ' + n + ' of ' + c.toString(16));
	};
	// the file
	const n = sim.range(1, 6), segs = [];
	let whole = 0;
	for (let i = 0; i < n; i++) {
		if (sim.chance(1, 4)) { const len = hugeLen(sim); segs.push({ hole: true, len: len }); whole = M.zeroes(whole, len); }
		else {
			const d = G.bytes(sim, sim.chance(1, 300) ? sim.draw(300000) : sim.chance(1, 25) ? sim.draw(9000) : G.length(sim, 1200));
			segs.push({ data: d, len: d.length }); whole = M.crc32(d, whole);
		}
	}
	// the whole in order, incrementally on different machines
	sim.at(0, () => {
		let c = 0;
		for (const s of segs) {
			if (s.hole) { c = zeroes(c, s.len); continue; }
			const ps = G.cuts(sim, s.data, 12); let at = 0;
			for (const k of ps) { c = O.crc(sim, env, Y(), s.data.subarray(at, at + k), c, env.native && sim.chance(1, 3)); at += k; }
		}
		sim.check(c === whole, 'crc', 'incremental CRC of the file is wrong');
	});
	// out of order, combining neighbours as they arrive
	const have = []; // sorted runs of segments {a, b, crc, len}
	let left = n;
	const arrive = i => {
		if (sim.chance(1, 8)) { sim.fault('piece lost, retransmitted'); sim.at(50 + sim.draw(200), () => arrive(i)); return; }
		if (sim.chance(1, 10)) { sim.fault('piece duplicated'); sim.at(sim.draw(100), () => arrive(i)); }
		if (have.some(h => h.a <= i && i < h.b)) { sim.probe('duplicate ignored'); return; }
		const s = segs[i];
		const crc = s.hole ? zeroes(0, s.len) : O.crc(sim, env, Y(), s.data, 0, env.native && sim.chance(1, 3));
		let run = { a: i, b: i + 1, crc: crc, len: s.len };
		for (;;) {
			const l = have.findIndex(h => h.b === run.a), r = have.findIndex(h => h.a === run.b);
			if (l < 0 && r < 0) break;
			if (l >= 0 && (r < 0 || sim.chance(1, 2))) { const x = have.splice(l, 1)[0]; run = { a: x.a, b: run.b, crc: combine(x.crc, run.crc, run.len), len: x.len + run.len }; }
			else { const x = have.splice(have.findIndex(h => h.a === run.b), 1)[0]; run = { a: run.a, b: x.b, crc: combine(run.crc, x.crc, x.len), len: x.len + run.len }; }
			if (sim.chance(1, 6)) break;
		}
		have.push(run);
		if (have.length === 1 && run.a === 0 && run.b === n) sim.check(run.crc === whole, 'crc', 'combined CRC of the file is wrong');
	};
	for (let i = 0; i < n; i++) sim.at(sim.draw(100), () => arrive(i));
	sim.loop();
	sim.at(0, () => { // what is still apart
		have.sort((x, y) => x.a - y.a);
		while (have.length > 1) { const i = sim.draw(have.length - 1); const [x, y] = have.splice(i, 2); have.splice(i, 0, { a: x.a, b: y.b, crc: combine(x.crc, y.crc, y.len), len: x.len + y.len }); }
		sim.check(have[0].crc === whole, 'crc', 'combined CRC of the file is wrong');
		// algebra
		const k = sim.draw(5);
		for (let i = 0; i < k; i++) {
			const len = hugeLen(sim), c = sim.chance(1, 2) ? whole : sim.draw(0x100000000);
			switch (sim.draw(5)) {
				case 0: { const z = zeroes(c, len); const b = len ? zeroes(z, -len) : z; sim.check(b === c, 'crc', 'removing ' + len + ' zeroes does not restore the CRC'); if (len > 1) { const p = sim.draw(Math.min(len, 0xffffffff)); zeroes(z, -p); } break; }
				case 1: { const s = shift(len, c); const b = len ? shift(-len, s) : s; sim.check(b === c, 'crc', 'shifting back by ' + len + ' does not restore the CRC'); break; }
				case 2: { const a = shift(len, 0x80000000), m = Y(); const p = call('crc32_multiply', m.y.crc32_multiply(O.crcBuf(c), O.crcBuf(a)), M.mul(c, a), m.name + ' ' + c.toString(16) + ' * ' + a.toString(16)); sim.check(p === M.shift(c, len), 'crc', 'multiplying by 2^n is not shifting by n'); break; }
				case 3: { const m = Y(), b = sim.draw(0x100000000); call('crc32_multiply', m.y.crc32_multiply(O.crcBuf(c), O.crcBuf(b)), M.mul(c, b), m.name + ' ' + c.toString(16) + ' * ' + b.toString(16)); break; }
				default: { // the documented way to write crc32_combine
					const b = sim.draw(0x100000000), l = len % 2 ** 40; sim.check(((shift(l * 8, c) ^ b) >>> 0) === combine(c, b, l), 'crc', 'crc32_shift(8n) ^ crc2 is not crc32_combine'); break;
				}
			}
		}
	});
	sim.loop();
	return combos > 1;
};
