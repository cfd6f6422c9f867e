"use strict";
// C09: every call runs with its buffers at the edges of mapped memory, in poisoned surroundings; results
// come from an allocator whose blocks end at unmapped pages. Only memory behaviour is judged here.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run of 2-6 library calls on simulated machines, each buffer placed by the simulator (usually flush with an unmapped page at its end or start, guard bytes otherwise); non-trivial if some buffer touched an unmapped page; distinct by the hash of its event history';
exports.quick = 1000000;
const wire = (sim, n, ends) => G.wire(sim, n, ends).subarray(0, 1000000);
exports.run = function(sim, env) {
	let edge = false;
	const place = () => { const how = sim.weighted([[1, 0], [5, 1], [3, 2], [2, 3]]); if (how === 1 || how === 2) edge = true; return { how: how }; };
	const ins = [];
	const input = d => { const v = env.input(d, place()); ins.push([v, d]); return v; };
	const output = n => env.output(n, place());
	const fill = (out, from, what) => { for (let i = from; i < out.length; i++) if (out[i] !== 0x5c) sim.fail('stray-write', 'output byte ' + i + ' is past the ' + from + ' bytes the call may write [' + what + ']'); };
	const done = (what, out, from) => {
		for (const [v, d] of ins) { if (v !== out && v.compare(d)) sim.fail('input-changed', 'an input was modified by ' + what); env.around(v, 'an input of ' + what); }
		if (out) { if (from !== undefined) fill(out, from, what); env.around(out, 'the output of ' + what); }
		const e = env.h.heapCheck();
		if (e.length) sim.fail('stray-write', e[0] + ' by ' + what);
		ins.length = 0; sim.counts.calls++;
	};
	const big = sim.chance(1, 150), len = () => { const n = big ? sim.draw(sim.pick([70000, 300000, 900000])) : G.length(sim, 4000); sim.counts.bytes += n; return n; };
	const k = big ? 1 : sim.range(2, 5);
	for (let i = 0; i < k; i++) {
		const m = env.machine(sim), y = m.y;
		const op = sim.draw(env.native ? 13 : 9);
		let what, ret;
		switch (op) {
			case 0: case 1: { // decode / decodeTo
				const data = wire(sim, len(), sim.chance(1, 6)), raw = sim.chance(1, 2), src = input(data);
				if (op === 0) { what = 'decode of ' + data.length + ' bytes on ' + m.name; ret = y.decode(src, raw).length; done(what); }
				else {
					const form = sim.draw(3), out = form === 0 ? output(data.length) : form === 1 ? output(data.length + 1 + sim.draw(80)) : src;
					what = 'decodeTo of ' + data.length + ' bytes on ' + m.name;
					ret = y.decodeTo(src, out, raw); done(what, out, data.length);
				}
				break;
			}
			case 2: { // decodeChunk
				const data = wire(sim, len(), sim.chance(1, 2)), src = input(data), st = sim.pick(M.STR);
				const form = sim.draw(4), out = form === 0 ? null : form === 1 ? output(data.length) : form === 2 ? output(data.length + 1 + sim.draw(80)) : src;
				what = 'decodeChunk of ' + data.length + ' bytes on ' + m.name;
				const r = out ? y.decodeChunk(src, st, out) : y.decodeChunk(src, st);
				ret = r.written; done(what, out, data.length);
				break;
			}
			case 3: { // encode
				const data = G.bytes(sim, Math.min(len(), 170000)), ls = O.lineSize(sim), src = input(data);
				what = 'encode of ' + data.length + ' bytes on ' + m.name; ret = y.encode(src, ls, O.column(sim, ls)).length; done(what);
				break;
			}
			case 4: { // encodeTo
				const data = G.bytes(sim, Math.min(len(), 170000)), ls = O.lineSize(sim), src = input(data), need = y.maxSize(data.length, ls);
				const out = output(need + (sim.chance(1, 3) ? 1 + sim.draw(80) : 0));
				what = 'encodeTo of ' + data.length + ' bytes, line size ' + ls + ' on ' + m.name; ret = y.encodeTo(src, out, ls, O.column(sim, ls)); done(what, out, need);
				break;
			}
			case 5: { // encodeIncr
				const data = G.bytes(sim, Math.min(len(), 170000)), ls = O.lineSize(sim), src = input(data), need = y.maxSize(data.length, ls);
				what = 'encodeIncr of ' + data.length + ' bytes, line size ' + ls + ' on ' + m.name;
				const col = O.column(sim, ls);
				if (sim.chance(1, 3)) { ret = m.binding.encodeIncr(src, ls, col).written; done(what); }
				else {
					const out = output((need || 66) + (sim.chance(1, 3) ? 1 + sim.draw(80) : 0));
					ret = m.binding.encodeIncr(src, out, ls, col).written; done(what, out, need || 66);
				}
				break;
			}
			case 6: { // crc32
				const data = sim.chance(1, 2) ? G.bytes(sim, len()) : wire(sim, len(), false), src = input(data), init = input(O.crcBuf(sim.draw(0x100000000)));
				what = 'crc32 of ' + data.length + ' bytes on ' + m.name;
				ret = y.crc32(src, init).readUInt32BE(0); done(what);
				break;
			}
			case 7: { // other CRC calls
				const a = input(O.crcBuf(sim.draw(0x100000000))), b = input(O.crcBuf(sim.draw(0x100000000))), n = sim.pick([0, 1, sim.draw(70000), sim.draw(0x100000000) * sim.pick([1, 4096])]);
				const f = sim.draw(4);
				what = ['crc32_combine', 'crc32_multiply', 'crc32_shift', 'crc32_zeroes'][f] + ' on ' + m.name;
				ret = (f === 0 ? y.crc32_combine(a, b, n) : f === 1 ? y.crc32_multiply(a, b) : f === 2 ? y.crc32_shift(sim.chance(1, 2) ? -n : n, a) : y.crc32_zeroes(sim.chance(1, 2) ? -n : n, a)).readUInt32BE(0);
				done(what);
				break;
			}
			case 8: { // from_post and the posting calls
				const data = G.bytes(sim, Math.min(len(), 60000)), src = input(data), ls = O.lineSize(sim);
				if (sim.chance(1, 3)) {
					const e = y.multi_post('f', data.length * 2, 2, ls);
					what = 'YEncoder.encode on ' + m.name; ret = data.length ? e.encode(src).length : 0; done(what);
				} else {
					const art = y.post('f', src, ls); done('post on ' + m.name);
					const keep = sim.chance(1, 2) ? art.length : sim.draw(art.length + 1); // a truncated article ends at the page
					const a2 = input(art.subarray(0, keep));
					what = 'from_post of ' + keep + ' bytes on ' + m.name; ret = y.from_post(a2, sim.chance(1, 2)).code ? 1 : 0; done(what);
				}
				break;
			}
			case 9: { // native decode pieces, straight after each other in the same pages
				const data = wire(sim, len(), false), raw = sim.draw(2), src = input(data), same = sim.chance(1, 3), out = same ? src : output(data.length);
				what = 'native decode of ' + data.length + ' bytes on ' + m.name;
				const pieces = G.cuts(sim, data, 12); let st = 0, at = 0, w = 0;
				for (const n of pieces) {
					if (!n) continue;
					const rest = same ? Buffer.from(data.subarray(at + n)) : null, keep = same ? null : Buffer.from(out.subarray(0, w));
					const r = env.h.call(1, m.id, 0, raw, src.at + at, out.at + w, n, st);
					if (rest && src.subarray(at + n).compare(rest)) sim.fail('input-changed', 'bytes after the piece were modified by ' + what);
					if (keep && out.subarray(0, w).compare(keep)) sim.fail('stray-write', 'bytes before the output were modified by ' + what);
					if (!same) fill(out, w + n, what);
					st = r[1]; at += n; w += r[0];
					if (w > at) sim.fail('length', 'more bytes written than read by ' + what);
					if (!same) { out.fill(0x5c, w); }
				}
				ret = w; done(what, out);
				break;
			}
			case 10: { // native decode_end
				const data = wire(sim, len(), sim.chance(1, 2)), src = input(data), form = sim.draw(3), out = form === 0 ? src : output(data.length + (form === 1 ? 0 : 1 + sim.draw(80)));
				what = 'native decode_end of ' + data.length + ' bytes on ' + m.name;
				ret = data.length ? env.h.call(2, m.id, 0, 0, src.at, out.at, data.length, sim.draw(7))[0] : 0;
				done(what, out, data.length);
				break;
			}
			case 11: { // native encode
				const data = G.bytes(sim, Math.min(len(), 170000)), ls = O.lineSize(sim), src = input(data), need = M.maxSize(data.length, ls) || 66, out = output(need + (sim.chance(1, 3) ? 1 + sim.draw(80) : 0));
				what = 'native encode of ' + data.length + ' bytes, line size ' + ls + ' on ' + m.name;
				let col = O.column(sim, ls); if (sim.chance(1, 12)) col = ls + 1;
				ret = data.length ? env.h.call(3, m.id, 0, 0, src.at, out.at, data.length, ls, col, sim.draw(2))[0] : 0;
				done(what, out, need);
				break;
			}
			default: { // native crc
				const data = G.bytes(sim, len()), src = input(data);
				what = 'native crc32 of ' + data.length + ' bytes on ' + m.name;
				ret = env.h.call(4, m.id, 0, 0, src.at, 0, data.length, sim.draw(0x100000000)); done(what);
			}
		}
		sim.ev('call', op, m.name, what, ret);
		sim.cover(m.idx, op, edge ? 1 : 0, sim.counts.bytes % 257, 0);
	}
	if (edge) sim.fault('buffer against an unmapped page');
	return edge;
};
