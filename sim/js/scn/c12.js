"use strict";
// C12: programs reusing one region of memory for the outputs of many calls, with outputs that are
// too small (the fault), exactly large enough, or larger; every byte of the region is accounted for.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js'), H = require('../huge.js');
exports.rule = 'a case is one simulated run of 2-7 calls writing into parts of one caller-owned region, with undersized outputs injected; after every call the whole region is compared with the model of what may have changed; non-trivial if some output was refused and some call succeeded; distinct by the hash of its event history';
exports.quick = 1000000;
exports.run = function(sim, env) {
	if (sim.chance(1, 4000)) { H.refuse(sim, env, env.machine(sim)); return false; }
	const cap = sim.pick([600, 3000, 12000, 40000]);
	const region = env.place(cap, {}); env.poison(region, 200);
	env.poisonRng.fill(region);
	const shadow = Buffer.from(region);
	const cur = sim.chance(1, 2) ? env.machine(sim) : null;
	let refused = 0, ok = 0, pos = 0;
	const st = { state: null, m: 0, data: null, at: 0 };
	const k = sim.range(2, 7);
	for (let i = 0; i < k; i++) {
		const m = cur || env.machine(sim), y = m.y, op = sim.draw(4);
		// what the call needs
		let data, ls = 128, col = 0, need, raw = false;
		if (op === 0 || op === 1) {
			data = G.bytes(sim, Math.min(G.length(sim, 1500), Math.max(0, Math.floor((cap - 70) / 5))));
			ls = sim.chance(1, 6) ? sim.range(1, 8) : O.lineSize(sim); col = O.column(sim, ls);
			need = M.maxSize(data.length, ls);
			const least = ls === 128 && sim.chance(1, 2) ? y.minSize(data.length) : y.minSize(data.length, ls);
			if (least !== M.minSize(data.length, ls)) sim.fail('minsize', 'minSize(' + data.length + ', ' + ls + ') is ' + least + '; the shortest article has ' + M.minSize(data.length, ls) + ' bytes');
			if (y.maxSize(data.length, ls) !== need) sim.fail('maxsize', 'maxSize(' + data.length + ', ' + ls + ') is ' + y.maxSize(data.length, ls) + ', not ' + need);
			if (need > cap) { data = data.subarray(0, Math.floor((cap - 70) / 6)); need = M.maxSize(data.length, ls); if (need > cap) continue; }
		} else {
			data = G.wire(sim, Math.min(G.length(sim, 2500), cap), op === 3);
			data = data.subarray(0, cap); need = data.length; raw = sim.chance(1, 2);
		}
		const internal = op === 1 && data.length > 0; // encodeIncr needs room for padding even when there's nothing to do
		let size = need, kind = sim.weighted([[3, 0], [3, 1], [3, 2]]);
		if (kind === 1 && need > 0) { // too small
			size = sim.weighted([[3, need - 1], [1, Math.max(0, need - 2)], [1, Math.max(0, need - 64)], [1, Math.max(0, need - 66)], [1, Math.max(0, need - 67)], [1, data.length >> 1], [1, Math.min(need - 1, data.length)], [1, 0], [2, sim.draw(need)]]);
			if (size >= need) size = need - 1;
		} else if (kind === 2) { size = Math.min(cap, need + 1 + sim.draw(70)); kind = 0; } else kind = 0;
		const inPlace = op >= 2 && kind === 0 && sim.chance(1, 4);
		// where in the region: after the previous output, at its end, or anywhere
		let off = sim.weighted([[2, pos], [1, cap - size], [1, sim.draw(cap + 1)], [1, 0]]);
		if (off + size > cap) off = cap - size;
		const out = region.subarray(off, off + size); out.at = region.at + off;
		const src = inPlace ? out : env.input(data);
		if (inPlace) { data.copy(out); data.copy(shadow, off); }
		const srcArg = inPlace ? out.subarray(0, data.length) : src;
		const small = size < need;
		const name = ['encodeTo', 'encodeIncr', 'decodeTo', 'decodeChunk'][op];
		const where = ' [' + name + ' on ' + m.name + ', ' + data.length + ' bytes, output of ' + size + (op < 2 ? ', line size ' + ls + ', column ' + col : '') + ', needs ' + need + (inPlace ? ', in place' : '') + ']';
		if (op === 1 && !internal) continue;
		let state = null, mstate = 0;
		if (op === 3 && sim.chance(2, 3)) { mstate = sim.draw(7); state = M.STR[mstate]; }
		let ret, err = null, form = 0;
		try {
			switch (op) {
				case 0: ret = ls === 128 && col === 0 && sim.chance(1, 3) ? y.encodeTo(src, out) : col === 0 && sim.chance(1, 2) ? y.encodeTo(src, out, ls) : y.encodeTo(src, out, ls, col); break;
				case 1: ret = m.binding.encodeIncr(src, out, ls, col); break;
				case 2: ret = raw ? y.decodeTo(srcArg, out, true) : sim.chance(1, 2) ? y.decodeTo(srcArg, out, false) : y.decodeTo(srcArg, out); break;
				default:
					form = sim.draw(5);
					if (state === null) ret = form === 0 ? y.decodeChunk(srcArg, null, out) : form === 1 ? y.decodeChunk(srcArg, out) : form === 2 ? y.decodeChunk(srcArg, out, null) : form === 3 ? y.decodeChunk(srcArg, undefined, out) : y.decodeChunk(srcArg, out, undefined);
					else ret = form % 2 ? y.decodeChunk(srcArg, out, state) : y.decodeChunk(srcArg, state, out);
			}
		} catch (e) { err = e; }
		sim.counts.calls++; sim.counts.bytes += data.length;
		sim.ev(name, m.name, form, data, size, need, off, inPlace, err ? 'threw' : typeof ret === 'number' ? ret : ret.written);
		sim.cover(m.idx, op, small ? Math.min(need - size, 70) : 100 + Math.min(size - need, 3), Math.min(data.length, 200), form);
		if (err && !(err instanceof Error)) sim.fail('error', 'threw something which is not an Error' + where);
		if (small) {
			sim.fault('output too small');
			if (!err) sim.fail('not-refused', 'an output which is too small was accepted' + where);
			refused++;
			if (region.compare(shadow)) sim.fail('refused-but-written', 'the call threw but wrote to byte ' + (firstDiff(region, shadow) - off) + ' of the output' + where);
		} else {
			if (err) sim.fail('refused', 'threw "' + err.message + '" though the output is large enough' + where);
			ok++;
			let exp, n, o = [];
			if (op === 0) exp = O.model(data, ls, col === ls ? 0 : col, true).buf;
			else if (op === 1) exp = O.model(data, ls, col, false).buf;
			else if (op === 2) { M.decodeNoEnd(data, raw, 0, o); exp = Buffer.from(o); }
			else { M.decodeEnd(data, mstate, o); exp = Buffer.from(o); }
			n = op === 0 || op === 2 ? ret : ret.written;
			if (op === 0 && n < M.minSize(data.length, ls)) sim.fail('minsize', 'article of ' + n + ' bytes, shorter than minSize' + where);
			if (n !== exp.length) sim.fail('written', 'reports ' + n + ' bytes, not ' + exp.length + where);
			if (op === 3 && ret.output !== out) sim.fail('output', 'output is not a reference to the supplied buffer' + where);
			if (op === 1 && ret.output !== undefined && ret.output !== out) sim.fail('output', 'output is another buffer' + where);
			O.cmp(sim, 'bytes', out.subarray(0, n), exp, where);
			// whatever the call needed may have changed, nothing else
			region.copy(shadow, off, off, off + need);
			if (region.compare(shadow)) sim.fail('stray-write', 'byte ' + (firstDiff(region, shadow) - off) + ' relative to the output was changed' + where);
			// the allocating variant
			if (!inPlace && sim.chance(1, 2)) {
				let a;
				if (op === 0) a = y.encode(src, ls, col);
				else if (op === 1) { const r = m.binding.encodeIncr(src, ls, col); a = r.output; if (r.written !== ret.written || r.col !== ret.col) sim.fail('variants', 'encodeIncr gives ' + r.written + '/' + r.col + ' without and ' + ret.written + '/' + ret.col + ' with output' + where); }
				else if (op === 2) a = y.decode(src, raw);
				else { const r = y.decodeChunk(src, state); a = r.output; if (r.read !== ret.read || r.written !== ret.written || r.state !== ret.state || r.ended !== ret.ended) sim.fail('variants', 'the result without output differs' + where); }
				O.cmp(sim, 'variants', a, exp, where + ' without output');
			}
			pos = off + n;
		}
		if (!inPlace) { if (src.compare(data)) sim.fail('input-changed', 'input was modified' + where); env.around(src, 'the input'); }
		env.around(region, 'the region of outputs');
	}
	return refused > 0 && ok > 0;
};
function firstDiff(a, b) { for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return i; return -1; }
