"use strict";
// C15: long mixed histories in one process. Arguments come from a few buffers which the program rewrites
// and uses again; results are kept, overwritten by the program, or dropped; calls fail in between; streams and
// encoders are in progress. Every single result is compared with what the call alone must give.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run of 8-40 calls in one or two processes each holding two instances of the module, sharing argument buffers, lengths, line sizes and CRCs drawn from small pools so that calls resemble earlier ones; non-trivial if a call failed, or a result or argument was overwritten, before later calls; distinct by the hash of its event history';
exports.quick = 300000;
const crcb = O.crcBuf;
exports.run = function(sim, env) {
	const procs = [];
	const np = sim.weighted([[3, 1], [1, 2]]);
	for (let i = 0; i < np; i++) { const m = env.machine(sim); procs.push({ m: m, ys: [m.y, env.newIndex(m.binding)] }); }
	// pools: what calls have in common
	const lens = [], lss = [128, O.lineSize(sim)], bufs = [];
	for (let i = 0, n = sim.range(2, 4); i < n; i++) lens.push(sim.chance(1, 9) ? 0 : 1 + G.length(sim, 700));
	for (let i = 0, n = sim.range(2, 5); i < n; i++) { const v = env.place(sim.pick(lens)); env.poison(v, 96); refill(v); v.fresh = true; bufs.push(v); }
	const outb = env.place(2600); env.poison(outb, 96);
	const nums = [0, 1, sim.draw(1000), sim.draw(0x100000000), 4096];
	const crcs = [0, sim.draw(0x100000000), M.crc32(bufs[0], 0)];
	const kept = [], streams = [], encs = [];
	let upset = false, current = [];
	function refill(v) { const d = sim.chance(1, 2) ? G.bytes(sim, v.length) : G.wire(sim, v.length, sim.chance(1, 4)); if (d.length >= v.length) d.copy(v, 0, 0, v.length); else { v.fill(0x61); d.copy(v); } }
	// memory of a result belongs to nobody else
	function keep(b, what, p) {
		const shares = (x, who) => { if (x !== b ? x.buffer === b.buffer && x.byteOffset < b.byteOffset + b.length && b.byteOffset < x.byteOffset + x.length : b.length > 0) sim.fail('aliased', 'the result of ' + what + ' (' + b.length + ' bytes) shares memory with ' + who); };
		for (const [v] of current) shares(v, 'an argument');
		for (const k of kept) shares(k.b, 'the result of an earlier ' + k.what);
		for (const v of bufs) shares(v, 'a buffer of the program');
 kept.push({ b: b, c: Buffer.from(b), what: what, p: p }); if (kept.length > 14) kept.shift(); }
	function checkKept() { for (const k of kept) if (k.b.compare(k.c)) sim.fail('result-changed', 'the result of an earlier ' + k.what + ' changed (' + k.b.length + ' bytes)'); }
	const n = sim.range(8, 34);
	for (let i = 0; i < n; i++) {
		const p = sim.pick(procs), m = p.m, y = sim.pick(p.ys);
		const src = sim.pick(bufs), data = Buffer.from(src), ls = sim.pick(lss);
		const op = sim.draw(20);
		let what = '', args = [[src, data]]; current = args;
		const w = () => ' [' + what + ' on ' + m.name + ', call ' + i + ', ' + data.length + ' bytes, line size ' + ls + ']';
		const eq = (got, exp) => O.cmp(sim, 'result', got, exp, w());
		const num = (got, exp) => { if (got !== exp) sim.fail('result', got + ', not ' + exp + w()); };
		const crcIs = (b, exp) => { if (!Buffer.isBuffer(b) || b.length !== 4) sim.fail('result', 'not a 4 byte Buffer' + w()); if (b.readUInt32BE(0) !== exp >>> 0) sim.fail('result', 'CRC ' + b.toString('hex') + ', not ' + (exp >>> 0).toString(16) + w()); keep(b, what, p); };
		const arg = c => { const b = crcb(c); args.push([b, Buffer.from(b)]); return b; };
		const alloc = env.h;
		switch (op) {
			case 0: { const col = O.column(sim, ls); what = 'encode'; const r = y.encode(src, ls, col); eq(r, O.model(data, ls, col === ls ? 0 : col, true).buf); keep(r, what, p); break; }
			case 1: { const need = y.maxSize(data.length, ls); what = 'encodeTo'; if (need > outb.length) break; const n = y.encodeTo(src, outb.subarray(0, need), ls); eq(outb.subarray(0, n), O.model(data, ls, 0, true).buf); break; }
			case 2: { const raw = sim.chance(1, 2), o = []; what = 'decode'; M.decodeNoEnd(data, raw, 0, o); const r = y.decode(src, raw); eq(r, Buffer.from(o)); keep(r, what, p); break; }
			case 3: { const raw = sim.chance(1, 2), o = []; what = 'decodeTo'; M.decodeNoEnd(data, raw, 0, o); const n = y.decodeTo(src, outb, raw); eq(outb.subarray(0, n), Buffer.from(o)); break; }
			case 4: case 5: { // a stream in progress, with or without output
				if (streams.length < 2) streams.push({ state: null, m: 0 });
				const s = sim.pick(streams), o = []; what = 'decodeChunk';
				const e = M.decodeEnd(data, s.m, o), r = op === 4 ? y.decodeChunk(src, s.state) : y.decodeChunk(src, s.state, outb), exp = Buffer.from(o);
				num(r.read, e.read); num(r.written, exp.length); num(r.ended, e.ended > 0); num(r.state, e.ended ? M.ENDSTR[e.ended] : M.STR[e.state]);
				eq(r.output.subarray(0, r.written), exp); if (op === 4) keep(r.output, what, p);
				s.state = r.state; s.m = e.state; if (e.ended) streams.splice(streams.indexOf(s), 1);
				break;
			}
			case 6: { const col = O.column(sim, ls), e = O.model(data, ls, col, false); what = 'encodeIncr'; const r = m.binding.encodeIncr(src, ls, col); num(r.col, e.col); num(r.written, e.buf.length); if (!data.length) break; eq(r.output, e.buf); keep(r.output, what, p); break; }
			case 7: case 8: { const c = sim.pick(crcs); what = 'crc32'; const r = sim.chance(1, 3) ? (crcIs(y.crc32(src), M.crc32(data, 0)), 0) : (crcIs(y.crc32(src, arg(c)), M.crc32(data, c)), 0); crcs[sim.draw(crcs.length)] = M.crc32(data, c); break; }
			case 9: { const a = sim.pick(crcs), b = sim.pick(crcs), k = sim.pick(nums); what = 'crc32_combine'; crcIs(y.crc32_combine(arg(a), arg(b), k), M.combine(a, b, k)); break; }
			case 10: { const a = sim.pick(crcs), k = sim.pick(nums) * (sim.chance(1, 3) ? -1 : 1); what = 'crc32_zeroes'; crcIs(y.crc32_zeroes(k, arg(a)), M.zeroes(a, k)); break; }
			case 11: { const a = sim.pick(crcs), b = sim.pick(crcs); what = 'crc32_multiply'; crcIs(y.crc32_multiply(arg(a), arg(b)), M.mul(a, b)); break; }
			case 12: { const a = sim.pick(crcs), k = sim.pick(nums) * (sim.chance(1, 3) ? -1 : 1); what = 'crc32_shift'; if (sim.chance(1, 5)) crcIs(y.crc32_shift(k), M.shift(0x80000000, k)); else crcIs(y.crc32_shift(k, arg(a)), M.shift(a, k)); break; }
			case 13: { what = 'post'; const r = y.post('n' + i, src, ls), c = M.crc32(data, 0).toString(16).padStart(8, '0');
				eq(r, Buffer.concat([Buffer.from('=ybegin line=' + ls + ' size=' + data.length + ' name=n' + i + '\r\n'), O.model(data, ls, 0, true).buf, Buffer.from('\r\n=yend size=' + data.length + ' crc32=' + c)])); keep(r, what, p); break; }
			case 14: { // encoders in progress
				what = 'YEncoder.encode';
				if (encs.length < 3) { const parts = sim.range(1, 3), size = parts * 400; encs.push({ e: y.multi_post('f' + i, size + 300, parts, ls), nm: 'f' + i, ls: ls, parts: parts, size: size + 300, part: 0, pos: 0, crc: 0, p: p }); }
				const s = sim.pick(encs), last = s.part + 1 === s.parts;
				let d = data;
				if (last) { const k = s.size - s.pos; d = Buffer.alloc(k, 0x41 + i); data.copy(d); } else if (s.pos + d.length > s.size - 1 || d.length === 0) d = Buffer.alloc(1, i);
				const c = M.crc32(d, 0), tot = M.combine(s.crc, c, d.length), hex = v => (v >>> 0).toString(16).padStart(8, '0'), give = Buffer.from(d);
				const r = s.e.encode(give);
				const multi = s.parts > 1;
				eq(r, Buffer.concat([Buffer.from('=ybegin ' + (multi ? 'part=' + (s.part + 1) + ' total=' + s.parts + ' ' : '') + 'line=' + s.ls + ' size=' + s.size + ' name=' + s.nm + '\r\n' + (multi ? '=ypart begin=' + (s.pos + 1) + ' end=' + (s.pos + d.length) + '\r\n' : '')), O.model(d, s.ls, 0, true).buf,
					Buffer.from('\r\n=yend size=' + d.length + (multi ? ' part=' + (s.part + 1) + ' pcrc32=' + hex(c) + (last ? ' crc32=' + hex(tot) : '') : ' crc32=' + hex(c)))]));
				args.push([give, d]); keep(r, what, p);
				s.part++; s.pos += d.length; s.crc = tot;
				if (s.e.part !== s.part || s.e.pos !== s.pos || s.e.crc.readUInt32BE(0) !== tot) sim.fail('result', 'the encoder does not describe the accepted parts' + w());
				if (last) encs.splice(encs.indexOf(s), 1);
				break;
			}
			case 15: { // from_post of a good or damaged article: same as in a fresh process
				what = 'from_post';
				const nm = sim.pick(['a b.bin', 'x', 'constructor', 'name=y', '__proto__']);
				let art = Buffer.concat([Buffer.from((sim.chance(1, 4) ? 'Subject: x\r\n\r\n' : '') + '=ybegin line=' + ls + ' size=' + data.length + ' name=' + nm + '\r\n'), O.model(data, ls, 0, true).buf, Buffer.from('\r\n=yend size=' + data.length + ' crc32=' + M.crc32(data, 0).toString(16).padStart(8, '0') + '\r\n')]);
				const bad = sim.chance(1, 3);
				if (bad) { upset = true; art = art.subarray(0, sim.draw(art.length)); sim.fault('damaged article'); }
				const a = env.input(art), raw = sim.chance(1, 3); args.push([a, Buffer.from(art)]);
				const r = y.from_post(a, raw);
				// an untouched process
				const z = env.newIndex(m.binding).from_post(Buffer.from(art), raw);
				if (flat(r) !== flat(z)) sim.fail('result', 'from_post differs from a fresh instance: ' + flat(r).slice(0, 200) + ' / ' + flat(z).slice(0, 200) + w());
				if (!bad) { if (r.warnings || r.code) sim.fail('result', 'an undamaged article gives ' + (r.code || r.warnings.map(x => x.code)) + w()); eq(r.data, data); keep(r.data, what, p); }
				break;
			}
			case 16: { // the program changes what it owns
				upset = true;
				if (sim.chance(1, 2) && kept.length) { const k = kept.splice(sim.draw(kept.length), 1)[0]; sim.fault('result overwritten by its owner'); sim.sub().fill(k.b); what = 'overwrite'; }
				else { refill(src); data.set(src); sim.fault('argument buffer rewritten'); what = 'rewrite'; checkKept(); }
				args = [];
				break;
			}
			case 17: case 18: upset = true; what = failing(sim, env, y, m, src, outb, ls, arg); break;
			default: { // a call that runs out of memory
				upset = true; what = 'call without memory';
				env.h.heapPlan([], 0, true); let t = false;
				try { switch (sim.draw(4)) { case 0: y.encode(src, ls); break; case 1: y.decode(src); break; case 2: y.decodeChunk(src, null); break; default: y.post('x', src, ls); } } catch (e) { t = true; }
				env.h.heapPlan([], -1, true);
				if (t) sim.fault('allocation failed');
			}
		}
		sim.counts.calls++; sim.counts.bytes += data.length;
		sim.ev('call', op, what, m.name, p.ys.indexOf(y), ls, data);
		sim.cover(m.idx, op, Math.min(data.length, 100), kept.length, encs.length);
		for (const [v, c] of args) if (v.compare(c)) sim.fail('argument-changed', 'an argument was changed by ' + what + w());
		for (const b of bufs) env.around(b, 'an argument');
		env.around(outb, 'the output');
		// the caller uses its small arguments again
		if (args.length > 1 && sim.chance(1, 4)) for (const [v] of args.slice(1)) { v.fill(sim.draw(256)); upset = true; }
		if (sim.chance(1, 3)) checkKept();
	}
	checkKept();
	return upset;
};
exports.measure = 'distinct (machine, call, length, results kept, encoders in progress) combinations';
exports.cleanup = env => env.h.heapPlan([], -1, true);
function flat(r) {
	if (r instanceof Error) return 'error ' + r.code;
	return JSON.stringify(r, (k, v) => v && v.type === 'Buffer' ? Buffer.from(v.data).toString('hex') : v) + (r.warnings ? r.warnings.map(w => w.code + w.message).join() : '');
}
// calls which are refused, or nonsense; whatever they do must not outlive them
function failing(sim, env, y, m, src, outb, ls, arg) {
	const small = outb.subarray(0, sim.draw(Math.max(1, src.length))), before = Buffer.from(outb);
	const L = [
		['encode()', () => y.encode()], ['encode(string)', () => y.encode('abc')], ['encode(line<0)', () => y.encode(src, -1 - sim.draw(9))], ['encode(col>line)', () => y.encode(src, ls, ls + 1 + sim.draw(5))], ['encode(col<0)', () => y.encode(src, ls, -1)],
		['encodeTo(small)', () => y.encodeTo(src, small, ls)], ['encodeTo(one)', () => y.encodeTo(src)], ['encodeTo(col)', () => y.encodeTo(src, outb, ls, ls + 2)],
		['decode()', () => y.decode()], ['decode(object)', () => y.decode({})], ['decodeTo(small)', () => y.decodeTo(src, small)], ['decodeTo(one)', () => y.decodeTo(src)],
		['decodeChunk()', () => y.decodeChunk()], ['decodeChunk(string)', () => y.decodeChunk('abc', null)], ['decodeChunk(small)', () => y.decodeChunk(src, null, small)], ['decodeChunk(bad state)', () => y.decodeChunk(Buffer.alloc(2), {})],
		['crc32()', () => y.crc32()], ['crc32(string)', () => y.crc32('abc')], ['crc32(init of 3)', () => y.crc32(src, Buffer.alloc(3))], ['crc32_combine()', () => y.crc32_combine(arg(1))], ['crc32_combine(bad)', () => y.crc32_combine(arg(1), Buffer.alloc(5), 3)],
		['crc32_multiply()', () => y.crc32_multiply(arg(3))], ['crc32_shift()', () => y.crc32_shift()], ['crc32_zeroes()', () => y.crc32_zeroes()], ['crc32_zeroes(bad)', () => y.crc32_zeroes(3, Buffer.alloc(2))],
		['post(null)', () => y.post(null, src, ls)], ['post(number)', () => y.post('f', 12)], ['from_post(string)', () => y.from_post('abc')], ['from_post()', () => y.from_post()], ['maxSize(ratio)', () => y.maxSize(3, 128, 7)],
		['encodeIncr(small)', () => m.binding.encodeIncr(src, small, ls)], ['encodeIncr()', () => m.binding.encodeIncr()], ['encodeIncr(col)', () => m.binding.encodeIncr(src, ls, -3)],
		['YEncoder.encode(too much)', () => y.multi_post('f', 3, 2, ls).encode(Buffer.alloc(9))], ['YEncoder.encode(wrong)', () => y.multi_post('f', 3, 1, ls).encode(Buffer.alloc(2))],
	];
	const [name, f] = L[sim.draw(L.length)];
	let t = false;
	try { f(); } catch (e) { t = true; }
	if (t) sim.fault('failing call');
	if (t && outb.compare(before)) sim.fail('argument-changed', name + ' threw but changed an output buffer');
	sim.ev('failing', name, t);
	return name;
}
