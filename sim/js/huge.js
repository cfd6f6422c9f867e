"use strict";
// Calls on buffers beyond 2 and 4 GiB. They are the same megabyte mapped over and over (so that they need hardly
// any memory) followed by a megabyte of their own; what the call writes last is compared with the model.
const M = require('./model.js'), G = require('./gen.js');
const MIB = 1048576, G2 = 2147483648, G4 = 4294967296, P = 16384;

function withMaps(env, sizes, fn) { // sizes: megabytes repeated of the input, of the output
	const abs = sizes.map((k, w) => env.h.hugeMap(w, k));
	try { return fn(...abs.map(ab => Buffer.from(ab))); }
	finally { abs.forEach((ab, w) => env.h.hugeFree(w, ab)); global.gc({ type: 'minor' }); }
}
function fillAll(buf, k, pat) { for (let i = 0; i < MIB; i += P) { pat.copy(buf, i); pat.copy(buf, k * MIB + i); } }
const mib = n => Math.ceil(n / MIB);
// total and last window of what a machine with small state gives for head, then pat x count, then tail
function predict(step, state0, head, pat, count, tail) {
	const memo = new Map(); let state = state0, total = 0, recent = [];
	const push = o => { total += o.length; recent.push(o); let s = 0; for (const r of recent) s += r.length; while (recent.length > 1 && s - recent[0].length >= MIB) s -= recent.shift().length; };
	const first = step(head, state); state = first.state; push(first.out);
	for (let i = 0; i < count; i++) {
		let m = memo.get(state);
		if (!m) memo.set(state, m = step(pat, state));
		state = m.state; 
		if (i < count - 200) total += m.out.length; else push(m.out);
	}
	const last = step(tail, state); push(last.out);
	return { total, state: last.state, recent: Buffer.concat(recent), last };
}
// op: 'decodeTo', 'decodeChunk', 'encodeTo', 'crc32'
function run(sim, env, m, op) {
	const y = m.y;
	sim.fault('buffer beyond ' + (op === 'crc32' ? '4' : '2') + ' GiB');
	const ls = sim.pick([128, 128, 64, 200, 10]), start = sim.draw(P), raw = sim.chance(1, 2);
	const over = sim.pick([1, 0, 2, 15, 63, 64, 65, 4096, 100000]) + (sim.chance(1, 2) ? sim.draw(600000) : 0);
	let pat, base = op === 'crc32' ? G4 : G2;
	if (op === 'decodeTo' || op === 'decodeChunk') {
		do { pat = G.wire(sim, P, false); } while (pat.length === 0);
		const b = Buffer.alloc(P); for (let i = 0; i < P; i++) b[i] = pat[i % pat.length];
		if (op === 'decodeChunk') for (let i = 0; i < P; i++) if (b[i] === 0x0a || b[i] === 0x79) b[i] = 0x62; // no end inside
		pat = b;
		// so long that the result goes beyond 2 GiB, too
		const o = []; M.decodeNoEnd(pat, raw, 3, o);
		if (o.length * 1.6 > P && sim.chance(2, 3)) base = Math.ceil(G2 / o.length * P) + 2 * MIB;
	} else pat = G.bytes(sim, P);
	const n = base + over, k = Math.floor((start + n) / MIB); // the last bytes are in the megabyte of its own
	const where = ' [' + m.name + ', ' + op + ' of ' + n + ' bytes]';
	const outLen = op === 'encodeTo' ? M.maxSize(n, ls) + MIB : op === 'crc32' ? 0 : n;
	return withMaps(env, op === 'crc32' ? [k] : [k, mib(outLen) + 1], (inb, outb) => {
		fillAll(inb, k, pat);
		const src = inb.subarray(start, start + n);
		const headLen = P - start, count = Math.floor((n - headLen - MIB) / P), tailLen = n - headLen - count * P;
		const tailAt = start + headLen + count * P;
		if (op === 'decodeChunk' && sim.chance(1, 2)) { // an end marker in the last megabyte
			const e = Buffer.from(sim.pick(G.ENDS), 'latin1'); const p = start + n - 1 - e.length - sim.draw(Math.min(over + 1, 200000));
			e.copy(inb, Math.max(p, k * MIB));
		}
		const tail = Buffer.from(inb.subarray(tailAt, tailAt + tailLen)), head = pat.subarray(start);
		sim.ev(op, m.name, n, start, pat, tail);
		if (op === 'crc32') {
			let c = M.crc32(head, 0), pc = M.crc32(pat, 0), len = P, q = count;
			while (q) { if (q & 1) c = M.combine(c, pc, len); pc = M.combine(pc, pc, len); len *= 2; q = Math.floor(q / 2); }
			c = M.combine(c, M.crc32(tail, 0), tail.length);
			const got = y.crc32(src).readUInt32BE(0);
			sim.ev('crc', got);
			if (got !== c) sim.fail('crc', 'crc32 is ' + got.toString(16) + ', not ' + c.toString(16) + where);
			return;
		}
		const ko = mib(outLen) + 1, window = MIB - 8192;
		let exp, got, ret;
		if (op === 'decodeTo') {
			exp = predict((d, s) => { const o = []; const st = M.decodeNoEnd(d, raw, s, o); return { out: Buffer.from(o), state: st }; }, raw ? 0 : 3, head, pat, count, tail);
			got = ret = y.decodeTo(src, outb.subarray(0, outLen), raw);
		} else if (op === 'decodeChunk') {
			const out = outb.subarray(0, outLen);
			exp = predict((d, s) => { const o = []; const e = M.decodeEnd(d, s, o); return { out: Buffer.from(o), state: e.state, e: e }; }, 0, head, pat, count, tail);
			ret = y.decodeChunk(src, null, out); got = ret.written;
			const e = exp.last.e, read = n - tailLen + e.read;
			if (ret.read !== read) sim.fail('read', 'read is ' + ret.read + ', not ' + read + where);
			if (ret.ended !== e.ended > 0) sim.fail('ended', 'ended is ' + ret.ended + where);
			const es = e.ended ? M.ENDSTR[e.ended] : M.STR[e.state];
			if (ret.state !== es) sim.fail('state', 'state is ' + JSON.stringify(ret.state) + ', not ' + JSON.stringify(es) + where);
			if (ret.output !== out) sim.fail('output', 'output is not the supplied buffer' + where);
		} else {
			exp = predict((d, s) => { const o = []; const c = M.encode(d, ls, s, false, o); return { out: Buffer.from(o), state: c }; }, 0, head, pat, count, tail.subarray(0, -1));
			// the last byte closes the line
			const o = []; M.encode(tail.subarray(-1), ls, exp.state, true, o); exp.total += o.length; exp.recent = Buffer.concat([exp.recent, Buffer.from(o)]);
			got = ret = y.encodeTo(src, outb.subarray(0, M.maxSize(n, ls)), ls);
		}
		sim.ev('ret', got);
		if (got !== exp.total) sim.fail('written', 'reports ' + got + ' bytes, not ' + exp.total + where);
		const w = Math.min(window, exp.recent.length), e = exp.recent.subarray(exp.recent.length - w), g = outb.subarray(exp.total - w, exp.total);
		if (g.compare(e)) { let i = 0; while (g[i] === e[i]) i++; sim.fail('data', 'bytes differ ' + (w - i) + ' bytes before the end' + where); }
	});
}
// outputs which are too small for an input beyond 2 or 4 GiB: nothing may be touched
function refuse(sim, env, m) {
	const y = m.y, n = sim.pick([G2, G4, G2 + 5, G4 + 1, G4 + 100, G4 * 2 + 1, G2 / 2, G2 / 2 + 64]) , op = sim.draw(3);
	const ls = sim.pick([128, 64, 1, 2, 3, 997]);
	const need = op === 0 ? M.maxSize(n, ls) : n;
	const out = env.output(sim.draw(3) * sim.draw(4000) + 200);
	const name = ['encodeTo', 'decodeTo', 'decodeChunk'][op];
	sim.fault('output too small for an input beyond 1 GiB');
	withMaps(env, [mib(n)], inb => {
		let err = null;
		const src = inb.subarray(0, n);
		if (op === 0 && y.maxSize(n, ls) !== need) sim.fail('maxsize', 'maxSize(' + n + ', ' + ls + ') is ' + y.maxSize(n, ls) + ', not ' + need);
		try { op === 0 ? y.encodeTo(src, out, ls) : op === 1 ? y.decodeTo(src, out, sim.chance(1, 2)) : y.decodeChunk(src, null, out); } catch (e) { err = e; }
		sim.ev('refuse', m.name, name, n, out.length, err ? err.message : 'accepted');
		if (!(err instanceof Error)) sim.fail('not-refused', name + ' of ' + n + ' bytes accepted an output of ' + out.length + ' bytes [' + m.name + ']');
	});
	for (let i = 0; i < out.length; i++) if (out[i] !== 0x5c) sim.fail('refused-but-written', name + ' threw but wrote to its output');
	env.around(out, 'the output');
}
module.exports = { run, refuse };
