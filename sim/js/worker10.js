"use strict";
// One simulated thread: a node worker executing the program it is given whenever it has the turn.
const { workerData } = require('worker_threads'), { Package } = require('./load.js');
Buffer.poolSize = 0;
const h = require(workerData.host);
const mem = Buffer.from(h.arena().ab);
const js = new Package(workerData.js);
const view = a => mem.subarray(a[0], a[0] + a[1]);
const crc = v => { const b = Buffer.alloc(4); b.writeUInt32BE(v); return b; };
const num = b => b.readUInt32BE(0);
function keep(res, buf) { const n = Math.min(buf.length, res[1]); mem.set(buf.subarray(0, n), res[0]); return buf.length; }
function op(y, binding, o) {
	const src = o.src && view(o.src), out = o.out && view(o.out), a = o.a;
	switch (o.k) {
		case 'encode': return { n: keep(o.res, y.encode(src, a[0], a[1])) };
		case 'encodeTo': return { n: y.encodeTo(src, out, a[0], a[1]) };
		case 'encodeIncr': { const r = binding.encodeIncr(src, a[0], a[1]); return { n: keep(o.res, r.output), w: r.written, col: r.col }; }
		case 'decode': return { n: keep(o.res, y.decode(src, a[0])) };
		case 'decodeTo': return { n: y.decodeTo(src, out, a[0]) };
		case 'decodeChunk': { const r = y.decodeChunk(src, a[0]); return { n: keep(o.res, r.output), w: r.written, read: r.read, ended: r.ended, state: r.state }; }
		case 'crc32': return { c: num(a[0] ? y.crc32(src, crc(a[0])) : y.crc32(src)) };
		case 'combine': return { c: num(y.crc32_combine(crc(a[0]), crc(a[1]), a[2])) };
		case 'zeroes': return { c: num(y.crc32_zeroes(a[1], crc(a[0]))) };
		case 'multiply': return { c: num(y.crc32_multiply(crc(a[0]), crc(a[1]))) };
		case 'shift': return { c: num(y.crc32_shift(a[1], crc(a[0]))) };
	}
}
(async () => {
	for (let n = 0;; n++) {
		if (n % 64 === 63) await new Promise(setImmediate);
		const job = JSON.parse(h.concNext()), out = [];
		h.concBegin();
		try {
			const m = { exports: {} };
			h.concLoad(job.copy, m.exports, m);
			const y = js.instance(m.exports);
			for (const o of job.ops) {
				h.concPoint();
				try { out.push(op(y, m.exports, o)); } catch (e) { out.push({ err: String(e && e.message || e) }); }
			}
		} catch (e) { out.push({ fatal: String(e && e.stack || e) }); }
		h.concEnd(JSON.stringify(out));
	}
})();
