"use strict";
// C14: download daemons that keep a checkpoint (state string, CRC, counts) on a simulated disk and are
// killed at arbitrary points; what survives is what the disk kept. They restart as new processes, perhaps
// on another machine, and ask the server for the stream from the checkpoint's position.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js'), { chunk } = require('../stream.js');
exports.rule = 'a case is one simulated run of 1-2 downloads by processes which crash and restart (losing unsynced or torn writes, so that older checkpoints are used) on a fleet of machines until the article ended; non-trivial if some process resumed a stream with a state in the middle of it; distinct by the hash of its event history';
exports.quick = 800000;
// a file on a disk with a volatile cache: a list of writes, of which a prefix is durable
class Disk {
	constructor() { this.data = Buffer.alloc(0); this.pending = []; this.slots = []; this.next = 0; }
	append(at, b) { this.pending.push({ at: at, b: b }); }
	record(text) { this.pending.push({ slot: this.next++ % 3, text: text }); }
	apply(p, torn) {
		if (p.text !== undefined) this.slots[p.slot] = torn === undefined ? p.text : p.text.slice(0, torn);
		else {
			const b = torn === undefined ? p.b : p.b.subarray(0, torn);
			if (this.data.length < p.at + b.length) { const d = Buffer.alloc(Math.max(p.at + b.length, this.data.length * 2)); this.data.copy(d); this.data = d; }
			b.copy(this.data, p.at);
		}
	}
	sync() { for (const p of this.pending) this.apply(p); this.pending = []; }
	crash(sim) {
		if (!this.pending.length) return;
		const keep = sim.draw(this.pending.length + 1);
		for (let i = 0; i < keep; i++) this.apply(this.pending[i]);
		if (keep < this.pending.length) {
			sim.fault('unsynced write lost');
			if (sim.chance(1, 2)) { const p = this.pending[keep]; sim.fault('torn write'); this.apply(p, sim.draw((p.text || p.b).length + 1)); }
		}
		this.pending = [];
	}
}
const seal = o => { const s = JSON.stringify(o); return M.crc32(Buffer.from(s), 0) + ' ' + s; };
function unseal(t) {
	if (!t) return null;
	const i = t.indexOf(' '), s = t.slice(i + 1);
	return String(M.crc32(Buffer.from(s), 0)) === t.slice(0, i) ? JSON.parse(s) : null;
}
exports.run = function(sim, env) {
	const K = sim.weighted([[3, 1], [2, 2]]);
	let resumed = 0;
	const procs = [];
	for (let k = 0; k < K; k++) {
		const data = G.wire(sim, G.length(sim, 2500), sim.chance(2, 3));
		if (!data.length) continue;
		const whole = []; const end = M.decodeEnd(data, 0, whole);
		const file = Buffer.from(whole), fileCrc = M.crc32(file, 0);
		const p = { data, disk: new Disk(), life: 0, crashes: 0, m: null, wait: null };
		procs.push(p);
		const start = () => {
			// boot: load the newest readable checkpoint
			const life = ++p.life;
			p.m = env.reboot(env.copies[sim.draw(env.copies.length)]);
			for (const q of procs) if (q !== p && q.m === p.m) q.m = env.boot(q.m);
			let cp = null;
			for (const s of p.disk.slots) { const c = unseal(s); if (c && (!cp || c.seq > cp.seq)) cp = c; else if (s && !c) sim.probe('damaged checkpoint skipped'); }
			if (cp && sim.chance(1, 6)) { // an older one (restored from backup)
				for (const s of p.disk.slots) { const c = unseal(s); if (c && c.seq < cp.seq) { cp = c; sim.fault('older checkpoint used'); break; } }
			}
			const st = cp ? { seq: cp.seq, state: cp.state, mstate: cp.m, crc: cp.crc === null ? null : Buffer.from(cp.crc, 'hex'), read: cp.read, written: cp.written, since: cp.read } : { seq: 0, state: null, mstate: 0, crc: null, read: 0, written: 0, since: 0 };
			if (cp) { sim.ev('resume', p.m.name, cp.seq, cp.state, cp.read, cp.written, cp.crc); if (cp.read > 0) { resumed++; sim.fault('resumed from checkpoint'); } }
			const pieces = G.cuts(sim, data.subarray(st.read), 40); let i = 0;
			// the checkpoint may claim more than the data file kept: then start over from a checkpoint which it doesn't
			const receive = () => {
				if (p.life !== life) return;
				const n = Math.min(i < pieces.length ? pieces[i++] : data.length - st.read, data.length - st.read);
				const piece = data.subarray(st.read, st.read + n);
				let r;
				if (n && sim.chance(1, 20)) { // the process can't get memory for this piece; it tries again
					env.h.heapPlan([0], -1, true);
					let threw = false;
					const src = env.input(piece);
					try { p.m.y.decodeChunk(src, st.state); } catch (e) { threw = true; }
					env.h.heapPlan([], -1, true);
					if (threw) sim.fault('allocation failed, call repeated');
				}
				r = chunk(sim, env, p.m, piece, st.state, st.mstate, data.subarray(0, st.read));
				st.read += r.read; st.state = r.state; st.mstate = r.mstate;
				p.disk.append(st.written, r.bytes); st.written += r.bytes.length;
				if (r.bytes.length) {
					const src = env.input(r.bytes), y = p.m.y;
					const c = st.crc === null ? y.crc32(src) : sim.chance(1, 4) ? y.crc32_combine(st.crc, y.crc32(src), r.bytes.length) : y.crc32(src, st.crc);
					st.crc = Buffer.from(c);
					const ec = M.crc32(file.subarray(0, st.written), 0);
					if (st.crc.readUInt32BE(0) !== ec) sim.fail('crc', 'the running CRC after ' + st.written + ' bytes is ' + st.crc.toString('hex') + ', not ' + ec.toString(16) + ' [' + p.m.name + ']');
					sim.ev('crc', st.crc);
				}
				if (!r.ended && st.read < data.length) {
					if (sim.chance(2, 3)) {
						p.disk.record(seal({ seq: ++st.seq, state: st.state, m: st.mstate, crc: st.crc && st.crc.toString('hex'), read: st.read, written: st.written }));
						if (sim.chance(1, 2)) p.disk.sync();
					}
					if (p.crashes < 6 && sim.chance(1, 7)) { p.crashes++; sim.fault('process crash'); sim.ev('crash', st.read); p.disk.crash(sim); p.life++; sim.at(200 + sim.draw(3000), start); return; }
					sim.at(1 + sim.draw(30), receive);
					return;
				}
				p.disk.sync();
				// the file as assembled over all lives
				const got = p.disk.data.subarray(0, st.written);
				sim.check(st.written === file.length && !got.compare(file), 'file-differs', 'the resumed download differs from the uninterrupted one');
				sim.check(!!r.ended === (end.ended > 0) && st.read === end.read, 'end-differs', 'the resumed download ends differently');
				sim.check(r.ended ? st.state === M.ENDSTR[end.ended] : st.state === M.STR[end.state], 'end-differs', 'the final state differs');
				sim.check(file.length === 0 || st.crc.readUInt32BE(0) === fileCrc, 'crc', 'the CRC of the resumed download differs');
				p.done = true;
			};
			sim.at(1 + sim.draw(30), receive);
		};
		sim.at(sim.draw(50), start);
	}
	const finished = sim.loop();
	for (const p of procs) if (!p.done) sim.fail('progress', 'a download did not finish after faults stopped' + (finished ? '' : ' (step limit)'));
	return resumed > 0;
};
