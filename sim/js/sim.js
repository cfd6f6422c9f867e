"use strict";
// The simulator core: one seed (or one recorded list of choices) is one exactly repeatable execution.
// Every choice of schedule, delay, fault, placement and workload is a draw(); nothing else is random.
const zlib = require('zlib');

function mix(h, v) { h = Math.imul(h ^ v, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); return (h ^ (h >>> 16)) >>> 0; }
function hashStr(s) { let h = 0x9e3779b9; for (let i = 0; i < s.length; i++) h = mix(h, s.charCodeAt(i)); return h; }

class Rng { // sfc32
	constructor(a, b, c) {
		this.a = a >>> 0; this.b = b >>> 0; this.c = (c || 0) >>> 0; this.d = 1;
		for (let i = 0; i < 12; i++) this.next();
	}
	next() {
		const t = (this.a + this.b + this.d) | 0;
		this.d = (this.d + 1) | 0;
		this.a = this.b ^ (this.b >>> 9);
		this.b = (this.c + (this.c << 3)) | 0;
		this.c = (this.c << 21) | (this.c >>> 11);
		this.c = (this.c + t) | 0;
		return t >>> 0;
	}
	below(n) { return n <= 1 ? 0 : Math.floor(this.next() / 4294967296 * n); }
	fill(buf) {
		const n = buf.length;
		let i = 0;
		for (; i + 4 <= n; i += 4) { const v = this.next(); buf[i] = v; buf[i+1] = v >>> 8; buf[i+2] = v >>> 16; buf[i+3] = v >>> 24; }
		for (; i < n; i++) buf[i] = this.next();
		return buf;
	}
}

class Violation extends Error {
	constructor(cls, msg) { super(cls + ': ' + msg); this.cls = cls; this.detail = msg; this.violation = true; }
}
class StepLimit extends Error {}

class Sim {
	// opts: {prop, seed, index} or {choices}; trace: keep a readable log; onDraw: called with each choice
	constructor(opts) {
		this.prop = opts.prop;
		this.choices = opts.choices || null;
		this.rng = this.choices ? null : new Rng(hashStr(opts.prop), opts.seed >>> 0, opts.index >>> 0);
		this.drawn = [];
		this.onDraw = opts.onDraw || null;
		this.h1 = 0x811c9dc5; this.h2 = 0x1234567;
		this.log = opts.trace ? [] : null;
		this.faults = Object.create(null);
		this.probes = Object.create(null);
		this.covered = new Set();
		this.now = 0; this.seq = 0; this.queue = []; this.steps = 0;
		this.maxSteps = opts.maxSteps || 20000;
		this.counts = { calls: 0, bytes: 0 };
	}
	// ---- choices
	draw(n) {
		let v;
		if (this.choices) { v = this.drawn.length < this.choices.length ? this.choices[this.drawn.length] : 0; if (v >= n) v = n > 0 ? v % n : 0; }
		else v = this.rng.below(n);
		this.drawn.push(v);
		if (this.onDraw) this.onDraw(v);
		return v;
	}
	range(lo, hi) { return lo + this.draw(hi - lo + 1); }
	chance(p, q) { return this.draw(q) >= q - p; } // 0 (what shrinking tends to) means "no"
	pick(a) { return a[this.draw(a.length)]; }
	// [[weight, value]...]: the first entry should be the simplest
	weighted(t) {
		let s = 0; for (const e of t) s += e[0];
		let d = this.draw(s);
		for (const e of t) { if (d < e[0]) return e[1]; d -= e[0]; }
		return t[0][1];
	}
	sub() { return new Rng(this.draw(0x100000000), 0x5eed, 7); }
	// ---- history
	ev(kind, ...args) {
		let a = mix(this.h1, hashStr(kind)), b = mix(this.h2, a);
		for (const x of args) {
			let v;
			if (typeof x === 'number') v = (x | 0) ^ Math.imul(Math.floor(x / 4294967296) | 0, 0x9e3779b1);
			else if (typeof x === 'boolean') v = x ? 1 : 2;
			else if (x === null || x === undefined) v = 3;
			else if (Buffer.isBuffer(x)) v = zlib.crc32(x);
			else v = hashStr(String(x));
			a = mix(a, v); b = mix(b ^ 0x5bd1e995, a + v | 0);
		}
		this.h1 = a; this.h2 = b;
		if (this.log && this.log.length < 4000)
			this.log.push('t=' + this.now + ' ' + kind + ' ' + args.map(show).join(' '));
	}
	hash() { return (this.h1 & 0x1fffff) * 4294967296 + this.h2; }
	fault(kind, ...args) { this.faults[kind] = (this.faults[kind] || 0) + 1; this.ev('FAULT:' + kind, ...args); }
	probe(name) { this.probes[name] = (this.probes[name] || 0) + 1; }
	cover(a, b, c, d, e) {
		this.covered.add(mix(mix(mix(mix(mix(17, a | 0), b | 0), c | 0), d | 0), e | 0));
	}
	note(msg) { if (this.log && this.log.length < 4000) this.log.push('    ' + msg); }
	fail(cls, msg) { this.ev('VIOLATION', cls); throw new Violation(cls, msg); }
	check(c, cls, msg) { if (!c) this.fail(cls, typeof msg === 'function' ? msg() : msg); }
	// ---- discrete-event time
	at(delay, fn) {
		const e = { t: this.now + delay, s: this.seq++, fn: fn };
		const q = this.queue; let i = q.length; q.push(e);
		while (i > 0) { const p = (i - 1) >> 1; if (q[p].t < e.t || (q[p].t === e.t && q[p].s < e.s)) break; q[i] = q[p]; i = p; }
		q[i] = e;
	}
	pop() {
		const q = this.queue, top = q[0], e = q.pop();
		if (q.length) {
			let i = 0;
			for (;;) {
				let c = 2 * i + 1; if (c >= q.length) break;
				if (c + 1 < q.length && (q[c+1].t < q[c].t || (q[c+1].t === q[c].t && q[c+1].s < q[c].s))) c++;
				if (e.t < q[c].t || (e.t === q[c].t && e.s < q[c].s)) break;
				q[i] = q[c]; i = c;
			}
			q[i] = e;
		}
		return top;
	}
	loop() {
		while (this.queue.length) {
			if (++this.steps > this.maxSteps) return false;
			const e = this.pop(); this.now = e.t; e.fn();
		}
		return true;
	}
}
function show(x) {
	if (Buffer.isBuffer(x)) return '<' + x.length + ':' + (x.length <= 48 ? x.toString('latin1').replace(/[^\x21-\x7e]|\\/g, c => '\\x' + c.charCodeAt(0).toString(16).padStart(2, '0')) : x.subarray(0, 20).toString('hex') + '..' + x.subarray(x.length - 20).toString('hex')) + '>';
	if (typeof x === 'string') return JSON.stringify(x);
	return String(x);
}
module.exports = { Sim, Rng, Violation, StepLimit, mix, hashStr, show };
