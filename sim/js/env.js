"use strict";
// What the simulated programs run on: copies of the real addon and index.js on simulated CPUs,
// and memory whose placement (alignment, neighbouring bytes, unmapped pages) the simulator decides.
const fs = require('fs'), path = require('path');
Buffer.poolSize = 0;
const { Rng } = require('./sim.js'), { Package } = require('./load.js');

const ALL = 0xffffffff;
// [name, levels it needs from the host, rules (leaf, sub, reg, and, or)]
const L1C = (and, or) => [1, 0, 2, and >>> 0, (or || 0) >>> 0];
const L7B = (and) => [7, 0, 1, and >>> 0, 0];
const L7C = (and) => [7, 0, 2, and >>> 0, 0];
const noAvx512 = 0x2c02ffff; // ebx without AVX512 F DQ IFMA CD BW VL (and PF ER)
const clrAvx512 = L7B(~0xdc230000 >>> 0);
const clr7c = (bits) => L7C(~bits >>> 0);
const NO71 = [7, 1, 3, ~0x80000 >>> 0, 0];
const noCl = ~2 >>> 0;
const AVXOFF = ~((1 << 28) | (1 << 12) | (1 << 29)) >>> 0;
const fam = (eax) => [1, 0, 0, 0, eax >>> 0];
const INTEL = 0x000906ea; // plain Coffee Lake signature: no slow-instruction special cases
// features the profile gives (used to decide whether the host can execute it)
const PROFILES = [
	{ name: 'host', need: [], rules: [] },
	{ name: 'sse2', need: [], rules: [L1C(~((1<<9)|(1<<19)|(1<<20)|(1<<23)|(1<<28)|2) >>> 0), [0x80000001, 0, 2, ~0x20 >>> 0, 0]] },
	{ name: 'ssse3', need: ['ssse3'], rules: [L1C(~((1<<19)|(1<<20)|(1<<23)|(1<<28)|2) >>> 0), [0x80000001, 0, 2, ~0x20 >>> 0, 0]] },
	{ name: 'sse41', need: ['ssse3', 'sse41', 'pclmul'], rules: [L1C(~((1<<20)|(1<<23)|(1<<28)) >>> 0), [0x80000001, 0, 2, ~0x20 >>> 0, 0]] },
	{ name: 'avx', need: ['avx', 'pclmul', 'popcnt'], rules: [L7B(0), L7C(0), NO71, [0x80000001, 0, 2, ~0x20 >>> 0, 0]] },
	{ name: 'avx2', need: ['avx2', 'pclmul', 'popcnt', 'lzcnt'], rules: [clrAvx512, clr7c(0x5f42 | 0x400), NO71] },
	{ name: 'avx2+vpclmul', need: ['avx2', 'vpclmul', 'popcnt', 'lzcnt'], rules: [clrAvx512, clr7c(0x5a42), NO71] },
	{ name: 'avx3', need: ['avx2', 'avx512', 'popcnt', 'lzcnt', 'pclmul'], rules: [clr7c(0x5f42 | 0x400), NO71] },
	{ name: 'avx3+vpclmul', need: ['avx2', 'avx512', 'vpclmul', 'popcnt', 'lzcnt'], rules: [clr7c(0x5a42), NO71] },
	{ name: 'vbmi2', need: ['avx2', 'avx512', 'vbmi2', 'popcnt', 'lzcnt', 'pclmul'], rules: [clr7c(0x400), NO71] },
	{ name: 'vbmi2+vpclmul', need: ['avx2', 'avx512', 'vbmi2', 'vpclmul', 'popcnt', 'lzcnt'], rules: [NO71] },
	{ name: 'avx10/256', need: ['avx2', 'avx512', 'vbmi2', 'vpclmul', 'popcnt', 'lzcnt'], rules: [[7, 1, 3, ALL, 0x80000], [0x24, 0, 1, 0, 0x00030001], clrAvx512] },
	{ name: 'avx10/512', need: ['avx2', 'avx512', 'vbmi2', 'vpclmul', 'popcnt', 'lzcnt'], rules: [[7, 1, 3, ALL, 0x80000], [0x24, 0, 1, 0, 0x00070001]] },
	{ name: 'goldmont', need: ['ssse3', 'sse41', 'pclmul', 'popcnt'], rules: [fam(0x000506c9), L1C(~(1<<28) >>> 0), [0x80000001, 0, 2, ~0x20 >>> 0, 0]] },
	{ name: 'silvermont', need: ['ssse3', 'sse41', 'pclmul', 'popcnt'], rules: [fam(0x00030678), L1C(~(1<<28) >>> 0), [0x80000001, 0, 2, ~0x20 >>> 0, 0]] },
	{ name: 'sse41+popcnt', need: ['ssse3', 'sse41', 'popcnt'], rules: [L1C(~((1<<28)|2) >>> 0)] },
];

function hostFeatures(h) {
	const f = {}, l1 = h.hostCpuid(1, 0), l7 = h.hostCpuid(7, 0), x = h.hostCpuid(0xffffffff, 0), e = h.hostCpuid(0x80000001, 0);
	f.ssse3 = !!(l1[2] & 1 << 9); f.sse41 = !!(l1[2] & 1 << 19); f.pclmul = !!(l1[2] & 2); f.popcnt = !!(l1[2] & 1 << 23);
	f.avx = !!(l1[2] & 1 << 28) && (x[0] & 6) === 6;
	f.avx2 = f.avx && !!(l7[1] & 1 << 5) && !!(l7[1] & 8) && !!(l7[1] & 256);
	f.lzcnt = !!(e[2] & 0x20);
	f.avx512 = f.avx2 && (x[0] & 0xe0) === 0xe0 && !!(l7[1] & 1 << 16) && !!(l7[1] & 1 << 30) && !!(l7[1] & 1 << 31);
	f.vbmi2 = f.avx512 && !!(l7[2] & 0x40);
	f.vpclmul = f.avx2 && !!(l7[2] & 0x400);
	return f;
}

// old machines run old versions of Node, as far as index.js can tell
const OLD = { sse2: 2, ssse3: 1, silvermont: 2, 'sse41+popcnt': 1 };

class Env {
	constructor(hostDir, dir, cfg, bare) {
		this.h = require(hostDir + '/simhost.node');
		this.dir = dir;
		const ai = this.h.arena();
		this.page = ai.page; this.SMALL = ai.small; this.LARGE = ai.large; this.NSMALL = ai.nsmall; this.NLARGE = ai.nlarge;
		this.mem = Buffer.from(ai.ab);
		this.smallBase = ai.page; this.largeBase = ai.page + ai.nsmall * (ai.small + ai.page);
		this.h.heapOn(false);
		this.features = hostFeatures(this.h);
		this.jsDir = dir + '/js';
		this.js = new Package(this.jsDir);
		this.profiles = PROFILES.filter(p => p.need.every(n => this.features[n]));
		this.copies = [];
		if (bare) return; // machines are loaded by the scenario
		this.profiles.forEach((p, i) => {
			if (p.rules.some(r => r[0] === 1 && r[2] === 2) === false) { /* keep the host's leaf 1 */ }
			process.env.YSIM_CPU = p.rules.map(r => r.map(v => (v >>> 0).toString(16)).join('.')).join(';');
			const file = dir + '/yencode_' + i + '.node';
			const binding = require(file);
			const id = this.h.open(file);
			this.h.snapshot(id);
			const isa = this.h.hasNative(id) ? [this.h.isa(id, 0), this.h.isa(id, 1), this.h.isa(id, 2)] : [0, 0, 0];
			this.copies.push({ id: id, idx: i, name: p.name, binding: binding, isa: isa, age: OLD[p.name] || 0, fresh: null, y: null });
		});
		delete process.env.YSIM_CPU;
		this.native = this.h.hasNative(0);
		this.h.heapOn(true);
		this.h.heapPlan([], -1, true);
	}
	newIndex(binding, age) { return this.js.instance(binding, age); }
	// start of a run: fresh memory allocator; machines boot when first used
	begin(sim) {
		this.sim = sim; this.nextSmall = 0; this.nextLarge = 0;
		for (const c of this.copies) c.fresh = null;
		this.h.heapPlan([], -1, true);
		this.poisonRng = new Rng(this.sim.draw(0x10000), 99, 1);
	}
	boot(c) {
		if (c.fresh !== this.sim) { this.h.restore(c.id); c.y = this.newIndex(c.binding, c.age); c.fresh = this.sim; }
		return c;
	}
	reboot(c) { c.fresh = null; return this.boot(c); }
	// a machine of the simulated fleet
	machine(sim) { return this.boot(this.copies[sim.draw(this.copies.length)]); }

	// ---- memory
	slot(len) {
		if (len + 128 <= this.SMALL) {
			const i = this.nextSmall; this.nextSmall = (i + 1) % this.NSMALL;
			return { base: this.smallBase + i * (this.SMALL + this.page), size: this.SMALL };
		}
		if (len + 128 > this.LARGE) throw new Error('arena request too large: ' + len);
		const i = this.nextLarge; this.nextLarge = (i + 1) % this.NLARGE;
		return { base: this.largeBase + i * (this.LARGE + this.page), size: this.LARGE };
	}
	// place a buffer of len bytes; returns a view. The surroundings are poisoned.
	place(len, opt) {
		const sim = this.sim, s = this.slot(len);
		const how = opt && opt.how !== undefined ? opt.how : sim.draw(4);
		let off;
		if (how === 1) off = s.size - len;                 // ends where the mapped memory ends
		else if (how === 2) off = 0;                       // starts where the mapped memory starts
		else if (how === 3) off = s.size - len - sim.draw(65 < s.size - len ? 65 : 1);
		else off = Math.min(s.size - len, 1024 + sim.draw(64));
		if (off < 0) off = 0;
		const view = this.mem.subarray(s.base + off, s.base + off + len);
		view.at = s.base + off; view.slot = s;
		if (how === 1) sim.probe('buffer ends at unmapped page'); else if (how === 2) sim.probe('buffer starts at unmapped page');
		return view;
	}
	// bytes around a buffer: what happens to lie in memory
	poison(view, n, kind) {
		const a = Math.max(view.slot.base, view.at - n), b = Math.min(view.slot.base + view.slot.size, view.at + view.length + n);
		const k = kind === undefined ? this.sim.draw(6) : kind;
		const before = this.mem.subarray(a, view.at), after = this.mem.subarray(view.at + view.length, b);
		const P = POISON[k];
		if (P) { for (let i = 0; i < before.length; i++) before[before.length - 1 - i] = P[P.length - 1 - i % P.length]; for (let i = 0; i < after.length; i++) after[i] = P[i % P.length]; }
		else { this.poisonRng.fill(before); this.poisonRng.fill(after); }
		view.around = { before: before, after: after, cb: Buffer.from(before), ca: Buffer.from(after) };
		return view;
	}
	// did anything write next to a poisoned buffer?
	around(view, what) {
		const p = view.around;
		if (!p) return;
		if (p.before.compare(p.cb)) this.sim.fail('stray-write', 'bytes before ' + what + ' were changed' + firstDiff(p.before, p.cb, true));
		if (p.after.compare(p.ca)) this.sim.fail('stray-write', 'bytes after ' + what + ' were changed' + firstDiff(p.after, p.ca, false));
	}
	input(data, opt) {
		const v = this.place(data.length, opt); v.set(data); this.poison(v, 160, opt && opt.poison); return v;
	}
	output(len, opt) {
		const v = this.place(len, opt); this.poison(v, 256, opt && opt.poison); v.fill(0x5c); return v;
	}
}
const POISON = [Buffer.alloc(1), Buffer.from('\r\n.\r\n'), Buffer.from('\r\n=y'), Buffer.from('=y'), Buffer.from('.\r\n'), null];
function firstDiff(a, b, back) {
	for (let k = 0; k < a.length; k++) { const i = back ? a.length - 1 - k : k; if (a[i] !== b[i]) return ' (at distance ' + k + ')'; }
	return '';
}
module.exports = { Env, PROFILES, hostFeatures };
