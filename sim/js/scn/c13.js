"use strict";
// C13: machines with arbitrary (architecturally consistent) instruction sets, operating system support and
// family/model; loading and calls are executed on it: instructions of the module which belong to an extension
// the machine lacks trap, and results are compared with the model.
const { hashStr } = require('../sim.js');
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run: a machine with a drawn set of extensions, OS state support and CPU model is powered on, the module loaded and initialised from its pristine image and 3-12 calls made, every instruction the machine lacks trapping; non-trivial if the machine lacks something the host has; distinct by the hash of its event history';
exports.quick = 150000;
exports.chunk = 100;
exports.variant = 'builds';
exports.envModule = './env13.js';
exports.measure = 'distinct (selected kernels, allowed extensions, call) combinations';
exports.assumptions = ['the machine running the check executes correctly the instruction sets of the simulated machines, and offers the extensions the simulated ones do (sets are subsets of its own, plus AVX10 reporting)', 'instructions are found by disassembly and classified by a table covering the extensions compilers and this code emit', 'sampling: a clean batch is evidence, not proof'];
const F = { SSE3: 1, SSSE3: 2, SSE41: 4, SSE42: 8, POPCNT: 16, LZCNT: 32, BMI1: 64, BMI2: 128, PCLMUL: 256, AVX: 512, AVX2: 1024, VPCLMUL: 2048, AVX512: 4096, VBMI: 16384, VBMI2: 32768, ZMM: 65536 };
const bit = (v, b) => (v >>> b) & 1;
// families and models code may treat specially, with plain ones
const SIGS = [[6, 0x9e], [6, 0x1c], [6, 0x26], [6, 0x37], [6, 0x4a], [6, 0x4c], [6, 0x4d], [6, 0x5a], [6, 0x5c], [6, 0x5f], [6, 0x7a], [6, 0x9c], [6, 0xbe], [6, 0x2a], [6, 0x3c], [6, 0x55], [6, 0x7e], [6, 0x8f], [6, 0x57], [6, 0xf],
	[0x14, 0], [0x14, 1], [0x14, 2], [0x15, 2], [0x16, 0x30], [0x17, 1], [0x17, 0x71], [0x19, 0x21], [0x1a, 0x44], [0xf, 4], [7, 0x1b]];
function sig(f, m) { const bf = f > 15 ? 15 : f, ef = f > 15 ? f - 15 : 0; return ((ef << 20) | ((m >> 4) << 16) | (bf << 8) | ((m & 15) << 4) | 2) >>> 0; }
function machine(sim, env) {
	const r = env.hostRegs, host = {};
	host.sse3 = bit(r.l1[2], 0); host.pclmul = bit(r.l1[2], 1); host.ssse3 = bit(r.l1[2], 9); host.sse41 = bit(r.l1[2], 19); host.sse42 = bit(r.l1[2], 20); host.popcnt = bit(r.l1[2], 23);
	host.xsave = bit(r.l1[2], 26); host.osxsave = bit(r.l1[2], 27); host.avx = bit(r.l1[2], 28); host.lzcnt = bit(r.ext[2], 5);
	host.bmi1 = bit(r.l7[1], 3); host.avx2 = bit(r.l7[1], 5); host.bmi2 = bit(r.l7[1], 8); host.f512 = bit(r.l7[1], 16); host.dq = bit(r.l7[1], 17); host.cd = bit(r.l7[1], 28); host.bw = bit(r.l7[1], 30); host.vl = bit(r.l7[1], 31);
	host.vbmi = bit(r.l7[2], 1); host.vbmi2 = bit(r.l7[2], 6); host.gfni = bit(r.l7[2], 8); host.vaes = bit(r.l7[2], 9); host.vpclmul = bit(r.l7[2], 10);
	const x = Object.assign({}, host), drop = [];
	const names = Object.keys(host);
	const off = n => { if (x[n]) { x[n] = 0; drop.push(n); } };
	// a generation of CPUs, then single features masked by the virtual machine or firmware
	const gen = sim.draw(10);
	if (gen <= 1) off('sse3');
	else if (gen === 2) off('ssse3');
	else if (gen === 3) off('sse41');
	else if (gen === 4) off('avx');
	else if (gen === 5) off('avx2');
	else if (gen === 6) off('f512');
	else if (gen === 7) off('vbmi2');
	const k = sim.weighted([[3, 0], [4, 1], [3, 2], [2, 4]]);
	for (let i = 0; i < k; i++) off(sim.pick(['popcnt', 'lzcnt', 'bmi1', 'bmi2', 'pclmul', 'vpclmul', 'vbmi', 'vbmi2', 'bw', 'vl', 'dq', 'f512', 'avx2', 'avx', 'sse42', 'sse41', 'ssse3', 'osxsave', 'xsave', 'vaes', 'gfni', 'cd']));
	// operating system
	let xcr = r.xcr0;
	const os = sim.draw(8);
	if (os === 0) xcr &= 3; else if (os === 1) xcr &= 0x1f; else if (os === 2) { off('osxsave'); }
	if (os <= 2) sim.fault('operating system without AVX or AVX-512 state');
	// what follows from what is missing
	const need = (a, b) => { if (!x[b]) off(a); };
	need('ssse3', 'sse3'); need('sse41', 'ssse3'); need('sse42', 'sse41'); need('osxsave', 'xsave'); need('avx', 'sse42'); need('avx', 'xsave'); need('avx2', 'avx'); need('f512', 'avx2');
	for (const n of ['bw', 'vl', 'dq', 'cd', 'vbmi', 'vbmi2']) need(n, 'f512');
	need('vbmi', 'bw'); need('vbmi2', 'bw'); need('vpclmul', 'avx'); need('vpclmul', 'pclmul'); need('vaes', 'avx');
	// AVX10
	let avx10 = 0;
	const full = ['f512', 'bw', 'vl', 'dq', 'cd', 'vbmi', 'vbmi2', 'vpclmul', 'bmi1', 'bmi2', 'lzcnt', 'popcnt'].every(n => x[n]);
	const rules = [];
	if (full && sim.chance(1, 3)) {
		avx10 = sim.pick([1, 2, 3]); // 256 bits; 512 bits; reported by the CPU with a version of 0
		if (avx10 !== 2) for (const n of ['f512', 'bw', 'vl', 'dq', 'cd', 'vbmi', 'vbmi2']) off(n);
		rules.push(7, 1, 3, 0xffffffff, 0x80000, 0x24, 0, 1, 0, avx10 === 1 ? 0x00030001 : avx10 === 2 ? 0x00070001 : 0);
		sim.probe('AVX10 kind ' + avx10);
	} else rules.push(7, 1, 3, ~0x80000 >>> 0, 0);
	const mask = list => ~list.reduce((a, [n, b]) => a | (x[n] ? 0 : 1 << b), 0) >>> 0;
	const m1 = mask([['sse3', 0], ['pclmul', 1], ['ssse3', 9], ['sse41', 19], ['sse42', 20], ['popcnt', 23], ['xsave', 26], ['osxsave', 27], ['avx', 28]]) & (x.avx ? ~0 : ~((1 << 12) | (1 << 29)));
	rules.push(1, 0, 2, m1 >>> 0, 0);
	rules.push(7, 0, 1, mask([['bmi1', 3], ['avx2', 5], ['bmi2', 8], ['f512', 16], ['dq', 17], ['cd', 28], ['bw', 30], ['vl', 31]]) & (x.f512 ? ~0 : ~0x2c200000) >>> 0, 0);
	rules.push(7, 0, 2, mask([['vbmi', 1], ['vbmi2', 6], ['gfni', 8], ['vaes', 9], ['vpclmul', 10]]) & (x.f512 ? ~0 : ~0x5800) >>> 0, 0);
	if (!x.f512) rules.push(7, 0, 3, ~0x90010c >>> 0, 0);
	rules.push(0x80000001, 0, 2, x.lzcnt ? 0xffffffff : ~0x20 >>> 0, 0);
	const s = sim.chance(1, 2) ? SIGS[0] : sim.pick(SIGS);
	rules.push(1, 0, 0, 0, sig(s[0], s[1]));
	rules.push(0xffffffff, 0, 0, xcr >>> 0, 0);
	for (let i = 0; i < rules.length; i++) rules[i] = rules[i] >>> 0;
	// what may be executed
	const osAvx = x.osxsave && (xcr & 6) === 6, os512 = osAvx && (xcr & 0xe0) === 0xe0;
	let ok = 0;
	if (x.sse3) ok |= F.SSE3; if (x.ssse3) ok |= F.SSSE3; if (x.sse41) ok |= F.SSE41; if (x.sse42) ok |= F.SSE42; if (x.popcnt) ok |= F.POPCNT; if (x.lzcnt) ok |= F.LZCNT; if (x.bmi1) ok |= F.BMI1; if (x.bmi2) ok |= F.BMI2; if (x.pclmul) ok |= F.PCLMUL;
	if (x.avx && osAvx) ok |= F.AVX; if (x.avx2 && osAvx) ok |= F.AVX2; if (x.vpclmul && osAvx) ok |= F.VPCLMUL;
	if (os512 && x.avx2) {
		if (x.f512 && x.bw && x.vl) { ok |= F.AVX512 | F.ZMM; if (x.vbmi) ok |= F.VBMI; if (x.vbmi2) ok |= F.VBMI2; }
		if (avx10 === 1 || avx10 === 2) { ok |= F.AVX512 | F.VBMI | F.VBMI2 | F.VPCLMUL; if (avx10 === 2) ok |= F.ZMM; }
	}
	for (const d of drop) sim.probe('without ' + d);
	if (drop.length) sim.fault('missing extension', drop.length);
	return { rules, ok, text: 'family ' + s[0].toString(16) + ' model ' + s[1].toString(16) + ', without ' + (drop.join(' ') || 'nothing') + ', xcr0 ' + (x.osxsave ? xcr.toString(16) : 'off') + (avx10 ? ', AVX10 kind ' + avx10 : ''), lacking: drop.length > 0 || os <= 2 };
}
const names = v => Object.keys(F).filter(k => v & F[k]).join('+') || (v ? 'another extension' : '');
exports.run = function(sim, env) {
	const mc = machine(sim, env), h = env.h;
	// mostly the build people get; else with another compiler or other options of binding.gyp
	env.use(sim.weighted([[5, 0], [4, 1]]) && sim.draw(env.builds.length));
	if (env.build !== 'gcc') mc.text += ', build ' + env.build;
	sim.probe('build ' + env.build);
	env.power(mc.rules, mc.ok);
	sim.ev('power on', mc.text, mc.ok, env.trapped);
	const id = env.id;
	let isa = 0;
	const judge = what => {
		const r = h.trapResult(id);
		if (r.bad) sim.fail('unsupported-instruction', what + ' executes instructions of ' + names(r.need) + ' (at ' + r.where + ': ' + r.bytes + ') on a machine (' + mc.text + ') which does not support them');
		if (h.xgetbvUd(id) !== env.ud0) sim.fail('unsupported-instruction', what + ' executes XGETBV although the operating system did not enable it (' + mc.text + ')');
		sim.cover(isa, mc.ok, hashStr(what), 0, 0);
	};
	const started = () => {
		if (!env.native) return;
		const k = [0, 1, 2].map(k => h.isa(id, k));
		isa = k[0] * 1000003 + k[1] * 1009 + k[2];
		sim.ev('kernels', k.join()); sim.probe('kernels ' + k.map(v => v.toString(16)).join('/'));
	};
	const n = sim.range(3, 12);
	if (env.native && sim.chance(1, 2)) {
		for (const p of sim.pick([[7], [1, 2, 4], [4, 2, 1], [2, 5]])) { h.call(0, id, 0, p); judge('initialisation'); }
		started();
		for (let i = 0; i < n; i++) native(sim, env, mc, judge);
	} else {
		const y = env.newIndex(env.load());
		judge('loading');
		started();
		for (let i = 0; i < n; i++) api(sim, env, y, mc, judge);
	}
	const e = h.heapCheck(); if (e.length) sim.fail('heap', e[0]);
	return mc.lacking;
};
exports.cleanup = env => { env.h.trapResult(env.id); };
function native(sim, env, mc, judge) {
	const h = env.h, id = env.id, op = sim.draw(8), len = sim.chance(1, 2) ? sim.draw(200) : sim.draw(900);
	let what, r, exp;
	const ck = (a, b) => { if (a !== b) sim.fail('result', what + ' gives ' + a + ', not ' + b + ' on a machine (' + mc.text + ')'); };
	switch (op) {
		case 0: case 1: { what = 'decode' + (op ? ' stripping dots' : ''); const d = G.wire(sim, len, false), src = env.input(d), out = env.output(d.length), o = [], st = sim.pick([0, 3, 1, 2]);
			const ms = M.decodeNoEnd(d, op === 1, st, o); if (!d.length) break;
			r = h.call(1, id, 0, op, src.at, out.at, d.length, st); exp = Buffer.from(o); ck(r[0], exp.length); O.cmp(sim, 'result', out.subarray(0, r[0]), exp, ' [' + what + ', ' + mc.text + ']'); break; }
		case 2: case 3: { what = 'decode_end'; const d = G.wire(sim, len, sim.chance(1, 2)), src = env.input(d), out = env.output(d.length), o = [], st = sim.draw(7), e = M.decodeEnd(d, st, o); if (!d.length) break;
			r = h.call(2, id, 0, 0, src.at, out.at, d.length, st); exp = Buffer.from(o); ck(r[0], exp.length); ck(r[2], e.ended); ck(r[3], e.read); O.cmp(sim, 'result', out.subarray(0, r[0]), exp, ' [' + what + ', ' + mc.text + ']'); break; }
		case 4: case 5: { what = 'encode'; const d = G.bytes(sim, len), ls = sim.chance(1, 2) ? 128 : O.lineSize(sim), col = O.column(sim, ls), src = env.input(d), out = env.output(M.maxSize(d.length, ls) || 66), e = O.model(d, ls, col, op === 4); if (!d.length) break;
			r = h.call(3, id, 0, 0, src.at, out.at, d.length, ls, col, op === 4 ? 1 : 0); ck(r[0], e.buf.length); O.cmp(sim, 'result', out.subarray(0, r[0]), e.buf, ' [' + what + ', ' + mc.text + ']'); break; }
		case 6: { what = 'crc32'; const d = G.bytes(sim, len), src = env.input(d), i = sim.draw(0x100000000); r = h.call(4, id, 0, 0, src.at, 0, d.length, i); ck(r, M.crc32(d, i)); break; }
		default: { const a = sim.draw(0x100000000), b = sim.draw(0x100000000);
			switch (sim.draw(4)) {
				case 0: what = 'crc32_multiply'; r = h.call(8, id, 0, 0, a, b, 0); ck(r, M.mul(a, b)); break;
				case 1: what = 'crc32_combine'; r = h.call(5, id, 0, 0, a, b, b); ck(r, M.combine(a, b, b)); break;
				case 2: what = 'crc32_shift'; r = h.call(7, id, 0, 0, a, b, 0); ck(r, M.shift(a, b)); break;
				default: { what = 'crc32_zeroes'; const n = sim.chance(1, 2) ? -b : b; r = h.call(6, id, 0, 0, a, 0, n); ck(r, M.zeroes(a, n)); }
			} }
	}
	sim.counts.calls++; sim.counts.bytes += len;
	sim.ev(what, len, Array.isArray(r) ? r.join() : r);
	if (r !== undefined) judge(what);
}
function api(sim, env, y, mc, judge) {
	const h = env.h, op = sim.draw(6), len = sim.draw(600);
	let what, r, f, check;
	const o = [], fail = () => sim.fail('result', what + ' gives a wrong result on a machine (' + mc.text + ')');
	const same = (a, b) => { if (a.length !== b.length || Buffer.compare(a, b)) fail(); };
	const num = (b, v) => { if (b.readUInt32BE(0) !== v >>> 0) fail(); };
	const a = sim.draw(0x100000000), b = sim.draw(0x100000000);
	switch (op) {
		case 0: { what = 'decodeTo'; const raw = sim.chance(1, 2), d = G.wire(sim, len, false), src = env.input(d), out = env.output(d.length); M.decodeNoEnd(d, raw, 0, o); f = () => y.decodeTo(src, out, raw); check = n => same(out.subarray(0, n), Buffer.from(o)); break; }
		case 1: { what = 'decodeChunk'; const d = G.wire(sim, len, true), src = env.input(d), out = env.output(d.length); M.decodeEnd(d, 0, o); f = () => y.decodeChunk(src, null, out); check = r => same(out.subarray(0, r.written), Buffer.from(o)); break; }
		case 2: { what = 'encodeTo'; const d = G.bytes(sim, len), ls = O.lineSize(sim), src = env.input(d), out = env.output(M.maxSize(d.length, ls)), e = O.model(d, ls, 0, true); f = () => y.encodeTo(src, out, ls, 0); check = n => same(out.subarray(0, n), e.buf); break; }
		case 3: { what = 'crc32'; const d = G.bytes(sim, len), src = env.input(d); f = () => y.crc32(src); check = r => num(r, M.crc32(d, 0)); break; }
		case 4: { what = 'crc32_combine'; const p = O.crcBuf(a), q = O.crcBuf(b); f = () => y.crc32_combine(p, q, len); check = r => num(r, M.combine(a, b, len)); break; }
		default: { what = 'crc32_zeroes'; const p = O.crcBuf(a), n = sim.chance(1, 2) ? -b : b; f = () => y.crc32_zeroes(n, p); check = r => num(r, M.zeroes(a, n)); }
	}
	r = f();
	check(r);
	sim.counts.calls++; sim.counts.bytes += len;
	sim.ev(what, len, typeof r === 'number' ? r : r.written);
	judge(what);
}
