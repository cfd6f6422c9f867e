"use strict";
// C11: programs running short of memory. The allocator under the results is simulated: any call of it may
// fail, blocks end at unmapped pages and become inaccessible when released. The garbage collector runs
// when the schedule says so, after results were dropped in an order the schedule chose.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run of 8-30 calls (one-shot, streams, posts, encoders in progress) under an allocation fault plan per call, with results kept, sliced, dropped in a drawn order and collected at drawn points; all memory must be back at the end; non-trivial if some allocation failed; distinct by the hash of its event history';
exports.quick = 12000;
exports.chunk = 60;
const tick = () => new Promise(setImmediate);
async function collect(env, target) {
	for (let i = 0; i < 60; i++) {
		global.gc(); await tick(); await tick();
		if (env.h.heapLive() <= target) return true;
	}
	return env.h.heapLive() <= target;
}
let dirty = true;
exports.cleanup = () => { dirty = true; };
exports.run = async function(sim, env) {
	env.h.heapPlan([], -1, true, false); env.h.refuseBuffer(-1);
	if (env.h.heapLive() > 0 && !await collect(env, 0)) { if (!dirty) sim.fail('leak', env.h.heapLive() + ' result allocations of earlier runs were never released'); }
	const base = env.h.heapLive();
	dirty = false;
	env.h.heapCheck();
	let failed = 0, nops = 0;
	const ctx = { kept: [], streams: [], encs: [] };
	const n = sim.range(6, 24);
	for (let i = 0; i < n; i++) {
		if (step(sim, env, ctx)) failed++;
		nops++;
		if (sim.chance(1, 5)) drop(sim, ctx, sim.draw(ctx.kept.length + 1));
		if (sim.chance(1, 12)) {
			sim.fault('garbage collection');
			global.gc({ type: sim.chance(1, 2) ? 'minor' : 'major' }); await tick();
			verify(sim, env, ctx);
		}
	}
	verify(sim, env, ctx);
	drop(sim, ctx, ctx.kept.length);
	ctx.streams = ctx.encs = null;
	if (!await collect(env, base)) { dirty = true; sim.fail('leak', (env.h.heapLive() - base) + ' result allocations were never released after all results were dropped'); }
	const e = env.h.heapCheck();
	if (e.length) sim.fail('heap', e[0]);
	return failed > 0;
};
function verify(sim, env, ctx) {
	for (const k of ctx.kept) if (k.buf.compare(k.copy)) sim.fail('result-changed', 'a kept result of ' + k.what + ' changed');
	const e = env.h.heapCheck();
	if (e.length) sim.fail('heap', e[0]);
}
function drop(sim, ctx, n) {
	while (n-- > 0 && ctx.kept.length) { const j = sim.draw(ctx.kept.length); const l = ctx.kept.pop(); if (j < ctx.kept.length) ctx.kept[j] = l; }
}
function keep(sim, ctx, buf, what) {
	if (!sim.chance(3, 4)) return;
	if (sim.chance(1, 4)) { const a = sim.draw(buf.length + 1), b = a + sim.draw(buf.length - a + 1); buf = buf.subarray(a, b); } // only a part stays reachable
	ctx.kept.push({ buf: buf, copy: Buffer.from(buf), what: what });
}
// one call; returns whether an allocation failed in it
function step(sim, env, ctx) {
	const op = sim.draw(9), m = env.machine(sim), y = m.y;
	const plan = sim.weighted([[5, 0], [4, 1], [2, 2], [2, 3], [2, 4], [1, 5], [2, 6]]);
	const len = sim.chance(1, 25) ? sim.draw(90000) : G.length(sim, 1500);
	let call, check, what, after = () => {};
	switch (op) {
		case 0: { const d = G.bytes(sim, len), ls = O.lineSize(sim), col = O.column(sim, ls); const src = env.input(d); what = 'encode';
			const exp = O.model(d, ls, col === ls ? 0 : col, true).buf; call = () => y.encode(src, ls, col); check = r => O.cmp(sim, 'result', r, exp, w()); break; }
		case 1: case 2: { const d = sim.chance(1, 6) ? Buffer.alloc(1 + sim.draw(3), 0x3d) : G.wire(sim, len, false), raw = sim.chance(1, 2), src = env.input(d), o = []; what = 'decode'; M.decodeNoEnd(d, raw, 0, o); const exp = Buffer.from(o);
			call = () => y.decode(src, raw); check = r => O.cmp(sim, 'result', r, exp, w()); break; }
		case 3: { // a stream in progress; a failed call is repeated later
			if (ctx.streams.length < 2) ctx.streams.push({ data: G.wire(sim, len, true), at: 0, state: null, mstate: 0 });
			const s = sim.pick(ctx.streams), d = s.data.subarray(s.at, s.at + sim.draw(Math.min(s.data.length - s.at, 600) + 1)), src = env.input(d), o = [];
			const e = M.decodeEnd(d, s.mstate, o), exp = Buffer.from(o);
			what = 'decodeChunk'; call = () => y.decodeChunk(src, s.state);
			check = r => { if (r.read !== e.read || r.written !== exp.length || r.ended !== (e.ended > 0) || r.state !== (e.ended ? M.ENDSTR[e.ended] : M.STR[e.state])) sim.fail('result', 'wrong read, written, ended or state' + w()); O.cmp(sim, 'result', r.output, exp, w()); };
			after = r => { s.at += e.read; s.state = r.state; s.mstate = e.state; if (e.ended || s.at >= s.data.length) ctx.streams.splice(ctx.streams.indexOf(s), 1); };
			break;
		}
		case 4: { const d = G.bytes(sim, len), ls = O.lineSize(sim), col = O.column(sim, ls), src = env.input(d), e = O.model(d, ls, col, false);
			what = 'encodeIncr'; call = () => m.binding.encodeIncr(src, ls, col);
			check = r => { if (r.written !== e.buf.length || r.col !== e.col) sim.fail('result', 'wrong written or col' + w()); if (d.length) O.cmp(sim, 'result', r.output, e.buf, w()); }; break; }
		case 5: { const d = G.bytes(sim, len), ls = O.lineSize(sim), src = env.input(d), enc = O.model(d, ls, 0, true).buf, c = M.crc32(d, 0).toString(16).padStart(8, '0');
			what = 'post'; call = () => y.post('name', src, ls);
			const exp = Buffer.concat([Buffer.from('=ybegin line=' + ls + ' size=' + d.length + ' name=name\r\n'), enc, Buffer.from('\r\n=yend size=' + d.length + ' crc32=' + c)]);
			check = r => O.cmp(sim, 'result', r, exp, w()); break; }
		case 6: { // an encoder in progress; a failed part is repeated later
			if (ctx.encs.length < 2) { const parts = sim.range(1, 3), ls = O.lineSize(sim), data = G.bytes(sim, Math.max(parts, Math.min(len, 4000))); ctx.encs.push({ m: m, e: y.multi_post('f', data.length, parts, ls), data: data, parts: parts, ls: ls, part: 0, at: 0 }); }
			const s = sim.pick(ctx.encs), last = s.part + 1 === s.parts, sz = last ? s.data.length - s.at : Math.floor((s.data.length - s.at) / (s.parts - s.part)), d = s.data.subarray(s.at, s.at + sz), src = env.input(d);
			const enc = O.model(d, s.ls, 0, true).buf;
			what = 'YEncoder.encode'; const before = [s.e.part, s.e.pos, s.e.crc && s.e.crc.toString('hex')];
			call = () => s.e.encode(src);
			check = r => { if (r.indexOf(enc) < 0) sim.fail('result', 'the encoded part is not in the result' + w()); if (s.e.pos !== s.at + sz) sim.fail('result', 'wrong position' + w()); };
			after = () => { s.part++; s.at += sz; if (s.part === s.parts) ctx.encs.splice(ctx.encs.indexOf(s), 1); };
			s.failed = () => { const a = [s.e.part, s.e.pos, s.e.crc && s.e.crc.toString('hex')]; if (String(a) !== String(before)) sim.fail('not-inert', 'a failed call changed the encoder from ' + before + ' to ' + a); };
			call.failed = s.failed;
			break;
		}
		case 7: { const d = G.bytes(sim, len), art = makePost(d), src = env.input(art);
			what = 'from_post'; call = () => y.from_post(src);
			check = r => { if (r instanceof Error || r.code) sim.fail('result', 'from_post reports ' + r.code + w()); if (d.length) O.cmp(sim, 'result', r.data, d, w()); if (r.warnings) sim.fail('result', 'unexpected warnings' + w()); };
			after = r => { if (r.data) keep(sim, ctx, r.data, what); };
			break;
		}
		default: { const d = G.bytes(sim, len), src = env.input(d), exp = M.crc32(d, 0); what = 'crc32'; call = () => y.crc32(src); check = r => { if (r.readUInt32BE(0) !== exp) sim.fail('result', 'wrong CRC' + w()); }; }
	}
	const w = () => ' [' + what + ' of ' + len + ' bytes on ' + m.name + ', allocation plan ' + plan + ']';
	switch (plan) {
		case 0: env.h.heapPlan([], -1, sim.chance(3, 4), false); break;
		case 1: env.h.heapPlan([sim.draw(3)], -1, sim.chance(3, 4), false); break;
		case 2: env.h.heapPlan([], sim.draw(3), sim.chance(3, 4), false); break;
		case 3: env.h.heapPlan([], -1, true, true); break;                       // only shrinking fails
		case 4: env.h.heapPlan([], 0, true, false); break;
		case 6: env.h.heapPlan([], -1, sim.chance(3, 4), sim.chance(1, 4)); env.h.refuseBuffer(sim.draw(2 + sim.draw(2))); break; // Node refuses to create a Buffer
		default: env.h.heapPlan([sim.draw(4), sim.draw(6)], -1, sim.chance(1, 2), false);
	}
	const f0 = env.h.heapStats().failed;
	let r, err = null;
	try { r = call(); } catch (e) { err = e; }
	env.h.heapPlan([], -1, true, false); env.h.refuseBuffer(-1);
	const nf = env.h.heapStats().failed - f0;
	sim.counts.calls++; sim.counts.bytes += len;
	sim.ev('call', what, m.name, len, plan, nf, err ? 'threw' : 'ok', Buffer.isBuffer(r) ? r : r && r.output || null);
	if (nf) sim.fault(plan === 6 ? 'Buffer refused by Node' : plan === 3 ? 'shrinking failed' : 'allocation failed', nf);
	sim.cover(m.idx, op, plan, nf, err ? 1 : 0);
	if (err) {
		if (!(err instanceof Error)) sim.fail('error', 'threw something which is not an Error' + w());
		if (!nf) sim.fail('refused', 'threw "' + err.message + '" though no allocation failed' + w());
		if (plan === 3) sim.fail('shrink', 'failure to shrink the result made the call throw "' + err.message + '"' + w());
		if (call.failed) call.failed();
	} else {
		check(r); after(r);
		if (Buffer.isBuffer(r)) keep(sim, ctx, r, what); else if (r && Buffer.isBuffer(r.output)) keep(sim, ctx, r.output, what);
	}
	return nf > 0;
}
function makePost(d) {
	const c = M.crc32(d, 0).toString(16).padStart(8, '0');
	return Buffer.concat([Buffer.from('=ybegin line=128 size=' + d.length + ' name=name\r\n'), O.model(d, 128, 0, true).buf, Buffer.from('\r\n=yend size=' + d.length + ' crc32=' + c + '\r\n')]);
}
