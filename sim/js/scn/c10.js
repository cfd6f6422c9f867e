"use strict";
// C10: a process with 2-4 threads, each loading the module and calling it. Which thread runs is decided at
// every memory access of the module by a drawn schedule of preemptions; blocking calls are simulated.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.variant = 'conc';
exports.envModule = './env10.js';
exports.rule = 'a case is one simulated run: 2-4 threads of one process each load the module (initialised for the first time in half of the runs) and make 1-5 calls under a schedule of up to 40 drawn preemptions at memory accesses; non-trivial if a preemption happened while two threads had work left; distinct by the hash of its event history, which includes the places of all thread switches';
exports.measure = 'distinct (machine, code location of a preemption, freshly loaded or not) combinations';
exports.quick = 200000;
exports.chunk = 60;
exports.real = ['src/*.cc, src/yencode.cc, index.js in several node workers with a V8 isolate each (real threads)'];
exports.stubs = ['thread scheduler, uv_once and other blocking primitives, CPU identification, memory allocator of the addon (simulated)'];
exports.assumptions = ['memory is sequentially consistent between preemption points: reorderings by the hardware are not simulated', 'preemption points are the memory accesses the compiler instruments', 'sampling: a clean batch is evidence, not proof'];
const KINDS = ['encode', 'encodeTo', 'encodeIncr', 'decode', 'decodeTo', 'decodeChunk', 'crc32', 'combine', 'zeroes', 'multiply', 'shift'];
function logu(sim, max) { const e = sim.draw(max + 1); return 1 + sim.draw(1 << e); }
exports.run = async function(sim, env) {
	const h = env.h, c = env.copies[sim.weighted(env.copies.map((c, i) => [i < 4 ? 6 : 1, i]))];
	const fresh = sim.chance(1, 2) && (c.idx < 4 || sim.chance(1, 3));
	h.restore(c.id, fresh ? 0 : 1);
	const cp0 = h.cpuidCalls(c.id);
	const nt = sim.weighted([[3, 2], [2, 3], [1, 4]]);
	const theme = sim.chance(1, 2) ? sim.pick(KINDS) : null;
	const shared = sim.chance(1, 4) ? env.input(G.bytes(sim, 1 + sim.draw(300))) : null;
	// most values occur more than once: calls resemble each other
	const progs = [], all = [], pool = {};
	const again = (k, f) => { const a = pool[k] || (pool[k] = []); if (a.length && sim.chance(3, 5)) return sim.pick(a); const v = f(); a.push(v); return v; };
	for (let t = 0; t < nt; t++) {
		const ops = [], n = fresh ? sim.range(1, 3) : sim.range(1, 5);
		for (let i = 0; i < n; i++) ops.push(make(sim, env, theme && sim.chance(4, 5) ? theme : sim.pick(KINDS), shared, again));
		all.push(ops);
		progs.push(JSON.stringify({ copy: c.id, ops: ops.map(o => o.job) }));
	}
	const sched = [], np = sim.weighted([[1, 0], [2, 1], [4, 3], [4, 8], [3, 20], [1, 40]]);
	const style = sim.draw(3);
	for (let i = 0; i < np; i++) {
		const kind = style === 2 ? sim.draw(2) : style;
		sched.push(kind, kind ? logu(sim, fresh ? 8 : 5) : logu(sim, fresh ? 17 : 11), sim.draw(3));
	}
	const fails = [];
	if (!fresh && sim.chance(1, 6)) { for (let i = 0; i < 2; i++) fails.push(sim.draw(nt), sim.draw(6)); }
	sim.ev('process', c.name, nt, fresh, np);
	const r = h.concRun(progs, sched, sim.draw(nt), fails);
	let preempted = 0;
	for (let i = 0; i < r.trace.length; i += 5) {
		const [from, to, at, where, why] = r.trace.slice(i, i + 5);
		if (sim.log) sim.note('thread ' + from + ' -> ' + to + ' at access ' + at + (where ? ' (module+0x' + where.toString(16) + ')' : '') + ' ' + ['', 'preempted', 'turn over', 'waits', 'ends'][why]);
		if (why === 1) { preempted++; sim.cover(c.idx, where, fresh ? 1 : 0, 0, 0); }
		if (why === 3) sim.probe('thread waits for another');
	}
	if (preempted) sim.fault('preemption', preempted);
	sim.faults.preemption = (sim.faults.preemption || 0) + Math.max(0, preempted - 1);
	if (r.failed) { sim.fault('allocation failed', r.failed); }
	if (r.stolen) sim.probe('schedule not under control');
	sim.ev('switches', r.switches, r.hash, r.accesses.join());
	if (r.stuck) { env.stuck = true; sim.fail(r.stuck, 'threads do not finish (' + (r.stuck === 'deadlock' ? 'all wait for each other' : 'no progress') + ') [' + c.name + ']'); }
	let nfail = 0;
	for (let t = 0; t < nt; t++) {
		const res = JSON.parse(r.results[t]);
		if (res.length && res[0].fatal) sim.fail('load', 'loading the module failed in thread ' + t + ': ' + res[0].fatal.split('\n')[0]);
		if (res.length !== all[t].length) sim.fail('load', 'thread ' + t + ' did not complete its program');
		all[t].forEach((o, i) => {
			const x = res[i];
			sim.ev('result', t, o.job.k, JSON.stringify(x));
			sim.counts.calls++;
			if (x.err !== undefined) {
				if (r.failed > nfail) { nfail++; return; }
				sim.fail('result', 'call ' + i + ' of thread ' + t + ' (' + o.job.k + ') threw ' + x.err + ' [' + c.name + ']');
			}
			const wrong = o.check(x);
			if (wrong) sim.fail('result', 'call ' + i + ' of thread ' + t + ' (' + o.job.k + ' of ' + (o.job.src ? o.job.src[1] : 0) + ' bytes) differs from its result alone: ' + wrong + ' [' + c.name + (fresh ? ', first load' : '') + ']');
		});
	}
	const n = h.cpuidCalls(c.id) - cp0;
	if (fresh ? n > c.loadCpuid : n > 0) sim.fail('initialised-again', 'CPU detection ran ' + n + ' identification instructions for ' + nt + ' loads, ' + (fresh ? c.loadCpuid : 0) + ' expected: initialisation did not happen once [' + c.name + ']');
	sim.now += r.switches;
	return preempted > 0;
};
const at = b => [b.at, b.length];
function make(sim, env, k, shared, again) {
	const len = 1 + (sim.chance(1, 4) ? sim.draw(1200) : sim.draw(260));
	const o = { job: { k: k, a: [] }, check: null };
	const text = (exp, res) => x => { if (x.n !== exp.length) return 'length ' + x.n + ', not ' + exp.length; const got = res.subarray(0, exp.length); return got.compare(exp) ? 'bytes differ' : ''; };
	const data = f => { if (shared && sim.chance(1, 2)) { o.job.src = at(shared); return Buffer.from(shared); } const d = again('data ' + k, f); o.job.src = at(env.input(d)); return d; };
	const dest = n => { const b = env.output(n); return b; };
	const crc = () => again('crc', () => sim.draw(0x100000000)), size = () => again('size', () => sim.draw(0x100000000));
	const num = exp => x => x.c === exp ? '' : 'value ' + x.c.toString(16) + ', not ' + exp.toString(16);
	switch (k) {
		case 'encode': case 'encodeTo': case 'encodeIncr': {
			const d = data(() => G.bytes(sim, len)), ls = again('line', () => sim.chance(1, 2) ? 128 : O.lineSize(sim)), col = O.column(sim, ls);
			const e = O.model(d, ls, k !== 'encodeIncr' && col === ls ? 0 : col, k !== 'encodeIncr'), b = dest(M.maxSize(d.length, ls));
			o.job.a = [ls, col];
			if (k === 'encodeTo') o.job.out = at(b); else o.job.res = at(b);
			const t = text(e.buf, b);
			o.check = x => t(x) || (k === 'encodeIncr' && x.col !== e.col ? 'column ' + x.col + ', not ' + e.col : '');
			break;
		}
		case 'decode': case 'decodeTo': {
			const d = data(() => nonEmpty(G.wire(sim, len, false))), raw = sim.chance(1, 2), e = []; M.decodeNoEnd(d, raw, 0, e);
			const b = dest(d.length);
			o.job.a = [raw]; if (k === 'decodeTo') o.job.out = at(b); else o.job.res = at(b);
			o.check = text(Buffer.from(e), b);
			break;
		}
		case 'decodeChunk': {
			const d = data(() => nonEmpty(G.wire(sim, len, true))), s = sim.draw(7), e = [], m = M.decodeEnd(d, s, e), b = dest(d.length);
			o.job.a = [M.STR[s]]; o.job.res = at(b);
			const t = text(Buffer.from(e), b);
			const es = m.ended ? M.ENDSTR[m.ended] : M.STR[m.state];
			o.check = x => t(x) || (x.read !== m.read ? 'read ' + x.read + ', not ' + m.read : '') || (x.ended !== (m.ended > 0) ? 'ended ' + x.ended : '') || (x.state !== es ? 'state ' + JSON.stringify(x.state) + ', not ' + JSON.stringify(es) : '');
			break;
		}
		case 'crc32': { const d = data(() => G.bytes(sim, len)), i = sim.chance(1, 2) ? 0 : crc(); o.job.a = [i]; o.check = num(M.crc32(d, i)); break; }
		case 'combine': { const a = crc(), b = crc(), n = size(); o.job.a = [a, b, n]; o.check = num(M.combine(a, b, n)); break; }
		case 'zeroes': { const a = crc(), n = size() * (sim.chance(1, 2) ? -1 : 1); o.job.a = [a, n]; o.check = num(M.zeroes(a, n)); break; }
		case 'multiply': { const a = crc(), b = crc(); o.job.a = [a, b]; o.check = num(M.mul(a, b)); break; }
		default: { const a = crc(), n = size() * (sim.chance(1, 2) ? -1 : 1); o.job.a = [a, n]; o.check = num(M.shift(a, n)); }
	}
	sim.counts.bytes += len;
	return o;
}
const nonEmpty = d => d.length ? d : Buffer.from('a');
