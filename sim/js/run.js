"use strict";
// Runs the check of one property: seeded search over simulated runs in parallel processes, confirmation,
// minimisation and replay of what it finds, and the evidence file.
//   run.js <property>            quick or thorough by VERIF_TIER, all choices from VERIF_SEED
//   run.js --replay <file>       re-execute a recorded violation
//   run.js <property> --index N  execute one run and print its history
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const VERIF = path.resolve(__dirname, '../..');
const t0 = Date.now();
const argv = process.argv.slice(2);
let prop = argv[0], replay = null;
if (prop === '--replay') { replay = JSON.parse(fs.readFileSync(argv[1], 'utf8')); prop = replay.property; }
if (!/^C\d\d$/.test(prop || '')) { console.error('usage: check <property> | check --replay <file>'); process.exit(2); }
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = replay ? replay.seed : parseInt(process.env.VERIF_SEED || '1', 10) >>> 0;
const scn = require('./scn/' + prop.toLowerCase() + '.js');
const QUICK_CAP = 150, THOROUGH_CAP = +(process.env.VERIF_CAP || 2400);
const cap = (tier === 'quick' ? QUICK_CAP : THOROUGH_CAP) * 1000;
const total = +(process.env.VERIF_RUNS || 0) || (tier === 'quick' ? scn.quick : scn.thorough || scn.quick * 15);
const W = Math.max(1, Math.min(8, os.cpus().length));
const HANG = 40000;
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'ysim-'));
let children = new Set();
function bye(code) { for (const c of children) try { c.proc.kill('SIGKILL'); } catch (e) {} try { fs.rmSync(scratch, { recursive: true, force: true }); } catch (e) {} process.exit(code); }
process.on('SIGINT', () => bye(2)); process.on('SIGTERM', () => bye(2));

function build() {
	const r = cp.spawnSync('python3', [VERIF + '/sim/build.py', scn.variant || 'main'], { encoding: 'utf8', stdio: ['ignore', 'pipe', 'inherit'] });
	if (r.status !== 0) { console.error('check error: the tree does not build'); bye(2); }
	const l = r.stdout.trim().split('\n');
	return { host: l[l.length - 2], dir: l[l.length - 1] };
}
let nworker = 0;
class Worker {
	constructor(dirs, opts) {
		this.scratch = path.join(scratch, 'w' + nworker++);
		const cfg = Object.assign({ prop, seed, tier, host: dirs.host, dir: dirs.dir, scratch: this.scratch }, opts || {});
		const e = { PATH: process.env.PATH, HOME: process.env.HOME || '/root', LANG: 'C.UTF-8', TZ: 'UTC', YSIM_DEBUG: process.env.YSIM_DEBUG || '', YS_CFG: JSON.stringify(cfg) };
		this.proc = cp.fork(path.join(__dirname, 'worker.js'), [], { env: e, execArgv: ['--expose-gc', '--max-old-space-size=1500'], stdio: ['ignore', 'ignore', 'pipe', 'ipc'] });
		this.err = '';
		this.proc.stderr.on('data', d => { if (this.err.length < 4000) this.err += d; });
		this.pending = null; this.dead = null; this.history = []; this.id = 0;
		this.ready = new Promise((res, rej) => { this.onready = res; this.onfail = rej; });
		this.proc.on('message', m => {
			if (m.ready) { this.info = m.info; this.onready(this); }
			else if (this.pending && m.id === this.pending.id) { const p = this.pending; this.pending = null; clearInterval(p.timer); if (m.exiting) this.dead = {}; p.res(m); }
		});
		this.proc.on('exit', (code, sig) => {
			children.delete(this);
			this.dead = { code, sig };
			if (this.onfail) this.onfail(new Error('simulation process did not start: ' + this.err));
			if (this.pending) { const p = this.pending; this.pending = null; clearInterval(p.timer); p.res({ died: true, hang: !!this.hung, crash: this.crashInfo(), index: this.progress(), code, sig }); }
		});
		this.ready.catch(() => {});
		children.add(this);
	}
	progress() { try { const b = fs.readFileSync(this.scratch + '.progress'); return b.length >= 8 ? b.readDoubleLE(0) : -1; } catch (e) { return -1; } }
	crashInfo() { try { return fs.readFileSync(this.scratch + '.crash', 'utf8').trim(); } catch (e) { return ''; } }
	draws() { try { return fs.readFileSync(this.scratch + '.draws', 'utf8').split(',').filter(x => x !== '').map(Number); } catch (e) { return []; } }
	send(msg, limit) {
		return new Promise(res => {
			if (this.dead) return res({ died: true, crash: this.crashInfo(), index: this.progress() });
			msg.id = ++this.id;
			let lastP = -2, lastT = Date.now();
			const timer = setInterval(() => {
				const p = this.progress();
				if (p !== lastP) { lastP = p; lastT = Date.now(); }
				else if (Date.now() - lastT > (limit || HANG)) { this.hung = true; this.proc.kill('SIGKILL'); }
			}, 1000);
			this.pending = { id: msg.id, res, timer };
			this.proc.send(msg, () => {});
		});
	}
	kill() { children.delete(this); try { this.proc.kill('SIGKILL'); } catch (e) {} }
}
// executes specs in a fresh process; result {violation, hash, drawn, log}
async function fresh(dirs, specs, opts) {
	const w = new Worker(dirs, { drawlog: !!(opts && opts.drawlog) });
	await w.ready;
	const m = await w.send({ cmd: 'exec', specs, trace: !!(opts && opts.trace), stop: true }, opts && opts.limit || (specs.length > 1 ? 300000 : HANG));
	const r = outcome(w, m);
	w.kill();
	return r;
}
function outcome(w, m) {
	if (m.died) {
		const cls = m.hang ? 'hang' : 'crash';
		return { violation: { cls, detail: m.hang ? 'no progress in a simulated run within ' + HANG / 1000 + ' s' : (m.crash || 'process ended by ' + (m.sig || 'exit ' + m.code)) }, hash: -1, drawn: w.draws(), log: null, died: true };
	}
	const l = m.out[m.out.length - 1];
	return { violation: l.violation, hash: l.hash, drawn: l.drawn, log: l.log, all: m.out };
}
const same = (a, b) => a && b && a.cls === b.cls;

async function minimise(dirs, spec, viol, deadline) {
	let best = spec.choices, w = null, execs = 0, detail = viol.detail;
	const slow = viol.cls === 'crash' || viol.cls === 'hang';
	const limit = slow ? (viol.cls === 'hang' ? 0 : 150) : 4000;
	const test = async c => {
		if (Date.now() > deadline || execs >= limit) return false;
		execs++;
		if (!w || w.dead) { w = new Worker(dirs, {}); await w.ready; }
		const r = outcome(w, await w.send({ cmd: 'exec', specs: [{ choices: c }], stop: true }, 15000));
		if (r.violation && r.violation.cls === viol.cls) {
			detail = r.violation.detail;
			let d = r.drawn && !r.died && r.drawn.length < c.length ? r.drawn : c;
			d = d.slice(); while (d.length && d[d.length - 1] === 0) d.pop();
			best = d;
			return true;
		}
		return false;
	};
	let changed = true;
	while (changed && Date.now() < deadline && execs < limit) {
		changed = false;
		for (let n = Math.max(1, best.length >> 1); n >= 1; n >>= 1)
			for (let i = best.length - n; i >= 0; i -= n) {
				if (i > best.length - n) continue;
				if (await test(best.slice(0, i).concat(best.slice(i + n)))) changed = true;
				else if (best.slice(i, i + n).some(x => x) && await test(best.slice(0, i).concat(new Array(n).fill(0), best.slice(i + n)))) changed = true;
			}
		for (let i = 0; i < best.length; i++) {
			for (const v of [best[i] >> 1, best[i] - 1]) if (best[i] > 1 && v > 0 && v < best[i]) {
				const c = best.slice(); c[i] = v;
				if (await test(c)) { changed = true; break; }
			}
		}
	}
	if (w) w.kill();
	return { choices: best, execs, detail };
}
async function confirm(dirs, cand, history) {
	const limit = Date.now() + 420000;
	// 1. the run alone, in fresh processes
	const a = await fresh(dirs, [{ index: cand.index }], { drawlog: true });
	if (a.violation) {
		const b = await fresh(dirs, [{ index: cand.index }], { drawlog: true });
		if (!same(a.violation, b.violation) || a.hash !== b.hash) {
			// a violation each time but not the same one: the code under test depends on something outside the
			// simulation (memory it never wrote); all that can be recorded is the run
			let n = 1 + (b.violation ? 1 : 0);
			for (let i = 0; i < 3; i++) if ((await fresh(dirs, [{ index: cand.index }], {})).violation) n++;
			if (n >= 3) { a.violation.detail += ' (the outcome of this run differs from execution to execution: the code depends on uninitialised or foreign memory)'; return { kind: 'runs', runs: [cand.index], violation: a.violation, hash: a.hash, log: a.log }; }
			console.error('check error: run ' + cand.index + ' is not repeatable: ' + JSON.stringify([a.violation, a.hash, b.violation, b.hash]));
			return null;
		}
		const full = a.drawn;
		let spec = { choices: full };
		let mres = { choices: full, execs: 0, detail: a.violation.detail };
		const chk = await fresh(dirs, [{ choices: full }], {});
		if (same(chk.violation, a.violation)) mres = await minimise(dirs, spec, a.violation, Math.min(limit, Date.now() + (tier === 'quick' ? 60000 : 180000)));
		else return { kind: 'runs', runs: [cand.index], violation: a.violation, hash: a.hash, log: a.log };
		const f = await fresh(dirs, [{ choices: mres.choices }], { trace: true });
		const g = await fresh(dirs, [{ choices: mres.choices }], { trace: true });
		if (same(f.violation, a.violation) && same(g.violation, a.violation) && f.hash === g.hash)
			return { kind: 'choices', choices: mres.choices, violation: f.violation, hash: f.hash, log: f.log, full: full.length, execs: mres.execs };
		return { kind: 'choices', choices: full, violation: a.violation, hash: a.hash, log: a.log, full: full.length, execs: mres.execs };
	}
	// 2. it needs runs before it in the same process
	for (const runs of history) {
		const x = await fresh(dirs, runs.map(i => ({ index: i })), {});
		if (!same(x.violation, cand)) continue;
		let list = runs;
		const t = Date.now() + 90000;
		for (let n = list.length >> 1; n >= 1 && Date.now() < t; n >>= 1)
			for (let i = 0; i + n < list.length && Date.now() < t;) {
				const l = list.slice(0, i).concat(list.slice(i + n));
				const r = await fresh(dirs, l.map(i => ({ index: i })), {});
				if (same(r.violation, cand)) list = l; else i += n;
			}
		const f = await fresh(dirs, list.map(i => ({ index: i })), { trace: true }), g = await fresh(dirs, list.map(i => ({ index: i })), { trace: true });
		if (same(f.violation, cand) && same(g.violation, cand) && f.hash === g.hash) return { kind: 'runs', runs: list, violation: f.violation, hash: f.hash, log: f.log };
	}
	console.error('check error: run ' + cand.index + ' failed (' + cand.cls + ': ' + cand.detail + ') but not when repeated');
	return null;
}
function specsOf(r) { return r.kind === 'choices' ? [{ choices: r.choices }] : r.runs.map(i => ({ index: i })); }

async function main() {
	const dirs = build();
	const tb = Date.now();
	if (replay) {
		const r = await fresh(dirs, specsOf(replay), { trace: true });
		if (r.log) console.log(r.log.join('\n'));
		if (r.violation) {
			console.log(r.violation.cls + ': ' + r.violation.detail + (r.violation.cls === replay.violation.cls && r.hash === replay.hash ? ' (exactly as recorded)' : ' (recorded: ' + replay.violation.cls + ')'));
			console.log('VIOLATION property=' + prop + ' replay=' + argv[1]);
			bye(1);
		}
		console.log('the recorded run holds on this tree'); bye(0);
	}
	if (argv[1] === '--index') {
		const r = await fresh(dirs, [{ index: +argv[2] }], { trace: true });
		console.log((r.log || []).join('\n')); console.log(r.violation || 'holds', r.hash, r.drawn && r.drawn.length); bye(r.violation ? 1 : 0);
	}
	const agg = { evals: 0, hashes: new Set(), nontrivial: 0, cover: new Set(), faults: {}, probes: {}, calls: 0, bytes: 0, simTime: 0, steps: 0 };
	const CH = Math.max(1, Math.min(scn.chunk || 250, Math.ceil(total / W / 4)));
	let next = 0, stop = false, cands = [], info = null, capped = false;
	const firstHashes = new Map();
	async function drive() {
		let w = null;
		while (next < total && !stop) {
			if (Date.now() - tb > cap) { capped = true; break; }
			if (!w || w.dead) { w = new Worker(dirs, {}); await w.ready; info = w.info; }
			const lo = next, hi = Math.min(total, lo + CH); next = hi;
			const hist = w.history.slice(); w.history.push([lo, hi]);
			const m = await w.send({ cmd: 'chunk', lo, hi, until: tb + cap });
			if (m.died) {
				if (stop) break;
				cands.push({ index: m.index, cls: m.hang ? 'hang' : 'crash', detail: m.crash, lo, hist });
				stop = true; break;
			}
			const g = m.agg;
			agg.evals += g.evals; agg.nontrivial += g.hashes.length; for (const h of g.hashes) agg.hashes.add(h);
			for (const k of g.cover) agg.cover.add(k);
			for (const k in g.faults) agg.faults[k] = (agg.faults[k] || 0) + g.faults[k];
			for (const k in g.probes) agg.probes[k] = (agg.probes[k] || 0) + g.probes[k];
			agg.calls += g.calls; agg.bytes += g.bytes; agg.simTime += g.simTime; agg.steps += g.steps;
			if (g.violation) { cands.push(Object.assign({ lo, hist }, g.violation)); stop = true; }
		}
		if (w) w.kill();
	}
	await Promise.all(Array.from({ length: W }, drive));
	const explored = (Date.now() - tb) / 1000;
	let found = null, broken = false;
	cands.sort((a, b) => a.index - b.index);
	for (const c of cands.slice(0, 4)) {
		const within = []; for (let i = c.lo; i <= c.index; i++) within.push(i);
		const all = []; for (const [a, b] of c.hist) for (let i = a; i < b; i++) all.push(i);
		const hists = [within]; if (all.length) hists.push(all.concat(within));
		found = await confirm(dirs, c, hists);
		if (found) break;
		broken = true;
	}
	// determinism: a sample of runs again, each in fresh processes, in another order
	const sample = [], N = Math.min(24, agg.evals);
	let mismatch = 0, samples = [];
	if (!found && !broken) {
		for (let i = 0; i < N; i++) sample.push(Math.floor(i * agg.evals / N));
		const rev = sample.slice().reverse();
		const [x, y] = await Promise.all([fresh(dirs, sample.map(i => ({ index: i })), { trace: false }), fresh(dirs, rev.map(i => ({ index: i })), { trace: false })]);
		if (x.all && y.all && !x.violation && !y.violation) x.all.forEach((r, k) => { if (r.hash !== y.all[y.all.length - 1 - k].hash) mismatch++; });
		else mismatch = -1;
		for (const i of [1, 2, 3]) if (i < agg.evals) {
			const r = await fresh(dirs, [{ index: i }], { trace: true });
			samples.push({ run: i, history: (r.log || []).slice(0, 25) });
		}
	}
	const wall = (Date.now() - t0) / 1000;
	const coverage = {
		evaluations: agg.evals, distinct_nontrivial: agg.hashes.size, rule: scn.rule,
		samples: samples.length ? samples : (found ? [{ violation: found.violation, history: (found.log || []).slice(0, 40) }] : [{ note: 'none' }]),
		planned_runs: total, stopped_by_time_cap: capped,
		seeds_per_hour: Math.round(agg.evals / Math.max(explored, 0.001) * 3600), exploration_s: explored,
		simulated_ms: agg.simTime, choices_drawn: agg.steps, library_calls: agg.calls, library_bytes: agg.bytes,
		faults_injected: agg.faults, probes: agg.probes,
		distinct_states: agg.cover.size, distinct_states_measure: scn.measure || 'distinct (machine, state before/after, piece length, call form, alignment) combinations reached',
		determinism: { runs_repeated_in_two_fresh_processes: N, mismatches: mismatch },
		real_components: scn.real || ['src/*.cc (encoder, decoder, CRC kernels, CPU detection), src/yencode.cc, index.js, node/V8 buffers'],
		stub_components: scn.stubs || ['CPU identification (cpuid/xgetbv), memory allocator of the addon and placement of argument buffers, network/peers/disk around the library (simulated)'],
		machines: info ? info.machines : [], native_interface: info ? info.native : null, configurations_left_out: info && info.configurations_left_out || undefined
	};
	fs.mkdirSync(VERIF + '/evidence', { recursive: true });
	fs.writeFileSync(VERIF + '/evidence/' + prop + '.json', JSON.stringify({
		property: prop, tier, seed, level: scn.level || 'exploration', coverage,
		assumptions: scn.assumptions || ['the machine running the check executes correctly the instruction sets of the simulated machines', 'sampling: a clean batch is evidence, not proof'],
		wall_s: wall, violations: found ? 1 : 0
	}, null, 1));
	console.log(prop + ' ' + tier + ': ' + agg.evals + ' runs, ' + agg.hashes.size + ' distinct non-trivial, ' + agg.cover.size + ' states, ' + agg.calls + ' calls, ' + explored.toFixed(1) + ' s (' + wall.toFixed(1) + ' s in all)');
	if (found) {
		fs.mkdirSync(VERIF + '/replays', { recursive: true });
		const file = VERIF + '/replays/' + prop + '-' + seed + '-' + (found.hash < 0 ? 'x' + found.violation.cls + cands[0].index : found.hash.toString(36)) + '.json';
		fs.writeFileSync(file, JSON.stringify({ property: prop, seed, kind: found.kind, choices: found.choices, runs: found.runs, violation: found.violation, hash: found.hash, original_choices: found.full, minimisation_runs: found.execs, history: found.log }, null, 1));
		if (found.log) console.log(found.log.slice(-12).join('\n'));
		console.log(found.violation.cls + ': ' + found.violation.detail);
		console.log('VIOLATION property=' + prop + ' replay=' + file);
		bye(1);
	}
	if (broken) bye(2);
	if (mismatch) { console.error('check error: ' + mismatch + ' runs were not repeatable'); bye(2); }
	bye(0);
}
main().catch(e => { console.error('check error: ' + (e && e.stack || e)); bye(2); });
