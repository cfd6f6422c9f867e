"use strict";
// One simulation process: executes the runs it is told to. Started by run.js with an IPC channel.
const fs = require('fs');
const cfg = JSON.parse(process.env.YS_CFG);
const { Sim } = require('./sim.js');
const scn = require('./scn/' + cfg.prop.toLowerCase() + '.js');
const env = new (require(scn.envModule || './env.js').Env)(cfg.host, cfg.dir, cfg);
const pfd = fs.openSync(cfg.scratch + '.progress', 'w');
const cfd = fs.openSync(cfg.scratch + '.crash', 'w');
const dfd = cfg.drawlog ? fs.openSync(cfg.scratch + '.draws', 'w') : -1;
env.h.crashFd(cfd);
const tick = () => new Promise(setImmediate);
const pb = Buffer.alloc(8);
let sent = new Set(), since = 0;

async function settle() { // let results of earlier runs be released
	if (env.h.heapLive() > 1200 || ++since > 200) { since = 0; global.gc({ type: 'minor' }); await tick(); if (env.h.heapLive() > 1200) { global.gc(); await tick(); await tick(); } }
}
async function one(spec, trace) {
	const sim = new Sim({ prop: cfg.prop, seed: cfg.seed, index: spec.index, choices: spec.choices, trace: trace, onDraw: dfd >= 0 ? v => fs.writeSync(dfd, v + ',') : null });
	let violation = null, nontrivial = false;
	try {
		const b = env.begin(sim); if (b) await b;
		const r = scn.run(sim, env, cfg);
		nontrivial = r && r.then ? await r : r;
	} catch (e) {
		if (e.violation) violation = { cls: e.cls, detail: e.detail };
		else violation = { cls: 'exception', detail: String(e && e.stack || e).split('\n').slice(0, 4).join(' | ').replace(/\(?\/\S*\//g, '(') };
		if (scn.cleanup) scn.cleanup(env);
	}
	await settle();
	return { sim, violation, nontrivial };
}
async function chunk(msg) {
	const agg = { evals: 0, hashes: [], cover: [], faults: {}, probes: {}, calls: 0, bytes: 0, simTime: 0, steps: 0, violation: null };
	for (let i = msg.lo; i < msg.hi; i++) {
		pb.writeDoubleLE(i); fs.writeSync(pfd, pb, 0, 8, 0);
		const r = await one({ index: i }, false), s = r.sim;
		agg.evals++;
		if (r.nontrivial) agg.hashes.push(s.hash());
		for (const k of s.covered) if (!sent.has(k)) { sent.add(k); agg.cover.push(k); }
		for (const k in s.faults) agg.faults[k] = (agg.faults[k] || 0) + s.faults[k];
		for (const k in s.probes) agg.probes[k] = (agg.probes[k] || 0) + s.probes[k];
		agg.calls += s.counts.calls; agg.bytes += s.counts.bytes; agg.simTime += s.now; agg.steps += s.drawn.length;
		if (r.violation) { agg.violation = Object.assign({ index: i }, r.violation); break; }
		if (Date.now() > msg.until) break;
	}
	return agg;
}
// a process whose simulated threads are stuck cannot go on
function reply(m) { if (env.stuck) m.exiting = true; process.send(m, () => { if (env.stuck) process.exit(0); }); }
process.on('message', async msg => {
	if (msg.cmd === 'chunk') reply({ id: msg.id, agg: await chunk(msg) });
	else if (msg.cmd === 'exec') {
		const out = [];
		for (let k = 0; k < msg.specs.length; k++) {
			if (msg.specs[k].index !== undefined) { pb.writeDoubleLE(msg.specs[k].index); fs.writeSync(pfd, pb, 0, 8, 0); }
			const r = await one(msg.specs[k], msg.trace);
			const last = k === msg.specs.length - 1;
			out.push({ violation: r.violation, hash: r.sim.hash(), drawn: last || r.violation ? r.sim.drawn : null, log: msg.trace && (last || r.violation) ? r.sim.log : null });
			if (r.violation && msg.stop) break;
		}
		reply({ id: msg.id, out: out });
	} else if (msg.cmd === 'exit') process.exit(0);
});
process.on('disconnect', () => process.exit(0));
process.send({ ready: true, info: env.info ? env.info() : { machines: env.copies.map(c => c.name + ' (encoder ' + c.isa[0].toString(16) + ', decoder ' + c.isa[1].toString(16) + ', crc ' + c.isa[2].toString(16) + ')'), native: !!env.native } });
