"use strict";
// Processes whose threads (node workers) load and call the module under a drawn schedule.
const base = require('./env.js'), path = require('path'), { Worker } = require('worker_threads');
const MACHINES = ['vbmi2+vpclmul', 'avx2', 'vbmi2', 'avx2+vpclmul', 'avx', 'ssse3', 'sse2'];
class Env extends base.Env {
	constructor(hostDir, dir, cfg) {
		super(hostDir, dir, cfg, true);
		this.N = 4;
		this.stuck = false;
		let list = MACHINES.map(n => this.profiles.find(p => p.name === n)).filter(x => x);
		const dummy = { exports: {} };
		list.forEach((p, i) => {
			const file = dir + '/yencode_' + i + '.node', id = this.h.open(file);
			this.h.setProfile(id, p.rules);
			this.h.concAttach(id);
			this.h.snapshot(id, 0);                       // a process which has mapped the module
			const m = { exports: {} };
			this.h.concLoad(id, m.exports, m);
			const loadCpuid = this.h.cpuidCalls(id);
			this.h.snapshot(id, 1);                       // one which has initialised it
			this.copies.push({ id: id, idx: i, name: p.name, loadCpuid: loadCpuid, isa: this.h.hasNative(id) ? [0, 1, 2].map(k => this.h.isa(id, k)) : [0, 0, 0] });
		});
		this.native = this.h.hasNative(this.copies[0].id);
		for (let i = 0; i < this.N; i++) {
			const w = new Worker(path.join(__dirname, 'worker10.js'), { workerData: { host: hostDir + '/simhost.node', js: this.jsDir } });
			w.on('error', e => { console.error('thread: ' + (e && e.stack || e)); process.exit(3); });
			w.unref();
		}
	}
	async begin(sim) {
		while (!this.h.concReady(this.N)) await new Promise(r => setTimeout(r, 5));
		this.sim = sim; this.nextSmall = 0; this.nextLarge = 0;
		this.poisonRng = new (require('./sim.js').Rng)(sim.draw(0x10000), 99, 1);
	}
}
module.exports = { Env };
