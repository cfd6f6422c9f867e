"use strict";
// One machine whose CPU and operating system are made up for every run; one of several builds of the module is
// loaded into it from its pristine image each time.
const fs = require('fs');
const base = require('./env.js');
class Env extends base.Env {
	constructor(hostDir, dir, cfg) {
		super(hostDir, dir, cfg, true);
		this.builds = []; this.leftOut = {};
		this.trapping = {};
		for (const name of ['gcc', ...fs.readdirSync(dir).filter(f => /^alt-/.test(f)).sort().map(f => f.slice(4))]) {
			const d = name === 'gcc' ? dir : dir + '/alt-' + name;
			if (!fs.existsSync(d + '/ok')) { this.leftOut[name] = fs.existsSync(d + '/why') ? fs.readFileSync(d + '/why', 'utf8') : ''; continue; }
			const b = { name: name, file: d + '/yencode_0.node' };
			b.id = this.h.open(b.file); // mapped, constructors run, not initialised
			this.h.snapshot(b.id);
			this.trapping[name] = this.h.trapLoad(b.id, d + '/insns.bin');
			if (!(this.trapping[name] > 0)) throw new Error('the instructions of the module cannot be watched');
			b.native = this.h.hasNative(b.id);
			this.builds.push(b);
		}
		this.use(0);
		this.h.heapOn(true); this.h.heapPlan([], -1, true, false);
		const x = this.h.hostCpuid(0xffffffff, 0), l1 = this.h.hostCpuid(1, 0);
		this.hostRegs = { l1: l1, l7: this.h.hostCpuid(7, 0), l71: this.h.hostCpuid(7, 1), ext: this.h.hostCpuid(0x80000001, 0), xcr0: x[0] };
	}
	begin(sim) {
		this.sim = sim; this.nextSmall = 0; this.nextLarge = 0;
		this.h.heapPlan([], -1, true, false);
		this.poisonRng = new (require('./sim.js').Rng)(sim.draw(0x10000), 99, 1);
	}
	use(k) { const b = this.builds[k]; this.id = b.id; this.file = b.file; this.build = b.name; this.native = b.native; }
	// power on: memory of the previous machine is gone
	power(rules, ok) {
		this.h.heapDropAll(); this.h.heapCheck();
		this.h.restore(this.id);
		this.h.setProfile(this.id, rules);
		this.trapped = this.h.trapSet(ok);
		this.ud0 = this.h.xgetbvUd(this.id);
	}
	load() { const m = { exports: {} }; process.dlopen(m, this.file); return m.exports; }
	info() { return { machines: ['made up for each run; host features: ' + Object.keys(this.features).filter(k => this.features[k]).join(' ')], native: !!this.builds[0].native, instructions_of_extensions: this.trapping, configurations_left_out: this.leftOut }; }
}
module.exports = { Env };
