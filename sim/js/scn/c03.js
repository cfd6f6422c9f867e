"use strict";
// C03: decode jobs on a fleet of different machines; incremental jobs migrate between them.
const G = require('../gen.js'), O = require('../ops.js'), H = require('../huge.js');
exports.rule = 'a case is one simulated run of 1-4 decode jobs on a heterogeneous fleet: one-shot calls in every form on several machines, and incremental native jobs whose pieces are cut by the network and scheduled on different machines; non-trivial if some job had at least 2 pieces or ran on 2 machines; distinct by the hash of its event history';
exports.quick = 840000;
exports.run = function(sim, env) {
	if (sim.chance(1, 60000)) { H.run(sim, env, env.machine(sim), 'decodeTo'); return false; }
	let nt = false;
	const jobs = sim.range(1, 3);
	for (let j = 0; j < jobs; j++) {
		const big = sim.chance(1, 60);
		const data = G.wire(sim, big ? sim.draw(60000) : G.length(sim, 2500), sim.chance(1, 6));
		const raw = sim.chance(1, 2);
		sim.at(sim.draw(20), () => {
			const k = sim.range(1, 3);
			for (let i = 0; i < k; i++) O.decodeApi(sim, env, env.machine(sim), data, raw);
			if (k > 1) nt = true;
			if (env.native && sim.chance(1, 2)) {
				const ms = [env.machine(sim)];
				if (sim.chance(1, 2)) { ms.push(env.machine(sim), env.machine(sim)); sim.fault('job migrates'); }
				const pieces = G.cuts(sim, data, 40);
				if (pieces.length > 1) nt = true;
				O.decodePieces(sim, env, data, raw, ms, pieces);
			}
		});
	}
	sim.loop();
	return nt;
};
