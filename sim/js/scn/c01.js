"use strict";
// C01: concurrent downloads over a segmenting network, with connection drops and resumption elsewhere.
const M = require('../model.js'), G = require('../gen.js'), { chunk } = require('../stream.js'), H = require('../huge.js');
exports.rule = 'a case is one simulated run: 1-3 concurrent article streams cut, coalesced, delayed and interleaved by the network, decoded piece by piece; non-trivial if at least two pieces carried a state between calls; distinct by the hash of its event history';
exports.quick = 700000;
exports.run = function(sim, env) {
	if (sim.chance(1, 60000)) { H.run(sim, env, env.machine(sim), 'decodeChunk'); return false; }
	const K = sim.weighted([[4, 1], [2, 2], [1, 3]]);
	let carried = 0;
	const fixed = sim.chance(1, 2) ? env.machine(sim) : null;
	for (let k = 0; k < K; k++) {
		const data = G.wire(sim, G.length(sim, 3000), sim.chance(1, 3));
		const pieces = G.cuts(sim, data, 60);
		const st = { data: data, at: 0, i: 0, state: null, mstate: 0, out: [], m: fixed || env.machine(sim), done: false, k: k };
		const arrive = () => {
			if (st.done) return;
			let n = st.i < pieces.length ? pieces[st.i++] : -1;
			if (n < 0) { finish(st); return; }
			while (st.i < pieces.length && sim.chance(1, 12)) { sim.fault('coalesced'); n += pieces[st.i++]; }
			if (sim.chance(1, 20)) { sim.fault('connection dropped, resumed elsewhere'); if (!fixed) st.m = env.machine(sim); sim.at(500 + sim.draw(1000), () => {}); }
			n = Math.min(n, data.length - st.at);
			if (n === 0) sim.probe('empty piece');
			const piece = data.subarray(st.at, st.at + n);
			if (st.state !== null && st.state !== '') { carried++; sim.fault('cut inside a sequence'); }
			const r = chunk(sim, env, st.m, piece, st.state, st.mstate, data.subarray(0, st.at));
			st.out.push(r.bytes); st.at += r.read; st.state = r.state; st.mstate = r.mstate; st.ended = r.ended;
			if (r.ended) { st.done = true; finish(st); return; }
			sim.at(sim.chance(1, 8) ? 100 + sim.draw(400) : 1 + sim.draw(20), arrive);
		};
		const finish = s => {
			s.done = true;
			// the same bytes in one piece
			const all = chunk(sim, env, sim.chance(1, 2) ? s.m : env.machine(sim), data, null, 0);
			const got = Buffer.concat(s.out);
			sim.check(!got.compare(all.bytes), 'pieces-differ', 'pieces decode to other bytes than the whole');
			sim.check(s.at === all.read && !!s.ended === !!all.ended && (data.length === 0 || s.state === all.state), 'pieces-differ', 'read/ended/state after all pieces differ from one call');
		};
		sim.at(sim.draw(30), arrive);
	}
	sim.loop();
	return carried > 0;
};
