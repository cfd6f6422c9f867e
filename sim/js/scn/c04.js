"use strict";
// C04: encode jobs on a fleet; incremental jobs migrate between machines carrying only the column.
const G = require('../gen.js'), O = require('../ops.js'), H = require('../huge.js');
exports.rule = 'a case is one simulated run of 1-3 encode jobs on a heterogeneous fleet: one-shot calls and incremental jobs cut in pieces scheduled on different machines, carrying the column, the last piece closing the line; non-trivial if some job had at least 2 pieces or ran on 2 machines; distinct by the hash of its event history';
exports.quick = 1200000;
exports.run = function(sim, env) {
	if (sim.chance(1, 80000)) { H.run(sim, env, env.machine(sim), 'encodeTo'); return false; }
	let nt = false;
	const jobs = sim.range(1, 2);
	for (let j = 0; j < jobs; j++) {
		const big = sim.chance(1, 60);
		const data = G.bytes(sim, big ? sim.draw(20000) : G.length(sim, 1800));
		const ls = O.lineSize(sim);
		sim.at(sim.draw(20), () => {
			const k = sim.range(1, 2);
			for (let i = 0; i < k; i++) O.encodeApi(sim, env, env.machine(sim), data, ls, O.column(sim, ls));
			if (k > 1) nt = true;
			if (sim.chance(1, 2)) return;
			const ms = [env.machine(sim)];
			if (sim.chance(1, 2)) { ms.push(env.machine(sim), env.machine(sim)); sim.fault('job migrates'); }
			const pieces = G.cuts(sim, data, 30), outs = [];
			let col = O.column(sim, ls), at = 0;
			const col0 = col;
			for (let p = 0; p < pieces.length; p++) {
				const piece = data.subarray(at, at + pieces[p]); at += pieces[p];
				const m = sim.pick(ms);
				const last = p === pieces.length - 1;
				if (last && piece.length && sim.chance(2, 3) && (col < ls || env.native)) {
					// the final piece closes the line
					if (col < ls && sim.chance(1, 2)) outs.push(O.encodeApi(sim, env, m, piece, ls, col));
					else if (env.native) {
						const src = env.input(piece), need = Math.max(66, 2 * piece.length + 2 * Math.floor(2 * piece.length / ls) + 66), out = env.output(need);
						const r = env.h.call(3, m.id, 0, 0, src.at, out.at, piece.length, ls, col, 1);
						sim.ev('final', m.name, src.at & 63, piece, ls, col, r[0], r[1]);
						const e = O.model(piece, ls, col, true);
						O.cmp(sim, 'encode', out.subarray(0, r[0]), e.buf, ' [' + m.name + ', native final piece of ' + piece.length + ' bytes, line size ' + ls + ', column ' + col + ']');
						env.around(out, 'the output'); env.around(src, 'the input');
						outs.push(e.buf);
					} else { col = O.encodePiece(sim, env, m, piece, ls, col, outs, 0); continue; }
					O.cmp(sim, 'pieces', Buffer.concat(outs), O.model(data, ls, col0, true).buf, ' [pieces against the whole, line size ' + ls + ', column ' + col0 + ']');
					nt = nt || pieces.length > 1;
					return;
				}
				const how = env.native ? sim.draw(3) : sim.draw(2);
				if (p) sim.fault('column carried over');
				col = O.encodePiece(sim, env, m, piece, ls, col, outs, how);
			}
			nt = nt || pieces.length > 1;
			O.cmp(sim, 'pieces', Buffer.concat(outs), O.model(data, ls, col0, false).buf, ' [pieces against the whole, line size ' + ls + ', column ' + col0 + ']');
		});
	}
	sim.loop();
	return nt;
};
