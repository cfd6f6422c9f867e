"use strict";
// C05: posts travel through chains of news relays before being decoded.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run: 1-3 files encoded on some machine (whole or in pieces), passed through a chain of 0-5 relays which strip white space, stuff dots, cut at NUL, normalise stray CR/LF, lose and retransmit, and decoded elsewhere (one-shot, in place, streaming); non-trivial if at least one relay acted; distinct by the hash of its event history';
exports.quick = 700000;

const RELAYS = {
	'strip trailing white space': l => { let n = l.length; while (n && (l[n-1] === 32 || l[n-1] === 9)) n--; return l.subarray(0, n); },
	'strip leading white space': l => { let n = 0; while (n < l.length && (l[n] === 32 || l[n] === 9)) n++; return l.subarray(n); },
	'NUL ends the line': l => { const n = l.indexOf(0); return n < 0 ? l : l.subarray(0, n); },
	'drop NUL': l => l.includes(0) ? Buffer.from(l.filter(c => c !== 0)) : l,
	'dot stuffing': l => l[0] === 46 ? Buffer.concat([Buffer.from('.'), l]) : l,
	'dot unstuffing': l => l[0] === 46 ? l.subarray(1) : l,
	'end at a lone dot': null,
	'normalise stray CR and LF': null,
	'long lines cut': null,
};
function lines(t) { const out = []; let at = 0; for (;;) { const p = t.indexOf('\r\n', at, 'latin1'); if (p < 0) { out.push(t.subarray(at)); return out; } out.push(t.subarray(at, p)); at = p + 2; } }
function join(ls) { const a = []; ls.forEach((l, i) => { if (i) a.push(Buffer.from('\r\n')); a.push(l); }); return Buffer.concat(a); }
exports.run = function(sim, env) {
	let acted = false;
	const n = sim.range(1, 2);
	for (let f = 0; f < n; f++) {
		const data = G.bytes(sim, sim.chance(1, 80) ? sim.draw(15000) : G.length(sim, 1500));
		const ls = O.lineSize(sim);
		const m = env.machine(sim);
		sim.at(sim.draw(100), () => {
			let text;
			const src = env.input(data);
			const how = sim.draw(3);
			const whole = (v, col, given) => {
				if (how === 0 || !v.length || how === 2 && sim.chance(1, 2)) return Buffer.from(given ? m.y.encode(v, ls, col) : m.y.encode(v, ls));
				const out = env.output(m.y.maxSize(v.length, ls));
				return Buffer.from(out.subarray(0, given ? m.y.encodeTo(v, out, ls, col) : m.y.encodeTo(v, out, ls)));
			};
			if (how < 2 || !data.length) text = whole(src, 0, sim.chance(1, 3));
			else { // in pieces: all but the last through the incremental encoder
				const ps = G.cuts(sim, data, 8); let col = 0, at = 0; const outs = [];
				ps.forEach((k, i) => {
					const v = env.input(data.subarray(at, at + k)); at += k;
					if (i === ps.length - 1 && col < ls) { if (k) { outs.push(whole(v, col, true)); return; } }
					const r = m.binding.encodeIncr(v, ls, col); if (r.output) outs.push(Buffer.from(r.output)); col = r.col;
				});
				text = Buffer.concat(outs);
				const t = text[text.length - 1];
				if (t === 32 || t === 9) return; // unfinished: the last piece was not given to the closing call
			}
			sim.counts.calls++; sim.counts.bytes += data.length;
			sim.ev('encoded', m.name, ls, data, text);
			sim.cover(m.idx, how, Math.min(data.length, 400), Math.min(ls, 400), 5);
			// what relays rely on
			const L = lines(text), where = i => ' (line ' + i + ' of ' + L.length + ', line size ' + ls + ', ' + m.name + ')';
			L.forEach((l, i) => {
				const first = l[0], last = l[l.length - 1];
				if (l.includes(0) || l.includes(13) || l.includes(10)) sim.fail('critical', 'NUL, CR or LF inside the text' + where(i));
				if (first === 46) sim.fail('line-start', 'line starts with a dot' + where(i));
				if (first === 32 || first === 9) sim.fail('line-start', 'line starts with white space' + where(i));
				if (l.length && (last === 32 || last === 9)) sim.fail('line-end', 'line ends with white space' + where(i));
				if (l.length > ls + 1) sim.fail('line-length', 'line of ' + l.length + ' characters' + where(i));
				if (l.length && last === 61 && (l.length < 2 || l[l.length - 2] !== 61)) sim.fail('line-end', 'escape character at the end of a line' + where(i));
			});
			// the relays
			let t = text;
			const hops = sim.draw(6), names = Object.keys(RELAYS);
			let stuffed = false;
			for (let h = 0; h < hops; h++) {
				const r = sim.pick(names); acted = true;
				if (r === 'dot stuffing' && stuffed || r === 'dot unstuffing' && !stuffed) { /* a relay that does not know whether it should */ }
				sim.fault(r);
				if (r === 'end at a lone dot') { const k = lines(t).findIndex(l => l.length === 1 && l[0] === 46); if (k >= 0) t = join(lines(t).slice(0, k)); }
				else if (r === 'normalise stray CR and LF') t = Buffer.from(t.toString('latin1').replace(/\r\n|\r|\n/g, '\r\n'), 'latin1');
				else if (r === 'long lines cut') t = join(lines(t).map(l => l.length > ls + 1 && ls + 1 < 1e6 ? l.subarray(0, ls + 1) : l));
				else t = join(lines(t).map(RELAYS[r]));
			}
			// the far end
			const d = env.machine(sim), far = sim.draw(5);
			let got;
			const v = env.input(t);
			if (far === 0) got = d.y.decode(v, sim.chance(1, 2));
			else if (far === 1) { const k = d.y.decodeTo(v, v, sim.chance(1, 2)); got = v.subarray(0, k); }
			else {
				const s = Buffer.concat([t, Buffer.from(sim.pick(['\r\n=yend', '\r\n.\r\n']))]);
				const ps = far === 2 ? [s.length] : G.cuts(sim, s, 60); let at = 0, st = null, ended = false; const outs = [];
				if (ps.length > 1) sim.fault('resegmented');
				for (const k of ps) { const r = d.y.decodeChunk(env.input(s.subarray(at, at + k)), st); at += k; outs.push(Buffer.from(r.output.subarray(0, r.written))); st = r.state; sim.counts.calls++; if (r.ended) { ended = true; break; } }
				sim.check(ended, 'roundtrip', 'end of the article not found');
				got = Buffer.concat(outs);
			}
			sim.counts.calls++;
			sim.ev('decoded', d.name, far, got);
			O.cmp(sim, 'roundtrip', got, data, ' [encoded on ' + m.name + ' with line size ' + ls + ', ' + hops + ' relays, decoded on ' + d.name + ' by way ' + far + ']');
		});
	}
	sim.loop();
	return acted;
};
