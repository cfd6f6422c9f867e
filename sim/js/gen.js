"use strict";
// Generators of data; every choice is a draw, bulk bytes come from a drawn sub-seed.
const M = require('./model.js');
// source bytes whose encoding is special somewhere
const CRIT = [0xd6, 0xe0, 0xe3, 0x13, 0xdf, 0xf6, 0x04];
const WIDTHS = [16, 32, 48, 64, 96, 128, 192, 256];

// lengths around what the kernels treat specially
function length(sim, max) {
	let n;
	switch (sim.draw(7)) {
		case 0: n = sim.draw(9); break;
		case 1: n = sim.draw(70); break;
		case 2: n = sim.pick(WIDTHS) + sim.range(-4, 5); break;
		case 3: n = sim.draw(300); break;
		case 4: n = sim.pick(WIDTHS) * sim.range(1, 8) + sim.range(-3, 3); break;
		case 5: n = sim.draw(1100); break;
		default: n = sim.draw(max + 1);
	}
	return Math.max(0, Math.min(n, max));
}
// arbitrary file data
function bytes(sim, len) {
	const b = Buffer.allocUnsafe(len);
	const kind = sim.draw(8), r = sim.sub();
	switch (kind) {
		case 0: b.fill(sim.draw(256)); break;
		case 1: r.fill(b); break;
		case 2: for (let i = 0; i < len; i++) b[i] = CRIT[r.below(7)]; break;
		case 3: { r.fill(b); const d = sim.pick([2, 4, 10, 40]); for (let i = 0; i < len; i++) if (r.below(d) === 0) b[i] = CRIT[r.below(7)]; break; }
		case 4: { // plain, with few specials
			b.fill(sim.pick([0x61, 0x00, 0x80, 0x2a])); const n = sim.draw(6);
			for (let i = 0; i < n && len; i++) b[sim.draw(len)] = CRIT[sim.draw(7)];
			break;
		}
		case 5: { // period near a vector width
			const p = Math.max(1, sim.pick(WIDTHS) + sim.range(-2, 2)), pat = r.fill(Buffer.allocUnsafe(p));
			for (let i = 0; i < p; i++) if (r.below(8) === 0) pat[i] = CRIT[r.below(7)];
			for (let i = 0; i < len; i++) b[i] = pat[i % p];
			break;
		}
		case 6: { // runs
			let i = 0;
			while (i < len) { const n = 1 + r.below(40), v = r.below(3) ? CRIT[r.below(7)] : r.below(256); for (let k = 0; k < n && i < len; k++) b[i++] = v; }
			break;
		}
		default: b.fill(0);
	}
	return b;
}
const TOK = ['\r\n', '\r', '\n', '.', '=', 'y', '\r\n.', '\r\n..', '\r\n=', '\r\n.=', '=\r', '=\r\n', '=\n', '\r\r\n', '\r\n\r\n', '\r\n.\r', '==', '=}', '=y', '..', '.\r\n', '\n.', '=\r\n.', '\0', ' ', '\t'];
const ENDS = ['\r\n.\r\n', '\r\n=y', '\r\n.=y', '\r\n.\r\n.\r\n', '\r\n=yend size=1\r\n.\r\n'];
// text for decoders: anything a server, a broken poster or an attacker may send. ends: may contain end markers
function wire(sim, len, ends) {
	const kind = sim.draw(8), r = sim.sub();
	const parts = [];
	let n = 0;
	const put = b => { parts.push(b); n += b.length; };
	switch (kind) {
		case 0: put(Buffer.alloc(len, sim.pick([0x61, 0x2a, 0x3d, 0x2e, 0x0d, 0x0a]))); break;
		case 1: case 2: { // encoded data
			const o = [];
			const ls = sim.pick([128, 128, 64, 256, 16, 12, 3, 1, 997]);
			M.encode(bytes(sim, len), ls, 0, true, o);
			let t = Buffer.from(o);
			if (kind === 2) { // dot-stuffed, from an encoder which doesn't escape dots
				let s = t.toString('latin1');
				s = s.replace(/\r\n(.)/gs, (m, c) => r.below(2) ? '\r\n..' + (r.below(2) ? c : '') : m);
				t = Buffer.from(s, 'latin1');
			}
			put(t);
			break;
		}
		case 3: // token soup
			while (n < len) put(Buffer.from(r.below(3) ? TOK[r.below(TOK.length)] : String.fromCharCode(r.below(256)), 'latin1'));
			break;
		case 4: case 5: { // mostly plain, rare tokens
			const gap = kind === 4 ? 12 : 90;
			while (n < len) {
				put(r.fill(Buffer.allocUnsafe(1 + r.below(gap))));
				put(Buffer.from(TOK[r.below(TOK.length)], 'latin1'));
			}
			break;
		}
		case 6: put(r.fill(Buffer.allocUnsafe(len))); break;
		default: { // few drawn tokens in a plain body
			const b = Buffer.alloc(len, 0x62), k = sim.draw(5);
			for (let i = 0; i < k && len; i++) { const t = Buffer.from(sim.pick(TOK), 'latin1'), p = sim.draw(len); t.copy(b, p); }
			put(b);
		}
	}
	let t = Buffer.concat(parts);
	if (kind === 3 && t.length > len) t = t.subarray(0, len);
	if (ends) {
		const k = sim.weighted([[3, 0], [4, 1], [2, 2]]);
		for (let i = 0; i < k; i++) {
			let e = Buffer.from(sim.pick(ENDS), 'latin1');
			if (sim.chance(1, 3)) { // near miss
				sim.fault('marker damaged');
				const p = sim.draw(e.length), w = sim.draw(3);
				if (w === 0) e = Buffer.concat([e.subarray(0, p), e.subarray(p + 1)]);
				else if (w === 1) { e = Buffer.from(e); e[p] = sim.pick([0x0d, 0x0a, 0x2e, 0x3d, 0x79, 0x59, 0]); }
				else e = Buffer.concat([e.subarray(0, p), Buffer.from(sim.pick(['\r', '\n', '.', '=', 'y', 'x'])), e.subarray(p)]);
			}
			const p = sim.chance(1, 4) ? sim.draw(Math.min(4, t.length + 1)) : sim.draw(t.length + 1);
			t = sim.chance(1, 2) ? Buffer.concat([t.subarray(0, p), e, t.subarray(p)]) : Buffer.concat([t.subarray(0, p), e, t.subarray(Math.min(t.length, p + e.length))]);
		}
		if (sim.chance(1, 6)) t = Buffer.concat([Buffer.from(sim.pick(['=y', '.\r\n', '.=y', '.=', '=', '.', '.\r', '=\r', '..\r\n', '\r\n.\r\n', '\n.\r\n'])), t]);
	}
	return t;
}
// how the network cuts a stream: returns piece lengths summing to len
function cuts(sim, data, maxPieces) {
	const len = data.length, out = [];
	let at = 0;
	const put = n => { n = Math.max(0, Math.min(n, len - at)); out.push(n); at += n; };
	const mode = sim.draw(7);
	const r = sim.sub();
	const special = i => { const c = data[i]; return c === 13 || c === 10 || c === 46 || c === 61 || c === 121; };
	while (at < len) {
		if (out.length >= maxPieces) { put(len - at); break; }
		switch (mode) {
			case 0: put(len); break;
			case 1: put(1 + r.below(4)); break;
			case 2: put(1 + r.below(Math.max(1, len))); break;
			case 3: { // inside or next to special characters
				let i = at + r.below(Math.max(1, Math.floor((len - at) / (1 + r.below(8)))));
				while (i < len && !special(i)) i++;
				put(Math.max(1, i - at + r.below(5) - 1));
				break;
			}
			case 4: put(sim.pick([16, 32, 64, 128]) + r.below(7) - 3); break;
			case 5: put(r.below(12) === 0 ? 0 : 1 + r.below(140)); break;
			default: put(r.below(5) === 0 ? 1 + r.below(3) : 60 + r.below(300));
		}
		if (mode !== 0 && r.below(25) === 0) { out.push(0); }
	}
	return out;
}
module.exports = { length, bytes, wire, cuts, CRIT, WIDTHS, TOK, ENDS };
