"use strict";
// C08: articles damaged in transit, and arbitrary bytes, given to from_post.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run: articles built independently of the library (or by it), with headers and trailing data, passed undamaged or through a sequence of transport faults on the body (flipped, lost, inserted, duplicated, moved, truncated bytes or lines), or garbage built from fragments of articles, given to from_post; non-trivial if a fault was injected or the input was garbage; distinct by the hash of its event history';
exports.quick = 900000;
const CODES = ['no_start_found', 'no_end_found', 'missing_required_properties'];
const HEAD = ['', '', '', 'From: a@b\r\nSubject: "x.bin" yEnc (1/2)\r\n\r\n', 'text\r\n\r\nmore =ybegin text\r\n', '222 1 <a@b>\r\nX: y\r\n\r\n', '\r\n', '=ybegi\r\n', 'a =ybegin line=1 size=1 name=no\r\n'];
const TAIL = ['\r\n', '\r\n.\r\n', '\r\n\r\nsignature\r\n', '\r\n-- \r\nfoo bar\r\n', '\r\n=yend2\r\n', '\r\n=y end\r\n'];
function stuff(b) { return Buffer.from(b.toString('latin1').replace(/(^|\r\n)\./g, '$1..'), 'latin1'); }
function hex(c) { return (c >>> 0).toString(16).padStart(8, '0'); }
function shape(sim, r) {
	if (r instanceof Error) { if (CODES.indexOf(r.code) < 0) sim.fail('shape', 'error code ' + r.code + ' is not a documented one'); return 'error'; }
	if (r === null || typeof r !== 'object') sim.fail('shape', 'from_post returned ' + r);
	const int = k => { if (r[k] !== undefined && (typeof r[k] !== 'number' || r[k] < 0 || r[k] !== Math.floor(r[k]))) sim.fail('shape', k + ' is ' + r[k]); };
	int('yencStart'); int('dataStart'); int('dataEnd'); int('yencEnd');
	if (typeof r.yencStart !== 'number' || typeof r.yencEnd !== 'number') sim.fail('shape', 'yencStart/yencEnd missing');
	if (r.data !== undefined && !Buffer.isBuffer(r.data)) sim.fail('shape', 'data is not a Buffer');
	if (r.data && (!Buffer.isBuffer(r.crc32) || r.crc32.length !== 4 || r.crc32.readUInt32BE(0) !== M.crc32(r.data))) sim.fail('shape', 'crc32 is not that of data');
	if (r.data && (r.dataEnd < r.dataStart || r.yencEnd < r.dataEnd || r.yencStart > r.dataStart)) sim.fail('shape', 'offsets out of order');
	if (!r.props || !r.props.begin || !r.props.end) sim.fail('shape', 'props missing');
	if (r.warnings !== undefined) {
		if (!Array.isArray(r.warnings) || !r.warnings.length) sim.fail('shape', 'warnings is not a non-empty array');
		for (const w of r.warnings) if (typeof w.code !== 'string' || typeof w.message !== 'string') sim.fail('shape', 'malformed warning');
	}
	return 'ok';
}
exports.run = function(sim, env) {
	let nt = false;
	const n = sim.range(1, 3);
	for (let k = 0; k < n; k++) {
		const m = env.machine(sim);
		if (sim.chance(1, 4)) { // garbage
			nt = true; sim.fault('garbage');
			const F = ['=ybegin ', '\r\n=ybegin ', '=ypart ', '\r\n=ypart ', '\r\n=yend ', '=yend ', 'line=128', ' size=3', ' name=x y', ' part=1', ' total=2', 'begin=1 ', 'end=3', ' pcrc32=', ' crc32=00000000', '\r\n', '\r', '\n', '=', '=y', '\0', 'size=', ' ', '  ', 'line=', '=yxyz a=b\r\n', 'abc', '\xff\xfe', '-1', '0', '99999999999999999999', '__proto__=', 'constructor=', 'size=1e3 ', '.\r\n', '=y\r\n', '=y \r\n', '\t', '\u00a0', '=ybegin\r\n', '=yend\r\n', '=y__proto__ size=1\r\n', '=yconstructor begin=1\r\n', '=ybegin line=1 size=1 name=x\r\n', '=yend size=1\r\n'];
			const parts = []; const c = sim.range(1, 14);
			const proper = sim.chance(1, 2);
			if (proper) parts.push(Buffer.from('=ybegin '));
			for (let i = 0; i < c; i++) parts.push(sim.chance(1, 12) ? G.bytes(sim, sim.draw(60)) : Buffer.from(sim.pick(F), 'latin1'));
			if (proper && sim.chance(1, 2)) parts.push(Buffer.from('\r\n=yend ' + sim.pick(['size=3', '', 'x', 'size=3\r\n'])));
			let d = Buffer.concat(parts);
			if (sim.chance(1, 2)) { // an article whose control lines were garbled
				const data = G.bytes(sim, sim.draw(200)), o = []; M.encode(data, 128, 0, true, o);
				const garble = t => {
					const c = sim.draw(4);
					for (let i = 0; i < c; i++) {
						const p = sim.draw(t.length + 1), w = sim.draw(8), f = sim.pick(F);
						switch (sim.draw(4)) {
							case 0: t = t.slice(0, p) + t.slice(p + w); break;
							case 1: t = t.slice(0, p) + f + t.slice(p); break;
							case 2: t = t.slice(0, p) + f + t.slice(p + f.length); break;
							default: { const ws = t.split(' '), k = sim.draw(ws.length); ws.splice(k, 1, sim.pick([ws[k] + ' ' + ws[k], '', f, ws[k].replace(/=.*/s, '='), ws[k].replace(/=.*/s, '=' + sim.draw(1e9))])); t = ws.join(' '); }
						}
					}
					return t;
				};
				d = Buffer.concat([Buffer.from(garble('=ybegin part=2 total=3 line=128 size=999 name=ab c\r\n=ypart begin=5 end=' + (4 + data.length) + '\r\n'), 'latin1'), Buffer.from(o), Buffer.from(garble('\r\n=yend size=' + data.length + ' part=2 pcrc32=' + hex(M.crc32(data)) + ' crc32=00000000\r\n'), 'latin1')]);
			}
			const run = sim.weighted([[960, 0], [39, 1], [1, 2]]);
			if (run) { // one fragment said again and again, up to a hundred thousand times
				const C = ['a', '1', '0', ' ', '\t', '=', 'a=', '_', 'a '], W = ['abc', 'a0', '0a', 'A', '=a', 'a=b ', ' =', 'a b ', '\r', '\n', '\r\n', '\r\n=y', '=y', '\0', '\u00a0', '\xff', '-', '.', '\r\n.', '1 ', ...F];
				const w = sim.chance(2, 3) ? sim.pick(C) : sim.pick(W) + (sim.chance(1, 4) ? sim.pick(W) : ''), rep = Buffer.from(w.repeat(Math.ceil((run === 2 ? sim.range(400000, 1000000) : sim.range(20, 300)) / w.length)), 'latin1');
				const o = []; M.encode(G.bytes(sim, 30), 128, 0, true, o);
				const a = ['=ybegin ' + sim.pick(['', 'line=', 'total=']), sim.pick(['', ' ', '=', 'x', '!']) + ' line=128 size=' + sim.pick(['30', '']), sim.pick(['', 'x']) + ' name=x', '\r\n' + sim.pick(['', '=ypart ', '=ypart begin=', '=y', '=ypart begin=1 end=']), sim.pick(['x', '', ' end=30']) + '\r\n', Buffer.from(o), '\r\n=yend ' + sim.pick(['', 'size=']), sim.pick(['', 'x', ' crc32=0 ', 'x ']) + 'size=30\r\n'].map(x => Buffer.from(x));
				a.splice(sim.draw(a.length + 1), 0, rep);
				d = Buffer.concat(a); sim.fault(run === 2 ? 'very long run of one fragment' : 'run of one fragment');
			}
			const v = env.input(d);
			const enc = sim.weighted([[8, 'utf8'], [1, 'latin1']]); m.y.encoding = enc;
			const f = sim.chance(1, 2) ? m.y.from_post : m.y.from_post.bind(m.y); // with and without a receiver
			const r = sim.chance(1, 2) ? f(v, sim.chance(1, 2)) : f(v);
			const s = shape(sim, r); sim.counts.calls++;
			sim.ev('garbage', m.name, d, s, r.code, r.data); sim.probe('garbage ' + (r.code || 'decoded'));
			if (v.compare(d)) sim.fail('input-changed', 'from_post modified its input');
			continue;
		}
		// an article
		let data = G.bytes(sim, sim.chance(1, 15) ? 0 : sim.chance(1, 60) ? sim.draw(20000) : G.length(sim, 1200));
		if (sim.chance(1, 15)) { data = M.forge(data, sim.pick([0, 0, 0xffffffff, sim.draw(256), sim.draw(0x100000)])); sim.probe('CRC with leading zeroes or ones'); }
		const ls = sim.pick([128, 128, 64, 256, 997, 33]);
		const multi = sim.chance(1, 2) && data.length > 0;
		const viaLib = sim.chance(1, 4);
		let head, body, tail, expProps;
		const off = multi ? sim.draw(1e6) : 0, total = multi ? sim.range(2, 9) : 1, part = multi ? sim.range(1, total) : 1, fsize = off + data.length + (multi && part < total ? sim.draw(1e6) : 0);
		if (viaLib) body = Buffer.from(m.y.encode(env.input(data), ls));
		else { const o = []; M.encode(data, ls, 0, true, o); body = Buffer.from(o); }
		const name = sim.pick(['x.bin', 'a b.dat', 'size=5.txt', 'b\u00e9.rar']);
		if (multi) {
			head = '=ybegin part=' + part + ' total=' + total + ' line=' + ls + ' size=' + fsize + ' name=' + name + '\r\n=ypart begin=' + (off + 1) + ' end=' + (off + data.length) + '\r\n';
			tail = '\r\n=yend size=' + data.length + ' part=' + part + ' pcrc32=' + hex(M.crc32(data)) + (sim.chance(1, 2) ? ' crc32=12345678' : '');
			if (sim.chance(1, 6)) tail = tail.replace(/pcrc32=(\S+)/, (x, c) => 'pcrc32=' + c.toUpperCase());
		} else {
			head = '=ybegin line=' + ls + ' size=' + data.length + ' name=' + name + '\r\n';
			tail = '\r\n=yend size=' + data.length + (sim.chance(1, 5) ? ' pcrc32=' + hex(M.crc32(data)) : '') + ' crc32=' + (sim.chance(1, 6) ? hex(M.crc32(data)).toUpperCase() : hex(M.crc32(data)));
		}
		const pre = sim.pick(HEAD), post = sim.pick(TAIL);
		const raw = sim.chance(1, 2);
		// transport faults on the body
		const faults = sim.weighted([[3, 0], [4, 1], [2, 2], [1, 4]]);
		let b = body, f0 = '';
		for (let i = 0; i < faults; i++) {
			const L = b.length, p = sim.draw(L + 1), w = 1 + (sim.chance(1, 3) ? sim.draw(200) : sim.draw(4));
			const kind = sim.draw(9);
			const names = ['bit flipped', 'byte changed', 'bytes lost', 'bytes inserted', 'block duplicated', 'block moved', 'line lost', 'body truncated', 'garbled run'];
			f0 = names[kind];
			if (kind === 0 && p < L) { b = Buffer.from(b); b[p] ^= 1 << sim.draw(8); }
			else if (kind === 1 && p < L) { b = Buffer.from(b); b[p] = sim.pick([0, 10, 13, 46, 61, 121, sim.draw(256)]); }
			else if (kind === 2) b = Buffer.concat([b.subarray(0, p), b.subarray(p + w)]);
			else if (kind === 3) b = Buffer.concat([b.subarray(0, p), G.bytes(sim, w), b.subarray(p)]);
			else if (kind === 4) b = Buffer.concat([b.subarray(0, p), b.subarray(Math.max(0, p - w), p), b.subarray(p)]);
			else if (kind === 5) { const q = sim.draw(L + 1), x = b.subarray(p, p + w), r = Buffer.concat([b.subarray(0, p), b.subarray(p + w)]); b = Buffer.concat([r.subarray(0, q), x, r.subarray(q)]); }
			else if (kind === 6) { const s = b.indexOf('\r\n', p), e = s < 0 ? -1 : b.indexOf('\r\n', s + 2); if (e >= 0) b = Buffer.concat([b.subarray(0, s), b.subarray(e)]); }
			else if (kind === 7) b = b.subarray(0, p);
			else if (kind === 8 && p < L) { b = Buffer.from(b); for (let j = p; j < Math.min(L, p + w); j++) b[j] = sim.draw(256); }
			else continue;
			sim.fault(f0); nt = true;
		}
		if (faults && b.includes('=y')) { // damage must not forge control lines: those belong to no body
			const s = b.toString('latin1'); if (/^=y/.test(s) || /\r\n=y/.test(s) || /=ybegin |=yend /.test(s)) { sim.probe('forged control line skipped'); continue; }
		}
		const damaged = b.compare(body) !== 0;
		const wire = raw ? stuff(b) : b;
		const text = Buffer.concat([Buffer.from(pre), Buffer.from(head), wire, Buffer.from(tail), Buffer.from(post)]);
		const v = env.input(text);
		sim.at(sim.draw(20), () => {
			m.y.encoding = 'utf8';
			const f = sim.chance(1, 3) ? m.y.from_post : m.y.from_post.bind(m.y);
			const r = raw ? f(v, true) : sim.chance(1, 2) ? f(v) : f(v, false);
			sim.counts.calls++; sim.counts.bytes += text.length;
			const s = shape(sim, r);
			sim.ev('from_post', m.name, raw, text, s, r.code, r.data, r.warnings ? r.warnings.map(w => w.code).join() : '');
			sim.cover(m.idx, damaged ? 1 + faults : 0, Math.min(data.length, 100), multi ? 1 : 0, r.warnings ? r.warnings.length : 0);
			if (v.compare(text)) sim.fail('input-changed', 'from_post modified its input');
			const got = r.data || Buffer.alloc(0);
			const where = ' [' + m.name + ', ' + data.length + ' bytes' + (multi ? ', part' : '') + (raw ? ', stripping dots' : '') + ']';
			if (!damaged) {
				if (s === 'error') sim.fail('undamaged', 'an undamaged article gave ' + r.code + where);
				if (r.warnings) sim.fail('undamaged', 'an undamaged article gave warnings ' + r.warnings.map(w => w.code).join(', ') + where);
				O.cmp(sim, 'undamaged', got, data, where);
				const ys = Buffer.byteLength(pre), ds = ys + Buffer.byteLength(head), de = ds + wire.length, ye = de + tail.length + 2;
				for (const [key, e] of [['yencStart', ys], ['dataStart', ds], ['dataEnd', de], ['yencEnd', ye]]) if (r[key] !== e) sim.fail('undamaged', key + ' is ' + r[key] + ', not ' + e + where);
				const p = r.props;
				if (p.begin.name !== name || p.begin.line !== String(ls) || p.begin.size !== String(multi ? fsize : data.length) || p.end.size !== String(data.length)) sim.fail('undamaged', 'properties are wrong: ' + JSON.stringify(p) + where);
				if (multi && (p.begin.part !== String(part) || p.begin.total !== String(total) || p.part.begin !== String(off + 1) || p.part.end !== String(off + data.length) || p.end.part !== String(part) || p.end.pcrc32.toLowerCase() !== hex(M.crc32(data)))) sim.fail('undamaged', 'part properties are wrong: ' + JSON.stringify(p) + where);
			} else {
				if (s === 'ok' && !r.warnings && got.compare(data)) sim.fail('silent', 'a damaged body (' + f0 + ') decoded to other data without any warning' + where);
				if (s === 'ok' && !r.warnings) sim.probe('harmless damage'); else sim.probe('damage reported: ' + (r.code || r.warnings.map(w => w.code).sort().join(',')));
			}
		});
	}
	sim.loop();
	return nt;
};
exports.measure = 'distinct (machine, faults, size, kind, warnings) combinations';
