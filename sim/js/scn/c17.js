"use strict";
// C17: the control lines of posted articles are damaged, lost, repeated, mixed up between the articles of
// a file, or written by posters with bugs; from_post must report exactly the contradictions there are.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run: the articles of a file posted by a (possibly faulty) poster, their control lines and bodies lost, repeated, garbled word by word, or mixed up with those of the other articles on the way to readers calling from_post, whose properties, offsets, data, warnings and errors are compared with a reference reader; non-trivial if a fault was injected; distinct by the hash of its event history';
exports.measure = 'distinct (faults, warnings or error, machine, kind of article) combinations';
exports.quick = 900000;
function hex(c) { return (c >>> 0).toString(16).padStart(8, '0'); }
function stuff(b) { return Buffer.from(b.toString('latin1').replace(/(^|\r\n)\./g, '$1..'), 'latin1'); }

// ---- the reference reader
function readLine(text, warn) { // one control line, without its line end
	const rest = text.trim().slice(2), words = rest.split(' '), tag = words.shift(), props = new Map();
	let junk = false;
	for (let i = 0; i < words.length; i++) {
		const m = /^([a-z_][a-z0-9_]*)=/.exec(words[i]);
		if (!m) { junk = true; continue; }
		if (junk) { warn('ignored_line_data'); junk = false; }
		let val = words[i].slice(m[0].length);
		if (tag === 'begin' && m[1] === 'name') { val = words.slice(i).join(' ').slice(5); i = words.length; }
		if (props.has(m[1])) warn('duplicate_property');
		props.set(m[1], val);
	}
	if (junk) warn('ignored_line_data');
	return { tag, props };
}
function reader(text, raw, enc) {
	const s = text.toString('latin1'), r = { warnings: [] }, warn = c => r.warnings.push(c), lines = new Map();
	const at = s.startsWith('=ybegin ') ? 0 : s.indexOf('\r\n=ybegin ') + 2;
	if (at === 1) return { code: 'no_start_found' };
	r.yencStart = at;
	const add = l => { const c = readLine(Buffer.from(l, 'latin1').toString(enc), warn); if (lines.has(c.tag)) warn('duplicate_line'); lines.set(c.tag, c.props); };
	let p = at, e, ended = false;
	for (;;) {
		e = s.indexOf('\r\n', p);
		if (e < 0) return { code: 'no_end_found' };
		const l = s.slice(p, e);
		if (l === '=yend ') return null; // an end line saying nothing where data is due: the rules do not say whether it is one
		add(l); p = e + 2;
		if (l.startsWith('=yend ')) { ended = true; break; }
		if (!s.startsWith('=y', p)) break;
	}
	if (ended) r.yencEnd = p;
	else {
		const q = s.slice(p).lastIndexOf('\r\n=yend ');
		if (q < 0) return { code: 'no_end_found' };
		r.dataStart = p; r.dataEnd = p + q;
		e = s.indexOf('\r\n', r.dataEnd + 2);
		if (e < 0) { warn('missing_yend_newline'); e = s.length; r.yencEnd = e; } else r.yencEnd = e + 2;
		add(s.slice(r.dataEnd + 2, e));
	}
	const none = new Map(), B = lines.get('begin') || none, P = lines.get('part') || none, E = lines.get('end') || none;
	const g = (m, k) => m.get(k) || ''; // an empty value says nothing
	if (!g(B, 'line') || !g(B, 'size') || !B.has('name') || !g(E, 'size')) return { code: 'missing_required_properties' };
	for (const [m, ks] of [[B, ['line', 'total', 'part', 'size']], [P, ['begin', 'end']], [E, ['size', 'part']]]) for (const k of ks) {
		const v = g(m, k); if (!v) continue;
		if (/[^0-9]/.test(v)) warn('invalid_prop_' + k); else if (v === '0' && k !== 'size') warn('zero_prop_' + k);
	}
	const num = (m, k) => g(m, k) ? Number(g(m, k)) : NaN;
	const total = num(B, 'total'), bp = g(B, 'part'), ep = g(E, 'part'), size = num(B, 'size'), esize = num(E, 'size');
	if (bp && ep && bp !== ep) warn('part_number_mismatch');
	else if (Number(bp || NaN) > total || Number(ep || NaN) > total) warn('part_number_exceeds_total');
	if (g(P, 'begin') && g(P, 'end')) {
		const a = num(P, 'begin'), b = num(P, 'end');
		if (a > b) warn('invalid_part_range'); else if (!(b - a + 1 === esize)) warn('size_mismatch_part_range'); else if (b > size) warn('part_range_exceeds_size');
	} else if (total > 1 || Number(bp) > 1 || Number(ep) > 1) warn('missing_part_range');
	for (const k of ['pcrc32', 'crc32']) if (g(E, k) && !/^[0-9a-f]{8}$/i.test(g(E, k))) warn('invalid_prop_' + k);
	if (bp ? size < esize : g(B, 'size') !== g(E, 'size')) warn('size_mismatch');
	let data = Buffer.alloc(0);
	if (!ended) { const o = []; M.decodeNoEnd(text.subarray(r.dataStart, r.dataEnd), raw, 0, o); data = r.data = Buffer.from(o); }
	const crc = hex(M.crc32(data));
	if (data.length !== esize) warn('data_size_mismatch');
	if (g(E, 'pcrc32') && g(E, 'pcrc32').toLowerCase() !== crc) warn('pcrc32_mismatch');
	if (g(E, 'crc32') && !lines.has('part') && g(E, 'crc32').toLowerCase() !== crc) warn('crc32_mismatch'); // the CRC of the whole file says nothing about a part
	r.lines = lines;
	return r;
}

// ---- posters and what happens to their articles
const CONTROL = ['line', 'size', 'name', 'part', 'total', 'begin', 'end', 'pcrc32', 'crc32'];
const OTHER = ['date', 'id', 'x', 'some_prop', '_', 'constructor', 'a1', '__proto__', 'parts', 'size2'], JUNK = ['junk', 'X', '12', '-', '(1/2)', 'BIN'];
const VALUES = ['', '0', '1', '2', 'abc', '12x', '-1', '1.5', '9', '99999999999', '00000000', 'ffffffff', 'FFFFFFF', 'g0000000', '123456789'];
const text = l => '=y' + l.tag + ' ' + l.words.join(' ');
const copy = l => ({ tag: l.tag, words: l.words.slice() });
exports.run = function(sim, env) {
	const enc = sim.weighted([[5, 'utf8'], [1, 'latin1']]);
	const parts = sim.weighted([[2, 1], [3, 2], [2, 3]]), ls = sim.pick([128, 128, 64, 33]);
	const datas = []; for (let i = 0; i < parts; i++) datas.push(G.bytes(sim, sim.chance(1, 12) ? 0 : G.length(sim, 300)));
	const whole = Buffer.concat(datas), name = sim.pick(['x.bin', 'a b.dat', 'size=5 part=2.txt', 'b\u00e9.rar', 'a=b', '']);
	const multi = parts > 1 || sim.chance(1, 4), total = parts;
	let faults = 0; let cur = null; const fault = f => { sim.fault(f); faults++; if (cur) cur.n++; };
	// what a faulty poster counts wrongly, in all it posts
	const bug = sim.weighted([[12, 0], [1, 1], [1, 2], [1, 3], [1, 4], [1, 5], [1, 6]]);
	if (bug) fault(['', 'poster: parts counted from 0', 'poster: total one short', 'poster: offsets from 0', 'poster: size of the file one short', 'poster: stale CRC', 'poster: no part lines'][bug]);
	let pos = 0, stale = 0;
	const arts = datas.map((data, i) => {
		const no = String(i + (bug === 1 ? 0 : 1)), crc = M.crc32(data), size = whole.length - (bug === 4 && whole.length ? 1 : 0);
		const o = []; M.encode(data, ls, 0, true, o);
		const a = { pre: sim.pick(['', '', 'From: a@b\r\n\r\n', '222 1 <a@b>\r\nX: y\r\n\r\n']), head: [], body: Buffer.from(o), tail: null, post: sim.pick(['\r\n', '\r\n', '\r\n.\r\n', '\r\nbye\r\n']), gone: false, raw: sim.chance(1, 2), n: bug ? 1 : 0 };
		const w = ['line=' + ls, 'size=' + size].concat(('name=' + name).split(' '));
		if (multi) {
			a.head.push({ tag: 'begin', words: ['part=' + no, 'total=' + (total - (bug === 2 ? 1 : 0))].concat(w) });
			const b = pos + (bug === 3 ? 0 : 1);
			if (bug !== 6) a.head.push({ tag: 'part', words: ['begin=' + b, 'end=' + (b + data.length - 1)] });
			a.tail = { tag: 'end', words: ['size=' + data.length, 'part=' + no, 'pcrc32=' + hex(bug === 5 ? stale : crc)] };
			if (sim.chance(1, 3)) a.tail.words.push('crc32=' + hex(M.crc32(whole)));
		} else {
			a.head.push({ tag: 'begin', words: w });
			a.tail = { tag: 'end', words: ['size=' + data.length, (sim.chance(1, 5) ? 'p' : '') + 'crc32=' + hex(bug === 5 ? stale : crc)] };
		}
		pos += data.length; stale = crc;
		return a;
	});
	// faults on the way
	const n = sim.weighted([[4, 0], [8, 1], [4, 2], [2, 4]]);
	const orig = arts.map(a => ({ head: a.head.map(copy), tail: copy(a.tail), body: a.body }));
	for (let k = 0; k < n; k++) {
		const i = sim.draw(parts), a = arts[i], other = orig[sim.draw(parts)], c = sim.draw(a.head.length + 1), l = c === a.head.length ? a.tail : a.head[c];
		const word = l && l.words.length ? sim.draw(l.words.length) : -1, kind = sim.draw(18);
		const value = () => sim.chance(1, 2) ? sim.pick(VALUES) : (l => (l.words.length ? sim.pick(l.words) : '').replace(/^.*=/, ''))(sim.pick(other.head.concat([other.tail])));
		const bump = v => /^\d{1,11}$/.test(v) && sim.chance(1, 2) ? String(Math.max(0, Number(v) + sim.pick([1, -1, 2, 10]))) : value();
		if (!l) continue;
		cur = a;
		switch (kind) {
			case 0: if (word < 0) continue; l.words.splice(word, 1); fault('word lost'); break;
			case 1: if (word < 0) continue; l.words.splice(word, 0, l.words[word]); fault('word repeated'); break;
			case 2: case 3: case 4: if (word < 0 || l.words[word].indexOf('=') < 0) continue; l.words[word] = l.words[word].replace(/=(.*)$/, (x, v) => '=' + bump(v)); fault('value changed'); break;
			case 5: if (word < 0) continue; { const w = l.words.splice(word, 1)[0]; l.words.splice(sim.draw(l.words.length + 1), 0, w); fault('word moved'); } break;
			case 6: l.words.splice(sim.draw(l.words.length + 1), 0, sim.pick(JUNK)); fault('junk inserted'); break;
			case 7: l.words.splice(sim.draw(l.words.length + 1), 0, sim.pick(OTHER) + '=' + sim.pick(['', '1', 'b'])); fault('unknown property'); break;
			case 8: l.words.splice(sim.draw(l.words.length + 1), 0, sim.pick(CONTROL) + '=' + value()); fault('stray property'); break;
			case 9: if (c < a.head.length) a.head.splice(c, 1); else a.tail = null; fault('line lost'); break;
			case 10: if (c < a.head.length) a.head.splice(c, 0, copy(l)); else a.head.push(copy(l)); fault('line repeated'); break;
			case 11: if (c < a.head.length) a.head[c] = copy(other.head[Math.min(c, other.head.length - 1)]); else a.tail = copy(other.tail); fault('line of another article'); break;
			case 12: a.head.splice(sim.draw(a.head.length + 1), 0, { tag: sim.pick(['foo', 'part', 'begin', 'constructor', 'end2', '__proto__', 'xyz']), words: sim.chance(1, 3) ? [] : [sim.pick(CONTROL.concat(OTHER)) + '=' + value()] }); fault('extra line'); break;
			case 13: a.post = ''; fault('cut after the last line'); break;
			case 14: a.body = other.body; fault('body of another article'); break;
			case 15: a.gone = true; fault('body lost'); break;
			case 16: l.words.length = sim.draw(l.words.length + 1); fault('line cut short'); break;
			default: if (word < 0) continue; l.words[word] = l.words[word].replace(/^[a-z0-9]+=/, x => sim.pick(CONTROL) + '='); fault('property renamed'); break;
		}
	}
	// readers
	arts.forEach((a, i) => {
		const wire = a.raw ? stuff(a.body) : a.body, crlf = Buffer.from('\r\n');
		const bs = [Buffer.from(a.pre)];
		a.head.forEach((l, j) => bs.push(Buffer.from(text(l), enc), crlf));
		if (!a.gone) bs.push(wire, crlf);
		if (a.tail) bs.push(Buffer.from(text(a.tail), enc));
		bs.push(Buffer.from(a.post));
		const t = Buffer.concat(bs), v = env.input(t);
		sim.at(sim.draw(30), () => {
			const m = env.machine(sim); m.y.encoding = enc;
			const e = reader(t, a.raw, enc), r = m.y.from_post(v, a.raw);
			sim.counts.calls++; sim.counts.bytes += t.length;
			const ws = r instanceof Error ? null : (r.warnings || []).map(w => w.code).sort();
			sim.ev('from_post', m.name, a.raw, t, r.code, ws && ws.join(), r.data);
			const where = ' [' + m.name + (a.raw ? ', stripping dots' : '') + ', ' + a.head.concat(a.tail || []).map(text).join(' | ') + (a.gone ? '' : ', ' + a.body.length + ' bytes') + ']';
			if (v.compare(t)) sim.fail('input-changed', 'from_post modified its input' + where);
			if (e === null) { sim.probe('end line without properties where data is due'); return; }
			if (e.code) { sim.probe('error: ' + e.code); sim.cover(m.idx, a.n, e.code.length); if (!(r instanceof Error)) sim.fail('error', 'accepted, instead of ' + e.code + where); if (r.code !== e.code) sim.fail('error', 'error is ' + r.code + ', not ' + e.code + where); return; }
			if (r instanceof Error) sim.fail('error', 'refused with ' + r.code + where);
			const we = e.warnings.sort();
			for (const w of we) sim.probe('warning: ' + w);
			if (!we.length) sim.probe(a.n ? 'faults without effect' : 'intact');
			let h = 0; for (const c of we.join()) h = Math.imul(h, 31) + c.charCodeAt(0) | 0;
			sim.cover(m.idx, h, multi ? parts : 0, a.gone ? 1 : 0, a.n);
			if (ws.join() !== we.join()) sim.fail('warnings', 'warnings are ' + (ws.join(', ') || 'none') + '; should be ' + (we.join(', ') || 'none') + where);
			for (const k of ['yencStart', 'dataStart', 'dataEnd', 'yencEnd']) if (r[k] !== e[k]) sim.fail('offsets', k + ' is ' + r[k] + ', not ' + e[k] + where);
			if (e.data) { O.cmp(sim, 'data', r.data, e.data, where); if (r.crc32.readUInt32BE(0) !== M.crc32(e.data)) sim.fail('data', 'crc32 is not that of the data' + where); }
			else if (r.data && r.data.length) sim.fail('data', 'data out of nothing' + where);
			const own = o => Object.keys(o).sort().join();
			if (own(r.props) !== [...e.lines.keys()].sort().join()) sim.fail('props', 'lines are ' + own(r.props) + where);
			for (const [tag, ps] of e.lines) {
				if (own(r.props[tag]) !== [...ps.keys()].sort().join()) sim.fail('props', 'properties of ' + tag + ' are ' + own(r.props[tag]) + where);
				for (const [k, val] of ps) if (r.props[tag][k] !== val) sim.fail('props', tag + '.' + k + ' is ' + JSON.stringify(r.props[tag][k]) + ', not ' + JSON.stringify(val) + where);
			}
		});
	});
	sim.loop();
	return faults > 0;
};
