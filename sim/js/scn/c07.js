"use strict";
// C07: histories of valid and failing calls on several encoders; parts posted, lost, duplicated, reordered, reassembled.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
exports.rule = 'a case is one simulated run: 1-3 encoders used alternately with valid calls, rejected calls and calls whose memory allocation fails; parts delivered out of order with losses and duplicates and decoded with from_post; non-trivial if a call failed or a part was lost, duplicated or overtaken; distinct by the hash of its event history';
exports.quick = 280000;
const NAMES = ['bytes.bin', 'a b c.txt', 'x=y size=3 line=7.dat', 'evil\r\n=yend size=0\r\n', '\r\n=ybegin line=1 size=1 name=q', 'nul\0nul', ' lead', 'trail ', '', 'part=3 total=9 name=z', '\ttab\t', 'name=', '=ypart begin=1 end=2', 'a\nb', 'a\rb', '"quoted"', 'x\u0085y', '\u2028x\u2029', '=ybegin ', '\x7f\x01\x1b[31m', '$&$1', '..', '-', 'crc32=00000000', 'b\u00e9\u00ff.bin', '\u65e5\u672c\u8a9e.rar', '\ud83d\ude00.jpg'];
function filename(sim) {
	const k = sim.draw(6);
	if (k < 3) return sim.pick(NAMES);
	if (k === 3) { let s = ''; const n = sim.draw(12); for (let i = 0; i < n; i++) s += sim.chance(1, 3) ? sim.pick(NAMES) : String.fromCharCode(sim.draw(256)); return s; }
	if (k === 4) { const n = sim.range(240, 300); return 'n'.repeat(n) + sim.pick(NAMES); }
	let s = ''; const n = sim.draw(30); for (let i = 0; i < n; i++) s += String.fromCharCode(sim.pick([sim.draw(128), 0x100 + sim.draw(0xd000), sim.draw(32), 10, 13, 0])); return s;
}
const clean = s => s.replace(/[\r\n\0]/g, '').substring(0, 256);
function representable(enc, s) { return enc === 'utf8' ? true : enc === 'latin1' || enc === 'binary' ? !/[^\0-\xff]/.test(s) : !/[^\0-\x7f]/.test(s); }
function expectThrow(sim, what, fn) {
	let r;
	try { r = fn(); } catch (e) { sim.ev('rejected', what); sim.fault('rejected call: ' + what); if (!(e instanceof Error)) sim.fail('reject', 'threw something that is not an Error'); return; }
	sim.fail('reject', what + ' did not throw but returned ' + r);
}
function give(sim, d) { // the forms data may have
	switch (sim.draw(5)) {
		case 0: case 1: return Buffer.from(d);
		case 2: return Array.from(d);
		case 3: return new Uint8Array(d);
		default: return d.every(c => c < 128) ? d.toString('latin1') : Buffer.from(d);
	}
}
// parses an article independently; checks its text against what was posted
function article(sim, art, a, enc, where) {
	const t = art.toString('latin1');
	const e = t.indexOf('\r\n'); const head = t.slice(0, e);
	const name = Buffer.from(clean(a.name), enc).toString('latin1');
	const multi = a.total > 1;
	const m = multi ? /^=ybegin part=(\d+) total=(\d+) line=(\d+) size=(\d+) name=([^]*)$/.exec(head) : /^=ybegin line=(\d+) size=(\d+) name=([^]*)$/.exec(head);
	const bad = (w) => sim.fail('article', w + where);
	if (!m) bad('malformed =ybegin line ' + JSON.stringify(head.slice(0, 80)));
	const f = multi ? { part: m[1], total: m[2], line: m[3], size: m[4], name: m[5] } : { line: m[1], size: m[2], name: m[3] };
	if (f.line !== String(a.ls)) bad('line=' + f.line + ', not ' + a.ls);
	if (f.size !== String(a.size)) bad('size=' + f.size + ', not ' + a.size);
	if (f.name !== name) bad('name is ' + JSON.stringify(f.name) + ', not ' + JSON.stringify(name));
	let at = e + 2;
	if (multi) {
		if (f.part !== String(a.part)) bad('part=' + f.part + ', not ' + a.part);
		if (f.total !== String(a.total)) bad('total=' + f.total + ', not ' + a.total);
		const e2 = t.indexOf('\r\n', at), p = t.slice(at, e2); at = e2 + 2;
		if (p !== '=ypart begin=' + (a.pos + 1) + ' end=' + (a.pos + a.data.length)) bad('range line is ' + JSON.stringify(p));
	}
	const y = t.lastIndexOf('\r\n=yend ');
	if (y < at - 2) bad('no =yend line');
	const body = y < at ? Buffer.alloc(0) : art.subarray(at, y);
	const eb = []; M.encode(a.data, a.ls, 0, true, eb);
	if (body.compare(Buffer.from(eb))) bad('body is not the encoding of the data');
	const hex = c => (c >>> 0).toString(16).padStart(8, '0');
	const tail = t.slice(y + 2);
	const exp = multi ? '=yend size=' + a.data.length + ' part=' + a.part + ' pcrc32=' + hex(M.crc32(a.data)) + (a.last ? ' crc32=' + hex(a.fullCrc) : '') : '=yend size=' + a.data.length + ' crc32=' + hex(M.crc32(a.data));
	if (tail !== exp) bad('end line is ' + JSON.stringify(tail) + ', not ' + JSON.stringify(exp));
}
exports.run = function(sim, env) {
	let upset = false;
	const N = sim.weighted([[3, 1], [2, 2], [1, 3]]);
	const m = env.machine(sim), y = m.y;
	const enc = sim.weighted([[6, 'utf8'], [2, 'latin1'], [1, 'ascii'], [1, 'binary']]);
	if (enc !== 'utf8') { y.encoding = enc; sim.probe('encoding ' + enc); }
	const jobs = [];
	for (let j = 0; j < N; j++) {
		let name = filename(sim);
		if (!representable(enc, name)) name = Array.from(name).filter(c => representable(enc, c)).join('');
		const ls0 = sim.pick([undefined, 128, 128, 64, 1, 2, 300, 0, 997, sim.range(1, 200)]);
		const ls = ls0 || 128;
		const size = sim.chance(1, 30) ? 0 : sim.draw(4) === 0 ? sim.draw(12) : sim.draw(2500);
		let data = G.bytes(sim, size);
		if (sim.chance(1, 15)) { data = M.forge(data, sim.pick([0, 0xffffffff, sim.draw(256), sim.draw(0x100000)])); sim.probe('file CRC with leading zeroes or ones'); }
		const total = Math.max(1, Math.min(size, sim.weighted([[2, 1], [3, 2], [3, sim.range(2, 6)], [1, 12], [1, sim.range(1, 4)]])));
		// a cut of the file in `total` non-empty parts
		const c = new Set(); while (c.size < total - 1) c.add(1 + sim.draw(size - 1 || 1));
		const at = [0].concat(Array.from(c).sort((p, q) => p - q), [size]);
		const job = { name, ls, size, data, total, at, done: 0, arts: [], crc: 0, e: null };
		if (total === 1 && sim.chance(1, 2)) { job.viaPost = true; job.ls0 = ls0; }
		else { job.e = ls0 === undefined ? y.multi_post(name, size, total) : y.multi_post(name, size, total, ls0); }
		sim.ev('job', name, size, total, ls);
		jobs.push(job);
	}
	const state = job => {
		const e = job.e, pos = job.at[job.done];
		const w = ' after ' + job.done + ' of ' + job.total + ' parts';
		sim.check(e.part === job.done, 'state', () => 'part is ' + e.part + w);
		sim.check(e.pos === pos, 'state', () => 'pos is ' + e.pos + ', not ' + pos + w);
		sim.check(Buffer.isBuffer(e.crc) && e.crc.length === 4 && e.crc.readUInt32BE(0) === M.crc32(job.data.subarray(0, pos)), 'state', () => 'crc does not describe the accepted data' + w);
		sim.check(e.size === job.size && e.parts === job.total && e.line_size === job.ls, 'state', 'size/parts/line_size changed' + w);
	};
	const alloc = (fails, fn) => { env.h.heapPlan(fails, -1, true); try { return fn(); } finally { env.h.heapPlan([], -1, true); } };
	const step = job => {
		if (job.viaPost) {
			if (job.arts.length) return;
			const d = give(sim, job.data);
			if (job.size && sim.chance(1, 6)) { upset = true; try { alloc([0], () => y.post(job.name, d, job.ls0)); } catch (x) { sim.ev('rejected', 'oom'); sim.fault('rejected call: out of memory'); } }
			const art = job.ls0 === undefined ? y.post(job.name, d) : y.post(job.name, d, job.ls0);
			sim.ev('post', art); sim.counts.calls++; sim.counts.bytes += job.size;
			article(sim, art, { name: job.name, total: 1, ls: job.ls, size: job.size, data: job.data, last: true }, enc, ' (post)');
			job.arts.push(Buffer.from(art)); job.done = 1;
			return;
		}
		const a = job.at[job.done], b = job.done < job.total ? job.at[job.done + 1] : job.size;
		const good = job.data.subarray(a, b), e = job.e;
		const extra = n => Buffer.concat([good, Buffer.alloc(n, 1)]);
		const nbad = sim.weighted([[5, 0], [3, 1], [1, 3]]);
		for (let i = 0; i < nbad; i++) {
			upset = true;
			if (job.done >= job.total) { expectThrow(sim, 'too many parts', () => e.encode(sim.chance(1, 3) ? Buffer.alloc(0) : Buffer.alloc(sim.draw(50), 3))); state(job); continue; }
			const last = job.done === job.total - 1;
			switch (sim.draw(5)) {
				case 0: expectThrow(sim, 'too much data', () => e.encode(Buffer.concat([job.data.subarray(a), Buffer.alloc(1 + sim.draw(200), 7)]))); break;
				case 1: if (last && good.length) expectThrow(sim, 'wrong total', () => e.encode(good.subarray(0, sim.draw(good.length)))); else if (last) expectThrow(sim, 'wrong total', () => e.encode(extra(1))); break;
				case 2: expectThrow(sim, 'not data', () => e.encode(sim.pick([null, undefined, 12, {}, true, Symbol('x')]))); break;
				case 3: if (good.length) {
					let art;
					try { art = alloc([0], () => e.encode(give(sim, good))); } catch (x) { sim.ev('rejected', 'oom'); sim.fault('rejected call: out of memory'); }
					if (art) { accepted(art); return; } // it needed no memory of its own
				} break;
				default: if (last) expectThrow(sim, 'wrong total', () => e.encode(extra(1 + sim.draw(9)))); else expectThrow(sim, 'too much data', () => e.encode(Buffer.alloc(job.size - a + 1)));
			}
			state(job);
		}
		if (job.done >= job.total) return;
		accepted(e.encode(give(sim, good)));
		function accepted(art) {
		sim.counts.calls++; sim.counts.bytes += good.length;
		sim.ev('part', job.done + 1, art);
		job.done++;
		article(sim, art, { name: job.name, total: job.total, ls: job.ls, size: job.size, data: good, part: job.done, pos: a, last: job.done === job.total, fullCrc: M.crc32(job.data) }, enc, ' (part ' + job.done + ' of ' + job.total + ')');
		state(job);
		job.arts.push(Buffer.from(art));
		}
	};
	// the users of the encoders take turns as they like
	for (const job of jobs) {
		const n = job.total + sim.draw(2);
		for (let i = 0; i < n; i++) sim.at(sim.draw(60) + i * 10, () => step(job));
	}
	if (!sim.loop()) return false;
	for (const job of jobs) while (job.done < job.total) step(job);
	// delivery
	for (const job of jobs) {
		const got = Buffer.alloc(job.size, 0x55), have = new Set(); let left = job.total;
		const arrive = i => {
			if (sim.chance(1, 8)) { upset = true; sim.fault('article lost, refilled'); sim.at(100 + sim.draw(300), () => arrive(i)); return; }
			if (sim.chance(1, 10)) { upset = true; sim.fault('article duplicated'); sim.at(sim.draw(300), () => arrive(i)); }
			const d = env.machine(sim); d.y.encoding = enc;
			const raw = sim.chance(1, 2);
			const before = Buffer.from(sim.pick(['', '', 'Path: x\r\nSubject: [1/2] "f" yEnc\r\n\r\n', '\r\n']));
			const text = Buffer.concat([before, job.arts[i], Buffer.from(sim.pick(['\r\n', '\r\n.\r\n', '\r\n\r\n']))]);
			const r = d.y.from_post(env.input(text), raw);
			sim.counts.calls++; sim.counts.bytes += text.length;
			sim.ev('from_post', d.name, raw, r.data, r.warnings ? r.warnings.length : 0);
			if (r instanceof Error) sim.fail('reassembly', 'from_post on an undamaged article returned ' + r.code);
			if (r.warnings) sim.fail('reassembly', 'from_post on an undamaged article warns: ' + r.warnings.map(w => w.code).join(', '));
			const part = r.props.begin.part === undefined ? 1 : +r.props.begin.part;
			const begin = r.props.part ? +r.props.part.begin - 1 : 0;
			const data = r.data || Buffer.alloc(0);
			if (part !== i + 1) sim.fail('reassembly', 'part number ' + part + ' of article ' + (i + 1));
			data.copy(got, begin);
			if (begin !== job.at[i] || data.length !== job.at[i + 1] - job.at[i]) sim.fail('reassembly', 'article ' + (i + 1) + ' covers ' + begin + '+' + data.length);
			have.add(i);
			const nm = clean(job.name);
			if (nm === nm.trim() && nm === Buffer.from(nm, enc).toString(enc) && r.props.begin.name !== nm) sim.fail('reassembly', 'name came back as ' + JSON.stringify(r.props.begin.name));
		};
		for (let i = 0; i < job.total; i++) sim.at(sim.draw(200), () => arrive(i));
		if (!sim.loop()) return false;
		sim.check(have.size === job.total && !got.compare(job.data), 'reassembly', 'the reassembled file differs from the original');
	}
	sim.cover(jobs.length, Math.min(jobs[0].total, 12), Math.min(jobs[0].size, 100), upset ? 1 : 0, jobs[0].ls);
	return upset;
};
exports.measure = 'distinct (encoders, parts, size, upset, line size) combinations';
exports.cleanup = env => env.h.heapPlan([], -1, true);
