"use strict";
// C18: a farm whose nodes are of different architectures and builds works on streams together: pieces are
// handed out over a lossy network, nodes crash and restart, work moves, and state (column, decoder state, CRC)
// travels between the nodes.
const M = require('../model.js'), G = require('../gen.js'), O = require('../ops.js');
const { U32, U64 } = require('../env18.js');
const { diffAt } = require('../stream.js');
exports.rule = 'a case is one simulated run: 2-4 nodes of drawn architectures, builds and processor features work on 2-4 streams (encoding, decoding with and without end search and dot removal, CRC) whose pieces are handed out over a network which loses, repeats, delays and reorders, with nodes that crash, restart and are replaced, and the state after a piece travelling to whichever node takes the next; plus CRC arithmetic; non-trivial if at least two kinds of machine did work; distinct by the hash of its event history';
exports.quick = 30000;
exports.thorough = 600000;
exports.chunk = 40;
exports.variant = 'far';
exports.envModule = './env18.js';
exports.measure = 'distinct (kind of machine, operation, length, state or column class, alignment) combinations';
exports.real = ['src/*.cc encoder, decoder, CRC kernels, dispatch and crcutil, compiled for each architecture/configuration with the flags of binding.gyp'];
exports.stubs = ['the foreign processor (qemu user mode emulation; x86 runs on the host), libc (small runtime, except for 64-bit x86), getauxval/riscv_hwprobe/cpuid answers, Node (yencode.cc and index.js are not part of these machines)'];
exports.assumptions = ['qemu executes the foreign instruction sets correctly; the cross compiler translates correctly', 'yencode.cc and index.js are architecture independent (they are checked on x86 by the other properties)', 'sampling: a clean batch is evidence, not proof'];
exports.cleanup = env => env.end();

function place(sim) {
	const mode = sim.draw(3) === 2 ? 1 : 0;
	let gap = sim.weighted([[3, 0], [2, -1], [2, -2]]);
	if (gap === -1) gap = sim.draw(66); else if (gap === -2) gap = 512 + sim.draw(128);
	const poison = sim.draw(6);
	const b = Buffer.alloc(4); b[0] = mode; b[1] = poison; b.writeUInt16LE(gap, 2);
	b.text = mode ? 'start+' + gap : 'end-' + gap; b.key = mode * 64 + (gap & 63);
	return b;
}
function check(sim, cls, got, exp, where) {
	if (got.length !== exp.length) sim.fail(cls, 'result has ' + got.length + ' bytes, not ' + exp.length + ' (first difference at ' + diffAt(got, exp) + ')' + where);
	if (Buffer.compare(got, exp)) sim.fail(cls, 'bytes differ at ' + diffAt(got, exp) + ' of ' + exp.length + where);
}
function clean(sim, changed, stray, where) {
	if (changed) sim.fail('input-changed', 'the input was modified' + where);
	if (stray) sim.fail('stray-write', 'bytes ' + (stray & 5 ? 'before' : 'after') + ' the ' + (stray & 15 ? 'input' : 'output') + ' buffer were changed' + where);
}
// ---- one piece of work on a node; every result is checked. Returns the state for the next piece
function encode(sim, env, n, data, ls, col, end) {
	const o = []; const c = M.encode(data, ls, col, end, o);
	if (!(n.ops & 1)) return c; // the library does not offer it under this name
	const exp = Buffer.from(o);
	let cap = 2 * data.length + 2 + n.kind.slack + 2 * (ls === 128 ? data.length >> 6 : Math.floor(2 * data.length / ls));
	const a = place(sim), b = place(sim);
	const where = ' [' + n.name + ', encode, ' + data.length + ' bytes at ' + a.text + ', line size ' + ls + ', column ' + col + (end ? ', end' : '') + ']';
	const r = env.call(n, 'E', Buffer.concat([U32(ls), U32(col), Buffer.from([end ? 1 : 0]), U32(cap), a, b, U32(data.length), data]), 'encode' + where);
	const out = r.subarray(10);
	sim.ev('encode', n.name, a.text, b.text, data, ls, col, end, r.readUInt32LE(0), r.readUInt32LE(4), out);
	if (r.readUInt32LE(0) !== exp.length) sim.fail('encode', 'length ' + r.readUInt32LE(0) + ', not ' + exp.length + ' (first difference at ' + diffAt(out, exp) + ')' + where);
	check(sim, 'encode', out, exp, where);
	if (!end && r.readUInt32LE(4) !== c) sim.fail('column', 'column ' + r.readUInt32LE(4) + ', not ' + c + where);
	clean(sim, r[8], r[9], where);
	sim.cover(n.kind.idx, 1 + (end ? 1 : 0), Math.min(data.length, 300), Math.min(ls, 300) * 512 + Math.min(col, 300), a.key);
	return c;
}
const ST = M.STR.map(s => JSON.stringify(s));
function decode(sim, env, n, data, mode, state, mstate, withState) {
	// mode 0: plain, 1: removing dots, 2: with end search
	const o = [];
	let e;
	if (mode === 2) e = M.decodeEnd(data, mstate, o); else e = { read: data.length, state: M.decodeNoEnd(data, mode === 1, mstate, o), ended: 0 };
	if (!(n.ops & (mode === 2 ? 4 : 2))) return { state: e.state, mstate: e.state, read: e.read, ended: e.ended };
	const exp = Buffer.from(o), inplace = sim.chance(1, 4);
	const a = place(sim), b = place(sim);
	const where = ' [' + n.name + ', decode ' + ['plain', 'removing dots', 'with end search'][mode] + ', ' + data.length + ' bytes at ' + a.text + (inplace ? ' in place' : '') + ', after ' + ST[state] + ']';
	const r = env.call(n, mode === 2 ? 'X' : 'D', Buffer.concat([Buffer.from([mode === 1 ? 1 : 0, withState ? 1 : 0, state, inplace ? 1 : 0]), a, b, U32(data.length), data]), 'decode' + where);
	const out = r.subarray(12), len = r.readUInt32LE(0), used = r.readUInt32LE(4);
	sim.ev('decode', n.name, mode, a.text, b.text, inplace, data, state, len, used, r[8], r[9], out);
	if (mode === 2 && r[8] !== e.ended) sim.fail('ended', 'the end found is ' + r[8] + ', not ' + e.ended + where);
	if (len !== exp.length) sim.fail('decode', 'length ' + len + ', not ' + exp.length + ' (first difference at ' + diffAt(out, exp) + ')' + where);
	check(sim, 'decode', out, exp, where);
	if (mode === 2 && used !== e.read) sim.fail('decode', 'consumed ' + used + ', not ' + e.read + where);
	let st = r[9];
	if (mode === 2) { if (!e.ended && st !== e.state) sim.fail('state', 'state ' + (ST[st] || st) + ', not ' + ST[e.state] + where); }
	else if (withState) {
		if (st > 6 || O.canon(mode === 1, st) !== O.canon(mode === 1, e.state)) sim.fail('state', 'state ' + (ST[st] || st) + ' does not stand for ' + ST[e.state] + where);
	}
	clean(sim, r[10], r[11], where);
	sim.cover(n.kind.idx, 8 + mode, Math.min(data.length, 200), state * 8 + e.state + e.ended * 64, a.key);
	return { state: st, mstate: e.state, read: e.read, ended: e.ended };
}
function crc(sim, env, n, data, init) {
	const exp = M.crc32(data, init);
	if (!(n.ops & 8)) return exp;
	const a = place(sim);
	const where = ' [' + n.name + ', CRC of ' + data.length + ' bytes at ' + a.text + ' from ' + init.toString(16) + ']';
	const r = env.call(n, 'C', Buffer.concat([U32(init), a, U32(data.length), data]), 'crc32' + where);
	sim.ev('crc', n.name, a.text, data, init, r.readUInt32LE(0));
	if (r.readUInt32LE(0) !== exp) sim.fail('crc', r.readUInt32LE(0).toString(16) + ', not ' + exp.toString(16) + where);
	clean(sim, r[4], 0, where);
	sim.cover(n.kind.idx, 16, Math.min(data.length, 300), init ? 1 : 0, a.key);
	return exp;
}
const LEN = [0, 1, 2, 3, 7, 8, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x1ffffffff, 2 ** 40 + 12345, 2 ** 45 - 1];
function arith(sim, env, n, x, y, len) {
	const f = sim.draw(7);
	if (!(n.ops & 16 << f)) return 0;
	let exp;
	const L = BigInt(len);
	switch (f) {
		case 0: exp = M.combine(x, y, len); break;
		case 1: exp = M.zeroes(x, len); break;
		case 2: exp = (~M.mul(~x >>> 0, M.xpow(-L * 8n))) >>> 0; break;
		case 3: exp = M.mul(x, y); break;
		case 4: exp = M.shift(x, y); break;
		case 5: exp = M.xpow(L); break;
		default: exp = M.xpow(L * 8n);
	}
	const r = env.call(n, 'A', Buffer.concat([Buffer.from([f]), U32(x), U32(y), U64(len)]), 'CRC arithmetic').readUInt32LE(0);
	const name = ['combine', 'zeros', 'unzero', 'multiply', 'shift', '2pow', '256pow'][f];
	sim.ev(name, n.name, x, y, len, r);
	if (r !== exp) sim.fail('crc', 'crc32_' + name + ' of ' + x.toString(16) + ', ' + y.toString(16) + ', ' + len + ' is ' + r.toString(16) + ', not ' + exp.toString(16) + ' [' + n.name + ']');
	sim.cover(n.kind.idx, 32 + f, Math.min(len, 300), 0, 0);
	return r;
}
function u32(sim) { return sim.chance(1, 4) ? sim.pick([0, 1, 0x80000000, 0xffffffff, 0x7fffffff, 0xfffffffe]) : sim.draw(0x100000000); }
function someLen(sim) { return sim.chance(1, 2) ? sim.pick(LEN) : sim.chance(1, 2) ? sim.draw(100000) : sim.draw(0x100000000) * sim.range(1, 4096) + sim.draw(0x100000000); }

// ---- buffers beyond 2 or 4 GiB, on machines of either data model: zeros, then a tail
function huge(sim, env) {
	const n = env.node(env.roomy(sim)), f = sim.pick(['E', 'D', 'X', 'C']), raw = sim.draw(2);
	if (!(n.ops & { E: 1, D: 2, X: 4, C: 8 }[f])) return;
	sim.fault('buffer beyond 2 GiB');
	const base = f === 'E' ? 2147483648 : sim.pick([2147483648, 4294967296]);
	const tail = f === 'E' || f === 'C' ? G.bytes(sim, sim.range(1, 100000)) : G.wire(sim, sim.range(1, 100000), f === 'X');
	const zeros = base + sim.range(-tail.length, sim.pick([10, 200000])), total = zeros + tail.length;
	const ls = sim.pick([128, 64, 200, 10]), end = f === 'E' && sim.chance(1, 2), init = f === 'C' && sim.chance(1, 2) ? u32(sim) : 0;
	let exp = Buffer.alloc(0), count = 0, col = 0, st = 0, ended = 0, used = total, cap = 0;
	const o = [];
	if (f === 'E') { // a zero becomes an asterisk: from the second line on the output of ls of them repeats
		const small = k => { const o = [], m = k > 4 * ls ? Math.floor(k / ls) - 3 : 0; const c = M.encode(Buffer.alloc(k - m * ls), ls, 0, false, o); return { c: c, n: o.length + m * (ls + 2) }; };
		const s = small(zeros - 2000);
		col = M.encode(Buffer.concat([Buffer.alloc(2000), tail]), ls, s.c, end, o);
		count = s.n + o.length; cap = M.maxSize(total, ls) + 64;
		exp = Buffer.from(o);
	} else if (f === 'C') col = 0;
	else {
		cap = total;
		const all = Buffer.concat([Buffer.alloc(2000), tail]);
		if (f === 'D') M.decodeNoEnd(all, raw === 1, 0, o);
		else { const e = M.decodeEnd(all, 0, o); st = e.state; ended = e.ended; used = zeros - 2000 + e.read; }
		count = zeros - 2000 + o.length;
		exp = Buffer.from(o);
	}
	const where = ' [' + n.name + ', ' + { E: 'encode', D: 'decode', X: 'decode with end search', C: 'CRC' }[f] + ' of ' + total + ' bytes]';
	sim.ev('huge', n.name, f, raw, zeros, tail, ls, end, init);
	const r = env.call(n, 'H', Buffer.concat([Buffer.from(f), Buffer.from([raw]), U32(ls), U32(0), Buffer.from([end ? 1 : 0]), U32(init), U64(zeros), U64(cap), U32(tail.length), tail]), 'a call with a huge buffer' + where);
	if (r[0]) { sim.probe('not enough address space'); return; }
	sim.counts.calls++; sim.counts.bytes += total;
	sim.cover(n.kind.idx, 48 + 'EDXC'.indexOf(f), base > 3e9 ? 1 : 0, raw, ls);
	const got = Number(r.readBigUInt64LE(1)), gused = Number(r.readBigUInt64LE(9)), out = r.subarray(27);
	if (f === 'C') {
		const want = M.crc32(tail, M.zeroes(init, zeros));
		if (r.readUInt32LE(23) !== want) sim.fail('crc', r.readUInt32LE(23).toString(16) + ', not ' + want.toString(16) + where);
		return;
	}
	if (got !== count) sim.fail(f === 'E' ? 'encode' : 'decode', 'length ' + got + ', not ' + count + where);
	const last = Math.min(out.length, exp.length);
	check(sim, f === 'E' ? 'encode' : 'decode', out.subarray(out.length - last), exp.subarray(exp.length - last), ' of the last ones' + where);
	if (f === 'E' && !end && r.readUInt32LE(17) !== col) sim.fail('column', 'column ' + r.readUInt32LE(17) + ', not ' + col + where);
	if (f === 'X' && (r[22] !== ended || gused !== used || (!ended && r[21] !== st))) sim.fail('ended', 'end ' + r[22] + ', consumed ' + gused + ', not ' + ended + ', ' + used + where);
}

exports.run = function(sim, env) {
	if (env.empty) return false;
	if (sim.chance(1, 900) && env.roomyKinds[0].length) { huge(sim, env); env.end(); return true; }
	const NN = sim.range(2, 4), nodes = [];
	for (let i = 0; i < NN; i++) nodes.push({ i: i, m: env.node(env.kind(sim)), epoch: 0, up: true });
	const worked = new Set();
	const big = sim.chance(1, 40);
	const max = big ? 60000 : 1500;
	// the streams, cut to pieces; the pieces of one stream are done in order, wherever
	const S = sim.range(2, 4), streams = [];
	for (let i = 0; i < S; i++) {
		const kind = sim.draw(8);
		const s = { i: i, at: 0, seq: 0, done: false, kind: kind < 3 ? 'encode' : kind < 7 ? 'decode' : 'crc' };
		if (s.kind === 'encode') {
			s.ls = O.lineSize(sim); s.col = sim.chance(1, 2) ? 0 : O.column(sim, s.ls);
			s.data = G.bytes(sim, G.length(sim, max)); s.finish = sim.chance(1, 2);
		} else if (s.kind === 'decode') {
			s.mode = sim.draw(3); s.state = s.mstate = 0;
			s.data = G.wire(sim, G.length(sim, max), s.mode === 2 || sim.chance(1, 2));
		} else { s.data = G.bytes(sim, G.length(sim, max)); s.crc = sim.chance(1, 2) ? 0 : u32(sim); }
		s.pieces = G.cuts(sim, s.data, big ? 12 : 40).filter((n, k) => n > 0 || k % 3 === 0);
		streams.push(s);
	}
	const delay = sim.pick([[1, 5], [1, 60], [10, 400]]);
	const p = { loss: sim.pick([0, 0, 6, 20]), dup: sim.pick([0, 0, 8]), crash: sim.pick([0, 0, 12, 30]) };
	const pct = n => n > 0 && sim.chance(n, 100);
	const net = (what, fn) => {
		if (pct(p.loss)) { sim.fault('message lost'); return; }
		sim.at(sim.range(delay[0], delay[1]), fn);
		if (pct(p.dup)) { sim.fault('message repeated'); sim.at(sim.range(delay[0], delay[1] * 3), fn); }
	};
	const upNode = () => { const u = nodes.filter(n => n.up); return u.length ? sim.pick(u) : null; };
	function crash(n) {
		sim.fault('node crashed'); n.up = false; n.epoch++;
		env.off(n.m);
		sim.at(sim.range(1, 300), () => {
			if (sim.chance(1, 4)) { sim.fault('node replaced'); n.m = env.node(env.kind(sim)); } else env.boot(n.m);
			n.up = true;
		});
	}
	// the coordinator hands out the next piece of a stream, again if no answer comes
	function hand(s) {
		if (s.done) return;
		if (s.seq >= s.pieces.length) { s.done = true; return; }
		const seq = s.seq, at = s.at, piece = s.data.subarray(at, at + s.pieces[seq]);
		const job = { seq: seq, state: s.state, mstate: s.mstate, col: s.col, crc: s.crc, last: seq === s.pieces.length - 1 };
		const n = upNode();
		if (n) net('job', () => work(n, s, job, piece, at));
		sim.at(delay[1] * 4 + 50, () => { if (!s.done && s.seq === seq) { sim.fault('handed out again'); hand(s); } });
	}
	function work(n, s, job, piece, at) {
		if (!n.up) { sim.fault('message to a node which is down'); return; }
		if (pct(p.crash)) { crash(n); return; }
		worked.add(n.m.kind.idx);
		const epoch = n.epoch;
		const res = perform(n.m, s, job, piece, at);
		sim.counts.calls++; sim.counts.bytes += piece.length;
		if (pct(p.crash)) { net('answer', () => answer(s, job, res, piece)); crash(n); return; }
		net('answer', () => answer(s, job, res, piece));
	}
	function perform(m, s, job, piece, at) {
		if (s.kind === 'encode' && !piece.length) return { col: job.col };
		if (s.kind === 'encode') return { col: encode(sim, env, m, piece, s.ls, job.col, s.finish && job.last) };
		if (s.kind === 'crc') return { crc: piece.length || sim.chance(1, 2) ? crc(sim, env, m, piece, job.crc) : job.crc };
		if (!piece.length) return { state: job.state, mstate: job.mstate, read: 0, ended: 0 };
		const withState = !(at === 0 && s.mode !== 2 && job.last && job.state === 0);
		return decode(sim, env, m, piece, s.mode, job.state, job.mstate, withState);
	}
	function answer(s, job, res, piece) {
		if (s.done || s.seq !== job.seq) { sim.probe('late answer'); return; }
		s.seq++; s.at += piece.length;
		if (s.kind === 'encode') s.col = res.col;
		else if (s.kind === 'crc') s.crc = res.crc;
		else {
			s.state = res.state; s.mstate = res.mstate;
			if (res.ended) { // what follows is another article or control line: start afresh behind it
				sim.probe('end found');
				s.at += res.read - piece.length;
				s.state = s.mstate = 0;
				const rest = s.data.length - s.at;
				s.pieces = s.pieces.slice(0, s.seq);
				if (rest > 0) { const k = sim.range(1, rest); s.pieces.push(k); if (rest > k) s.pieces.push(rest - k); }
			}
		}
		hand(s);
	}
	for (const s of streams) sim.at(sim.draw(50), () => hand(s));
	// meanwhile, CRC arithmetic
	const A = sim.draw(6);
	for (let i = 0; i < A; i++) sim.at(sim.draw(400), () => {
		const n = upNode(); if (!n) return;
		worked.add(n.m.kind.idx);
		const x = u32(sim), y = u32(sim);
		const k = sim.range(1, 3);
		for (let j = 0; j < k; j++) arith(sim, env, n.m, x, y, someLen(sim));
	});
	// faults stop; everything must come to an end
	sim.at(3000, () => { p.loss = p.dup = p.crash = 0; });
	if (!sim.loop()) sim.fail('progress', 'the streams did not come to an end');
	for (const s of streams) if (!s.done) sim.fail('progress', 'a stream was not finished');
	env.end();
	return worked.size > 1;
};
