"use strict";
// Far machines: the library's native code for other architectures and build configurations, each machine a
// process of its own (executed by the host or by a CPU emulator), reached through a pipe.
const fs = require('fs');
const base = require('./env.js');
const U64 = n => { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt.asUintN(64, BigInt(n))); return b; };
const U32 = n => { const b = Buffer.alloc(4); b.writeUInt32LE(n >>> 0); return b; };
const CALL_LIMIT = 15000;
// what the processors of an architecture may be: [name, emulator arguments, hwcap, hwcap2, hwprobe]
const ARM64 = [['plain', ['-cpu', 'cortex-a57'], 2], ['crc', ['-cpu', 'cortex-a57'], 2 | 1 << 7], ['pmull', ['-cpu', 'max'], 2 | 1 << 4], ['crc+pmull', ['-cpu', 'cortex-a57'], 2 | 1 << 4 | 1 << 7], ['max', ['-cpu', 'max'], 2 | 1 << 4 | 1 << 7], ['no asimd reported', ['-cpu', 'max'], 0]];
const ARM = [['cortex-a7', ['-cpu', 'cortex-a7'], 1 << 12 | 1 << 6], ['no neon', ['-cpu', 'cortex-a7,neon=off,vfp-d32=off'], 1 << 6], ['v8', ['-cpu', 'max'], 1 << 12, 0], ['v8 crc', ['-cpu', 'max'], 1 << 12, 1 << 4], ['v8 pmull', ['-cpu', 'max'], 1 << 12, 2], ['v8 crc+pmull', ['-cpu', 'max'], 1 << 12, 1 << 4 | 2 | 1], ['v8, no neon reported', ['-cpu', 'max'], 0, 1 << 4]];
function riscv(bits) {
	const o = [], hw = 0x112d;
	const cpu = (v, c, k) => ['-cpu', 'rv' + bits + ',' + (v ? 'v=true,vext_spec=v1.0,vlen=' + v : 'v=false') + ',zbc=' + !!c + ',zbkc=' + !!k];
	for (const v of [0, 128, 256, 512, 1024]) o.push([v ? 'vlen ' + v : 'no vectors', cpu(v, 0, 0), v ? hw | 1 << 21 : hw, 0, 0]);
	o.push(['zbc', cpu(0, 1, 0), hw, 0, 1 << 7], ['zbkc', cpu(128, 0, 1), hw | 1 << 21, 0, 1 << 9], ['vlen 256 zbc zbkc', cpu(256, 1, 1), hw | 1 << 21, 0, 1 << 7 | 1 << 9]);
	return o;
}
const KIND = { arm64: ARM64, arm: ARM, riscv64: riscv(64), riscv32: riscv(32) };

class Env {
	constructor(hostDir, dir, cfg) {
		this.h = require(hostDir + '/simhost.node');
		const far = JSON.parse(fs.readFileSync(dir + '/far.json', 'utf8'));
		this.leftOut = far.left_out;
		this.features = base.hostFeatures(this.h);
		const profiles = base.PROFILES.filter(p => p.need.every(n => this.features[n]));
		const groups = {};
		this.kinds = [];
		for (const c of far.configs) {
			const exe = dir + '/bin/' + c.name;
			const put = (group, name, args, hw, rules) => {
				const k = { name: c.name + (name ? ' ' + name : ''), args: args, hw: hw || [], rules: rules || [], slack: c.noavx256 ? 32 : 64, idx: this.kinds.length, emulated: !!c.emu, win64: c.os === 'win' && c.arch === 'x64', arch: c.arch };
				this.kinds.push(k); (groups[group] = groups[group] || []).push(k);
			};
			if (c.emu) {
				for (const v of KIND[c.arch] || [['', [], 0]]) if (!c.native || v[1][1] === 'max') put(c.os === 'win' ? 'Windows' : KIND[c.arch] ? c.arch : 'other architectures', v[0], ['/usr/bin/' + c.emu, ...v[1], exe], v.slice(2));
			}
			else if (!c.native) for (const p of profiles) put(c.os === 'win' ? 'Windows' : c.arch === 'ia32' ? 'ia32' : 'x64, other builds', p.name, [exe], [], p.rules);
			else {
				put('x64, tuned builds', '', [exe]);
				const novpcl = !/icelake|sapphire|alderlake|tremont|znver[34]|native/.test(c.march);
				const pcl = novpcl && /^(nocona|core2|bonnell|x86-64.*|k8-sse3|amdfam10|btver1|nehalem)$/.test(c.march);
				if (novpcl) put('x64, tuned builds', 'without VPCLMULQDQ', [exe], [], [[7, 0, 2, ~0x400 >>> 0, 0]]);
				if (pcl) put('x64, tuned builds', 'without PCLMULQDQ', [exe], [], [[1, 0, 2, ~2 >>> 0, 0], [7, 0, 2, ~0x400 >>> 0, 0]]);
			}
		}
		this.groups = Object.keys(groups).sort().map(g => groups[g]);
		const x64 = this.kinds.filter(k => !k.emulated && k.arch === 'x64');
		this.roomyKinds = [x64.filter(k => k.win64), x64.filter(k => !k.win64)].map((l, i, a) => l.length ? l : a[1 - i]);
		this.nodes = [];
		this.reached = {};
	}
	begin(sim) { this.end(); this.sim = sim; }
	end() { for (const n of this.nodes) this.off(n); this.nodes = []; }
	off(n) { if (n.fd !== undefined) this.h.farEnd(n.fd, n.pid); n.fd = undefined; }
	// (nothing could be built: left_out says why)
	get empty() { return !this.kinds.length; }
	kind(sim) { return sim.pick(sim.pick(this.groups)); }
	// a machine is powered on and the library initialised
	boot(n) {
		this.off(n);
		const r = this.h.farSpawn(n.kind.args);
		if (!Array.isArray(r)) throw new Error('cannot start a process');
		n.fd = r[0]; n.pid = r[1];
		const k = n.kind, rules = Buffer.concat(k.rules.map(r => Buffer.concat(r.map(U32))));
		const a = this.call(n, 'B', Buffer.concat([U64(k.hw[0] || 0), U64(k.hw[1] || 0), U64(k.hw[2] || 0), Buffer.from([k.rules.length]), rules]), 'initialisation');
		n.isa = [a.readUInt32LE(0), a.readUInt32LE(4), a.readUInt32LE(8)]; n.bits = a[12] * 8; n.le = a[13]; n.ops = a.readUInt32LE(14);
		this.sim.ev('boot', k.name, ...n.isa);
		this.reached[k.name] = 1;
		return n;
	}
	node(kind) { const n = { kind: kind, name: kind.name }; this.nodes.push(n); return this.boot(n); }
	call(n, op, body, what) {
		const limit = op === 'H' ? 4 * CALL_LIMIT : CALL_LIMIT;
		const r = this.h.farCall(n.fd, Buffer.concat([Buffer.from(op), body]), limit);
		if (typeof r !== 'number') return r;
		const how = this.h.farEnd(n.fd, n.pid, r === -1 ? 2000 : 0); n.fd = undefined;
		if (r === -2) this.sim.fail('hang', what + ' did not return within ' + limit / 1000 + ' s [' + n.name + ']');
		if (how === 120 || how === 121) { console.error('cannot execute ' + n.kind.args.join(' ')); process.exit(7); }
		this.sim.fail('crash', what + ' ended the process (' + (how >= 1000 ? 'signal ' + (how - 1000) : how < 0 ? 'ended' : 'exit ' + how) + ') [' + n.name + ']');
	}
	info() {
		return { machines: this.kinds.map(k => k.name), native: true, configurations_left_out: this.leftOut };
	}
	// machines which can be given buffers beyond 2 GiB
	roomy(sim) { return sim.pick(this.roomyKinds[sim.draw(2)]); }
	get native() { return true; }
}
module.exports = { Env, U32, U64 };
