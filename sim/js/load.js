"use strict";
// Instances of the package's JavaScript on a given native binding, each with module state of its own.
const fs = require('fs'), path = require('path'), vm = require('vm');
const ARGS = ['exports', 'require', 'module', '__filename', '__dirname'];
// Buffer as the package finds it in older versions of Node: 1 like Node 4 (no lastIndexOf, no 64-bit reads),
// 2 like Node 0.12 (no indexOf either, no Buffer.alloc). Only what code can test for is missing; the buffers themselves are today's.
function older(age) {
	const old = function(x, enc) { return Buffer.from(x, enc); };
	for (const k of Object.getOwnPropertyNames(Buffer)) if (!/^(length|name|prototype|arguments|caller)$/.test(k) && !(age > 1 && k === 'alloc')) old[k] = Buffer[k];
	old.prototype = Object.create(Object.getPrototypeOf(Buffer.prototype));
	for (const k of Object.getOwnPropertyNames(Buffer.prototype)) if (!/^(constructor|parent|offset|lastIndexOf)$|Big/.test(k) && !(age > 1 && k === 'indexOf')) Object.defineProperty(old.prototype, k, Object.getOwnPropertyDescriptor(Buffer.prototype, k));
	for (const k of ['lastIndexOf', 'readBigInt64BE'].concat(age > 1 ? ['indexOf'] : [])) old.prototype[k] = undefined; // hides those of Uint8Array
	return old;
}
const BUFFERS = [Buffer, older(1), older(2)];
function find(p) {
	for (const f of [p, p + '.js', p + '.cjs', p + '.json', p + '/index.js']) if (fs.existsSync(f) && fs.statSync(f).isFile()) return f;
	throw new Error("Cannot find module '" + p + "'");
}
class Package {
	constructor(dir) {
		this.dir = dir; this.compiled = new Map();
		let main = 'index.js';
		try { main = JSON.parse(fs.readFileSync(dir + '/package.json', 'utf8')).main || main; } catch (e) {}
		this.main = find(path.join(dir, main));
		this.get(this.main);
	}
	get(f) {
		let c = this.compiled.get(f);
		if (!c) {
			const src = fs.readFileSync(f, 'utf8');
			if (/\.json$/.test(f)) c = (e, r, m) => { m.exports = JSON.parse(src); };
			else {
				const opt = { filename: path.relative(this.dir, f) };
				try { c = vm.compileFunction(src, ARGS.concat('Buffer'), opt); } catch (e) { c = vm.compileFunction(src, ARGS, opt); } // has a Buffer of its own
			}
			this.compiled.set(f, c);
		}
		return c;
	}
	instance(binding, age) {
		const loaded = new Map();
		const load = f => {
			let m = loaded.get(f);
			if (m) return m.exports;
			loaded.set(f, m = { exports: {} });
			const here = path.dirname(f);
			this.get(f).call(m.exports, m.exports, n => /\.node$|build\/(Release|Debug)\/yencode/.test(n) ? binding : /^\.\.?(\/|$)/.test(n) || path.isAbsolute(n) ? load(find(path.resolve(here, n))) : require(n), m, f, here, BUFFERS[age || 0]);
			return m.exports;
		};
		return load(this.main);
	}
}
module.exports = { Package };
