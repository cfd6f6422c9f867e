"use strict";
// Small executable reference models: the yEnc draft 1.3 and NNTP rules, written byte by byte.

// decoder states, in the order of the native enumeration
const S = { CRLF: 0, EQ: 1, CR: 2, NONE: 3, CRLFDT: 4, CRLFDTCR: 5, CRLFEQ: 6 };
const STR = ['\r\n', '=', '\r', '', '\r\n.', '\r\n.\r', '\r\n='];
const ENDSTR = [null, '\r\n=y', '\r\n.\r\n'];

// streaming decoder with end detection: consumes from data[pos], appends to out[], returns {read, state, ended}
function decodeEnd(data, state, out) {
	let n = 0, o = out.length;
	const len = data.length;
	for (let i = 0; i < len; i++) {
		const b = data[i];
		n = i + 1;
		let plain = false;
		switch (state) {
			case 6: // \r\n=
				if (b === 0x79) return { read: n, state: 3, ended: 1 };
				// fall through
			case 1: out[o++] = (b - 106) & 255; state = b === 13 ? 2 : 3; break;
			case 2: if (b === 10) state = 0; else plain = true; break;
			case 0: if (b === 0x2e) state = 4; else if (b === 0x3d) state = 6; else plain = true; break;
			case 4: if (b === 13) state = 5; else if (b === 0x3d) state = 6; else plain = true; break;
			case 5: if (b === 10) return { read: n, state: 0, ended: 2 }; plain = true; break;
			default: plain = true;
		}
		if (plain) {
			if (b === 13) state = 2;
			else if (b === 10) state = 3;
			else if (b === 0x3d) state = 1;
			else { out[o++] = (b - 42) & 255; state = 3; }
		}
	}
	return { read: len, state: state, ended: 0 };
}
// decoder without end detection; raw: NNTP dot unstuffing
function decodeNoEnd(data, raw, state, out) {
	let o = out.length;
	for (let i = 0; i < data.length; i++) {
		const b = data[i];
		if (state === 1 || state === 6) { out[o++] = (b - 106) & 255; state = b === 13 && raw ? 2 : 3; continue; }
		if (raw) {
			if (state === 2 && b === 10) { state = 0; continue; }
			if (state === 0 && b === 0x2e) { state = 4; continue; }
		}
		if (b === 13) state = raw ? 2 : 3;
		else if (b === 10) state = 3;
		else if (b === 0x3d) state = 1;
		else { out[o++] = (b - 42) & 255; state = 3; }
	}
	return state;
}
// encoder: returns {out: number[], col}; end: the data is final (a trailing tab/space is escaped)
function encode(data, lineSize, col, end, out) {
	let o = out.length, esc = false;
	for (let i = 0; i < data.length; i++) {
		if (col >= lineSize) { out[o++] = 13; out[o++] = 10; col = 0; }
		const c = (data[i] + 42) & 255;
		esc = c === 0 || c === 10 || c === 13 || c === 61;
		if (!esc) {
			if (col === 0) esc = c === 9 || c === 32 || c === 46;
			else if (col === lineSize - 1) esc = c === 9 || c === 32;
		}
		if (esc) { out[o++] = 61; out[o++] = (c + 64) & 255; col += 2; }
		else { out[o++] = c; col++; }
	}
	if (end && data.length && !esc) {
		const c = out[o - 1];
		if (c === 9 || c === 32) { out[o - 1] = 61; out[o++] = c + 64; col++; }
	}
	return col;
}

// ---- CRC-32 (IEEE), bit order as in the usual reflected representation
const T = new Uint32Array(256);
for (let i = 0; i < 256; i++) { let c = i; for (let k = 0; k < 8; k++) c = c & 1 ? (c >>> 1) ^ 0xedb88320 : c >>> 1; T[i] = c >>> 0; }
function crc32(data, init) {
	let c = ~(init || 0);
	for (let i = 0; i < data.length; i++) c = T[(c ^ data[i]) & 255] ^ (c >>> 8);
	return ~c >>> 0;
}
// replaces the last four bytes so that the CRC becomes target
function forge(data, target) {
	const n = data.length - 4; if (n < 0) return data;
	const b = Buffer.from(data);
	let c = ~crc32(b.subarray(0, n)) >>> 0, w = ~target >>> 0;
	const idx = [];
	for (let k = 0; k < 4; k++) for (let i = 0; i < 256; i++) if ((T[i] >>> 24) === (w >>> 24)) { idx.unshift(i); w = ((w ^ T[i]) << 8) >>> 0; break; }
	for (let k = 0; k < 4; k++) { b[n + k] = (c ^ idx[k]) & 255; c = (c >>> 8) ^ T[idx[k]]; }
	return b;
}
// product in GF(2)[x]/P, reflected: bit 31 is x^0
function mul(a, b) {
	let r = 0;
	for (let i = 31; i >= 0; i--) {
		if ((b >>> i) & 1) r ^= a;
		a = a & 1 ? (a >>> 1) ^ 0xedb88320 : a >>> 1;
	}
	return r >>> 0;
}
const ORDER = 0xffffffffn; // x^(2^32-1) = 1
const POW = []; // x^(2^k)
{ let p = 0x40000000; for (let k = 0; k < 32; k++) { POW.push(p); p = mul(p, p); } }
function xpow(n) { // n: BigInt, may be negative
	n = ((n % ORDER) + ORDER) % ORDER;
	let r = 0x80000000, e = Number(n), k = 0;
	while (e > 0) { if (e % 2) r = mul(r, POW[k]); e = Math.floor(e / 2); k++; }
	return r >>> 0;
}
function combine(c1, c2, len) { return (mul(c1, xpow(BigInt(len) * 8n)) ^ c2) >>> 0; }
function zeroes(c, len) { return ~mul(~c >>> 0, xpow(BigInt(len) * 8n)) >>> 0; }
function shift(c, n) { return mul(c, xpow(BigInt(n))); }

function maxSize(len, ls) { return len ? 2 * len + 2 * Math.floor(2 * len / (ls || 128)) + 66 : 0; }

// the shortest article of that many bytes: nothing escaped, line breaks only between lines
function minSize(len, ls) { return len ? len + 2 * (Math.ceil(len / (ls || 128)) - 1) : 0; }
module.exports = { S, STR, ENDSTR, decodeEnd, decodeNoEnd, encode, crc32, forge, mul, xpow, combine, zeroes, shift, maxSize, minSize };
