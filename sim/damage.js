'use strict';
// What a failing disk or an interrupted copy does to a file: pure functions of (rng, bytes, other file).
const L = require('./nload'); const TOK = ['(', ')', '"', '$', ' ', '\n', '\\', ';', '\0', '\xff', '\x80', '{', '}', '#', '*', '-', '9', '.', '%', "'", '\t', '\r', '\x1a', '\x7f', '\\\n', '(;', ';)', '/*', '*/', '//', '""', 'v128', 'i32', '0x', '-0x1p', 'nan', 'inf', '18446744073709551616', '99999999999999999999', '-1', '4294967296', '1e999', '\\u', '\\x', '\\777'];
const SECT = [16, 64, 512, 512, 4096];
function one(rng, b, other) {
  const n = b.length; if (!n) return Buffer.from(rng.pick(TOK), 'latin1'); const sz = rng.pick(SECT); const at = Math.floor(rng.int(n) / sz) * sz, end = Math.min(n, at + sz); const at2 = Math.floor(rng.int(n) / sz) * sz, end2 = Math.min(n, at2 + sz); const p = rng.int(n + 1);
  switch (rng.weighted([[3, 'torn'], [1, 'tornsector'], [2, 'zeroed'], [1, 'ones'], [2, 'lost'], [2, 'swapped'], [2, 'doubled'], [2, 'foreign'], [4, 'bits'], [4, 'token'], [4, 'number'], [2, 'item'], [2, 'erased'], [1, 'stale'], [1, 'run'], [2, 'wordlost'], [2, 'worddoubled'], [1, 'grown']])) {
    case 'torn': return b.subarray(0, p);
    case 'tornsector': return b.subarray(0, at);
    case 'zeroed': { const c = Buffer.from(b); c.fill(0, at, end); return c; }
    case 'ones': { const c = Buffer.from(b); c.fill(255, at, end); return c; }
    case 'lost': return Buffer.concat([b.subarray(0, at), b.subarray(end)]);
    case 'swapped': { const c = Buffer.from(b); const x = Buffer.from(b.subarray(at, end)); c.set(b.subarray(at2, end2).subarray(0, Math.min(x.length, end2 - at2)), at); c.set(x.subarray(0, Math.min(x.length, end2 - at2)), at2); return c; }
    case 'doubled': return Buffer.concat([b.subarray(0, end), b.subarray(at, end), b.subarray(end)]);
    case 'foreign': { const o = other && other.length ? other : b; const q = Math.floor(rng.int(o.length) / sz) * sz; return Buffer.concat([b.subarray(0, at), o.subarray(q, q + sz), b.subarray(end)]); }
    case 'bits': { const c = Buffer.from(b); for (let k = rng.weighted([[4, 1], [2, 3], [1, 20]]); k > 0; k--) { const i = rng.int(n); c[i] ^= 1 << rng.int(8); } return c; }
    case 'token': return Buffer.concat([b.subarray(0, p), Buffer.from(rng.pick(TOK), 'latin1'), b.subarray(rng.chance(0.5) ? p : Math.min(n, p + rng.range(1, 4)))]);
    case 'number': { // a number misread: another digit, or a value at the edge of some type
      const s = b.toString('latin1'); const ns = [...s.slice(p, p + 3000).matchAll(rng.chance(0.5) && s.includes('align=') ? /(?<==)\d+/g : /\d+/g)]; if (!ns.length) return b; const m = rng.chance(0.5) ? ns[0] : rng.pick(ns), a = p + m.index, e = a + m[0].length; const d = rng.int(m[0].length);
      const v = rng.chance(0.4) ? m[0].slice(0, d) + String.fromCharCode(m[0].charCodeAt(d) ^ (1 << rng.int(4))) + m[0].slice(d + 1) : rng.pick(['0', '0', '1', '2', '3', '5', '-1', '16', '17', '32', '128', '255', '65536', '2147483647', '2147483648', '4294967295', '4294967296', '9223372036854775808', '18446744073709551615', '18446744073709551616']);
      return Buffer.from(s.slice(0, a) + v + s.slice(e), 'latin1');
    }
    case 'item': { // one item of a list lost, doubled or exchanged with the next
      const s = b.toString('latin1'); const m = /[(,{]([^(),{}\n]+),([^(),{}\n]+)(?=[,)}])/.exec(s.slice(p, p + 2000)); if (!m) return b; const a = p + m.index + 1, e = p + m.index + m[0].length;
      return Buffer.from(s.slice(0, a) + rng.pick([m[1], m[2], m[2] + ',' + m[1], m[0].slice(1) + ',' + m[1], m[1] + ' ' + m[2], '']) + s.slice(e), 'latin1');
    }
    case 'erased': return Buffer.concat([b.subarray(0, p), b.subarray(Math.min(n, p + rng.weighted([[3, 1], [2, rng.range(1, 8)], [1, rng.range(1, 300)]])))]);
    case 'stale': return other && other.length ? Buffer.concat([b.subarray(0, at), other.subarray(at)]) : b.subarray(0, at);
    case 'run': return Buffer.concat([b.subarray(0, p), Buffer.from(rng.pick(TOK).repeat(rng.pick([2, 30, 300, 3000])), 'latin1'), b.subarray(p)]);
    case 'grown': return Buffer.concat([b, rng.chance(0.5) ? Buffer.alloc(rng.range(1, 600)) : b.subarray(at, end)]);
    default: { // a whole word
      const s = b.toString('latin1'); const ws = [...s.slice(Math.max(0, p - 200), p + 200).matchAll(/[^\s()]+/g)]; if (!ws.length) return b; const w = rng.pick(ws), a = Math.max(0, p - 200) + w.index, e = a + w[0].length; const x = rng.pick(ws)[0];
      return Buffer.from(s.slice(0, a) + (rng.chance(0.3) ? '' : rng.chance(0.5) ? x : w[0] + ' ' + x) + s.slice(e), 'latin1');
    }
  }
}
function damage(rng, b, other) { for (let k = rng.weighted([[5, 1], [2, 2], [1, 4]]); k > 0; k--) b = one(rng, b, other); return b; }
module.exports = { damage };
