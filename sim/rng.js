'use strict';
// Seeded PRNG (sfc32). Every choice of a run is drawn from one of these.
function hash32(str, h = 0x811c9dc5) {
  for (let i = 0; i < str.length; i++) { h ^= str.charCodeAt(i); h = Math.imul(h, 0x01000193); }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}
class Rng {
  constructor(seed) {
    this.seed = String(seed);
    this.a = hash32(this.seed, 1); this.b = hash32(this.seed, 2);
    this.c = hash32(this.seed, 3); this.d = 1;
    for (let i = 0; i < 16; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  int(n) { return n <= 0 ? 0 : Math.floor(this.f() * n); }          // 0..n-1
  range(a, b) { return a + this.int(b - a + 1); }                   // a..b
  chance(p) { return this.f() < p; }
  pick(arr) { return arr[this.int(arr.length)]; }
  weighted(pairs) { // [[weight, value]...]
    let s = 0; for (const [w] of pairs) s += w;
    let x = this.f() * s;
    for (const [w, v] of pairs) { if ((x -= w) < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) { for (let i = arr.length - 1; i > 0; i--) { const j = this.int(i + 1); const t = arr[i]; arr[i] = arr[j]; arr[j] = t; } return arr; }
  // sizes biased to small values and to powers of two +-1
  size(max) {
    switch (this.int(5)) {
      case 0: return this.int(Math.min(max, 4) + 1);
      case 1: return this.int(Math.min(max, 64) + 1);
      case 2: { const p = 1 << this.int(Math.floor(Math.log2(Math.max(2, max))) + 1); return Math.max(0, Math.min(max, p + this.range(-1, 1))); }
      case 3: return this.int(max + 1);
      default: return this.int(Math.min(max, 1100) + 1);
    }
  }
}
module.exports = { Rng, hash32 };
