'use strict';
// Small seeded PRNG (sfc32) with generator helpers. Every random choice of the checks goes through it.
function hash(str) {
  let h = 1779033703 ^ str.length;
  for (let i = 0; i < str.length; i++) {
    h = Math.imul(h ^ str.charCodeAt(i), 3432918353);
    h = (h << 13) | (h >>> 19);
  }
  return () => {
    h = Math.imul(h ^ (h >>> 16), 2246822507);
    h = Math.imul(h ^ (h >>> 13), 3266489909);
    return (h ^= h >>> 16) >>> 0;
  };
}
class Rng {
  constructor(seed) {
    const s = hash(String(seed));
    this.a = s(); this.b = s(); this.c = s(); this.d = s();
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    let { a, b, c, d } = this;
    const t = (((a + b) | 0) + d) | 0;
    this.d = (d + 1) | 0;
    this.a = b ^ (b >>> 9);
    this.b = (c + (c << 3)) | 0;
    c = (c << 21) | (c >>> 11);
    this.c = (c + t) | 0;
    return t >>> 0;
  }
  float() { return this.u32() / 4294967296; }
  int(lo, hi) { return lo + Math.floor(this.float() * (hi - lo + 1)); } // inclusive
  num(lo, hi, dec = 2) { const p = 10 ** dec; return Math.round((lo + this.float() * (hi - lo)) * p) / p; }
  bool(p = 0.5) { return this.float() < p; }
  pick(arr) { return arr[this.int(0, arr.length - 1)]; }
  wpick(pairs) { // [[weight, value], ...]
    let t = this.float() * pairs.reduce((s, p) => s + p[0], 0);
    for (const [w, v] of pairs) { if ((t -= w) < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(arr) {
    const a = arr.slice();
    for (let i = a.length - 1; i > 0; i--) { const j = this.int(0, i); [a[i], a[j]] = [a[j], a[i]]; }
    return a;
  }
  sample(arr, n) { return this.shuffle(arr).slice(0, n); }
  subset(arr, p = 0.5) { return arr.filter(() => this.bool(p)); }
  times(n, f) { return Array.from({ length: n }, (_, i) => f(i)); }
}
module.exports = { Rng };
