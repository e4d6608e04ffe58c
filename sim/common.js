'use strict';
const fs = require('fs'), path = require('path');
const host = require('./host');
// per-process caches of compiled modules
const cache = new Map();
function agent(ctx, variant, maxPages) {
  const k = variant + '/' + maxPages;
  let m = cache.get(k);
  if (!m) {
    let bk = 'bin/' + variant; let bin = cache.get(bk);
    if (!bin) { bin = fs.readFileSync(path.join(ctx.dir, 'agent-' + variant + '.wasm')); cache.set(bk, bin); }
    const l = host.limitMemory(bin, maxPages === undefined ? 65536 : (min) => min + maxPages);
    m = new WebAssembly.Module(l.bin); m.minPages = l.min;
    if (cache.size > 200) cache.clear();
    cache.set(k, m);
  }
  return m;
}
class Violation extends Error { constructor(cls, msg, key) { super(msg); this.cls = cls; this.key = key; } }
function bad(cls, msg, key) { throw new Violation(cls, msg, key); }
// Runs a guest with a driver generator that may throw Violation; returns the standard result.
function runGuest(mod, w, gen, after) {
  const g = new host.Guest(mod, w);
  let violation = null, end = null;
  const st = { ops: 0 };
  try {
    end = g.run(function* (gg) {
      const it = gen(gg);
      let r = it.next();
      while (!r.done) { st.ops++; const rec = yield r.value; r = it.next(rec); }
      return r.value;
    });
    if (after) after(end, g);
  } catch (e) {
    if (e instanceof Violation) violation = { cls: e.cls, msg: e.message, key: e.key };
    else throw e;
  }
  if (!violation && end && w.anom.length) violation = { cls: 'host-misuse', msg: w.anom[0] };
  return { violation, end, hash: w.digest(), trace: w.trace, ops: st.ops, g };
}
function stats(w, res, sig, nontrivial, extra) {
  return { faults: w.fired, calls: w.nsys, simns: Number(w.rt - BigInt(w.cfg.realtime !== undefined ? w.cfg.realtime : 1700000000000000000n)), ops: res.ops, sig, nontrivial, ...extra };
}
const lat = (b) => b.toString('latin1');
const show = (s) => JSON.stringify(typeof s === 'string' ? s : lat(s)).slice(0, 120);
// errno codes a host may plausibly return
const ERRS = [2, 6, 8, 10, 20, 21, 22, 25, 27, 28, 29, 31, 32, 33, 34, 37, 41, 43, 44, 48, 51, 52, 54, 55, 58, 60, 61, 63, 64, 69, 70, 72, 73, 74, 75, 76, 19];
module.exports = { agent, Violation, bad, runGuest, stats, lat, show, ERRS, host };
