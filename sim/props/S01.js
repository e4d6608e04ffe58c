'use strict';
const { agent, bad, runGuest, stats, host } = require('../common');
const { Engine, genPut, genMode } = require('../wstream');
module.exports = {
  id: 'S01', runs: { quick: 28000, thorough: 300000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run opens up to 17 file streams besides stdout and stderr in every writing mode, sets random buffering, and mixes putc/fputc/fputs/puts/fwrite/printf/fprintf of aperiodic bytes with flushes and closes, under a memory limit that may leave nothing for buffers; each host write is matched at once against what the program wrote. Non-trivial: at least 200 bytes were written and a flush, close or program end was checked. Distinct by plan.',
  real: ['lib/src/stdio.c', 'lib/src/stdlib.c', 'lib/src/fcntl.c', 'lib/src/unistd.c', 'lib/src/crt.*.c'], stub: ['WASI host and file system (in-memory simulator)'],
  gen(rng) {
    const cfg = { out: rng.pick(['pipe', 'file', 'tty', 'filea']), err: rng.pick(['pipe', 'tty', 'file']), variant: rng.pick(['main0', 'main0', 'void', 'main4k']), pages: rng.chance(0.25) ? rng.int(3) : 40 };
    const ops = []; const nf = rng.weighted([[3, 1], [3, rng.range(2, 4)], [1, rng.range(5, 18)]]);
    const live = [1, 2]; const existing = [];
    for (let i = 0; i < 3; i++) if (rng.chance(0.4)) existing.push(['f' + i, 'old-content-' + 'z'.repeat(rng.size(1500))]);
    if (cfg.pages < 3 && rng.chance(0.7)) ops.push({ o: 'eat' });
    const n = rng.weighted([[2, rng.range(3, 12)], [3, rng.range(10, 50)], [1, rng.range(50, 120)]]);
    let nf2 = 0; const fresh = new Set([1, 2]);
    const open = () => { const s = 3 + nf2; ops.push({ o: 'open', s, p: 'f' + (rng.chance(0.8) ? nf2 : rng.int(nf2 + 1)), m: rng.pick(['w', 'w', 'a', 'wx', 'w+', 'a+', 'wb', 'ab', 'w+x']) }); live.push(s); fresh.add(s); nf2++; };
    if (rng.chance(0.05)) while (nf2 < 17) open(); else open(); // now and then every stream there is
    for (let i = 0; i < n; i++) {
      const s = rng.pick(live);
      if (nf2 < nf && rng.chance(0.3)) open();
      else if (fresh.has(s) && rng.chance(0.4)) { ops.push(genMode(rng, s)); fresh.delete(s); } else switch (rng.int(12)) {
        case 0: ops.push({ o: 'flush', s }); break;
        case 1: ops.push({ o: 'flush', s: -1 }); break;
        case 2: if (s > 2) { ops.push({ o: 'close', s }); if (rng.chance(0.5)) { ops.push({ o: 'open', s, p: 'f' + (s - 3), m: rng.pick(['a', 'w', 'a+']) }); fresh.add(s); } } break;
        default: fresh.delete(s); ops.push(genPut(rng, s, { perror: true })); if (rng.chance(0.3)) ops.push(genPut(rng, s, { small: true }));
      }
    }
    return { cfg, existing, ops, end: rng.pick(['return', 'return', 'exit']), code: rng.int(256) };
  },
  *simplify(p) {
    if (p.cfg.variant !== 'main0' || p.cfg.out !== 'pipe' || p.cfg.err !== 'pipe') yield { ...p, cfg: { ...p.cfg, variant: 'main0', out: 'pipe', err: 'pipe' } };
    if (p.existing.length) yield { ...p, existing: [] };
    for (let i = 0; i < p.ops.length; i++) if (p.ops[i].o === 'put') {
      for (const l of [p.ops[i].len >> 1, p.ops[i].len - 1]) if (l >= 0 && l < p.ops[i].len) { const ops = p.ops.slice(); ops[i] = { ...ops[i], len: l }; yield { ...p, ops }; }
      if (p.ops[i].nl) { const ops = p.ops.slice(); ops[i] = { ...ops[i] }; delete ops[i].nl; yield { ...p, ops }; }
    }
  },
  run(plan, ctx) { return runWriter(plan, ctx, {}); },
};
function mkWorld(plan) {
  const c = plan.cfg; const kind = (k) => k === 'filea' ? { kind: 'file', append: true, data: 'earlier' } : { kind: k };
  const w = new host.World({ std: { 0: c.inp || {}, 1: kind(c.out), 2: kind(c.err) } });
  for (const [p, d] of plan.existing || []) w.fs.mkpath(p, 'file', d);
  return w;
}
function runWriter(plan, ctx, opts) {
  const w = mkWorld(plan);
  const e = new Engine(w, { lowmem: plan.cfg.pages < 3, ...opts });
  const res = runGuest(agent(ctx, plan.cfg.variant, plan.cfg.pages), w, function* (g) {
    yield* e.start(g);
    if (opts.begin) yield* opts.begin(g, e, plan);
    for (const op of plan.ops) { const h = opts.op && opts.op(op, e, g); if (h) yield* h; else yield* e.exec(op); }
    w.fs.quota = Infinity;
    if (plan.end === 'exit') yield { op: 151, a: [plan.code] };
    return plan.code;
  }, (end) => {
    if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp));
    e.final(plan.end === 'exit' ? 'exit' : 'return from main');
    const code = end.end === 'exit' ? end.code : 0;
    if (code !== (plan.cfg.variant === 'void' && false ? 0 : plan.code)) bad('status', 'exit status ' + code + ' instead of ' + plan.code);
  });
  let bytes = 0; for (const s of e.streams.values()) bytes += s.wlen;
  return { violation: res.violation, hash: res.hash, trace: res.trace, engine: e, world: w,
    stats: stats(w, res, JSON.stringify([plan.cfg, plan.ops, plan.end]), opts.nontrivial ? opts.nontrivial(e, w) : bytes >= 200, { probes: { ...e.probes, bytes, no_memory: e.eaten ? 1 : 0 } }) };
}
module.exports.runWriter = runWriter;
