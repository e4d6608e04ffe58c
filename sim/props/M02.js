'use strict';
const { agent, bad, runGuest, stats, host } = require('../common');
const { size } = require('./M01.js');
const MED = 65520; // up to one page blocks of all sizes are joined again
module.exports = {
  id: 'M02', runs: { quick: 20000, thorough: 120000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run is one of: (reuse) a random history of small and medium allocations and frees ending with everything freed, after which sets of blocks that were live together before are allocated again in another order and must neither fail nor grow memory; (cycle) one allocate-and-free workload repeated 24 times, whose footprint must stop growing; (exhaust) memory filled to the limit with one size, then a block freed and the same request repeated. Non-trivial: at least 8 blocks were in play. Distinct by plan.',
  real: ['lib/src/stdlib.c allocator', 'lib/src/unistd.c sbrk'], stub: ['WASI host', 'linear memory growth limit'],
  gen(rng) {
    const mode = rng.weighted([[5, 'reuse'], [3, 'cycle'], [2, 'exhaust']]);
    const few = rng.chance(0.4) ? Array.from({ length: rng.range(1, 5) }, () => size(rng) % (MED + 1)) : null;
    const sz = () => few ? rng.pick(few) : size(rng) % (MED + 1);
    const v = rng.chance(0.5) ? rng.int(12) : rng.int(256);
    if (mode === 'exhaust') return { mode, pages: rng.range(1, 12), n: rng.chance(0.7) ? size(rng) % 70000 : rng.int(400000), v, ops: Array.from({ length: rng.range(1, 8) }, () => ({ i: rng.int(1000) })) };
    const ops = []; let live = 0; const n = rng.range(8, mode === 'reuse' ? 160 : 60); const pf = 0.2 + rng.f() * 0.35;
    const big = mode === 'cycle' && rng.chance(0.3);
    for (let i = 0; i < n; i++) {
      if (live && rng.chance(pf)) { ops.push({ o: 'f', i: rng.weighted([[3, rng.int(1000)], [1, 0], [1, -1]]) }); live--; } else if (mode === 'reuse' && live > 2 && rng.chance(0.05)) ops.push({ o: 's' });
      else if (mode === 'cycle' && live && rng.chance(0.15)) ops.push({ o: 'r', i: rng.int(1000), n: Math.max(1, big && rng.chance(0.5) ? rng.int(800000) : sz()) });
      else { ops.push({ o: 'm', n: big && rng.chance(0.2) ? rng.int(300000) : sz() }); live++; }
    }
    ops.push({ o: 's' });
    return { mode, pages: 2000, ops, v, order: rng.int(1 << 30) };
  },
  *simplify(p) { for (let i = 0; i < p.ops.length; i++) if (p.ops[i].n > 40) { const ops = p.ops.slice(); ops[i] = { ...ops[i], n: ops[i].n >> 1 }; yield { ...p, ops }; } },
  run(plan, ctx) {
    const { Rng } = require('../rng');
    const w = new host.World({}); const rng = new Rng(plan.order);
    const mod = agent(ctx, 'main0', plan.pages); let nblk = 0, refused = 0, grown = 0;
    const res = runGuest(mod, w, function* (g) {
      const fill = (p, n) => g.mem.fill(plan.v, p, p + n);
      if (plan.mode === 'exhaust') {
        const blocks = [];
        for (let k = 0; k < 40000; k++) { const r = yield { op: 50, a: [plan.n] }; if (!r.ru) break; fill(r.ru, plan.n); blocks.push(r.ru); }
        refused++; nblk = blocks.length; w.fired['alloc:refused'] = 1;
        if (!blocks.length) { if (2 * (plan.n + 16) + 131072 <= plan.pages * 65536) bad('spurious-failure', 'malloc(' + plan.n + ') failed with ' + plan.pages + ' pages left'); return 0; }
        for (const op of plan.ops) {
          const k = op.i % blocks.length; yield { op: 53, a: [blocks[k]] };
          const r = yield { op: 50, a: [plan.n] };
          if (!r.ru) bad('not-reused', 'after freeing a block of ' + plan.n + ' bytes the same request still fails');
          fill(r.ru, plan.n); blocks[k] = r.ru;
        }
        rng.shuffle(blocks); for (const p of blocks) yield { op: 53, a: [p] };
        for (let k = 0; k < blocks.length; k++) { const r = yield { op: 50, a: [plan.n] }; if (!r.ru) bad('not-reused', 'only ' + k + ' of ' + blocks.length + ' blocks of ' + plan.n + ' bytes fit again after all were freed'); fill(r.ru, plan.n); }
        return 0;
      }
      const live = []; let snaps = [];
      const pass = function* () {
        for (const op of plan.ops) {
          if (op.o === 'm') { const r = yield { op: 50, a: [op.n] }; if (!r.ru) bad('spurious-failure', 'malloc(' + op.n + ') failed with memory left'); fill(r.ru, op.n); live.push([r.ru, op.n]); nblk++; } else if (op.o === 'f') { if (live.length) { const k = op.i < 0 ? live.length - 1 : op.i % live.length; const b = live.splice(k, 1)[0]; yield { op: 53, a: [b[0]] }; } } else if (op.o === 'r') { if (live.length) { const k = op.i % live.length; const r = yield { op: 52, a: [live[k][0], op.n] }; if (!r.ru) bad('spurious-failure', 'realloc failed'); live[k] = [r.ru, op.n]; fill(r.ru, op.n); } } else if (op.o === 's') snaps.push(live.map((b) => b[1]));
        }
      };
      const freeAll = function* () { rng.shuffle(live); while (live.length) yield { op: 53, a: [live.pop()[0]] }; };
      if (plan.mode === 'reuse') {
        yield* pass(); const most = snaps.slice(); yield* freeAll();
        for (let round = 0; round < 3; round++) for (const sn of most) {
          const order = rng.shuffle(sn.slice()); const before = g.pages();
          for (const n of order) { const r = yield { op: 50, a: [n] }; if (!r.ru) bad('not-reused', 'malloc failed'); fill(r.ru, n); live.push([r.ru, n]); }
          if (g.pages() > before) bad('memory-grew', 'a set of ' + sn.length + ' blocks that was live before grew memory from ' + before + ' to ' + g.pages() + ' pages although everything had been freed');
          yield* freeAll();
        }
      } else {
        let first = 0; const base = g.pages();
        for (let k = 0; k < 24; k++) {
          snaps = []; yield* pass(); yield* freeAll();
          if (k === 1) first = g.pages() - base;
          else if (k > 1 && g.pages() - base > 2 * first + 2) bad('unbounded-growth', 'repeating the same workload grew memory from ' + first + ' to ' + (g.pages() - base) + ' pages by repetition ' + k);
          grown = g.pages() - base;
        }
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), nblk >= 8, { probes: { [plan.mode]: 1, refused, blocks: nblk, grew: grown > 0 ? 1 : 0 } }) };
  },
};
