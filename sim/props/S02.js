'use strict';
const { ERRS } = require('../common');
const { genPut, genMode } = require('../wstream');
const { runWriter } = require('./S01');
const S01 = require('./S01');
const wf = (rng) => rng.chance(0.6) ? { sc: 'fd_write', n: rng.weighted([[4, 0], [1, rng.int(4)]]), kind: 'err', errno: rng.pick(ERRS) } : { sc: 'fd_write', n: rng.weighted([[4, 0], [1, rng.int(4)]]), kind: 'short', k: rng.pick([1, 1, 2, 3, 7, 8, 9, 500, 1000, 1023]), zero: rng.chance(0.2) };
module.exports = {
  id: 'S02', runs: { quick: 32000, thorough: 300000 }, wall: { quick: 100, thorough: 850 },
  rule: 'A run writes to several streams in random modes while the host fails or shortens chosen fd_write calls, or the file system fills up and recovers; each arriving write is matched against what the program wrote, every loss must be reported by the call, a later fflush or fclose, and after clearerr writing must work again. Non-trivial: at least one write was refused or shortened. Distinct by plan.',
  real: S01.real, stub: S01.stub,
  gen(rng) {
    const cfg = { out: rng.pick(['pipe', 'file', 'tty']), err: rng.pick(['pipe', 'tty']), variant: rng.pick(['main0', 'main0', 'void']), pages: rng.chance(0.15) ? 3 : 40 };
    const ops = []; const live = [1, 2]; const nf = rng.range(1, 4); let nf2 = 0; const fresh = new Set([1, 2]);
    const open = () => { const s = 3 + nf2; ops.push({ o: 'open', s, p: 'f' + nf2, m: rng.pick(['w', 'w', 'a', 'w+', 'a+']) }); live.push(s); fresh.add(s); nf2++; };
    open();
    const n = rng.weighted([[2, rng.range(3, 12)], [3, rng.range(10, 50)], [1, rng.range(40, 90)]]);
    const p = rng.pick([0.05, 0.15, 0.4]); const quota = rng.chance(0.3);
    for (let i = 0; i < n; i++) {
      const s = rng.pick(live); let op = null;
      if (nf2 < nf && rng.chance(0.2)) open();
      else if (quota && rng.chance(0.12)) ops.push({ o: 'quota', v: rng.chance(0.5) ? -1 : rng.size(3000) });
      else if (fresh.has(s) && rng.chance(0.5)) { ops.push(genMode(rng, s)); fresh.delete(s); } else switch (rng.int(12)) {
        case 0: op = { o: 'flush', s }; break;
        case 1: op = { o: 'flush', s: -1 }; break;
        case 2: if (s > 2) { op = { o: 'close', s }; if (rng.chance(0.6)) { ops.push(op); op = { o: 'open', s, p: 'f' + (s - 3), m: rng.pick(['a', 'w']) }; fresh.add(s); ops.push(op); op = null; if (rng.chance(p)) ops[ops.length - 2].f = [wf(rng)]; } } break;
        case 3: op = { o: 'clr', s }; break;
        default: fresh.delete(s); op = genPut(rng, s);
      }
      if (op) { if (op.o !== 'clr' && rng.chance(p)) { op.f = [wf(rng)]; while (rng.chance(0.3)) op.f.push(wf(rng)); if (op.via && /putc/.test(op.via)) op.at = rng.int(300); } ops.push(op); }
      if (rng.chance(0.15)) { ops.push({ o: 'flush', s }); if (rng.chance(0.5)) ops.push({ o: 'clr', s }); }
    }
    return { cfg, existing: rng.chance(0.3) ? [['f0', 'old' + 'y'.repeat(rng.size(2000))]] : [], ops, end: rng.pick(['return', 'exit']), code: rng.int(256) };
  },
  *simplify(p) {
    yield* S01.simplify(p);
    for (let i = 0; i < p.ops.length; i++) if (p.ops[i].f && p.ops[i].f.length) { const ops = p.ops.slice(); ops[i] = { ...ops[i], f: ops[i].f.slice(1) }; yield { ...p, ops }; }
  },
  run(plan, ctx) { return runWriter(plan, ctx, { nontrivial: (e, w) => [...e.streams.values()].some((s) => s.everFault) }); },
};
