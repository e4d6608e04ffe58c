'use strict';
const { agent, bad, runGuest, stats, show, host } = require('../common');
const EX = [60000, 20000, 6000, 2000, 700, 200, 60, 8];
const LET = ['A', 'B', 'a', '_', 'X1', 'PATH', 'HOME', 'PAT', 'PATHS', 'LONGER_NAME_', 'é'];
module.exports = {
  id: 'A02', runs: { quick: 80000, thorough: 400000 }, wall: { quick: 60, thorough: 800 },
  rule: 'A run boots the agent program in a fresh simulated host with a generated environment (0-60 entries; prefix-related names, empty values, values with "=", repeated look-ups interleaved with heap and stack traffic), optionally with a fault in fetching it. Non-trivial: at least one look-up of a present name and one of an absent name, or a fault that fired. Distinct by the environment, the look-ups and the outcome.',
  real: ['lib/src/stdlib.c getenv/initialize_environ/malloc', 'lib/src/crt.*.c', 'wcpl compiler and linker (built the program)'],
  stub: ['WASI host (in-memory simulator)', 'process environment'],
  gen(rng) {
    const n = rng.weighted([[1, 0], [3, rng.range(1, 4)], [3, rng.range(5, 20)], [1, rng.range(21, 60)]]);
    const env = new Map(); const names = [];
    const mkname = () => {
      if (names.length && rng.chance(0.5)) { // related to an existing name
        const b = rng.pick(names);
        return rng.pick([b + rng.pick(LET), b.slice(0, Math.max(1, b.length - 1)), b.toLowerCase(), b.toUpperCase(), '_' + b, b.slice(1) || 'Z']);
      }
      let s = ''; for (let i = rng.range(1, 3); i > 0; i--) s += rng.pick(LET); return s;
    };
    const mkval = () => {
      switch (rng.int(6)) {
        case 0: return '';
        case 1: return '=';
        case 2: return rng.pick(names.concat(['A'])) + '=' + rng.int(100);
        case 3: return 'v' + 'x'.repeat(rng.size(3000));
        default: return 'val' + rng.int(100000);
      }
    };
    for (let i = 0; i < n; i++) { const k = mkname(); if (!env.has(k)) { env.set(k, mkval()); names.push(k); } }
    const entries = rng.shuffle([...env]).map(([k, v]) => k + '=' + v);
    const cfg = { variant: rng.pick(['main0', 'main512', 'main4k', 'void']), pages: undefined };
    const ops = [];
    const m = rng.range(2, 14);
    for (let i = 0; i < m; i++) {
      const q = rng.int(10);
      if (q === 0) ops.push({ o: 'burn', d: rng.int(20), s: rng.int(256) });
      else if (q === 1) ops.push({ o: 'alloc', n: rng.size(70000), v: rng.int(256) });
      else if (q === 2) ops.push({ o: 'free' });
      else ops.push({ o: 'get', k: names.length && rng.chance(0.6) ? rng.pick(names) : mkname() });
    }
    if (rng.chance(0.25)) { // fault while fetching
      const kind = rng.int(3);
      const g = ops.findIndex((o) => o.o === 'get');
      if (g >= 0) {
        if (kind === 0) ops[g].f = [{ sc: 'environ_sizes_get', n: 0, kind: 'err', errno: rng.pick([29, 48, 52]) }];
        else if (kind === 1) ops[g].f = [{ sc: 'environ_get', n: 0, kind: 'err', errno: rng.pick([29, 48, 52]) }];
        else { cfg.pages = rng.int(3); ops.splice(g, 0, { o: 'exhaust', hole: rng.chance(0.6) ? [rng.int(8), rng.range(1, 2)] : null }); }
      }
    }
    return { cfg, env: entries, ops };
  },
  lists: ['ops', 'env'],
  *simplify(p) {
    if (p.cfg.variant !== 'main0') yield { ...p, cfg: { ...p.cfg, variant: 'main0' } };
    for (let i = 0; i < p.env.length; i++) { const e = p.env[i]; const k = e.indexOf('='); const c = p.env.slice(); c[i] = e.slice(0, k + 1) + 'v'; yield { ...p, env: c }; }
  },
  run(plan, ctx) {
    const w = new host.World({ env: plan.env });
    const want = new Map();
    for (const e of plan.env) { const k = e.indexOf('='); if (!want.has(e.slice(0, k))) want.set(e.slice(0, k), e.slice(k + 1)); }
    let hit = 0, miss = 0, failed = false, fetched = false;
    const res = runGuest(agent(ctx, plan.cfg.variant, plan.cfg.pages), w, function* (g) {
      const blocks = []; let exhausted = false;
      for (const op of plan.ops) {
        if (op.o === 'burn') { yield { op: 54, a: [op.d, op.s] }; continue; }
        if (op.o === 'alloc') { const r = yield { op: 50, a: [op.n] }; if (r.ru) { g.mem.fill(op.v, r.ru, r.ru + op.n); blocks.push(r.ru); } continue; }
        if (op.o === 'free') { if (blocks.length) yield { op: 53, a: [blocks.pop()] }; continue; }
        if (op.o === 'exhaust') {
          const mine = [];
          for (const sz of EX) for (let k = 0; k < 200; k++) { const r = yield { op: 50, a: [sz] }; if (!r.ru) break; mine.push([r.ru, sz]); }
          if (op.hole) for (let k = 0; k < op.hole[1]; k++) { const b = mine.filter((x) => x[1] === EX[op.hole[0]])[0]; if (b) { yield { op: 53, a: [b[0]] }; mine.splice(mine.indexOf(b), 1); } }
          if (!fetched) exhausted = true; w.fired['memory:exhausted'] = 1; continue;
        }
        const before = w.sinkBytes(2).length;
        const r = yield { op: 140, a: [g.str(op.k)], f: op.f };
        const got = r.ru === 0 ? null : g.cstr(r.ru);
        const exp = want.has(op.k) ? want.get(op.k) : null;
        const faulted = r.fired > 0 || (exhausted && !fetched);
        if (faulted && !fetched) {
          failed = true;
          if (r.fired > 0) { // the host refused the environment during this very call
            if (got !== null) bad('value-after-failure', 'getenv(' + show(op.k) + ') returned ' + show(got) + ' although the environment could not be fetched');
            if (w.sinkBytes(2).length === before) bad('failure-not-announced', 'fetching the environment failed and nothing was written to standard error');
          } else if (got === null && exp !== null && w.sinkBytes(2).length === before) bad('failure-not-announced', 'no memory for the environment, getenv gave NULL, and nothing was written to standard error');
        }
        fetched = true;
        if (failed ? (got !== null && got !== exp) : got !== exp) bad('wrong-value', 'getenv(' + show(op.k) + ') returned ' + show(String(got)) + ', the host holds ' + show(String(exp)));
        if (exp === null) miss++; else hit++;
      }
      return 0;
    }, (end) => {
      if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at op ' + JSON.stringify(end.lastOp));
    });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify([plan.env, plan.ops, plan.cfg.variant]), (hit > 0 && miss > 0) || failed, { probes: { present: hit, absent: miss, failedFetch: failed ? 1 : 0 } }) };
  },
};
