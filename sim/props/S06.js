'use strict';
const { agent, bad, runGuest, stats, host } = require('../common');
const { Engine, genPut, genMode } = require('../wstream');
const S01 = require('./S01');
function genOps(rng, n, st, inHandler) {
  const ops = [];
  for (let i = 0; i < n; i++) {
    const r = rng.int(20);
    if (r < (inHandler ? 1 : 7)) ops.push({ o: 'reg', k: rng.int(40) });
    else if (r < 9 && st.nf < 6) { const s = 3 + st.nf++; ops.push({ o: 'open', s, p: 'f' + s, m: rng.pick(['w', 'a', 'w+']) }); st.live.push(s); if (rng.chance(0.4)) ops.push(genMode(rng, s)); } else if (r === 10 && st.live.length > 2 && rng.chance(0.4)) ops.push({ o: 'close', s: rng.pick(st.live.filter((s) => s > 2)) });
    else if (r === 11) ops.push({ o: 'flush', s: rng.pick([-1, ...st.live]) });
    else if (r === 12 && !st.moded) { st.moded = true; ops.push(genMode(rng, 1)); } else ops.push(genPut(rng, rng.pick(st.live), { small: rng.chance(0.7) }));
  }
  return ops;
}
module.exports = {
  id: 'S06', runs: { quick: 40000, thorough: 300000 }, wall: { quick: 60, thorough: 850 },
  rule: 'A run registers 0 to 45 atexit handlers (repeats included) before, between and after output on random streams, then ends by return, exit, abort or _exit; handlers themselves write, open, close and register, and one may end the program. Order, count, delivered bytes and exit status are compared with the model; a few runs refuse writes during the end. Non-trivial: the program ended with a handler or unflushed output pending. Distinct by plan.',
  real: [...S01.real, 'compiler-generated _start'], stub: S01.stub,
  gen(rng) {
    const cfg = { out: rng.pick(['pipe', 'file', 'tty']), err: rng.pick(['pipe', 'tty']), variant: rng.pick(['main0', 'void', 'main4k', 'main512', 'main64k']), pages: rng.chance(0.1) ? rng.int(3) : 40 };
    const st = { nf: 0, live: [1, 2], moded: false };
    const ops = []; const late = rng.chance(0.5); if (rng.chance(0.06)) while (st.nf < 17) { const s = 3 + st.nf++; ops.push({ o: 'open', s, p: 'f' + s, m: 'w' }); st.live.push(s); }
    if (!late) ops.push(...genOps(rng, 3, st));
    const nreg = rng.weighted([[2, rng.int(4)], [3, rng.range(2, 20)], [1, rng.range(28, 34)], [1, 45]]);
    for (let i = 0; i < nreg; i++) ops.push({ o: 'reg', k: rng.int(40) });
    ops.push(...genOps(rng, rng.int(20), st));
    const hops = []; const nh = rng.int(40);
    for (let i = 0; i < nh; i++) hops.push(rng.chance(0.5) ? [] : genOps(rng, rng.range(1, 3), st, true));
    const end = rng.weighted([[4, 'return'], [4, 'exit'], [1, 'abort'], [1, '_exit']]);
    const hend = rng.chance(0.08) ? { at: rng.int(Math.max(1, nreg)), how: rng.pick(['abort', '_exit']), code: rng.int(256) } : null;
    return { cfg, ops, hops, end, hend, code: rng.pick([0, 1, 2, 7, 255, rng.int(256), rng.int(1 << 30), -1]), ff: rng.chance(0.1) ? [{ sc: 'fd_write', kind: 'err', errno: rng.pick([51, 29, 8]), count: rng.range(1, 4) }] : null };
  },
  lists: ['ops', 'hops'],
  *simplify(p) {
    if (p.cfg.variant !== 'main0' || p.cfg.pages < 3) yield { ...p, cfg: { ...p.cfg, variant: 'main0', pages: 40 } };
    for (let i = 0; i < p.hops.length; i++) if (p.hops[i].length) { const hops = p.hops.slice(); hops[i] = []; yield { ...p, hops }; }
    if (p.ff) yield { ...p, ff: null };
    if (p.hend) yield { ...p, hend: null };
  },
  run(plan, ctx) {
    const c = plan.cfg;
    const w = new host.World({ std: { 0: {}, 1: { kind: c.out }, 2: { kind: c.err } } });
    const e = new Engine(w, { lowmem: c.pages < 3 });
    const stack = []; let ran = 0, expect = null, ending = null, pending = false, snap = null, refused = 0, inH = false, mainDone = false;
    const run = function* (op) {
      if (op.o !== 'reg') return yield* e.exec(op);
      const r = yield { op: 150, a: [op.k] };
      if (r.r === 0) stack.push(op.k); else { if (stack.length < 32) bad('atexit-refused', 'atexit returned ' + r.r + ' with only ' + stack.length + ' handlers registered'); refused++; }
    };
    const hard = function* (how, code) { // abort or _exit: nothing more may happen
      ending = { how, code }; snap = [...e.streams.values()].map((s) => [s, s.cursor]);
      const r = yield how === 'abort' ? { op: 152, a: [] } : { op: 153, a: [code] };
      bad('still-running', how + ' did not end the program (' + (r.who >= 0 ? 'handler ' + r.who + ' runs' : 'it returned') + ')');
    };
    const res = runGuest(agent(ctx, c.variant, c.pages), w, function* (g) {
      yield* e.start(g);
      for (const op of plan.ops) yield* run(op);
      pending = stack.length > 0 || [...e.streams.values()].some((s) => s.open && s.cursor < s.wlen);
      mainDone = true;
      if (plan.end === 'abort' || plan.end === '_exit') yield* hard(plan.end, plan.code);
      if (plan.ff) w.armed = plan.ff.map((f) => ({ ...f }));
      ending = { how: plan.end, code: plan.code };
      let r = yield plan.end === 'exit' ? { op: 151, a: [plan.code] } : { op: 1, a: [plan.code] };
      for (;;) { // a handler runs
        if (r.op !== -1) bad('still-running', 'the program went on after ' + plan.end);
        if (r.who === -1) bad('main-again', 'main ran again');
        if (!stack.length) bad('extra-handler', 'handler ' + r.who + ' ran although all registered handlers had run');
        const k = stack.pop();
        if (r.who !== k) bad('handler-order', 'handler ' + r.who + ' ran instead of ' + k);
        const i = ran++;
        for (const op of plan.hops[i] || []) yield* run(op);
        if (plan.hend && plan.hend.at === i) yield* hard(plan.hend.how, plan.hend.code);
        r = yield { op: 1, a: [0] };
      }
    }, (end) => {
      if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why);
      if (!ending) bad('early-end', 'the program ended by itself');
      const code = end.end === 'exit' ? end.code : 0;
      if (ending.how === 'abort' || ending.how === '_exit') {
        for (const [s, cur] of snap) if (s.cursor !== cur) bad('flushed', ending.how + ' flushed ' + (s.cursor - cur) + ' bytes of ' + s.name);
        if (ending.how === 'abort' ? code === 0 : (code | 0) !== (ending.code | 0)) bad('status', ending.how + (ending.how === '_exit' ? '(' + ending.code + ')' : '') + ' gave exit status ' + code);
        return;
      }
      if (stack.length) bad('handler-missed', stack.length + ' registered handlers never ran');
      if ((code | 0) !== (ending.code | 0)) bad('status', 'exit status ' + code + ' instead of ' + ending.code);
      e.final(ending.how);
    });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify([plan.cfg, plan.ops, plan.hops, plan.end]), pending, { probes: { ...e.probes, handlers: ran, refused, ['end_' + (ending ? ending.how : 'none')]: 1 } }) };
  },
};
