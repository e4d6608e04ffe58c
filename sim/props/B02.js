'use strict';
const { Batch } = require('../nsim');
const L = require('../nload');
const cc = require('../ccommon');
const { bad } = require('../common');
const ENV = [['LANG=C'], ['LANG=de_DE.UTF-8', 'LC_ALL=tr_TR'], ['TZ=Asia/Kathmandu'], ['TZ=EST5EDT'], ['HOME=/root', 'PATH=/usr/bin:/bin', 'USER=x'], ['MALLOC_PERTURB_=77'], ['POSIXLY_CORRECT=1'], ['CPATH=/w', 'C_INCLUDE_PATH=/lib'], ['WCPL=1'], ['INCLUDE_PATH=/nonexistent/', 'LIBRARY_PATH=/nonexistent/'], ['X=' + 'y'.repeat(5000)]];
function variation(rng) {
  const v = { aseed: rng.int(1 << 30), amode: rng.weighted([[2, 1], [2, 2], [1, 3], [6, 4], [2, 6]]), ioseed: rng.int(1 << 30), rchunk: rng.weighted([[3, 0], [1, 1], [1, 2], [1, 5], [1, 63], [1, 255], [1, 256], [1, 1000], [1, 4095]]), sbuf: rng.weighted([[3, 0], [1, 8], [1, 64], [1, 255], [1, 257], [1, 4096], [1, 100000]]), clock: rng.pick([0, 1, 1700000000, 4102444800, 253402300799, rng.int(2147483647)]), cstep: rng.pick([0, 0, 1, 86400, -5]) };
  return { opt: v, env: rng.chance(0.5) ? rng.pick(ENV) : [], qs: 0 };
}
module.exports = {
  id: 'B02', builds: ['base', 'native'], runs: { quick: 900, thorough: 50000 }, wall: { quick: 70, thorough: 800 }, minMs: 30000, hangMs: 120000,
  rule: 'A run picks one compiler invocation (compile, link, whole program; generated, repository, library or broken sources; with warnings and logging on or off) and executes it under four to nine different seeded allocators (addresses, reuse order, left-over contents zero, ones, or junk), stack contents, splittings of reads and buffer sizes, clocks that stand still or step, and unrelated environment variables. Output bytes, files, diagnostics and exit status must be the same every time. Non-trivial: two executions or more with different heap layout. Distinct by plan.',
  real: ['c.c', 'l.c', 'p.c', 'w.c', 'glibc stdio buffering'], stub: ['files, streams, heap and clock of the host (in-memory simulator)'],
  gen(rng) {
    const wl = L.gen(rng, { cc: rng.chance(0.15) ? 3 : 0 }); const n = wl.kind === 'cc' ? 3 : rng.range(4, 9); const vs = [];
    for (let i = 0; i < n; i++) vs.push(variation(rng));
    const first = variation(rng); if (rng.chance(0.5)) first.opt.amode = 6;
    if (wl.kind === 'cc') for (const v of vs) { v.opt.clock = first.opt.clock; v.opt.cstep = first.opt.cstep = 0; } // c.c uses __DATE__
    return { wl, first, vs };
  },
  lists: ['vs'],
  *simplify(p) { yield* cc.simplify(p); for (const [k, v] of [['rchunk', 0], ['sbuf', 0], ['clock', 1700000000], ['cstep', 0]]) for (let i = 0; i < p.vs.length; i++) if (p.vs[i].opt[k] !== v || p.first.opt[k] !== v) yield { ...p, first: { ...p.first, opt: { ...p.first.opt, [k]: v } }, vs: p.vs.map((x) => ({ ...x, opt: { ...x.opt, [k]: v } })) }; },
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null;
    const B = new Batch(); L.image(B, ctx, wl);
    for (const v of [plan.first, ...plan.vs]) { const j = L.job(wl, v.opt, []); j.env = j.env.concat(v.env); B.run(j); }
    const rs = B.exec(ctx.dir); for (const r of rs) S.add(r);
    for (const v of plan.vs) { S.fault('heap-layout'); if (v.opt.rchunk) S.fault('split-reads'); if (v.opt.clock !== plan.first.opt.clock || v.opt.cstep) S.fault('clock'); if (v.env.length) S.fault('environment'); }
    const a = rs[0];
    S.probe(a.end !== 'exit' ? 'baseline-' + a.end : a.code ? 'diagnosed' : 'built');
    try {
      if (a.end !== 'exit') { const r = rs.find((x) => x.end !== a.end); if (r) bad('crash', 'an execution ends by ' + a.end + ' ' + (a.foreign || '') + a.stderr.toString('latin1').slice(-200) + ' and another by ' + r.end + ' ' + r.code + ' (' + JSON.stringify(plan.first.opt) + '; command: ' + cc.cmd(wl) + ')'); return S.done(plan, null, false); }
      rs.forEach((r, i) => {
        if (!i) return; const what = JSON.stringify(plan.vs[i - 1].opt) + (plan.vs[i - 1].env.length ? ' env ' + plan.vs[i - 1].env[0].slice(0, 40) : '') + '; command: ' + cc.cmd(wl);
        if (r.end !== 'exit') bad('crash', 'an execution ends by ' + r.end + ' ' + r.code + ' ' + (r.foreign || '') + ' and the first by exit ' + a.code + ' (' + what + ')');
        if (r.code !== a.code) bad('exit-status', 'exit ' + r.code + ' against ' + a.code + ' (' + what + ')');
        if (!cc.same(r, a, wl)) bad('output', 'the output differs: ' + L.diff(L.target(r, wl), L.target(a, wl)) + ' (' + what + ')');
        if (!L.eq(r.stderr, a.stderr)) bad('diagnostics', 'the diagnostics differ: ' + L.diff(r.stderr, a.stderr) + ' (' + what + ')');
      });
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
    return S.done(plan, violation, rs.length > 1);
  },
};
