'use strict';
const { Batch } = require('../nsim');
const L = require('../nload');
const cc = require('../ccommon');
const { bad } = require('../common');
const OPENERR = [1, 2, 5, 12, 13, 16, 20, 21, 23, 24, 26, 27, 30, 36, 40, 75, 110, 116]; // errno values of fopen
const RDERR = [5, 9, 11, 4, 13, 107, 110, 116]; const WRERR = [28, 5, 27, 122, 32, 9, 4, 11];
function gencase(rng) {
  const opt = { aseed: rng.int(1 << 30), amode: rng.chance(0.12) ? 0 : rng.pick([1, 2, 4, 5, 6]), ioseed: rng.int(1000000), rchunk: rng.weighted([[4, 0], [1, 1], [1, 7], [1, 300], [1, 4096]]), sbuf: rng.weighted([[3, 0], [1, 16], [1, 100], [1, 512], [1, 65536]]) };
  const f = rng.weighted([
    [5, () => ({ cls: 'alloc' })], [2, () => ({ cls: 'alloc', sticky: 1 })],
    [4, () => ({ cls: 'open', err: rng.pick(OPENERR) })], [1, () => ({ cls: 'open', err: rng.pick(OPENERR), sticky: 1 })],
    [5, () => ({ cls: 'read', err: rng.pick(RDERR), sticky: rng.int(2) })], [1, () => ({ cls: 'read', part: rng.range(1, 300), err: 5 })],
    [3, () => ({ cls: 'write', err: rng.pick(WRERR), sticky: rng.int(2), part: rng.chance(0.5) ? 0 : rng.range(1, 5000) })],
    [2, () => ({ cls: 'close', err: rng.pick([5, 28, 122, 4]), where: rng.chance(0.7) ? 'out' : undefined })],
    [2, () => ({ cls: 'open', err: rng.pick(OPENERR), where: rng.pick(['out', 'in']) })],
    [2, () => ({ cls: 'write', err: rng.pick(WRERR), where: 'last', sticky: rng.int(2) })],
    [1, () => ({ cls: 'write', err: rng.pick(WRERR), where: 'first', sticky: rng.int(2), part: rng.chance(0.5) ? 0 : rng.range(1, 5000) })],
    [2, () => ({ cls: 'heapcap' })],
    [1, () => ({ cls: 'event', err: rng.pick([5, 12, 24, 28]), sticky: 1 })],
    [1, () => ({ cls: 'stderr', err: rng.pick([5, 28, 32]), sticky: rng.int(2) })],
    [1, () => ({ cls: 'none' })],
  ])();
  const c = { opt, faults: [f] }; f.frac = rng.weighted([[5, () => rng.f()], [1, () => rng.f() * 0.02], [1, () => 1 - rng.f() * 0.02], [1, () => 0]])();
  if (rng.chance(0.12)) c.faults.push({ cls: 'stderr', err: rng.pick([5, 28, 32]), sticky: 1, frac: 0 });
  if (rng.chance(0.1)) c.faults.push({ cls: rng.pick(['read', 'write', 'alloc', 'open']), err: rng.pick([5, 12, 28]), frac: rng.f() });
  return c;
}
module.exports = {
  id: 'B01', builds: ['base', 'native'], runs: { quick: 700, thorough: 40000 }, wall: { quick: 70, thorough: 800 }, minMs: 30000, hangMs: 120000,
  rule: 'A run picks one compiler invocation (compile of one source, link, whole program, of generated, repository, library or broken sources; output to a .wasm file, a text file, or standard output), executes it on a healthy simulated host, and then up to fourteen times with one or more failures placed at a fraction of the events the healthy execution had: one or all later allocations, heap exhausted at a size, opening, reading (also short first), writing (also part of the data first), closing, standard error. Some executions run under AddressSanitizer. Non-trivial: a failure struck. Distinct by plan.',
  real: ['c.c', 'l.c', 'p.c', 'w.c', 'glibc stdio buffering'], stub: ['files, streams, heap and clock of the host (in-memory simulator)'],
  gen(rng) {
    const wl = L.gen(rng, { cc: rng.chance(0.2) ? 3 : 0 }); const n = wl.kind === 'cc' ? 6 : rng.range(8, 14); const cases = [];
    for (let i = 0; i < n; i++) cases.push(gencase(rng));
    if (rng.chance(0.08)) wl.blocked = rng.pick(wl.inputs.filter((x) => x !== '-').concat('nosuch.c')); // a directory in place of an input
    const dirs = []; if (rng.chance(0.4)) for (let i = rng.range(1, 3); i > 0; i--) dirs.push(rng.f()); // directories where the search finds nothing
    return { wl, cases, dirs };
  },
  lists: ['cases', 'dirs'], simplify: cc.simplify,
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null;
    const B0 = new Batch(); L.image(B0, ctx, wl); cc.block(B0, wl);
    B0.run(L.job(wl, { amode: 6, trace: 1 }, []));
    const base = B0.exec(ctx.dir)[0]; S.add(base);
    try {
      if (base.end !== 'exit') { S.probe('baseline-' + base.end); return S.done(plan, null); }
      if (base.code === 0 && wl.blocked && wl.inputs.includes(wl.blocked)) bad('failed-read-ignored', 'the input ' + wl.blocked + ' is a directory, which cannot be read, and the compiler exits with 0');
      if (base.code !== 0 && !cc.diagnosed(base)) bad('no-diagnostic', 'the compiler exits with ' + base.code + ' and says nothing (' + cc.cmd(wl) + ')');
      const events = base.cnt.event + base.cnt.alloc + base.cnt.stderr + base.iob / 8;
      const absent = base.trace.split('\n').map((l) => /^open (\S+) r\S* = e2$/.exec(l)).filter((m) => m).map((m) => m[1]).filter((p) => p.lastIndexOf('/') > 0 && ['/w', '/lib', '/lib/include'].includes(p.slice(0, p.lastIndexOf('/'))));
      if (absent.length && plan.dirs.length) {
        const B = new Batch(); L.image(B, ctx, wl); cc.block(B, wl); const ps = plan.dirs.map((f) => absent[Math.floor(f * absent.length)]); for (const p of ps) B.dir(p);
        B.run(L.job(wl, { amode: 4, aseed: 77 }, [])); const [r] = B.exec(ctx.dir); S.add(r); S.fault('candidate-is-directory', ps.length);
        if (r.end !== 'exit' || (r.code !== base.code) || !cc.same(r, base, wl)) bad('candidate-directory', 'with directories at ' + ps.join(', ') + ', which are search candidates and cannot be read, the compiler ends by ' + r.end + ' ' + r.code + ' instead of ' + base.code + (cc.same(r, base, wl) ? '' : ', different output') + ': ' + r.stderr.toString('latin1').slice(-200) + ' (' + cc.cmd(wl) + ')');
      }
      const cases = plan.cases.map((c) => {
        const opt = { ...c.opt, evmax: base.cnt.event * 4 + 4000 + 4 * base.iob }; const faults = [];
        for (const f of c.faults) {
          if (f.cls === 'none') continue;
          if (f.cls === 'heapcap') { opt.heapcap = Math.max(1, Math.floor(base.peak * f.frac)); if (opt.amode === 0) opt.amode = 1; continue; }
          const g = { ...f }; const tot = base.cnt[f.cls] || 0;
          g.n = Math.floor(f.frac * tot);
          if (f.where === 'last') g.n = Math.max(0, tot - 1); else if (f.where === 'first') g.n = 0;
          else if (f.where === 'out') { g.path = wl.out || '<stdout>'; g.n = 0; } else if (f.where === 'in') { const i = wl.inputs[Math.floor(f.frac * wl.inputs.length)]; g.path = i === '-' ? '<stdin>' : '/w/' + i; g.n = 0; }
          faults.push(g);
        }
        return { opt, faults };
      });
      const go = (list, asan) => { if (!list.length) return []; const B = new Batch(); L.image(B, ctx, wl); cc.block(B, wl); for (const c of list) B.run(L.job(wl, c.opt, c.faults)); return B.exec(ctx.dir, asan); };
      const pl = cases.filter((c) => c.opt.amode !== 0), as = cases.filter((c) => c.opt.amode === 0);
      const res = new Map(); go(pl, false).forEach((r, i) => res.set(pl[i], r)); go(as, true).forEach((r, i) => res.set(as[i], r));
      for (const c of cases) {
        const r = res.get(c); S.add(r); S.faults(r); const what = 'fault: ' + (r.log || 'none') + '; command: ' + cc.cmd(wl);
        if (r.end !== 'exit') bad('crash', 'the compiler ended by ' + r.end + ' ' + r.code + (r.foreign ? ' ' + r.foreign : '') + ' (' + what + ')' + (r.asan ? '\n' + r.asan : ''));
        const struck = r.fired > 0;
        if (r.after > 3 * events + 2000 + (c.opt.rchunk || c.opt.sbuf ? 3 * base.iob : 0)) bad('unbounded', 'the compiler went on for ' + r.after + ' events after the failure (' + what + ')');
        const same = cc.same(r, base, wl);
        if (!struck) { if (r.code !== base.code || !same) bad('not-reproducible', 'no failure struck, and the outcome differs from the first execution: exit ' + r.code + ' against ' + base.code + ' (' + what + ')'); continue; }
        const hits = r.log.split('; ').filter((h) => !/^stderr/.test(h)); const errbroken = /(^|; )stderr/.test(r.log) || /<stderr>/.test(r.log);
        if (!hits.length) { if (r.code !== base.code || !same) bad('stderr-failure', 'only standard error failed and the outcome differs: exit ' + r.code + ' against ' + base.code + (same ? '' : ', different output') + ' (' + what + ')'); continue; }
        let must = null; let cand = 0;
        for (const h of hits) {
          const m = /^(\w+)(?:#\S+)? (\S+)/.exec(h); const cls = m[1], p = m[2];
          const named = p === wl.out || wl.inputs.some((i) => '/w/' + i === p) || p === '<stdout>' || p === '<stdin>';
          if (/^heapcap|^alloc/.test(h)) must = 'an allocation failed';
          else if (cls === 'read' && !/#\S+ .* e0/.test(h) && !c.faults.some((f) => f.part > 0 && f.cls === 'read')) must = 'a read of ' + p + ' failed';
          else if (cls === 'write') must = 'a write to ' + p + ' failed';
          else if (cls === 'open' && named) must = 'opening ' + p + ' failed';
          else if (cls === 'close' && named && (p === wl.out || p === '<stdout>')) must = 'closing ' + p + ' failed';
          else if (cls === 'event') { if (c.faults.some((f) => f.cls === 'event' && f.sticky)) must = must || (base.code === 0 && named ? 'every host operation from ' + p + ' on failed' : null); if (!must) cand++; } else if (cls === 'open') cand++;
        }
        if (must && r.code === 0) bad('failure-ignored', must + ' and the compiler exits with 0' + (same ? '' : ', its output incomplete') + ' (' + what + ')');
        if (r.code !== 0 && !errbroken && !cc.diagnosed(r)) bad('no-diagnostic', 'the compiler exits with ' + r.code + ' and says nothing (' + what + ')');
        if (r.code === 0 && !same) {
          let ok = false;
          if (cand && c.faults.length) { // a search candidate that cannot be opened counts as absent
            const [r2] = go([{ opt: { ...c.opt, amode: c.opt.amode || 1 }, faults: c.faults.map((f) => f.cls === 'open' || f.cls === 'event' ? { ...f, err: 2 } : f) }], false); S.add(r2);
            ok = r2.end === 'exit' && r2.code === 0 && cc.same(r, r2, wl);
          }
          if (!ok) bad('wrong-output', 'the compiler exits with 0 and its output differs from that of a fault-free run: ' + L.diff(L.target(r, wl), L.target(base, wl)) + ' (' + what + ')');
        }
      }
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
    return S.done(plan, violation);
  },
};
