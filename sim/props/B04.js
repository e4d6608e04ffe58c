'use strict';
const { Batch } = require('../nsim');
const { Rng } = require('../rng');
const L = require('../nload');
const cc = require('../ccommon');
const cgen = require('../cgen');
const { bad } = require('../common');
const WRERR = [28, 5, 27, 122, 32];
function attempt(rng) {
  const opt = { aseed: rng.int(1 << 30), amode: rng.pick([1, 2, 4]), ioseed: rng.int(1000000), rchunk: rng.weighted([[6, 0], [1, 50], [1, 1000]]), sbuf: rng.weighted([[4, 0], [1, 64], [1, 500], [1, 4096]]), clock: 1600000000 + rng.int(100000000) };
  const f = rng.weighted([
    [6, () => ({ cls: 'event', kill: 1, part: rng.pick([-1, 0, 0]) })], [3, () => ({ cls: 'alloc', kill: 1 })],
    [4, () => ({ cls: 'write', kill: 1, part: rng.pick([-1, 0, rng.range(1, 4000), rng.range(1, 100)]) })],
    [1, () => ({ cls: 'open', kill: 1, part: rng.pick([-1, 0]), where: 'out' })], [1, () => ({ cls: 'close', kill: 1, part: rng.pick([-1, 0]), where: 'out' })],
    [3, () => ({ cls: 'alloc', sticky: rng.int(2) })], [2, () => ({ cls: 'read', err: 5, sticky: 1 })], [2, () => ({ cls: 'open', err: rng.pick([13, 23, 24, 5]), sticky: rng.int(2) })],
    [3, () => ({ cls: 'write', err: rng.pick(WRERR), sticky: rng.int(2), part: rng.chance(0.5) ? 0 : rng.range(1, 5000) })], [1, () => ({ cls: 'close', err: 28, where: 'out' })], [1, () => ({ cls: 'open', err: 13, where: 'out' })],
    [1, () => ({ cls: 'stderr', err: 32, sticky: 1 })], [1, () => ({ cls: 'heapcap' })],
  ])();
  f.frac = rng.weighted([[5, () => rng.f()], [2, () => 1 - rng.f() * 0.05], [1, () => rng.f() * 0.05]])();
  return { opt, f };
}
function mutateWat(rng, s) {
  const ls = s.split('\n'); const ids = s.match(/\$[A-Za-z0-9_.:]+/g) || ['$x'];
  for (let k = rng.range(1, 2); k > 0; k--) {
    const i = rng.int(ls.length);
    switch (rng.int(5)) {
      case 0: ls.splice(i, 1); break;
      case 1: { const c = []; ls.forEach((l, j) => { if (/\$/.test(l)) c.push(j); }); if (c.length) { const j = rng.pick(c); ls[j] = ls[j].replace(/\$[A-Za-z0-9_.:]+/, () => rng.pick(ids)); } break; }
      case 2: { const c = []; ls.forEach((l, j) => { if (/(local|global|call|br)/.test(l)) c.push(j); }); if (c.length) { const j = rng.pick(c); ls[j] = ls[j].replace(/\$([A-Za-z0-9_.]+)/, '$$$1x'); } break; }
      case 3: { const c = []; ls.forEach((l, j) => { if (/^\s+\(local |label|\(block|\(loop/.test(l) || /^\s*(block|loop)/.test(l)) c.push(j); }); if (c.length) ls.splice(rng.pick(c), 1); break; }
      default: ls[i] = ls[i].replace(/\d+/, () => String(rng.int(100000)));
    }
  }
  return ls.join('\n');
}
module.exports = {
  id: 'B04', builds: ['base', 'native'], runs: { quick: 1600, thorough: 30000 }, wall: { quick: 70, thorough: 800 }, minMs: 30000, hangMs: 120000, mutateWat,
  rule: 'A run is a build history on one simulated disk: one compiler invocation, or a project compiled module by module to objects and linked, or a link of objects one of which was corrupted; every step is attempted several times with the process killed at some host operation or allocation (before, after or in the middle of its effect), or with a failing operation, and then once undisturbed. After every attempt the set of changed files is looked at, and at the end the disk is compared with that of an undisturbed history. Non-trivial: an attempt was killed or failed. Distinct by plan.',
  real: ['c.c', 'l.c', 'p.c', 'w.c', 'glibc stdio buffering'], stub: ['files, streams, heap and clock of the host (in-memory simulator)'],
  gen(rng) {
    const mode = rng.weighted([[5, 'one'], [4, 'project'], [2, 'corrupt']]); let wl, steps;
    if (mode === 'one') { wl = L.gen(rng, { existing: 0.6 }); steps = [{ args: wl.args, out: wl.out }]; } else {
      const g = cgen.gen(rng, { lib: rng.chance(0.6) }); wl = { kind: mode, real: {}, files: g.files, env: [], mods: g.mods, lib: g.lib }; const pre = ['-q', '-L', '/lib/', '-I', '/lib/include/']; steps = [];
      for (const m of g.mods) steps.push({ args: [...pre, '-c', '-o', m + '.wo', m + '.c'], out: '/w/' + m + '.wo' });
      const ext = rng.pick(['.wasm', '.wasm', '.wat', '']);
      steps.push({ args: [...pre, ...(ext ? ['-o', 'prog' + ext] : []), ...g.mods.map((m) => m + (rng.chance(0.8) || mode === 'corrupt' ? '.wo' : '.c'))], out: ext ? '/w/prog' + ext : null });
      if (rng.chance(0.5) && ext) wl.files['prog' + ext] = 'an older program';
    }
    // bystanders that no run may touch
    for (const f of ['prog.wasm.tmp', 'main.wat', 'a.out', 'core', 'prog.bak', 'notes.txt']) if (rng.chance(0.3) && wl.files[f] === undefined) wl.files[f] = 'bystander ' + f;
    const atts = []; for (let i = rng.range(3, 9); i > 0; i--) atts.push({ step: rng.int(steps.length), ...attempt(rng) });
    if (mode === 'corrupt') { wl.corrupt = { step: rng.int(wl.mods.length), seed: String(rng.u32()) }; for (const a of atts) a.step = steps.length - 1; }
    return { wl, mode, steps, atts };
  },
  lists: ['atts'],
  *simplify(p) { if (p.mode === 'one') for (const q of cc.simplify(p)) yield { ...q, steps: [{ args: q.wl.args, out: q.wl.out }] }; },
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null;
    const img = (B) => { L.image(B, ctx, wl); return B; };
    const job = (s, opt, faults) => ({ args: ['wcpl', ...s.args], env: wl.env, stdin: L.stdin(wl), opt, faults });
    const cor = (B, bytes) => { if (wl.corrupt && bytes) B.file('/w/' + wl.mods[wl.corrupt.step] + '.wo', bytes); return B; };
    let steps = plan.steps; const all = steps; const pre = {};
    // the undisturbed history
    let B = img(new Batch()); steps.forEach((s, i) => B.run(job(s, { amode: 6, keep: i ? 1 : 0 }, [])));
    let base = B.exec(ctx.dir); for (const r of base) S.add(r);
    if (wl.corrupt) {
      if (base.some((r) => r.end !== 'exit' || r.code !== 0)) { S.probe('baseline-fails'); return S.done(plan, null); }
      base.forEach((r, i) => { if (all[i].out && r.files.get(all[i].out)) pre[all[i].out] = r.files.get(all[i].out); });
      const f = all[wl.corrupt.step].out; pre[f] = Buffer.from(mutateWat(new Rng(wl.corrupt.seed), pre[f].toString('latin1')), 'latin1');
      delete pre[all[all.length - 1].out];
      steps = steps.map((s, i) => i === steps.length - 1 ? s : null);
      B = img(new Batch()); for (const p in pre) B.file(p, pre[p]); B.run(job(all[all.length - 1], { amode: 1 }, []));
      const b2 = B.exec(ctx.dir)[0]; S.add(b2); base = base.map(() => null); base[all.length - 1] = b2;
    }
    const history = []; const hist2 = [];
    try {
      if (base.some((r) => r && r.end !== 'exit')) { S.probe('baseline-ends-otherwise'); return S.done(plan, null); }
      const B2 = img(new Batch()); for (const p in pre) B2.file(p, pre[p]);
      let first = true;
      steps.forEach((s, i) => {
        if (!s) return; const b = base[i];
        for (const a of plan.atts.filter((x) => x.step === i)) {
          const opt = { ...a.opt, keep: first ? 0 : 1 }; first = false; const f = { ...a.f }; const faults = [];
          if (f.cls === 'heapcap') opt.heapcap = Math.max(1, Math.floor(b.peak * f.frac)); else {
            f.n = Math.floor(f.frac * b.cnt[f.cls]); if (f.where === 'out') { f.path = s.out || '<stdout>'; f.n = 0; }
            faults.push(f);
          }
          B2.run(job(s, opt, faults)); history.push({ a, i, s, f });
        }
        B2.run(job(s, { amode: 1, keep: first ? 0 : 1 }, [])); first = false; history.push({ a: null, i, s });
      });
      const rs = B2.exec(ctx.dir); const disk = new Map(); const clean = new Map();
      base.forEach((r) => { if (r) for (const [p, d] of r.files) clean.set(p, d); });
      rs.forEach((r, k) => {
        const h = history[k], b = base[h.i]; S.add(r); S.faults(r); const what = 'step ' + (h.i + 1) + ' of ' + all.length + ', attempt ' + (k + 1) + ', ' + (r.log || 'undisturbed') + '; command: wcpl ' + h.s.args.join(' ').slice(0, 200);
        if (r.end === 'killed') S.fault('kill', 0); else if (r.end !== 'exit') { if (!/asan/.test(r.end)) bad('crash', 'the compiler ended by ' + r.end + ' ' + r.code + ' ' + (r.foreign || '') + ' (' + what + ')'); }
        if (r.foreign) bad('foreign-operation', 'the compiler did: ' + r.foreign + ' (' + what + ')');
        for (const [p] of r.files) if (p !== h.s.out) bad('touched-other-file', p + ' was ' + (r.files.get(p) === null ? 'removed' : 'changed') + ' (' + what + ')');
        if (r.files.has(h.s.out) && !Buffer.isBuffer(r.files.get(h.s.out))) bad('target-removed', h.s.out + ' was removed (' + what + ')');
        if (r.files.has(h.s.out)) disk.set(h.s.out, r.files.get(h.s.out));
        const touched = r.files.has(h.s.out);
        if (h.a && touched && r.end === 'exit' && r.code !== 0) {
          const late = /(^|; )(write|close)#/.test(r.log) || new RegExp('open#\\S+ ' + (h.s.out || '-').replace(/[.\\]/g, '\\$&')).test(r.log) || /heapcap/.test(r.log) || (/(^|; )alloc#/.test(r.log) && !(b.outalloc > 0 && h.f.n < b.outalloc));
          if (!late) bad('target-lost', 'the run failed before the output was ready and the target was overwritten (' + what + '): ' + r.stderr.toString('latin1').slice(0, 200));
        }
        if (!h.a) {
          if (r.code !== b.code) bad('repeat-differs', 'the repeated run exits with ' + r.code + ', an uninterrupted one with ' + b.code + ' (' + what + '): ' + r.stderr.toString('latin1').slice(0, 300));
          if (!L.eq(r.stdout, b.stdout)) bad('repeat-differs', 'the repeated run prints something else: ' + L.diff(r.stdout, b.stdout) + ' (' + what + ')');
          if (r.code !== 0 && touched) bad('target-lost', 'the run fails without any fault and the target was overwritten (' + what + '): ' + r.stderr.toString('latin1').slice(0, 200));
          const d = disk.get(h.s.out), e = clean.get(h.s.out);
          if (r.code === 0 && h.s.out && (!d || !e || !L.eq(d, e))) bad('repeat-differs', h.s.out + ' after the repeated run: ' + L.diff(d, e) + ' (' + what + ')');
        }
      });
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
    return S.done(plan, violation);
  },
};
