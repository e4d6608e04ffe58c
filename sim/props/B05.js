'use strict';
const fs = require('fs'), path = require('path');
const { Batch } = require('../nsim');
const L = require('../nload');
const cc = require('../ccommon');
const SR = require('../selfrun');
const wild = require('../wild');
const nonsense = require('../nonsense');
const { REPO } = require('../build');
const { bad } = require('../common');
// The library documents that its decimal floating-point conversions are approximate: decimal renderings in comments and dumps
// are not compared, and programs with constants that need more than plain arithmetic to be exact are left out.
const deflt = (b) => b.toString('latin1').replace(/(f(?:32|64)\.const [^\s()]+) \(;[^;]*;\)/g, '$1 (; ;)').replace(/(\(literal (?:float|double)) [^\s()]+/g, '$1 ?').replace(/((?:literal|float|double) )-?\d+\.?\d*(?:e[-+]?\d+)?(?=\))/g, '$1?');
function risky(src) {
  for (const m of src.matchAll(/(?<![\w.])(?:\d+\.\d*|\.\d+|\d+(?=[eE][-+]?\d))(?:[eE]([-+]?\d+))?/g)) {
    const digits = m[0].replace(/[eE].*/, '').replace('.', '').replace(/^0+/, ''); const frac = (/\.(\d*)/.exec(m[0]) || ['', ''])[1].length; const e = (m[1] ? +m[1] : 0) - frac;
    if (digits.length > 15 || Math.abs(e) > 22) return true;
  }
  return false;
}
// system error texts belong to the C library
const ERRTXT = ['No such file or directory', 'Is a directory', 'Not a directory', 'Permission denied', 'Cannot allocate memory', 'Success', 'Bad file descriptor', 'Input/output error', 'Invalid argument'];
function sameDiag(a, b) {
  const x = deflt(a).split('\n'), y = deflt(b).split('\n'); if (x.length !== y.length) return false;
  for (let i = 0; i < x.length; i++) { if (x[i] === y[i]) continue; const t = ERRTXT.find((e) => x[i].endsWith(': ' + e)); if (!t || !y[i].startsWith(x[i].slice(0, -t.length))) return false; }
  return true;
}
const sameOut = (a, b) => a === b || (!!a && !!b && (L.eq(a, b) || (a[0] !== 0 && deflt(a) === deflt(b))));
function sameFiles(a, b) { if (a.size !== b.size) return false; for (const [p, d] of a) { if (!b.has(p)) return false; const e = b.get(p); if (d === null || e === null) { if (d !== e) return false; } else if (!sameOut(d, e)) return false; } return true; }
const OPTV = ['0', '1', '3', '-1', '', ' 5', '5x', '0x400', '010', '1024', '2000', '65536', '65537', '16777216', '16777217', '2147483647', '2147483648', '4294967295', '4294967296', '4294968320', '9223372036854775807', '18446744073709551615', '18446744073709551616', '18446744073709556736', '99999999999999999999999', '+4096', '-4294963200', '-18446744073709550592', '1e4', 'abc'];
const HOSTERR = [6, 8, 22, 27, 29, 42, 48, 51, 58, 63, 76];
function gencase(rng) {
  const c = { layout: rng.pick(Object.keys(SR.LAYOUTS)), env: rng.chance(0.2) ? [rng.pick(['TZ=EST5EDT', 'PWD=/nowhere', 'LANG=C', 'HOME=/'])] : [], clock: rng.pick([0, 1700000000, 4102444800, rng.int(2147483647)]), chunk: rng.weighted([[5, 0], [1, 1], [1, 13], [1, 255], [1, 1000], [1, 4095]]), chunkseed: rng.int(1 << 30), f: null };
  if (rng.chance(0.5)) c.f = rng.weighted([
    [4, () => ({ sc: 'fd_read', err: rng.pick(HOSTERR) })], [4, () => ({ sc: 'fd_write', err: rng.pick(HOSTERR.concat(51, 51)) })], [3, () => ({ sc: 'path_open', err: rng.pick(HOSTERR.concat(2, 44, 33, 41)) })], [2, () => ({ sc: 'fd_close', err: rng.pick([29, 51, 27]), after: true })],
    [2, () => ({ sc: '*', err: rng.pick(HOSTERR) })], [1, () => ({ sc: 'fd_prestat_get', err: rng.pick([29, 48]) })], [1, () => ({ sc: 'fd_prestat_dir_name', err: 29 })], [1, () => ({ sc: 'args_get', err: 29 })], [1, () => ({ sc: 'environ_get', err: 48 })],
    [2, () => ({ quota: true })], [2, () => ({ wchunk: rng.pick([1, 7, 100, 1000, 1023, 4000]) })], [2, () => ({ pages: rng.pick([0, 1, 2, 5, 9, 14, 20, 30, 60]) })], [1, () => ({ sc: 'fd_write', short0: true })], [1, () => ({ fdlimit: rng.range(4, 9) })],
  ])();
  if (c.f) { c.f.frac = rng.f(); c.f.last = rng.chance(0.15); }
  return c;
}
const brief = (r) => JSON.stringify(r.stderr.toString('latin1').slice(-200));
function compare(r, nat, wl, what) {
  if (nat.end !== 'exit') { if (r.end === 'exit') bad('native-' + nat.end, 'the native compiler ends by ' + nat.end + ' ' + nat.code + ' ' + (nat.foreign || '') + brief(nat) + ', the self-hosted one by exit ' + r.code + ' (' + what + ')'); return; }
  if (r.end !== 'exit') bad('self-' + r.end, 'the self-hosted compiler ends by ' + r.end + ' ' + (r.why || '') + ', the native one by exit ' + nat.code + ' (' + what + '): ' + brief(r));
  if (r.code !== nat.code) bad('exit-status', 'the self-hosted compiler exits with ' + r.code + ', the native one with ' + nat.code + ' (' + what + '): ' + brief(r) + ' against ' + brief(nat));
  if (!sameOut(r.stdout, nat.stdout)) bad('output', 'standard output of the self-hosted compiler differs: ' + L.diff(r.stdout, nat.stdout) + ' (' + what + ')');
  if (!sameFiles(r.files, nat.files)) bad('output', 'files written by the self-hosted compiler differ (' + [...r.files.keys()] + ' against ' + [...nat.files.keys()] + '): ' + L.diff(L.target(r, wl), L.target(nat, wl)) + ' (' + what + ')');
  if (!sameDiag(nat.stderr, r.stderr)) bad('diagnostics', 'the diagnostics of the self-hosted compiler differ: ' + L.diff(Buffer.from(deflt(r.stderr), 'latin1'), Buffer.from(deflt(nat.stderr), 'latin1')) + ' (' + what + ')');
}
module.exports = {
  id: 'B05', builds: ['base', 'native', 'self'], runs: { quick: 900, thorough: 50000 }, wall: { quick: 80, thorough: 800 }, minMs: 30000, hangMs: 150000,
  rule: 'A run picks one compiler invocation (compile, link, whole program; generated, repository, library, broken or no sources, odd command lines), executes the native compiler, and then the compiler compiled by itself two to five times under a WASI host with one of six preopen layouts, reads split at random, other clocks and environments; half of those executions meet a host failure: an error from a chosen call, a full disk, shortened writes, a memory limit, a descriptor limit, a write of nothing. Three runs in ten instead compile ten to thirty small random programs at the limits of types, constants and initialisers by both compilers. Non-trivial: splitting, a failure, or another layout. Distinct by plan.',
  real: ['c.c', 'l.c', 'p.c', 'w.c', 'compiled by themselves with lib/src (stdio, stdlib, string, fcntl, time, crt, ...)', 'native build for comparison'], stub: ['WASI host (in-memory simulator)', 'native host (in-memory simulator)'],
  gen(rng) {
    let wl;
    if (rng.chance(0.3)) { // many small programs at the limits of the dialect, compiled by both
      const many = []; const deep = rng.chance(0.04); if (deep) many.push(wild.NEST[rng.pick([0, 1, 3, 4, 5, 16])](rng.range(100, 300)) + '\n'); else for (let i = rng.range(10, 30); i > 0; i--) many.push(rng.chance(0.15) ? wild.nest(rng, rng.range(2, 40)) : rng.chance(0.25) ? nonsense.gen(rng) : wild.gen(rng));
      const c = gencase(rng); c.f = null; c.chunk = c.chunk && Math.max(c.chunk, 13);
      return { wl: { kind: 'many', files: {}, real: {}, env: [], args: [...(rng.chance(0.7) ? ['-q'] : ['-v']), ...(rng.chance(0.3) ? ['-w'] : []), ...(rng.chance(0.4) ? ['-O', String(rng.int(4))] : []), '-L', '/lib/', '-c'], inputs: [], out: null }, cases: [c], many, deep };
    }
    for (let k = 0; k < 50; k++) {
      wl = L.gen(rng, { cc: rng.chance(0.08) ? 2 : 0 });
      const texts = Object.values(wl.files).concat(Object.values(wl.real).map((f) => fs.readFileSync(path.join(REPO, f), 'latin1')));
      if (!texts.some((t) => risky(t.replace(/\/\*[^]*?\*\//g, '')))) break;
    }
    if (rng.chance(0.09)) { // odd command lines
      const alt = rng.pick([[], ['-c', 'nosuch.c'], ['nosuch.c'], ['nosuch.wo'], ['-o', 'x.wasm'], ['-z'], ['-s', '5', 'x.c'], ['-a', '1', 'x.c'], ['-c', ...wl.inputs, 'more.c'], ['-o', 'nodir/x.wasm', ...wl.inputs], ['-o', 'out', ...wl.inputs], ['-O'], ['-c', 'out'], ['out.c', 'out.c'], ['-I'], ['--', ...wl.inputs], ['-qqq', ...wl.inputs], ['-qc', ...wl.inputs.slice(0, 1)], ['-ox.wat', ...wl.inputs], ...Array.from({ length: 12 }, () => [rng.pick(['-O', '-s', '-a']), rng.pick(OPTV), '-c', ...wl.inputs.slice(0, 1)])]);
      wl.args = [...(rng.chance(0.5) ? ['-q'] : []), '-L', '/lib/', ...alt]; wl.out = null;
    }
    const n = wl.kind === 'cc' ? 1 : rng.range(2, 5); const cases = []; for (let i = 0; i < n; i++) cases.push(gencase(rng));
    if (wl.kind === 'cc') for (const c of cases) { c.clock = 1700000000; c.chunk = c.chunk && Math.max(c.chunk, 255); }
    return { wl, cases, many: [] };
  },
  lists: ['cases', 'many'],
  *simplify(p) { for (let i = 0; p.many.length <= 2 && i < p.many.length; i++) { const ls = p.many[i].split('\n'); for (let k = ls.length >> 1; k >= 1; k >>= 1) for (let j = 0; j + k <= ls.length; j += k) yield { ...p, many: p.many.map((x, q) => q === i ? ls.slice(0, j).concat(ls.slice(j + k)).join('\n') : x) }; } yield* cc.simplify(p); for (let i = 0; i < p.cases.length; i++) for (const [k, v] of [['chunk', 0], ['layout', 'split'], ['clock', 1700000000]]) if (p.cases[i][k] !== v) yield { ...p, cases: p.cases.map((c, j) => j === i ? { ...c, [k]: v } : c) }; },
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null; let plain = 0;
    if (wl.kind === 'many') {
      const B = new Batch(); const wls = plan.many.map((x) => ({ ...wl, files: { 'wild.c': x }, inputs: ['wild.c'], args: [...wl.args, 'wild.c'] }));
      L.image(B, ctx, wl); for (const x of wls) { B.file('/w/wild.c', Buffer.from(x.files['wild.c'], 'latin1')); B.clear(); B.run(L.job(x, { amode: 6 }, [])); }
      const ns = wls.length ? B.exec(ctx.dir) : [];
      try {
        ns.forEach((nat, i) => {
          S.add(nat); const c = plan.cases[0] || { layout: 'split', env: [], clock: 1700000000, chunk: 0, chunkseed: 1 }; const r = SR.run(ctx, wls[i], { layout: c.layout, env: c.env, clock: c.clock, chunk: c.chunk, chunkseed: c.chunkseed, maxsys: 6000000 }); S.mix(r.w.digest()); S.probe('calls', r.w.nsys); S.probe(nat.end !== 'exit' ? 'limits-' + nat.end : nat.code ? 'limits-refused' : 'limits-accepted');
          if (plan.deep && nat.end === 'exit' && nat.code === 0) { // the stack of the self-hosted compiler is 128 KB and not guarded
            try { compare(r, nat, wls[i], 'a program with constructs nested 100 or more deep'); } catch (e) { if (e.cls === undefined) throw e; bad('deep-nesting', e.message, 'deep-nesting'); }
            return;
          }
          compare(r, nat, wls[i], 'program ' + i + ', layout ' + c.layout + (c.chunk ? ', reads of at most ' + c.chunk : '') + '; command: ' + cc.cmd(wls[i]));
        });
      } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
      return S.done(plan, violation, ns.length > 0);
    }
    const B = new Batch(); L.image(B, ctx, wl); B.run(L.job(wl, { amode: 6 }, [])); const nat = B.exec(ctx.dir)[0]; S.add(nat);
    if (nat.end !== 'exit') S.probe('baseline-' + nat.end);
    const count = (w) => { for (const k in w.calls) S.probe('calls', w.calls[k]); S.mix(w.digest()); S.sim(Number(w.rt - BigInt(w.cfg.realtime !== undefined ? w.cfg.realtime : 1700000000000000000n))); for (const k in w.fired) S.fault(k, w.fired[k]); };
    try {
      for (const c of plan.cases) {
        const o = { layout: c.layout, env: c.env, clock: c.clock, chunk: c.chunk, chunkseed: c.chunkseed, maxsys: 6000000 };
        const what = 'layout ' + c.layout + (c.chunk ? ', reads of at most ' + c.chunk : '') + '; command: ' + cc.cmd(wl);
        const r = SR.run(ctx, wl, o); count(r.w); S.fault('layout-' + c.layout, 0); plain++;
        compare(r, nat, wl, what);
        if (nat.end !== 'exit') continue;
        if (!c.f) continue;
        const mk = (errno) => {
          const q = { ...o }; const f = c.f;
          if (f.pages !== undefined) q.pages = f.pages; else if (f.wchunk) q.wchunk = f.wchunk;
          else if (f.quota || f.fdlimit) { /* set on the world below */ } else { const tot = f.sc === '*' ? r.w.nsys : (r.w.calls[f.sc] || 0); const n = f.last ? Math.max(0, tot - 1) : Math.floor(f.frac * tot); q.faults = [f.short0 ? { sc: f.sc, n, kind: 'short', k: 0, zero: true } : { sc: f.sc, n, kind: 'err', errno: errno !== undefined ? errno : f.err, after: f.after }]; }
          return q;
        };
        const exec = (errno) => { const w0 = mk(errno); if (c.f.quota || c.f.fdlimit) w0.tune = (w) => { if (c.f.quota) { const t = L.target(nat, wl); w.fs.quota = w.fs.used + Math.floor(c.f.frac * (t ? t.length : 100)); } if (c.f.fdlimit) w.fdlimit = c.f.fdlimit; }; return SR.run(ctx, wl, w0); };
        const q = exec(); count(q.w); const fw = JSON.stringify(c.f) + '; ' + what; if (c.f.pages !== undefined) S.fault('memory-limit'); if (c.f.wchunk) S.fault('short-writes'); if (c.f.fdlimit) S.fault('descriptor-limit');
        if (q.end !== 'exit') bad('self-' + q.end, 'after a host failure the self-hosted compiler ends by ' + q.end + ' ' + (q.why || '') + ' (' + fw + ')');
        const same = sameOut(q.stdout, nat.stdout) && sameFiles(q.files, nat.files);
        if (q.code === 0 && !same) {
          let ok = false;
          if (c.f.sc === 'path_open' || c.f.sc === '*' || (c.f.sc && c.f.sc.startsWith('fd_prestat'))) { const q2 = exec(44); count(q2.w); ok = q2.end === 'exit' && q2.code === 0 && sameOut(q.stdout, q2.stdout) && sameFiles(q.files, q2.files) && candOpen(q, wl); }
          // a host that refuses the arguments or the environment: reported on standard error, and taken as there being none
          const noenv = q.stderr.includes('unable to retrieve environment strings'), noarg = q.stderr.includes('unable to retrieve command-line arguments');
          if (!ok && (noenv || noarg)) { const q3 = SR.run(ctx, noarg ? { ...wl, args: [] } : { ...wl, env: [], xenv: [] }, noarg ? o : { ...o, env: [] }); count(q3.w); ok = q3.end === 'exit' && q3.code === 0 && sameOut(q.stdout, q3.stdout) && sameFiles(q.files, q3.files); }
          if (!ok) bad('wrong-output', 'the host failed, the self-hosted compiler exits with 0, and its output differs: ' + L.diff(L.target(q, wl), L.target(nat, wl)) + ' (' + fw + ')');
        }
        if (q.code === 0 && nat.code !== 0) bad('wrong-output', 'the self-hosted compiler exits with 0 and the native one with ' + nat.code + ' (' + fw + ')');
      }
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
    return S.done(plan, violation, plain > 0);
  },
};
// was the failing call the opening of something searched for (not of an input or the output)?
function candOpen(q, wl) {
  for (const t of q.w.ftrace || []) { const m = /^path_open.* (\S+)$/.exec(t); if (!m) return !/fd_read|fd_write|fd_close/.test(t); const p = m[1]; for (const i of wl.inputs.concat(wl.out ? [wl.out.slice(3)] : [])) if (p === i || p.endsWith('/' + i)) return false; }
  return true;
}
