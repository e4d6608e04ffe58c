'use strict';
const fs = require('fs'), path = require('path');
const { Batch } = require('../nsim');
const { Rng } = require('../rng');
const L = require('../nload');
const cc = require('../ccommon');
const cgen = require('../cgen');
const { damage } = require('../damage');
const nonsense = require('../nonsense');
const { REPO } = require('../build');
const { bad } = require('../common');
const opt1 = (rng) => ({ aseed: rng.int(1 << 30), amode: rng.pick([1, 2, 3, 4, 5, 6]), ioseed: rng.int(1000000), rchunk: rng.weighted([[4, 0], [1, 1], [1, 37], [1, 1000]]), sbuf: rng.weighted([[4, 0], [1, 64], [1, 4096]]) });
const LIBS = ['stdio', 'string', 'stdlib', 'errno', 'crt', 'crt.void', 'crt.args', 'fcntl', 'ctype', 'stdarg', 'unistd', 'math', 'wasi.api', 'dirent', 'time'];
module.exports = {
  id: 'B07', builds: ['base', 'native'], runs: { quick: 1000, thorough: 60000 }, wall: { quick: 110, thorough: 800 }, minMs: 30000, hangMs: 120000,
  rule: 'A run builds a generated, library or repository workload and compiles its sources to objects, then repeats the builds with one input damaged at a time: a source, one of its or the library\'s headers, an object file or a library object gets one to four seeded damages (cut at a byte or sector, sectors zeroed, filled with ones, lost, swapped, doubled, taken from another file or followed by a stale tail, bits flipped, tokens inserted or erased, long runs, whole words lost, doubled or replaced), or a source is replaced by one whose tokens are in order but whose types are arbitrary. Each damaged input is read twice, under different heap contents and layouts and read splittings, half of the time once under AddressSanitizer. Both executions must end by an exit, a nonzero status must come with a diagnostic, and status, diagnostics and output of the two must agree. The undamaged builds must end by an exit as well.',
  real: ['c.c', 'l.c', 'p.c', 'w.c'], stub: ['files, streams, heap and clock of the compiler host (in-memory simulator)'],
  gen(rng) {
    const wl = L.gen(rng, { mut: false, wild: 1, cc: 0.1 }); const list = [];
    for (let i = rng.range(8, 24); i > 0; i--) list.push({ what: rng.weighted([[3, 'nonsense'], [4, 'source'], [2, 'header'], [6, 'object'], [3, 'library']]), m: rng.int(1000), seed: rng.int(1 << 30), opts: [opt1(rng), rng.chance(0.5) ? { ...opt1(rng), amode: 0 } : opt1(rng)] });
    return { wl, list };
  },
  lists: ['list'], simplify: cc.simplify,
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null; let hit = 0;
    try {
      const B0 = new Batch(); L.image(B0, ctx, wl); B0.dir('/w/obj');
      const srcs = wl.inputs.map((i) => i === '-' ? wl.stdinFrom : i).filter((x) => /\.c$/.test(x));
      B0.run(L.job(wl, { amode: 6 }, [])); for (const s of srcs) B0.run({ args: ['wcpl', '-q', '-L', '/lib/', '-I', '/lib/include/', '-c', '-o', 'obj/' + s.replace(/\.c$/, '.wo'), s], opt: { amode: 6 } });
      const rs = B0.exec(ctx.dir); for (const r of rs) S.add(r); const base = rs[0];
      if (rs.some((r) => r.end !== 'exit')) bad('crash', 'undamaged input: ' + rs.map((r) => r.end).join());
      const objs = srcs.map((s, i) => ({ s, d: rs[i + 1].files.get('/w/obj/' + s.replace(/\.c$/, '.wo')) })).filter((x) => x.d);
      const read = (f) => wl.files[f] !== undefined ? Buffer.from(wl.files[f], 'latin1') : wl.real[f] ? fs.readFileSync(path.join(REPO, wl.real[f])) : null;
      const B = new Batch(), A = new Batch(); const exp = []; L.image(B, ctx, wl); L.image(A, ctx, wl); for (const X of [B, A]) { X.dir('/w/obj'); for (const o of objs) X.file('/w/obj/' + o.s.replace(/\.c$/, '.wo'), o.d); }
      for (const t of plan.list) {
        const r = new Rng('d' + t.seed); let p, d, args = null, back = null, stdin; const other = read(srcs[t.m % Math.max(1, srcs.length)]);
        if (t.what === 'source' && srcs.length) { const f = srcs[t.m % srcs.length]; p = '/w/' + f; back = read(f); d = damage(r, back, other); args = ['wcpl', ...wl.args]; if (wl.stdinFrom === f) stdin = d; }
        else if (t.what === 'header') {
          const hs = Object.keys(wl.files).filter((f) => /\.h$/.test(f)).map((f) => ['/w/' + f, read(f)]).concat(L.scan().inc.filter((x) => /^(stdio|string|stdlib|stddef|stdarg|math|wasm_simd128|wasi\/api|errno)\.h$/.test(x)).map((f) => ['/lib/include/' + f, fs.readFileSync(path.join(REPO, 'lib/include', f))]));
          const h = hs[t.m % hs.length]; [p, back] = h; d = damage(r, back, other); args = ['wcpl', ...wl.args]; if (wl.stdinFrom) stdin = read(wl.stdinFrom);
        } else if (t.what === 'object' && objs.length) { const o = objs[t.m % objs.length]; p = '/w/obj/' + o.s.replace(/\.c$/, '.wo'); back = o.d; d = damage(r, back, objs[(t.m >> 3) % objs.length].d); args = ['wcpl', '-q', '-L', '/lib/', '-o', 'out/x' + (t.m & 1 ? '.wat' : '.wasm'), ...objs.map((x) => 'obj/' + x.s.replace(/\.c$/, '.wo'))]; }
        else if (t.what === 'library') { const l = LIBS[t.m % LIBS.length]; const f = path.join(ctx.dir, 'lib', l + '.wo'); if (!fs.existsSync(f)) continue; p = '/lib/' + l + '.wo'; back = fs.readFileSync(f); d = damage(r, back, fs.readFileSync(path.join(ctx.dir, 'lib/string.wo'))); args = ['wcpl', ...wl.args]; if (wl.stdinFrom) stdin = read(wl.stdinFrom); }
        else if (t.what === 'nonsense') { p = '/w/nonsense.c'; back = null; d = Buffer.from(nonsense.gen(r), 'latin1'); if (r.chance(0.2)) d = damage(r, d, other); args = ['wcpl', '-q', '-L', '/lib/', '-I', '/lib/include/', '-o', 'out/n' + (t.m & 1 ? '.wat' : '.wasm'), 'nonsense.c']; }
        if (!args || (back && d.equals(back))) continue;
        if (back && d.length > back.length + 800) args = args.filter((x) => !/^-v+$/.test(x)); // the trace of an expression nested n deep is n*n bytes, unbuffered
        hit++; S.fault('damaged-' + t.what);
        t.opts.forEach((o, i) => { const X = o.amode === 0 ? A : B; X.file(p, d); X.clear(); X.run({ args, env: wl.env, stdin, opt: { ...o, fdmax: 250, evmax: 12000000 } }); exp.push({ t, i, X, k: X.n - 1, p, d, args }); if (back) X.file(p, back); X.clear(); });
      }
      const rb = B.n ? B.exec(ctx.dir) : [], ra = A.n ? A.exec(ctx.dir, true) : []; let first = null;
      for (const e of exp) {
        const r = (e.X === A ? ra : rb)[e.k]; S.add(r); const what = 'with ' + e.p + ' damaged (' + e.d.length + ' bytes); command: ' + cc.cmd({ args: e.args });
        if (process.env.DBG && r.end !== 'exit') fs.writeFileSync('/tmp/dn/dmg-' + e.p.replace(/.*\//, ''), e.d);
        if (r.end !== 'exit' && (r.asan ? /stack-overflow/.test(r.asan) : /signal|crash/.test(r.end)) && /([^]{1,12}?)\1{999,}/.test(e.d.toString('latin1'))) bad('deep-nesting', 'the parser overflows the stack ' + what, 'deep-nesting');
        if (r.end !== 'exit') bad('crash', 'the compiler ended by ' + r.end + ' ' + r.code + ' ' + (r.foreign || '') + r.stderr.toString('latin1').slice(-200) + ' ' + what + (r.asan ? '\n' + r.asan.slice(0, 1500) : ''));
        if (r.code !== 0 && !cc.diagnosed(r)) bad('no-diagnostic', 'the compiler exits with ' + r.code + ' and says nothing ' + what);
        if (e.i === 0) { first = r; S.probe(e.t.what + (r.code ? '-refused' : '-accepted')); } else if (r.code !== first.code || !cc.same(r, first, { }) || !L.eq(r.stderr, first.stderr)) bad('depends-on-heap', 'two executions differ: exit ' + first.code + ' and ' + r.code + ', ' + first.stderr.toString('latin1').slice(0, 200) + ' and ' + r.stderr.toString('latin1').slice(0, 200) + ' ' + what);
      }
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
    return S.done(plan, violation, hit > 0);
  },
};
