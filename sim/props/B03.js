'use strict';
const fs = require('fs'), path = require('path');
const { Batch } = require('../nsim');
const L = require('../nload');
const cc = require('../ccommon');
const cgen = require('../cgen');
const { REPO } = require('../build');
const { bad, host } = require('../common');
const EXTRA = ['string', 'ctype', 'stdio', 'stdlib', 'math', 'errno', 'time', 'fcntl', 'dirent', 'unistd', 'wctype', 'wchar'];
const ropt = (rng) => ({ aseed: rng.int(1 << 30), amode: rng.pick([1, 2, 4, 4, 6]), ioseed: rng.int(1000000), rchunk: rng.weighted([[4, 0], [1, 1], [1, 37], [1, 256], [1, 1000]]), sbuf: rng.weighted([[4, 0], [1, 64], [1, 256], [1, 4096]]) });
function runWasm(bin, args) {
  let m; try { m = new WebAssembly.Module(bin); } catch (e) { bad('invalid-module', 'the linked program is not a valid module: ' + e.message); }
  const w = new host.World({ args: args || ['prog'], env: [] });
  const end = host.runProgram(m, w);
  return JSON.stringify([end.end, end.code, end.why]) + '|' + w.sinkBytes(1).toString('latin1') + '|' + w.sinkBytes(2).toString('latin1');
}
module.exports = {
  id: 'B03', builds: ['base', 'native'], runs: { quick: 700, thorough: 40000 }, wall: { quick: 70, thorough: 800 }, minMs: 30000, hangMs: 120000,
  rule: 'A run takes a program of one to six modules (generated, or a repository program, or the compiler itself; sometimes with library modules named on the command line), builds it from sources in one invocation, compiles its modules to stored objects, and links random mixtures of objects and sources and random orders of inputs, every step with its own heap layout and read splitting. Mixtures in the same order must give identical bytes; other orders the same outcome and, run under the host simulator, the same behaviour. Then objects (of the program or of the library) are torn: cut at chosen points, or by killing or failing the compiler while it writes them; linking must refuse them. Non-trivial: two modules or more, or a torn object. Distinct by plan.',
  real: ['c.c', 'l.c', 'p.c', 'w.c', 'generated modules executed by V8'], stub: ['files, streams, heap and clock of the compiler host; WASI host of the programs (in-memory simulators)'],
  gen(rng) {
    const kind = rng.weighted([[12, 'gen'], [3, 'ex'], [0.15, 'cc']]); const wl = { kind, files: {}, real: {}, env: [], mods: [] };
    if (kind === 'gen') { const g = cgen.gen(rng, { lib: rng.chance(0.7), clash: rng.chance(0.12) }); wl.files = g.files; wl.mods = g.mods; wl.lib = g.lib; } else if (kind === 'ex') { const f = rng.pick(L.scan().ex); const b = f.replace(/^.*\//, ''); wl.real[b] = f; wl.mods = [b.replace(/\.c$/, '')]; wl.lib = true; } else { for (const f of L.scan().cc) wl.real[f] = f; wl.mods = ['c', 'l', 'p', 'w']; wl.lib = true; }
    wl.xl = []; // library modules given by name
    if (wl.lib && kind !== 'cc' && rng.chance(0.25)) { for (let i = rng.range(1, 3); i > 0; i--) { const m = rng.pick(EXTRA); if (!wl.xl.includes(m) && !wl.mods.includes(m)) wl.xl.push(m); } }
    wl.lay = [...(rng.chance(0.3) ? ['-a', rng.pick(['0', '512', '8192'])] : []), ...(rng.chance(0.2) ? ['-s', rng.pick(['1024', '65536'])] : [])];
    wl.ext = rng.weighted([[4, '.wasm'], [3, '.wat'], [1, '']]); const all = wl.mods.concat(wl.xl);
    const mixes = []; for (let i = kind === 'cc' ? 2 : rng.range(2, 5); i > 0; i--) mixes.push({ pick: all.map(() => rng.chance(i === 1 ? 1 : 0.6)), opt: ropt(rng) });
    const perms = []; if (all.length > 1) for (let i = kind === 'cc' ? 0 : rng.int(3); i > 0; i--) perms.push({ order: rng.shuffle(all.map((_, k) => k)), pick: all.map(() => rng.chance(0.5)), opt: ropt(rng) });
    const torn = []; for (let i = kind === 'cc' ? 1 : rng.range(1, 5); i > 0; i--) torn.push({ what: rng.weighted([[4, 'cut'], [3, 'kill'], [2, 'lib']]), m: rng.int(all.length), frac: rng.weighted([[4, () => rng.f()], [2, () => 1 - rng.f() * 0.01], [1, () => 0], [1, () => 0.999999], [1, () => rng.f() * 0.02]])(), part: rng.pick([-1, 0, rng.range(1, 4000)]), fail: rng.chance(0.3), opt: ropt(rng) });
    const conf = []; if (kind === 'gen' && rng.chance(0.35)) for (let i = rng.range(1, 2); i > 0; i--) conf.push({ what: rng.pick(['main', 'twice', 'missing']), m: rng.int(all.length), orders: Array.from({ length: rng.range(2, 3) }, () => rng.shuffle(Array.from({ length: all.length + 1 }, (_, k) => k))), pick: rng.int(1 << 20), opt: ropt(rng) });
    return { wl, objopt: ropt(rng), mixes, perms, torn, conf };
  },
  lists: ['mixes', 'perms', 'torn', 'conf'],
  simplify: cc.simplify,
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null;
    const pre = ['wcpl', '-q', '-L', '/lib/', '-I', '/lib/include/']; const names = wl.mods.concat(wl.xl);
    const srcOf = (m) => wl.xl.includes(m) ? '/src/' + m + '.c' : m + '.c';
    const img = (B) => { L.image(B, ctx, wl); B.dir('/src'); for (const m of wl.xl) B.link('/src/' + m + '.c', path.join(REPO, 'lib/src', m + '.c')); return B; };
    const out = wl.ext ? ['-o', 'prog' + wl.ext] : []; const outp = wl.ext ? '/w/prog' + wl.ext : null;
    const get = (r) => outp ? r.files.get(outp) : r.stdout;
    const present = wl.xl.filter((m) => fs.existsSync(path.join(REPO, 'lib/src', m + '.c')) && !wl.mods.includes(m));
    if (present.length !== wl.xl.length) { S.probe('no-such-library-module'); return S.done(plan, null, false); }
    const objp = (m) => '/w/obj/' + m + '.wo'; const opt1 = (o) => ({ ...o });
    try {
      const B = img(new Batch()); B.dir('/w/obj');
      B.run({ args: [...pre, ...wl.lay, ...out, ...names.map(srcOf)], opt: { amode: 6 } });
      for (const m of names) B.run({ args: [...pre, '-c', '-o', objp(m), srcOf(m)], opt: opt1(plan.objopt) });
      const [ref, ...objs] = B.exec(ctx.dir); for (const r of [ref, ...objs]) S.add(r);
      const said = (r) => r.stderr.toString('latin1').slice(0, 300);
      if (ref.end !== 'exit') { S.probe('baseline-' + ref.end); if (process.env.DBG) console.log(said(ref)); return S.done(plan, null, false); }
      const bin = {};
      objs.forEach((r, i) => { if (r.end === 'exit' && r.code === 0) bin[names[i]] = r.files.get(objp(names[i])); });
      if (ref.code !== 0) {
        S.probe('baseline-refused');
        if (Object.keys(bin).length < names.length) return S.done(plan, null, false);
      }
      names.forEach((m, i) => { if (!bin[m]) bad('compile-fails-alone', m + ' is accepted as part of the program and refused by -c: ' + said(objs[i])); });
      const withObjs = (B2) => { B2.dir('/w/obj'); for (const m of names) B2.file(objp(m), bin[m]); return B2; };
      const inp = (order, pick) => order.map((k) => pick[k] ? 'obj/' + names[k] + '.wo' : srcOf(names[k]));
      const id = names.map((_, k) => k); const B2 = withObjs(img(new Batch()));
      for (const x of plan.mixes) B2.run({ args: [...pre, ...wl.lay, ...out, ...inp(id, x.pick)], opt: x.opt });
      const ms = B2.n ? B2.exec(ctx.dir) : [];
      ms.forEach((r, i) => {
        S.add(r); S.fault('object-in-place-of-source', plan.mixes[i].pick.filter((x) => x).length); const what = inp(id, plan.mixes[i].pick).join(' ');
        if (r.end !== 'exit' || r.code !== ref.code) bad('mixture-outcome', 'linking ' + what + ' ends by ' + r.end + ' ' + r.code + ', compiling all in one run by ' + ref.code + ': ' + said(r) + said(ref));
        const a = get(r), b = get(ref);
        if (ref.code === 0 && !L.eq(a, b)) bad('mixture-differs', 'linking ' + what + ' gives another program than compiling all in one run: ' + L.diff(a, b));
      });
      if (ref.code !== 0) return S.done(plan, null, true);
      if (plan.perms.length) {
        const B3 = withObjs(img(new Batch())); B3.run({ args: [...pre, ...wl.lay, '-o', 'p.wasm', ...names.map(srcOf)], opt: { amode: 1 } });
        for (const x of plan.perms) B3.run({ args: [...pre, ...wl.lay, '-o', 'p.wasm', ...inp(x.order, x.pick)], opt: x.opt });
        const rs = B3.exec(ctx.dir); let want = null;
        rs.forEach((r, i) => {
          S.add(r); const what = i ? inp(plan.perms[i - 1].order, plan.perms[i - 1].pick).join(' ') : 'the sources'; if (i) S.fault('input-order');
          if (r.end !== 'exit' || r.code !== 0) bad('order-outcome', 'linking ' + what + ' ends by ' + r.end + ' ' + r.code + ': ' + said(r));
          if (wl.kind === 'gen') { const got = runWasm(r.files.get('/w/p.wasm')); S.mix(got); if (!i) want = got; else if (got !== want) bad('order-behaviour', 'linked from ' + what + ' the program does ' + got.slice(0, 300) + ' instead of ' + want.slice(0, 300)); }
        });
      } else if (wl.kind === 'gen' && wl.ext === '.wasm') S.mix(runWasm(get(ref)));
      // inputs that conflict or do not suffice: whatever comes of it, the order has no say in it
      for (const c of plan.conf || []) {
        const m = names[c.m % wl.mods.length]; const B5 = withObjs(img(new Batch())); let ins = names.map((x, k) => c.pick >> k & 1 ? 'obj/' + x + '.wo' : srcOf(x));
        if (c.what === 'missing') { if (names.length < 2) continue; ins = ins.filter((x, k) => names[k] !== m); }
        else if (c.what === 'main') { B5.file('/w/second.c', 'int main(void)\n{\n  return 77;\n}\n'); ins.push('second.c'); }
        else { // a second version of a module
          const src = wl.files[m + '.c']; if (!src) continue; const alt = src.replace(/return r;/g, 'return r + 1;').replace(/return x/g, 'return 1 ^ x'); B5.file('/w/alt/' + m + '.c', alt); B5.dir('/w/alt'); ins.push('alt/' + m + '.c');
          for (const h of Object.keys(wl.files)) if (/\.h$/.test(h)) B5.file('/w/alt/' + h, wl.files[h]);
        }
        const orders = [ins.map((_, k) => k), ...c.orders.map((o) => o.filter((k) => k < ins.length))];
        orders.forEach((o, i) => B5.run({ args: [...pre, ...wl.lay, '-o', 'q.wasm', ...o.map((k) => ins[k])], opt: i ? c.opt : { amode: 1 } }));
        const rs = B5.exec(ctx.dir); let want = null; S.fault('inputs-' + c.what); S.probe('inputs-' + c.what + (rs[0].code ? '-refused' : '-linked'));
        rs.forEach((r, i) => {
          S.add(r); const o = orders[i].map((k) => ins[k]).join(' ');
          if (r.end !== 'exit' || (r.code === 0) !== (rs[0].code === 0)) bad('order-outcome', 'linking ' + o + ' ends by ' + r.end + ' ' + r.code + ', in the order ' + ins.join(' ') + ' by ' + rs[0].end + ' ' + rs[0].code + ': ' + said(r) + said(rs[0]));
          if (r.code === 0) { const got = runWasm(r.files.get('/w/q.wasm')); if (!i) want = got; else if (got !== want) bad('order-behaviour', 'linked from ' + o + ' the program does ' + got.slice(0, 300) + ' instead of ' + want.slice(0, 300)); }
          else if (r.files.has('/w/q.wasm')) bad('refused-output', 'linking ' + o + ' fails and yet writes a program');
        });
      }
      // torn objects
      if (plan.torn.length) {
        const B4 = withObjs(img(new Batch())); const exp = [];
        const lay = [...wl.lay, ...out];
        for (const t of plan.torn) {
          const m = names[t.m % names.length];
          if (t.what === 'cut') {
            const full = bin[m]; const last = full.lastIndexOf(')'.charCodeAt(0)); const n = Math.floor(t.frac * (last + 1)); // keeps n bytes, at most all before the last parenthesis
            B4.file(objp(m), full.subarray(0, Math.min(n, last))); B4.clear(); B4.run({ args: [...pre, ...lay, ...names.map((x, k) => x === m ? 'obj/' + x + '.wo' : t.opt.aseed >> k & 1 ? 'obj/' + x + '.wo' : srcOf(x))], opt: t.opt });
            exp.push({ t, how: 'with ' + m + '.wo cut to ' + Math.min(n, last) + ' of ' + full.length + ' bytes', full: null }); S.fault('object-cut'); B4.file(objp(m), full); B4.clear();
          } else if (t.what === 'lib') {
            const used = /lib/.test('lib') && wl.lib ? ['stdio', 'string', 'stdlib', 'errno', 'crt.void', 'fcntl', 'ctype', 'stdarg'] : []; const l = used.length ? used[t.m % used.length] : null; const f = l && path.join(ctx.dir, 'lib', l + '.wo');
            if (!f || !fs.existsSync(f)) continue; const full = fs.readFileSync(f); const last = full.lastIndexOf(41); const n = Math.min(last, Math.floor(t.frac * (last + 1)));
            B4.file('/lib/' + l + '.wo', full.subarray(0, n)); B4.clear(); B4.run({ args: [...pre, ...lay, ...names.map(srcOf)], opt: { ...t.opt, trace: 1 } });
            exp.push({ t, how: 'with the library object ' + l + '.wo cut to ' + n + ' of ' + full.length + ' bytes', lib: '/lib/' + l + '.wo' }); S.fault('library-object-cut'); B4.file('/lib/' + l + '.wo', full); B4.clear();
          } else {
            const r0 = objs[t.m % names.length]; const nw = Math.max(1, r0.cnt.write); const f = { cls: 'write', n: Math.floor(t.frac * nw), kill: t.fail ? 0 : 1, err: 28, sticky: 1, part: t.fail ? Math.max(0, t.part) : t.part };
            B4.run({ args: [...pre, '-c', '-o', objp(m), srcOf(m)], opt: opt1(plan.objopt), faults: [f] }); exp.push(null); S.fault(t.fail ? 'writer-failed' : 'writer-killed');
            B4.run({ args: [...pre, ...lay, ...names.map((x) => 'obj/' + x + '.wo')], opt: { ...t.opt, keep: 1 } }); exp.push({ t, how: 'after the compiler was ' + (t.fail ? 'out of disk space' : 'killed') + ' while it wrote ' + m + '.wo', prev: true, full: bin[m], p: objp(m) });
            B4.clear();
          }
        }
        const rs = B4.n ? B4.exec(ctx.dir) : [];
        rs.forEach((r, i) => {
          S.add(r); const e = exp[i]; if (!e) return;
          if (e.lib && !r.trace.includes('open ' + e.lib + ' r')) return; // not needed by this program
          if (e.prev) { const w = rs[i - 1].files.get(e.p); const c = w ? w : e.full; const last = e.full.lastIndexOf(41); if (!e.full.subarray(0, c.length).equals(c)) { S.probe('not-a-prefix'); return; } if (c.length > last) { if (r.end !== 'exit' || r.code !== 0) bad('complete-refused', e.how + ' with all that matters written, linking fails: ' + said(r)); return; } }
          if (r.end !== 'exit') bad('torn-crash', e.how + ' linking ends by ' + r.end + ' ' + r.code + ' ' + (r.foreign || ''));
          if (r.code === 0) bad('torn-accepted', e.how + ' linking succeeds');
          if (!cc.diagnosed(r)) bad('no-diagnostic', e.how + ' linking fails without a word');
          if (r.stdout.length || (outp && r.files.has(outp))) bad('torn-output', e.how + ' linking fails and yet writes output');
        });
      }
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message + ' (modules ' + names.join(' ') + ')', key: e.key }; }
    return S.done(plan, violation, names.length > 1 || plan.torn.length > 0);
  },
};
