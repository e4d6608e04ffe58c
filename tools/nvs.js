'use strict';
// nvs.js FILE...: compile each file with the native and the self-hosted compiler (simulated) and compare
const fs = require('fs'); const build = require('../sim/build'); const { Batch } = require('../sim/nsim'); const L = require('../sim/nload'); const SR = require('../sim/selfrun');
(async () => {
  const dir = await build.ensure(['base', 'native', 'self']); const ctx = { dir };
  const full = process.argv.includes('-l');
  for (const f of process.argv.slice(2).filter((x) => x !== '-l')) {
    const src = fs.readFileSync(f, 'latin1');
    const args = full ? ['-q', '-L', '/lib/', '-I', '/lib/include/', '-o', 'out/x.wasm', 'x.c'] : ['-q', '-c', '-L', '/lib/', '-I', '/lib/include/', 'x.c'];
    const wl = { kind: 'one', args, env: [], files: { 'x.c': src }, real: {}, inputs: ['x.c'], out: full ? '/w/out/x.wasm' : null };
    const B = new Batch(); L.image(B, ctx, wl); B.run(L.job(wl, { amode: 6 }, [])); const n = B.exec(dir)[0];
    const s = SR.run(ctx, wl, { layout: 'split', maxsys: 6000000 });
    const same = n.end === s.end && n.code === s.code && L.eq(n.stdout, s.stdout) && L.eq(n.stderr, s.stderr) && L.eq(L.target(n, wl) || Buffer.alloc(0), L.target(s, wl) || Buffer.alloc(0));
    console.log((same ? 'same ' : 'DIFF ') + f + ' native ' + n.end + ' ' + n.code + ', self ' + s.end + ' ' + s.code + ' ' + (s.why || ''));
    if (!same) { console.log(' native stderr: ' + n.stderr.toString().slice(0, 300)); console.log(' self stderr: ' + s.stderr.toString().slice(0, 300)); const a = n.stdout.toString('latin1').split('\n'), b = s.stdout.toString('latin1').split('\n'); for (let i = 0; i < Math.max(a.length, b.length); i++) if (a[i] !== b[i]) { console.log(' - ' + a[i] + '\n + ' + b[i]); break; } }
  }
})();
