'use strict';
// Runs the compiler compiled by itself (self.wasm) under the WASI host simulator.
const fs = require('fs'), path = require('path');
const host = require('./host');
const L = require('./nload');
const { REPO } = require('./build');
const mods = new Map(); const slurped = new Map();
function mod(ctx, pages) {
  const k = String(pages);
  if (!mods.has(k)) { const bin = fs.readFileSync(path.join(ctx.dir, 'self.wasm')); if (mods.size > 12) mods.clear(); mods.set(k, new WebAssembly.Module(pages === undefined ? bin : host.limitMemory(bin, (min) => min + pages).bin)); }
  return mods.get(k);
}
const slurp = (f) => { if (!slurped.has(f)) slurped.set(f, fs.readFileSync(f)); return slurped.get(f); };
const LAYOUTS = { // 'flat' ones have the working directory at the root, beside /lib
  split: [{ name: '.', path: 'w' }, { name: '/lib', path: 'lib' }, { name: '/w', path: 'w' }, { name: '/src', path: 'src' }],
  deep: [{ name: '/lib', path: 'lib' }, { name: '/lib/include', path: 'lib/include' }, { name: '/w/out', path: 'w/out' }, { name: '/w', path: 'w' }, { name: '.', path: 'w' }, { name: 'out', path: 'w/out' }, { name: '/src', path: 'src' }],
  slash: [{ name: '/lib/', path: 'lib' }, { name: '.', path: 'w' }, { name: '/w/', path: 'w' }, { name: 'out/', path: 'w/out' }],
  root: [{ name: '/', path: '' }], dot: [{ name: '.', path: '' }],
  rootlib: [{ name: '/', path: '' }, { name: '/lib', path: 'lib' }, { name: '/tmp', path: 'tmp' }],
};
const FLAT = { root: 1, dot: 1, rootlib: 1 };
// o: {layout, env, clock, tick, chunk (max bytes per read), wchunk, chunkrng, faults, std, pages, maxsys, dirs, extra files}
function world(ctx, wl, o = {}) {
  const w = new host.World({ args: ['wcpl', ...wl.args], env: [...wl.env, ...(wl.xenv || []), ...(o.env || [])], preopens: LAYOUTS[o.layout || 'root'], realtime: o.clock !== undefined ? BigInt(o.clock) * 1000000000n + BigInt(o.nsec || 0) : undefined, tick: o.tick, maxsys: o.maxsys || 3000000, std: { 0: { kind: 'pipe', data: L.stdin(wl) === undefined ? '' : L.stdin(wl).toString('latin1') }, ...(o.std || {}) } });
  const F = w.fs; const nodes = new Map(); const W = FLAT[o.layout || 'root'] ? '' : '/w';
  const put = (p, data) => { const n = F.mkpath(p.replace(/^\//, ''), 'file'); n.data = data; n.size = data.length; nodes.set(p, n); };
  for (const d of [...(W ? ['w', 'w/out'] : ['out']), 'lib', 'lib/include', 'tmp', 'src', ...(o.dirs || [])]) F.mkpath(d, 'dir');
  const S = L.scan();
  for (const f of fs.readdirSync(path.join(ctx.dir, 'lib')).sort()) if (/\.wo$/.test(f)) put('/lib/' + f, slurp(path.join(ctx.dir, 'lib', f)));
  for (const f of S.inc) put('/lib/include/' + f, slurp(path.join(REPO, 'lib/include', f)));
  for (const [f, r] of Object.entries(wl.real || {})) put(W + '/' + f, slurp(path.join(REPO, r)));
  for (const [f, d] of Object.entries(wl.files || {})) put(W + '/' + f, Buffer.from(d, 'latin1'));
  w.W = W; w.initial = new Map([...nodes].map(([p, n]) => [p, { n, data: n.data }]));
  const cr = o.chunkrng; // a small deterministic generator for chunk sizes
  let s = (o.chunkseed || 1) >>> 0; const nx = (k) => { s = (Math.imul(s, 1664525) + 1013904223) >>> 0; return 1 + Math.floor(s / 4294967296 * k); };
  if (o.chunk) w.armed.push({ sc: 'fd_read', kind: 'short', get k() { return nx(o.chunk); } });
  if (o.wchunk) w.armed.push({ sc: 'fd_write', kind: 'short', get k() { return nx(o.wchunk); } });
  if (o.faults) w.beginOp(o.faults);
  return w;
}
function run(ctx, wl, o = {}) {
  const w = world(ctx, wl, o); if (o.tune) o.tune(w);
  w.ftrace = []; const note = w.note.bind(w); w.note = (s) => { if (/!err=/.test(s.slice(0, 400))) w.ftrace.push(s); note(s); }; const end = host.runProgram(mod(ctx, o.pages), w);
  const files = new Map(); const walk = (n, p) => { for (const [k, v] of n.entries) { const q = p + '/' + k; if (v.type === 'dir') walk(v, q); else if (v.type === 'file') { const i = w.initial.get(q); const b = w.fs.bytes(v); if (!i || i.n !== v || !(i.data === v.data && b.length === i.data.length) && !b.equals(i.data)) files.set(w.W ? q : '/w' + q, Buffer.from(b)); } } };
  walk(w.fs.root, '');
  for (const p of w.initial.keys()) { try { w.fs.resolve(w.fs.root, p.slice(1), true); } catch (e) { files.set(w.W ? p : '/w' + p, null); } }
  return { end: end.end === 'return' ? 'exit' : end.end, code: end.code || 0, why: end.why, stdout: w.sinkBytes(1), stderr: w.sinkBytes(2), files, w, pages: end.pages };
}
module.exports = { run, world, LAYOUTS, mod };
