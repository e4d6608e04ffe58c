'use strict';
// Workloads for the native compiler simulator: what is on its disk and what it is asked to do.
const fs = require('fs'), path = require('path');
const { REPO } = require('./build');
const cgen = require('./cgen');
const wild = require('./wild');
const nonsense = require('./nonsense');
let lists = null;
function scan() {
  if (!lists) {
    const ls = (d, re) => fs.existsSync(path.join(REPO, d)) ? fs.readdirSync(path.join(REPO, d)).filter((f) => re.test(f)).sort() : [];
    lists = { ex: ls('examples', /\.c$/).map((f) => 'examples/' + f).concat(ls('tests', /\.c$/).map((f) => 'tests/' + f)), src: ls('lib/src', /\.c$/).map((f) => 'lib/src/' + f), inc: ls('lib/include', /./).filter((f) => fs.statSync(path.join(REPO, 'lib/include', f)).isFile()), cc: ls('.', /\.[ch]$/) };
  }
  return lists;
}
// the disk every run starts from
function image(B, ctx, wl) {
  const L = scan();
  B.dir('/').dir('/w').dir('/w/out').dir('/lib').dir('/lib/include').dir('/tmp');
  for (const f of fs.readdirSync(path.join(ctx.dir, 'lib')).sort()) if (/\.wo$/.test(f)) B.link('/lib/' + f, path.join(ctx.dir, 'lib', f));
  for (const f of L.inc) B.link('/lib/include/' + f, path.join(REPO, 'lib/include', f));
  for (const [f, r] of Object.entries(wl.real || {})) B.link('/w/' + f, path.join(REPO, r));
  for (const [f, d] of Object.entries(wl.files || {})) B.file('/w/' + f, Buffer.from(d, 'latin1'));
}
const base = (f) => f.replace(/^.*\//, '');
function mutate(rng, s) { // break a source text
  const lines = s.split('\n'); const n = rng.range(1, 3);
  for (let k = 0; k < n; k++) {
    if (!lines.length) lines.push('');
    const i = rng.int(lines.length); const l = lines[i];
    switch (rng.int(9)) {
      case 0: lines.splice(i, 1); break;
      case 1: lines.splice(i, 0, lines[rng.int(lines.length)]); break;
      case 2: { const p = rng.int(l.length + 1); lines[i] = l.slice(0, p) + rng.pick(['(', ')', '{', '}', ';', ',', '"', "'", '\\', '#', '*', '&', '@', '\x80', '0x', '1e', '/*', '..', '\xc3\xa9', '[', 'int ', 'static ', '= {']) + l.slice(p); break; }
      case 3: { const p = rng.int(l.length + 1); lines[i] = l.slice(0, p) + l.slice(p + 1 + rng.int(4)); break; }
      case 4: lines.length = Math.max(1, i); break;
      case 5: lines[i] = l.replace(/\b[A-Za-z_]\w*\b/, () => rng.pick(['int', 'undefined_name', 'x', 'struct', 'return', 'while', 'sizeof', 'char', 'NULL', '0', '1.5', '"s"'])); break;
      case 6: lines[i] = l.replace(/\d+/, () => rng.pick(['-1', '99999999999', '0', '1.0', '0xffffffffu', "'a'", '08', '2147483648', '4294967296', '18446744073709551616ULL', '9223372036854775808LL', '0x8000000000000000LL', '4.9406564584124654e-324', '1e999', '1e-999', '1e39f', '0x1p-1074', '1e-40f', '037777777777', "'\\400'", '0b11', '1.e', '.5', '5.', '0x', '1u2', '40000', '300'])); break;
      case 7: lines[i] = l.replace(/[+\-*\/<>=!]+/, () => rng.pick(['+', '==', '=', '%', '->', '.', '<<', '!', '?'])); break;
      default: lines[i] = l + ' ' + lines[rng.int(lines.length)]; break;
    }
  }
  return lines.join('\n');
}
const dirs = (rng) => {
  const k = rng.weighted([[6, 0], [2, 1], [1, 2], [1, 3], [1, 4]]);
  if (k === 0) return { args: ['-L', '/lib/', '-I', '/lib/include/'], env: [] };
  if (k === 1) return { args: ['-L', '/lib/'], env: [] };
  if (k === 2) return { args: [], env: ['WCPL_LIBRARY_PATH=/lib/'] };
  if (k === 4) return { args: [], env: [] }; // nothing but the archive inside the compiler
  return { args: ['-L', '/nonexistent/', '-L', '/lib/', '-I', '/w/'], env: ['WCPL_INCLUDE_PATH=/lib/include/'] };
};
// one compiler invocation: { real, files, args, env, stdin, out, inputs, kind }
function gen(rng, o = {}) {
  const L = scan();
  const kind = o.kind || rng.weighted([[5, 'glink'], [4, 'gobj'], [3, 'ex'], [3, 'libc'], [2, 'tiny'], [o.mut === false ? 0 : 4, 'mut'], [o.wild === undefined ? 3 : o.wild, 'wild'], [o.cc || 0, 'cc']]);
  const d = dirs(rng); const wl = { kind, real: {}, files: {}, env: d.env, args: [], inputs: [] };
  const q = rng.chance(0.75) ? ['-q'] : rng.chance(0.5) && !['cc', 'ex', 'libc'].includes(kind) ? ['-v'] : []; const w = rng.chance(0.15) ? ['-w'] : []; const opt = rng.chance(0.3) ? ['-O', String(rng.int(4))] : [];
  const lay = rng.chance(0.25) ? ['-a', rng.pick(['0', '512', '4096', '65536'])] : []; if (rng.chance(0.15)) lay.push('-s', rng.pick(['1024', '65536', '1000000']));
  const pre = [...q, ...w, ...opt, ...d.args];
  const ext = rng.weighted([[5, '.wasm'], [3, '.wat'], [1, '']]);
  wl.out = ext === '' ? null : '/w/' + rng.pick(['', 'out/']) + 'prog' + ext;
  const oarg = wl.out ? ['-o', wl.out.slice(3)] : [];
  const obj = (f, src) => { wl.out = rng.chance(0.75) ? '/w/' + f + rng.pick(['.wo', '.o', '.wo']) : null; wl.inputs = [src]; wl.args = [...pre, ...(rng.chance(0.5) ? ['-c', ...(wl.out ? ['-o', wl.out.slice(3)] : []), src] : [...(wl.out ? ['-o', wl.out.slice(3)] : []), '-c', src])]; };
  if (kind === 'glink' || kind === 'tiny' || kind === 'gobj') {
    const g = cgen.gen(rng, kind === 'tiny' ? { lib: false, mods: rng.range(1, 2) } : { date: o.date });
    wl.files = g.files; wl.mods = g.mods; wl.lib = g.lib;
    if (kind === 'gobj') { const m = rng.pick(g.mods); obj(m, m + '.c'); } else { wl.inputs = g.mods.map((m) => m + '.c'); wl.args = [...pre, ...lay, ...oarg, ...wl.inputs]; }
  } else if (kind === 'ex') { const f = rng.pick(L.ex); wl.real[base(f)] = f; wl.inputs = [base(f)]; wl.args = [...pre, ...lay, ...oarg, ...wl.inputs]; } else if (kind === 'libc') { const f = rng.pick(L.src); wl.real[base(f)] = f; obj(base(f).replace(/\.c$/, '').replace(/\./g, '_'), base(f)); } else if (kind === 'cc') {
    for (const f of L.cc) wl.real[f] = f; const cs = L.cc.filter((f) => /\.c$/.test(f));
    if (rng.chance(0.7)) { const f = rng.pick(cs); obj(f.replace(/\.c$/, ''), f); } else { wl.inputs = cs; wl.args = [...pre, ...lay, ...oarg, ...cs]; }
  } else if (kind === 'wild') { wl.files['wild.c'] = rng.chance(0.3) ? nonsense.gen(rng) : wild.gen(rng); obj('wild', 'wild.c'); } else { // broken input
    let src, name = 'bad.c';
    if (rng.chance(0.5)) { const g = cgen.gen(rng, { mods: 1 }); wl.files = g.files; name = rng.pick(g.mods) + '.c'; src = wl.files[name]; } else { const f = rng.pick(L.ex.concat(L.src)); src = fs.readFileSync(path.join(REPO, f), 'latin1'); if (src.length > 60000) src = src.slice(0, rng.range(2000, 60000)); }
    wl.files[name] = mutate(rng, src);
    if (rng.chance(0.5)) obj('bad', name); else { wl.inputs = [name].concat(Object.keys(wl.files).filter((x) => x !== name && /\.c$/.test(x))); wl.args = [...pre, ...lay, ...oarg, ...wl.inputs]; }
  }
  if (rng.chance(0.06) && wl.inputs.length === 1) { // through standard input
    const f = wl.inputs[0]; wl.stdinFrom = f; wl.args = wl.args.map((a) => a === f ? '-' : a); wl.inputs = ['-'];
  }
  if (o.existing !== undefined ? rng.chance(o.existing) : rng.chance(0.3)) if (wl.out) wl.files[wl.out.slice(3)] = 'old contents of the target ' + rng.int(1000);
  if (rng.chance(0.3)) for (const f of Object.keys(wl.files)) if (/\.[ch]$/.test(f) && rng.chance(0.3)) wl.files[f] = rng.pick([(s) => s.replace(/\n/g, '\r\n'), (s) => '\xef\xbb\xbf' + s, (s) => s.replace(/\n$/, ''), (s) => s + '/* ' + 'w'.repeat(rng.range(230, 270)) + ' */\n'])(wl.files[f]);
  return wl;
}
function stdin(wl) { return wl.stdinFrom === undefined ? undefined : wl.files[wl.stdinFrom] !== undefined ? Buffer.from(wl.files[wl.stdinFrom], 'latin1') : fs.readFileSync(path.join(REPO, wl.real[wl.stdinFrom])); }
const job = (wl, opt, faults) => ({ args: ['wcpl', ...wl.args], env: [...wl.env, ...(wl.xenv || [])], stdin: stdin(wl), opt, faults });
// what a finished run shows to its user
const eq = (a, b) => a.length === b.length && a.equals(b);
function target(r, wl) { return wl.out ? r.files.get(wl.out) : r.stdout; }
function diff(a, b) { // first difference of two buffers, for messages
  if (!a || !b) return (a ? 'some' : 'no') + ' output against ' + (b ? 'some' : 'none');
  const n = Math.min(a.length, b.length); let i = 0; while (i < n && a[i] === b[i]) i++;
  return 'lengths ' + a.length + ' and ' + b.length + ', first difference at ' + i + ': ' + JSON.stringify(a.toString('latin1', Math.max(0, i - 10), i + 30)) + ' against ' + JSON.stringify(b.toString('latin1', Math.max(0, i - 10), i + 30));
}
module.exports = { gen, image, job, eq, target, diff, scan, mutate, stdin };
