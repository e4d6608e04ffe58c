'use strict';
const { agent, bad, runGuest, stats, host, show } = require('../common');
const ERR = [6, 8, 21, 27, 28, 29, 41, 44, 48, 52, 54, 58, 63, 72, 76];
module.exports = {
  id: 'D01', runs: { quick: 32000, thorough: 400000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run lists generated directories (0-400 entries, names from 1 to 12000 bytes, all file types, large inode numbers, hosts with index, sparse, 32-bit and 64-bit cookies, with and without dot entries, cutting entries in the middle or padding) through interleaved opendir/readdir/rewinddir/telldir/seekdir/scandir histories with host failures and exhausted memory; every entry, end, count, order, position and descriptor is compared with the directory. Non-trivial: a listing that needed more than one host buffer, or a failure that fired. Distinct by plan.',
  real: ['lib/src/dirent.c', 'lib/src/stdlib.c heap and qsort', 'lib/src/fcntl.c openat'], stub: ['WASI host (in-memory simulator)'],
  gen(rng) {
    const cookie = rng.weighted([[4, 'index'], [3, 'sparse'], [3, 'u32'], [1.2, 'big']]); const low = rng.chance(0.2);
    const dirs = []; const nd = rng.range(1, 4);
    const name = (i) => {
      const r = rng.weighted([[6, 0], [3, 1], [2, 2], [1, 3], [0.25, 4]]);
      const b = r === 0 ? 'f' + i : r === 1 ? rng.pick(['.', '..x', 'A', 'a', '_', 'caf\xc3\xa9', '\xff', '\x01', ' ']) + rng.int(1000) + 'q' + i : r === 2 ? i + 'n'.repeat(rng.range(20, 200)) : r === 3 ? i + 'm'.repeat(252 - ('' + i).length) + 'end' : i + 'L'.repeat(rng.pick([4000, 4060, 4070, 4071, 4072, 4073, 5000, 8168, 9000, 12000]));
      return b;
    };
    for (let d = 0; d < nd; d++) {
      const n = rng.weighted([[1, 0], [3, rng.range(1, 5)], [3, rng.range(5, 60)], [2, rng.range(60, 200)], [low ? 0 : 0.6, rng.range(200, 400)]]); const fix = rng.chance(0.3) ? rng.range(1, 255) : 0; const e = [];
      for (let i = 0; i < n; i++) e.push([fix ? ('' + i).padEnd(fix, 'z') : name(i), rng.pick(['file', 'file', 'file', 'dir', 'symlink', 'chr', 'blk', 'stream', 'unknown']), rng.chance(0.1) ? rng.pick([0, 2 ** 32, 2 ** 40 + 1, 2 ** 52]) + i : 0]);
      dirs.push(e);
    }
    const ops = []; const n = rng.range(3, 50); const p = rng.pick([0, 0, 0.08, 0.25]);
    for (let i = 0; i < n; i++) {
      const op = { o: rng.weighted([[5, 'opendir'], [1, 'opendirat'], [1.5, 'fdopendir'], [18, 'readdir'], [3, 'rewind'], [4, 'tell'], [4, 'seek'], [2.5, 'close'], [0.7, 'fdclose'], [1, 'dirfd'], [1.5, 'add'], [3, 'scan'], [1, 'scanat'], [0.5, 'openbad'], [low ? 1.5 : 0, 'fill'], [low ? 1.5 : 0, 'drain']]), k: rng.int(1000), n: rng.weighted([[3, 1], [3, rng.range(2, 20)], [3, 1000]]), fil: rng.int(2), cmp: rng.pick([1, 2]), rem: rng.int(3), keep: rng.pick([[4200, 1], [4200, 2], [64, 3], [64, 1], [9000, 1], [300, 10], [20, 40]]) };
      if (rng.chance(p)) {
        op.f = [];
        if (op.o === 'readdir') op.f.push({ sc: 'fd_readdir', n: 0, kind: 'err', errno: rng.pick(ERR), after: rng.chance(0.3) });
        else if (['opendir', 'opendirat', 'scan', 'scanat', 'fdopendir'].includes(op.o)) op.f.push(rng.chance(0.6) ? { sc: 'fd_readdir', n: rng.weighted([[4, 0], [2, 1], [1, 2], [1, rng.int(10)]]), kind: 'err', errno: rng.pick(ERR), after: rng.chance(0.3) } : rng.chance(0.5) ? { sc: 'path_open', n: 0, kind: 'err', errno: rng.pick(ERR) } : { sc: 'fd_fdstat_get', n: 0, kind: 'err', errno: rng.pick(ERR) });
        else if (op.o === 'close') op.f.push({ sc: 'fd_close', n: 0, kind: 'err', errno: rng.pick(ERR), after: true });
      }
      ops.push(op);
    }
    return { cfg: { cookie, dots: rng.chance(0.6), whole: rng.chance(0.3), pages: low ? rng.range(4, 12) : 200 }, dirs, ops };
  },
  lists: ['ops'],
  *simplify(p) {
    for (let d = p.dirs.length - 1; d > 0; d--) yield { ...p, dirs: p.dirs.slice(0, d) };
    for (let d = 0; d < p.dirs.length; d++) { const n = p.dirs[d].length; for (const k of [n >> 1, n - 1]) if (k >= 0 && k < n) { const dirs = p.dirs.slice(); dirs[d] = p.dirs[d].slice(0, k); yield { ...p, dirs }; } }
    for (let i = 0; i < p.ops.length; i++) if (p.ops[i].f) { const ops = p.ops.slice(); ops[i] = { ...ops[i] }; delete ops[i].f; yield { ...p, ops }; }
    for (const k of ['dots', 'whole']) if (p.cfg[k]) yield { ...p, cfg: { ...p.cfg, [k]: false } };
    if (p.cfg.cookie !== 'index') yield { ...p, cfg: { ...p.cfg, cookie: 'index' } };
  },
  run(plan, ctx) {
    const c = plan.cfg; const w = new host.World({ cookie: c.cookie, dots: c.dots, whole: c.whole });
    const DIRS = plan.dirs.map((list, i) => {
      const n = w.fs.mkpath('D' + i, 'dir');
      for (const [nm, t, ino] of list) { const x = w.fs.mk(['dir', 'symlink'].includes(t) ? t : 'file'); if (t === 'symlink') x.target = 't'; if (!['dir', 'symlink', 'file'].includes(t)) x.ftype = t; if (ino) x.ino = ino; n.entries.set(nm, x); }
      const e = []; if (c.dots) { e.push(['.', n]); e.push(['..', w.fs.root]); } for (const [k, v] of n.entries) e.push([k, v]); return { path: 'D' + i, node: n, e: e.map(([k, v]) => ({ name: k, ino: v.ino, type: host.FT[v.ftype || v.type] })) };
    });
    const probes = {}; let multi = 0, hit = 0; let reads = 0; w.onSys = (name) => { if (name === 'fd_readdir') reads++; };
    const base = new Set(w.fds.keys()); const open = new Set(); const pick = (a, k) => a[k % a.length];
    const res = runGuest(agent(ctx, 'main0', c.pages), w, function* (g) {
      const H = []; let blocks = [], low = false; const F = yield { op: 112, a: [0] }; const off = F.a.slice(0, 3);
      const chkfd = (what) => { for (const x of w.fds.keys()) if (!base.has(x) && !open.has(x)) bad('descriptor-leak', what + ' left descriptor ' + x + ' open'); for (const x of open) if (!w.fds.has(x)) bad('descriptor-lost', what + ' closed descriptor ' + x); };
      const newfd = () => [...w.fds.keys()].filter((x) => !base.has(x) && !open.has(x));
      const readent = (p) => ({ ino: Number(g.mem.readBigUInt64LE(p + off[0])), type: g.mem[p + off[1]], name: g.cstr(p + off[2]) });
      const same = (a, b) => a.name === b.name && a.type === b.type && a.ino === b.ino; const sh = (e) => show(e.name) + '/' + e.type + '/' + e.ino;
      for (const op of plan.ops) {
        reads = 0; const D = pick(DIRS, op.k); const h = H.length ? pick(H, op.k) : null; let r;
        // what earlier calls returned must not change
        for (const x of H) if (x.last && !same(readent(x.last[0]), x.last[1])) bad('entry-changed', 'an entry of ' + x.d.path + ' returned earlier changed to ' + sh(readent(x.last[0])));
        switch (op.o) {
          case 'fill': for (const s of [4096, 256, 16]) for (;;) { r = yield { op: 50, a: [s] }; if (!r.ru) break; blocks.push([r.ru, s]); } low = true; { const b = blocks.filter((x) => x[1] === (op.keep[0] > 256 ? 4096 : 256)).slice(0, op.keep[1] * (1 + (op.keep[0] >> 12))); for (const x of b) { yield { op: 53, a: [x[0]] }; blocks.splice(blocks.indexOf(x), 1); } } hit++; break;
          case 'drain': for (const b of blocks) yield { op: 53, a: [b[0]] }; blocks = []; low = false; break;
          case 'opendir': case 'opendirat': case 'fdopendir': {
            if (H.length > 6) break; let fd = -1;
            if (op.o === 'opendir') r = yield { op: 100, a: [g.str(op.k & 4 ? D.path : '/' + D.path + '/')], f: op.f }; else if (op.o === 'opendirat') r = yield { op: 110, a: [3, g.str(D.path)], f: op.f };
            else { r = yield { op: 60, a: [g.str(D.path), 0x04000000] }; if (r.r < 0) bad('open', 'open of a directory failed with errno ' + r.err); fd = r.r; open.add(fd); r = yield { op: 101, a: [fd], f: op.f && op.f[0].sc === 'fd_readdir' ? op.f : undefined }; }
            const what = op.o + '(' + D.path + ')'; if (r.fired) hit++;
            if (!r.ru) { if (!r.fired && !low && c.pages === 200) bad('open', what + ' failed with errno ' + r.err); if (r.fired && r.err === 0) bad('errno', what + ' failed without setting errno'); chkfd(what + ' (failed)'); if (fd >= 0) { open.delete(fd); yield { op: 62, a: [fd] }; } break; }
            if (r.fired && !op.f[0].after && op.f[0].n === 0) bad('swallowed', what + ' succeeded although the host failed');
            if (fd < 0) { const n = newfd(); if (n.length !== 1) bad('descriptor-leak', what + ' opened ' + n.length + ' descriptors'); fd = n[0]; open.add(fd); } const dp = r.ru; r = yield { op: 109, a: [dp] }; if (r.r !== fd) bad('dirfd', 'dirfd of ' + D.path + ' is ' + r.r + ' instead of ' + fd);
            H.push({ dp, d: D, pos: 0, fd, last: null, tells: [], sure: Infinity, fuzzy: false }); chkfd(what); break;
          }
          case 'openbad': { r = yield { op: 100, a: [g.str(pick(['nowhere', 'D0/nowhere', 'nowhere/x'], op.k))] }; if (r.ru) bad('open', 'opendir of a missing directory succeeded'); chkfd('opendir of a missing directory'); break; }
          case 'add': { // another process makes a file; streams already reading may or may not show it, until they are rewound
            const x = w.fs.mk('file'); const nm = 'added-' + D.e.length + 'z'.repeat(op.n % 200); for (const q of H) if (q.d === D) q.sure = Math.min(q.sure, D.e.length);
            D.node.entries.set(nm, x); D.e.push({ name: nm, ino: x.ino, type: host.FT.file }); probes.changed = (probes.changed || 0) + 1; break;
          }
          case 'readdir': {
            if (!h) break; const what = 'readdir(' + h.d.path + ') at entry ' + h.pos + ' of ' + h.d.e.length;
            for (let i = 0; i < op.n; i++) {
              r = yield { op: 102, a: [h.dp], f: i === 0 ? op.f : undefined }; h.last = null; if (r.fired) hit++;
              if (h.fuzzy || (h.pos >= h.sure && !r.fired)) { h.fuzzy = true; if (!r.ru) break; continue; }
              const want = h.d.e[h.pos];
              if (!r.ru) { if (r.fired) { if (r.err !== op.f[0].errno) bad('errno', what + ' failed with errno ' + r.err + ' instead of ' + op.f[0].errno); probes.failed_readdir = (probes.failed_readdir || 0) + 1; break; } if (want && (low || c.pages < 200) && r.err !== 0) { probes.readdir_no_memory = (probes.readdir_no_memory || 0) + 1; break; } if (want) bad('lost-entry', what + ' returned NULL (errno ' + r.err + '), ' + (h.d.e.length - h.pos) + ' entries are missing, the next is ' + sh(want), h.k64 ? 'cookie64' : undefined); if (r.err !== 0) bad('errno', 'the end of ' + h.d.path + ' set errno ' + r.err, h.k64 ? 'cookie64' : undefined); break; }
              if (r.fired && !op.f[0].after) bad('swallowed', what + ' returned an entry although the host failed');
              const e = { ino: Number(BigInt.asUintN(64, r.rl)), type: r.fl, name: g.cstr(r.a[5]) };
              if (!want) bad('invented-entry', what + ' returned ' + sh(e) + ' after the last entry', h.k64 ? 'cookie64' : undefined); if (!same(e, want)) bad('wrong-entry', what + ' returned ' + sh(e) + ' instead of ' + sh(want), h.k64 ? 'cookie64' : undefined); h.last = [r.ru, e]; h.pos++;
            }
            if (reads > 1) multi++; break;
          }
          case 'rewind': if (!h) break; yield { op: 104, a: [h.dp] }; h.pos = 0; h.k64 = h.fuzzy = false; h.sure = Infinity; break;
          case 'tell': if (!h || h.fuzzy) break; r = yield { op: 105, a: [h.dp] }; h.tells.push([r.r, h.pos]); break;
          case 'seek': { if (!h || !h.tells.length) break; const t = pick(h.tells, op.k >> 2); if (c.cookie === 'big' && t[1] > 0) h.k64 = true; else h.k64 = false; yield { op: 106, a: [h.dp, t[0]] }; h.pos = t[1]; h.fuzzy = h.pos > h.sure; probes.seeks = (probes.seeks || 0) + 1; break; }
          case 'close': case 'fdclose': { if (!h) break; r = yield { op: op.o === 'close' ? 103 : 111, a: [h.dp], f: op.f }; H.splice(H.indexOf(h), 1); if (op.o === 'close') { open.delete(h.fd); if ((r.r !== 0) !== (r.fired > 0)) bad('close', 'closedir returned ' + r.r); if (r.fired) hit++; chkfd('closedir'); } else { if (r.r !== h.fd) bad('close', 'fdclosedir returned ' + r.r + ' instead of ' + h.fd); chkfd('fdclosedir'); open.delete(h.fd); yield { op: 62, a: [h.fd] }; } break; }
          case 'dirfd': if (!h) break; r = yield { op: 109, a: [h.dp] }; if (r.r !== h.fd) bad('dirfd', 'dirfd returned ' + r.r + ' instead of ' + h.fd); break;
          case 'scan': case 'scanat': {
            r = yield { op: op.o === 'scan' ? 107 : 108, a: [g.str(D.path), op.fil, op.cmp, op.rem, 3], f: op.f }; const what = 'scandir(' + D.path + ')'; if (r.fired) hit++;
            const ok = (e) => { if (!op.fil) return true; let s = 0; for (let i = 0; i < e.name.length; i++) s += e.name.charCodeAt(i); return s % 3 !== op.rem; };
            if (r.r < 0) { if (!r.fired && !low && c.pages === 200) bad('scan', what + ' failed with errno ' + r.err); if (r.fired && !low && c.pages === 200 && r.err !== op.f[0].errno) bad('errno', what + ' failed with errno ' + r.err + ' instead of ' + op.f[0].errno); chkfd(what + ' (failed)'); probes.failed_scandir = (probes.failed_scandir || 0) + 1; break; }
            if (r.fired && !op.f[0].after) bad('swallowed', what + ' succeeded although the host failed'); chkfd(what);
            const want = D.e.filter(ok).sort((a, b) => (a.name < b.name ? -1 : 1) * (op.cmp === 2 ? -1 : 1)); const t = r.a[5] >>> 0; if (r.r !== want.length) bad('scan', what + ' returned ' + r.r + ' entries instead of ' + want.length);
            const ps = []; for (let i = 0; i < r.r; i++) { const p = g.mem.readUInt32LE(t + 4 * i); ps.push(p); const e = readent(p); if (!same(e, want[i])) bad('scan', what + ' gave ' + sh(e) + ' as entry ' + i + ' instead of ' + sh(want[i])); }
            for (const p of ps) yield { op: 53, a: [p] }; if (t) yield { op: 53, a: [t] }; if (reads > 2) multi++; break;
          }
        }
        if (w.anom.length && H.some((x) => x.k64)) bad('seek-position', 'seekdir to a position from telldir resumed at a cookie the host never issued', 'cookie64');
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    let v = res.violation; if (v && v.key === 'cookie64') v = { ...v, cls: 'seek-position' };
    return { violation: v, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), multi > 0 || hit > 0, { probes: { ...probes, multi_buffer: multi } }) };
  },
};
