'use strict';
const { agent, bad, runGuest, stats, host, show } = require('../common');
const COMP = ['a', 'b', 'ab', 'aa', 'bc', '.x', 'c', 'a.b', '..a', 'caf\xc3\xa9'];
const CALLS = { open: [60, (p) => [p, 0x04000000]], access: [70, (p) => [p, 0]], stat: [86, (p, q, g) => [p, 0, 0, 0, 0, 0, g.alloc(96)]], lstat: [87, (p, q, g) => [p, 0, 0, 0, 0, 0, g.alloc(96)]], mkdir: [81, (p) => [p, 7]], rmdir: [79, (p) => [p]], unlink: [71, (p) => [p]], remove: [85, (p) => [p]], rename: [83, (p, q) => [p, q]], link: [73, (p, q) => [p, q]], symlink: [75, (p, q, g) => [g.str('target'), p]], readlink: [77, (p, q, g) => [p, g.alloc(40), 40]], opendir: [100, (p) => [p]], fopen: [10, (p, q, g) => [p, g.str('r')]], scandir: [107, (p) => [p, 0, 1]] };
// where a system call carries descriptor and path
const POS = { path_create_directory: [[0, 1]], path_filestat_get: [[0, 2]], path_link: [[0, 2], [4, 5]], path_open: [[0, 2]], path_readlink: [[0, 1]], path_remove_directory: [[0, 1]], path_rename: [[0, 1], [3, 4]], path_symlink: [[2, 3]], path_unlink_file: [[0, 1]] };
function strip(s) { for (;;) { if (s[0] === '/') s = s.slice(1); else if (s.startsWith('./')) s = s.slice(2); else if (s === '.') s = ''; else return s; } }
// the reference: which preopens may serve the path, and what is left of it
function resolve(pre, path) {
  const p = path.replace(/^\/+/, ''); let best = -1, fds = [], rest = null;
  pre.forEach((x, i) => {
    if (x === null) return;
    const n = strip(x).replace(/\/+$/, ''); if (n !== '' && p !== n && !p.startsWith(n + '/')) return;
    if (n.length > best) { best = n.length; fds = []; rest = p.slice(n.length).replace(/^\/+/, '') || (path === '' ? '' : '.'); } if (n.length === best) fds.push(i + 3);
  });
  return { fds, rest };
}
module.exports = {
  id: 'F03', runs: { quick: 60000, thorough: 600000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run boots the program with 0-14 preopened directories whose names overlap in components and spelling and makes path calls of every kind; the descriptor and path the host receives are compared with the reference resolution. In some runs the host fails while the preopens are listed, or memory is exhausted then and freed later. Non-trivial: at least two different preopens were reached, or a listing failure or memory exhaustion hit. Distinct by plan.',
  real: ['lib/src/fcntl.c preopen table and path resolution', 'all path functions of the library', 'lib/src/stdlib.c heap'], stub: ['WASI host (in-memory simulator)'],
  gen(rng) {
    const k = rng.weighted([[1, 0], [4, rng.range(1, 3)], [4, rng.range(3, 6)], [2, rng.range(6, 14)]]); const names = [];
    const comps = () => { const n = rng.weighted([[5, 1], [4, 2], [2, 3]]); return Array.from({ length: n }, () => rng.pick(COMP)).join('/'); };
    for (let i = 0; i < k; i++) {
      let s = names.length && rng.chance(0.5) ? strip(rng.pick(names)) : comps(); if (names.length && rng.chance(0.3)) s = s + (rng.chance(0.5) ? '/' : '') + rng.pick(COMP); if (rng.chance(0.15)) s = '';
      s = rng.pick(['', '', '/', './', '//', '/./', '././']) + s; if (strip(s) === '' && rng.chance(0.5)) s = rng.pick(['.', '/', './', '/.', '']); if (s === '' && rng.chance(0.7)) s = '.'; if (rng.chance(0.08) && strip(s) && !s.endsWith('/')) s += '/'; if (rng.chance(0.03)) s = 'L'.repeat(rng.range(200, 3000)) + s; names.push(s);
    }
    const path = () => {
      let s = names.length && rng.chance(0.75) ? strip(rng.pick(names)).replace(/\/+$/, '') : comps();
      const r = rng.int(8); if (r < 3) s = s ? s + '/' + comps() : comps(); else if (r === 3) s += rng.pick(COMP); else if (r === 4 && s.length > 1) s = s.slice(0, -1); else if (r === 5 && s.includes('/')) s = s.slice(0, s.lastIndexOf('/'));
      if (rng.chance(0.3)) s = rng.pick(['/', '//']) + s; if (rng.chance(0.1)) s += '/'; if (rng.chance(0.02)) s = ''; if (rng.chance(0.04)) s = '.'; if (rng.chance(0.04)) s += '/..'; if (s.startsWith('./')) s = s.slice(2); return s;
    };
    const ops = []; const n = rng.range(2, 25); const mode = rng.weighted([[6, 'none'], [2, 'host'], [2.5, 'mem']]);
    for (let i = 0; i < n; i++) ops.push({ o: rng.pick(Object.keys(CALLS)), p: path(), q: path() });
    if (mode === 'host') { const c = rng.range(1, 3); for (let i = 0; i < c && i < ops.length; i++) ops[i].f = [{ sc: rng.pick(['fd_prestat_get', 'fd_prestat_dir_name']), n: rng.int(names.length + 1), kind: 'err', errno: rng.pick([6, 21, 27, 28, 29, 48, 37, 52, 54, 58, 63, 76]) }]; }
    if (mode === 'mem') { ops.unshift({ o: 'fill', keep: rng.weighted([[2, 0], [3, rng.int(8)], [3, rng.int(30)]]), sz: rng.pick([16, 16, 32, 64, 128]) }); if (rng.chance(0.4)) ops.splice(rng.range(1, 3), 0, { o: 'free', n: rng.range(1, 6) }); ops.splice(rng.range(2, 6), 0, { o: 'drain' }); }
    while (rng.chance(0.06)) names.splice(rng.int(names.length + 1), 0, null); // something that is not a directory
    return { cfg: { pages: mode === 'mem' ? rng.range(3, 4) : 30 }, names, ops };
  },
  lists: ['ops'],
  *simplify(p) { for (let i = p.names.length - 1; i >= 0; i--) yield { ...p, names: p.names.filter((_, j) => j !== i) }; for (let i = 0; i < p.ops.length; i++) if (p.ops[i].f) { const ops = p.ops.slice(); ops[i] = { ...ops[i] }; delete ops[i].f; yield { ...p, ops }; } },
  run(plan, ctx) {
    const w = new host.World({ preopens: plan.names.map((n, i) => (n === null ? { name: '', path: 'p' + i, tag: 1 } : { name: n, path: 'p' + i })), maxsys: 400000 });
    plan.names.forEach((n, i) => { w.fs.mkpath('p' + i + '/a', 'dir'); w.fs.mkpath('p' + i + '/b', 'file', 'f'); w.fs.mkpath('p' + i + '/c', 'file', 'f'); w.fs.mkpath('p' + i + '/a/b', 'file', 'f'); w.fs.mkpath('p' + i + '/ab', 'symlink', 'a'); });
    let log = []; let G = null; const used = new Set(); let trouble = 0; const probes = {};
    w.onSys = (name, args, r) => { const p = POS[name]; if (p) for (const [a, b] of p) log.push([args[a], G.mem.toString('latin1', args[b] >>> 0, (args[b] >>> 0) + (args[b + 1] >>> 0)), name, r]); };
    const base = new Set(w.fds.keys());
    const res = runGuest(agent(ctx, 'main0', plan.cfg.pages), w, function* (g) {
      G = g; let blocks = [], low = false;
      for (const op of plan.ops) {
        if (op.o === 'fill') { for (const s of [4096, 256, op.sz]) for (;;) { const r = yield { op: 50, a: [s] }; if (!r.ru) break; blocks.push([r.ru, s]); } if (op.sz < 32) { /* nothing is left */ } low = true; const small = blocks.filter((b) => b[1] === op.sz).slice(0, op.keep); for (const b of small) { yield { op: 53, a: [b[0]] }; blocks.splice(blocks.indexOf(b), 1); } trouble++; continue; }
        if (op.o === 'free') { for (let i = 0; i < op.n && blocks.length; i++) yield { op: 53, a: [blocks.pop()[0]] }; continue; }
        if (op.o === 'drain') { for (const b of blocks) yield { op: 53, a: [b[0]] }; blocks = []; low = false; continue; }
        const [code, mk] = CALLS[op.o]; const two = op.o === 'rename' || op.o === 'link';
        log = []; const p = g.str(op.p), q = g.str(op.q);
        const r = yield { op: code, a: mk(p, q, g), f: op.f }; const seen = log;
        const failed = ['opendir', 'fopen'].includes(op.o) ? r.ru === 0 : r.r === -1;
        const want = [resolve(plan.names, op.p)]; if (two) want.push(resolve(plan.names, op.q));
        const what = op.o + '(' + show(op.p) + (two ? ', ' + show(op.q) : '') + ') with preopens ' + JSON.stringify(plan.names.map((x, i) => (i + 3) + ':' + x)).slice(0, 600);
        if (r.fired) { trouble++; probes.listing_failure = (probes.listing_failure || 0) + 1; if (!failed) bad('swallowed', what + ' succeeded although the host failed to list the preopened directories'); if (seen.length) bad('wrong-preopen', what + ' reached the host with ' + show(JSON.stringify(seen[0])) + ' although listing the preopens failed'); continue; }
        if (want.some((x) => !x.fds.length)) { if (seen.length) bad('uncovered', what + ' reached the host as ' + show(JSON.stringify(seen[0])) + ', but no preopened directory covers it'); if (!failed) bad('uncovered', what + ' succeeded'); continue; }
        if (!seen.length) { if (!failed) bad('no-host-call', what + ' succeeded without asking the host'); if (!low) bad('unresolved', what + ' failed with errno ' + r.err + ' without asking the host'); probes.no_memory = (probes.no_memory || 0) + 1; }
        else {
          const exp = op.o === 'remove' || op.o === 'access' || op.o === 'scandir' ? seen.map(() => want[0]) : want;
          if (seen.length !== exp.length) bad('host-calls', what + ' made ' + seen.length + ' path calls');
          seen.forEach((s, i) => { if (!exp[i].fds.includes(s[0])) bad('wrong-preopen', what + ' was resolved in preopen ' + s[0] + ' instead of ' + exp[i].fds); if (s[1] !== exp[i].rest) bad('wrong-rest', what + ' reached the host as ' + show(s[1]) + ' instead of ' + show(exp[i].rest)); used.add(s[0]); });
          const ok = seen[seen.length - 1][3] === 0; if (ok && failed && !(low && ['opendir', 'scandir', 'fopen'].includes(op.o)) && !(op.o === 'scandir' || op.o === 'opendir')) bad('invented', what + ' failed with errno ' + r.err); if (!ok && !failed) bad('swallowed', what + ' succeeded');
        }
        if (!failed && op.o === 'open') yield { op: 62, a: [r.r] }; if (!failed && op.o === 'opendir') yield { op: 103, a: [r.r] }; if (!failed && op.o === 'fopen') yield { op: 13, a: [r.r] };
        if (!failed && op.o === 'scandir') { const t = r.a[5] >>> 0; const ps = []; for (let i = 0; i < r.r; i++) ps.push(g.mem.readUInt32LE(t + 4 * i)); for (const x of ps) yield { op: 53, a: [x] }; yield { op: 53, a: [t] }; }
        for (const x of w.fds.keys()) if (!base.has(x)) bad('descriptor-leak', what + ' left descriptor ' + x + ' open');
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), used.size > 1 || trouble > 0, { probes: { ...probes, preopens_reached: used.size } }) };
  },
};
