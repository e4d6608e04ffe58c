'use strict';
const { agent, bad, runGuest, stats, host, show } = require('../common');
const { E } = host;
const O_RDONLY = 0x04000000, O_WRONLY = 0x10000000, O_RDWR = 0x14000000, O_CREAT = 0x1000, O_TRUNC = 0x8000, O_APPEND = 1, O_EXCL = 0x4000;
const PATHS = ['a', 'b', 'd', 'd/e', 'd/g', 'l', 'x', 'y', 'd/x', 'big'];
const CALLS = [[5, 'open'], [2, 'openat'], [2, 'close'], [5, 'read'], [5, 'write'], [4, 'pread'], [4, 'pwrite'], [3, 'lseek'], [2, 'ftruncate'], [1.5, 'isatty'], [2, 'access'], [2, 'unlink'], [1, 'unlinkat'], [2, 'link'], [1, 'linkat'], [2, 'symlink'], [1, 'symlinkat'], [2, 'readlink'], [1, 'readlinkat'], [2, 'rmdir'], [1, 'rmdirat'], [2, 'mkdir'], [1, 'mkdirat'], [2, 'rename'], [1, 'renameat'], [3, 'remove'], [2, 'stat'], [2, 'lstat'], [2, 'fstat'], [1, 'fstatat'], [2, 'getfl'], [2, 'setfl'], [1, 'getfd'], [2, 'fsync'], [2, 'fdatasync'], [2, 'fallocate'], [1.5, 'fadvise'], [3, 'opendir'], [2, 'readdir'], [1.5, 'closedir'], [3, 'scandir'], [3, 'time'], [2, 'timenull'], [2, 'clock'], [3, 'fopen'], [2, 'getc'], [2, 'fread'], [2, 'fputc'], [2, 'fflush'], [1.5, 'fclose'], [2, 'fseek'], [1, 'ftell']];
// calls that answer with something other than -1 when they fail
const NULLS = new Set(['opendir', 'readdir', 'fopen']);
module.exports = {
  id: 'F02', runs: { quick: 24000, thorough: 600000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run is a history of valid descriptor, path, directory, clock and stream calls in which the host fails chosen system calls with any of the 76 error codes (before or after doing the work) or cuts transfers short; the verdict compares what each call reported with what the host actually answered during it, and the tree and descriptor table with what the host did. Non-trivial: at least two host failures fired. Distinct by plan.',
  real: ['lib/src/fcntl.c', 'lib/src/unistd.c', 'lib/src/stat.c', 'lib/src/dirent.c', 'lib/src/time.c', 'lib/src/stdio.c'], stub: ['WASI host and file system (in-memory simulator)'],
  gen(rng) {
    const ops = []; const n = rng.range(5, 60); const p = rng.pick([0.3, 0.5, 0.8]); const warm = rng.chance(0.85);
    const errno = () => rng.weighted([[6, rng.range(1, 76)], [1, 76], [1, 31], [1, 54], [0.5, 8], [0.5, 28], [0.5, 27], [0.5, 6]]);
    for (let i = 0; i < n; i++) {
      const op = { o: rng.weighted(CALLS), k: rng.int(1000), p: rng.pick(PATHS), q: rng.pick(PATHS), n: rng.weighted([[1, rng.int(3)], [5, rng.range(1, 80)], [1, rng.size(4000)]]), off: rng.int(60), fl: rng.pick([O_RDONLY, O_RDONLY, O_RDWR, O_RDWR, O_RDWR | O_CREAT, O_WRONLY | O_CREAT, O_RDWR | O_APPEND | O_CREAT, O_WRONLY | O_TRUNC, O_RDWR | O_CREAT | O_EXCL]) };
      if (rng.chance(p)) {
        op.f = [];
        if (['read', 'write', 'pread', 'pwrite'].includes(op.o) && rng.chance(0.5)) op.f.push({ sc: 'fd_' + op.o, n: 0, kind: 'short', k: rng.int(Math.max(2, op.n)), zero: rng.chance(0.1) });
        else { op.f.push({ sc: '*', n: rng.weighted([[6, 0], [4, 1], [1, 2], [0.5, 3]]), kind: 'err', errno: errno(), after: rng.chance(0.15) }); if (rng.chance(0.15)) op.f.push({ sc: '*', n: rng.range(1, 3), kind: 'err', errno: errno() }); }
      }
      ops.push(op);
    }
    // "bad descriptor" is how a host ends the list of preopened directories, so it is not a failure there
    if (!warm) for (const o of ops) for (const f of o.f || []) if (f.errno === 8) f.errno = 29;
    return { cfg: { warm, badf: rng.chance(0.3), spipe: rng.chance(0.3), big: rng.int(3) }, ops };
  },
  lists: ['ops'],
  *simplify(p) { for (let i = 0; i < p.ops.length; i++) if (p.ops[i].f) { const ops = p.ops.slice(); ops[i] = { ...ops[i] }; delete ops[i].f; yield { ...p, ops }; } for (let i = 0; i < p.ops.length; i++) if (p.ops[i].f && p.ops[i].f.length > 1) for (let j = 0; j < p.ops[i].f.length; j++) { const ops = p.ops.slice(); ops[i] = { ...ops[i], f: ops[i].f.filter((_, x) => x !== j) }; yield { ...p, ops }; } },
  run(plan, ctx) {
    const c = plan.cfg; const w = new host.World({ badfRights: c.badf, spipe: c.spipe, std: { 0: { kind: 'tty', data: 'typed\n' }, 1: { kind: 'tty' } } });
    for (const [p, t, d] of [['a', 'file', 'contents of a, long enough to read from\n'.repeat(3)], ['b', 'file', 'b'], ['d', 'dir'], ['d/e', 'dir'], ['d/g', 'file', 'in d'], ['l', 'symlink', 'a'], ['big', 'dir']]) w.fs.mkpath(p, t, d);
    for (let i = 0; i < [3, 60, 180][c.big]; i++) w.fs.mkpath('big/entry-number-' + i, 'file', '');
    let log = []; let hit = 0; const probes = {};
    w.onSys = (name, args, r, f, note) => log.push({ name, args, r, f, note });
    const fdl = () => [...w.fds.keys()].sort((a, b) => a - b).join(' ');
    const res = runGuest(agent(ctx, 'main0', 40), w, function* (g) {
      const raw = []; const dirs = []; const S = []; if (c.warm) yield { op: 70, a: [g.str('a'), 0] };
      for (const op of plan.ops) {
        log = []; const fds = [0, 1, 3, ...raw]; const fd = fds[op.k % fds.length]; const o = op.o; let a, l, code, buf = 0, s = null;
        const P = () => g.str(op.p), Q = () => g.str(op.q);
        const area = (n) => { const p = g.alloc(n + 16); g.mem.fill(0xa7, p, p + n + 16); buf = p + 8; return buf; };
        switch (o) {
          case 'open': if (raw.length > 12) continue; code = 60; a = [P(), op.fl]; break;
          case 'openat': if (raw.length > 12) continue; code = 61; a = [3, P(), op.fl]; break;
          case 'close': if (!raw.length) continue; code = 62; a = [raw[op.k % raw.length]]; break;
          case 'read': code = 63; a = [fd, area(op.n), op.n]; break;
          case 'write': code = 64; a = [fd, g.put(Buffer.alloc(op.n, 87)), op.n]; break;
          case 'pread': code = 65; a = [fd, area(op.n), op.n]; l = [op.off]; break;
          case 'pwrite': code = 66; a = [fd, g.put(Buffer.alloc(op.n, 80)), op.n]; l = [op.off]; break;
          case 'lseek': code = 67; a = [fd, op.k % 3]; l = [op.off]; break;
          case 'ftruncate': code = 68; a = [fd]; l = [op.off]; break;
          case 'isatty': code = 69; a = [fd]; break;
          case 'access': code = 70; a = [P(), op.k % 8]; break;
          case 'unlink': code = 71; a = [P()]; break;
          case 'unlinkat': code = 72; a = [3, P(), op.k % 2 * 4]; break;
          case 'link': code = 73; a = [P(), Q()]; break;
          case 'linkat': code = 74; a = [3, P(), 3, Q(), 0]; break;
          case 'symlink': code = 75; a = [P(), Q()]; break;
          case 'symlinkat': code = 76; a = [P(), 3, Q()]; break;
          case 'readlink': code = 77; a = [P(), area(50), 50]; break;
          case 'readlinkat': code = 78; a = [3, P(), area(50), 50]; break;
          case 'rmdir': code = 79; a = [P()]; break;
          case 'rmdirat': code = 80; a = [3, P()]; break;
          case 'mkdir': code = 81; a = [P(), 0o700]; break;
          case 'mkdirat': code = 82; a = [3, P(), 0o700]; break;
          case 'rename': code = 83; a = [P(), Q()]; break;
          case 'renameat': code = 84; a = [3, P(), 3, Q()]; break;
          case 'remove': code = 85; a = [P()]; break;
          case 'stat': code = 86; a = [P(), 0, 0, 0, 0, 0, area(88)]; break;
          case 'lstat': code = 87; a = [P(), 0, 0, 0, 0, 0, area(88)]; break;
          case 'fstat': code = 88; a = [fd, 0, 0, 0, 0, 0, area(88)]; break;
          case 'fstatat': code = 89; a = [3, P(), op.k % 2, 0, 0, 0, area(88)]; break;
          case 'getfl': code = 90; a = [fd, 3]; break;
          case 'setfl': code = 91; a = [fd, 4, op.k % 2]; break;
          case 'getfd': code = 90; a = [fd, 1]; break;
          case 'fsync': code = 92; a = [fd]; break;
          case 'fdatasync': code = 93; a = [fd]; break;
          case 'fallocate': code = 94; a = [fd]; l = [op.off, op.n]; break;
          case 'fadvise': code = 95; a = [fd, op.k % 6]; l = [op.off, op.n]; break;
          case 'opendir': if (dirs.length > 4) continue; code = 100; a = [g.str(['d', 'big', '.', 'd/e'][op.k % 4])]; break;
          case 'readdir': if (!dirs.length) continue; code = 102; s = dirs[op.k % dirs.length]; a = [s]; break;
          case 'closedir': if (!dirs.length) continue; code = 103; s = dirs.splice(op.k % dirs.length, 1)[0]; a = [s]; break;
          case 'scandir': code = 107; a = [g.str(['d', 'big', '.'][op.k % 3]), 0, 1]; break;
          case 'time': code = 120; a = []; break; case 'timenull': code = 134; a = []; break; case 'clock': code = 121; a = []; break;
          case 'fopen': if (S.length > 6) continue; code = 10; a = [P(), g.str(['r', 'w', 'a', 'r+', 'w+', 'a+'][op.k % 6])]; break;
          default: {
            if (!S.length) continue; s = S[op.k % S.length]; const rd = s.m[0] === 'r' && !s.w;
            if (o === 'getc') { if (!rd) continue; code = 31; a = [s.fp]; } else if (o === 'fread') { if (!rd) continue; code = 33; a = [s.fp, area(op.n), 1, op.n]; } else if (o === 'fputc') { if (s.m === 'r' || s.r) continue; code = 21; a = [s.fp, 65 + op.k % 26]; s.w = true; } else if (o === 'fflush') { code = 14; a = [s.fp]; if (!s.w) continue; } else if (o === 'fclose') { code = 13; a = [s.fp]; S.splice(S.indexOf(s), 1); } else if (o === 'fseek') { code = 40; a = [s.fp, 0]; l = [op.off]; } else { code = 41; a = [s.fp]; }
            if (rd && (o === 'getc' || o === 'fread')) s.r = true;
          }
        }
        const before = w.fs.dump().join('\n'), fdb = new Set(w.fds.keys()); log = [];
        const r = yield { op: code, a, l, f: op.f };
        const pre = log.filter((x) => x.name.startsWith('fd_prestat')); const main = log.filter((x) => !x.name.startsWith('fd_prestat'));
        const fails = main.filter((x) => x.r !== 0); const prefail = pre.filter((x) => x.f && x.f.kind === 'err').length > 0; hit += r.fired;
        const what = o + '(' + (code === 60 || code >= 70 && code < 88 ? show(op.p) + (['link', 'rename', 'symlink'].includes(o) ? ',' + show(op.q) : '') : a[0] | 0) + ') [host: ' + log.map((x) => x.name + '=' + x.r + (x.f ? '!' : '')).join(' ') + ']';
        const failed = NULLS.has(o) ? r.r === 0 : o === 'isatty' ? r.r === 0 : o === 'fallocate' || o === 'fadvise' ? r.r !== 0 : o === 'lseek' || o === 'time' || o === 'timenull' || o === 'clock' || o === 'ftell' ? r.rl === -1n : o === 'fread' ? (r.fl & 2) !== 0 : o === 'getc' ? (r.fl & 2) !== 0 : r.r === -1;
        if (main.length > (o === 'scandir' ? 40 : 5)) bad('not-prompt', what + ' made ' + main.length + ' host calls', o);
        // side effects
        const after = w.fs.dump().join('\n'); const opened = [...w.fds.keys()].filter((x) => !fdb.has(x)), gone = [...fdb].filter((x) => !w.fds.has(x));
        const worked = main.some((x) => x.r === 0 || (x.f && x.f.after));
        if (failed && after !== before && !main.some((x) => (x.f && x.f.after) || (x.r === 0 && /^(path_open|fd_write)$/.test(x.name)))) bad('side-effect', what + ' failed and changed the tree', o);
        const openok = main.filter((x) => x.name === 'path_open' && (x.r === 0 || (x.f && x.f.after && / -> /.test(x.note)))); const hostleak = main.filter((x) => x.name === 'path_open' && x.f && x.f.after && / -> /.test(x.note)).length + main.filter((x) => x.name === 'fd_close' && x.r !== 0 && !(x.f && x.f.after)).length;
        const keep = failed || o === 'scandir' ? 0 : ['open', 'openat', 'opendir', 'fopen'].includes(o) ? 1 : 0;
        if (opened.length > keep + hostleak) bad('descriptor-leak', what + ' left descriptors [' + opened + '] open', o);
        if (gone.length && !['close', 'closedir', 'fclose'].includes(o)) bad('descriptor-lost', what + ' closed [' + gone + ']', o);
        if (prefail) { probes.preopen_failure = (probes.preopen_failure || 0) + 1; if (!failed) bad('swallowed', what + ' succeeded although the host failed to list the preopened directories', o); }
        else {
          // what must be reported
          let needed = fails;
          if (o === 'scandir') needed = fails.filter((x) => x.name !== 'fd_close'); if (o === 'opendir') needed = fails.filter((x) => x.name !== 'fd_close');
          if (o === 'remove' && main.length === 2 && main[0].name === 'path_unlink_file' && main[1].name === 'path_remove_directory') { if (![31, 76].includes(main[0].r)) bad('retry', what + ' went on after a failure that does not mean a directory', o); needed = fails.filter((x) => x.name !== 'path_unlink_file'); }
          if (o === 'isatty' && !needed.length) { /* may be no terminal */ const h = w.fds.get(fd); if ((r.r === 1) !== (h.kind === 'tty')) bad('result', what + ' returned ' + r.r, o); }
          else if (['fopen', 'fseek', 'ftell', 'getc', 'fread', 'fputc', 'fflush', 'fclose'].includes(o)) {
            const opt = fails.filter((x) => x.name === 'fd_fdstat_get' || (o === 'fopen' && x.name !== 'path_open')); // probing a stream's nature is optional
            const hard = fails.filter((x) => !opt.includes(x));
            if (s && s.hurt) { /* an earlier failure may be reported now */ } else {
              if (hard.length && !failed && !(o === 'fseek' || o === 'ftell')) bad('swallowed', what + ' reported success', o);
              if (!fails.length && failed && !(o === 'fopen' && 0)) bad('invented', what + ' reported failure, errno ' + r.err, o);
              if (failed && hard.length && !hard.some((x) => x.r === r.err) && !(hard.some((x) => x.r === 76))) bad('errno', what + ' set errno ' + r.err + ' instead of ' + hard.map((x) => x.r), o);
            }
            if (s && fails.length) s.hurt = true;
          } else {
            const e = needed.length ? needed[needed.length - 1].r : 0;
            if (needed.length && !failed) bad('swallowed', what + ' reported success (' + (code === 67 ? r.rl : r.r) + ')', o);
            if (!needed.length && failed && !(o === 'isatty') && !(o === 'readdir') && !(o === 'access' && r.err === 2)) bad('invented', what + ' reported failure with errno ' + r.err, o);
            if (needed.length) {
              let want = [e]; const last = needed[needed.length - 1].name, h = w.fds.get(fd);
              if (e === 76) { if (o === 'read' || o === 'write' || o === 'fdatasync') want = [8]; else if (o === 'fsync') want = [28]; else if (o === 'lseek') want = [29 + 41]; }
              if (o === 'pread' || o === 'pwrite') { const first = needed[0]; want = first.r === 76 ? (main[main.length - 1].name === 'fd_fdstat_get' && main[main.length - 1].r === 0 ? [(h.rb & (o === 'pread' ? host.R.READ : host.R.WRITE)) ? 70 : 8] : [76, 8, 70]) : [first.r]; }
              if (o === 'remove' && e === 54 && main[0].r === 76) want = [76];
              if (o === 'scandir' || o === 'opendir') want = fails.map((x) => x.r);
              const got = o === 'fallocate' || o === 'fadvise' ? r.r : r.err;
              if (!want.includes(got)) bad('errno', what + ' gave errno ' + got + ' instead of ' + want.join('/'), o);
            }
            // true counts
            const t = main.find((x) => x.name === 'fd_' + o); if (t && !failed && ['read', 'write', 'pread', 'pwrite'].includes(o) && r.r !== parseInt(t.note, 10)) bad('count', what + ' returned ' + r.r + ' although the host moved ' + t.note.split(':')[0] + ' bytes', o);
            if (o === 'time' && r.rl !== r.l1) bad('result', 'time(&t) returned ' + r.rl + ' and stored ' + r.l1, o);
            if (!failed && o === 'open' || o === 'openat') { if (!failed && (opened.length !== 1 || opened[0] !== r.r)) bad('result', what + ' returned ' + r.r, o); }
          }
        }
        if (buf && a[2] > 0) for (let i = 1; i <= 8; i++) if (g.mem[buf - i] !== 0xa7) bad('overrun', what + ' wrote outside its buffer');
        if (!failed) { if (o === 'open' || o === 'openat') raw.push(r.r); if (o === 'close' || (o === 'close' && failed)) raw.splice(raw.indexOf(a[0]), 1); if (o === 'opendir') dirs.push(r.r); if (o === 'fopen') S.push({ fp: r.ru, m: ['r', 'w', 'a', 'r+', 'w+', 'a+'][op.k % 6], hurt: fails.length > 0 }); if (o === 'scandir') { for (let i = 0; i < r.r; i++) yield { op: 53, a: [g.mem.readUInt32LE((r.a[5] >>> 0) + 4 * i)] }; yield { op: 53, a: [r.a[5]] }; } }
        if (o === 'close' && failed && !w.fds.has(a[0])) raw.splice(raw.indexOf(a[0]), 1);
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), hit >= 2, { probes: { ...probes, host_failures: hit } }) };
  },
};
