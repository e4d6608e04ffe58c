'use strict';
const { agent, bad, runGuest, stats, host, show } = require('../common');
const { FS, E, Err } = host;
const O = { APPEND: 1, DSYNC: 2, NONBLOCK: 4, RSYNC: 8, SYNC: 16, CREAT: 0x1000, DIRECTORY: 0x2000, EXCL: 0x4000, TRUNC: 0x8000, NOFOLLOW: 0x1000000, EXEC: 0x2000000, RDONLY: 0x4000000, SEARCH: 0x8000000, WRONLY: 0x10000000, RDWR: 0x14000000 };
const ACC = O.EXEC | O.RDWR | O.SEARCH;
const MODE = { blk: 0x6000, chr: 0x2000, dir: 0x4000, file: 0x8000, symlink: 0xa000, dgram: 0xc000, stream: 0xc000, unknown: 0 };
const NAMES = ['a', 'b', 'c', 'd', 'd/e', 'd/e/f', 'd/g', 'l', 'm', 'n', 'dl', 'dl/e', 'dl/g', 'lo', 'dang', 'x', 'y', 'z', 'd/x', 'd/e/x', 'caf\xc3\xa9', 'a b', 'odd', 'odd2'];
function rpath(rng) {
  let p = rng.weighted([[30, rng.pick(NAMES)], [6, rng.pick(['x', 'y', 'z'])], [1, '.'], [1, '..'], [1, ''], [0.5, 'k'.repeat(rng.pick([255, 256, 300]))], [1, 'd/..'], [1, '/']]);
  const r = rng.int(20);
  if (r === 0) p = './' + p; else if (r === 1) p = 'd/../' + p; else if (r === 2) p = p + '/'; else if (r === 3) p = '/' + p; else if (r === 4) p = p.replace('/', '//'); else if (r === 5) p = p + '/.'; else if (r === 6 && rng.chance(0.5)) p = '../' + p; else if (r === 7) p = p + '/' + rng.pick(['x', 'a']);
  return p;
}
const KINDS = [[9, 'open'], [4, 'openat'], [4, 'close'], [5, 'read'], [6, 'write'], [3, 'pread'], [3, 'pwrite'], [4, 'lseek'], [2, 'ftruncate'], [1, 'isatty'], [2, 'access'], [2, 'unlink'], [1.5, 'unlinkat'], [2, 'link'], [1, 'linkat'], [2, 'symlink'], [1, 'symlinkat'], [2, 'readlink'], [1, 'readlinkat'], [2, 'rmdir'], [1, 'rmdirat'], [2, 'mkdir'], [1, 'mkdirat'], [3, 'rename'], [1.5, 'renameat'], [2, 'remove'], [3, 'stat'], [2, 'lstat'], [3, 'fstat'], [2, 'fstatat'], [3, 'fcntl'], [1, 'fsync'], [1, 'fdatasync'], [1.5, 'fallocate'], [0.7, 'fadvise']];
const PATH0 = new Set(['open', 'access', 'unlink', 'link', 'symlink', 'readlink', 'rmdir', 'mkdir', 'rename', 'remove', 'stat', 'lstat']);

module.exports = {
  id: 'F01', runs: { quick: 48000, thorough: 600000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run is a history of file calls over a small tree (files, directories, links, loops, odd file types; colliding names, trailing slashes, dots, escapes) with several descriptors, run by the real library against the simulated host while the same POSIX-level history is applied to an independent reference tree and descriptor table; result, errno, data, stat fields, whole tree, positions, flags and bytes around every buffer are compared after each call. Non-trivial: at least one call succeeded in changing the tree or a file and at least one failed. Distinct by plan.',
  real: ['lib/src/fcntl.c', 'lib/src/unistd.c', 'lib/src/stat.c', 'remove/rename in lib/src/stdio.c'], stub: ['WASI host and file system (in-memory simulator; the reference is a second instance of the same tree model driven at POSIX level)'],
  gen(rng) {
    const cfg = { tty: rng.chance(0.5), pre: rng.weighted([[3, '.'], [1, '/'], [1, ''], [1, './']]), badf: rng.chance(0.5), spipe: rng.chance(0.5), dev: rng.pick([7, 0, 1e9, 2 ** 40 + 9]), stdtype: rng.pick(['chr', 'stream', 'unknown', 'blk']), said: rng.chance(0.5) ? [rng.pick([2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 + 3, 2 ** 33 * 3 + 7, 2 ** 52 + 1]), rng.pick([1, 2 ** 16, 2 ** 31, 2 ** 32 + 1, 2 ** 40])] : null, odd: rng.pick(['blk', 'chr', 'dgram', 'stream', 'unknown']), ro: rng.chance(0.1), nr: rng.chance(0.07), t0: rng.pick(['1700000000123456789', '0', '999999999', '4102444800000000001', '2147483648000000000']) };
    const ops = []; const n = rng.weighted([[1, rng.range(1, 10)], [4, rng.range(10, 60)], [1, rng.range(60, 200)]]);
    const acc = () => rng.weighted([[4, O.RDONLY], [3, O.WRONLY], [5, O.RDWR], [0.7, O.SEARCH], [0.3, O.EXEC], [0.3, 0], [0.2, O.RDWR | O.SEARCH]]);
    const off = () => rng.weighted([[5, rng.int(40)], [3, rng.size(3000)], [1, -rng.int(20)], [0.5, rng.pick([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40, -(2 ** 31)])]]);
    const focus = rng.chance(0.4) ? rng.pick([['open', 'read', 'write', 'lseek', 'pread', 'pwrite', 'ftruncate', 'fallocate', 'fcntl', 'fstat', 'close'], ['mkdir', 'rename', 'renameat', 'link', 'linkat', 'symlink', 'unlink', 'remove', 'rmdir', 'unlinkat', 'stat', 'lstat', 'open', 'openat']]) : null;
    const kinds = focus ? KINDS.filter((k) => focus.includes(k[1])) : KINDS;
    for (let i = 0; i < n; i++) {
      const o = rng.weighted(kinds); const op = { o, k: rng.chance(0.06) ? rng.pick([-1, -2, -3]) : rng.int(1000), p: rpath(rng) };
      switch (o) {
        case 'openat': op.k2 = 1; // fall through
        case 'open': {
          let f = acc(); if (rng.chance(0.45)) f |= O.CREAT; if (rng.chance(0.1)) f |= O.EXCL; if (rng.chance(0.2) && (f & O.WRONLY)) f |= O.TRUNC; if (rng.chance(0.2)) f |= O.APPEND; if (rng.chance(0.12)) f |= O.DIRECTORY; if (rng.chance(0.1)) f |= O.NOFOLLOW; if (rng.chance(0.1)) f |= rng.pick([2, 4, 8, 16]);
          op.fl = f; break;
        }
        case 'read': op.n = rng.weighted([[4, rng.int(60)], [1, rng.size(5000)]]); break;
        case 'write': op.n = rng.weighted([[4, rng.int(60)], [1, rng.size(3000)]]); break;
        case 'pread': case 'pwrite': op.n = rng.int(100); op.off = off(); break;
        case 'lseek': op.off = off(); op.wh = rng.weighted([[3, 0], [2, 1], [2, 2], [0.3, 3], [0.1, -1]]); break;
        case 'ftruncate': op.off = off(); break;
        case 'fallocate': op.off = off(); op.n = off(); break;
        case 'fadvise': op.off = off(); op.n = off(); op.adv = rng.int(6); break;
        case 'access': op.m = rng.weighted([[8, rng.int(8)], [1, 8], [1, -1]]); break;
        case 'unlinkat': op.at = rng.pick([0, 4]); break;
        case 'link': case 'rename': op.q = rpath(rng); break;
        case 'linkat': op.q = rpath(rng); op.k2 = rng.int(1000); op.at = rng.pick([0, 2]); break;
        case 'renameat': op.q = rpath(rng); op.k2 = rng.int(1000); break;
        case 'symlink': case 'symlinkat': op.q = rng.pick([rpath(rng), rpath(rng), '../a', 'dl', 'no/such', '/abs', 't'.repeat(200)]); break;
        case 'readlink': case 'readlinkat': op.p = rng.chance(0.7) ? rng.pick(['l', 'm', 'dl', 'lo', 'dang', 'x', 'y']) : op.p; op.n = rng.pick([0, 1, 2, 3, 64, 300]); break;
        case 'fstatat': op.at = rng.pick([0, 1]); break;
        case 'fcntl': op.cmd = rng.weighted([[1, 1], [1, 2], [4, 3], [4, 4], [0.4, 5], [0.4, 0]]); op.fl = rng.pick([0, 1, 1, 4, 5, 0x4000001, 31]); break;
      }
      ops.push(op);
    }
    return { cfg, ops };
  },
  lists: ['ops'],
  *simplify(p) {
    for (let i = 0; i < p.ops.length; i++) { const o = p.ops[i]; const put = (c) => { const ops = p.ops.slice(); ops[i] = { ...o, ...c }; return { ...p, ops }; }; if (o.n > 1) yield put({ n: o.n >> 1 }); if (o.p && o.p.length > 1 && !NAMES.includes(o.p)) yield put({ p: 'a' }); if (o.k > 10) yield put({ k: 0 }); }
    if (p.cfg.nr) yield { ...p, cfg: { ...p.cfg, nr: false } };
    if (p.cfg.ro) yield { ...p, cfg: { ...p.cfg, ro: false } };
  },
  run(plan, ctx) {
    const c = plan.cfg;
    const build = () => {
      const f = new FS(() => BigInt(c.t0)); for (const [p, t, d] of [['a', 'file', 'contents of a\n'], ['b', 'file', ''], ['c', 'file', 'c'.repeat(2000)], ['d', 'dir'], ['d/e', 'dir'], ['d/g', 'file', 'in d'], ['d/e/f', 'file', 'deep'], ['l', 'symlink', 'a'], ['m', 'symlink', 'd/g'], ['dl', 'symlink', 'd'], ['lo', 'symlink', 'lo'], ['dang', 'symlink', 'nothing'], ['caf\xc3\xa9', 'file', 'utf'], ['a b', 'file', 'sp'], ['odd', 'file', 'o'], ['odd2', 'file', 'o2']]) f.mkpath(p, t, d);
      return f;
    };
    const fs = build(), ref = build(); const oddino = [...fs.root.entries.get('odd') ? [fs.root.entries.get('odd').ino] : []];
    fs.root.entries.get('odd').ftype = c.odd; if (c.said) for (const k of ['odd', 'odd2']) fs.root.entries.get(k).said = c.said; // what the host claims about them
    let t = BigInt(c.t0); for (const n of fs.nodes.values()) { n.atim = t; t += 1000000007n; n.mtim = t; t += 77777777777n; n.ctim = t; t += 1n; }
    const w = new host.World({ fs, realtime: BigInt(c.t0), dev: c.dev, badfRights: c.badf, spipe: c.spipe, std: { 0: { kind: c.tty ? 'tty' : 'pipe', data: 'typed\n' }, 1: { kind: c.tty ? 'tty' : 'pipe' } }, pipeType: host.FT[c.stdtype], preopens: [{ name: c.pre, path: '', ...(c.ro || c.nr ? { ri: host.ALL & ~(c.ro ? host.R.WRITE | host.R.ALLOCATE | host.R.SET_SIZE : 0n) & ~(c.nr ? host.R.READ : 0n) } : {}) }] });
    for (let i = 0; i < 3; i++) if (!c.tty || i === 2) w.std[i].node.ftype = c.stdtype;
    // reference descriptor table
    const D = new Map([[3, { dir: true, node: ref.root, acc: O.RDWR, flags: 0, pre: true }]]); for (let i = 0; i < 3; i++) D.set(i, { std: i, flags: 0, acc: O.RDWR });
    const res = (f) => { try { return f(); } catch (e) { if (e instanceof Err) return { r: -1, e: [e.e] }; throw e; } };
    const fails = (...e) => ({ r: -1, e });
    const P0 = (p) => { if (p === '') return p; let q = p.replace(/^\/+/, ''); return q === '' ? '.' : q; }; // one preopened directory covers everything
    const dirnode = (fd) => { const d = D.get(fd); if (!d) throw new Err(E.BADF); if (!d.dir) throw new Err(E.NOTDIR); return d.node; };
    let changed = 0, failed = 0; const probes = {};
    const pat = (op, i) => Buffer.from(Array.from({ length: op.n }, (_, j) => (i * 31 + j * 7 + 1) & 255));
    const OP = { open: 60, openat: 61, close: 62, read: 63, write: 64, pread: 65, pwrite: 66, lseek: 67, ftruncate: 68, isatty: 69, access: 70, unlink: 71, unlinkat: 72, link: 73, linkat: 74, symlink: 75, symlinkat: 76, readlink: 77, readlinkat: 78, rmdir: 79, rmdirat: 80, mkdir: 81, mkdirat: 82, rename: 83, renameat: 84, remove: 85, stat: 86, lstat: 87, fstat: 88, fstatat: 89, fcntl: 91, fsync: 92, fdatasync: 93, fallocate: 94, fadvise: 95 };
    const result = runGuest(agent(ctx, 'main0', 40), w, function* (g) {
      const G = 8; let at = -1;
      for (const op of plan.ops) {
        at++; const fds = [...D.keys()]; const fdn = (k) => k < 0 ? [-1, 99, 3][-k - 1] : k % 3 ? fds[k % fds.length] : fds[fds.length - 1 - (k % Math.max(1, fds.length - 3))]; const fd = fdn(op.k); const d = D.get(fd);
        const dirs = fds.filter((x) => D.get(x).dir); const dfd = (k) => k < 0 ? [-1, 99, 1][-k - 1] : k % 7 === 0 ? fds[k % fds.length] : dirs[k % dirs.length];
        let a, l, exp, name = op.o, buf = 0, blen = 0, before = null, statNode; const A = dfd(op.k), B = op.k2 !== undefined ? dfd(op.k2) : 0;
        const isR = (x) => (x.acc & O.RDONLY) !== 0, isW = (x) => (x.acc & O.WRONLY) !== 0;
        const area = (n) => { blen = n; const p = g.alloc(n + 2 * G); g.mem.fill(0xa7, p, p + n + 2 * G); buf = p + G; return buf; };
        const tree = (f) => res(() => { f(); return { r: 0 }; });
        const p = op.p; const bytes = () => g.str(p);
        const openm = (base, path, fl) => {
          const acc = fl & ACC; if (![O.RDONLY, O.WRONLY, O.RDWR, O.EXEC, O.SEARCH].includes(acc)) return fails(E.INVAL);
          let rd = isR({ acc }), wr = isW({ acc }) && !c.ro;
          const node = ref.open(base, path, { creat: !!(fl & O.CREAT), directory: !!(fl & O.DIRECTORY), excl: !!(fl & O.EXCL), trunc: !!(fl & O.TRUNC), follow: !(fl & O.NOFOLLOW), read: rd, write: wr });
          if (c.nr && node.type !== 'dir') rd = false;
          return { open: { dir: node.type === 'dir', node, pos: 0, flags: fl & 0xfff, acc: acc === O.EXEC ? O.SEARCH : (rd ? O.RDONLY : 0) | (wr ? O.WRONLY : 0) || O.SEARCH } };
        };
        const doread = (pos) => {
          if (!d) return fails(E.BADF); if (!isR(d)) return fails(E.BADF); if (d.dir) return fails(E.ISDIR, E.BADF); if (d.std !== undefined) return pos !== null ? fails(E.SPIPE) : { skip: true };
          if (pos !== null && pos < 0) return fails(E.INVAL);
          const data = ref.pread(d.node, pos === null ? d.pos : pos, op.n); if (pos === null) d.pos += data.length; return { r: data.length, data };
        };
        const MAX = 1 << 26;
        const dowrite = (pos, data) => {
          if (!d || !isW(d)) return fails(E.BADF); if (d.dir) return fails(E.ISDIR, E.BADF); if (d.std !== undefined) return pos !== null ? fails(E.SPIPE) : { r: data.length, sink: data };
          const q = pos !== null ? pos : (d.flags & O.APPEND) ? d.node.size : d.pos; if (q + data.length > MAX) return fails(E.FBIG);
          ref.pwrite(d.node, q, data); if (pos === null) d.pos = q + data.length; return { r: data.length };
        };
        const chkstat = (n) => ({ r: 0, node: n });
        switch (op.o) {
          case 'open': a = [bytes(), op.fl]; exp = res(() => openm(ref.root, P0(p), op.fl)); break;
          case 'openat': a = [A, bytes(), op.fl]; exp = res(() => { const acc = op.fl & ACC; if (![O.RDONLY, O.WRONLY, O.RDWR, O.EXEC, O.SEARCH].includes(acc)) return fails(E.INVAL, E.BADF, E.NOTDIR); return openm(dirnode(A), p, op.fl); }); break;
          case 'close': if (fd <= 3 && fd >= 0) continue; a = [fd]; exp = d ? { r: 0 } : fails(E.BADF); D.delete(fd); break;
          case 'read': a = [fd, area(op.n), op.n]; exp = doread(null); if (exp.skip) continue; break;
          case 'pread': a = [fd, area(op.n), op.n]; l = [op.off]; exp = op.off < 0 ? fails(E.INVAL, E.BADF, E.SPIPE, E.ISDIR) : doread(op.off); break;
          case 'write': { const b = pat(op, at); a = [fd, g.put(b), op.n]; exp = dowrite(null, b); break; }
          case 'pwrite': { const b = pat(op, at); if (d && (d.flags & O.APPEND)) continue; a = [fd, g.put(b), op.n]; l = [op.off]; exp = op.off < 0 ? fails(E.INVAL, E.BADF, E.SPIPE, E.ISDIR) : dowrite(op.off, b); break; }
          case 'lseek': a = [fd, op.wh]; l = [op.off]; exp = !d ? fails(E.BADF) : d.dir ? fails(E.BADF, E.SPIPE) : d.std !== undefined ? fails(E.SPIPE) : op.wh > 2 || op.wh < 0 ? fails(E.INVAL) : (() => { const q = op.off + [0, d.pos, d.node.size][op.wh]; if (q < 0) return fails(E.INVAL); d.pos = q; return { rl: q }; })(); break;
          case 'ftruncate': a = [fd]; l = [op.off]; exp = op.off < 0 ? fails(E.INVAL, E.BADF) : !d ? fails(E.BADF) : d.dir ? fails(E.ISDIR, E.INVAL, E.BADF) : d.std !== undefined ? fails(E.INVAL) : !isW(d) ? fails(E.INVAL, E.BADF, E.NOTCAPABLE) : op.off > MAX ? fails(E.FBIG, E.INVAL) : (ref.setSize(d.node, op.off), { r: 0 }); break;
          case 'isatty': a = [fd]; exp = !d ? { r: 0, e: [E.BADF] } : d.std !== undefined && (w.std[d.std].kind === 'tty' || c.stdtype === 'chr') ? { r: 1 } : { r: 0, e: [E.NOTTY] }; break;
          case 'access': a = [bytes(), op.m]; exp = (op.m & ~7) ? fails(E.INVAL, ...(res(() => (ref.stat(ref.root, P0(p), true), { r: 0 })).e || [])) : res(() => { const n = ref.stat(ref.root, P0(p), true); if ((op.m & 4) && c.nr && n.type !== 'dir') return fails(E.ACCES); if ((op.m & 2) && c.ro) return fails(E.ACCES, E.ROFS); return { r: 0 }; }); break;
          case 'unlink': a = [bytes()]; exp = tree(() => ref.unlink(ref.root, P0(p))); break;
          case 'unlinkat': a = [A, bytes(), op.at]; exp = tree(() => op.at & 4 ? ref.rmdir(dirnode(A), p) : ref.unlink(dirnode(A), p)); break;
          case 'link': a = [bytes(), g.str(op.q)]; exp = tree(() => ref.link(ref.root, P0(p), false, ref.root, P0(op.q))); break;
          case 'linkat': a = [A, bytes(), B, g.str(op.q), op.at]; exp = tree(() => ref.link(dirnode(A), p, !!(op.at & 2), dirnode(B), op.q)); break;
          case 'symlink': a = [g.str(op.q), bytes()]; exp = tree(() => ref.symlink(op.q, ref.root, P0(p))); break;
          case 'symlinkat': a = [g.str(op.q), A, bytes()]; exp = tree(() => ref.symlink(op.q, dirnode(A), p)); break;
          case 'readlink': a = [bytes(), area(op.n), op.n]; exp = res(() => { const t = ref.readlink(ref.root, P0(p)).subarray(0, op.n); return { r: t.length, data: t }; }); break;
          case 'readlinkat': a = [A, bytes(), area(op.n), op.n]; exp = res(() => { const t = ref.readlink(dirnode(A), p).subarray(0, op.n); return { r: t.length, data: t }; }); break;
          case 'rmdir': a = [bytes()]; exp = tree(() => ref.rmdir(ref.root, P0(p))); break;
          case 'rmdirat': a = [A, bytes()]; exp = tree(() => ref.rmdir(dirnode(A), p)); break;
          case 'mkdir': a = [bytes(), 0o700]; exp = tree(() => ref.mkdir(ref.root, P0(p))); break;
          case 'mkdirat': a = [A, bytes(), 0o700]; exp = tree(() => ref.mkdir(dirnode(A), p)); break;
          case 'rename': a = [bytes(), g.str(op.q)]; exp = tree(() => ref.rename(ref.root, P0(p), ref.root, P0(op.q))); break;
          case 'renameat': a = [A, bytes(), B, g.str(op.q)]; exp = tree(() => ref.rename(dirnode(A), p, dirnode(B), op.q)); break;
          case 'remove': a = [bytes()]; exp = tree(() => { const q = P0(p); let isdir = false; try { ref.unlink(ref.root, q); } catch (e) { if (e instanceof Err && e.e === E.ISDIR) isdir = true; else throw e; } if (isdir) ref.rmdir(ref.root, q); }); break;
          case 'stat': a = [bytes()]; exp = res(() => chkstat(ref.stat(ref.root, P0(p), true))); break;
          case 'lstat': a = [bytes()]; exp = res(() => chkstat(ref.stat(ref.root, P0(p), false))); break;
          case 'fstatat': a = [A, bytes(), op.at]; exp = res(() => chkstat(ref.stat(dirnode(A), p, !(op.at & 1)))); break;
          case 'fstat': a = [fd]; exp = !d ? fails(E.BADF) : d.std !== undefined ? { r: 0, hnode: w.std[d.std].node } : chkstat(d.node); break;
          case 'fcntl': {
            a = [fd, op.cmd, op.fl];
            exp = op.cmd < 1 || op.cmd > 4 ? fails(E.INVAL, ...(d ? [] : [E.BADF])) : !d ? fails(E.BADF) : op.cmd === 1 ? { r: 1 } : op.cmd === 2 ? { r: 0 } : op.cmd === 3 ? { r: d.flags | d.acc } : (d.flags = op.fl & 0xfff, { r: 0 });
            if (op.cmd === 4 && d && d.std !== undefined) w.std[d.std].expflags = d.flags; break;
          }
          case 'fsync': a = [fd]; exp = !d ? fails(E.BADF) : d.std !== undefined ? fails(E.INVAL) : { r: 0 }; break;
          case 'fdatasync': a = [fd]; exp = !d ? fails(E.BADF) : d.std !== undefined ? fails(E.INVAL, E.BADF) : d.dir && !isW(d) ? { any: true } : !isW(d) ? { any: true } : { r: 0 }; break;
          case 'fallocate': a = [fd]; l = [op.off, op.n]; exp = op.off < 0 || op.n < 0 ? { r: E.INVAL } : !d ? { r: E.BADF } : d.dir || d.std !== undefined ? { nonzero: true } : !isW(d) ? { nonzero: true } : op.n === 0 ? { r: E.INVAL } : op.off + op.n > MAX ? { r: E.FBIG } : ((op.off + op.n > d.node.size) && ref.setSize(d.node, op.off + op.n), { r: 0 }); break;
          case 'fadvise': a = [fd, op.adv]; l = [op.off, op.n]; exp = op.off < 0 || op.n < 0 ? { r: E.INVAL } : !d ? { r: E.BADF } : d.dir || d.std !== undefined ? { nonzero: true } : { r: 0 }; break;
        }
        if (op.o.includes('stat')) { a[6] = area(88); }
        const had = new Set(w.fds.keys());
        const what = name + '(' + (PATH0.has(op.o) ? show(p) + (op.q !== undefined ? ', ' + show(op.q) : '') : [...a.slice(0, 1)].join(',') + (p && /at$/.test(op.o) ? ', ' + show(p) + (op.q !== undefined ? ', ' + B + ', ' + show(op.q) : '') : '')) + (op.off !== undefined ? ', off ' + op.off : '') + (op.n !== undefined ? ', n ' + op.n : '') + (op.fl !== undefined ? ', flags 0x' + op.fl.toString(16) : '') + (op.at !== undefined ? ', at ' + op.at : '') + ')';
        const r = yield { op: OP[op.o], a, l };
        const got = op.o === 'lseek' ? Number(r.rl) : r.r;
        const opened = [...w.fds.keys()].filter((x) => !had.has(x)), gone = [...had].filter((x) => !w.fds.has(x));
        if (exp.any) { /* hosts and systems differ */ } else if (exp.nonzero) { if (got === 0) bad('result', what + ' returned 0'); } else if (exp.e && exp.r === -1) {
          failed++; if (got !== -1) bad('result', what + ' returned ' + got + ', must fail with errno ' + exp.e.join('/'), op.o);
          if (!exp.e.includes(r.err)) bad('errno', what + ' failed with errno ' + r.err + ' instead of ' + exp.e.join('/'), op.o);
        } else if (exp.open) {
          if (got < 0) bad('result', what + ' failed with errno ' + r.err, op.o); if (opened.length !== 1 || opened[0] !== got) bad('result', what + ' returned ' + got + ' and opened [' + opened + ']');
          D.set(got, exp.open); changed++;
        } else if (exp.rl !== undefined) { if (got !== exp.rl) bad('result', what + ' returned ' + got + ' (errno ' + r.err + ') instead of ' + exp.rl); } else {
          if (got !== exp.r) bad('result', what + ' returned ' + got + ' (errno ' + r.err + ') instead of ' + exp.r, op.o);
          if (exp.e && !exp.e.includes(r.err)) bad('errno', what + ' set errno ' + r.err + ' instead of ' + exp.e, op.o);
          if (exp.r === 0) changed++;
        }
        if (!exp.open && opened.length) bad('descriptor', what + ' opened [' + opened + ']'); if (gone.length && !(op.o === 'close' && gone.length === 1 && gone[0] === fd)) bad('descriptor', what + ' closed [' + gone + ']');
        if (buf) {
          const m = g.mem; for (let i = 1; i <= G; i++) if (m[buf - i] !== 0xa7 || m[buf + blen + i - 1] !== 0xa7) bad('overrun', what + ' wrote outside its buffer');
          if (exp.data) { const h = Buffer.from(m.subarray(buf, buf + exp.data.length)); if (!h.equals(exp.data)) bad('data', what + ' gave ' + show(h) + ' instead of ' + show(exp.data)); for (let i = exp.data.length; i < blen; i++) if (m[buf + i] !== 0xa7) bad('overrun', what + ' changed its buffer beyond the ' + exp.data.length + ' bytes it reported'); }
        }
        if (exp.r === 0 && (exp.node || exp.hnode)) {
          const n = exp.hnode || fs.nodes.get(exp.node.ino); const q = (i) => g.mem.readBigInt64LE(buf + 8 * i); const ty = n.ftype || n.type;
          const want = { st_dev: BigInt(c.dev), st_ino: BigInt(n.ino), st_nlink: BigInt(n.said ? n.said[1] : n.nlink), st_mode: BigInt(MODE[ty]), st_size: BigInt(n.said ? n.said[0] : n.type === 'file' ? n.size : n.type === 'symlink' ? n.target.length : 0), st_atime: n.atim / 1000000000n, st_mtime: n.mtim / 1000000000n, st_ctime: n.ctim / 1000000000n, st_atime_ns: n.atim % 1000000000n, st_mtime_ns: n.mtim % 1000000000n, st_ctime_ns: n.ctim % 1000000000n };
          let i = 0; for (const k in want) { const v = q(i++); if (k === 'st_mode' ? (v & 0xf000n) !== want[k] : v !== want[k]) bad('stat', what + ' gave ' + k + ' = ' + v + ' instead of ' + want[k] + ' for a ' + ty, k); }
        }
        if (exp.sink && !Buffer.concat(w.std[d.std].node.sink).equals(exp.sink)) bad('data', what + ' handed the host other bytes'); for (const s of w.std) s.node.sink && (s.node.sink = []);
        // the two worlds must stay equal
        const x = fs.dump(), y = ref.dump(); if (x.join('\n') !== y.join('\n')) { const i = x.findIndex((v, j) => v !== y[j]); bad('tree', 'after ' + what + ' the host tree has ' + show(x[i] || '(nothing)') + ' where ' + show(y[i] || '(nothing)') + ' is expected', op.o); }
        for (const [k, v] of D) { const h = w.fds.get(k); if (!h) bad('descriptor', 'after ' + what + ' descriptor ' + k + ' is gone'); if (v.node && h.node.ino !== v.node.ino) bad('descriptor', 'descriptor ' + k + ' is for another file'); if (v.pos !== undefined && !v.dir && h.pos !== v.pos) bad('position', 'after ' + what + ' descriptor ' + k + ' is at ' + h.pos + ' instead of ' + v.pos); if (h.flags !== v.flags) bad('flags', 'after ' + what + ' descriptor ' + k + ' has flags ' + h.flags + ' instead of ' + v.flags); }
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    return { violation: result.violation, hash: result.hash, trace: result.trace, stats: stats(w, result, JSON.stringify(plan), changed > 0 && failed > 0, { probes: { failed_calls: failed, changes: changed } }) };
  },
};
