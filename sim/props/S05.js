'use strict';
const { agent, bad, runGuest, stats, host, show, ERRS } = require('../common');
const O_RDONLY = 0x04000000, O_WRONLY = 0x10000000, O_RDWR = 0x14000000, O_CREAT = 0x1000;
const GOOD = ['r', 'w', 'a', 'r+', 'w+', 'a+', 'rb', 'wb', 'ab', 'w+b'], BADM = ['', 'q', '+', 'b', 'x', 'R', ' r', '0'];
const FMAX = 20;
module.exports = {
  id: 'S05', runs: { quick: 32000, thorough: 300000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run opens, reopens, attaches and closes streams and raw descriptors in random order, up to and beyond FOPEN_MAX, with bad modes, missing files, host errors on open, seek, write and close, descriptor limits and little memory; after every call the host\'s descriptor table, each fd_close it saw and each stream\'s descriptor are compared with the model, and open/close cycles must not grow memory. Non-trivial: at least one open failed or one close met a fault, and something was closed. Distinct by plan.',
  real: ['lib/src/stdio.c', 'lib/src/stdlib.c', 'lib/src/fcntl.c', 'lib/src/unistd.c'], stub: ['WASI host and file system (in-memory simulator)'],
  gen(rng) {
    const cfg = { pages: rng.chance(0.15) ? rng.int(3) : 30, out: rng.pick(['pipe', 'tty', 'file']), limit: rng.chance(0.2) ? rng.range(6, 26) : 0, cookie: 0 };
    const ops = []; const many = rng.chance(0.4); const p = rng.pick([0, 0.1, 0.3]);
    const n = rng.weighted([[2, rng.range(3, 15)], [3, rng.range(10, 60)], [many ? 3 : 0, rng.range(40, 90)]]);
    let fid = 0;
    const err = (sc, o = {}) => ({ sc, n: rng.pick([0, 0, 0, 1]), kind: 'err', errno: rng.pick(ERRS), ...o });
    for (let i = 0; i < n; i++) {
      const r = rng.weighted([[many ? 14 : 7, 'fopen'], [2, 'freopen'], [2, 'open'], [2, 'fdopen'], [4, 'fclose'], [1, 'close'], [4, 'write'], [2, 'read'], [1, 'buf'], [0.5, 'fclosenull'], [0.3, 'cycle'], [0.3, 'fflush']]);
      const op = { o: r, k: rng.int(1000), path: rng.chance(0.75) ? 'n' + fid++ : rng.chance(0.5) ? 'e' + rng.int(4) : rng.pick(['missing/x', 'dir', 'e0/x']), m: rng.chance(0.85) ? rng.pick(GOOD) : rng.chance(0.5) ? rng.pick(BADM) : rng.pick(['wx', 'w+x']), n: 1 + rng.size(1500) };
      if (rng.chance(p)) {
        op.f = [];
        if (['fopen', 'open', 'cycle'].includes(r)) op.f.push(rng.chance(0.7) ? err('path_open') : rng.chance(0.7) ? err('fd_seek') : err('fd_fdstat_get'));
        else if (r === 'freopen') op.f.push(rng.chance(0.4) ? err('path_open') : rng.chance(0.5) ? err('fd_close', { after: rng.chance(0.5), n: 0 }) : rng.chance(0.5) ? err('fd_write') : err('fd_seek'));
        else if (r === 'fclose') op.f.push(rng.chance(0.6) ? err('fd_close', { after: rng.chance(0.5), n: 0 }) : err('fd_write', { n: 0 }));
        else if (r === 'close') op.f.push(err('fd_close', { after: rng.chance(0.5), n: 0 }));
        else if (r === 'write') op.f.push(err('fd_write'));
        else if (r === 'read') op.f.push(err('fd_read'));
        else if (r === 'fdopen') op.f.push(err('fd_seek'));
      }
      if (r === 'cycle') { op.n = rng.range(150, 400); op.w = rng.pick([0, 1, 10, 1100]); op.v = rng.chance(0.3) ? rng.range(9, 3000) : 0; op.re = rng.chance(0.3); op.fail = rng.chance(0.3); op.cf = rng.chance(0.2); }
      ops.push(op);
    }
    return { cfg, ops, end: rng.pick(['return', 'exit']) };
  },
  *simplify(p) { for (let i = 0; i < p.ops.length; i++) { if (p.ops[i].f) { const ops = p.ops.slice(); ops[i] = { ...ops[i] }; delete ops[i].f; yield { ...p, ops }; } if (p.ops[i].n > 1 && p.ops[i].o !== 'cycle') { const ops = p.ops.slice(); ops[i] = { ...ops[i], n: p.ops[i].n >> 1 }; yield { ...p, ops }; } } if (p.cfg.limit) yield { ...p, cfg: { ...p.cfg, limit: 0 } }; },
  run(plan, ctx) {
    const c = plan.cfg; const w = new host.World({ std: { 0: { data: 'standard input data' }, 1: { kind: c.out } } });
    for (let i = 0; i < 4; i++) w.fs.mkpath('e' + i, 'file', 'existing ' + i + ' ' + 'd'.repeat(i * 700)); w.fs.mkpath('dir', 'dir');
    if (c.limit) w.fdlimit = c.limit;
    const fds = new Set(w.fds.keys()); // what must be open
    const S = []; const raw = []; let closes = []; let opens = []; const probes = {}; let failed = 0, closed = 0, faulted = 0;
    const probe = (k) => { probes[k] = (probes[k] || 0) + 1; };
    w.onSys = (name, args, r, f, note) => {
      if (name === 'path_open' && r === 0) opens.push(+note.split(' -> ').pop());
      if (name === 'fd_close') { const k = opens.indexOf(args[0]); if (k >= 0 && r === 0) { opens.splice(k, 1); return; } closes.push([args[0], r, f]); }
    };
    const show1 = (s) => [...s].sort((a, b) => a - b).join(' ');
    // after a call: exactly these descriptors were asked to close, the table is the model's
    const check = (what, expClose) => {
      const asked = closes.map((x) => x[0]).sort().join(' '), want = expClose.slice().sort().join(' ');
      if (asked !== want) bad('wrong-close', what + ' asked the host to close descriptors [' + asked + '] instead of [' + want + ']');
      for (const fd of expClose) if (!w.fds.has(fd)) fds.delete(fd); // a close the host refused leaves it open
      const have = show1(w.fds.keys()); if (have !== show1(fds)) bad('descriptor-table', 'after ' + what + ' the open descriptors are [' + have + '] instead of [' + show1(fds) + ']');
    };
    const live = () => S.filter((s) => s.open); const lowmem = c.pages < 3;
    const res = runGuest(agent(ctx, 'main0', c.pages), w, function* (g) {
      const buf = g.persist(4096);
      for (let i = 0; i < 3; i++) { const r = yield { op: 2, a: [i] }; S.push({ fp: r.ru, fd: i, open: true, name: 'std' + i, w: i > 0, node: null, exp: null, std: true }); }
      const newfd = () => { const n = [...w.fds.keys()].filter((k) => !fds.has(k)); return n; };
      // a successful open: one new descriptor, used by the stream
      function* opened(s, what) {
        const n = newfd(); if (n.length !== 1) bad('open-leak', what + ' succeeded and opened ' + n.length + ' descriptors'); fds.add(n[0]); s.fd = n[0]; s.open = true; s.ofd = w.fds.get(n[0]); s.node = s.ofd.node; s.dirty = false;
        const r = yield { op: 18, a: [s.fp] }; if (r.r !== s.fd) bad('wrong-fileno', 'fileno after ' + what + ' is ' + r.r + ', the descriptor is ' + s.fd);
      }
      const sane = (op, r) => { // may this open fail?
        if (r.fired || lowmem) return true; if (BADM.includes(op.m)) return true; if (c.limit && w.fds.size >= c.limit) return true;
        if (op.path.includes('/') || op.path === 'dir') return true; const ex = op.ex; if (!ex && op.m[0] === 'r') return true; if (ex && op.m.includes('x')) return true; return false;
      };
      const usable = (op) => { const m = op.m; return { w: m[0] !== 'r' || m.includes('+'), r: m[0] === 'r' || m.includes('+'), app: m[0] === 'a' }; };
      for (const op of plan.ops) {
        closes = []; opens = []; const L = live(); op.ex = w.fs.root.entries.has(op.path);
        const pick = (p) => { const q = L.filter(p || (() => true)); return q.length ? q[op.k % q.length] : null; };
        const what = op.o + '(' + (op.path || '') + ',' + op.m + ')';
        if (['fopen', 'freopen', 'fdopen', 'open'].includes(op.o) && L.some((s) => s.name === op.path)) continue; // one stream per file
        switch (op.o) {
          case 'fopen': {
            const r = yield { op: 10, a: [g.str(op.path), g.str(op.m)], f: op.f };
            if (!r.ru) { failed++; if (L.length < FMAX && !sane(op, r)) bad('open-failed', what + ' failed with errno ' + r.err + ' and ' + L.length + ' streams open'); check(what + ' (failed)', []); if (L.length >= FMAX) probe('full_table'); break; }
            if (L.length >= FMAX) bad('too-many', what + ' succeeded with ' + FMAX + ' streams open');
            if (BADM.includes(op.m)) bad('bad-mode', what + ' succeeded');
            if (L.some((s) => s.fp === r.ru)) bad('slot-reused', what + ' returned the stream of ' + L.find((s) => s.fp === r.ru).name + ', which is open');
            const s = { fp: r.ru, name: op.path, ...usable(op) }; yield* opened(s, what); S.push(s); check(what, []); if (L.length === FMAX - 1) probe('filled_table'); break;
          }
          case 'freopen': {
            const s = pick((x) => true); if (!s) break; const old = s.fd; const before = S.filter((x) => x !== s && x.open).length;
            const r = yield { op: 11, a: [g.str(op.path), g.str(op.m), s.fp], f: op.f }; s.open = false; closed++;
            const opened1 = r.ru !== 0; if (r.fired) faulted++;
            if (!opened1) { failed++; if (!sane(op, r)) bad('reopen-failed', what + ' failed with errno ' + r.err + ' and ' + before + ' other streams open'); check(what + ' (failed)', [old]); break; }
            if (r.ru !== s.fp) bad('slot-moved', what + ' returned another stream'); if (BADM.includes(op.m)) bad('bad-mode', what + ' succeeded');
            // the old descriptor is closed first, so the new one may have its number
            if (closes.length !== 1 || closes[0][0] !== old) bad('wrong-close', what + ' asked the host to close [' + closes.map((x) => x[0]) + '] instead of [' + old + ']');
            if (!(closes[0][1] !== 0 && !closes[0][2].after)) fds.delete(old);
            const t = { fp: r.ru, name: op.path, ...usable(op) }; closes = []; yield* opened(t, what); S.push(t); check(what, []); break;
          }
          case 'open': {
            const fl = op.m[0] === 'r' ? O_RDONLY : op.k & 1 ? O_WRONLY | O_CREAT : O_RDWR | O_CREAT; const r = yield { op: 60, a: [g.str(op.path), fl], f: op.f };
            if (r.r < 0) { failed++; if (!(r.fired || lowmem || op.path.includes('/') || op.path === 'dir' || (c.limit && w.fds.size >= c.limit) || (!op.ex && fl === O_RDONLY))) bad('open-failed', 'open(' + op.path + ') failed with errno ' + r.err); check('open (failed)', []); break; }
            const n = newfd(); if (n.length !== 1 || n[0] !== r.r) bad('open-leak', 'open returned ' + r.r + ' and opened [' + n + ']'); fds.add(r.r); raw.push({ fd: r.r, fl, name: op.path, dir: w.fds.get(r.r).kind === 'dir' }); check('open', []); break;
          }
          case 'close': { if (!raw.length) break; const [x] = raw.splice(op.k % raw.length, 1); const r = yield { op: 62, a: [x.fd], f: op.f }; closed++; if ((r.r !== 0) !== (r.fired > 0)) bad('close-result', 'close(' + x.fd + ') returned ' + r.r); check('close', [x.fd]); break; }
          case 'fdopen': {
            if (!raw.length) break; const i = op.k % raw.length, x = raw[i]; if (x.dir) break;
            const m = BADM.includes(op.m) ? op.m : x.fl === O_RDONLY ? 'r' : (x.fl & O_RDWR) === O_RDWR ? (op.k & 2 ? 'r+' : 'w+') : op.k & 2 ? 'w' : 'a';
            const r = yield { op: 12, a: [x.fd, g.str(m)], f: op.f }; const w2 = 'fdopen(' + x.fd + ',' + m + ')';
            if (!r.ru) { failed++; if (L.length < FMAX && !r.fired && !BADM.includes(m)) bad('open-failed', w2 + ' failed'); check(w2 + ' (failed)', []); break; }
            if (BADM.includes(m)) bad('bad-mode', w2 + ' succeeded'); if (L.length >= FMAX) bad('too-many', w2 + ' succeeded with ' + FMAX + ' streams open');
            if (L.some((s) => s.fp === r.ru)) bad('slot-reused', w2 + ' returned an open stream');
            raw.splice(i, 1); const s = { fp: r.ru, name: x.name, fd: x.fd, open: true, node: w.fds.get(x.fd).node, w: x.fl !== O_RDONLY, r: x.fl !== O_WRONLY, fromfd: true }; S.push(s); check(w2, []);
            const q = yield { op: 18, a: [s.fp] }; if (q.r !== s.fd) bad('wrong-fileno', 'fileno after ' + w2 + ' is ' + q.r); break;
          }
          case 'fclose': {
            const s = pick(); if (!s || (s.std && op.k % 3)) break; const r = yield { op: 13, a: [s.fp], f: op.f }; s.open = false; closed++; if (r.fired) { faulted++; probe('fclose_faulted'); }
            if (r.r !== 0 && !r.fired && !s.hurt) bad('close-result', 'fclose(' + s.name + ') returned ' + r.r + ' although nothing failed'); if (r.r === 0 && r.fired) bad('close-result', 'fclose(' + s.name + ') returned 0 although the host refused the ' + (closes.some((x) => x[1]) ? 'close' : 'final write'));
            check('fclose(' + s.name + ')', [s.fd]);
            if (s.text && !s.hurt && !r.fired && s.node) { const h = w.fs.bytes(s.node).toString('latin1'); if (!h.includes(s.text)) bad('lost-output', 'after fclose ' + s.name + ' holds ' + show(h) + ' without ' + show(s.text)); }
            break;
          }
          case 'fclosenull': { const r = yield { op: 13, a: [0] }; if (r.r === 0) bad('close-result', 'fclose(NULL) succeeded'); check('fclose(NULL)', []); break; }
          case 'write': {
            const s = pick((x) => x.w && !x.reading && (!x.node || x.node.type === 'file')); if (!s) break; const t = (s.name + '#' + op.k + '=').repeat(1 + op.n / 40 | 0);
            const r = yield { op: 22, a: [s.fp, g.str(t)], f: op.f }; if (r.fired) s.hurt = true; if (r.r < 0 && !s.hurt) bad('write-failed', 'fputs to ' + s.name + ' returned ' + r.r); s.writing = true; s.text = (s.text || '') + t; check('fputs', []); break;
          }
          case 'read': {
            const s = pick((x) => x.r && !x.writing && !x.app && x.node && x.node.type === 'file'); if (!s || s.fromfd) break; s.reading = true; const exp = w.fs.bytes(s.node); const n = Math.min(op.n, 1000); s.rp = s.rp || 0;
            const r = yield { op: 33, a: [s.fp, buf, 1, n], f: op.f }; const have = Buffer.from(g.mem.subarray(buf, buf + r.ru)); if (!have.equals(exp.subarray(s.rp, s.rp + r.ru)) || (!r.fired && r.ru !== Math.min(n, exp.length - s.rp))) bad('wrong-bytes', 'fread on ' + s.name + ' at ' + s.rp + ' gave ' + r.ru + ' bytes ' + show(have)); s.rp += r.ru; check('fread', []); break;
          }
          case 'buf': { const s = pick((x) => !x.writing && !x.reading && !x.std); if (!s) break; yield { op: 15, a: [s.fp, 0, [0, 0o100, 4][op.k % 3], op.n] }; check('setvbuf', []); break; }
          case 'fflush': { yield { op: 14, a: [0] }; check('fflush(NULL)', []); break; }
          case 'cycle': {
            if (L.length >= FMAX || lowmem || (c.limit && w.fds.size >= c.limit - 1)) break; let p0 = 0;
            for (let i = 0; i < op.n; i++) {
              closes = []; opens = [];
              const r = yield { op: 10, a: [g.str('cyc'), g.str('w')] }; if (!r.ru) bad('cycle-failed', 'open/close cycle ' + i + ': fopen failed with errno ' + r.err);
              const n = newfd()[0]; const exp = [n];
              if (op.v) yield { op: 15, a: [r.ru, 0, 0, op.v] };
              if (op.w) yield { op: 22, a: [r.ru, g.str('x'.repeat(op.w))] };
              if (op.fail) { const q = yield { op: 10, a: [g.str('missing/z'), g.str('r')] }; if (q.ru) bad('open-result', 'fopen of a missing file succeeded'); const q2 = yield { op: 10, a: [g.str('cyc2'), g.str('?')] }; if (q2.ru) bad('bad-mode', 'fopen with mode ? succeeded'); }
              if (op.re) { opens = []; const q = yield { op: 11, a: [g.str('cyc3'), g.str('w'), r.ru] }; if (q.ru !== r.ru) bad('cycle-failed', 'freopen cycle ' + i + ' failed'); if (op.w) yield { op: 22, a: [r.ru, g.str('y')] }; const m = newfd()[0]; exp.push(m); }
              opens = []; yield { op: 13, a: [r.ru], f: op.cf ? [{ sc: 'fd_close', n: 0, kind: 'err', errno: 29, after: true }] : undefined }; check('cycle ' + i, exp);
              if (i === 30) p0 = g.pages(); else if (i > 30 && g.pages() > p0 + 1) bad('memory-leak', 'memory grew from ' + p0 + ' to ' + g.pages() + ' pages during ' + (i - 30) + ' open/close cycles');
            }
            closed++; probe('cycles'); break;
          }
        }
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    for (const op of plan.ops) delete op.ex;
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), (failed > 0 || faulted > 0) && closed > 0, { probes: { ...probes, failed_opens: failed, closes: closed } }) };
  },
};
