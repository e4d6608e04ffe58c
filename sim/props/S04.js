'use strict';
const { agent, bad, runGuest, stats, host, show } = require('../common');
const MODES = ['r', 'rb', 'r+', 'r+b', 'rb+', 'w', 'w+', 'wb+', 'a', 'a+', 'ab+', 'w+x'];
const isText = (rng, n) => { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = rng.chance(0.06) ? 10 : 32 + rng.int(224); return b.toString('latin1'); };
function genOp(rng, s, big) {
  const off = () => rng.weighted([[3, () => rng.int(20)], [4, () => rng.int(300)], [4, () => rng.int(big ? 5000 : 1200)], [1, () => rng.pick([1023, 1024, 1025, 1031, 1032, 1033, 2048, 2064])], [0.5, () => rng.pick([100000, 2147483647, 70000])]])();
  switch (rng.weighted([[5, 'rd'], [5, 'wr'], [5, 'seek'], [2, 'tell'], [1, 'rew'], [2, 'save'], [2, 'back'], [2, 'flush'], [2, 'unget'], [0.5, 'clr'], [0.4, 'far']])) {
    case 'rd': return { o: 'rd', s, via: rng.pick(['getc', 'getc', 'fread', 'fgets']), n: 1 + rng.weighted([[4, rng.int(10)], [2, rng.int(100)], [1, rng.size(big ? 4000 : 1500)]]) };
    case 'wr': return { o: 'wr', s, via: rng.pick(['putc', 'putc', 'fputs', 'fwrite', 'fprintf']), d: isText(rng, rng.weighted([[4, 1 + rng.int(10)], [2, rng.int(100)], [1, rng.size(big ? 4000 : 1500)]])) };
    case 'seek': { const wh = rng.int(3); const x = off(); return { o: 'seek', s, wh, off: wh === 0 ? (rng.chance(0.05) ? -x : x) : rng.chance(0.5) ? -x : rng.chance(0.5) ? Math.min(x, 60) : x }; }
    case 'tell': return { o: 'tell', s, pos: rng.chance(0.4) };
    case 'rew': return { o: 'rew', s };
    case 'save': return { o: 'save', s, k: rng.int(4) };
    case 'back': return { o: 'back', s, k: rng.int(4) };
    case 'flush': return { o: 'flush', s, all: rng.chance(0.3) };
    case 'unget': return { o: 'unget', s, c: rng.chance(0.4) ? -2 : rng.int(256) };
    case 'clr': return { o: 'clr', s };
    case 'far': return { o: 'far', s, off: rng.pick([2147483648, 3000000000, 5000000000]) };
  }
}
module.exports = {
  id: 'S04', runs: { quick: 64000, thorough: 300000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run performs C-legal sequences of reads, writes, fseek, ftell, rewind, fgetpos, fsetpos, fflush and ungetc on up to 3 streams opened in every mode with random buffering; results, positions, flags and files are compared with one byte array and one position per stream. Reads are split at random and the host may refuse to seek for a while. Non-trivial: at least two repositionings and one transfer were checked. Distinct by plan.',
  real: ['lib/src/stdio.c', 'lib/src/stdlib.c', 'lib/src/fcntl.c', 'lib/src/unistd.c'], stub: ['WASI host and file system (in-memory simulator)'],
  gen(rng) {
    const ns = rng.weighted([[4, 1], [1, 2], [1, 3]]); const big = rng.chance(0.4); const files = [];
    for (let i = 0; i < ns; i++) files.push({ m: rng.pick(MODES), data: isText(rng, rng.weighted([[1, 0], [3, rng.int(200)], [2, rng.size(big ? 6000 : 1500)]])), mode: rng.chance(0.5) ? { m: rng.pick(['fbf', 'lbf', 'nbf']), size: rng.pick([0, 1, 2, 8, 9, 10, 16, 17, 64, 100, 1000, 1024, 4096, rng.range(1, 2000)]), ub: rng.chance(0.4) } : null });
    for (const f of files) if (f.m.includes('x')) f.data = null;
    const ops = []; const p = rng.pick([0, 0, 0.05, 0.15]);
    for (let i = rng.weighted([[2, rng.range(3, 14)], [3, rng.range(10, 70)]]); i > 0; i--) {
      const op = genOp(rng, rng.int(ns), big);
      if (rng.chance(p) && ['seek', 'tell', 'rew', 'save', 'back', 'far'].includes(op.o)) op.f = [{ sc: 'fd_seek', n: rng.pick([0, 0, 1]), kind: 'err', errno: rng.pick([70, 70, 76, 29, 28]) }];
      if (op.o === 'rd' && op.via === 'getc' && rng.chance(p)) op.f = [{ sc: 'fd_read', n: 0, kind: 'err', errno: rng.pick([29, 29, 27, 52]) }];
      if (rng.chance(0.02)) ops.push({ o: 'noseek', on: rng.chance(0.5) });
      ops.push(op);
    }
    return { cfg: { pages: rng.chance(0.12) ? rng.int(3) : 40, split: rng.chance(0.3) ? rng.pick([1, 3, 10, 500]) : 0 }, files, ops, end: rng.pick(['close', 'exit']) };
  },
  *simplify(p) {
    for (let i = 0; i < p.ops.length; i++) {
      const set = (x) => { const ops = p.ops.slice(); ops[i] = { ...ops[i], ...x }; return { ...p, ops }; };
      const o = p.ops[i];
      if (o.n > 1) { yield set({ n: o.n >> 1 }); yield set({ n: o.n - 1 }); }
      if (o.d && o.d.length > 1) { yield set({ d: o.d.slice(0, o.d.length >> 1) }); yield set({ d: o.d.slice(1) }); }
      if (o.f) { const q = set({}); delete q.ops[i].f; yield q; }
      if (o.off > 1) yield set({ off: o.off >> 1 });
    }
    for (let i = 0; i < p.files.length; i++) { const f = p.files[i]; const set = (x) => { const files = p.files.slice(); files[i] = { ...f, ...x }; return { ...p, files }; }; if (f.mode) yield set({ mode: null }); if (f.data) yield set({ data: f.data.slice(0, f.data.length >> 1) }); }
    if (p.cfg.split) yield { ...p, cfg: { ...p.cfg, split: 0 } };
  },
  run(plan, ctx) {
    const w = new host.World({}); const c = plan.cfg;
    plan.files.forEach((f, i) => { if (f.data !== null) w.fs.mkpath('f' + i, 'file', f.data); });
    const base = c.split ? [{ sc: 'fd_read', kind: 'short', k: c.split }] : []; w.armed = base;
    let npos = 0, nio = 0; const probes = {}; const probe = (k) => { probes[k] = (probes[k] || 0) + 1; };
    const S = [];
    const hostBytes = (st) => w.fs.bytes(w.fs.root.entries.get(st.name));
    const same = (st, what) => { const h = hostBytes(st); if (!h.equals(st.c)) { let k = 0; while (k < h.length && k < st.c.length && h[k] === st.c[k]) k++; bad('file-content', 'after ' + what + ' ' + st.name + ' (' + st.m + ') holds ' + h.length + ' bytes, the model ' + st.c.length + '; first difference at ' + k + ': ' + show(h.subarray(k, k + 12)) + ' instead of ' + show(st.c.subarray(k, k + 12))); } };
    const res = runGuest(agent(ctx, 'main0', c.pages), w, function* (g) {
      const buf = g.persist(8192);
      for (let i = 0; i < plan.files.length; i++) {
        const f = plan.files[i]; const r = yield { op: 10, a: [g.str('f' + i), g.str(f.m)] };
        if (!r.ru) { if (c.pages >= 3) bad('open-failed', 'fopen(f' + i + ',' + f.m + ') failed with errno ' + r.err); S.push(null); continue; }
        const k = f.m[0], plus = f.m.includes('+'); const data = k === 'w' ? '' : f.data || '';
        const st = { i, fp: r.ru, name: 'f' + i, m: f.m, c: Buffer.from(data, 'latin1'), pos: 0, can: { r: k === 'r' || plus, w: k !== 'r' || plus }, app: k === 'a', plus, dir: '', pb: -1, known: k !== 'a', eof: false, err: false, saved: [] };
        S.push(st);
        if (f.mode) {
          const bs = f.mode.size || 1024; const ub = f.mode.ub && f.mode.m !== 'nbf' ? g.persist(bs + 16) : 0; if (ub) { g.mem.fill(0xee, ub, ub + bs + 16); st.ub = [ub, bs]; }
          const q = yield { op: 15, a: [st.fp, ub, { fbf: 0, lbf: 0o100, nbf: 4 }[f.mode.m], f.mode.size] }; if (q.r !== 0) bad('setvbuf-failed', 'setvbuf returned ' + q.r);
        }
      }
      function* moved(st, op, cmd, target, what) { // a positioning call; target < 0: must fail
        const r = yield { op: cmd.op, a: cmd.a, l: cmd.l, f: op.f }; const faulty = r.fired > 0 || w.noseek; npos++;
        if (what === 'rewind') {
          if (r.fl & 2) bad('error-kept', 'ferror is set on ' + st.name + ' after rewind' + (faulty ? ', which the host refused' : '')); st.err = false;
          if (faulty) { probe('seek_refused'); return null; } // checked by the caller
        } else if (r.r !== 0) {
          if (!faulty && target >= 0 && st.known) bad('seek-failed', what + ' on ' + st.name + ' (' + st.m + ') to ' + target + ' failed with errno ' + r.err);
          probe('seek_refused'); return false; // nothing moved
        } else if (target < 0 && st.known) bad('seek-accepted', what + ' to the position ' + target + ' succeeded');
        st.pos = target; st.pb = -1; st.known = true; st.dir = ''; st.eof = false;
        if (r.fl & 1) bad('eof-kept', 'feof is set after ' + what);
        if (st.can.w && !faulty) same(st, what);
        return true;
      }
      function* tell(st, pos, f) {
        const r = yield pos ? { op: 43, a: [st.fp], f } : { op: 41, a: [st.fp], f }; const what = pos ? 'fgetpos' : 'ftell'; const faulty = r.fired > 0 || w.noseek;
        if (pos ? r.r !== 0 : r.rl === -1n) { if (!faulty && (pos || st.pos <= 2147483647) && st.known) bad('tell-failed', what + ' on ' + st.name + ' failed with errno ' + r.err); probe('tell_refused'); return -1; }
        npos++; const v = Number(r.rl);
        if (st.known && v !== st.pos) bad('wrong-position', what + ' on ' + st.name + ' (' + st.m + ') gave ' + v + ' instead of ' + st.pos + (st.pb >= 0 ? ' (one character pushed back)' : ''));
        return st.known ? v : -1;
      }
      for (const op of plan.ops) {
        if (op.o === 'noseek') { w.noseek = op.on; w.armed = op.on ? [...base, { sc: 'fd_seek', kind: 'err', errno: 70 }] : base; continue; }
        const st = S[op.s]; if (!st) continue;
        switch (op.o) {
          case 'rd': {
            if (!st.can.r || st.dir === 'w' || !st.known) break;
            st.dir = 'r'; nio++;
            const rest = Buffer.concat([st.pb >= 0 ? Buffer.from([st.pb]) : Buffer.alloc(0), st.c.subarray(Math.min(st.c.length, st.pos + (st.pb >= 0 ? 1 : 0)))]);
            const take = (n) => { st.pos += n; if (n > 0) st.pb = -1; };
            let r, hit = false;
            if (op.via === 'getc') { r = yield { op: op.n & 1 ? 30 : 31, a: [st.fp], f: base.length ? undefined : op.f }; if (op.f && !base.length && r.fired > 0) { probe('read_refused'); if (r.r !== -1 || !(r.fl & 2)) bad('error-flag', 'getc on ' + st.name + ' whose read failed returned ' + r.r + ' and ferror is ' + !!(r.fl & 2)); st.err = true; break; } const want = rest.length ? rest[0] : -1; if (r.r !== want) bad('wrong-bytes', 'getc on ' + st.name + ' (' + st.m + ') at ' + st.pos + ' returned ' + r.r + ' instead of ' + want); if (want >= 0) { take(1); st.last = want; } else hit = true; } else if (op.via === 'fread') {
              const n = Math.min(op.n, 8000); r = yield { op: 33, a: [st.fp, buf, 1, n] }; const want = rest.subarray(0, n);
              const have = Buffer.from(g.mem.subarray(buf, buf + Math.min(r.ru, n))); if (r.ru !== want.length || !have.equals(want)) bad('wrong-bytes', 'fread of ' + n + ' on ' + st.name + ' (' + st.m + ') at ' + st.pos + ' gave ' + r.ru + ' bytes ' + show(have) + ' instead of ' + want.length + ': ' + show(want));
              take(want.length); hit = want.length < n;
            } else {
              const n = op.n + 1; r = yield { op: 32, a: [st.fp, buf, n] }; let want = rest.subarray(0, n - 1); const nl = want.indexOf(10); if (nl >= 0) want = want.subarray(0, nl + 1);
              if (r.ru === 0 ? want.length : !Buffer.from(g.mem.subarray(buf, buf + want.length + 1)).equals(Buffer.concat([want, Buffer.from([0])]))) bad('wrong-bytes', 'fgets(' + n + ') on ' + st.name + ' (' + st.m + ') at ' + st.pos + ' gave ' + (r.ru ? show(Buffer.from(g.mem.subarray(buf, buf + want.length + 4))) : 'NULL') + ' instead of ' + show(want));
              take(want.length); hit = want.length < n - 1 && nl < 0;
            }
            if (hit !== !!(r.fl & 1) && (hit || !st.eof && rest.length > (op.via === 'getc' ? 1 : op.n))) bad('eof-flag', op.via + ' on ' + st.name + ': feof is ' + !!(r.fl & 1));
            if (!!(r.fl & 2) !== st.err) bad('error-flag', 'ferror is ' + !!(r.fl & 2) + ' on ' + st.name + (st.err ? ' although a read failed before' : ' although no transfer failed'));
            st.eof = hit; if (hit && st.plus) st.dir = 'e'; // at end of file output may follow
            break;
          }
          case 'wr': {
            if (!st.can.w || st.dir === 'r') break;
            if (!st.app && st.pos > 200000) break;
            st.dir = 'w'; nio++;
            let d = Buffer.from(op.d, 'latin1'); let r;
            if (op.via === 'putc') { d = d.subarray(0, 40); for (const x of d) { r = yield { op: x & 1 ? 20 : 21, a: [st.fp, x] }; if (r.r !== x) bad('write-failed', 'putc on ' + st.name + ' (' + st.m + ') returned ' + r.r); } } else {
              const p = g.str(op.d); r = yield op.via === 'fputs' ? { op: 22, a: [st.fp, p] } : op.via === 'fwrite' ? { op: 24, a: [st.fp, p, 1, d.length] } : { op: 26, a: [st.fp, p] };
              if (op.via === 'fwrite' ? r.ru !== d.length : r.r < 0) bad('write-failed', op.via + ' of ' + d.length + ' bytes on ' + st.name + ' (' + st.m + ') returned ' + r.r);
            }
            if (!d.length) { st.dir = st.dir === 'w' ? 'w' : st.dir; break; }
            if (st.app) { st.c = Buffer.concat([st.c, d]); st.pos = st.c.length; st.known = true; } else {
              const e = st.pos + d.length; if (e > st.c.length) st.c = Buffer.concat([st.c, Buffer.alloc(e - st.c.length)]); else st.c = Buffer.from(st.c);
              d.copy(st.c, st.pos); st.pos = e;
            }
            st.eof = false; st.pb = -1; break;
          }
          case 'seek': { if (op.off < -2147483647) break; if (!st.known && op.wh === 1) break; const b = op.wh === 0 ? 0 : op.wh === 1 ? st.pos : st.c.length; yield* moved(st, op, { op: 40, a: [st.fp, op.wh], l: [op.off] }, b + op.off, 'fseek(' + op.off + ',' + ['SEEK_SET', 'SEEK_CUR', 'SEEK_END'][op.wh] + ')'); break; }
          case 'far': yield* moved(st, op, { op: 44, a: [st.fp], l: [op.off] }, op.off, 'fsetpos'); break;
          case 'rew': {
            const r = yield* moved(st, op, { op: 42, a: [st.fp] }, 0, 'rewind');
            if (r === null) { // the host refused: find out where we are, both places are right
              w.armed = base; const q = yield { op: 43, a: [st.fp] }; if (w.noseek) w.armed = [...base, { sc: 'fd_seek', kind: 'err', errno: 70 }];
              const v = Number(q.rl); if (q.r !== 0 || (st.known && v !== 0 && v !== st.pos)) bad('wrong-position', 'after a refused rewind ' + st.name + ' is at ' + v + ', not at ' + st.pos);
              if (v === 0 && st.pos !== 0) { st.pos = 0; st.pb = -1; st.dir = ''; st.known = true; st.eof = false; }
            }
            break;
          }
          case 'tell': yield* tell(st, op.pos, op.f); break;
          case 'save': { const v = yield* tell(st, true, op.f); if (v >= 0) st.saved[op.k] = v; break; }
          case 'back': if (st.saved[op.k] !== undefined) yield* moved(st, op, { op: 44, a: [st.fp], l: [st.saved[op.k]] }, st.saved[op.k], 'fsetpos'); break;
          case 'flush': {
            if (op.all) { const r = yield { op: 14, a: [0] }; if (r.r !== 0 && !S.some((q) => q && q.err)) bad('flush-failed', 'fflush(NULL) failed'); for (const q of S) if (q && q.dir === 'w') { same(q, 'fflush(NULL)'); q.dir = ''; } break; }
            if (st.dir === 'r' || st.dir === 'e' || !st.can.w || st.pb >= 0) break;
            const r = yield { op: 14, a: [st.fp] }; if (r.r !== 0 && !st.err) bad('flush-failed', 'fflush(' + st.name + ') failed'); same(st, 'fflush'); st.dir = ''; break;
          }
          case 'unget': {
            if (!st.can.r || st.dir === 'w' || !st.known || st.pb >= 0 || st.pos < 1) break;
            const ch = op.c === -2 ? (st.last === undefined ? 66 : st.last) : op.c; const r = yield { op: 34, a: [st.fp, ch] };
            if (r.r !== ch) bad('ungetc-failed', 'ungetc(' + ch + ') on ' + st.name + ' (' + st.m + ') at ' + st.pos + ' returned ' + r.r);
            if (r.fl & 1) bad('eof-kept', 'feof is still set after ungetc');
            st.pb = ch; st.pos--; st.dir = 'r'; st.eof = false; probe('ungetc'); break;
          }
          case 'clr': { yield { op: 17, a: [st.fp] }; st.eof = st.err = false; break; }
        }
        if (st.ub) for (let k = 0; k < 16; k++) if (g.mem[st.ub[0] + st.ub[1] + k] !== 0xee) bad('buffer-overrun', 'a byte past the setvbuf buffer of ' + st.ub[1] + ' changed');
      }
      w.armed = []; w.noseek = false;
      if (plan.end === 'close') for (const st of S) if (st) { const r = yield { op: 13, a: [st.fp] }; if (r.r !== 0 && !st.err) bad('close-failed', 'fclose(' + st.name + ') failed'); same(st, 'fclose'); }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); for (const st of S) if (st) same(st, 'the end of the program'); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify(plan), npos >= 2 && nio >= 1, { probes: { ...probes, positionings: npos, transfers: nio } }) };
  },
};
