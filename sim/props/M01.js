'use strict';
const { agent, bad, runGuest, stats, host } = require('../common');
// sizes around every power of two, where size classes and headers meet
function size(rng) {
  switch (rng.int(8)) {
    case 0: return rng.int(40);
    case 1: return rng.int(600);
    case 2: case 3: { const p = 1 << rng.range(4, 16); return Math.max(0, p - 16 * rng.int(3) + rng.range(-2, 2)); }
    case 4: return rng.int(70000);
    case 5: return rng.int(5000);
    case 6: return rng.chance(0.3) ? rng.int(1500000) : rng.int(3000);
    default: return rng.pick([1, 8, 16, 17, 24, 32, 48, 64, 100, 128, 1000, 4096, 32752, 32753, 65519, 65520, 65521, 65536]);
  }
}
const ABSURD = [-1, -2, -15, -16, -17, -18, -32, -33, 0x7fffffff, 0x7ffffff0, 0x7fffffef, 0x7ffffff1, -0x80000000, -0x7ffffff0, 0x40000000, 0x3ffffff0, 0x3ffffff1, 0x3fffffff, -65536, -65537, -65552];
const Z = Buffer.alloc(45000000);
const FILL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0xff, 0xfe, 0x20, 0x80];
module.exports = {
  id: 'M01', runs: { quick: 30000, thorough: 600000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run is a history of up to 400 malloc/calloc/realloc/strdup/strndup/free calls (sizes around every power of two, absurd and overflowing sizes) with library traffic that uses the heap in between, under a memory limit drawn per run; the simulator holds a shadow of every live block (address, length, contents) and fills blocks with bytes that look like allocator marks. Non-trivial: at least 10 blocks were live at once or a request failed. Distinct by the history and the memory limit.',
  real: ['lib/src/stdlib.c malloc/calloc/realloc/free', 'lib/src/string.c strdup/strndup', 'lib/src/unistd.c sbrk', 'lib/src/stdio.c, dirent.c, fcntl.c as heap users'],
  stub: ['WASI host', 'linear memory growth limit'],
  gen(rng) {
    const pages = rng.weighted([[2, rng.range(0, 3)], [3, rng.range(3, 20)], [4, rng.range(20, 200)], [1, 600]]);
    const n = pages === 600 && rng.chance(0.5) ? rng.range(3, 15) : rng.weighted([[2, rng.range(3, 20)], [4, rng.range(20, 120)], [2, rng.range(120, 400)]]);
    const w = { m: rng.range(1, 6), c: rng.range(0, 2), r: rng.range(0, 4), f: rng.range(1, 5), abs: rng.chance(0.4) ? 0.4 : 0, noise: rng.chance(0.3) ? 0.5 : 0, dup: rng.chance(0.3) ? 1 : 0 };
    const huge = pages === 600 && n <= 15 ? 2200000 + rng.int(3000000) : 0; const few = huge ? [huge, Math.max(1, huge - rng.int(100000)), rng.int(400), 1 << rng.range(17, 23)] : rng.chance(0.4) ? Array.from({ length: rng.range(1, 4) }, () => size(rng)) : null; // few distinct sizes reuse blocks more
    const sz = () => few && rng.chance(0.85) ? rng.pick(few) : size(rng);
    const ops = [];
    for (let i = 0; i < n; i++) {
      const fill = rng.pick(FILL);
      switch (rng.weighted([[w.m, 0], [w.c, 1], [w.r, 2], [w.f, 3], [w.abs, 4], [w.noise, 5], [w.dup, 6]])) {
        case 0: ops.push({ o: 'm', n: sz(), v: fill }); break;
        case 1: { const a = rng.pick([1, 2, 3, 4, 7, 8, 16, 24, 40, 100]); ops.push({ o: 'c', n: Math.floor(sz() / a), s: a, v: fill }); break; }
        case 2: ops.push({ o: 'r', i: rng.int(1000), n: Math.max(1, sz()), v: fill }); break;
        case 3: ops.push({ o: 'f', i: rng.weighted([[3, rng.int(1000)], [1, 0], [1, -1]]) }); break;
        case 4:
          switch (rng.int(4)) {
            case 0: ops.push({ o: 'm', n: rng.pick(ABSURD), v: fill }); break;
            case 1: ops.push({ o: 'r', i: rng.int(1000), n: rng.pick(ABSURD), v: fill }); break;
            case 2: { const p = rng.pick([[65536, 65536], [65537, 65536], [-1, 1], [1, -1], [-1, -1], [0x10001, 0xffff], [3, 0x55555556], [0x8000, 0x20000], [2, -0x80000000], [0x33333334, 5]]); ops.push({ o: 'c', n: p[0], s: p[1], v: fill }); break; }
            default: { const p = rng.pick([[0, 8], [5, 0], [0, 0], [0, -1], [-1, 0]]); ops.push({ o: 'c', n: p[0], s: p[1], v: fill }); break; }
          } break;
        case 6: { const l = rng.weighted([[3, rng.int(40)], [2, rng.int(400)], [1, rng.int(20000)]]); ops.push({ o: 's', n: l, k: rng.weighted([[2, -1], [1, l], [1, l + 1], [1, 0x7fffffff], [1, l >> 1], [1, 0], [1, l + rng.int(200)]]), v: fill }); break; }
        case 5: ops.push({ o: rng.pick(['fopen', 'dir', 'env', 'burn', 'buf', 'sbrk', 'ub', 'ub']), n: rng.range(1, 40), i: rng.int(1000), k: rng.int(64) }); break;
      }
    }
    return { pages, variant: rng.pick(['main0', 'main0', 'main512', 'void']), ops };
  },
  *simplify(p) {
    for (const pg of [4, 20, 100]) if (p.pages !== pg) yield { ...p, pages: pg };
    if (p.variant !== 'main0') yield { ...p, variant: 'main0' };
    for (let i = 0; i < p.ops.length; i++) if (p.ops[i].n > 100) { const ops = p.ops.slice(); ops[i] = { ...ops[i], n: ops[i].n >> 1 }; yield { ...p, ops }; }
  },
  run(plan, ctx) {
    const w = new host.World({ args: ['prog', 'arg-one', 'arg-two'], env: ['A=1', 'LONG=' + 'e'.repeat(300)] });
    w.fs.mkpath('d/a', 'file', 'hello'); w.fs.mkpath('d/b', 'file', 'x'.repeat(3000)); for (let i = 0; i < 12; i++) w.fs.mkpath('d/entry-number-' + i, 'file');
    let maxlive = 0, failed = 0, callocs = 0, reallocs = 0;
    const mod = agent(ctx, plan.variant, plan.pages);
    const res = runGuest(mod, w, function* (g) {
      const live = []; // {p,n,v,id}
      let id = 0;
      const limit = mod.minPages + plan.pages;
      const argv0 = g.argc ? g.mem.readUInt32LE(g.argv) : 0;
      const argvs = plan.variant === 'void' ? null : [0, 1, 2].map((i) => g.cstr(g.mem.readUInt32LE(g.argv + 4 * i)));
      const statics = [[g.iobase, g.iobase + 262144], [g.recp, g.recp + 72]];
      if (argv0 && plan.variant === 'main512') statics.push([g.argv, g.argv + 16]);
      const put = (b) => { // position-dependent fill so that moved or shifted data is noticed
        const t = b.pat = Buffer.alloc(b.n, b.v & 255); for (let k = 37; k < b.n; k += 211) t[k] = (b.id * 7 + k) & 255;
        t.copy(g.mem, b.p);
      };
      const check = (b, n = b.n, at = b.p) => {
        const m = g.mem; if (m.compare(b.pat, 0, n, at, at + n) === 0) return;
        for (let k = 0; k < n; k++) {
          const e = b.pat[k];
          if (m[at + k] !== e) bad('corrupt', 'live block of ' + b.n + ' bytes changed at offset ' + k + ': expected ' + e + ' found ' + m[at + k]);
        }
      };
      const place = (p, n) => {
        if (p & 15) bad('misaligned', 'block at ' + p + ' for ' + n + ' bytes is not 16-byte aligned');
        if (p + n > g.mem.length) bad('outside', 'block at ' + p + ' of ' + n + ' bytes reaches past linear memory (' + g.mem.length + ')');
        for (const [a, b] of statics) if (p < b && p + Math.max(n, 1) > a) bad('overlap-static', 'block at ' + p + ' of ' + n + ' bytes overlaps static data');
        for (const b of live) if (p < b.p + Math.max(b.n, 1) && p + Math.max(n, 1) > b.p) bad('overlap', 'block at ' + p + ' of ' + n + ' bytes overlaps the live block at ' + b.p + ' of ' + b.n);
      };
      const refused = (n, pagesBefore) => {
        failed++;
        const room = (limit - g.pages()) * 65536;
        if (n >= 0 && n < 0x20000000 && room >= 2 * (n + 16) + 131072) bad('spurious-failure', 'a request for ' + n + ' bytes failed although memory could still grow by ' + room);
      };
      for (const op of plan.ops) {
        switch (op.o) {
          case 'm': {
            const n = op.n >>> 0; const r = yield { op: 50, a: [op.n] };
            if (!r.ru) { refused(n); break; }
            if (n > limit * 65536) bad('impossible', 'malloc(' + n + ') succeeded beyond the memory limit');
            place(r.ru, n); const b = { p: r.ru, n, v: op.v, id: ++id }; live.push(b); put(b); break;
          }
          case 'c': {
            const n = (op.n >>> 0) * (op.s >>> 0); const r = yield { op: 51, a: [op.n, op.s] }; callocs++;
            if (!r.ru) { if (n !== 0) refused(n); break; }
            if (n > limit * 65536) bad('impossible', 'calloc(' + (op.n >>> 0) + ',' + (op.s >>> 0) + ') succeeded beyond the memory limit');
            place(r.ru, n);
            const m = g.mem; if (n && m.compare(Z, 0, Math.min(n, Z.length), r.ru, r.ru + n)) for (let k = 0; k < n; k++) if (m[r.ru + k] !== 0) bad('calloc-nonzero', 'calloc block of ' + n + ' bytes has a non-zero byte at ' + k);
            const b = { p: r.ru, n, v: op.v, id: ++id }; live.push(b); put(b); break;
          }
          case 'r': {
            const n = op.n >>> 0; reallocs++;
            if (!live.length || op.i % 7 === 6) { // realloc(NULL)
              const r = yield { op: 52, a: [0, op.n] };
              if (!r.ru) { refused(n); break; }
              place(r.ru, n); const b = { p: r.ru, n, v: op.v, id: ++id }; live.push(b); put(b); break;
            }
            const k = op.i % live.length; const b = live[k]; check(b); if (b.own) break;
            const r = yield { op: 52, a: [b.p, op.n] };
            if (!r.ru) {
              if (n <= b.n) bad('spurious-failure', 'realloc of a block of ' + b.n + ' down to ' + n + ' failed');
              refused(n + b.n); check(b); break;
            }
            if (n > limit * 65536) bad('impossible', 'realloc to ' + n + ' bytes succeeded beyond the memory limit');
            live.splice(k, 1); place(r.ru, n); check(b, Math.min(n, b.n), r.ru);
            const nb = { p: r.ru, n, v: op.v, id: ++id }; live.push(nb); put(nb); break;
          }
          case 's': { // strdup, or strndup with a limit below, at or above the length
            const text = 'abcdefghij'.repeat(Math.ceil(op.n / 10)).slice(0, op.n), cut = op.k < 0 ? op.n : Math.min(op.n, op.k), n = cut + 1;
            const r = yield { op: op.k < 0 ? 56 : 57, a: [g.str(text), op.k] };
            if (!r.ru) { refused(n); break; }
            place(r.ru, n);
            if (g.mem.toString('latin1', r.ru, r.ru + cut) !== text.slice(0, cut) || g.mem[r.ru + cut] !== 0) bad('dup', (op.k < 0 ? 'strdup' : 'strndup(' + op.k + ')') + ' of a string of ' + op.n + ' bytes does not give its first ' + cut + ' bytes and a terminator');
            const b = { p: r.ru, n, v: op.v, id: ++id }; live.push(b); put(b); break;
          }
          case 'f': {
            if (!live.length) { yield { op: 53, a: [0] }; break; }
            const k = op.i < 0 ? live.length - 1 : op.i % live.length; const b = live[k]; check(b); if (b.own) break; live.splice(k, 1);
            yield { op: 53, a: [b.p] }; break;
          }
          case 'fopen': { const r = yield { op: 10, a: [g.str('d/b'), g.str(op.n & 1 ? 'r' : 'r+')] }; if (r.ru) { const fp = r.ru; yield { op: 30, a: [fp] }; yield { op: 13, a: [fp] }; } break; }
          case 'buf': { const r = yield { op: 10, a: [g.str('d/a'), g.str('a+')] }; if (r.ru) { const fp = r.ru; yield { op: 15, a: [fp, 0, 0, op.n * 50] }; yield { op: 20, a: [fp, 65] }; yield { op: 13, a: [fp] }; } break; }
          case 'ub': { // one of the program's blocks serves a stream as its buffer and stays the program's
            const fit = live.filter((b) => b.n >= 16 && !b.own); if (!fit.length) break; const b = fit[op.i % fit.length]; check(b);
            const r = yield { op: 10, a: [g.str('d/a'), g.str(op.k & 1 ? 'a+' : 'r+')] }; if (!r.ru) break; const fp = r.ru;
            yield { op: 15, a: [fp, b.p, op.k & 2 ? 0 : 0o100, op.k & 4 ? b.n : Math.min(b.n, 16 + op.n)] };
            for (let k = op.n; k > 0; k--) { if (op.k & 1) yield { op: 20, a: [fp, 65 + k % 20] }; else yield { op: 30, a: [fp] }; }
            if (op.k & 8) yield { op: 15, a: [fp, 0, op.k & 16 ? 4 : 0, op.n * 20] };
            if (op.k & 32) { const q = yield { op: 11, a: [g.str('d/a'), g.str('a'), fp] }; if (!q.ru) { put(b); break; } yield { op: 20, a: [fp, 66] }; }
            yield { op: 13, a: [fp] }; put(b); break;
          }
          case 'dir': { const r = yield { op: 100, a: [g.str('d')] }; if (r.ru) { const d = r.ru; for (let k = 0; k < op.n; k++) { const e = yield { op: 102, a: [d] }; if (!e.ru) break; } yield { op: 103, a: [d] }; } break; }
          case 'sbrk': { // the program takes pages for itself
            const n = (op.n % 4) * 65536, before = g.pages(); const r = yield { op: 55, a: [n] };
            if (n === 0) { if (r.ru !== before * 65536) bad('sbrk', 'sbrk(0) gave ' + r.ru + ' with ' + before + ' pages'); break; }
            if (r.ru === 0xffffffff) { if (before + n / 65536 <= limit) bad('sbrk', 'sbrk(' + n + ') failed although memory could grow'); if (r.err !== 48) bad('sbrk', 'sbrk failed with errno ' + r.err); break; }
            if (r.ru !== before * 65536 || g.pages() !== before + n / 65536) bad('sbrk', 'sbrk(' + n + ') gave ' + r.ru + ' and ' + g.pages() + ' pages, there were ' + before);
            place(r.ru, n); const b = { p: r.ru, n, v: op.n, id: ++id, own: true }; live.push(b); put(b); break;
          }
          case 'env': yield { op: 140, a: [g.str('LONG')] }; break;
          case 'burn': yield { op: 54, a: [op.n, op.n * 3] }; break;
        }
        if (live.length > maxlive) maxlive = live.length;
      }
      for (const b of live) check(b);
      if (argvs && plan.variant !== 'void') for (let i = 0; i < 3; i++) { const s = g.cstr(g.mem.readUInt32LE(g.argv + 4 * i)); if (s !== argvs[i]) bad('corrupt', 'argv[' + i + '] changed to ' + JSON.stringify(s)); }
      while (live.length) { const b = live.pop(); check(b); if (!b.own) yield { op: 53, a: [b.p] }; }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify([plan.pages, plan.ops]), maxlive >= 10 || failed > 0,
      { probes: { ten_live: maxlive >= 10 ? 1 : 0, failed_request: failed, callocs, reallocs }, faults: { ...w.fired, 'alloc:refused': failed } }) };
  },
  size,
};
