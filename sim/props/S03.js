'use strict';
const { agent, bad, runGuest, stats, host, show, ERRS } = require('../common');
const WS = new Set([9, 10, 11, 12, 13, 32]);
const dig = (c) => c >= 48 && c <= 57;
const O_RDONLY = 0x04000000, O_RDWR = 0x14000000;
// text: words, numbers and white space that scanf can meet; bin: any bytes
function content(rng, kind, n) {
  let s = '';
  if (kind === 'bin') { const b = Buffer.alloc(n); for (let i = 0; i < n; i++) b[i] = rng.chance(0.05) ? 255 : rng.chance(0.05) ? 10 : rng.chance(0.03) ? 0 : rng.chance(0.02) ? 26 : rng.int(256); return b.toString('latin1'); }
  while (s.length < n) { const x = rng.weighted([[4, () => String(rng.int(rng.pick([10, 1000, 100000000])))], [2, () => '-' + rng.int(5000)], [1, () => '+' + rng.int(99)], [3, () => 'abcdefghijklmnopqrstuvwxyz'.slice(0, 1 + rng.int(25))], [1, () => 'Word\xe9\xff' + rng.int(10)], [1, () => rng.pick(['-', '+', '-x', '--1', '.', ',', '%'])], [4, () => ' '], [2, () => '\n'], [1, () => rng.pick(['\t', '\r\n', '  \n\n ', '\v', '\f'])], [kind === 'lines' ? 2 : 0, () => 'L'.repeat(rng.size(1500)) + '\n']])(); s += (/\d$/.test(s) && /^\d/.test(x) ? ',' : '') + x; }
  return s.slice(0, n);
}
const TEXT = ['getc', 'fgetc', 'fgets', 'fread', 'scand', 'scans', 'scancdc', 'scanset', 'getchar'];
module.exports = {
  id: 'S03', runs: { quick: 50000, thorough: 300000 }, wall: { quick: 90, thorough: 850 },
  rule: 'A run reads up to 5 sources (files in r/r+ mode, fdopen, standard input as pipe, terminal or file) with getc/fgetc/getchar/fgets/fread/fscanf/ungetc in random buffering modes, while the host splits reads into random pieces and fails chosen ones; every result, the buffers and the feof/ferror flags are compared with the byte array, and at the end each source is drained. Some sources grow after end-of-file and clearerr. Non-trivial: at least 50 bytes or one failed read were seen. Distinct by plan.',
  real: ['lib/src/stdio.c', 'lib/src/stdlib.c', 'lib/src/ctype.c', 'lib/src/fcntl.c', 'lib/src/unistd.c'], stub: ['WASI host and file system (in-memory simulator)'],
  gen(rng) {
    const errs = rng.chance(0.45); // with read errors scanf is left out: what it had matched is lost with the error
    const nsrc = rng.weighted([[4, 1], [3, rng.range(2, 5)]]); const srcs = [];
    for (let i = 0; i < nsrc; i++) {
      const kind = rng.pick(errs ? ['text', 'lines'] : ['text', 'text', 'lines', 'bin']);
      srcs.push({ kind, data: content(rng, kind, rng.weighted([[1, rng.int(4)], [4, rng.size(300)], [3, rng.size(3500)]])), how: i === 0 && rng.chance(0.4) ? 'stdin' : rng.pick(['r', 'r', 'rb', 'r+', 'r+b', 'fd-r', 'fd-r+']) });
    }
    const cfg = { inp: rng.pick(['pipe', 'tty', 'file']), linePipe: rng.chance(0.3), pages: rng.chance(0.15) ? rng.int(3) : 40, eat: rng.chance(0.3), out: rng.pick(['pipe', 'tty']), split: rng.chance(0.4) ? rng.pick([1, 2, 3, 7, 100]) : 0 };
    const ops = [];
    for (let s = 0; s < nsrc; s++) if (rng.chance(0.5)) ops.push({ o: 'mode', s, m: rng.pick(['fbf', 'lbf', 'nbf']), size: rng.pick([0, 1, 2, 8, 9, 10, 16, 17, 64, 100, 1000, 1024, 4096, rng.range(1, 2000)]), ub: rng.chance(0.4) });
    const p = rng.pick([0.1, 0.3, 0.6]);
    for (let i = rng.weighted([[2, rng.range(2, 12)], [3, rng.range(10, 60)]]); i > 0; i--) {
      const s = rng.int(nsrc); const bin = srcs[s].kind === 'bin';
      let via = rng.pick(errs || bin ? ['getc', 'fgetc', 'fgets', 'fread', 'fread', 'getchar'] : TEXT);
      if (rng.chance(0.15)) via = 'unget'; else if (rng.chance(0.05)) via = 'clr'; else if (rng.chance(0.03)) via = 'grow';
      const op = { o: 'rd', s, via, n: 1 + rng.weighted([[3, rng.range(0, 11)], [2, rng.size(200)], [1, rng.size(2500)]]), sz: errs ? 1 : rng.pick([1, 1, 2, 3, 8, 100]), c: rng.chance(0.5) ? -2 : rng.int(256), rep: rng.chance(0.2) ? rng.range(1, 40) : 1 };
      if (via === 'grow') op.data = content(rng, srcs[s].kind, rng.range(1, 40));
      if (rng.chance(p)) { op.f = []; do op.f.push(errs && rng.chance(0.6) ? { sc: 'fd_read', n: rng.pick([0, 0, 0, 1, 2]), kind: 'err', errno: rng.pick(ERRS) } : { sc: 'fd_read', n: rng.pick([0, 0, 1, 2, 3]), kind: 'short', k: rng.pick([1, 1, 2, 3, 8, 50]) }); while (rng.chance(0.5)); op.at = rng.int(op.rep); }
      ops.push(op);
    }
    return { cfg, srcs, ops };
  },
  *simplify(p) {
    for (let i = 0; i < p.ops.length; i++) {
      const set = (x) => { const ops = p.ops.slice(); ops[i] = { ...ops[i], ...x }; return { ...p, ops }; };
      if (p.ops[i].rep > 1) yield set({ rep: 1 });
      if (p.ops[i].f) { const q = set({}); delete q.ops[i].f; yield q; }
      if (p.ops[i].n > 1) yield set({ n: p.ops[i].n >> 1 || 1 });
    }
    for (let i = 0; i < p.srcs.length; i++) for (const l of [p.srcs[i].data.length >> 1, p.srcs[i].data.length - 1]) if (l >= 0 && l < p.srcs[i].data.length) { const srcs = p.srcs.slice(); srcs[i] = { ...srcs[i], data: srcs[i].data.slice(0, l) }; yield { ...p, srcs }; }
    if (p.cfg.split) yield { ...p, cfg: { ...p.cfg, split: 0 } };
  },
  run(plan, ctx) {
    const c = plan.cfg; const si = plan.srcs.findIndex((s) => s.how === 'stdin');
    const w = new host.World({ std: { 0: { kind: c.inp, data: si >= 0 ? plan.srcs[si].data : '' }, 1: { kind: c.out } }, linePipe: c.linePipe });
    plan.srcs.forEach((s, i) => { if (s.how !== 'stdin') w.fs.mkpath('s' + i, 'file', s.data); });
    if (c.split) w.armed = [{ sc: 'fd_read', kind: 'short', k: c.split }];
    const S = []; let seen = 0, nerr = 0; const probes = {};
    const probe = (k) => { probes[k] = (probes[k] || 0) + 1; };
    const res = runGuest(agent(ctx, 'main0', c.pages), w, function* (g) {
      const buf = g.persist(8192), small = g.persist(64);
      if (c.pages < 3 && c.eat) { for (const sz of [60000, 20000, 6000, 2000, 700, 200, 60, 8]) for (let k = 0; k < 300; k++) { const r = yield { op: 50, a: [sz] }; if (!r.ru) break; } w.fired['memory:exhausted'] = 1; }
      for (let i = 0; i < plan.srcs.length; i++) {
        const s = plan.srcs[i]; const d = Buffer.from(s.data, 'latin1'); let r;
        if (s.how === 'stdin') r = yield { op: 2, a: [0] };
        else if (s.how.startsWith('fd-')) {
          const q = yield { op: 60, a: [g.str('s' + i), s.how === 'fd-r' ? O_RDONLY : O_RDWR] };
          r = q.r < 0 ? { ru: 0 } : yield { op: 12, a: [q.r, g.str(s.how.slice(3))] };
        } else r = yield { op: 10, a: [g.str('s' + i), g.str(s.how)] };
        if (!r.ru) { if (c.pages >= 3) bad('open-failed', 'opening s' + i + ' with ' + s.how + ' failed'); S.push(null); continue; }
        S.push({ i, fp: r.ru, name: s.how === 'stdin' ? 'stdin' : 's' + i, data: d, pos: 0, pb: [], eof: false, err: false, std: s.how === 'stdin', used: false });
      }
      const left = (st) => st.pb.length + st.data.length - st.pos;
      const peek = (st) => st.pb.length ? st.pb[st.pb.length - 1] : st.pos < st.data.length ? st.data[st.pos] : -1;
      const next = (st) => { const x = peek(st); if (st.pb.length) st.pb.pop(); else if (x >= 0) st.pos++; if (x >= 0) seen++; return x; };
      const ahead = (st, n) => { const b = []; const sp = st.pb.slice(), p0 = st.pos, s0 = seen; for (let i = 0; i < n; i++) { const x = next(st); if (x < 0) break; b.push(x); } st.pb = sp; st.pos = p0; seen = s0; return Buffer.from(b); };
      const adv = (st, n) => { for (let i = 0; i < n; i++) next(st); };
      // flags: an end was met if hitEnd, an error may be there only if one was injected
      const flags = (st, r, what, hitEnd, failed) => {
        const e = !!(r.fl & 1), x = !!(r.fl & 2);
        if (x && !st.err && !failed) bad('false-error', what + ' set the error flag of ' + st.name + ' although the host failed no read');
        if (st.err && !x) bad('error-lost', what + ' cleared the error flag of ' + st.name);
        if (e && !st.eof && left(st) > 0) bad('false-eof', what + ' set end-of-file on ' + st.name + ' with ' + left(st) + ' bytes left');
        if (hitEnd && !e) bad('eof-not-set', what + ' ended at the end of ' + st.name + ' but feof is not set');
        st.eof = e; st.err = x;
      };
      function* rd(st, op, f, drain) {
        st.used = true; let via = op.via; if (via === 'getchar' && !st.std) via = 'getc';
        const nf = () => { let k = 0; for (const q in w.fired) if (q === 'fd_read:err') k += w.fired[q]; return k; };
        const e0 = nf(); let r, failed; const err = () => { failed = nf() > e0; if (failed) { nerr++; probe('failed_read'); } };
        switch (via) {
          case 'getc': case 'fgetc': case 'getchar': {
            const want = peek(st); r = yield { op: { getc: 30, fgetc: 31, getchar: 38 }[via], a: [st.fp], f }; err();
            if (via === 'getchar') r.fl = (yield { op: 18, a: [st.fp] }).fl;
            if (r.r === -1) {
              if (failed) { if (!(r.fl & 2)) bad('error-hidden', via + ' hit a failed read but ferror is not set'); } else if (want !== -1) bad('false-eof', via + ' on ' + st.name + ' returned EOF with ' + left(st) + ' bytes left');
            } else { if (r.r !== want) bad('wrong-bytes', via + ' on ' + st.name + ' at ' + st.pos + ' returned ' + r.r + ' instead of ' + want); next(st); }
            flags(st, r, via, r.r === -1 && !failed, failed); break;
          }
          case 'fread': {
            const sz = op.sz, n = Math.min(op.n, Math.floor(8000 / sz)); g.mem.fill(0xcc, buf, buf + sz * n + 16);
            const want = ahead(st, sz * n); r = yield { op: 33, a: [st.fp, buf, sz, n], f }; err();
            const got = r.ru; if (got > n) bad('wrong-count', 'fread of ' + n + ' items returned ' + got);
            if (!failed && got !== Math.floor(want.length / sz)) bad('wrong-count', 'fread(' + sz + ',' + n + ') on ' + st.name + ' with ' + left(st) + ' bytes left returned ' + got);
            const m = failed ? got * sz : want.length; if (m > want.length) bad('wrong-count', 'fread returned ' + got + ' items of ' + sz + ' with only ' + want.length + ' bytes left');
            const have = Buffer.from(g.mem.subarray(buf, buf + m)); if (!have.equals(want.subarray(0, m))) bad('wrong-bytes', 'fread on ' + st.name + ' gave ' + show(have) + ' instead of ' + show(want));
            for (let k = 0; k < 16; k++) if (g.mem[buf + sz * n + k] !== 0xcc) bad('overrun', 'fread wrote past the buffer');
            adv(st, m);
            if (failed && got < n && !(r.fl & 2)) bad('error-hidden', 'fread hit a failed read but ferror is not set');
            flags(st, r, 'fread', !failed && want.length < sz * n, failed); break;
          }
          case 'fgets': {
            const n = op.n; g.mem.fill(0xcc, buf, buf + n + 16);
            let want = ahead(st, n - 1); const nl = want.indexOf(10); if (nl >= 0) want = want.subarray(0, nl + 1);
            r = yield { op: 32, a: [st.fp, buf, n], f }; err();
            for (let k = 0; k < 16; k++) if (g.mem[buf + n + k] !== 0xcc) bad('overrun', 'fgets(' + n + ') wrote past the buffer');
            const end = n > 1 && want.length < n - 1 && nl < 0;
            if (r.ru === 0) {
              if (failed) { if (!(r.fl & 2)) bad('error-hidden', 'fgets hit a failed read but ferror is not set'); } else if (want.length || n <= 1) bad('false-eof', 'fgets on ' + st.name + ' returned NULL with ' + left(st) + ' bytes left');
            } else {
              if (r.ru !== buf) bad('wrong-return', 'fgets returned ' + r.ru + ' instead of its buffer');
              let m = want.length;
              if (failed) { m = 0; while (m < want.length && g.mem[buf + m] === want[m]) m++; if (m < want.length && !(r.fl & 2)) bad('error-hidden', 'fgets hit a failed read but ferror is not set'); }
              else if (!m && n > 1) bad('wrong-return', 'fgets at end of file returned an empty line');
              const have = Buffer.from(g.mem.subarray(buf, buf + m + 1));
              if (!have.equals(Buffer.concat([want.subarray(0, m), Buffer.from([0])]))) bad('wrong-bytes', 'fgets(' + n + ') on ' + st.name + ' gave ' + show(Buffer.from(g.mem.subarray(buf, buf + Math.min(n, m + 8)))) + ' instead of ' + show(want));
              adv(st, m);
            }
            flags(st, r, 'fgets', !failed && end, failed); break;
          }
          case 'unget': {
            if (st.pb.length) return; // C promises one
            const ch = op.c === -2 ? (st.last === undefined ? 65 : st.last) : op.c;
            r = yield { op: 34, a: [st.fp, ch] };
            if (r.r !== ch) bad('ungetc-failed', 'ungetc(' + ch + ') on ' + st.name + ' returned ' + r.r);
            if (r.fl & 1) bad('eof-kept', 'feof is still set after ungetc'); st.pb.push(ch); st.eof = false; probe('ungetc'); break;
          }
          case 'clr': { r = yield { op: 17, a: [st.fp] }; if (r.fl) bad('clearerr', 'clearerr left flags ' + r.fl); st.eof = st.err = false; break; }
          case 'grow': { // the host has more data later; only after clearerr must it be seen
            const more = Buffer.from(op.data, 'latin1'); st.data = Buffer.concat([st.data, more]);
            if (st.std && c.inp !== 'file') w.std[0].node.src = Buffer.concat([w.std[0].node.src, more]);
            else { const node = st.std ? w.std[0].node : w.fs.root.entries.get(st.name); w.fs.pwrite(node, node.size, more); }
            r = yield { op: 17, a: [st.fp] }; st.eof = st.err = false; probe('grown'); break;
          }
          default: { // scanf family
            const out = []; let ret = null, any = false;
            const ws = () => { while (WS.has(peek(st))) next(st); };
            const num = () => { let t = ''; if (peek(st) === 45 || peek(st) === 43) t += String.fromCharCode(next(st)); while (dig(peek(st)) && t.length < 12) t += String.fromCharCode(next(st)); return /\d/.test(t) ? parseInt(t, 10) : null; };
            const rs = [];
            if (via === 'scand') { ws(); if (peek(st) < 0) rs.push(-1); else { const v = num(); if (v === null) rs.push(0); else { rs.push(1); if (Math.abs(v) < 2147483648) out.push([buf, 4, v]); } } r = yield { op: 35, a: [st.fp, buf], f }; } else if (via === 'scans') {
              ws(); if (peek(st) < 0) rs.push(-1); else { const b = []; while (b.length < 15 && peek(st) >= 0 && !WS.has(peek(st))) b.push(next(st)); rs.push(1); out.push([buf, b.length + 1, Buffer.from([...b, 0])]); } r = yield { op: 36, a: [st.fp, buf], f };
            } else if (via === 'scanset') {
              ws(); if (peek(st) < 0) rs.push(-1); else { const b = []; while (b.length < 7 && peek(st) >= 97 && peek(st) <= 122) b.push(next(st)); if (b.length) { rs.push(1); out.push([buf, b.length + 1, Buffer.from([...b, 0])]); } else rs.push(0, -1); } r = yield { op: 39, a: [st.fp, buf], f };
            } else {
              let k = 0; const x = next(st); if (x < 0) rs.push(-1); else { out.push([buf, 1, Buffer.from([x])]); k = 1; ws(); if (peek(st) >= 0) { const v = num(); if (v !== null) { if (Math.abs(v) < 2147483648) out.push([buf + 4, 4, v]); k = 2; const y = next(st); if (y >= 0) { out.push([buf + 8, 1, Buffer.from([y])]); k = 3; } } } rs.push(k); } r = yield { op: 37, a: [st.fp, buf], f };
            }
            if (!rs.includes(r.r)) bad('scanf-result', via + ' on ' + st.name + ' at ' + st.pos + ' returned ' + r.r + ' instead of ' + rs[0]);
            for (const [p, n, v] of out) { if (typeof v === 'number' ? g.mem.readInt32LE(p) !== v : !Buffer.from(g.mem.subarray(p, p + n)).equals(v)) bad('wrong-bytes', via + ' on ' + st.name + ' stored ' + show(Buffer.from(g.mem.subarray(p, p + n))) + ' instead of ' + (typeof v === 'number' ? v : show(v))); }
            flags(st, r, via, false, false); probe(via); break;
          }
        }
        if (r && r.r >= 0 && r.r < 256 && /getc|getchar/.test(via)) st.last = r.r;
      }
      for (const op of plan.ops) {
        const st = S[op.s]; if (!st) continue;
        if (op.o === 'mode') {
          if (st.used) continue; const bs = op.size || 1024; const ub = op.ub && op.m !== 'nbf' && g.pp + bs + 16 < g.iobase + 250000 ? g.persist(bs + 16) : 0;
          if (ub) { g.mem.fill(0xee, ub, ub + bs + 16); st.ub = [ub, bs]; }
          const r = yield { op: 15, a: [st.fp, ub, { fbf: 0, lbf: 0o100, nbf: 4 }[op.m], op.size] }; if (r.r !== 0) bad('setvbuf-failed', 'setvbuf returned ' + r.r); continue;
        }
        const reps = /getc|getchar/.test(op.via) ? op.rep : 1;
        for (let q = 0; q < reps; q++) yield* rd(st, op, q === (op.at || 0) % reps ? op.f : undefined);
        if (st.ub) for (let k = 0; k < 16; k++) if (g.mem[st.ub[0] + st.ub[1] + k] !== 0xee) bad('buffer-overrun', 'a byte past the setvbuf buffer of ' + st.ub[1] + ' changed');
      }
      for (const st of S) if (st) {
        if (st.err || st.eof) yield* rd(st, { via: 'clr' });
        const n = st.pb.length + st.data.length - st.pos; if (n > 700) { yield* rd(st, { via: 'fread', n: Math.min(n - 100, 7000), sz: 1 }); }
        while (left(st) > 600) yield* rd(st, { via: 'fread', n: 500, sz: 1 });
        for (let k = left(st); k >= 0; k--) yield* rd(st, { via: 'getc' });
        if (left(st)) bad('not-drained', 'internal');
      }
      return 0;
    }, (end) => { if (end.end === 'trap' || end.end === 'stop') bad(end.end, 'program ended by ' + end.end + ': ' + end.why + ' at call ' + JSON.stringify(end.lastOp)); });
    return { violation: res.violation, hash: res.hash, trace: res.trace, stats: stats(w, res, JSON.stringify([plan.cfg, plan.srcs.length, plan.ops]), seen >= 50 || nerr > 0, { probes: { ...probes, bytes: seen } }) };
  },
};
