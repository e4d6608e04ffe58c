'use strict';
// Engine for output-stream properties (S01, S02, S06, S07). It performs plan operations through the
// real library and keeps, per stream, the bytes the program wrote; every write that reaches the host
// is matched against them at once.
const { bad, show } = require('./common');

function mix(x) { x = Math.imul(x ^ (x >>> 16), 0x45d9f3b); x = Math.imul(x ^ (x >>> 16), 0x45d9f3b); return (x ^ (x >>> 16)) >>> 0; }
const VIA_STDOUT = ['putchar', 'puts', 'printf', 'printfd'];
const VIA = ['putc', 'fputc', 'fputs', 'fwrite', 'fprintf', 'fprintfd'];
const isNulSafe = (via) => via === 'putc' || via === 'fputc' || via === 'putchar' || via === 'fwrite';

class Stream {
  constructor(slot, fp, fd, name) {
    Object.assign(this, { slot, fp, fd, name, buf: Buffer.alloc(256), wlen: 0, cursor: 0, states: [{ c: 0, skips: [] }], jump: false, vague: false, recv: 0, fails: [], clearAt: 0, faultSince: false, everFault: false, reported: false, gen: 0, mode: 'default', size: 1024, open: true, lastNl: 0 });
  }
  push(b) {
    if (this.wlen + b.length > this.buf.length) { const n = Buffer.alloc((this.wlen + b.length) * 2); this.buf.copy(n, 0, 0, this.wlen); this.buf = n; }
    b.copy(this.buf, this.wlen); this.wlen += b.length;
    const k = b.lastIndexOf(10); if (k >= 0) this.lastNl = this.wlen - b.length + k + 1;
  }
  pop(n) { this.wlen = n; this.lastNl = this.buf.subarray(0, n).lastIndexOf(10) + 1; }
}
class Engine {
  constructor(w, o = {}) {
    this.w = w; this.o = o; this.streams = new Map(); this.byFd = new Map(); this.tag = 1; this.recvd = new Map();
    this.probes = {};
    w.onWrite = (fd, ofd, data) => this.onWrite(fd, ofd, data);
    this.files = new Map(); // path -> {base: Buffer}
  }
  probe(k) { this.probes[k] = (this.probes[k] || 0) + 1; }
  *start(g) {
    this.g = g;
    for (const [i, slot] of [[1, 1], [2, 2]]) { const r = yield { op: 2, a: [i] }; this.attach(new Stream(slot, r.ru, i, slot === 1 ? 'stdout' : 'stderr')); }
  }
  attach(st) { st.tag = this.tag++; this.streams.set(st.slot, st); this.byFd.set(st.fd, st); return st; }
  data(st, len, nl, nul) {
    const b = Buffer.alloc(len);
    for (let i = 0; i < len; i++) { let c = mix(st.tag * 7919 + st.gen + i) & 255; if (c === 10) c = 11; if (c === 0 && !nul) c = 1; b[i] = c; }
    st.gen += len;
    for (const p of nl || []) { const k = p < 0 ? len + p : Math.floor(p * len); if (k >= 0 && k < len) b[k] = 10; }
    return b;
  }
  onWrite(fd, ofd, data) {
    const st = this.byFd.get(fd);
    if (!st) { if (this.o.foreign || !this.g) return; bad('stray-write', 'the library wrote ' + show(data) + ' to descriptor ' + fd + ' which belongs to no open stream'); }
    if (!data.length) return;
    // during the call that produces them, bytes are already appended to st.buf (see put)
    const all = st.buf.subarray(0, st.wlen), n = data.length, next = new Map();
    // after a fault the bytes may continue at any later place: keep every reading that is possible
    for (const q of st.states) {
      let o = q.c;
      const add = (o) => { const skips = o === q.c ? q.skips : [...q.skips, [q.c, o]]; next.set((o + n) + '/' + skips, { c: o + n, skips }); };
      if (o + n <= st.wlen && data.equals(all.subarray(o, o + n))) add(o);
      if (st.jump) for (let k = 0; k < 64 && (o = all.indexOf(data, o + 1)) >= 0; k++) add(o);
    }
    if (!next.size) bad('wrong-bytes', st.name + ': the host received ' + show(data) + ' but the next bytes the program wrote are ' + show(all.subarray(st.cursor, st.cursor + Math.max(8, data.length))) + ' (offset ' + st.cursor + ' of ' + st.wlen + ')');
    st.states = [...next.values()]; if (st.states.length > 300) { st.vague = true; this.probe('vague'); st.states.length = 300; }
    st.jump = false; st.cursor = st.states[0].c;
    st.recv += data.length;
    const r = this.recvd.get(ofd) || []; r.push(Buffer.from(data)); this.recvd.set(ofd, r);
  }
  // bytes of successful calls, written since the last clearerr, that the host never got
  lost(st) {
    if (st.vague) return [];
    let best = null;
    for (const q of st.states) { const r = this.lostIn(st, q); if (!r.length) { if (st.states.length > 1) st.states = st.states.filter((x) => x === q || !this.lostIn(st, x).length); st.cursor = st.states[0].c; return r; } best = best || r; }
    return best;
  }
  lostIn(st, q) {
    const r = [];
    const add = (a, b) => {
      a = Math.max(a, st.clearAt);
      for (const [x, y] of st.fails) { // calls that reported failure promise nothing
        if (a >= b) return;
        if (x <= a && y >= b) return;
        if (x <= a && y > a) a = y;
        else if (x < b && y >= b) b = x;
      }
      if (a < b) r.push([a, b]);
    };
    for (const [a, b] of q.skips) add(a, b);
    add(q.c, st.wlen);
    return r;
  }
  settle(st, what, okReported, ferr) { // at a point where everything should have been handed over
    const l = this.lost(st);
    if (!l.length) return;
    const t = st.name + ' after ' + what + ': bytes ' + l[0][0] + '..' + l[0][1] + ' of ' + st.wlen + ' written with success never reached the host';
    if (!st.faultSince) bad('lost-output', t + ' although the host refused nothing' + (st.everFault ? ' since the error was cleared' : ''));
    if (!okReported && !st.reported) bad('silent-loss', t + ' and no call reported it');
    if (ferr === false) bad('ferror-clear', t + ' but ferror is not set');
  }
  fired(st, r) { // did a write fault hit this stream during the call just made?
    if (r.fired > 0 || this.hits.has(st.fd)) { st.faultSince = true; st.everFault = true; st.jump = true; }
  }
  *exec(op) {
    const g = this.g, w = this.w; this.hits = new Set();
    w.onSys = (name, args, res, f) => {
      if ((name === 'fd_write' || name === 'fd_pwrite') && (res !== 0 || w.shortened)) {
        this.hits.add(args[0]); const st = this.byFd.get(args[0]); if (st) { st.everFault = true; st.faultSince = true; st.jump = true; }
      }
    };
    switch (op.o) {
      case 'open': return yield* this.open(op);
      case 'mode': return yield* this.setmode(op);
      case 'put': return yield* this.put(op);
      case 'flush': return yield* this.flush(op);
      case 'close': return yield* this.close(op);
      case 'clr': { const st = this.streams.get(op.s); if (!st || !st.open) return; const r = yield { op: 17, a: [st.fp] }; if (r.fl & 2) bad('ferror-set', 'clearerr left the error flag set'); st.clearAt = st.wlen; st.faultSince = false; st.reported = false; return; }
      case 'quota': w.fs.quota = op.v < 0 ? Infinity : w.fs.used + op.v; return;
      case 'eat': for (const sz of [60000, 20000, 6000, 2000, 700, 200, 60, 8]) for (let k = 0; k < 300; k++) { const r = yield { op: 50, a: [sz] }; if (!r.ru) break; } this.eaten = true; w.fired['memory:exhausted'] = 1; return;
    }
  }
  *open(op) {
    const g = this.g, w = this.w;
    if (this.streams.has(op.s) && this.streams.get(op.s).open) return;
    for (const st of this.streams.values()) if (st.open && st.path === op.p) return; // one stream per file
    const before = w.fs.root.entries.get(op.p); const had = before ? w.fs.bytes(before) : null;
    const fds = new Set(w.fds.keys());
    const r = yield { op: op.how === 'fdopen' ? 10 : 10, a: [g.str(op.p), g.str(op.m)], f: op.f };
    const open = [...this.streams.values()].filter((s) => s.open).length + 1; // + stdin
    if (!r.ru) {
      if (r.fired || (op.m.includes('x') && had !== null) || open >= 20 || this.eaten || this.o.lowmem) { this.probe('open_refused'); return; }
      bad('open-failed', 'fopen(' + op.p + ',' + op.m + ') failed with errno ' + r.err + ' and nothing was wrong');
    }
    if (op.m.includes('x') && had !== null) bad('exclusive-ignored', 'fopen(' + op.p + ',' + op.m + ') opened an existing file');
    const nfd = [...w.fds.keys()].filter((k) => !fds.has(k));
    if (nfd.length !== 1) bad('open-fds', 'fopen opened ' + nfd.length + ' descriptors');
    const node = w.fds.get(nfd[0]).node;
    const st = this.attach(new Stream(op.s, r.ru, nfd[0], op.p)); st.path = op.p; st.node = node;
    st.base = op.m[0] === 'a' && had ? had : Buffer.alloc(0);
    if (!w.fs.bytes(node).equals(st.base)) bad('open-content', 'after fopen(' + op.p + ',' + op.m + ') the file holds ' + show(w.fs.bytes(node)));
    st.ofd = w.fds.get(nfd[0]);
  }
  *setmode(op) {
    const st = this.streams.get(op.s); if (!st || !st.open || st.wlen) return;
    const bs = op.size || 1024, ub = op.ub ? this.g.persist(bs + 16) : 0; // a size of 0 means BUFSIZ here
    if (ub) { this.g.mem.fill(0xee, ub, ub + bs + 16); st.ub = [ub, bs]; }
    if (op.set) { const r = yield { op: 16, a: [st.fp, ub] }; st.mode = ub ? 'fbf' : 'nbf'; st.size = 1024; return; }
    const r = yield { op: 15, a: [st.fp, ub, { fbf: 0, lbf: 0o100, nbf: 4 }[op.m], op.size] };
    if (r.r !== 0) bad('setvbuf-failed', 'setvbuf returned ' + r.r);
    st.mode = op.m; st.size = op.size || 1024;
  }
  checkUb(st) { if (st.ub) { const [p, n] = st.ub; for (let k = n; k < n + 16; k++) if (this.g.mem[p + k] !== 0xee) bad('buffer-overrun', 'a byte ' + (k - n) + ' past the program\'s setvbuf buffer of ' + n + ' changed'); } }
  *put(op) {
    const g = this.g; const st = this.streams.get(op.s); if (!st || !st.open) return;
    let via = op.via; if (op.s !== 1 && VIA_STDOUT.includes(via) || via === 'perror' && op.s !== 2) via = VIA[op.len % VIA.length];
    const single = via === 'putc' || via === 'fputc' || via === 'putchar';
    const reps = single ? Math.min(op.len, 300) : 1;
    for (let q = 0; q < reps; q++) {
      const len = single ? 1 : Math.min(op.len, 100000);
      let b = this.data(st, len, single ? (op.nl || []).map((p) => (p < 0 ? reps + p : Math.floor(p * reps))).includes(q) ? [0] : [] : op.nl, isNulSafe(via));
      const start = st.wlen; let cmd, total = b.length;
      const p = single ? 0 : g.str(b.toString('latin1'));
      switch (via) {
        case 'putc': cmd = { op: 20, a: [st.fp, op.neg ? (b[0] << 24) >> 24 : b[0]] }; break;
        case 'fputc': cmd = { op: 21, a: [st.fp, op.neg ? (b[0] << 24) >> 24 : b[0]] }; break;
        case 'putchar': cmd = { op: 25, a: [0, op.neg ? (b[0] << 24) >> 24 : b[0]] }; break;
        case 'fputs': cmd = { op: 22, a: [st.fp, p] }; break;
        case 'puts': cmd = { op: 23, a: [0, p] }; b = Buffer.concat([b, Buffer.from('\n')]); break;
        case 'fwrite': { const sz = op.size && len % op.size === 0 ? op.size : 1; cmd = { op: 24, a: [st.fp, p, sz, len / sz], sz }; break; }
        case 'fprintf': cmd = { op: 26, a: [st.fp, p] }; break;
        case 'printf': cmd = { op: 28, a: [0, p] }; break;
        case 'fprintfd': { const c = op.c === undefined ? 33 : op.c; b = Buffer.concat([Buffer.from(op.d + ':'), b, Buffer.from(';'), Buffer.from([c]), Buffer.from('\n')]); cmd = { op: 27, a: [st.fp, p, op.d, c] }; break; }
        case 'perror': { const t = yield { op: 46, a: [0, op.en] }; const text = Buffer.from(g.cstr(t.ru), 'latin1'); b = Buffer.concat([b.length ? Buffer.concat([b, Buffer.from(': ')]) : b, text, Buffer.from('\n')]); cmd = { op: 45, a: [0, len || !op.nul ? p : 0, op.en] }; this.probe('perror'); break; }
        case 'printfd': b = Buffer.concat([Buffer.from('<' + op.d + '>'), b, Buffer.from('\n')]); cmd = { op: 29, a: [0, p, op.d] }; break;
      }
      // puts and putchar have their argument first
      if (via === 'puts' || via === 'putchar' || via === 'printf' || via === 'printfd') { /* agent reads a[1] */ }
      st.push(b); total = b.length;
      const cur0 = st.cursor; const pend0 = start - st.cursor;
      const r = yield { op: cmd.op, a: cmd.a, f: q === (op.at || 0) % reps ? op.f : undefined };
      this.fired(st, r);
      let ok;
      if (single) { ok = r.r !== -1; if (ok && r.r !== b[0]) bad('wrong-return', via + '(' + cmd.a[1] + ') returned ' + r.r + ', not the byte ' + b[0]); } else if (via === 'perror') ok = true; else if (via === 'fputs' || via === 'puts') ok = r.r >= 0;
      else if (via === 'fwrite') { const n = len / cmd.sz; ok = r.ru === n; if (r.ru > n) bad('wrong-return', 'fwrite of ' + n + ' items returned ' + r.ru); if (len === 0) ok = true; } else { ok = r.r >= 0; if (ok && r.r !== total) bad('wrong-return', via + ' of ' + total + ' characters returned ' + r.r); }
      if (!ok) {
        if (!st.faultSince) bad('spurious-failure', via + ' of ' + total + ' bytes to ' + st.name + ' reported failure (' + r.r + ') although the host refused nothing' + (st.everFault ? ' since clearerr' : ''));
        st.fails.push([via === 'fwrite' ? start + r.ru * cmd.sz : start, st.wlen]); st.reported = true; st.jump = true; this.probe('failed_call');
      }
      if (via === 'fwrite' && !ok && !(r.fl & 2) && this.hits.has(st.fd)) bad('ferror-clear', 'fwrite failed on a refused write but ferror is not set');
      this.checkUb(st);
      this.handover(st, via, b, cur0, pend0);
    }
  }
  // S07: who must have been handed over by now
  handover(st, via, b, cur0, pend0) {
    if (!this.o.interactive || st.everFault) return;
    const mode = st.mode !== 'default' ? st.mode : st.slot === 2 ? 'nbf' : st.slot === 1 && this.o.ttyOut ? 'lbf' : 'fbf-default';
    if (mode === 'nbf') this.probe('nbf_checked');
    if (mode === 'nbf' && st.cursor !== st.wlen) bad('not-handed-over', st.name + ' is unbuffered but ' + (st.wlen - st.cursor) + ' bytes were held back after ' + via);
    if (mode === 'lbf') { this.probe('line_checked'); if (st.cursor < st.lastNl) bad('line-held-back', st.name + ' is line buffered but a completed line (bytes ' + st.cursor + '..' + st.lastNl + ') was held back after ' + via); }
    if (mode === 'fbf' && st.mode === 'fbf' && st.size >= 64 && !this.eaten && !this.o.lowmem && b.includes(10) && pend0 + b.length <= Math.min(st.size, 1000) - 16 && b.length < 512) {
      this.probe('full_checked'); if (st.cursor !== cur0) bad('flushed-by-newline', st.name + ' is fully buffered with ' + st.size + ' bytes but ' + via + ' handed over ' + (st.cursor - cur0) + ' bytes with only ' + (pend0 + b.length) + ' pending');
    }
  }
  *flush(op) {
    if (op.s === -1) {
      const r = yield { op: 14, a: [0], f: op.f }; for (const st of this.streams.values()) if (st.open) this.fired(st, { fired: 0 });
      if (r.r !== 0 && ![...this.streams.values()].some((s) => s.open && s.faultSince)) bad('spurious-failure', 'fflush(NULL) reported failure although the host refused nothing');
      for (const st of this.streams.values()) if (st.open) { this.settle(st, 'fflush(NULL)', r.r !== 0); if (r.r !== 0 && st.faultSince) st.reported = true; }
      this.probe('flush_all'); return;
    }
    const st = this.streams.get(op.s); if (!st || !st.open) return;
    const r = yield { op: 14, a: [st.fp], f: op.f }; this.fired(st, r);
    if (r.r !== 0 && !st.faultSince) bad('spurious-failure', 'fflush(' + st.name + ') reported failure although the host refused nothing');
    this.settle(st, 'fflush', r.r !== 0, !!(r.fl & 2)); if (r.r !== 0) st.reported = true;
    this.checkUb(st); this.content(st);
  }
  *close(op) {
    const st = this.streams.get(op.s); if (!st || !st.open) return;
    const r = yield { op: 13, a: [st.fp], f: op.f }; this.fired(st, r);
    st.open = false; this.byFd.delete(st.fd); this.checkUb(st);
    if (r.r !== 0 && !st.faultSince && !r.fired) bad('spurious-failure', 'fclose(' + st.name + ') reported failure although the host refused nothing');
    this.settle(st, 'fclose', r.r !== 0); this.content(st); this.probe('closed');
    if (this.w.fds.has(st.fd) && this.w.fds.get(st.fd) === st.ofd) bad('fd-leak', 'fclose(' + st.name + ') left descriptor ' + st.fd + ' open');
  }
  content(st) {
    if (!st.node) return;
    const want = Buffer.concat([st.base, ...(this.recvd.get(st.ofd) || [])]); const have = this.w.fs.bytes(st.node);
    if (!want.equals(have)) bad('file-content', st.name + ' holds ' + show(have) + ' (' + have.length + ' bytes), but the writes make ' + show(want) + ' (' + want.length + ')');
  }
  // after a normal end of the program everything must have arrived
  final(how) {
    for (const st of this.streams.values()) if (st.open) {
      if (!st.everFault) { if (st.cursor !== st.wlen) bad('lost-output', st.name + ' after ' + how + ': ' + (st.wlen - st.cursor) + ' of ' + st.wlen + ' bytes never reached the host'); this.content(st); }
    }
  }
}
// random op generators -----------------------------------------------------
function genPut(rng, s, o = {}) {
  const via = s === 2 && o.perror && rng.chance(0.2) ? 'perror' : rng.pick(s === 1 ? VIA.concat(VIA_STDOUT) : VIA);
  let len = o.small ? rng.int(40) : rng.size(rng.chance(0.1) ? 9000 : rng.chance(0.3) ? 2500 : 300);
  const op = { o: 'put', s, via, len };
  if (rng.chance(o.nlp || 0.5)) { op.nl = []; for (let i = rng.range(1, 3); i > 0; i--) op.nl.push(rng.chance(0.5) ? -1 : Math.round(rng.f() * 100) / 100); }
  if (via === 'fwrite') op.size = rng.pick([1, 1, 2, 3, 4, 8, 16]), op.len -= op.len % op.size;
  if (/d$/.test(via)) { op.d = rng.pick([0, 1, -1, 42, -2147483648, 2147483647, rng.int(100000)]); if (rng.chance(0.2)) op.c = rng.pick([0, 10, 255, 65]); }
  if (via === 'perror') op.en = rng.int(80), op.nul = rng.chance(0.5), op.len = op.len % 300;
  if (/putc/.test(via) && rng.chance(0.2)) op.neg = true;
  return op;
}
function genMode(rng, s) {
  if (rng.chance(0.15)) return { o: 'mode', s, set: true, ub: rng.chance(0.5), size: 1024 };
  const m = rng.pick(['fbf', 'lbf', 'nbf']); const ub = m !== 'nbf' && rng.chance(0.4);
  return { o: 'mode', s, m, ub, size: rng.pick([0, 1, 2, 7, 8, 9, 10, 16, 17, 64, 100, 255, 256, 1000, 1024, 1025, 4096, 8192, rng.range(1, 3000)]) };
}
module.exports = { Engine, Stream, genPut, genMode, VIA, VIA_STDOUT };
