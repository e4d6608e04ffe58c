'use strict';
// Simulated WASI host: one World is one deterministic execution environment of one program.
const { FS, E, FT, Err } = require('./fs');
const R = { DATASYNC: 1n << 0n, READ: 1n << 1n, SEEK: 1n << 2n, SET_FLAGS: 1n << 3n, SYNC: 1n << 4n, TELL: 1n << 5n, WRITE: 1n << 6n, ADVISE: 1n << 7n,
  ALLOCATE: 1n << 8n, PCREATE_DIR: 1n << 9n, PCREATE_FILE: 1n << 10n, READDIR: 1n << 14n, FILESTAT_GET: 1n << 21n, SET_SIZE: 1n << 22n, SET_TIMES: 1n << 23n, POLL: 1n << 27n };
const ALL = (1n << 29n) - 1n;
const FILE_ALL = R.DATASYNC | R.READ | R.SEEK | R.SET_FLAGS | R.SYNC | R.TELL | R.WRITE | R.ADVISE | R.ALLOCATE | R.FILESTAT_GET | R.SET_SIZE | R.SET_TIMES | R.POLL;
const TTY_RIGHTS = R.READ | R.WRITE | R.SET_FLAGS | R.FILESTAT_GET | R.POLL;

class ExitSignal { constructor(code) { this.code = code; } }
class StopSignal { constructor(why) { this.why = why; } }

class World {
  constructor(cfg = {}) {
    this.cfg = cfg;
    this.rt = BigInt(cfg.realtime !== undefined ? cfg.realtime : 1700000000000000000n);
    this.mono = BigInt(cfg.mono !== undefined ? cfg.mono : 1000000n);
    this.cpu = BigInt(cfg.cpu !== undefined ? cfg.cpu : 0n);
    this.tick = BigInt(cfg.tick !== undefined ? cfg.tick : 1000n);
    this.fs = cfg.fs || new FS(() => this.rt);
    this.args = (cfg.args || ['prog']).map((s) => Buffer.isBuffer(s) ? s : Buffer.from(s, 'latin1'));
    this.env = (cfg.env || []).map((s) => Buffer.isBuffer(s) ? s : Buffer.from(s, 'latin1'));
    this.fds = new Map();
    this.faults = []; this.cnt = Object.create(null); this.armed = [];
    this.fired = Object.create(null); this.calls = Object.create(null);
    this.anom = []; this.trace = []; this.h1 = 0x811c9dc5; this.h2 = 0x1234567; this.nsys = 0; this.maxsys = cfg.maxsys || 200000;
    this.probes = Object.create(null);
    this.onSys = null; this.events = [];
    this.lastClosed = null; this.closedOps = 0;
    // standard streams
    const std = cfg.std || {};
    this.std = [0, 1, 2].map((i) => this.mkstd(i, (std[i] || {})));
    for (let i = 0; i < 3; i++) if (!(std[i] && std[i].closed)) this.fds.set(i, this.std[i]);
    let fd = 3;
    const pre = cfg.preopens || [{ name: '.', path: '' }];
    for (const p of pre) {
      if (p.fdgap) fd += p.fdgap;
      const node = p.path ? this.fs.mkpath(p.path, 'dir') : this.fs.root;
      this.fds.set(fd++, { kind: 'dir', node, pos: 0, flags: 0, rb: p.rb !== undefined ? BigInt(p.rb) : ALL, ri: p.ri !== undefined ? BigInt(p.ri) : ALL, pre: Buffer.from(p.name, 'latin1'), tag: p.tag || 0 });
    }
    this.firstFd = fd;
  }
  mkstd(i, c) {
    const kind = c.kind || 'pipe';
    if (kind === 'file') {
      const node = this.fs.mk('file'); node.nlink = 1;
      if (c.data) { node.data = Buffer.from(c.data, 'latin1'); node.size = node.data.length; }
      return { kind: 'file', node, pos: c.pos || 0, flags: c.append ? 1 : 0, rb: FILE_ALL, ri: 0n, std: i };
    }
    const node = { ino: i + 1, type: 'chr', kind, src: Buffer.from(c.data || '', 'latin1'), sp: 0, sink: [], nlink: 1, atim: 0n, mtim: 0n, ctim: 0n, size: 0 };
    return { kind, node, pos: 0, flags: 0, rb: kind === 'tty' ? TTY_RIGHTS : (c.rights !== undefined ? BigInt(c.rights) : TTY_RIGHTS), ri: 0n, std: i };
  }
  sinkBytes(i) { const d = this.std[i]; return d.kind === 'file' ? this.fs.bytes(d.node) : Buffer.concat(d.node.sink); }
  hash(s) {
    let a = this.h1, b = this.h2;
    for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul(b + c, 0x9e3779b1) ^ (b >>> 15); }
    this.h1 = a; this.h2 = b;
  }
  note(s) { this.hash(s); this.trace.push(s); if (this.trace.length > 3000) this.trace.splice(0, 1500); }
  digest() { return (this.h1 >>> 0).toString(16).padStart(8, '0') + (this.h2 >>> 0).toString(16).padStart(8, '0'); }
  beginOp(faults) { this.faults = faults ? faults.map((f) => ({ ...f })) : []; this.cnt = Object.create(null); this.allcnt = 0; }
  take(name) {
    this.calls[name] = (this.calls[name] || 0) + 1;
    const n = this.cnt[name] = (this.cnt[name] || 0) + 1;
    const m = this.allcnt = (this.allcnt || 0) + 1;
    for (let i = 0; i < this.faults.length; i++) {
      const f = this.faults[i];
      if (f.sc === name ? n - 1 === (f.n || 0) : (f.sc === '*' && m - 1 === (f.n || 0))) {
        this.faults.splice(i, 1); return f;
      }
    }
    for (const f of this.armed) if (f.sc === name && (f.count === undefined || f.count-- > 0)) return f;
    return null;
  }
  fire(f, what) { const k = what || f.kind; this.fired[k] = (this.fired[k] || 0) + 1; this.opFired = (this.opFired || 0) + 1; }
  lowfd() { let i = 0; while (this.fds.has(i)) i++; return i; }
  addfd(o, min = 0) { let i = min; while (this.fds.has(i)) i++; this.fds.set(i, o); return i; }
  get(fd) { const o = this.fds.get(fd); if (!o) { this.badf = (this.badf || 0) + 1; throw new Err(E.BADF); } return o; }
}

// ---------------------------------------------------------------------------
// WASI imports bound to a World and a memory getter
function imports(w, getmem) {
  let cached = null, cbuf = null;
  const M = () => { const m = getmem(); if (m.buffer !== cached) { cached = m.buffer; cbuf = Buffer.from(m.buffer); } return cbuf; };
  const chk = (p, n) => { p >>>= 0; n >>>= 0; const b = M(); if (p + n > b.length) { w.anom.push('host call got a pointer outside memory'); throw new Err(E.FAULT); } return p; };
  const str = (p, n) => { p = chk(p, n); return M().toString('latin1', p, p + (n >>> 0)); };
  const u32 = (p, v) => { p = chk(p, 4); M().writeUInt32LE(v >>> 0, p); };
  const u64 = (p, v) => { p = chk(p, 8); M().writeBigUInt64LE(BigInt.asUintN(64, BigInt(v)), p); };
  const iovs = (p, n) => { const r = []; p = chk(p, n * 8); for (let i = 0; i < n; i++) { const b = M(); const q = b.readUInt32LE(p + 8 * i), l = b.readUInt32LE(p + 8 * i + 4); chk(q, l); r.push([q, l]); } return r; };
  const H = {};
  const def = (name, fn, fmt) => {
    H[name] = (...args) => {
      if (++w.nsys > w.maxsys) { throw new StopSignal('unbounded host calls'); }
      w.rt += w.tick; w.mono += w.tick; w.cpu += w.tick / 2n;
      const f = w.take(name);
      let r, note = '';
      try {
        if (f !== null && f.kind === 'err' && !f.after) { w.fire(f, name + ':err'); throw new Err(f.errno); }
        r = fn(f, ...args);
        if (Array.isArray(r)) { note = r[1]; r = r[0]; }
        if (f !== null && f.kind === 'err' && f.after) { w.fire(f, name + ':err-after'); r = f.errno; }
      } catch (e) {
        if (e instanceof Err) r = e.e; else throw e;
      }
      const s = name + '(' + args.map((x) => typeof x === 'bigint' ? x.toString() : x).join(',') + ')' + (f ? '!' + f.kind : '') + '=' + r + (note ? ' ' + note : '');
      if (w.cfg.hashArgs === false) { w.hash(name + r + note); w.trace.push(s); if (w.trace.length > 3000) w.trace.splice(0, 1500); } else w.note(s);
      if (w.onSys) w.onSys(name, args, r, f, note);
      return r;
    };
  };
  const filetype = (o) => o.kind === 'tty' ? FT.chr : o.kind === 'pipe' ? (w.cfg.pipeType !== undefined ? w.cfg.pipeType : FT.unknown) : FT[o.node.type];
  const wstat = (p, n) => {
    p = chk(p, 64); const b = M(); b.fill(0, p, p + 64);
    b.writeBigUInt64LE(w.cfg.dev !== undefined ? BigInt(w.cfg.dev) : 7n, p); b.writeBigUInt64LE(BigInt(n.ino), p + 8); b[p + 16] = FT[n.ftype || n.type]; b.writeBigUInt64LE(BigInt(n.said ? n.said[1] : n.nlink), p + 24);
    b.writeBigUInt64LE(BigInt(n.said ? n.said[0] : n.type === 'file' ? n.size : n.type === 'symlink' ? n.target.length : 0), p + 32);
    b.writeBigUInt64LE(n.atim, p + 40); b.writeBigUInt64LE(n.mtim, p + 48); b.writeBigUInt64LE(n.ctim, p + 56);
  };
  const dirOf = (fd) => { const o = w.get(fd); if (o.kind !== 'dir') throw new Err(E.NOTDIR); return o; };
  // -- args, env
  const sizes = (list, cp, sp) => { let t = 0; for (const a of list) t += a.length + 1; u32(cp, list.length); u32(sp, t); return 0; };
  const fill = (list, pp, bp) => {
    let q = bp >>> 0; let i = 0;
    for (const a of list) { u32((pp >>> 0) + 4 * i++, q); chk(q, a.length + 1); a.copy(M(), q); M()[q + a.length] = 0; q += a.length + 1; }
    return 0;
  };
  def('args_sizes_get', (f, cp, sp) => sizes(w.args, cp, sp));
  def('args_get', (f, pp, bp) => fill(w.args, pp, bp));
  def('environ_sizes_get', (f, cp, sp) => sizes(w.env, cp, sp));
  def('environ_get', (f, pp, bp) => fill(w.env, pp, bp));
  // -- clocks
  def('clock_res_get', (f, id, p) => {
    if (id > 3) return E.INVAL;
    u64(p, w.cfg.clockres !== undefined ? w.cfg.clockres : 1000n); return 0;
  });
  def('clock_time_get', (f, id, prec, p) => {
    if (f && f.kind === 'jump') { w.fire(f, 'clock:jump'); w.rt += BigInt(f.by); if (w.rt < 0n) w.rt = 0n; }
    const v = id === 0 ? w.rt : id === 1 ? w.mono : (id === 2 || id === 3) ? w.cpu : null;
    if (v === null) return E.INVAL;
    u64(p, v); return [0, String(v)];
  });
  // -- fds
  def('fd_advise', (f, fd) => { const o = w.get(fd); if (o.kind !== 'file') return o.kind === 'dir' ? E.BADF : E.SPIPE; return 0; });
  def('fd_allocate', (f, fd, off, len) => {
    const o = w.get(fd); if (o.kind !== 'file') return E.SPIPE;
    if (!(o.rb & R.ALLOCATE)) return E.NOTCAPABLE;
    if (len <= 0n || off < 0n) return E.INVAL;
    const end = Number(off + len);
    if (end > (w.cfg.maxfile || 1 << 26)) return E.FBIG;
    if (end > o.node.size) { if (w.fs.used + end - o.node.size > w.fs.quota) return E.NOSPC; w.fs.setSize(o.node, end); }
    return 0;
  });
  def('fd_close', (f, fd) => {
    const o = w.get(fd); w.fds.delete(fd);
    if (w.onClose) w.onClose(fd, o);
    if (f && f.kind === 'err') return 0;
    return 0;
  });
  def('fd_datasync', (f, fd) => { const o = w.get(fd); if (!(o.rb & R.DATASYNC)) return E.NOTCAPABLE; o.synced = true; return 0; });
  def('fd_sync', (f, fd) => { const o = w.get(fd); if (!(o.rb & R.SYNC)) return E.NOTCAPABLE; o.synced = true; return 0; });
  def('fd_fdstat_get', (f, fd, p) => {
    const o = w.get(fd); p = chk(p, 24); const b = M(); b.fill(0, p, p + 24);
    b[p] = filetype(o); b.writeUInt16LE(o.flags, p + 2); b.writeBigUInt64LE(o.rb, p + 8); b.writeBigUInt64LE(o.ri, p + 16); return 0;
  });
  def('fd_fdstat_set_flags', (f, fd, fl) => { const o = w.get(fd); if (!(o.rb & R.SET_FLAGS)) return E.NOTCAPABLE; o.flags = fl; return 0; });
  def('fd_fdstat_set_rights', (f, fd, rb, ri) => { const o = w.get(fd); if ((rb & ~o.rb) || (ri & ~o.ri)) return E.NOTCAPABLE; o.rb = rb; o.ri = ri; return 0; });
  def('fd_filestat_get', (f, fd, p) => { const o = w.get(fd); wstat(p, o.node); return 0; });
  def('fd_filestat_set_size', (f, fd, sz) => {
    const o = w.get(fd); if (o.kind === 'dir') return E.ISDIR; if (o.kind !== 'file') return E.INVAL;
    if (!(o.rb & R.SET_SIZE)) return E.NOTCAPABLE;
    const n = Number(sz); if (n < 0) return E.INVAL; if (n > (w.cfg.maxfile || 1 << 26)) return E.FBIG;
    if (n > o.node.size && w.fs.used + n - o.node.size > w.fs.quota) return E.NOSPC;
    w.fs.setSize(o.node, n); return 0;
  });
  def('fd_filestat_set_times', () => E.NOSYS);
  const doRead = (f, fd, list, offset) => {
    const o = w.get(fd);
    if (!(o.rb & R.READ)) throw new Err(offset !== null ? E.NOTCAPABLE : (w.cfg.badfRights ? E.BADF : E.NOTCAPABLE));
    if (o.kind === 'dir') throw new Err(E.ISDIR);
    if (offset !== null && o.kind !== 'file') throw new Err(E.SPIPE);
    let want = 0; for (const [, l] of list) want += l;
    if (f && f.kind === 'short') { const k = Math.max(1, f.k); if (k < want) { want = k; w.fire(f, 'read:short'); } }
    let data;
    if (o.kind === 'file') { const pos = offset !== null ? Number(offset) : o.pos; data = w.fs.pread(o.node, pos, want); if (offset === null) o.pos += data.length; }
    else {
      const n = o.node;
      if (w.onBlock && o.std === 0) w.onBlock(o);
      let lim = want;
      if (o.kind === 'tty' || w.cfg.linePipe) { // a terminal hands over at most one line
        const e = n.src.indexOf(10, n.sp); if (e >= 0) lim = Math.min(lim, e + 1 - n.sp);
      }
      data = n.src.subarray(n.sp, Math.min(n.src.length, n.sp + lim)); n.sp += data.length;
    }
    let q = 0;
    for (const [p, l] of list) { if (q >= data.length) break; const k = Math.min(l, data.length - q); data.copy(M(), p, q, q + k); q += k; }
    return data;
  };
  def('fd_read', (f, fd, ip, n, rp) => { const d = doRead(f, fd, iovs(ip, n), null); u32(rp, d.length); return [0, d.length + ':' + d.toString('latin1').slice(0, 40)]; });
  def('fd_pread', (f, fd, ip, n, off, rp) => { if (off < 0n) return E.INVAL; const d = doRead(f, fd, iovs(ip, n), off); u32(rp, d.length); return [0, '' + d.length]; });
  const doWrite = (f, fd, list, offset) => {
    w.shortened = false;
    const o = w.get(fd);
    if (!(o.rb & R.WRITE)) throw new Err(w.cfg.badfRights && offset === null ? E.BADF : E.NOTCAPABLE);
    if (o.kind === 'dir') throw new Err(E.ISDIR);
    if (offset !== null && o.kind !== 'file') throw new Err(E.SPIPE);
    const b = M(); let data = Buffer.concat(list.map(([p, l]) => b.subarray(p, p + l)));
    if (f && f.kind === 'short') { const k = Math.max(f.zero ? 0 : 1, f.k); if (k < data.length) { data = data.subarray(0, k); w.shortened = true; w.fire(f, 'write:short'); } }
    if (o.kind === 'file') {
      let pos = offset !== null ? Number(offset) : (o.flags & 1) ? o.node.size : o.pos;
      if ((o.flags & 1) && offset !== null) pos = Number(offset);
      const room = w.fs.quota - w.fs.used; const grow = pos + data.length - Math.max(o.node.size, 0);
      if (data.length && grow > 0 && grow > room) {
        const k = data.length - (grow - Math.max(0, room));
        if (k <= 0) { w.fired['write:nospc'] = (w.fired['write:nospc'] || 0) + 1; throw new Err(E.NOSPC); }
        data = data.subarray(0, k); w.shortened = true; w.fired['write:short-nospc'] = (w.fired['write:short-nospc'] || 0) + 1;
      }
      if (pos + data.length > (w.cfg.maxfile || 1 << 26)) throw new Err(E.FBIG);
      w.fs.pwrite(o.node, pos, data);
      if (offset === null) o.pos = pos + data.length;
    } else o.node.sink.push(Buffer.from(data));
    if (w.onWrite) w.onWrite(fd, o, data);
    return data;
  };
  def('fd_write', (f, fd, ip, n, rp) => { const d = doWrite(f, fd, iovs(ip, n), null); u32(rp, d.length); return [0, d.length + ':' + d.toString('latin1', 0, 60)]; });
  def('fd_pwrite', (f, fd, ip, n, off, rp) => { if (off < 0n) return E.INVAL; const d = doWrite(f, fd, iovs(ip, n), off); u32(rp, d.length); return [0, '' + d.length]; });
  def('fd_prestat_get', (f, fd, p) => {
    const o = w.fds.get(fd); if (!o) return E.BADF;
    if (!o.pre) return w.cfg.prestatNotDir !== undefined ? w.cfg.prestatNotDir : E.BADF;
    p = chk(p, 8); M().fill(0, p, p + 8); M().writeUInt32LE(o.pre.length, p + 4); if (o.tag) M()[p] = o.tag; return 0;
  });
  def('fd_prestat_dir_name', (f, fd, p, n) => {
    const o = w.fds.get(fd); if (!o || !o.pre || o.tag) return E.BADF;
    if ((n >>> 0) < o.pre.length) return E.NAMETOOLONG;
    p = chk(p, o.pre.length); o.pre.copy(M(), p); return 0;
  });
  def('fd_readdir', (f, fd, bp, blen, cookie, up) => {
    const o = dirOf(fd); if (!(o.rb & R.READDIR)) return E.NOTCAPABLE;
    bp = chk(bp, blen); blen >>>= 0;
    const ents = [];
    if (w.cfg.dots) { ents.push(['.', o.node]); ents.push(['..', o.node.parent || o.node]); }
    for (const [k, v] of o.node.entries) ents.push([k, v]);
    // cookies: 0 = start; entry i is followed by cookie ck(i+1)
    const ck = (i) => i === 0 ? 0n : w.cfg.cookie === 'sparse' ? BigInt(i) * 977n + 1000003n : w.cfg.cookie === 'big' ? (BigInt(i) * 0x9e3779b97f4a7c15n) & 0x7fffffffffffffffn : w.cfg.cookie === 'u32' ? BigInt(i) * 40503001n + 0x80000000n & 0xffffffffn : BigInt(i);
    let i = 0; const c = BigInt.asUintN(64, cookie);
    while (i <= ents.length && ck(i) !== c) i++;
    if (i > ents.length) { w.anom.push('fd_readdir got a cookie the host never issued: ' + c); return E.INVAL; }
    let used = 0; let cnt = 0;
    const start = i;
    for (; i < ents.length && used < blen; i++) {
      const nm = Buffer.from(ents[i][0], 'latin1'); const b = Buffer.alloc(24 + nm.length);
      b.writeBigUInt64LE(ck(i + 1), 0); b.writeBigUInt64LE(BigInt(ents[i][1].ino), 8); b.writeUInt32LE(nm.length, 16); b[20] = FT[ents[i][1].ftype || ents[i][1].type]; nm.copy(b, 24);
      const k = Math.min(b.length, blen - used);
      if (k < b.length && cnt > 0 && w.cfg.whole) { // hosts that never split an entry pad by claiming a full buffer
        const junk = blen - used; M().fill(0xa5, bp + used, bp + used + Math.min(junk, 23));
        if (junk < 24) { used = blen; break; }
      }
      b.copy(M(), bp + used, 0, k); used += k; cnt++;
    }
    u32(up, used); return [0, 'from ' + start + ' used ' + used];
  });
  def('fd_renumber', (f, a, b) => { const o = w.get(a); w.fds.set(b, o); w.fds.delete(a); return 0; });
  def('fd_seek', (f, fd, off, wh, np) => {
    const o = w.get(fd);
    if (!(o.rb & R.SEEK) || o.kind !== 'file') return o.kind === 'dir' ? E.BADF : ((o.rb & R.SEEK) ? E.SPIPE : (w.cfg.spipe ? E.SPIPE : E.NOTCAPABLE));
    if (wh > 2) return E.INVAL;
    const base = wh === 0 ? 0n : wh === 1 ? BigInt(o.pos) : BigInt(o.node.size);
    const np2 = base + off; if (np2 < 0n) return E.INVAL; if (np2 > 0x7fffffffffffffffn) return E.OVERFLOW;
    o.pos = Number(np2); u64(np, np2); return [0, String(np2)];
  });
  def('fd_tell', (f, fd, np) => { const o = w.get(fd); if (!(o.rb & R.TELL) || o.kind !== 'file') return E.SPIPE; u64(np, o.pos); return 0; });
  // -- paths
  const s8 = (p, n) => str(p, n);
  def('path_create_directory', (f, fd, p, n) => { const d = dirOf(fd); const s = s8(p, n); w.fs.mkdir(d.node, s); return [0, s]; });
  def('path_filestat_get', (f, fd, fl, p, n, out) => { const d = dirOf(fd); const s = s8(p, n); wstat(out, w.fs.stat(d.node, s, !!(fl & 1))); return [0, s]; });
  def('path_filestat_set_times', () => E.NOSYS);
  def('path_link', (f, ofd, fl, p, n, nfd, p2, n2) => { const a = s8(p, n), b = s8(p2, n2); w.fs.link(dirOf(ofd).node, a, !!(fl & 1), dirOf(nfd).node, b); return [0, a + ' ' + b]; });
  def('path_open', (f, fd, fl, p, n, ofl, rb, ri, ffl, out) => {
    const d = dirOf(fd); const s = s8(p, n); out = chk(out, 4);
    w.lastPath = [fd, s];
    if ((rb & ~d.ri) || (ri & ~d.ri)) return [E.NOTCAPABLE, s];
    if (w.fdlimit && w.fds.size >= w.fdlimit) return [E.MFILE, s];
    const read = !!(rb & (R.READ | R.READDIR)), write = !!(rb & (R.WRITE | R.ALLOCATE | R.SET_SIZE));
    const node = w.fs.open(d.node, s, { creat: !!(ofl & 1), directory: !!(ofl & 2), excl: !!(ofl & 4), trunc: !!(ofl & 8), follow: !!(fl & 1), read, write });
    const o = { kind: node.type === 'dir' ? 'dir' : 'file', node, pos: 0, flags: ffl, rb: node.type === 'dir' ? rb : rb & FILE_ALL, ri, path: s };
    const nfd = w.addfd(o);
    u32(out, nfd); return [0, s + ' -> ' + nfd];
  });
  def('path_readlink', (f, fd, p, n, bp, bl, up) => { const d = dirOf(fd); const t = w.fs.readlink(d.node, s8(p, n)); const k = Math.min(t.length, bl >>> 0); bp = chk(bp, k); t.copy(M(), bp, 0, k); u32(up, k); return 0; });
  def('path_remove_directory', (f, fd, p, n) => { const s = s8(p, n); w.fs.rmdir(dirOf(fd).node, s); return [0, s]; });
  def('path_rename', (f, fd, p, n, nfd, p2, n2) => { const a = s8(p, n), b = s8(p2, n2); w.fs.rename(dirOf(fd).node, a, dirOf(nfd).node, b); return [0, a + ' ' + b]; });
  def('path_symlink', (f, tp, tn, fd, p, n) => { const a = s8(tp, tn), b = s8(p, n); w.fs.symlink(a, dirOf(fd).node, b); return [0, a + ' ' + b]; });
  def('path_unlink_file', (f, fd, p, n) => { const s = s8(p, n); w.fs.unlink(dirOf(fd).node, s); return [0, s]; });
  def('poll_oneoff', () => E.NOSYS);
  def('sched_yield', () => 0);
  for (const k of ['sock_recv', 'sock_send', 'sock_shutdown', 'sock_accept', 'proc_raise']) def(k, () => E.NOSYS);
  H.proc_exit = (code) => { w.note('proc_exit(' + code + ')'); throw new ExitSignal(code); };
  def('random_get', (f, p, n) => { p = chk(p, n); for (let i = 0; i < n; i++) M()[p + i] = 0; return 0; });
  return { H, M };
}

// ---------------------------------------------------------------------------
// run a plain program under a World
function instantiate(mod, w, extra) {
  let inst;
  const { H, M } = imports(w, () => inst.exports.memory);
  if (extra) extra(H, M);
  inst = new WebAssembly.Instance(mod, { wasi_snapshot_preview1: H, wasi_unstable: H });
  return { inst, M, H };
}
function classify(e) {
  if (e instanceof ExitSignal) return { end: 'exit', code: e.code };
  if (e instanceof StopSignal) return { end: 'stop', why: e.why };
  if (e instanceof WebAssembly.RuntimeError) return { end: 'trap', why: e.message };
  if (e instanceof RangeError) return { end: 'trap', why: 'stack overflow (' + e.message + ')' };
  throw e;
}
function runProgram(mod, w) {
  const g = instantiate(mod, w);
  let end;
  try { g.inst.exports._start(); end = { end: 'return', code: 0 }; } catch (e) { end = classify(e); }
  w.note('END ' + JSON.stringify(end));
  end.pages = g.inst.exports.memory.buffer.byteLength >>> 16;
  return end;
}

// ---------------------------------------------------------------------------
// the agent program driven by a generator: yields {op,a,l,f}, receives the result record
const REC = 72;
class Guest {
  constructor(mod, w) { this.mod = mod; this.w = w; }
  get mem() { return this.M(); }
  reset() { this.sp = this.iobase; }
  alloc(n) { const p = this.sp; this.sp = (p + n + 7) & ~7; if (this.sp > this.iobase + 131072) throw new Error('agent scratch overflow'); return p; }
  str(s) { const b = Buffer.from(s, 'latin1'); const p = this.alloc(b.length + 1); b.copy(this.mem, p); this.mem[p + b.length] = 0; return p; }
  put(b) { const p = this.alloc(b.length); b.copy(this.mem, p); return p; }
  persist(n) { const p = this.pp; this.pp = (p + n + 15) & ~15; if (this.pp > this.iobase + 262144) throw new Error('agent persist overflow'); return p; }
  cstr(p) { const m = this.mem; p >>>= 0; let e = p; while (e < m.length && m[e] !== 0 && e - p < 1 << 17) e++; return m.toString('latin1', p, e); }
  pages() { return this.mem.length >>> 16; }
  run(gen) {
    const w = this.w; const self = this;
    let it = null, pend = null, done = false;
    const g = instantiate(this.mod, w, (H, M) => {
      this.M = M;
      H.random_get = (p, n) => {
        p >>>= 0;
        const m = M();
        if (n !== REC) throw new Error('agent record size ' + n);
        const rec = { op: m.readInt32LE(p), a: [], who: m.readInt32LE(p + 48), r: m.readInt32LE(p + 52), ru: m.readUInt32LE(p + 52), err: m.readInt32LE(p + 56), fl: m.readInt32LE(p + 60), rl: m.readBigInt64LE(p + 64) };
        for (let i = 0; i < 7; i++) rec.a.push(m.readInt32LE(p + 4 + 4 * i));
        rec.l1 = m.readBigInt64LE(p + 40);
        let step;
        if (it === null) {
          self.iobase = rec.a[0] >>> 0; self.sp = self.iobase; self.pp = self.iobase + 131072;
          self.recp = p; self.argc = rec.a[1]; self.argv = rec.a[2] >>> 0;
          it = gen(self); w.beginOp(null); step = it.next();
        } else {
          self.hook && self.hook(rec);
          rec.fired = w.opFired || 0; w.opFired = 0;
          self.reset();
          w.note('op ' + (pend ? pend.op : '?') + ' -> ' + (w.cfg.hashArgs === false ? '' : rec.r) + ' e' + rec.err + ' f' + rec.fl + ' ' + rec.rl + ' w' + rec.who);
          w.beginOp(null);
          if (done) { step = { done: true, value: undefined }; }
          else step = it.next(rec);
        }
        if (step.done) { done = true; pend = { op: 1, a: [step.value === undefined ? 0 : step.value] }; } else pend = step.value;
        const mm = M();
        mm.writeInt32LE(pend.op, p);
        const a = pend.a || [];
        for (let i = 0; i < 7; i++) mm.writeInt32LE((a[i] || 0) | 0, p + 4 + 4 * i);
        const l = pend.l || [];
        for (let i = 0; i < 2; i++) mm.writeBigInt64LE(BigInt.asIntN(64, BigInt(l[i] || 0)), p + 32 + 8 * i);
        w.beginOp(pend.f); w.opFired = 0;
        return 0;
      };
    });
    this.inst = g.inst;
    let end;
    try { g.inst.exports._start(); end = { end: 'return', code: 0 }; } catch (e) { end = classify(e); }
    w.note('END ' + JSON.stringify(end));
    end.pages = g.inst.exports.memory.buffer.byteLength >>> 16;
    end.lastOp = pend; end.done = done; end.started = it !== null;
    if (it && it.return) it.return();
    return end;
  }
}

// set the maximum of the (single) memory in a wasm binary; returns a new Buffer
function limitMemory(bin, maxPages) {
  let p = 8; const out = [bin.subarray(0, 8)];
  const leb = () => { let r = 0, s = 0, b; do { b = bin[p++]; r |= (b & 127) << s; s += 7; } while (b & 128); return r >>> 0; };
  const enc = (v) => { const r = []; do { let b = v & 127; v >>>= 7; if (v) b |= 128; r.push(b); } while (v); return Buffer.from(r); };
  let min = 0;
  while (p < bin.length) {
    const st = p; const id = bin[p++]; const len = leb(); const body = p;
    if (id === 5) {
      const n = leb(); const fl = bin[p++]; min = leb(); if (fl & 1) leb();
      const max = Math.max(min, typeof maxPages === 'function' ? maxPages(min) : maxPages);
      const nb = Buffer.concat([enc(n), Buffer.from([1]), enc(min), enc(max)]);
      out.push(Buffer.from([5]), enc(nb.length), nb);
      p = body + len;
    } else { p = body + len; out.push(bin.subarray(st, p)); }
  }
  return { bin: Buffer.concat(out), min };
}
module.exports = { World, Guest, runProgram, instantiate, imports, limitMemory, ExitSignal, StopSignal, R, ALL, FILE_ALL, TTY_RIGHTS, E, FT, FS, Err };
