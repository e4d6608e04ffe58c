'use strict';
// In-memory POSIX-like file system core. Used twice: behind the simulated WASI host, and
// (a second instance, driven at the POSIX level) as the reference model.
const E = { SUCCESS: 0, ACCES: 2, AGAIN: 6, BADF: 8, BUSY: 10, DQUOT: 19, EXIST: 20, FAULT: 21, FBIG: 22, ILSEQ: 25, INTR: 27, INVAL: 28, IO: 29,
  ISDIR: 31, LOOP: 32, MFILE: 33, MLINK: 34, NAMETOOLONG: 37, NFILE: 41, NODEV: 43, NOENT: 44, NOMEM: 48, NOSPC: 51, NOSYS: 52, NOTDIR: 54,
  NOTEMPTY: 55, NOTSUP: 58, NOTTY: 59, NXIO: 60, OVERFLOW: 61, PERM: 63, PIPE: 64, ROFS: 69, SPIPE: 70, STALE: 72, TIMEDOUT: 73, TXTBSY: 74, XDEV: 75, NOTCAPABLE: 76 };
const FT = { unknown: 0, blk: 1, chr: 2, dir: 3, file: 4, dgram: 5, stream: 6, symlink: 7 };

class Err { constructor(e) { this.e = e; } }
function fail(e) { throw new Err(e); }

class FS {
  constructor(now) {
    this.nodes = new Map(); this.nextIno = 100; this.now = now || (() => 0n);
    this.quota = Infinity; this.used = 0;
    this.root = this.mk('dir'); this.root.parent = this.root; this.root.nlink = 2;
  }
  mk(type) {
    const t = this.now();
    const n = { ino: this.nextIno++, type, nlink: 0, atim: t, mtim: t, ctim: t };
    if (type === 'file') { n.data = Buffer.alloc(0); n.size = 0; }
    if (type === 'dir') { n.entries = new Map(); n.nlink = 2; }
    this.nodes.set(n.ino, n);
    return n;
  }
  // resolves path below base; returns {dir, name, node|null, slash}
  resolve(base, path, follow, depth = 0, cnt = { n: 0 }) {
    if (path.length === 0) fail(E.NOENT);
    if (path[0] === '/') fail(E.NOTCAPABLE);
    const slash = path.endsWith('/');
    const comps = path.split('/').filter((c) => c !== '');
    return this._walk([base], comps, follow || slash, slash, cnt);
  }
  _walk(stack, comps, follow, slash, cnt) {
    stack = stack.slice();
    comps = comps.slice();
    while (comps.length) {
      const c = comps.shift(), last = comps.length === 0;
      const dir = stack[stack.length - 1];
      if (dir.type !== 'dir') fail(E.NOTDIR);
      if (Buffer.byteLength(c) > 255) fail(E.NAMETOOLONG);
      if (c === '.') { if (last) return { dir: stack.length > 1 ? stack[stack.length - 2] : null, name: '.', node: dir, slash, stack }; continue; }
      if (c === '..') {
        if (stack.length === 1) fail(E.NOTCAPABLE);
        stack.pop();
        if (last) return { dir: null, name: '..', node: stack[stack.length - 1], slash, stack };
        continue;
      }
      const node = dir.entries.get(c) || null;
      if (node === null) { if (last) return { dir, name: c, node: null, slash, stack }; fail(E.NOENT); }
      if (node.type === 'symlink' && (!last || follow)) {
        if (++cnt.n > 32) fail(E.LOOP);
        if (node.target[0] === '/') fail(E.NOTCAPABLE);
        const t = node.target.split('/').filter((x) => x !== '');
        if (node.target.endsWith('/') && last) slash = true;
        if (node.target.length === 0) fail(E.NOENT);
        comps = t.concat(comps);
        if (comps.length === 0) return { dir: null, name: '.', node: dir, slash, stack };
        continue;
      }
      if (last) return { dir, name: c, node, slash, stack };
      if (node.type !== 'dir') fail(E.NOTDIR);
      stack.push(node);
    }
    const n = stack[stack.length - 1];
    return { dir: null, name: '.', node: n, slash, stack };
  }
  touch(n, m) { const t = this.now(); if (m) n.mtim = t; n.ctim = t; }
  // open: returns node
  open(base, path, o) { // o: {creat, excl, trunc, directory, follow, read, write}
    const r = this.resolve(base, path, o.follow && !(o.creat && o.excl));
    let n = r.node;
    if (n === null) {
      if (!o.creat) fail(E.NOENT);
      if (o.directory) fail(E.INVAL);
      if (r.slash) fail(E.ISDIR);
      n = this.mk('file'); n.nlink = 1; r.dir.entries.set(r.name, n); this.touch(r.dir, true);
      return n;
    }
    if (o.creat && o.directory) fail(E.INVAL);
    if (o.creat && o.excl) fail(E.EXIST);
    if (n.type === 'symlink') fail(E.LOOP);
    if (o.directory || r.slash) { if (n.type !== 'dir') fail(E.NOTDIR); }
    if (n.type === 'dir' && (o.write || o.creat || o.trunc)) fail(E.ISDIR);
    if (o.trunc && n.type === 'file') { if (n.size) this.setSize(n, 0); this.touch(n, true); }
    return n;
  }
  setSize(n, size) {
    if (size > n.size) { this.reserve(n, size); n.data.fill(0, n.size, size); }
    this.used += size - n.size;
    n.size = size; this.touch(n, true);
  }
  reserve(n, cap) {
    if (n.data.length < cap) { const b = Buffer.alloc(Math.max(cap, n.data.length * 2, 256)); n.data.copy(b, 0, 0, n.size); n.data = b; }
  }
  pwrite(n, pos, buf) {
    const end = pos + buf.length;
    if (buf.length === 0) return 0;
    if (end > n.size) {
      this.reserve(n, end);
      if (pos > n.size) n.data.fill(0, n.size, pos);
      this.used += end - n.size; n.size = end;
    }
    buf.copy(n.data, pos); this.touch(n, true);
    return buf.length;
  }
  pread(n, pos, len) {
    if (pos >= n.size) return Buffer.alloc(0);
    n.atim = this.now();
    return Buffer.from(n.data.subarray(pos, Math.min(n.size, pos + len)));
  }
  bytes(n) { return Buffer.from(n.data.subarray(0, n.size)); }
  mkdir(base, path) {
    const r = this.resolve(base, path.replace(/\/+$/, '') || path, false);
    if (r.node !== null || r.name === '.' || r.name === '..') fail(E.EXIST);
    const d = this.mk('dir'); d.parent = r.dir; r.dir.entries.set(r.name, d); r.dir.nlink++; this.touch(r.dir, true);
    return d;
  }
  rmdir(base, path) {
    const r = this.resolve(base, path.replace(/\/+$/, '') || path, false);
    if (r.name === '.') fail(E.INVAL);
    if (r.name === '..') fail(E.NOTEMPTY);
    if (r.node === null) fail(E.NOENT);
    if (r.node.type !== 'dir') fail(E.NOTDIR);
    if (r.node.entries.size) fail(E.NOTEMPTY);
    r.dir.entries.delete(r.name); r.dir.nlink--; r.node.nlink = 0; this.touch(r.dir, true);
  }
  unlink(base, path) {
    const r = this.resolve(base, path, false);
    if (r.node === null) fail(E.NOENT);
    if (r.node.type === 'dir') fail(E.ISDIR);
    if (r.slash) fail(E.NOTDIR);
    r.dir.entries.delete(r.name); r.node.nlink--; this.touch(r.dir, true); this.touch(r.node, false);
  }
  symlink(target, base, path) {
    if (target.length === 0) fail(E.NOENT);
    const r = this.resolve(base, path, false);
    if (r.node !== null) fail(E.EXIST);
    if (r.slash) fail(E.NOENT);
    const n = this.mk('symlink'); n.target = target; n.nlink = 1; r.dir.entries.set(r.name, n); this.touch(r.dir, true);
    return n;
  }
  readlink(base, path) {
    const r = this.resolve(base, path, false);
    if (r.node === null) fail(E.NOENT);
    if (r.node.type !== 'symlink') fail(E.INVAL);
    return Buffer.from(r.node.target);
  }
  link(obase, opath, follow, nbase, npath) {
    const o = this.resolve(obase, opath, follow);
    if (o.node === null) fail(E.NOENT);
    const n = this.resolve(nbase, npath, false);
    if (o.node.type === 'dir') fail(E.PERM);
    if (n.node !== null) fail(E.EXIST);
    if (n.slash) fail(E.NOENT);
    n.dir.entries.set(n.name, o.node); o.node.nlink++; this.touch(n.dir, true); this.touch(o.node, false);
  }
  rename(obase, opath, nbase, npath) {
    const o = this.resolve(obase, opath.replace(/\/+$/, '') || opath, false);
    const n = this.resolve(nbase, npath.replace(/\/+$/, '') || npath, false);
    if (o.name === '.' || o.name === '..' || n.name === '.' || n.name === '..') fail(E.BUSY);
    if (o.node === null) fail(E.NOENT);
    if ((opath.endsWith('/') || npath.endsWith('/')) && o.node.type !== 'dir') fail(E.NOTDIR);
    if (n.node === o.node) return;
    if (o.node.type === 'dir') {
      for (const s of n.stack) if (s === o.node) fail(E.INVAL);
      if (n.node !== null) {
        if (n.node.type !== 'dir') fail(E.NOTDIR);
        if (n.node.entries.size) fail(E.NOTEMPTY);
      }
    } else if (n.node !== null && n.node.type === 'dir') fail(E.ISDIR);
    if (n.node !== null) {
      if (n.node.type === 'dir') { n.dir.nlink--; n.node.nlink = 0; } else n.node.nlink--;
      n.dir.entries.delete(n.name);
    }
    o.dir.entries.delete(o.name);
    n.dir.entries.set(n.name, o.node);
    if (o.node.type === 'dir') { o.dir.nlink--; n.dir.nlink++; o.node.parent = n.dir; }
    this.touch(o.dir, true); this.touch(n.dir, true); this.touch(o.node, false);
  }
  stat(base, path, follow) {
    const r = this.resolve(base, path, follow);
    if (r.node === null) fail(E.NOENT);
    if (r.slash && r.node.type !== 'dir') fail(E.NOTDIR);
    return r.node;
  }
  // canonical text of a tree, for comparing two instances
  dump(node = this.root, prefix = '', out = [], ids = new Map()) {
    const names = [...node.entries.keys()].sort();
    for (const k of names) {
      const c = node.entries.get(k);
      if (c.type === 'file' && !ids.has(c)) ids.set(c, prefix + k);
      out.push(prefix + k + ' ' + c.type + (c.type === 'file' ? ' n' + c.nlink + ' =' + ids.get(c) + ' ' + this.bytes(c).toString('latin1') : c.type === 'symlink' ? ' ' + c.target : ''));
      if (c.type === 'dir') this.dump(c, prefix + k + '/', out, ids);
    }
    return out;
  }
  mkpath(p, type, data) { // test set-up helper
    const cs = p.split('/').filter((x) => x); let d = this.root;
    for (let i = 0; i < cs.length; i++) {
      const last = i === cs.length - 1;
      let n = d.entries.get(cs[i]);
      if (!n) {
        if (!last || type === 'dir') { n = this.mk('dir'); n.parent = d; d.nlink++; }
        else if (type === 'symlink') { n = this.mk('symlink'); n.target = data; n.nlink = 1; }
        else { n = this.mk('file'); n.nlink = 1; if (data) { n.data = Buffer.from(data, 'latin1'); n.size = n.data.length; } }
        d.entries.set(cs[i], n);
      }
      d = n;
    }
    return d;
  }
}
module.exports = { FS, E, FT, Err };
