'use strict';
// Drives the native simulator (sim/native/simcc.c): batches of compiler runs against one file system image.
const cp = require('child_process'), path = require('path');
class Batch {
  constructor() { this.parts = []; this.n = 0; this.real = false; }
  raw(tag, ...items) { this.parts.push(Buffer.from(tag, 'latin1')); for (const s of items) { const b = Buffer.isBuffer(s) ? s : Buffer.from(String(s), 'latin1'); const l = Buffer.alloc(4); l.writeUInt32LE(b.length); this.parts.push(l, b); } return this; }
  file(p, data) { return this.raw('F', p, data); }
  link(p, real) { return this.raw('L', p, real); }
  dir(p) { return this.raw('D', p); }
  mode(p, m) { return this.raw('P', p, m); }
  clear() { return this.raw('C'); }
  reset() { return this.raw('Z'); }
  run(r) {
    const o = { aseed: 1, amode: 4, ioseed: 1, rchunk: 0, sbuf: 0, clock: 1700000000, cstep: 0, fdmax: 0, qs: 0, keep: 0, evmax: 30000000, allocmax: 100000000, heapcap: 0, trace: 0, ...(r.opt || {}) };
    this.raw('R');
    for (const a of r.args) this.raw('A', a);
    for (const e of r.env || []) this.raw('E', e);
    if (r.stdin !== undefined) this.raw('I', r.stdin);
    this.raw('O', Object.entries(o).map(([k, v]) => k + '=' + v).join(' '));
    for (const f of r.faults || []) this.raw('X', [f.cls, f.n || 0, f.err || 5, f.sticky ? 1 : 0, f.part === undefined ? 0 : f.part, f.kill ? 1 : 0].join(' ') + ' ' + (f.path || ''));
    this.raw('G'); this.n++; return this;
  }
  exec(dir, asan) {
    const r = cp.spawnSync(path.join(dir, asan ? 'simcc-asan' : 'simcc-plain'), [], { input: Buffer.concat(this.parts), maxBuffer: 1 << 30, cwd: '/', timeout: 300000, env: { ASAN_OPTIONS: 'detect_leaks=0:allocator_may_return_null=1:exitcode=66', PATH: '/nonexistent' } });
    if (r.status !== 0) throw new Error('simcc failed: status ' + r.status + ' signal ' + r.signal + ' ' + (r.error || '') + ' ' + String(r.stderr).slice(0, 2000));
    const out = r.stdout; let p = 0; const res = [];
    const u32 = () => { const v = out.readUInt32LE(p); p += 4; return v; };
    const blob = () => { const n = u32(); const b = out.subarray(p, p + n); p += n; return b; };
    while (p < out.length) {
      const j = JSON.parse(blob().toString('latin1')); const nb = u32(); const bl = []; for (let i = 0; i < nb; i++) bl.push(blob());
      j.stdout = bl[0] || Buffer.alloc(0); j.stderr = bl[1] || Buffer.alloc(0); j.trace = (bl[2] || '').toString('latin1'); j.files = new Map();
      j.changed.forEach((c, i) => j.files.set(c.path, c.kind === 1 ? Buffer.from(bl[3 + i]) : c.kind === 0 ? null : 'dir'));
      if (j.end === 'crash') j.asan = String(r.stderr).slice(0, 3000);
      res.push(j);
    }
    if (res.length !== this.n) throw new Error('simcc gave ' + res.length + ' results for ' + this.n + ' runs');
    return res;
  }
}
module.exports = { Batch };
