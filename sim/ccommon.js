'use strict';
// Shared by the checks that run the native compiler in the simulator.
const L = require('./nload');
const diagnosed = (r) => r.stderr.toString('latin1').split('\n').some((l) => l !== '' && !l.startsWith('# '));
const cmd = (wl) => ['wcpl', ...wl.args].join(' ').slice(0, 300);
// everything a user can see of the result apart from standard error
function same(a, b, wl) {
  if (!L.eq(a.stdout, b.stdout) || a.files.size !== b.files.size) return false;
  for (const [p, d] of a.files) { const e = b.files.get(p); if (!Buffer.isBuffer(d) || !Buffer.isBuffer(e)) { if (d !== e) return false; } else if (!L.eq(d, e)) return false; }
  return true;
}
function block(B, wl) { if (wl.blocked) B.dir('/w/' + wl.blocked); }
function h32(s, h) { for (let i = 0; i < s.length; i++) h = Math.imul(h ^ s.charCodeAt(i), 0x01000193) >>> 0; return h; }
function stat() {
  let n = 0, ev = 0, h = 0x811c9dc5, ns = 0; const faults = {}, probes = {}, states = []; let trace = [];
  const o = {
    add(r) { n++; ev += (r.cnt.event || 0) + (r.cnt.alloc || 0); h = h32(r.th + r.end + r.code + r.stdout.length + '/' + r.stderr.length, h); states.push(r.th); if (trace.length < 300) trace.push(r.end + ' ' + r.code + ' ' + (r.log || '-') + ' events ' + (r.cnt.event || 0) + ' allocs ' + (r.cnt.alloc || 0) + ' hash ' + r.th); },
    faults(r) { for (const x of (r.log || '').split('; ')) { const m = /^(\w+)/.exec(x); if (m) { const k = m[1] + (/ kill/.test(x) ? '-kill' : / sticky/.test(x) ? '-sticky' : ''); faults[k] = (faults[k] || 0) + 1; } } },
    fault(k, c) { faults[k] = (faults[k] || 0) + (c || 1); },
    probe(k, c) { probes[k] = (probes[k] || 0) + (c === undefined ? 1 : c); },
    mix(s) { h = h32(String(s), h); },
    note(s) { if (trace.length < 300) trace.push(s); },
    done(plan, violation, nontrivial) {
      probes['kind-' + (plan.wl && plan.wl.kind)] = 1;
      return { violation, hash: ('0000000' + h.toString(16)).slice(-8), trace, stats: { faults, probes, calls: ev, simns: ns, ops: n, sig: JSON.stringify(plan), nontrivial: nontrivial === undefined ? Object.keys(faults).length > 0 : nontrivial, states } };
    },
    sim(d) { ns += d; },
  };
  return o;
}
// smaller workloads: fewer options, fewer source lines
function* simplify(p) {
  const wl = p.wl; if (!wl) return;
  const w = (x) => ({ ...p, wl: { ...wl, ...x } });
  for (const o of ['-w', '-q', '-v']) { const i = wl.args.indexOf(o); if (i >= 0) yield w({ args: wl.args.filter((_, k) => k !== i) }); }
  for (const o of ['-O', '-a', '-s']) { const i = wl.args.indexOf(o); if (i >= 0) yield w({ args: wl.args.filter((_, k) => k !== i && k !== i + 1) }); }
  const names = Object.keys(wl.files || {});
  for (const f of names) {
    const ls = wl.files[f].split('\n'); const cut = (a, b) => w({ files: { ...wl.files, [f]: ls.slice(0, a).concat(ls.slice(b)).join('\n') } });
    for (let k = ls.length >> 1; k >= 1; k >>= 1) { if (ls.length / k > 40) break; for (let i = 0; i + k <= ls.length; i += k) yield cut(i, i + k); }
  }
}
module.exports = { diagnosed, cmd, same, block, stat, simplify };
