'use strict';
const { Batch } = require('../nsim');
const L = require('../nload');
const cc = require('../ccommon');
const SR = require('../selfrun');
const { bad, host } = require('../common');
const TZ = ['TZ=EST5EDT', 'TZ=XYZ-13:45', 'TZ=UTC-14', 'TZ=AAA+11', 'TZ=Pacific/Kiritimati', 'TZ=America/New_York', 'TZ=CET-1CEST', 'TZ=', 'TZ=junk', 'LC_ALL=de_DE.UTF-8', 'LC_TIME=tr_TR', 'SOURCE_DATE_EPOCH=0'];
const MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'];
// the calendar, written out: days since 1970-01-01 to year, month, day
function civil(sec) {
  let days = Math.floor(sec / 86400), rest = sec - days * 86400, y = 1970; const leap = (k) => (k % 4 === 0 && k % 100 !== 0) || k % 400 === 0;
  const c = Math.floor(days / 146097); y += 400 * c; days -= 146097 * c; while (days >= (leap(y) ? 366 : 365)) { days -= leap(y) ? 366 : 365; y++; }
  let m = 0; const len = [31, leap(y) ? 29 : 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]; while (days >= len[m]) days -= len[m++];
  const p2 = (n) => ('0' + n).slice(-2); const d = days + 1;
  return { date: [MON[m] + ' ' + p2(d) + ' ' + ('000' + y).slice(-4), MON[m] + ' ' + (' ' + d).slice(-2) + ' ' + ('000' + y).slice(-4)], time: p2(Math.floor(rest / 3600)) + ':' + p2(Math.floor(rest / 60) % 60) + ':' + p2(rest % 60) };
}
function moment(rng, max) {
  const day = rng.weighted([[4, () => rng.int(Math.floor(max / 86400))], [1, () => 0], [1, () => Math.floor(max / 86400) - 1], [2, () => { const y = rng.range(1970, max > 2e10 ? 9999 : 2550); return Math.floor(Date.UTC(y, rng.pick([0, 1, 1, 2, 11]), rng.pick([1, 28, 29, 31])) / 86400000); }], [1, () => 24855], [1, () => 49710]])();
  return Math.min(max, day * 86400 + rng.pick([0, 86399, 86398, 43200, 3599, rng.int(86400), rng.int(86400)]));
}
// forms of use; `%` stands for the macro. Each gives declarations outside functions, statements inside main or the module's function.
const FORMS = [
  (m, n) => ['', 'printf("<%s>\\n", ' + m + ');'], (m, n) => ['', 'puts("<" ' + m + ' ">");'], (m, n) => ['static const char *s' + n + ' = ' + m + ';\n', 'printf("<%s>\\n", s' + n + ');'],
  (m, n) => ['char a' + n + '[] = ' + m + ';\n', 'printf("<%s>\\n", a' + n + ');'], (m, n) => ['static char b' + n + '[20] = ' + m + ';\n', 'printf("<%s>\\n", b' + n + ');'], (m, n) => ['static const char *p' + n + '[2] = { "x", "<" ' + m + ' ">" };\n', 'puts(p' + n + '[1]);'],
  (m, n) => ['', '{ const char *l = ' + m + '; printf("<%s>\\n", l); }'], (m, n) => ['', '{ char c[20]; strcpy(c, ' + m + '); printf("<%s>\\n", c); }'], (m, n) => ['#define M' + n + ' ' + m + '\n', 'printf("<%s>\\n", M' + n + ');'], (m, n) => ['#define N' + n + ' ("<" ' + m + ' ">")\n', 'puts(N' + n + ');'],
  (m, n) => ['static char *f' + n + '(void) { return ' + m + '; }\n', 'printf("<%s>\\n", f' + n + '());'],
];
function program(rng) {
  const nm = rng.weighted([[3, 1], [3, 2], [2, 3], [1, 4]]); const files = {}, mods = []; let n = 0; const expect = [];
  const hdr = rng.chance(0.6); if (hdr) files['h.h'] = '#pragma once\n#define HD __DATE__\n#define HT __TIME__\n#define HDF() __DATE__\n';
  for (let i = nm - 1; i >= 0; i--) {
    const name = i ? 'u' + i : 'main'; let top = '#include <stdio.h>\n#include <string.h>\n' + (hdr ? '#include "h.h"\n' : ''), body = '';
    for (let j = 1; j < nm && i === 0; j++) top += 'extern void u' + j + 'f(void);\n'.replace('u' + j + 'f', 'u' + j + 'f');
    const uses = [];
    for (let k = rng.range(1, 6); k > 0; k--) { const d = rng.chance(0.5); const m = hdr && rng.chance(0.4) ? (d ? rng.pick(['HD', 'HDF()']) : 'HT') : d ? '__DATE__' : '__TIME__'; let f = rng.pick(FORMS); if (m === 'HDF()') f = FORMS[0]; const [t, b] = f(m, ++n); top += t; body += '  ' + b + '\n'; uses.push(d ? 'D' : 'T'); }
    if (i) { files[name + '.h'] = '#pragma once\nextern void ' + name + 'f(void);\n'; top += '#include "' + name + '.h"\n'; }
    files[name + '.c'] = top.replace(/extern void u\df\(void\);\n/g, (s) => '#include "' + /u\d/.exec(s)[0] + '.h"\n') + (i ? 'void ' + name + 'f(void)\n{\n' + body + '}\n' : 'int main(void)\n{\n' + body + Array.from({ length: nm - 1 }, (_, j) => '  u' + (j + 1) + 'f();\n').join('') + '  return 0;\n}\n');
    mods.unshift(name); expect.unshift(uses);
  }
  return { files, mods, expect };
}
module.exports = {
  id: 'B06', builds: ['base', 'native', 'self'], runs: { quick: 1200, thorough: 60000 }, wall: { quick: 70, thorough: 800 }, minMs: 30000, hangMs: 120000,
  rule: 'A run takes a program of one to four modules which uses __DATE__ and __TIME__ in initializers, arrays, expressions, concatenations, functions and header macros, and builds it two to five times, natively and by the self-hosted compiler, in one invocation or as separate objects, at clocks from 1970 to 9999 (native) or 2554 (self-hosted, the range of the WASI clock) that stand still, step, run or jump, under various TZ and locale settings; the linked program is executed and every place in one source must show one and the same UTC second of its own build, written as the C standard says. Non-trivial: the clock moves during the build or the environment names a time zone. Distinct by plan.',
  real: ['c.c', 'l.c', 'p.c', 'w.c', 'compiled by themselves with lib/src (time.c: gmtime, strftime)', 'generated programs executed by V8'], stub: ['native host with a simulated clock; WASI host with a simulated clock; gmtime and strftime of the native C library are real'],
  gen(rng) {
    const pr = program(rng); const wl = { kind: 'date', files: pr.files, real: {}, env: [], inputs: [], mods: pr.mods, expect: pr.expect };
    const cases = [];
    for (let i = rng.range(2, 5); i > 0; i--) {
      const self = rng.chance(0.4); const one = () => ({ clock: moment(rng, self ? 18446000000 : 253400000000), step: rng.pick([0, 0, 0, 1, 3600, 86400, -1, -100000]), nsec: rng.pick([0, 999999999, rng.int(1000000000)]), env: rng.chance(0.6) ? [rng.pick(TZ)] : [] });
      const c = { self, sep: rng.chance(0.3), ext: rng.pick(['.wasm', '.wasm', '.wat']), at: [] }; for (let k = 0; k < (c.sep ? pr.mods.length : 1); k++) c.at.push(one());
      if (self) { c.layout = rng.pick(Object.keys(SR.LAYOUTS)); for (const a of c.at) { a.tick = rng.pick(['0', '1000', '1000000000', '60000000000', '1000000']); a.step = rng.pick([0, 0, 86400, -86400, 1, -3]); if (a.step < 0) a.clock = Math.max(a.clock, 100000); } }
      cases.push(c);
    }
    return { wl, cases };
  },
  lists: ['cases'],
  *simplify(p) { for (let i = 0; i < p.cases.length; i++) { const c = p.cases[i]; for (const [k, v] of [['step', 0], ['nsec', 0], ['tick', '0'], ['env', []]]) if (c.at.some((a) => a[k] !== undefined && JSON.stringify(a[k]) !== JSON.stringify(v))) yield { ...p, cases: p.cases.map((x, j) => j === i ? { ...x, at: x.at.map((a) => a[k] === undefined ? a : { ...a, [k]: v }) } : x) }; } },
  run(plan, ctx) {
    const wl = plan.wl; const S = cc.stat(); let violation = null; let moved = 0;
    const pre = ['-q', '-L', '/lib/'];
    // every second the clock showed during one build
    const natw = (r, a) => { const s = []; for (let k = 0; k <= Math.max(0, (r.cnt.time || 1) - 1); k++) s.push(a.clock + k * a.step); return (f) => s.some(f); };
    const selfw = (r, a) => { const base = BigInt(a.clock) * 1000000000n + BigInt(a.nsec); const lo = Number(base / 1000000000n), t = BigInt(a.tick) * BigInt(r.w.nsys + 8); const hi = Number((base + t) / 1000000000n); return (f) => { const seen = new Set(); for (const b of [0, a.step]) for (let s = lo + b, n = 0; s <= hi + b && n < 20000; s++, n++) { if (!seen.has(s)) { seen.add(s); if (f(s)) return true; } } return false; }; };
    const compile = (c, a, args, wl2) => {
      const w2 = { ...wl2, args, env: a.env, inputs: [], out: null };
      if (a.env.length) S.fault('environment'); if (a.step || (a.tick && a.tick !== '0')) { S.fault('clock-moves'); moved++; } moved += a.env.length;
      if (c.self) {
        const r = SR.run(ctx, w2, { layout: c.layout, env: [], clock: a.clock, nsec: a.nsec, tick: a.tick, maxsys: 3000000, faults: a.step ? [{ sc: 'clock_time_get', n: 1, kind: 'jump', by: String(BigInt(a.step) * 1000000000n) }] : undefined });
        S.mix(r.w.digest()); S.sim(Number(r.w.rt - BigInt(a.clock) * 1000000000n)); S.probe('calls', r.w.nsys); for (const k in r.w.fired) S.fault(k, r.w.fired[k]); return { r, when: selfw(r, a) };
      }
      const B = new Batch(); L.image(B, ctx, w2); B.run(L.job(w2, { amode: 4, aseed: a.nsec, clock: a.clock, cstep: a.step }, [])); const r = B.exec(ctx.dir)[0]; S.add(r); return { r, when: natw(r, a) };
    };
    try {
      for (const c of plan.cases) {
        const what = JSON.stringify(c); const whens = []; let bin; S.probe(c.self ? 'self-hosted' : 'native'); S.probe(c.sep ? 'separate' : 'together');
        const okrun = (r) => { if (r.end !== 'exit' || r.code !== 0) bad('refused', 'the build fails: ' + r.end + ' ' + r.code + ' ' + r.stderr.toString('latin1').slice(0, 200) + ' (' + what + ')'); return r; };
        let link = null, files2 = wl.files;
        if (c.sep) {
          const objs = {}; wl.mods.forEach((m, k) => { const x = compile(c, c.at[k], [...pre, '-c', '-o', m + '.wo', m + '.c'], wl); okrun(x.r); objs[m + '.wo'] = x.r.files.get('/w/' + m + '.wo').toString('latin1'); whens.push(x.when); });
          files2 = objs; link = wl.mods.map((m) => m + '.wo');
        } else link = wl.mods.map((m) => m + '.c');
        const x = compile(c, c.at[0], [...pre, '-o', 'prog' + c.ext, ...link], { ...wl, files: files2 }); okrun(x.r); if (!c.sep) for (const m of wl.mods) whens.push(x.when);
        bin = x.r.files.get('/w/prog' + c.ext);
        if (c.ext === '.wat') { const w = bin.toString('latin1'); const strs = [...w.matchAll(/\b([A-Z][a-z]{2} [ \d]\d \d{4}|\d\d:\d\d:\d\d)(?=\\00|>)/g)].map((q) => q[1]); if (!c.sep) check(strs, whens[0], what); continue; }
        let mod; try { mod = new WebAssembly.Module(bin); } catch (e) { bad('invalid-module', 'the linked program is not a valid module: ' + e.message + ' (' + what + ')'); }
        const w = new host.World({ args: ['prog'], env: [] }); const end = host.runProgram(mod, w); S.mix(w.digest());
        const lines = w.sinkBytes(1).toString('latin1').split('\n'); lines.pop(); const need = wl.expect.reduce((s, u) => s + u.length, 0);
        if ((end.end !== 'exit' && end.end !== 'return') || lines.length !== need) bad('program', 'the program ends by ' + end.end + ' having written ' + lines.length + ' lines of ' + need + ' (' + what + ')');
        let i = 0; const at = new Map();
        wl.expect.forEach((u, k) => { for (const t of u) { const l = lines[i++]; const m = /^<(.*)>$/.exec(l); if (!m) bad('value', 'a place shows ' + JSON.stringify(l) + ' (' + what + ')'); const key = k; if (!at.has(key)) at.set(key, { D: new Set(), T: new Set() }); at.get(key)[t].add(m[1]); } });
        for (const [k, v] of at) check2(v, whens[k], what);
      }
    } catch (e) { if (e.cls === undefined) throw e; violation = { cls: e.cls, msg: e.message, key: e.key }; }
    return S.done(plan, violation, moved > 0);
  },
};
// a listing does not tell which source a string comes from: each must be a moment of the build
function check(strs, when, what) { for (const s of strs) { const v = { D: new Set(), T: new Set() }; v[/:/.test(s) ? 'T' : 'D'].add(s); check2(v, when, what); } }
function check2(v, when, what) {
  for (const t of 'DT') if (v[t].size > 1) bad('differs', (t === 'D' ? '__DATE__' : '__TIME__') + ' has several values in one source: ' + [...v[t]].join(', ') + ' (' + what + ')');
  const d = [...v.D][0], t = [...v.T][0];
  if (!when((s) => { const c = civil(s); return (d === undefined || c.date.includes(d)) && (t === undefined || c.time === t); })) bad('wrong-moment', 'the build shows ' + (d || '') + ' ' + (t || '') + ', which is not when it ran: ' + ' (' + what + ')');
}
