'use strict';
const { S: SNIP } = require('./csnip');
const SK = Object.keys(SNIP), NEEDLIB = new Set(['libm', 'alloca']);
// Generates small multi-module programs in the dialect wcpl accepts.
const STR = ['', 'a', 'hello', 'tab\\tq', 'nl\\n', 'q\\"q', 'b\\\\s', '\\x01\\x02', '\\377\\200', 'zero\\000mid', 'caf\\303\\251', '%d %s', 'long ' + 'xyz '.repeat(30), '(;', ';)', '$m0:f', '??/', '\\001end'];
const T = { int: ['int', 'unsigned', 'short', 'unsigned char', 'char', 'long', 'long long', 'unsigned long long', 'unsigned short'], flt: ['double', 'float'] };
function gen(rng, o = {}) {
  const nmod = o.mods !== undefined ? o.mods : rng.weighted([[2, 1], [3, 2], [3, 3], [1, 5]]);
  const lib = o.lib !== undefined ? o.lib : rng.chance(0.6);
  const mods = [];
  const pfx = rng.pick(['m', 'mod', 'a_b', 'Z', 'k_']);
  for (let i = 0; i < nmod; i++) mods.push({ name: pfx + i, id: 'm' + i, funs: [], vars: [], arrs: [], strs: [], structs: [], src: '', hdr: '' });
  const num = (t) => {
    if (T.flt.includes(t)) return rng.pick(['0.5', '-1.25', '3.0', '1e10', '-0.0', '2.5e-3', '100.0']) + (t === 'float' ? 'f' : '');
    if (t === 'char') return rng.pick(["'a'", "'\\n'", '7', "'\\''"]);
    if (/unsigned char/.test(t)) return String(rng.int(256));
    if (/short/.test(t)) return String(rng.int(30000));
    if (/unsigned long long/.test(t)) return rng.pick(['18446744073709551615ULL', '0ULL', '12345678901234ULL']);
    if (/long long/.test(t)) return rng.pick(['-9223372036854775807LL', '1LL', '0x123456789abcdefLL', '-5LL']);
    if (/unsigned/.test(t)) return rng.pick(['0U', '4294967295U', '17U']);
    if (/long/.test(t)) return rng.pick(['-1L', '2147483647L', '99L']);
    return rng.pick(['0', '1', '-1', '2147483647', '-2147483647', '42', '0x7f', '0123', String(rng.int(100000))]);
  };
  // expression of type int over visible names
  const iexpr = (env, d) => {
    if (d <= 0 || rng.chance(0.25)) {
      const c = [];
      c.push(() => rng.pick(env.loc.length ? env.loc : ['3'])); c.push(() => String(rng.int(200)));
      if (env.gv.length) c.push(() => { const v = rng.pick(env.gv); return T.flt.includes(v.t) ? '(int)(' + v.n + ' * ' + (v.t === 'float' ? '0.5f' : '0.5') + ')' : '(int)' + v.n; });
      if (env.ga.length) c.push(() => { const v = rng.pick(env.ga); const s = v.n + '[' + (env.loc.length && rng.chance(0.4) ? '(' + env.loc[0] + ' & 0x7fff) % ' + v.k : rng.int(v.k)) + ']'; return T.flt.includes(v.t) ? '(int)(' + s + ')' : '(int)' + s; });
      if (env.gs.length) c.push(() => { const v = rng.pick(env.gs); return '(int)' + v.n + '[' + rng.int(v.k) + '][0]'; });
      if (env.st.length) c.push(() => { const v = rng.pick(env.st); return rng.pick([v.n + '.i', '(int)' + v.n + '.c', '(int)' + v.n + '.a[' + rng.int(3) + ']', '(int)sizeof(' + v.n + ')']); });
      return rng.pick(c)();
    }
    switch (rng.int(13)) {
      case 0: return '(' + iexpr(env, d - 1) + ' + ' + iexpr(env, d - 1) + ')';
      case 1: return '(' + iexpr(env, d - 1) + ' - ' + iexpr(env, d - 1) + ')';
      case 2: return '(' + iexpr(env, d - 1) + ' * ' + iexpr(env, d - 1) + ')';
      case 3: return '(' + iexpr(env, d - 1) + rng.pick([' & ', ' | ', ' ^ ']) + iexpr(env, d - 1) + ')';
      case 4: return '(' + iexpr(env, d - 1) + rng.pick([' << ', ' >> ']) + rng.int(31) + ')';
      case 5: return '(' + iexpr(env, d - 1) + rng.pick([' < ', ' > ', ' <= ', ' >= ', ' == ', ' != ']) + iexpr(env, d - 1) + ' ? ' + iexpr(env, d - 1) + ' : ' + iexpr(env, d - 1) + ')';
      case 6: return '(' + iexpr(env, d - 1) + rng.pick([' / ', ' % ']) + rng.range(1, 50) + ')';
      case 7: return '(~' + iexpr(env, d - 1) + ')';
      case 8: return '(' + iexpr(env, d - 1) + ' != 0 ' + rng.pick(['&&', '||']) + ' ' + iexpr(env, d - 1) + ' > 1)';
      case 9: if (env.fn.length) { const f = rng.pick(env.fn); return f.n + '(' + iexpr(env, d - 1) + ', ' + iexpr(env, d - 2) + ')'; } return '(-' + iexpr(env, d - 1) + ')';
      case 10: return '(int)((long long)' + iexpr(env, d - 1) + ' * 3LL >> 1)';
      case 11: return '(int)((double)' + iexpr(env, d - 2) + ' * 0.25)';
      default: return '(int)(unsigned char)' + iexpr(env, d - 1);
    }
  };
  const stmt = (env, d, ind) => {
    const p = ' '.repeat(ind); const L = env.wloc[0] || env.loc[0];
    switch (rng.int(9)) {
      case 0: return p + 'if (' + iexpr(env, 1) + ' > ' + rng.int(50) + ') { ' + L + ' += ' + iexpr(env, 2) + '; }' + (rng.chance(0.5) ? ' else { ' + L + ' ^= ' + rng.int(99) + '; }' : '') + '\n';
      case 1: { const v = 'i' + ind + rng.int(1000); const e2 = { ...env, loc: env.loc.concat([v]) }; return p + '{ int ' + v + '; for (' + v + ' = 0; ' + v + ' < ' + rng.range(1, 6) + '; ++' + v + ') {\n' + stmt(e2, d - 1, ind + 2) + p + '} }\n'; }
      case 2: if (d > 0) { let s = p + 'switch (' + L + ' & 7) {\n'; const n = rng.range(1, 6); const used = new Set(); for (let i = 0; i < n; i++) { const k = rng.chance(0.2) ? rng.int(5000) - 50 : rng.int(9); if (used.has(k)) continue; used.add(k); s += p + '  case ' + k + ': ' + L + ' += ' + iexpr(env, 1) + '; break;\n'; } if (rng.chance(0.6)) s += p + '  default: ' + L + ' -= 3; break;\n'; return s + p + '}\n'; } return p + L + ' += 1;\n';
      case 3: if (env.wga.length) { const v = rng.pick(env.wga); return p + v.n + '[' + rng.int(v.k) + '] = (' + v.t + ')' + iexpr(env, 1) + ';\n'; } return p + L + ' = ' + iexpr(env, 2) + ';\n';
      case 4: if (env.wgv.length) { const v = rng.pick(env.wgv); return p + v.n + ' = (' + v.t + ')' + iexpr(env, 2) + ';\n'; } return p + L + ' -= ' + iexpr(env, 1) + ';\n';
      case 5: return p + 'while (' + L + ' > 1000) ' + L + ' = ' + L + ' / 3;\n';
      case 6: return p + 'do { ' + L + ' ^= ' + rng.int(77) + '; } while (' + L + ' == 5);\n';
      case 7: if (lib && env.io) return p + 'printf("' + rng.pick(['%d\\n', 'v=%5d;', '<%x>', '%-4d|']) + '", ' + iexpr(env, 1) + ');\n'; return p + L + ' += 2;\n';
      default: return p + L + ' = ' + L + ' + ' + iexpr(env, d) + ';\n';
    }
  };
  const structs = [];
  mods.forEach((m, mi) => {
    const st = rng.chance(0.6);
    m.hdr = '/* ' + m.name + '.h */\n' + (rng.chance(0.8) ? '#pragma once\n' : '#pragma once\n');
    if (rng.chance(0.4)) m.hdr += '#define ' + m.id.toUpperCase() + '_K ' + rng.int(1000) + '\n#define ' + m.id.toUpperCase() + '_ADD(x, y) ((x) + (y) * 2)\n';
    if (rng.chance(0.4)) m.hdr += 'enum { ' + m.id + '_e0 = ' + rng.int(9) + ', ' + m.id + '_e1, ' + m.id + '_e2 = ' + (50 + rng.int(9)) + ' };\n';
    if (st) { m.stn = m.id + '_st'; m.hdr += 'typedef struct ' + m.stn + ' { int i; char c; short a[3]; double d; const char *s; ' + ((m.un = rng.chance(0.4)) ? 'union { int u; float f; } un; ' : '') + '} ' + m.stn + '_t;\n'; structs.push(m.stn + '_t'); }
    let s = '/* module ' + m.name + ' */\n';
    s += lib ? '#include <stdio.h>\n' : ''; if (lib && rng.chance(0.5)) s += '#include <string.h>\n'; if (lib && rng.chance(0.3)) s += '#include <stdlib.h>\n';
    for (let j = 0; j < nmod; j++) if (j < mi || (j === mi && rng.chance(0.7))) s += '#include "' + mods[j].name + '.h"\n';
    if (!s.includes('#include "' + m.name + '.h"')) s += '#include "' + m.name + '.h"\n';
    const own = { gv: [], ga: [], gs: [], st: [] };
    const sn = o.snip !== undefined && o.snip !== true ? o.snip.slice() : [];
    if (o.snip === undefined || o.snip === true) for (let q = rng.weighted([[3, 0], [3, 1], [3, 2], [2, 5], [1, 9]]); q > 0; q--) { const k = rng.pick(SK); if (!sn.includes(k) && (lib || !NEEDLIB.has(k))) sn.push(k); }
    const snips = sn.map((k) => { const n = m.id + '_' + k; return { n, k, stt: rng.chance(0.2), ...SNIP[k](rng, n) }; });
    const hd = [...new Set(snips.map((x) => x.head || '').filter((x) => x && !s.includes(x)))].join('');
    if (hd) s = s.replace('\n', () => '\n' + hd);
    if (snips.length && !/<std/.test(s)) s = s.replace('\n', () => '\n#include <stddef.h>\n');
    const nv = rng.int(4);
    for (let i = 0; i < nv; i++) { const t = rng.pick(rng.chance(0.2) ? T.flt : T.int); const stt = rng.chance(0.3); const n = m.id + '_v' + i; s += (stt ? 'static ' : '') + t + ' ' + n + (rng.chance(0.8) ? ' = ' + num(t) : '') + ';\n'; const v = { n, t }; own.gv.push(v); if (!stt) { m.vars.push(v); m.hdr += 'extern ' + t + ' ' + n + ';\n'; } }
    const na = rng.int(4);
    for (let i = 0; i < na; i++) {
      const t = rng.pick(rng.chance(0.2) ? T.flt : T.int); const k = rng.pick([1, 2, 3, 5, 8, 17, 40]); const n = m.id + '_a' + i; const stt = rng.chance(0.3);
      const init = rng.chance(0.7) ? ' = { ' + Array.from({ length: rng.range(1, k) }, () => num(t)).join(', ') + ' }' : '';
      s += (stt ? 'static ' : '') + t + ' ' + n + '[' + k + ']' + init + ';\n'; const v = { n, t, k }; own.ga.push(v); if (!stt) { m.arrs.push(v); m.hdr += 'extern ' + t + ' ' + n + '[' + k + '];\n'; }
    }
    if (rng.chance(0.6)) { const k = rng.range(1, 6); const n = m.id + '_s'; s += 'static const char *' + n + '[' + k + '] = { ' + Array.from({ length: k }, () => '"' + rng.pick(STR) + '"').join(', ') + ' };\n'; own.gs.push({ n, k }); }
    if (rng.chance(0.5)) { const n = m.id + '_t'; s += 'char ' + n + '[] = "' + rng.pick(STR) + 'x";\n'; own.ga.push({ n, t: 'char', k: 1 }); if (own.ga[own.ga.length - 1]) own.ga[own.ga.length - 1].u = true; }
    if (st) { const n = m.id + '_o'; s += m.stn + '_t ' + n + (rng.chance(0.7) && !m.un ? ' = { ' + num('int') + ", 'c', { 1, 2, 3 }, 1.5, \"" + rng.pick(STR) + '"' + ' }' : '') + ';\n'; own.st.push({ n }); m.structs.push({ n }); m.hdr += 'extern ' + m.stn + '_t ' + n + ';\n'; }
    { // static pointers into other data
      const c = own.ga.filter((x) => !x.u);
      if (c.length && rng.chance(0.6)) { const v = rng.pick(c), n = m.id + '_p'; const k = rng.range(1, 4); s += (rng.chance(0.5) ? 'static ' : '') + v.t + ' *' + n + '[' + k + '] = { ' + Array.from({ length: k }, () => rng.pick(['&' + v.n + '[0]', 'NULL', '&' + v.n + '[0]'])).join(', ') + ' };\n'; }
    }
    const vis = { gv: own.gv.slice(), ga: own.ga.slice(), gs: own.gs, st: own.st.slice(), fn: [] };
    for (let j = 0; j < mi; j++) { vis.gv.push(...mods[j].vars); vis.ga.push(...mods[j].arrs); vis.st.push(...mods[j].structs); vis.fn.push(...mods[j].funs); }
    const nf = rng.range(1, 4);
    for (let f = 0; f < nf; f++) {
      const stt = rng.chance(0.25) && f > 0; const n = m.id + '_f' + f;
      s += (stt ? 'static ' : '') + 'int ' + n + '(int a, int b)\n{\n  int r = ' + num('int') + ';\n';
      const env = { loc: ['r', 'a', 'b'], wloc: ['r'], gv: vis.gv, ga: vis.ga, wgv: own.gv, wga: own.ga.filter((x) => !x.u && x.n.includes('_a')), gs: vis.gs, st: vis.st, fn: vis.fn, io: rng.chance(0.3) };
      if (rng.chance(0.25)) s += '  char buf[' + rng.range(4, 60) + ']; buf[0] = (char)a; buf[3] = (char)b; r += (int)buf[0] * (int)buf[3];\n';
      if (rng.chance(0.2)) s += '  { int *p = &' + (env.wga.filter((x) => x.t === 'int').length ? env.wga.filter((x) => x.t === 'int')[0].n + '[0]' : 'XX') + '; r += p[0]; }\n'.replace('XX', 'XX');
      for (let q = rng.range(1, 4); q > 0; q--) s += stmt(env, 2, 2);
      s += '  return r;\n}\n';
      s = s.replace(/ {2}\{ int \*p = &XX; r \+= p\[0\]; \}\n/, '');
      vis.fn.push({ n }); if (!stt) { m.funs.push({ n }); m.hdr += 'extern int ' + n + '(int a, int b);\n'; }
    }
    for (const x of snips) { s += x.stt ? x.body.replace(new RegExp('^int ' + x.n + '\\(', 'm'), (y) => 'static ' + y) : x.body; vis.fn.push({ n: x.n }); if (!x.stt) { m.funs.push({ n: x.n }); m.hdr += 'extern int ' + x.n + '(int a, int b);\n'; } }
    if (rng.chance(0.5)) { // table of functions
      const n = m.id + '_ft'; const fs = Array.from({ length: rng.range(1, 4) }, () => rng.pick(vis.fn).n);
      const st2 = rng.chance(0.5) ? 'static ' : '';
      s += st2 + 'int (*' + n + '[' + fs.length + '])(int, int);\n' + (rng.chance(0.5) ? 'typedef int (*' + m.id + '_fp)(int, int);\n' : '');
      s += 'int ' + m.id + '_call(int a, int b)\n{\n  int i, r = 0;\n' + fs.map((x, k) => '  ' + n + '[' + k + '] = &' + x + ';\n').join('') + '  for (i = 0; i < ' + fs.length + '; ++i) { int (*f)(int, int) = ' + n + '[i]; r += (*f)(a + i, b); }\n  return r;\n}\n';
      m.funs.push({ n: m.id + '_call' }); m.hdr += 'extern int ' + m.id + '_call(int a, int b);\n';
    }
    if (o.date && rng.chance(0.5)) { s += 'const char *' + m.id + '_when(void) { return __DATE__ " " __TIME__; }\n'; }
    m.src = s;
  });
  // main
  let s = (lib ? '#include <stdio.h>\n' : '') + mods.map((m) => '#include "' + m.name + '.h"\n').join('');
  const env = { loc: ['x'], wloc: ['x'], gv: [], ga: [], wgv: [], wga: [], gs: [], st: [], fn: [], io: true };
  for (const m of mods) { env.gv.push(...m.vars); env.ga.push(...m.arrs); env.st.push(...m.structs); env.fn.push(...m.funs); }
  const argc = lib && rng.chance(0.5);
  s += 'int main(' + (argc ? 'int argc, char **argv' : 'void') + ')\n{\n  int x = ' + (argc ? 'argc' : '1') + ';\n';
  for (const f of env.fn) s += '  x += ' + f.n + '(x, ' + rng.int(20) + ');\n' + (lib ? '  printf("' + f.n + ' %d\\n", x);\n' : '');
  for (let q = rng.int(4); q > 0; q--) s += stmt(env, 2, 2);
  s += lib ? '  printf("%d\\n", x);\n  return 0;\n}\n' : '  return x & 127;\n}\n';
  if (o.clash && mods.length) { // a declaration that collides with another one, somewhere
    const m = rng.pick(mods), q = rng.pick(mods); const names = [].concat(m.funs, m.vars, m.arrs, q.funs, q.vars, q.structs).map((x) => x.n).concat([m.stn || 'zz', (m.stn || 'zz') + '_t', m.id + '_e1', m.id + '_fp', 'printf', 'size_t', m.id.toUpperCase() + '_K', 'strlen', 'main']);
    const n = rng.pick(names), t = rng.pick(['int', 'double', 'char']);
    const d = rng.pick([() => `typedef ${t} ${n};`, () => `typedef int (*${n})(int, int);`, () => `enum { ${n} = 3 };`, () => `enum ${n} { ${n}_x1 };`, () => `${t} ${n};`, () => `static ${t} ${n};`, () => `int ${n}(int a, int b) { return a - b; }`, () => `static int ${n}(int a, int b) { return a - b; }`, () => `int ${n}(int a);`, () => `struct ${n} { int z; };`, () => `#define ${n} 5`, () => `#define ${n}(x) (x)`, () => `${t} ${n}[3];`, () => `int ${n}(int a, int b);`, () => `#undef ${n}`])();
    const where = rng.int(4);
    if (where === 0) m.hdr += d.replace(/^(static )?(int|double|char) (\w+(\[3\])?;|\w+\(.*\);)/, 'extern $2 $3') + '\n';
    else { const ls = m.src.split('\n'); const tops = ls.map((x, i) => i).filter((i) => i > 0 && (ls[i - 1] === '}' || /^(static|int|const|typedef|char|double|short|unsigned|long|float)\b.*;$/.test(ls[i - 1]))); ls.splice(where === 1 || !tops.length ? ls.length : rng.pick(tops), 0, d); m.src = ls.join('\n') + '\n'; }
  }
  const files = {}; for (const m of mods) { files[m.name + '.c'] = m.src; files[m.name + '.h'] = m.hdr; }
  files['main.c'] = s;
  return { files, mods: ['main'].concat(mods.map((m) => m.name)), lib };
}
module.exports = { gen };
