'use strict';
// Random expressions, constants, types and declarations of the dialect, mostly well typed and often at the limits:
// what the two builds of the compiler (64-bit native, 32-bit self-hosted) could disagree about. Many of the
// programs are refused; the refusal is part of what is compared.
const INT = ['char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long'];
const FLT = ['float', 'double'];
const ALL = INT.concat(FLT);
const BITS = { char: 8, 'unsigned char': 8, short: 16, 'unsigned short': 16, int: 32, unsigned: 32, long: 32, 'unsigned long': 32, 'long long': 64, 'unsigned long long': 64 };
const SUF = { unsigned: 'U', long: 'L', 'unsigned long': 'UL', 'long long': 'LL', 'unsigned long long': 'ULL' };
const EDGE = [0n, 1n, 2n, 7n, 8n, 31n, 32n, 33n, 63n, 64n, 65n, 127n, 128n, 255n, 256n, 32767n, 32768n, 65535n, 65536n, 2147483647n, 2147483648n, 4294967295n, 4294967296n, 4294967297n, 9007199254740992n, 9007199254740993n, 9223372036854775807n, 9223372036854775808n, 18446744073709551615n, 18446744073709551616n];
function ilit(r, t) {
  const b = Math.max(BITS[t], 32), small = BITS[t] < 32, sg = small || !/unsigned/.test(t); const max = (1n << BigInt(sg ? b - 1 : b)) - 1n;
  let v = r.chance(0.6) ? r.pick(EDGE) : r.chance(0.5) ? BigInt(r.int(1000)) : (BigInt(r.int(1 << 30)) << 34n) | (BigInt(r.int(1 << 30)) << 4n) | BigInt(r.int(16));
  if (v > max && !r.chance(0.002)) v &= max;
  const neg = sg && r.chance(0.3); const base = r.weighted([[5, 10], [3, 16], [1, 8]]);
  let s = base === 16 ? '0x' + v.toString(16) : base === 8 && v > 0n ? '0' + v.toString(8) : String(v);
  if (SUF[t]) s += r.chance(0.995) ? (r.chance(0.5) ? SUF[t] : SUF[t].toLowerCase()) : '';
  if (neg) s = r.chance(0.8) ? '(-' + s + ')' : '-' + s;
  if (small) return '((' + t + ')' + s + ')';
  if (t === 'int' && r.chance(0.08)) return r.pick(["'a'", "'\\n'", "'\\0'", "'\\xff'", "'\\377'", "'\\''", "'\\\\'", "'\\200'", "((int)L'x')", "((int)L'\\xfe')", "'\\u0041'"]);
  return s;
}
const flit = (r, t) => { const s = r.weighted([[4, () => r.pick(['0.0', '1.0', '0.5', '2.0', '1.5', '3.75', '100.0', '65536.0', '2147483647.0', '2147483648.0', '4294967295.0', '4294967296.0', '16777217.0', '1e10', '1e15', '1e22'])], [4, () => '0x' + r.pick(['0', '1', '1.8', '1.fffffep', '1.000002p', '1.fffffffffffffp', '1.0000000000001p']).replace('p', '') + 'p' + r.pick(['0', '1', '-1', '10', '31', '32', '62', '63', '64', '65', '-126', '-149', '127', '-1022', '1023', '-20', '52', '53', '24'])], [1, () => String(r.int(100000)) + '.' + r.pick(['0', '5', '25', '125'])]])(); const n = t === 'float' ? s + r.pick(['f', 'f', 'F']) : s; return r.chance(0.3) ? '(-' + n + ')' : n; };
const lit = (r, t) => FLT.includes(t) ? flit(r, t) : ilit(r, t);
// env: { vars: {name: type}, arrs: {name: [type, n]}, ptrs: {name: type}, fns: {name: [ret, [params]]}, structs: {name: {fields}}, svars: {name: struct} , K: constant only }
function expr(r, t, d, e) {
  const loose = r.chance(e.loose || 0); if (loose) t = r.pick(ALL);
  if (d <= 0 || r.chance(0.12)) { const vs = e.K ? [] : Object.keys(e.vars).filter((v) => e.vars[v] === t); return vs.length && r.chance(0.7) ? r.pick(vs) : lit(r, t); }
  const sub = (u, k) => expr(r, u === undefined ? t : u, d - (k || 1), e); const flt = FLT.includes(t); const big = flt || BITS[t] >= 32; const C = (s) => big && t !== 'x' ? s : '((' + t + ')(' + s + '))'; const P = (s) => '(' + s + ')';
  const any = () => r.pick(ALL); const anyI = () => r.pick(INT);
  const opts = [
    [4, () => C(P(sub() + ' ' + r.pick(flt ? ['+', '-', '*', ...(e.K ? [] : ['/'])] : ['+', '-', '*', '&', '|', '^', ...(e.K ? [] : ['/', '%'])]) + ' ' + sub()))],
    [2, () => C(P(r.pick(flt ? ['-', '+'] : ['-', '~', '+']) + ' ' + sub()))],
    [e.K ? 1 : 0, () => C(P(sub() + ' ' + r.pick(flt ? ['/'] : ['/', '%']) + ' ' + (r.chance(0.05) ? sub() : flt ? r.pick(['2.0', '0.5', '3.0', '(-4.0)', '1e10']) + (t === 'float' ? 'f' : '') : '(' + t + ')' + r.pick(['1', '-1', '2', '7', '-3', '10', '127']))))],
    [4, () => '((' + t + ')' + P(sub(any())) + ')'],
    [2, () => P(sub('int') + ' ? ' + sub() + ' : ' + sub())],
    [1, () => P('(' + t + ')' + r.pick(['sizeof(' + any() + ')', 'alignof(' + any() + ')', 'sizeof(' + any() + '[' + r.range(1, 9) + '])', e.K ? 'sizeof(void *)' : 'sizeof' + P(sub(any(), 2))]))],
    [e.K ? 0 : 1, () => P(sub('int', 2) + ' != 0 ' + r.pick(['&&', '||']) + ' ' + sub('int', 2) + ' == 0 ? ' + sub() + ' : ' + sub())],
  ];
  if (!flt) opts.push([3, () => (r.chance(0.97) ? '(' + t + ')' : '') + P(P(sub() + ' ' + r.pick(['<<', '>>']) + ' ' + (r.chance(0.6) || e.K ? r.pick(e.K && !r.chance(0.05) ? ['0', '1', '7', '31', '32', '63'] : ['0', '1', '7', '31', '32', '63', '64', '65', '(-1)', '3U', '40LL']) : sub(anyI(), 2))))]);
  if (t === 'int') opts.push([4, () => { const u = any(); return P(sub(u) + ' ' + r.pick(['<', '>', '<=', '>=', '==', '!=']) + ' ' + sub(u)); }], [1, () => P('!' + sub(any()))], [e.K && !r.chance(0.05) ? 0 : 2, () => P(sub() + ' ' + r.pick(['&&', '||']) + ' ' + sub())], [1, () => 'generic(' + sub(any()) + ', char: 1, short: 2, int: 3, unsigned: 4, long long: 5, float: 6, double: 7, default: ' + r.int(9) + ')']);
  if (!e.K) {
    const vs = Object.keys(e.vars).filter((v) => e.vars[v] === t), as = Object.keys(e.arrs).filter((v) => e.arrs[v][0] === t), ps = Object.keys(e.ptrs).filter((v) => e.ptrs[v] === t), fs = Object.keys(e.fns).filter((f) => e.fns[f][0] === t);
    const ss = Object.keys(e.svars).filter((v) => e.structs[e.svars[v]].some((f) => f[0] === t)); const lv = [];
    if (vs.length) lv.push(() => r.pick(vs)); if (as.length) lv.push(() => { const a = r.pick(as); return a + '[' + (r.chance(0.5) ? r.int(e.arrs[a][1]) : '(int)' + sub(anyI(), 2)) + ']'; });
    if (ps.length) lv.push(() => { const p = r.pick(ps); return r.pick(['*' + p, p + '[' + r.pick(['0', '1', '-1', '1000000', '0x1fffffff', '0x20000000', '(-0x20000000)', sub('int', 2)]) + ']', '*(' + p + ' + ' + sub('int', 2) + ')']); });
    if (ss.length) lv.push(() => { const s = r.pick(ss); const f = r.pick(e.structs[e.svars[s]].filter((x) => x[0] === t)); return s + (s[0] === 'q' ? '->' : '.') + f[1] + (f[2] ? '[' + r.int(f[2]) + ']' : ''); });
    if (lv.length) { const l = () => r.pick(lv)();
      opts.push([5, l], [1, () => P(r.pick(['++', '--']) + l())], [1, () => P(l() + r.pick(['++', '--']))], [2, () => P(l() + ' = ' + sub())], [1, () => P(l() + ' ' + r.pick(flt ? ['+=', '-=', '*=', '/='] : ['+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=']) + ' ' + sub())]); }
    if (fs.length) opts.push([3, () => { const f = r.pick(fs); return f + '(' + e.fns[f][1].map((u) => sub(u)).join(', ') + ')'; }]);
    opts.push([1, () => P(sub(any(), 2) + ', ' + sub())]);
    const allp = Object.keys(e.ptrs); if (t === 'int' && allp.length) opts.push([1, () => { const p = r.pick(allp); return r.pick([`(${p} != NULL)`, `(${p} == NULL ? 1 : 2)`, `((int)(${p} - ${p}))`, `(${p} < ${p} + ${r.int(9)})`, `((int)(size_t)${p})`]); }]);
  }
  return r.weighted(opts)();
}
function init(r, t, e, big) { return r.chance(big ? 0.7 : 0.5) ? lit(r, t) : '(' + t + ')(' + expr(r, t, r.range(1, 4), { K: true }) + ')'; }
function gen(r) {
  const L = ['#include <stddef.h>']; const e = { loose: r.chance(0.2) ? 0.02 : 0, vars: {}, arrs: {}, ptrs: {}, fns: {}, structs: {}, svars: {} };
  const n = r.range(1, 5);
  for (let i = 0; i < n; i++) {
    r.weighted([
      [4, () => { const t = r.pick(ALL); L.push(`${r.pick(['', 'static ', 'const ', 'static const '])}${t} g${i} = ${init(r, t, e)};`); if (!/const/.test(L[L.length - 1])) e.vars['g' + i] = t; }],
      [2, () => { const t = r.pick(ALL), k = r.range(1, 5); L.push(`${r.pick(['', 'static '])}${t} a${i}[${r.chance(0.8) ? k : '(int)(' + k + ' + 0 * ' + expr(r, 'int', 2, { K: true }) + ')'}] = { ${Array.from({ length: r.chance(0.97) ? k : r.range(1, 6) }, () => init(r, t, e)).join(', ')} };`); e.arrs['a' + i] = [t, k]; }],
      [1, () => { const t = r.pick(ALL); const dim = r.weighted([[9, () => r.pick(['1', '100000', '0x10000', '3', '0x1000000', '0x1fffffff'])], [2, () => r.pick(['0x3fffffff', '0x40000000', '0x7fffffff', '2147483648U', '5000000000LL', '0', '-1', '0x20000000', '(int)1e9'])]])(); L.push(`typedef ${t} T${i}[${dim}]${r.chance(0.3) ? '[' + r.pick(['2', '3', '4', '0x1000']) + ']' : ''};`, `unsigned z${i} = sizeof(T${i});`, `struct W${i} { char c; T${i} a; ${r.pick(ALL)} d; T${i} b; };`, ...(r.chance(0.6) ? [`unsigned y${i} = sizeof(struct W${i});`] : []), ...(r.chance(0.5) ? [`int f${i}w(struct W${i} *p) { return (int)p->${r.pick(['a[1]', 'd', 'b[0]', 'b[2]']) }; }`] : [])); }],
      [2, () => { const fs = []; for (let k = r.range(1, 5); k > 0; k--) fs.push([r.pick(ALL), 'm' + k, r.chance(0.25) ? r.range(1, 7) : 0]); L.push(`struct S${i} {${fs.map((f) => ' ' + f[0] + ' ' + f[1] + (f[2] ? '[' + f[2] + ']' : '') + ';').join('')} };`, `struct S${i} s${i};`); e.structs['S' + i] = fs; e.svars['s' + i] = 'S' + i; e.svars['q' + i] = 'S' + i; if (r.chance(0.4)) L.push(`struct S${i} si${i} = { ${fs.map((f) => f[2] ? '{ ' + Array.from({ length: f[2] }, () => init(r, f[0], e)).join(', ') + ' }' : init(r, f[0], e)).join(', ')} };`); L.push(`unsigned o${i} = offsetof(struct S${i}, ${r.pick(fs)[1]});`); }],
      [2, () => L.push(`enum E${i} { ${['A', 'B', 'C', 'D'].slice(0, r.range(1, 4)).map((x) => x + i + (r.chance(0.6) ? ' = ' + (r.chance(0.5) ? ilit(r, r.pick(['int', 'int', 'unsigned', 'long long', 'char'])) : expr(r, 'int', 3, { K: true })) : '')).join(', ')} };`)],
      [1, () => L.push(`static_assert(${r.pick(['1', 'sizeof(int)', 'alignof(double)', 'sizeof(long)', 'sizeof(char *)', '((int)sizeof(long long))'])} ${r.pick(['!=', '<', '<='])} ${r.pick([16, 17, 9, 32, 4])}${r.chance(0.5) ? ', "message"' : ''});`)],
      [1, () => { L.push(`#define M${i} (${expr(r, 'int', 2, { K: true })})`, `int h${i} = M${i};`, `#define N${i}(x) ((x) ${r.pick(['+', '*', '<<'])} ${ilit(r, 'int')})`); e.fns['N' + i] = ['int', ['int']]; }],
      [2, () => { const lit = r.pick(['"abc"', '"\\x80\\xff"', '"\\303\\251"', '"a" "b"', '""', '"\\0x"', '"\\377"']); L.push(r.weighted([[3, () => `char c${i}[] = ${lit};`], [3, () => `const char *c${i} = ${lit};`], [2, () => `static char c${i}[20] = ${lit};`], [2, () => `unsigned char c${i}[3] = { ${r.pick(["'a', 255, 0", '1, 2, 3', "(unsigned char)300, 'x', '\\0'"])} };`], [1, () => `${r.pick(['short', 'char', 'unsigned char'])} c${i}[2] = ${r.pick(['L"w"', '"abc"', '{ 300, -1 }', '"\\400"', '"\\q"', '"\\u00e9"'])};`]])()); }],
      [1, () => { const t = r.pick(ALL); L.push(`static ${t} b${i}[4];`, `${t} *p${i}[2] = { NULL, ${r.weighted([[3, 'NULL'], [6, `&b${i}[0]`], [0.3, `&b${i}[${r.int(5)}]`], [0.4, r.pick(['(int *)-1', '(int *)8', `&b${i}[-1]`, `b${i}`, `&b${i}[0] + 1`, '0'])]])} };`); e.arrs['b' + i] = [t, 4]; e.ptrs0 = { ...e.ptrs0, ['p' + i + '[1]']: t }; }],
    ])();
  }
  for (let k = r.range(0, 2); k >= 0; k--) {
    const ps = Array.from({ length: r.int(4) }, () => r.pick(ALL)), rt = r.pick(ALL); const f = { ...e, vars: { ...e.vars }, ptrs: { ...e.ptrs0 }, arrs: { ...e.arrs }, svars: { ...e.svars } };
    ps.forEach((t, j) => { f.vars['x' + j] = t; }); const pp = r.chance(0.6) ? [r.pick(ALL)] : []; pp.forEach((t, j) => { f.ptrs['w' + j] = t; });
    const qs = Object.keys(e.svars).filter((v) => v[0] === 'q'); const decl = ps.map((t, j) => t + ' x' + j).concat(pp.map((t, j) => t + ' *w' + j), qs.map((q) => 'struct ' + e.svars[q] + ' *' + q));
    const body = []; const loc = r.range(0, 3); for (let j = 0; j < loc; j++) { const t = r.pick(ALL); body.push(`  ${t} l${j} = ${expr(r, t, 3, f)};`); f.vars['l' + j] = t; }
    if (r.chance(0.2)) { const t = r.pick(ALL), m = r.pick([1, 3, 8, 100]); body.push(`  ${t} ld[${m}] = { ${Array.from({ length: r.range(1, Math.min(m, 4)) }, () => BITS[t] < 32 ? String(r.int(127)) : r.chance(0.95) ? lit(r, t).replace(/^\(-?(.*)\)$/, '$1').replace(/^-|^\(int\)/, '') : expr(r, t, 2, { K: true })).join(', ')} };`); f.arrs.ld = [t, m]; }
    if (r.chance(0.1)) { const t = r.pick(['char', 'unsigned char']), m = r.pick([4, 8, 100]); body.push(`  ${t} *lz = (${t}[${m}])${r.pick(['"ab"', '""', '{ 1, 2 }', "{ 'a' }", '"abcd"'])};`); f.ptrs.lz = t; }
    if (r.chance(0.3)) { const t = r.pick(ALL), m = r.pick([1, 3, 8, 1000]); body.push(`  ${t} la[${m}];`); f.arrs.la = [t, m]; }
    const st = (d) => r.weighted([
      [4, () => '  ' + expr(r, r.pick(ALL), 4, f) + ';'], [2, () => { const vs = Object.keys(f.vars); if (!vs.length) return '  ;'; const v = r.pick(vs); return `  ${v} = ${expr(r, f.vars[v], 4, f)};`; }],
      [d > 0 ? 2 : 0, () => `  if (${expr(r, 'int', 3, f)}) {\n${st(d - 1)}\n  }${r.chance(0.5) ? ` else {\n${st(d - 1)}\n  }` : ''}`], [d > 0 ? 1 : 0, () => `  while (${expr(r, 'int', 2, f)}) {\n${st(d - 1)}\n  ${r.pick(['break;', 'continue;', ''])}\n  }`], [d > 0 ? 1 : 0, () => `  do {\n${st(d - 1)}\n  } while (${expr(r, 'int', 2, f)});`],
      [d > 0 ? 1 : 0, () => { const t = r.pick(['int', 'int', 'unsigned', 'char', 'long long', 'short']); return `  switch (${r.chance(0.05) ? '' : '(int)'}${expr(r, t, 2, f)}) {\n${Array.from({ length: r.range(1, 4) }, () => `    case ${r.chance(0.96) ? '(int)' : ''}${r.chance(0.5) ? lit(r, r.chance(0.95) ? 'int' : r.pick(INT)) : expr(r, r.chance(0.95) ? 'int' : r.pick(INT), r.range(0, 2), { K: true })}: ${st(0).trim()} ${r.chance(0.7) ? 'break;' : ''}`).join('\n')}\n    ${r.chance(0.7) ? 'default: break;' : ''}\n  }`; }],
      [1, () => `  return ${expr(r, rt, 3, f)};`],
    ])();
    for (let j = r.range(1, 4); j > 0; j--) body.push(st(2));
    const nm = 'f' + 'abc'[k]; L.push(`${r.pick(['', 'static '])}${rt} ${nm}(${decl.join(', ') || 'void'})`, '{', ...body, `  return ${expr(r, rt, 4, f)};`, '}');
    if (!pp.length && !qs.length) e.fns[nm] = [rt, ps];
  }
  return L.join('\n') + '\n';
}
// constructs nested n deep: what both compilers must take, as far as the stack of the self-hosted one goes
const NEST = [
  (n) => 'int f(int x) { return ' + '('.repeat(n) + 'x' + ')'.repeat(n) + '; }',
  (n) => 'int f(int x) { return ' + '(x+'.repeat(n) + 'x' + ')'.repeat(n) + '; }',
  (n) => 'double f(double x, int y) { return ' + '(y*'.repeat(n) + 'x' + ')'.repeat(n) + '; }',
  (n) => 'int f(int *x) { return ' + 'x['.repeat(n) + '0' + ']'.repeat(n) + '; }',
  (n) => 'int f(int x) { return ' + '(x?x:'.repeat(n) + 'x' + ')'.repeat(n) + '; }',
  (n) => 'int g(int x) { return x; } int f(int x) { return ' + 'g('.repeat(n) + 'x' + ')'.repeat(n) + '; }',
  (n) => 'int f(int x) { ' + '{ int y = x; '.repeat(n) + 'x++;' + '}'.repeat(n) + ' return x; }',
  (n) => 'int f(int x) { ' + 'if (x) '.repeat(n) + 'x++; return x; }',
  (n) => 'int f(int x) { ' + 'if (x) x--; else '.repeat(n) + 'x++; return x; }',
  (n) => 'int f(int x) { ' + 'for (;x;) '.repeat(n) + 'x++; return x; }',
  (n) => 'int f(int x) { return x' + ' + x'.repeat(n) + '; }',
  (n) => 'int f(int x) { return x' + ', x'.repeat(n) + '; }',
  (n) => 'int f(int x) { return x' + ' && x || x'.repeat(n) + '; }',
  (n) => 'int f(int x) { return ' + '-~'.repeat(n) + 'x; }',
  (n) => 'void f(int x) { ' + 'x='.repeat(n) + '1; }',
  (n) => 'int f(int ' + '*'.repeat(n) + 'x) { return ' + '*'.repeat(n) + 'x; }',
  (n) => '#define M(x) (x+1)\nint f(int x) { return ' + 'M('.repeat(n) + 'x' + ')'.repeat(n) + '; }',
  (n) => '#define m0 x\n' + Array.from({ length: n }, (_, i) => '#define m' + (i + 1) + ' m' + i + '\n').join('') + 'int f(int x) { return m' + n + '; }',
  (n) => '#if 1\n'.repeat(n) + 'int x;\n' + '#endif\n'.repeat(n),
  (n) => Array.from({ length: n }, (_, i) => 'struct s' + i + ' { ' + (i ? 'struct s' + (i - 1) : 'int') + ' a; };\n').join('') + 'struct s' + (n - 1) + ' g = ' + '{'.repeat(n) + '1' + '}'.repeat(n) + ';',
  (n) => 'int a' + '[1]'.repeat(n) + '; int f(void) { return a' + '[0]'.repeat(n) + '; }',
];
const nest = (r, n) => r.pick(NEST)(n) + '\n';
module.exports = { gen, expr, lit, nest, NEST };
