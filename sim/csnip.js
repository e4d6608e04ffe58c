'use strict';
// Feature snippets for the program generator: each returns { head, body } where `body` defines
// `int NAME(int a, int b)`; between them they reach every instruction signature the object format
// knows (blocks, labels, br_table, call_indirect, select, memargs, lanes, v128/float/64-bit
// constants, ref.func, ref.data with offsets, put_ref) and every kind of static initialiser.
const S = {};
const F = (rng) => rng.pick(['0.0', '-0.0', '1.5', '3.141592653589793', '1e300', '-1e-300', '2.2250738585072014e-308', '1.7976931348623157e308', '0.1', '-2.5e-8', '123456789.125', '2147483648.0', '9007199254740993.0', '65536.0', '0x1p-1022', '0x1.8p1', '0x1p-1074', '0x1.8p-1040', '0x0.8p-1022', '(1e-300 * 1e-10)', '(1e308 * 10.0)', '(-1e308 * 10.0)', '(1e300 / 1e-9)', '(0.1 + 0.2)', '(1.0 / 3.0)', '(0.0 * -1.0)']);
const FF = (rng) => rng.pick(['0.0f', '-0.0f', '1.5f', '3.14159274f', '1e38f', '-1e-38f', '1.17549435e-38f', '3.40282347e+38f', '0.1f', '16777217.0f', '0x1.8p1f', '0x1p-149f', '0x1.8p-140f', '(1e-30f * 1e-10f)', '(1e38f * 10.0f)', '(1.0f / 3.0f)', '(float)1e300', '(float)1e-60', '(float)0.1']);
const I = (rng) => rng.pick(['0', '1', '-1', '2147483647', '(-2147483647 - 1)', '255', '256', '65535', '65536', '-128', '-129', '127', '128', '0x12345678', '(-2147483647 - 1) / -1', '(-2147483647 - 1) % -1', '(2147483647 + 1)', '(-7 / 2)', '(-7 % 3)', '(-8 >> 1)', '(1 << 31)', '(int)3e9', '(int)(unsigned char)300', '(int)(short)40000', '(-1 < 1U)', '(int)sizeof(long long)', String(rng.int(1 << 30)), '-' + rng.int(1 << 30)]);
const L = (rng) => rng.pick(['0LL', '-1LL', '9223372036854775807LL', '(-9223372036854775807LL - 1LL)', '4294967296LL', '4294967295LL', '-2147483649LL', '0x7fffffffffffLL', '((-9223372036854775807LL - 1LL) / -1LL)', '((-9223372036854775807LL - 1LL) % -1LL)', '(1LL << 63)', '(-8LL >> 2)', '(long long)1e300', '(long long)-1.5', '(long long)(unsigned)-1', '(9223372036854775807LL + 1LL)', '(4294967296LL * 4294967296LL)', '(-5LL / 3LL)', rng.int(1 << 30) + '00000LL', '-' + rng.int(1 << 30) + '0000LL']);
const UL = (rng) => rng.pick(['18446744073709551615ULL', '9223372036854775808ULL', '0ULL', '0xdeadbeefcafebabeULL', '(0ULL - 1ULL)', '(18446744073709551615ULL / 10ULL)', '(18446744073709551615ULL % 10ULL)', '(unsigned long long)-1.5', '(unsigned long long)1e19', '(~0ULL >> 3)']);
S.goto1 = (r, n) => ({ body: `int ${n}(int a, int b)\n{\n  int r = 0;\n  { again:\n    r += a ^ ${r.int(99)}; ++a;\n    if (a < b) goto again;\n  }\n  { if (r > 1000) goto done; r ^= 3; { int k = a; if (k == b) goto done; while (k > 0) { --k; if (r == k) goto done; } } r += 7; done: }\n  return r;\n}\n` });
S.goto2 = (r, n) => ({ body: `int ${n}(int a, int b)\n{\n  int r = 1, k = 0;\n  {\n    { top:;\n      while (k < 5) { int j; ++k; for (j = 0; j < 4; ++j) { if (j == ${r.int(4)}) continue; if (j + k == b) break; if (r > 5000) goto out; r += j * k; } }\n      do { if (a == ${r.int(9)}) { ++a; goto top; } } while (k++ < 7);\n    }\n    r += 100;\n    out:\n  }\n  return r;\n}\n` });
S.sw = (r, n) => { const base = r.pick([0, 0, 10, -5, 100000, 2147482000, -2147483640]); const gap = r.pick([1, 1, 2, 50]); const k = r.range(3, 14); let s = ''; for (let i = 0; i < k; i++) s += `    case ${base + i * gap}:${i % 3 === 1 ? ' /* falls */' : ` r += ${r.int(99)}; ${r.chance(0.7) ? 'break;' : ''}`}\n`; return { body: `int ${n}(int a, int b)\n{\n  int r = b;\n  switch (a) {\n${s}    ${r.chance(0.7) ? 'default: r = -r; break;' : `case ${base + 1000}: r = 0; break;`}\n  }\n  return r;\n}\n` }; };
S.swnest = (r, n) => ({ body: `int ${n}(int a, int b)\n{\n  int r = 0, i;\n  for (i = 0; i < 6; ++i) {\n    switch (a & 3) {\n      case 0: { if (b > i) continue; } break;\n      case 1: case 2: { switch (b & 1) { case 0: r += 2; break; default: r += 3; break; } } break;\n      case 3: return r;\n      default: break;\n    }\n    a += i; r <<= 1;\n  }\n  return r;\n}\n` });
S.swchar = (r, n) => ({ body: `int ${n}(int a, int b)\n{\n  char c = (char)a; int r = 0;\n  switch (c) {\n    case 'a': case 'b': r = 1; break;\n    case '\\n': r = 2; break;\n    case '\\0': r = 3; break;\n    case '\\'': r = 4; break;\n    default: r = b; break;\n  }\n  return r;\n}\n` });
S.i64 = (r, n) => ({ body: `static long long ${n}_x(long long p, unsigned long long q)\n{\n  long long r = p ${r.pick(['+', '-', '*', '^', '&', '|'])} ${L(r)};\n  r = r ${r.pick(['<<', '>>'])} ${r.int(63)};\n  if (q ${r.pick(['<', '>', '<=', '>='])} ${UL(r)}) r = -r; else r = ~r;\n  r += (long long)(q >> ${r.range(1, 63)}) ${r.pick(['/', '%'])} ${r.range(1, 9999)}LL;\n  r ^= (long long)(q ${r.pick(['/', '%'])} ${r.range(1, 99)}ULL);\n  return (p < ${L(r)}) ? r : r + ${L(r)};\n}\nint ${n}(int a, int b)\n{\n  long long z = ${n}_x((long long)a, (unsigned long long)(unsigned)b);\n  return (int)(z ^ (z >> 32));\n}\n` });
S.flt = (r, n) => ({ body: `static double ${n}_d(double x, float y)\n{\n  double z = x ${r.pick(['+', '-', '*', '/'])} ${F(r)};\n  float w = y ${r.pick(['+', '-', '*', '/'])} ${FF(r)};\n  if (z ${r.pick(['<', '>', '<=', '>=', '==', '!='])} ${F(r)}) z = -z;\n  if (w ${r.pick(['<', '>', '<=', '>=', '==', '!='])} ${FF(r)}) w = -w;\n  return (double)w + z;\n}\nint ${n}(int a, int b)\n{\n  double q = ${n}_d((double)a, (float)b);\n  return q > -1e6 && q < 1e6 ? (int)q : (q == q ? a : b);\n}\n` });
S.fltg = (r, n) => ({ body: `static double ${n}_t[${5}] = { ${[0, 1, 2, 3, 4].map(() => F(r)).join(', ')} };\nfloat ${n}_u[4] = { ${[0, 1, 2, 3].map(() => FF(r)).join(', ')} };\ndouble ${n}_v = ${F(r)};\nstatic float ${n}_w = ${FF(r)};\nint ${n}(int a, int b)\n{\n  int r = 0, i;\n  for (i = 0; i < 4; ++i) if (${n}_t[i] > ${n}_v || ${n}_u[i] < ${n}_w) r |= 1 << i;\n  ${n}_v = (double)a; ${n}_w = (float)b; ${n}_u[a & 3] = ${n}_w;\n  return r;\n}\n` });
S.gen = (r, n) => ({ body: `#define ${n}_K(x) generic((x), char: 1, unsigned char: 2, short: 3, int: 4, unsigned: 5, long long: 6, float: 7, double: 8, int*: 9, default: 10)\nint ${n}(int a, int b)\n{\n  char c = 'x'; short s = (short)a; unsigned u = 3U; long long l = 5LL; float f = 1.0f; double d = 2.0;\n  return ${['c', 's', 'u', 'l', 'f', 'd', 'a', '&b'].slice(0, 7).map((v) => `${n}_K(${v})`).join(' * 3 + ')} + a + b;\n}\n` });
S.va = (r, n) => ({ head: '#include <stdarg.h>\n', body: `static int ${n}_v(int k, ...)\n{\n  va_list ap; int r = 0; va_start(ap, k);\n  while (k-- > 0) {\n    switch (k & 3) {\n      case 0: r += va_arg(ap, int); break;\n      case 1: r += (int)va_arg(ap, double); break;\n      case 2: r ^= (int)va_arg(ap, long long); break;\n      default: { char *s = va_arg(ap, char *); r += (int)s[0]; } break;\n    }\n  }\n  va_end(ap);\n  return r;\n}\nint ${n}(int a, int b)\n{\n  return ${n}_v(4, "${r.pick(['a', 'xyz', ''])}", ${L(r)}, ${r.pick(['1.5', '2.5f'])}, a) + ${n}_v(1, b) + ${n}_v(0) + ${n}_v(2, ${r.pick(['3.5f', '7.0'])}, (char)b);\n}\n` });
S.structs = (r, n) => ({ body: `typedef struct ${n}_s { char c; ${r.pick(['short', 'double', 'long long', 'int'])} x; struct { int p; char q[3]; } in; union { int u; unsigned char b[4]; } un; } ${n}_s;\nstatic ${n}_s ${n}_g[3];\n${n}_s ${n}_h;\nint ${n}(int a, int b)\n{\n  ${n}_s l, *p = &${n}_g[1];\n  l.c = (char)a; l.in.p = b; l.in.q[2] = 'z'; l.un.u = ${I(r)}; l.x = ${r.int(99)};\n  ${n}_g[0] = l; *p = ${n}_g[0]; ${n}_h = *p; p->in.q[1] = (char)(a + b);\n  p += 1; *p = l; --p;\n  return ${n}_h.in.p + (int)p->in.q[1] + (int)${n}_g[2].un.b[${r.int(4)}] + (int)sizeof(${n}_s) + (int)(p - &${n}_g[0]);\n}\n`.replace(/l\.x = (\d+);/, (m, d) => `l.x = (${''}${'short'})${d};`) });
S.arrs = (r, n) => ({ body: `typedef int ${n}_a4[4];\nstatic ${n}_a4 ${n}_x = { ${[1, 2, 3, 4].map(() => I(r)).join(', ')} };\n${n}_a4 ${n}_m[3];\nint ${n}(int a, int b)\n{\n  ${n}_a4 l; int i, r = 0;\n  l = ${n}_x; ${n}_m[a & 1] = l; ${n}_m[2][b & 3] = a;\n  for (i = 0; i < 4; ++i) r += l[i] ^ ${n}_m[i & 1][3 - i];\n  return r;\n}\n` });
S.init = (r, n) => ({ body: `struct ${n}_q { int k; const char *s; struct ${n}_q *nx; char z[5]; int *ip; unsigned short us; long long ll; };\nstatic int ${n}_i[6] = { ${[1, 2, 3].map(() => I(r)).join(', ')} };\nstruct ${n}_q ${n}_t[3] = {\n  { ${I(r)}, "${r.pick(['', 'one', 'x\\0y', 'q\\"'])}", NULL, "${r.pick(['', 'ab', 'abcd'])}", &${n}_i[0], ${r.int(65536)}, ${L(r)} },\n  { ${I(r)}, NULL, NULL, { 'a', 'b', '\\0' }, NULL, ${r.int(65536)}, ${L(r)} },\n  { ${I(r)}, "tail", NULL, "", NULL, 0, ${L(r)} }\n};\nint ${n}(int a, int b)\n{\n  struct ${n}_q *p = &${n}_t[a & 1];\n  p->nx = &${n}_t[2]; ${n}_i[b & 3] += a;\n  return p->k + p->nx->k + (p->ip != NULL ? p->ip[1] : 0) + (int)p->z[1] + (int)p->us + (int)p->ll;\n}\n`.replace('#include', '#include') });
S.fptr = (r, n) => ({ body: `static int ${n}_p(int x, int y) { return x * ${r.range(1, 9)} - y; }\nstatic int ${n}_q(int x, int y) { return x ^ y ^ ${r.int(999)}; }\nstatic long long ${n}_r(long long x, double d) { return x + (long long)d; }\ntypedef int (*${n}_f)(int, int);\nstruct ${n}_o { const char *nm; int (*f)(int, int); };\nstatic ${n}_f ${n}_tab[3];\nstatic ${n}_f ${n}_get(int k) { return k != 0 ? &${n}_p : &${n}_q; }\nint ${n}(int a, int b)\n{\n  ${n}_f f = ${n}_get(a & 1); struct ${n}_o o; long long (*g)(long long, double) = &${n}_r;\n  ${n}_tab[0] = f; ${n}_tab[1] = &${n}_q; o.f = ${n}_tab[b & 1]; o.nm = "${n}";\n  return (*o.f)(a, b) + (*f)(b, a) + (int)(*g)((long long)a, ${F(r)} > 1.0 ? 1.0 : 2.0) + (o.f == f ? 1 : 0);\n}\n` });
S.asm = (r, n) => ({ body: `#define ${n}_clz(x) ((int(*)(int))asm(i32.clz)(x))\n#define ${n}_rotl(x, k) ((int(*)(int, int))asm(i32.rotl)(x, k))\n#define ${n}_ctz(x) ((long long(*)(long long))asm(i64.ctz)(x))\n#define ${n}_ld(p) ((int(*)(void *))asm(i32.load8_u offset=${r.int(8)} align=1)(p))\n#define ${n}_sel(x, y, c) ((int(*)(int, int, int))asm(select)(x, y, c))\nstatic unsigned char ${n}_m[16] = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 };\nint ${n}(int a, int b)\n{\n  return ${n}_clz(a) + ${n}_rotl(b, ${r.int(31)}) + (int)${n}_ctz((long long)a) + ${n}_ld(&${n}_m[1]);\n}\n` });
S.simd = (r, n) => { const h = '#include <wasm_simd128.h>\n'; const k = r.int(16); return { head: h, body: `static unsigned char ${n}_b[32] = { ${Array.from({ length: 32 }, () => r.int(256)).join(', ')} };\nstatic v128_t ${n}_g(v128_t p, int k, v128_t q)\n{\n  v128_t r = wasm_i8x16_shuffle(p, q, ${Array.from({ length: 16 }, () => r.int(16)).join(', ')});\n  v128_t c = ${r.pick([`wasm_i64x2_const(${L(r)}, ${L(r)})`, `wasm_i32x4_const(${r.int(1e9)}, -${r.int(1e9)}, 3, 4)`, `wasm_f64x2_const(${r.pick(['1.5', '-0.25', '1e300'])}, 2.0)`, `wasm_f32x4_const(1.5f, -2.5f, 0.0f, 3.0f)`, `wasm_i16x8_const(1, -2, 3, ${r.int(30000)}, 5, 6, 7, -8)`, `wasm_i8x16_const(1, 2, 3, 4, 5, 6, 7, ${r.int(127)}, 9, 10, 11, 12, 13, 14, 15, -16)`])};\n  if (k > ${r.int(9)}) r = wasm_i32x4_add(r, c); else r = wasm_v128_xor(r, c);\n  return r;\n}\nint ${n}(int a, int b)\n{\n  v128_t x = wasm_v128_load(&${n}_b[0]), y = wasm_i32x4_splat(b), z;\n  z = ${n}_g(x, a, y);\n  z = wasm_i32x4_replace_lane(z, ${r.int(4)}, a);\n  z = wasm_v128_load8_lane(&${n}_b[3], z, ${k});\n  wasm_v128_store(&${n}_b[16], z);\n  return wasm_i32x4_extract_lane(z, ${r.int(4)}) + (int)wasm_u8x16_extract_lane(z, ${r.int(16)}) + (int)${n}_b[17];\n}\n` }; };
S.narrow = (r, n) => ({ body: `static unsigned char ${n}_c = ${r.int(256)};\nshort ${n}_s = ${r.pick(['-32768', '32767', '-1', '5'])};\nstatic unsigned short ${n}_h[3] = { 65535, ${r.int(65536)} };\nchar ${n}_k[4] = "\\377\\x80a";\nint ${n}(int a, int b)\n{\n  ${n}_c += (unsigned char)a; ${n}_s ^= (short)b; ${n}_h[1]++; ${n}_k[a & 3]--; ${n}_k[1] <<= 1;\n  return (int)${n}_c++ + (int)--${n}_s + (int)${n}_h[1] * (int)${n}_k[b & 3] + (a++ - ++b) + (a, b);\n}\n` });
S.strs = (r, n) => { const q = () => r.pick(['plain', 'a\\tb\\n', '\\\\ \\" \\\'', '\\x7f\\x80\\xff', '\\0start', 'end\\0', '\\303\\251t\\303\\251', '%%', '\\a\\b\\f\\v\\r', '(module)', '~', ' ', 'x'.repeat(r.pick([3, 63, 64, 200]))]); return { body: `const char *${n}_p = "${q()}";\nstatic char ${n}_a[] = "${q()}" "${q()}";\nconst char *${n}_l[3] = { "${q()}", "${q()}", "${q()}" };\nint ${n}(int a, int b)\n{\n  const char *s = "${q()}", *t = ${n}_l[(a & 255) % 3]; int r = 0;\n  while (*s != 0) r = r * 31 + (int)*s++;\n  r += (int)t[0] + (int)*${n}_p + (int)${n}_a[b & 1] + (int)sizeof(${n}_a);\n  return r;\n}\n` }; };
S.wide = (r, n) => ({ head: '#include <wchar.h>\n', body: `static const wchar_t *${n}_w = L"${r.pick(['wide', '\\x123', 'caf\\303\\251'])}";\nint ${n}(int a, int b)\n{\n  wchar_t c = (wchar_t)${r.pick(['120', "L'x'", "L'\\n'"])};\n  return (int)${n}_w[0] + (int)c + a - b;\n}\n` });
S.alloca = (r, n) => ({ head: '#include <stdlib.h>\n', body: `int ${n}(int a, int b)\n{\n  int k, r = 0, m = (a & 7) + 1; int *p = alloca((size_t)m * sizeof(int)); char big[${r.pick([3, 17, 100, 5000])}];\n  big[1] = (char)b;\n  for (k = 0; k < m; ++k) p[k] = k * b;\n  while (k-- > 0) r += p[k];\n  return r + (int)big[1];\n}\n` });
S.rec = (r, n) => ({ body: `static int ${n}_o(int k, int acc);\nstatic int ${n}_e(int k, int acc) { return k <= 0 ? acc : ${n}_o(k - 1, acc * 2 + 1); }\nstatic int ${n}_o(int k, int acc) { return k <= 0 ? -acc : ${n}_e(k - 1, acc ^ ${r.int(99)}); }\nint ${n}(int a, int b) { return ${n}_e(a & 15, b) + (b != 0 && a > 0 || !(a == 3) ? 1 : 2); }\n` });
S.mac = (r, n) => ({ body: `#define ${n}_A(x, ...) (${n}_m(x, __VA_ARGS__))\n#define ${n}_B ((${r.int(50)} + 2) * 3)\n#define ${n}_C(x) ((x) > ${n}_B ? (x) : ${n}_B)\nenum ${n}_en { ${n}_X = ${n}_B, ${n}_Y, ${n}_Z = -5 };\nstatic int ${n}_m(int x, int y, int z) { return x + y * z; }\nint ${n}(int a, int b)\n{\n  enum ${n}_en e = ${n}_Y; int v[${n}_B]; v[0] = (int)e;\n  return ${n}_A(a, b, ${n}_C(a)) + (int)sizeof(v) + v[0] + ${n}_Z;\n}\n` });
S.libm = (r, n) => ({ head: '#include <math.h>\n#include <string.h>\n#include <limits.h>\n', body: `int ${n}(int a, int b)\n{\n  double d = ${r.pick(['sqrt', 'floor', 'fabs', 'ceil'])}((double)a) + HUGE_VAL * 0.0; char t[${r.range(8, 40)}];\n  memset(&t[0], b, sizeof(t)); strcpy(&t[0], "abc");\n  return (int)strlen(&t[0]) + (d > 5.0 ? INT_MAX : INT_MIN) + (memcmp(&t[0], "abd", 3U) < 0 ? 1 : 0);\n}\n` });
S.ptr = (r, n) => ({ body: `static int ${n}_a[20]; struct ${n}_n { struct ${n}_n *next; int v; }; static struct ${n}_n ${n}_l[4];\nint ${n}(int a, int b)\n{\n  int *p = &${n}_a[3], *q = p + ${r.int(9)}; struct ${n}_n *x, **pp; int r = 0; void *vp;\n  *q = a; q[1] = b; *(p + 2) += 5; p += 1; q -= 1;\n  ${n}_l[0].next = &${n}_l[1]; ${n}_l[1].next = NULL; ${n}_l[1].v = a;\n  for (x = &${n}_l[0]; x != NULL; x = x->next) r += x->v++;\n  pp = &${n}_l[0].next; (*pp)->v = b; vp = &${n}_l[1];\n  return r + (int)(q - p) + (q > p ? 1 : 0) + ((struct ${n}_n *)vp)->v + (int)(size_t)(p - &${n}_a[0]) + (vp == NULL ? 1 : 0);\n}\n` });
S.extdata = (r, n) => ({ head: `extern int ${n}_big[];\n`.slice(0, 0), body: `int ${n}_big[${r.pick([10, 300, 5000])}];\nstatic char ${n}_odd[${r.pick([1, 3, 7, 13])}] = "";\nlong long ${n}_al = ${L(r)};\nstatic char ${n}_odd2[${r.pick([1, 5, 9])}];\ndouble ${n}_dd;\nint ${n}(int a, int b)\n{\n  ${n}_big[a & 7] = b; ${n}_odd[0] = 'c'; ${n}_odd2[0]++; ${n}_dd += 1.0; ${n}_al++;\n  return ${n}_big[b & 7] + (int)${n}_odd2[0] + (int)${n}_dd + (int)${n}_al + (int)${n}_odd[0];\n}\n` });
S.fold = (r, n) => { // constant expressions of every width and sign
  const EI = ['(-2147483647 - 1)', '2147483647', '-1', '1', '7', '-3', '65536', '40000', '255'], EL = ['(-9223372036854775807LL - 1LL)', '9223372036854775807LL', '-1LL', '1LL', '10LL', '-4294967297LL', '4294967296LL'], EU = ['4294967295U', '1U', '2147483648U', '10U'], EQ = ['18446744073709551615ULL', '1ULL', '9223372036854775808ULL', '1000000007ULL'];
  const x = (t, d) => { const P = t === 'int' ? EI : t === 'long long' ? EL : t === 'unsigned' ? EU : EQ; const k = d ? r.int(10) : 0;
    if (k < 3) return r.pick(P); if (k < 6) return '(' + x(t, d - 1) + r.pick([' + ', ' - ', ' * ', ' & ', ' | ', ' ^ ']) + x(t, d - 1) + ')';
    if (k === 6 && r.chance(0.4)) return '(' + P[0] + r.pick([' / ', ' % ']) + P[2] + ')'; if (k === 6) return '(' + x(t, d - 1) + r.pick([' / ', ' % ']) + r.pick(P) + ')'; if (k === 7) return '(' + x(t, d - 1) + r.pick([' << ', ' >> ']) + r.int(t.length > 8 || t === 'long long' ? 64 : 32) + ')';
    if (k === 8) return '(' + r.pick(['~', '-']) + x(t, 0).replace(/^-/, '') + ')'; return '((' + t + ')' + r.pick(['(unsigned char)', '(short)', '(signed char)', '(unsigned short)', '(long)', '']) + x(t, d - 1) + ')'; };
  const T = ['int', 'long long', 'unsigned', 'unsigned long long']; const vs = Array.from({ length: r.range(2, 8) }, () => r.pick(T));
  return { body: vs.map((t, i) => `static ${t} ${n}_k${i} = ${x(t, 3)};\n`).join('') + `int ${n}(int a, int b)\n{\n  long long r = a;\n` + vs.map((t, i) => `  r = r * 31LL + (long long)${n}_k${i};\n  if ((${t})${x(t, 2)} ${r.pick(['<', '==', '>='])} ${x(t, 2)}) r += ${i + 1}LL; else r ^= (long long)${x(t, 2)};\n`).join('') + '  return (int)(r ^ (r >> 32)) + b;\n}\n' }; };
S.ternary = (r, n) => ({ body: `int ${n}(int a, int b)\n{\n  long long l = a > b ? ${L(r)} : (long long)b; double d = a != 0 ? ${F(r)} : ${F(r)}; float f = b < 3 ? ${FF(r)} : 2.0f; const char *s = a > 0 ? "yes" : "no"; unsigned u = (unsigned)a >> 1 ${r.pick(['<', '>'])} 5U ? 7U : ${r.pick(['4294967295U', '2147483648U'])};\n  int t = a < 0 ? -1 : a > 0 ? 1 : 0;\n  return (int)(l & 255LL) + (d < 1.0 ? 1 : 0) + (f > 1.0f ? 4 : 0) + (int)s[1] + (int)u + t;\n}\n` });
S.disp = (r, n) => { // displays: constant arrays and structures, often with fewer initialisers than elements
  const k = r.range(2, 60), m = r.range(1, Math.min(k, 6)), T = r.pick(['int', 'short', 'char', 'long long', 'unsigned char', 'double', 'float']); const v = () => T === 'char' || T === 'unsigned char' ? r.pick(["'a'", "'\\x7f'", "'z'"]) : T === 'double' || T === 'float' ? r.pick(['1.5f', '2.0f', '0.0f', '3.25f']) : String(r.int(30000)); const el = (c) => Array.from({ length: c }, v).join(', ');
  return { body: `struct ${n}_s { char c; ${r.pick(['int', 'double', 'short'])} i; char t[${r.range(1, 9)}]; long long q; };\nstatic int ${n}_u(const ${T} *p, int i) { return (int)p[i]; }\nstatic int ${n}_w(const struct ${n}_s *p) { return (int)p->c + (int)p->i + (int)p->t[0] + (int)p->q; }\nint ${n}(int a, int b)\n{\n  int r = ${n}_u((${T}[${k}]){ ${el(m)} }, (a & 0x7fff) % ${k});\n  ${T} x[${k}] = { ${el(m)} };\n  char y[${r.range(4, 40)}] = "${r.pick(['', 'ab', 'abc'])}";\n  const char *z[${r.range(2, 5)}] = { "${r.pick(['p', 'qq'])}", "r" };\n  struct ${n}_s s = { '${r.pick(['a', 'b'])}', ${r.int(99)}, { ${r.pick(["'x'", '1'])} }, ${r.int(99)}LL };\n  const char *w = (char[${r.range(4, 30)}])"${r.pick(['', 'xy', 'xyz'])}";\n  x[0] += (${T})1; y[1] += (char)b; r += (int)x[(b & 0x7fff) % ${k}] + (int)y[a & 3] + (z[1] != NULL ? 1 : 0) + ${n}_w(&s) + (int)w[b & 3];\n  s = (struct ${n}_s){ 'q', ${r.int(99)}, { 'y' }, ${r.int(9)}LL };\n  return r + ${n}_w(&s);\n}\n` }; };
module.exports = { S };
