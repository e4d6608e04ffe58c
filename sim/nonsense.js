'use strict';
// Programs whose tokens are in order but whose types need not be: the state a source is in after a stray edit.
const TY = ['int', 'char', 'unsigned', 'short', 'unsigned char', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'bool', 'v128_t', 'void', 'struct S', 'struct N', 'union U', 'enum E', 'T', 'TA', 'TF', 'int *', 'void *', 'char **', 'struct S *', 'struct N *', 'union U *', 'v128_t *', 'double *', 'TA *', 'TF *', 'va_list', 'const char *', 'size_t'];
const AT = ['c', 'd', 'f', 'u', 'll', 'ull', 'uc', 'sh', 'b', 'a', 'p', 'v', 's', 'ps', 'un', 'pu', 'pn', 'ar', 'am', 'fp', 'pa', 'pd', 'e', 'ta', 'gs', 'ga', 'gi', 'gd', 'gv', 'gp', 'gf', 'main', 'fn', 'fv', 'fd', 'fs', 'vf', 'A', 'nope', '0', '1', '-1', '1.5', '1.5f', "'x'", '"abc"', '0u', '5LL', '18446744073709551615ULL', '1e300', 'NULL', 'sizeof(int)', 'argv', 'x1', 'L', '__func__', 'true'];
const UN = ['-', '+', '!', '~', '*', '&', '++', '--', '(int)', '(double)', '(void)', '(v128_t)', '(struct S)', '(void *)', '(char)', '(long long)', '(T)', '(TA)', '(int *)', '(float)', '(bool)', '(enum E)', '(struct S *)', '(unsigned char)', 'sizeof ', '(struct N)', '(TF *)', '(unsigned long)'];
const BIN = ['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '&&', '||', '==', '!=', '<', '>', '<=', '>=', '=', '+=', '-=', '*=', '/=', '%=', '<<=', '>>=', '&=', '|=', '^=', ','];
const PRE = `#include <stdio.h>\n#include <stdarg.h>\n#include <stddef.h>\n#include <stdbool.h>\n#include <wasm_simd128.h>\nstruct S { int i; double d; v128_t v; char *n; int k[3]; struct S *next; };\nunion U { int i; double d; struct S s; };\nenum E { A, B = 7 };\ntypedef int T; typedef int TA[4]; typedef int TF(int);\nstatic struct S gs; static v128_t ga[3]; static int gi; static double gd; static v128_t gv; static char *gp = "g"; static float gf;\nint fn(int x) { return x; }\nvoid fv(void) { }\ndouble fd(double x, int *y) { return x; }\nstruct S *fs(struct S *x) { return x; }\nint vf(int x, ...) { return x; }\n`;
const LOC = 'double d = 1; float f = 2; unsigned u = 3; long long ll = 4; unsigned long long ull = 5; unsigned char uc = 6; short sh = 7; bool b = true; v128_t a; int *p = NULL; void *v = NULL; struct S s; struct S *ps = &s; union U un; union U *pu = &un; struct N *pn = NULL; int ar[3]; int am[2][3]; int (*fp)(int) = &fn; int (*pa)[3] = NULL; double *pd = NULL; enum E e = A; TA ta; va_list L;';
function gen(rng) {
  const E = (k) => {
    if (k <= 0 || rng.chance(0.15)) return rng.pick(AT);
    switch (rng.weighted([[5, 'bin'], [4, 'un'], [2, 'cond'], [3, 'call'], [3, 'index'], [3, 'field'], [1, 'post'], [1, 'cast'], [1, 'par'], [1, 'disp'], [1, 'va'], [1, 'asm'], [1, 'sz']])) {
      case 'bin': return `${P(k - 1)} ${rng.pick(BIN)} ${P(k - 1)}`;
      case 'un': return `${rng.pick(UN)}${P(k - 1)}`;
      case 'cond': return `${P(k - 1)} ? ${P(k - 1)} : ${P(k - 1)}`;
      case 'call': return `${rng.chance(0.6) ? rng.pick(['fn', 'fv', 'fd', 'fs', 'vf', 'fp', 'puts', 'printf', 'main']) : P(k - 1)}(${Array.from({ length: rng.int(4) }, () => P(k - 1)).join(', ')})`;
      case 'index': return `${P(k - 1)}[${P(k - 1)}]`;
      case 'field': return `${P(k - 1)}${rng.pick(['.', '->'])}${rng.pick(['i', 'd', 'v', 'n', 'k', 'next', 's', 'zz'])}`;
      case 'post': return `${P(k - 1)}${rng.pick(['++', '--'])}`;
      case 'cast': return `(${rng.pick(TY)}${rng.pick(['', '', '*', '[3]', '[]', '(*)(int)', '(*)[2]'])})${P(k - 1)}`;
      case 'par': return `(${E(k - 1)})`;
      case 'disp': return `(${rng.pick(['struct S', 'int[2]', 'TA', 'union U', 'v128_t', 'int', 'struct N'])}){ ${Array.from({ length: rng.range(1, 4) }, () => P(k - 1)).join(', ')} }`;
      case 'va': return rng.pick([`va_arg(${P(k - 1)}, ${rng.pick(TY)})`, `va_start(${P(k - 1)}, ${P(0)})`, `va_end(${P(k - 1)})`, `va_copy(L, ${P(k - 1)})`]);
      case 'asm': return `((${rng.pick(TY)}(*)(${rng.pick(['void', 'int', 'double', 'v128_t', 'struct S', 'void *', 'int, int'])}))asm(${rng.pick(['i32.add', 'nop', 'drop', 'unreachable', 'local.get $c', 'i32.const 5', 'f64.neg', 'memory.size', 'v128.not', 'i32.load offset=0 align=4', 'br 0', 'end', 'global.get $gi', 'call $fn', 'ref.data $gs', 'select'])}))(${rng.chance(0.5) ? P(k - 1) : ''})`;
      default: return rng.pick([`sizeof(${E(k - 1)})`, `sizeof(${rng.pick(TY)}${rng.pick(['', '*', '[3]', '[]', '[c]'])})`, `offsetof(struct S, ${rng.pick(['i', 'v', 'k', 'zz'])})`]);
    }
  };
  const P = (k) => { const x = E(k); return /^[\w."']+$/.test(x) || rng.chance(0.2) ? x : `(${x})`; };
  const init = (k) => rng.chance(0.4) ? `{ ${Array.from({ length: rng.range(1, 4) }, () => k > 0 ? init(k - 1) : P(1)).join(', ')} }` : P(rng.int(3));
  const decl = (n) => `${rng.pick(TY)} ${rng.pick(['', '', '*', '**'])}${rng.pick([n, n, n, `${n}[${rng.pick(['', '2', '0', 'c', '1.5', '-1', '"a"'])}]`, `${n}[2][3]`, `(*${n})(int)`, `(*${n})[3]`, `${n}(int x)`, `(*${n}[2])(void)`])}${rng.chance(0.4) ? ' = ' + init(2) : ''}`;
  const S = (k) => {
    switch (rng.weighted([[10, 'expr'], [2, 'if'], [1, 'while'], [1, 'do'], [1, 'for'], [2, 'switch'], [2, 'return'], [1, 'jump'], [2, 'decl'], [1, 'block'], [1, 'label']])) {
      case 'expr': return E(rng.weighted([[3, 1], [2, 2], [2, 3]])) + ';';
      case 'if': return `if (${E(2)}) ${S(k - 1)}${rng.chance(0.4) ? ' else ' + S(k - 1) : ''}`;
      case 'while': return `while (${E(2)}) ${S(k - 1)}`;
      case 'do': return `do ${S(k - 1)} while (${E(2)});`;
      case 'for': return `for (${rng.chance(0.2) ? decl('q') : rng.chance(0.2) ? '' : E(2)}; ${rng.chance(0.2) ? '' : E(2)}; ${rng.chance(0.2) ? '' : E(2)}) ${S(k - 1)}`;
      case 'switch': return `switch (${E(2)}) { ${Array.from({ length: rng.int(4) }, () => rng.pick([`case ${E(1)}: `, 'default: ', `case ${rng.int(9)}: `]) + S(k - 1) + (rng.chance(0.5) ? ' break;' : '')).join(' ')} }`;
      case 'return': return rng.chance(0.2) ? 'return;' : `return ${E(2)};`;
      case 'jump': return rng.pick(['break;', 'continue;', 'goto l1;', 'goto l2;']);
      case 'decl': return rng.pick(['', '', '', 'static ', 'register ', 'extern ', 'const ', 'typedef ', 'auto ']) + decl(rng.pick(['q1', 'q2', 'c', 'gi', 'T'])) + ';';
      case 'block': return k > 0 ? `{ ${S(k - 1)} ${S(k - 1)} }` : ';';
      default: return `${rng.pick(['l1', 'l2', 'c'])}: ${k > 0 ? S(k - 1) : ';'}`;
    }
  };
  let s = PRE; for (let i = rng.weighted([[3, 0], [2, 1], [1, 3]]); i > 0; i--) s += rng.pick(['', 'static ', 'extern ', 'typedef ', 'const ']) + decl('g' + i) + ';\n';
  if (rng.chance(0.2)) s += `${rng.pick(TY)} hf(${Array.from({ length: rng.range(0, 3) }, (_, i) => decl('h' + i).replace(/ =.*/, '')).join(', ')}${rng.pick(['', '', ', ...', 'void', '...'])}) { ${S(2)} }\n`;
  return s + `${rng.pick(['int main(int c, char **argv)', 'int main(int c, char **argv)', 'int main(void)', 'void main(int c)'])} { ${LOC}\n${Array.from({ length: rng.weighted([[6, 1], [3, 2], [1, 5]]) }, () => S(2)).join('\n')}\nreturn 0; }\n`;
}
module.exports = { gen };
