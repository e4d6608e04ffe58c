from lib import *
# S05: fopen with mode "a" when the host cannot seek
mk('s05-append-leak','S05',[('lib/src/stdio.c',"    fclose(fp); fp = NULL;\n  }\n  return fp;\n}\n\nFILE *fopen","    fp->flags = 0; fp = NULL;\n  }\n  return fp;\n}\n\nFILE *fopen")],
 'fopen in append mode of something the host opens but cannot seek in, many times','each failing fopen leaves its descriptor open for ever, so the descriptors run out',
 pc='''#include <stdio.h>
int main(void) {
  int i; FILE *f;
  for (i = 0; i < 40; ++i) { f = fopen("o", "a"); if (f != NULL) return 4; }
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); const n0 = w.fds.size; w.armed = [{ sc: 'fd_seek', kind: 'err', errno: 70 }]; w.onEnd = null;
const e = host.runProgram(mod(), w); if ((e.code || 0) !== 0) fail('fopen succeeded although the host cannot seek');
if (w.fds.size > n0) fail((w.fds.size - n0) + ' descriptors left open by failed fopen calls');
''')
mk('s06-exit-in-handler','S06',[('lib/src/crt.args.c',"""  while (onterm_count > 0) {
    onterm_func_t fn = onterm_funcs[--onterm_count];
    (*fn)();
  }
""","""  size_t i;
  for (i = onterm_count; i > 0; --i) {
    onterm_func_t fn = onterm_funcs[i-1];
    (*fn)();
  }
  onterm_count = 0;
"""),('lib/src/crt.argv.c',"""  while (onterm_count > 0) {
    onterm_func_t fn = onterm_funcs[--onterm_count];
    (*fn)();
  }
""","""  size_t i;
  for (i = onterm_count; i > 0; --i) {
    onterm_func_t fn = onterm_funcs[i-1];
    (*fn)();
  }
  onterm_count = 0;
""")],
 'a handler registered while handlers run, in a program linked with an argument area','a function registered by an atexit handler is never called, although atexit reported success',
 pc='''#include <stdio.h>
#include <stdlib.h>
static void last(void) { fputs("last;", stdout); }
static void first(void) { fputs("first;", stdout); if (atexit(&last) != 0) fputs("refused;", stdout); }
int main(int argc, char **argv) { atexit(&first); fputs("main;", stdout); return 2 + argc; }
''',tjs='''const w = new host.World({ args: ['p'] }); const e = host.runProgram(mod(), w); const o = w.sinkBytes(1).toString('latin1');
if (o !== 'main;first;last;' || e.code !== 3) fail('output ' + o + ' status ' + e.code);
''')
mk('s07-unbuffered-stdin','S07',[('lib/src/stdio.c',"  if (fp->flags & (_IOLBF|_IONBF))\n    for (fpi","  if (fp->flags & _IOLBF)\n    for (fpi")],
 'standard input set to unbuffered with setvbuf before a prompt without newline is written','the prompt stays in the output buffer while the program already waits for the answer',
 pc='''#include <stdio.h>
int main(void) {
  char b[40];
  setvbuf(stdin, NULL, _IONBF, 0);
  printf("name? ");
  if (fgets(&b[0], 40, stdin) != NULL) printf("hi %s", b);
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'], std: { 0: { kind: 'tty', data: 'bob\\n' }, 1: { kind: 'tty' }, 2: { kind: 'tty' } } });
let seen = null; const note = w.note.bind(w); w.note = (s) => { if (seen === null && /^fd_read/.test(s)) seen = w.sinkBytes(1).toString('latin1'); note(s); };
host.runProgram(mod(), w); if (seen !== 'name? ') fail('when the program waits for input the terminal shows ' + JSON.stringify(seen));
''')
mk('m01-size-class','M01',[('lib/src/stdlib.c',"    size_t blkmin = payload + sizeof(header_t) - 1;\n    size_t p2 = 32U - _clz((unsigned)blkmin);\n    return p2 < BUCKET0P2 ? 0 : p2 - BUCKET0P2;","    size_t blk = payload + sizeof(header_t);\n    size_t p2 = 31U - _clz((unsigned)blk);\n    if ((blk & (BI2BLKSZ(0) - 1)) != 0 && blk > (1U << p2)) ++p2;\n    return p2 < BUCKET0P2 ? 0 : p2 - BUCKET0P2;")],
 'an allocation whose size plus header is a multiple of 32 but not a power of two','the block is taken from the size class below, so it overlaps the next block',
 pc='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) {
  char *a[8]; int i, j, n;
  for (n = 1; n <= 3000; ++n) {
    for (i = 0; i < 8; ++i) if ((a[i] = malloc((size_t)n)) == NULL) return 4;
    for (i = 0; i < 8; ++i) for (j = i + 1; j < 8; ++j) if (a[i] < a[j] ? a[i] + n + 16 > a[j] : a[j] + n + 16 > a[i]) { printf("blocks %d and %d of %d bytes overlap\\n", i, j, n); return 5; }
    for (i = 0; i < 8; ++i) free(a[i]);
  }
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); const e = host.runProgram(mod(), w);
if ((e.end !== 'return' && e.end !== 'exit') || e.code) fail(e.end + ' ' + (e.code || '') + ' ' + (e.why || '') + ' ' + w.sinkBytes(1).toString('latin1') + w.sinkBytes(2).toString('latin1'));
''')
mk('m02-no-left-merge','M02',[('lib/src/stdlib.c',"        if (pbi_prec->used.ff != 0xff && (pbi_prec+1)->used.bi == bi) { ","        if (pbi_prec == buckets[bi] && pbi_prec->used.ff != 0xff && (pbi_prec+1)->used.bi == bi) {")],
 'freeing many small blocks in an order in which the left sibling is not the last one freed, then asking for larger ones','free siblings are no longer joined, so memory freed in small pieces is never available for larger blocks and the heap grows with each round',
 pc='''#include <stdio.h>
#include <stdlib.h>
#define N 20000
static void *p[N];
int main(void) {
  int i, r; void *q;
  for (r = 0; r < 4; ++r) {
    for (i = 0; i < N; ++i) if ((p[i] = malloc(16)) == NULL) return 5;
    for (i = 0; i < N; i += 2) free(p[i]);
    for (i = 1; i < N; i += 2) free(p[i]);
    for (i = 0; i < 9; ++i) if ((p[i] = malloc(60000)) == NULL) { printf("round %d, block %d\\n", r, i); return 6; }
    for (i = 0; i < 9; ++i) free(p[i]);
  }
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); const e = host.runProgram(mod(11), w); // little more than the small blocks need
if ((e.end !== 'return' && e.end !== 'exit') || e.code) fail(e.end + ' ' + (e.code || '') + ' ' + (e.why || '') + ' ' + w.sinkBytes(1).toString('latin1'));
''')
