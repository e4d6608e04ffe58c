from lib import *
def dm(id,body): return 'T=/tmp/wcpl-demo-%s; W="_build/wcpl -q -L _build/lib/ -I lib/include/"\n'%id+body
mk('b01-rehash','B01',[('l.c',"""      char **na = ecalloc(nsz, sizeof(char*));
      char ***nv = ecalloc(nsz, sizeof(char**));
      for (i = 0;""","""      char **na = calloc(nsz, sizeof(char*));
      char ***nv = calloc(nsz, sizeof(char**));
      if (na == NULL || nv == NULL) { /* low on memory: fill the table up, it has room */
        free(na); free(nv);
        g_symt.maxu = g_symt.sz;
        return intern(name);
      }
      for (i = 0;""")],
 'an allocation that fails when the symbol table is to be enlarged','the build does not stop: it goes on with a table without a free slot, and the next look-up never ends',
 files={'shim.c':'''#define _GNU_SOURCE
#include <stdlib.h>
#include <errno.h>
extern void *__libc_calloc(size_t, size_t);
static int n;
void *calloc(size_t a, size_t b) { if (a >= 512 && b == 8 && ++n == 1) { errno = ENOMEM; return NULL; } return __libc_calloc(a, b); }
'''},demo=dm('b01-rehash','''gcc -shared -fPIC -o $T/shim.so "$D/shim.c" || exit 2
i=0; { echo '#include <stdio.h>'; while [ $i -lt 1200 ]; do echo "int f$i(void) { return $i; }"; i=$((i+1)); done; echo 'int main(void) { puts("x"); return f7(); }'; } >$T/p.c
$W -o $T/p.wat $T/p.c || exit 2
rm -f $T/q.wat
LD_PRELOAD=$T/shim.so timeout 20 $W -o $T/q.wat $T/p.c 2>$T/err; r=$?
echo "status $r"; cat $T/err
[ $r = 124 ] && { echo "FAIL: the build hangs"; exit 1; }
[ $r -ge 128 ] && { echo "FAIL: the build crashes"; exit 1; }
[ $r = 0 ] && { cmp $T/p.wat $T/q.wat && exit 0; echo "FAIL: status 0 with wrong output"; exit 1; }
[ -s $T/err ] || { echo "FAIL: no diagnostic"; exit 1; }
exit 0
'''))
mk('b04-early-open','B04',[('c.c',"""    compile_module_to_wat(ifile_arg, &wm);
    if (ofile_arg) {
      FILE *pf = fopen(ofile_arg, "w");
      if (!pf) eprintf("cannot open output file %s:", ofile_arg);
      write""","""    if (ofile_arg) {
      FILE *pf = fopen(ofile_arg, "w");
      if (!pf) eprintf("cannot open output file %s:", ofile_arg);
      compile_module_to_wat(ifile_arg, &wm);
      write"""),('c.c',"""      logef("# object module written to %s\\n", ofile_arg);
    } else {
""","""      logef("# object module written to %s\\n", ofile_arg);
    } else {
      compile_module_to_wat(ifile_arg, &wm);
""")],
 'a compilation with -c that fails, where an output file exists from an earlier run','the old object file is emptied although nothing was compiled',
 demo=dm('b04-early-open','''printf 'int f(void) { return 1; }\\n' >$T/p.c
$W -c -o $T/p.o $T/p.c || exit 2
cp $T/p.o $T/p.old
printf 'int f(void) { return 1 +; }\\n' >$T/p.c
$W -c -o $T/p.o $T/p.c 2>/dev/null && exit 2
cmp $T/p.o $T/p.old || { echo "FAIL: a failing compilation destroyed the old object file"; exit 1; }
'''))
SELF='''$W -o $T/self.wasm -I ./ c.c l.c p.c w.c || exit 2
'''
NODE="""'use strict';
const fs = require('fs'), host = require('./host');
const T = process.argv[2], fail = (s) => { console.log('FAIL: ' + s); process.exit(1); };
const mod = new WebAssembly.Module(fs.readFileSync(T + '/self.wasm'));
"""
mk('b06-localtime','B06',[('p.c',"""cbputtime("%X", gmtime(&now), &pn->data);""","""cbputtime("%X", localtime(&now), &pn->data);""")],
 'a host whose time zone is not UTC','__TIME__ is the local time while __DATE__ is the UTC date',
 demo=dm('b06-localtime','''printf 'char *t(void) { return __TIME__; }\\n' >$T/p.c
for i in 1 2 3 4 5; do
TZ=XYZ5 _build/wcpl -q -c $T/p.c >$T/a || exit 2
TZ=UTC0 _build/wcpl -q -c $T/p.c >$T/b || exit 2
cmp -s $T/a $T/b && exit 0 # the second may change in between
done
diff $T/a $T/b; echo "FAIL: __TIME__ depends on the time zone"; exit 1
'''))
