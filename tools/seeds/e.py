from lib import *
def dm(id,body): return 'T=/tmp/wcpl-demo-%s; W="_build/wcpl -q -L _build/lib/ -I lib/include/"\n'%id+body
SELF='''$W -o $T/self.wasm -I ./ c.c l.c p.c w.c || exit 2
'''
NODE="""'use strict';
const fs = require('fs'), host = require('./host');
const T = process.argv[2], fail = (s) => { console.log('FAIL: ' + s); process.exit(1); };
const mod = new WebAssembly.Module(fs.readFileSync(T + '/self.wasm'));
"""
mk('b01-open-out','B01',[('c.c',"""      FILE *pf = fopen(ofile_arg, "w");
      if (!pf) eprintf("cannot open output file %s:", ofile_arg);
""","""      FILE *pf = fopen(ofile_arg, "w");
      if (!pf) { /* leave the object module on standard output instead */
        logef("# cannot open output file %s\\n", ofile_arg);
        pf = stdout;
      }
""")],
 'an output file that cannot be opened, with -c','the build exits 0 although its output file was not written',
 demo=dm('b01-open-out','''printf 'int f(void) { return 1; }\\n' >$T/p.c
$W -c -o $T/nosuch/p.o $T/p.c >$T/out 2>$T/err && { echo "FAIL: status 0, no output file"; exit 1; }
exit 0
'''))
mk('b02-display','B02',[('c.c',"""        pd->mod = g_curmod; pd->id = internf("ds%d$", (int)pdidx);
        measure_type(ptn, pn, &size, &align, 0);
        bufresize(&pd->data, size); /* fills with zeroes */
        pd->align = (int)align; pd->mut = MT_CONST;
        pd = initialize_bulk_data(pdidx, pd, 0, ptn, pn);""","""        pd->mod = g_curmod; pd->id = internf("ds%d$", (int)pdidx);
        measure_type(ptn, pn, &size, &align, 0);
        bufgrow(&pd->data, size); pd->data.fill = size; /* all of it comes from the display */
        pd->align = (int)align; pd->mut = MT_CONST;
        pd = initialize_bulk_data(pdidx, pd, 0, ptn, pn);""")],
 'a constant display with fewer initialisers than elements or with padding, and a heap that hands out memory with left-over contents','the rest of the display holds whatever was in the heap, so two builds of the same sources differ',
 demo=dm('b02-display','''cat >$T/p.c <<'E'
#include <stdio.h>
int main(void) { const int *p = (int[40]){ 1, 2 }; printf("%d %d", p[1], p[33]); return 0; }
E
MALLOC_PERTURB_=17 $W -o $T/a.wasm $T/p.c || exit 2
MALLOC_PERTURB_=89 $W -o $T/b.wasm $T/p.c || exit 2
cmp $T/a.wasm $T/b.wasm || { echo "FAIL: two builds of the same source differ"; exit 1; }
'''))
mk('b03-shuffle','B03',[('w.c',"          lidxv = (lidxv << 4) | (lidx & 0xFULL);","          lidxv |= (lidx & 0xFULL) << (i * 4);")],
 'an i8x16 shuffle in an object file','the lanes of the shuffle come out in reverse order when the program is linked from object files',
 demo=dm('b03-shuffle','''cat >$T/p.c <<'E'
#include <stdio.h>
#include <wasm_simd128.h>
int main(void) { v128_t a = wasm_i8x16_const(0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15);
 v128_t c = wasm_i8x16_shuffle(a, a, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 0);
 printf("%d %d", wasm_i8x16_extract_lane(c, 0), wasm_i8x16_extract_lane(c, 15)); return 0; }
E
$W -o $T/a.wasm $T/p.c || exit 2
$W -c -o $T/p.o $T/p.c || exit 2
$W -o $T/b.wasm $T/p.o || exit 2
cmp $T/a.wasm $T/b.wasm || { echo "FAIL: compiled at once and linked from the object file differ"; exit 1; }
'''))
mk('b05-ulong-mask','B05',[('c.c',"""    /* fixme: should depend on wasm32/wasm64 model */
    case TS_LONG: case TS_ULONG:                  
      return u & 0x00000000FFFFFFFFull; 
    case TS_LLONG: case TS_ULLONG:  
      return u;""","""    case TS_LONG: case TS_ULONG:
      return (unsigned long)u;
    case TS_LLONG: case TS_ULLONG:  
      return u;""")],
 'a constant expression of type unsigned long that exceeds 32 bits','the native compiler, where long has 64 bits, does not reduce the value; the self-hosted one does',
 host=True,files={'t.js':NODE+"""const w = new host.World({ args: ['wcpl', '-q', '-c', '/p.c'], preopens: [{ name: '/', path: '' }] });
const n = w.fs.mkpath('p.c', 'file'); n.data = fs.readFileSync(T + '/p.c'); n.size = n.data.length;
const e = host.runProgram(mod, w); const want = fs.readFileSync(T + '/p.o', 'latin1'), got = w.sinkBytes(1).toString('latin1');
if (got !== want) fail('the self-hosted compiler gives ' + got + w.sinkBytes(2).toString('latin1') + e.end + ' instead of ' + want);
"""},demo=dm('b05-ulong-mask','''printf 'int g = ((unsigned long)10000000000LL) > 3000000000UL ? 1 : 2;\\n' >$T/p.c
'''+SELF+'''_build/wcpl -q -c $T/p.c >$T/p.o || exit 2
timeout 100 node "$D/t.js" $T
'''))
