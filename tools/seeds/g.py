from lib import *
def dm(id,body): return 'T=/tmp/wcpl-demo-%s; W="_build/wcpl -q -L _build/lib/ -I lib/include/"\n'%id+body
CRASH='''
[ $r = 124 ] && { echo "FAIL: never ends"; exit 1; }
[ $r -ge 128 ] && { echo "FAIL: the compiler crashes"; cat $T/err; exit 1; }
[ $r = 0 ] && { echo "FAIL: accepted"; exit 1; }
[ -s $T/err ] || { echo "FAIL: no diagnostic"; exit 1; }
exit 0
'''
mk('b07-align','B07',[('w.c','''    if (errno || *e != 0 || (align != 1 && align != 2 && align != 4 && align != 8 && align != 16)) 
''','''    if (errno || *e != 0 || (align & (align-1)) != 0 || align > 16) /* not a power of 2 */
''')],
 'an object file in which the alignment of a data segment has been damaged to 0 (one bit of the digit 8)','zero passes for a power of two; the linker divides by it',
 demo=dm('b07-align','''cat >$T/p.c <<'E'
#include <stdio.h>
double table[3] = { 1.5, 2.5, 3.5 };
int main(void) { printf("%d", (int)table[1]); return 0; }
E
$W -c -o $T/p.wo $T/p.c || exit 2
grep -q 'align=8 "' $T/p.wo || exit 2
sed 's/align=8 "/align=0 "/' $T/p.wo >$T/q.wo
timeout 20 $W -o $T/q.wat $T/q.wo 2>$T/err; r=$?; echo "status $r"
'''+CRASH))
mk('b07-putref','B07',[('w.c','''              if (off % 4 != 0 || off + 4 > cblen(&pd->data)) /* wasm32 */
''','''              if (off % 4 != 0 || off > cblen(&pd->data) - 4) /* wasm32 */
''')],
 'an object file in which a table of addresses has lost its bytes while the references into it remain','the room left is computed by an unsigned subtraction that wraps around for a segment shorter than an address, so the linker writes outside its buffer',
 demo=dm('b07-putref','''cat >$T/p.c <<'E'
#include <stdio.h>
char *table[3] = { "one", "two", "three" };
int main(void) { printf("%s", table[1]); return 0; }
E
$W -c -o $T/p.wo $T/p.c || exit 2
grep -q 'size=12' $T/p.wo || exit 2
sed -e 's/size=12/size=0/' -e 's/offset=8/offset=800000000/' $T/p.wo >$T/q.wo
timeout 20 $W -o $T/q.wat $T/q.wo 2>$T/err; r=$?; echo "status $r"
'''+CRASH))
mk('b07-macro','B07',[('p.c','''        if (!variadic && ndlen(pfn) != ndblen(&pars)+1)
''','''        if (!variadic && ndlen(pfn) < ndblen(&pars)+1)
''')],
 'a source in which a macro is given fewer arguments than it has parameters','only superfluous arguments are refused; the expansion of a call that lost one reads past the list of arguments',
 demo=dm('b07-macro','''cat >$T/p.c <<'E'
#define MUL(a, b, c) ((a) * (b) + (c))
int main(int argc, char **argv) { return MUL(argc, 2); }
E
timeout 20 $W -o $T/q.wat $T/p.c 2>$T/err; r=$?; echo "status $r"
'''+CRASH))
