from lib import *
mk('f01-link-follows','F01',[('lib/src/unistd.c',"      return linkat(olddirfd, oldrelpath, newdirfd, newrelpath, 0);","      return linkat(olddirfd, oldrelpath, newdirfd, newrelpath, AT_SYMLINK_FOLLOW);")],
 'link() applied to a symbolic link','the new name is a link to what the symbolic link points to, not to the symbolic link itself; a dangling link cannot be linked at all',
 pc='''#include <stdio.h>
#include <unistd.h>
int main(void) {
  if (symlink("nowhere", "s") != 0) return 3;
  if (link("s", "t") != 0) return 4;
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); const e = host.runProgram(mod(), w); if (e.code) fail('link of a symbolic link fails: ' + e.code);
''')
mk('f02-close-eintr','F02',[('lib/src/unistd.c',"  errno_t err = fd_close(fd);\n  if (err != 0) {","  errno_t err = fd_close(fd);\n  if (err != 0 && err != ERRNO_INTR && err != ERRNO_IO) { /* descriptor is gone anyway */")],
 'the host reports an I/O error or an interruption when a descriptor is closed (data that could not be written back)','close and fclose report success although the host reported that the data was not stored',
 pc='''#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
int main(void) {
  int fd = open("o", O_WRONLY|O_CREAT);
  if (fd < 0 || write(fd, "x", 1) != 1) return 3;
  return close(fd) == -1 ? 0 : 5;
}
''',tjs='''const w = new host.World({ args: ['p'] }); w.armed = [{ sc: 'fd_close', kind: 'err', errno: 29 }]; const e = host.runProgram(mod(), w); if (e.code) fail('the host failed a close and close() returned 0 (' + e.code + ')');
''')
mk('f03-rename-dirs','F03',[('lib/src/stdio.c',"      return renameat(olddirfd, oldrelpath, newdirfd, newrelpath);","      return renameat(olddirfd, oldrelpath, olddirfd == newdirfd ? newdirfd : olddirfd, newrelpath);")],
 'rename between two preopened directories','the file ends up in the directory it came from, not in the one named',
 pc='''#include <stdio.h>
int main(void) { return rename("/a/f", "/b/g") == 0 ? 0 : 3; }
''',tjs='''const w = new host.World({ args: ['p'], preopens: [{ name: '/a', path: 'a' }, { name: '/b', path: 'b' }] }); const n = w.fs.mkpath('a/f', 'file'); n.data = Buffer.from('x'); n.size = 1;
const e = host.runProgram(mod(), w); if (e.code) fail('rename failed'); let ok = !!w.fs.root.entries.get('b').entries.has('g'); if (!ok) fail('/b/g does not exist after rename("/a/f", "/b/g")');
''')
mk('d01-scandir-filter','D01',[('lib/src/dirent.c',"        dirent->d_name[entry.d_namlen] = '\\0';\n        cookie = entry.d_next;\n\n        if ((*sel)(dirent)) {","        dirent->d_name[entry.d_namlen] = '\\0';\n\n        if ((*sel)(dirent)) {\n          cookie = entry.d_next;")],
 'scandir with a filter that rejects the entries at the end of a buffer of directory data','reading resumes behind the last accepted entry, so rejected entries are seen again, and a buffer full of rejected entries is read for ever',
 pc='''#include <stdio.h>
#include <string.h>
#include <dirent.h>
static int calls;
static int sel(const struct dirent *d) { ++calls; return d->d_name[0] == (char)'z'; }
int main(void) {
  struct dirent **l; int n = scandir("/", &l, &sel, NULL);
  printf("%d %d\\n", n, calls);
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'], preopens: [{ name: '/', path: '' }] , maxsys: 3000 }); for (let i = 0; i < 400; i++) w.fs.mkpath('f' + i, 'file'); w.fs.mkpath('z', 'file');
const e = host.runProgram(mod(), w); const o = w.sinkBytes(1).toString('latin1'); if (!/^1 40[13]\\n$/.test(o)) fail('scandir: ' + e.end + ' ' + o);
''')
mk('t01-feb29-2400','T01',[('lib/src/time.c',"  if (c_cycles == 4) --c_cycles;\n  remdays -= c_cycles","  remdays -= c_cycles")],
 'the 29th of February of a year divisible by 400','that day is shown as the first of March',
 pc='''#include <stdio.h>
#include <time.h>
int main(void) {
  time_t t; struct tm *p; char b[60];
  t = (time_t)951782400LL; p = gmtime(&t); strftime(&b[0], 60, "%Y-%m-%d %j", p); puts(&b[0]);
  t = (time_t)951868800LL; p = gmtime(&t); strftime(&b[0], 60, "%Y-%m-%d %j", p); puts(&b[0]);
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); host.runProgram(mod(), w); const o = w.sinkBytes(1).toString('latin1'); if (o !== '2000-02-29 060\\n2000-03-01 061\\n') fail(o);
''')
mk('a02-cache','A02',[('lib/src/stdlib.c',"char *getenv(const char *name)\n{\n  if (name != NULL) {","static const char *lastname; static char *lastval; /* repeated queries are common */\n\nchar *getenv(const char *name)\n{\n  if (name != NULL && name == lastname && lastval != NULL && strncmp(name, lastval - strlen(name) - 1, strlen(name)) == 0) {\n    return lastval;\n  } else if (name != NULL) {"),
 ('lib/src/stdlib.c',"        return *env + len + 1;","        return lastname = name, lastval = *env + len + 1;")],
 'a look-up through the same buffer as the one before, with the name in it replaced by a tail of the name','the value of the variable asked for before is returned',
 pc='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char n[20];
int main(void) {
  char *v;
  strcpy(&n[0], "XHOME"); v = getenv(&n[0]); puts(v ? v : "-");
  strcpy(&n[0], "HOME"); v = getenv(&n[0]); puts(v ? v : "-");
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'], env: ['XHOME=wrong', 'HOME=right'] }); host.runProgram(mod(), w); const o = w.sinkBytes(1).toString('latin1'); if (o !== 'wrong\\nright\\n') fail(o);
''')
mk('a01-edge','A01',[('lib/src/crt.args.c',"    char *ptrs_buf = args_buf + args_buf_size;\n    size_t n = (size_t)ptrs_buf % 16;\n    if (n > 0) ptrs_buf += 16-n; \n    char *ptrs_end = ptrs_buf + num_ptrs*sizeof(char*);\n    if (ptrs_end > heap_base) goto err;","    char *ptrs_buf = args_buf + args_buf_size;\n    if (ptrs_buf + num_ptrs*sizeof(char*) > heap_base) goto err;\n    size_t n = (size_t)ptrs_buf % 16;\n    if (n > 0) ptrs_buf += 16-n; ")],
 'arguments that fit the argument area exactly, but not after alignment of the pointers','the last pointers lie in the heap, and the first allocations overwrite them',
 pc='''#include <stdio.h>
#include <stdlib.h>
int main(int argc, char **argv) { char *s = malloc(10); int i, n = 0; if (argc == 2 && argv[1][0] == 'A') { printf("%lu", (unsigned long)argv[0]); return 0; } if (s != NULL) s[0] = (char)'x'; for (i = 0; i < 9; ++i) if (malloc(24) == NULL) return 2;
 for (i = 0; i < argc; ++i) if (argv[i] != NULL && argv[i][0] == 'q') ++n;
 if (argv[argc] != NULL) n = 9999; printf("%d %d", argc, n); return 0; }
''',tjs='''if (process.argv[3] === 'probe') { // where the argument area begins, from the address of argv[0]
  const w = new host.World({ args: ['p', 'ADDR'] }); host.runProgram(mod(), w); const lo = Number(w.sinkBytes(1).toString('latin1')); console.log(65536 + (65536 - (lo + 512) % 65536) % 65536); process.exit(0); }
for (let k = 2; k < 8; k++) for (let n = 380; n < 512; n++) { const a = []; for (let i = 0; i < k; i++) a.push('q'); a[0] += 'x'.repeat(n); const w = new host.World({ args: a }); const e = host.runProgram(mod(), w); const o = w.sinkBytes(1).toString('latin1'), err = w.sinkBytes(2).toString('latin1');
  if (o !== k + ' ' + k && !/unable to retrieve/.test(err)) fail(k + ' arguments, the first one of ' + n + ' bytes: ' + o + ' ' + e.end + ' ' + (e.why || '')); }
''',demo='''W=/tmp/wcpl-demo-a01-edge/p.wasm; C="_build/wcpl -q -L _build/lib/ -I lib/include/ -a 512 -o $W"
# a stack size with which the argument area ends at the end of a memory page
$C -s 65536 "$D/p.c" || exit 2
S=$(node "$D/t.js" $W probe) || exit 2
$C -s $S "$D/p.c" || exit 2
timeout 60 node "$D/t.js" $W
''')
