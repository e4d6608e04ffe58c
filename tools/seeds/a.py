from lib import *
mk('s01-direct-write','S01',[('lib/src/stdio.c',"  if (fp->base >= fp->ptr) { /* this covers the unbuffered case, too */\n    if ((fp->flags & _IONBF) != 0 || nleft >= BUFSIZ) {","  if (fp->base >= fp->ptr || nleft >= BUFSIZ) { /* this covers the unbuffered case, too */\n    if ((fp->flags & _IONBF) != 0 || nleft >= BUFSIZ) {")],
 'a small buffered write followed by an fwrite of BUFSIZ or more bytes on the same stream','the large block overtakes the characters still in the buffer: bytes arrive out of order',
 pc='''#include <stdio.h>
#include <string.h>
static char big[3000];
int main(void) {
  FILE *f = fopen("o", "w"); size_t n;
  if (f == NULL) return 3;
  memset(&big[0], 'B', 3000);
  fputs("head", f); n = fwrite(&big[0], 1, 3000, f); fputs("tail", f);
  if (fclose(f) != 0 || n != 3000) return 4;
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); const e = host.runProgram(mod(), w);
const b = w.fs.bytes(w.fs.resolve(w.fs.root, 'o', true).node || w.fs.resolve(w.fs.root, 'o', true)).toString('latin1');
if (b !== 'head' + 'B'.repeat(3000) + 'tail') fail('file holds ' + b.slice(0, 20) + '... ' + b.length);
''')
mk('s02-short-write','S02',[('lib/src/stdio.c',"if (n > 0 && n != write(fp->fd, (char*)base, (size_t)n)) {","if (n > 0 && write(fp->fd, (char*)base, (size_t)n) < 0) {")],
 'the host takes only a part of a buffer that is flushed (a nearly full disk, a pipe)','the rest of the buffer is lost and fclose, fflush and ferror all report success',
 pc='''#include <stdio.h>
#include <string.h>
int main(void) {
  FILE *f = fopen("o", "w"); int i, e, c;
  for (i = 0; i < 100; ++i) fputs("0123456789", f);
  e = ferror(f); c = fclose(f);
  return (e != 0 || c != 0) ? 7 : 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); w.armed = [{ sc: 'fd_write', kind: 'short', k: 100 }]; const e = host.runProgram(mod(), w);
const r = w.fs.resolve(w.fs.root, 'o', true); const b = w.fs.bytes(r.node || r);
if (b.length < 1000 && e.code !== 7) fail('only ' + b.length + ' bytes of 1000 arrived, and no call reported an error');
''')
mk('s03-fread-direct','S03',[('lib/src/stdio.c',"""  for (;;) {
    if (fp->cnt <= 0) {
      if (_fillbuf(fp) == EOF)
        return (count - (nleft+size-1)/size);
      fp->ptr--; fp->cnt++; /* ungetc */
    }
    n = fp->cnt;""","""  for (;;) {
    if (fp->cnt <= 0) {
      if (_fillbuf(fp) == EOF)
        return (count - (nleft+size-1)/size);
      fp->cnt++; fp->ptr--;
      if (nleft >= BUFSIZ && (size_t)fp->cnt < nleft && !(fp->flags & _IOUNG)) { /* read the rest directly */
        n = fp->cnt; _bcopy(ptr, (char *)fp->ptr, n);
        ptr += n; nleft -= (size_t)n; fp->cnt = 0; fp->ptr = fp->base;
        if ((n = read(fp->fd, ptr, nleft)) <= 0) {
          fp->flags |= (n < 0) ? _IOERR : _IOEOF;
          n = 0;
        }
        return (count - (nleft - (size_t)n + size-1)/size);
      }
    }
    n = fp->cnt;""")],
 'fread of more than BUFSIZ bytes from a host that answers a read with fewer bytes than asked for','a short read by the host is passed on as a short count with neither end-of-file nor error, as if the file had ended',
 pc='''#include <stdio.h>
static char buf[5000];
int main(void) {
  FILE *f = fopen("i", "r"); size_t n;
  if (f == NULL) return 3;
  n = fread(&buf[0], 1, 5000, f);
  printf("%d %d %d\\n", (int)n, feof(f) != 0, ferror(f) != 0);
  return 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); const n = w.fs.mkpath('i', 'file'); n.data = Buffer.alloc(6000, 'x'); n.size = 6000;
w.armed = [{ sc: 'fd_read', kind: 'short', k: 700 }]; host.runProgram(mod(), w);
const o = w.sinkBytes(1).toString('latin1'); if (o !== '5000 0 0\\n') fail('fread gave ' + o);
''')
