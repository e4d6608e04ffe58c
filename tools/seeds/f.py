from lib import *
mk('s04-eof-write','S04',[('lib/src/stdio.c',"""    fp->flags |= _IOEOF;
    if (fp->flags & _IORW) fp->flags &= ~_IOREAD;
""","""    fp->flags |= _IOEOF;
""")],
 'an update stream read up to its end and then written without positioning, as C allows there, then asked for its position','the stream counts as being read while it is written, so ftell is off by the room left in the buffer and fseek from the current position lands elsewhere',
 pc='''#include <stdio.h>
int main(void) {
  FILE *f = fopen("i", "r+");
  if (f == NULL) return 3;
  while (getc(f) != EOF) ;
  if (putc('#', f) == EOF) return 4;
  if (ftell(f) != 9) return 5;
  if (fseek(f, -2, SEEK_CUR) != 0) return 6;
  if (getc(f) != 'h' || getc(f) != '#') return 7;
  return fclose(f) != 0;
}
''',tjs='''const w = new host.World({ args: ['p'] }); w.fs.mkpath('i', 'file'); { const n = w.fs.resolve(w.fs.root, 'i', true), f = n.node || n; f.data = Buffer.from('abcdefgh'); f.size = 8; }
const e = host.runProgram(mod(), w);
if (e.code !== 0) fail('status ' + e.code);
''')
