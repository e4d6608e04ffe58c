From 7ad3b038db8ec5dddf98524cde425928236a90bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 01/66] fix: getenv matches the requested name, not any other
 name

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 3493ac8..39a3248 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -485,7 +485,7 @@ char *getenv(const char *name)
     initialize_environ();
     char **env;
     for (env = _environ; *env; ++env) {
-      if (strncmp(name, *env, len) && (*env)[len] == '=')
+      if (strncmp(name, *env, len) == 0 && (*env)[len] == '=')
         return *env + len + 1;
     }
   }
-- 
2.43.0


From 8fc02fd74bb4afecafc80ee4d8870654b509b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 02/66] fix: calloc with a zero element size must not trap

---
 lib/src/stdlib.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 39a3248..488f9fe 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -689,8 +689,7 @@ void *malloc(size_t n)
 void *calloc(size_t n, size_t sz)
 {
   void *p = NULL; 
-  assert(sz);
-  if (n <= MAXPAYLOAD/sz) {
+  if (sz == 0 || n <= MAXPAYLOAD/sz) {
     n *= sz;
     p = realloc(NULL, n);
     if (p != NULL) memset(p, 0, n);
-- 
2.43.0


From 3f029968e6f793c67f2024361a9b8b170c67c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 03/66] fix: realloc keeps the original block when it cannot be
 moved

---
 lib/src/stdlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 488f9fe..6a43643 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -659,7 +659,8 @@ void *realloc(void *p, size_t n)
       } else {
         void *np = realloc(NULL, n); /* malloc */
         size_t orgn = pb->used.plsz;
-        if (np != NULL) memcpy(np, p, n < orgn ? n : orgn);
+        if (np == NULL) return NULL; /* original block stays valid */
+        memcpy(np, p, n < orgn ? n : orgn);
         pushblock(bi, pb);
         return np;
       }
-- 
2.43.0


From 0c13b558fc51982616ba16ce362a8854c12b1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 04/66] fix: realloc size check must not wrap around

---
 lib/src/stdlib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 6a43643..6be306d 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -653,7 +653,7 @@ void *realloc(void *p, size_t n)
     assert(bi < NBUCKETS);
     assert(bi > SBRKBUCKET || !((uintptr_t)pb & (uintptr_t)(BI2BLKSZ(bi)-1UL)));
     if (n > 0) { /* realloc */
-      if (n + sizeof(header_t) <= BI2BLKSZ(bi)) {
+      if (n <= BI2BLKSZ(bi) - sizeof(header_t)) {
         pb->used.plsz = n;
         return p;
       } else {
-- 
2.43.0


From e9082fd4114c1c44d93335d5e25d3596a57b569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 05/66] fix: malloc of more than 1GB fails instead of trapping
 in sbrk

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 6be306d..40d422e 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -566,6 +566,7 @@ static header_t* buckets[NBUCKETS];
 static header_t *sbrkblock(size_t bi)
 {
   assert(bi >= SBRKBUCKET);
+  if (BI2BLKSZ(bi) > (size_t)INTPTR_MAX) return NULL; /* more than sbrk can be asked for */
   void *p = sbrk((intptr_t)BI2BLKSZ(bi));
   if (p == (void *)-1) return NULL;
   assert(!((uintptr_t)(p) & (uintptr_t)(WASMPAGESIZE-1)));
-- 
2.43.0


From d33ea923c59419e69b184be26fe08c2dd4884ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:04 +0000
Subject: [PATCH 06/66] fix: mark split-off free blocks so that they can be
 merged safely

---
 lib/src/stdlib.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 40d422e..e36d5eb 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -588,6 +588,7 @@ static header_t *pullblock(size_t bi)
       header_t *pb2 = (header_t *)((char*)pb + BI2BLKSZ(bi));
       if ((pbi = buckets[bi]) != NULL) pbi->free.prev = pb2;
       pb2->free.next = pbi; pb2->free.prev = NULL;
+      (pb2+1)->used.bi = (uint8_t)bi; /* bi mark */
       buckets[bi] = pb2;
     }
     return pb;
-- 
2.43.0


From debd314b339ba30628d8c1320d381801210e6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 07/66] fix: fflush(NULL) flushes every output stream

---
 lib/src/stdio.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 53093f5..83e935e 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -316,6 +316,12 @@ int puts(const char *s)
 
 int fflush(FILE *fp)
 {
+  if (fp == NULL) { /* flush all output streams */
+    int res = 0;
+    for (fp = &_iob[0]; fp < &_iob[FOPEN_MAX]; ++fp)
+      if ((fp->flags & _IOWRT) && fflush(fp) == EOF) res = EOF;
+    return res;
+  }
   if (!(fp->flags & _IOWRT)) {
     fp->cnt = 0;
     return 0;
-- 
2.43.0


From 30df7b463461a98144295f661bd0f6fa07d14a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 08/66] fix: an update stream can be read after fflush

---
 lib/src/stdio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 83e935e..5741bc2 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -330,6 +330,10 @@ int fflush(FILE *fp)
          (fp->base != NULL) && (fp->ptr > fp->base)) {
     writebuf(fp);
   }
+  if (fp->flags & _IORW) { /* may be read from next */
+    fp->ptr = fp->base; fp->cnt = 0;
+    fp->flags &= ~_IOWRT;
+  }
   return ferror(fp) ? EOF : 0;
 }
 
-- 
2.43.0


From 0cd845318a5238077086b8e92d33008026bfbdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 09/66] fix: fputs reports failed writes

---
 lib/src/stdio.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 5741bc2..730c615 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -284,7 +284,7 @@ int fputs(const char *s, FILE *fp)
 {
   ssize_t ndone = 0, n;
   unsigned char *cptr; char *p;
-  if (wrtchk(fp) != 0) return 0;
+  if (wrtchk(fp) != 0) return EOF;
   if ((fp->flags & _IONBF) == 0) {
     for (;; s += n) {
       while ((n = fp->end - (cptr = fp->ptr)) <= 0) { /* full buf */
@@ -302,7 +302,10 @@ int fputs(const char *s, FILE *fp)
   } else {
     /* write out to an unbuffered file */
     size_t cnt = strlen(s);
-    write(fp->fd, s, cnt);
+    if (cnt > 0 && write(fp->fd, s, cnt) != (ssize_t)cnt) {
+      fp->flags |= _IOERR;
+      return EOF;
+    }
     return (int)cnt;
   }
   return 0; /* unreacheable */
-- 
2.43.0


From f13bd7e01d21313637e2c546b6b45081f1642287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 10/66] fix: putc returns the character as unsigned char in
 every buffering mode

---
 lib/src/stdio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 730c615..7b294af 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -229,20 +229,20 @@ int _flushbuf(int c, FILE *fp)
     /* check for linebuffered with write perm, but no EOF */
     if ((fp->flags & (_IOLBF|_IOWRT|_IOEOF)) == (_IOLBF|_IOWRT)) {
       if (fp->ptr >= fp->end) break; /* flush buf and be done */
-      if ((*fp->ptr++ = c) != '\n') return c;
-      return writebuf(fp) == EOF ? EOF : c;
+      if ((*fp->ptr++ = c) != '\n') return (unsigned char)c;
+      return writebuf(fp) == EOF ? EOF : '\n';
     }
     /* write out an unbuffered file, if have write perm, but no EOF */
     if ((fp->flags & (_IONBF|_IOWRT|_IOEOF)) == (_IONBF|_IOWRT)) {
       c1 = c; fp->cnt = 0;
-      if (write(fp->fd, (char *)&c1, 1) == 1) return c;
+      if (write(fp->fd, (char *)&c1, 1) == 1) return c1;
       fp->flags |= _IOERR;
       return EOF;
     }
   } while (fp->flags & (_IONBF|_IOLBF));
   writebuf(fp); /* full buffer: flush it */
   putc((char)c, fp); /* then put "c" in newly emptied buf */
-  return ferror(fp) ? EOF : c;
+  return ferror(fp) ? EOF : (unsigned char)c;
 }
 
 size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
-- 
2.43.0


From 28c800564c7a1d912d2beabca5a8f261b61e9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 11/66] fix: fwrite looks for newlines in the data it writes

---
 lib/src/stdio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 7b294af..a6f5a47 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -271,7 +271,7 @@ size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
     /* done; flush if linebuffered with a newline */
     if ((nleft -= n) == 0) { 
       if (fp->flags & (_IOLBF|_IONBF)) {
-        if ((fp->flags & _IONBF) || (memchr(fp->base, '\n', count*size) != NULL)) 
+        if ((fp->flags & _IONBF) || (memchr(buf, '\n', count*size) != NULL)) 
           writebuf(fp);
       }
       return (count);
-- 
2.43.0


From fbb9c127035dd2a0d791966a335e769e23fb04fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 12/66] fix: printf %c writes a NUL character to streams

---
 lib/src/stdio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index a6f5a47..0022397 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1124,7 +1124,7 @@ static void _out_null(char c, void *data, size_t idx, size_t maxlen)
 static void _out_file(char c, void *data, size_t idx, size_t maxlen)
 {
   FILE *fp = (FILE *)data;
-  if (c) putc(c, fp);
+  putc(c, fp);
 } 
 
 /* output the specified string in reverse, taking care of any zero-padding */
@@ -1607,7 +1607,7 @@ static int _vsnprintf(out_fct_t out, void *data, const size_t maxlen, const char
     }
   }
 
-  (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
+  if (out == &_out_buffer) (*out)((char)0, data, idx < maxlen ? idx : maxlen - 1U, maxlen); /* \0 */
   return (int)idx; /* # of written chars sans \0 */
 }
 
-- 
2.43.0


From c5029093e27c60a2412d9e91a1a36a1c1509fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 13/66] fix: setvbuf before the first use of a standard stream
 is kept

---
 lib/src/stdio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 0022397..fc0caa6 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -491,6 +491,7 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
 {
+  if (!initialized) initialize(); /* or it will override the mode later */
   if (fp->base != NULL && fp->base != &fp->sbuf[0]) {
     if (fp->flags & _IOMYBUF) free(fp->base);
     fp->base = fp->end = NULL;
-- 
2.43.0


From 2db9810035450a6161b211cff8af602c75a622ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 14/66] fix: fclose reports earlier write errors of unbuffered
 streams and keeps errno

---
 lib/src/stdio.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index fc0caa6..5b693ad 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -109,11 +109,8 @@ int fclose(FILE *fp)
   int res = -1;
   if (fp == NULL) return res;
   if (fp->flags & (_IOREAD|_IOWRT|_IORW)) {
-    res = (fp->flags & _IONBF)? 0 : fflush(fp);
-    if (close(fp->fd) < 0) {
-      errno = ENOENT;
-      res = -1; 
-    }
+    res = fflush(fp);
+    if (close(fp->fd) < 0) res = -1; 
   }
   if (fp->base && fp->base != &fp->sbuf[0]) {
     if (fp->flags & _IOMYBUF) free(fp->base);
-- 
2.43.0


From 4097a89254cd0b7b6083eec933c10e3a1cc4ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 15/66] fix: streams are closed after all atexit handlers have
 run

---
 lib/include/sys.crt.h | 1 +
 lib/src/crt.args.c    | 6 ++++++
 lib/src/crt.argv.c    | 6 ++++++
 lib/src/crt.void.c    | 6 ++++++
 lib/src/stdio.c       | 3 ++-
 5 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/include/sys.crt.h b/lib/include/sys.crt.h
index d8b123b..05fa291 100644
--- a/lib/include/sys.crt.h
+++ b/lib/include/sys.crt.h
@@ -7,5 +7,6 @@
 typedef void (*onterm_func_t)(void);
 extern onterm_func_t onterm_funcs[ONTERM_MAX];
 extern size_t onterm_count;
+extern onterm_func_t onterm_final; /* run after all onterm_funcs */
 extern void terminate(int status);
 
diff --git a/lib/src/crt.args.c b/lib/src/crt.args.c
index 1214cda..f8534ce 100644
--- a/lib/src/crt.args.c
+++ b/lib/src/crt.args.c
@@ -45,6 +45,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_final = NULL;
 
 void terminate(int status)
 {
@@ -52,5 +53,10 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_final != NULL) {
+    onterm_func_t fn = onterm_final;
+    onterm_final = NULL;
+    (*fn)();
+  }
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/crt.argv.c b/lib/src/crt.argv.c
index cf6c37a..2682bac 100644
--- a/lib/src/crt.argv.c
+++ b/lib/src/crt.argv.c
@@ -40,6 +40,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_final = NULL;
 
 void terminate(int status)
 {
@@ -47,5 +48,10 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_final != NULL) {
+    onterm_func_t fn = onterm_final;
+    onterm_final = NULL;
+    (*fn)();
+  }
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/crt.void.c b/lib/src/crt.void.c
index cc28913..7695d96 100644
--- a/lib/src/crt.void.c
+++ b/lib/src/crt.void.c
@@ -11,6 +11,7 @@ void initialize(void)
 
 onterm_func_t onterm_funcs[ONTERM_MAX];
 size_t onterm_count = 0;
+onterm_func_t onterm_final = NULL;
 
 void terminate(int status)
 {
@@ -18,5 +19,10 @@ void terminate(int status)
     onterm_func_t fn = onterm_funcs[--onterm_count];
     (*fn)();
   }
+  if (onterm_final != NULL) {
+    onterm_func_t fn = onterm_final;
+    onterm_final = NULL;
+    (*fn)();
+  }
   proc_exit((exitcode_t)status);
 }
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 5b693ad..c2ec37f 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -9,6 +9,7 @@
 #include <unistd.h>
 #include <float.h>
 #include <stdio.h>
+#include <sys/crt.h>
 #include <sys/intrs.h>
 
 /* stream i/o after K&R TCPL */
@@ -46,7 +47,7 @@ static void initialize(void)
     /* make stdin and stdout line-buffered if associated with a tty */
     if (isatty(STDIN_FILENO)) stdin->flags |= _IOLBF; 
     if (isatty(STDOUT_FILENO)) stdout->flags |= _IOLBF; 
-    atexit(&closeall);
+    onterm_final = &closeall; /* after all atexit handlers */
     initialized = true;
   }
 }
-- 
2.43.0


From ab9fa1ed9220560159f8a3a5052c84420d2f2668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:26 +0000
Subject: [PATCH 16/66] fix: ungetc works on fresh and full buffers and clears
 end-of-file

---
 lib/include/stdio.h |  1 +
 lib/src/stdio.c     | 31 +++++++++++++++++++++----------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/include/stdio.h b/lib/include/stdio.h
index dca7459..f3eb3a7 100644
--- a/lib/include/stdio.h
+++ b/lib/include/stdio.h
@@ -31,6 +31,7 @@ typedef struct _iobuf {
 #define _IOLBF   0100
 #define _IORW    0200
 #define _IOMYBUF 0400
+#define _IOUNG  01000 /* buffer differs from the file after ungetc */
 
 extern FILE _iob[FOPEN_MAX];
 #define stdin  (&_iob[0])
diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index c2ec37f..1811104 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -155,8 +155,8 @@ int _fillbuf(FILE *fp)
       if ((fpi->flags & (_IOREAD|_IOLBF)) == _IOLBF) 
         fflush(fpi);
     }
-  fp->ptr = fp->base;
-  readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->base;
+  fp->ptr = fp->base; fp->flags &= ~_IOUNG;
+  readc = (fp->flags & _IONBF) ? 1 : fp->end - fp->base - 1; /* leave a place for ungetc */
   fp->cnt = read(fp->fd, (char *)fp->base, readc);
   if (--fp->cnt >= 0) return (*fp->ptr++);
   else if (fp->cnt != -1) fp->flags |= _IOERR;
@@ -371,13 +371,24 @@ char *fgets(char *s, int size, FILE *fp)
 
 int ungetc(int c, FILE *fp)
 {
-  if (c == EOF) return -1;
-  if ((fp->flags & _IOREAD) == 0 || fp->ptr <= fp->base) {
-    if (fp->ptr == fp->base && fp->cnt == 0) ++fp->ptr;
-    else return -1;
+  if (c == EOF) return EOF;
+  if (!(fp->flags & _IOREAD)) {
+    if ((fp->flags & (_IORW|_IOWRT)) != _IORW) return EOF; /* not readable */
+    fp->flags |= _IOREAD;
   }
+  if (fp->base == NULL) addbuf(fp);
+  if (fp->cnt < 0) fp->cnt = 0;
+  if (fp->ptr <= fp->base) { /* make a place */
+    if (fp->cnt >= fp->end - fp->base) return EOF;
+    if (fp->cnt > 0) memmove(fp->base + 1, fp->base, (size_t)fp->cnt);
+    fp->ptr = fp->base + 1;
+    fp->flags |= _IOUNG;
+  } else if (fp->ptr[-1] != (unsigned char)c) {
+    fp->flags |= _IOUNG;
+  } 
   *--fp->ptr = c; ++fp->cnt;
-  return c;
+  fp->flags &= ~_IOEOF;
+  return (unsigned char)c;
 }
 
 int fseek(FILE *fp, long offset, int origin)
@@ -389,7 +400,7 @@ int fseek(FILE *fp, long offset, int origin)
       c = fp->cnt; p = offset;
       if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
       else offset -= (long)c;
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+      if (!(fp->flags & (_IORW|_IOUNG)) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
         return 0;
       }
@@ -464,7 +475,7 @@ int fsetpos(FILE *fp, const fpos_t *ptr)
     if (fp->base != NULL && !(fp->flags & _IONBF)) {
       c = fp->cnt; p = offset;
       p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & _IORW) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
+      if (!(fp->flags & (_IORW|_IOUNG)) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
         fp->ptr += (int)p; fp->cnt -= (int)p;
         return 0;
       }
@@ -506,7 +517,7 @@ int setvbuf(FILE *fp, char *buf, int mode, size_t size)
       size = (size == 0) ? BUFSIZ : size;
       if (buf != NULL && size > SBFSIZ) {
         fp->base = (unsigned char *)buf;
-        fp->end = fp->base + size - SBFSIZ;
+        fp->end = fp->base + size;
       } else if (size > SBFSIZ && (fp->base = malloc(size + SBFSIZ)) != NULL) {
         fp->end = fp->base + size + SBFSIZ;
         fp->flags |= _IOMYBUF;
-- 
2.43.0


From 9e2c8c51ba98a8182618bf67697ecc591f250e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 17/66] fix: failed repositioning keeps buffered data and is
 reported

---
 lib/src/stdio.c | 136 ++++++++++++++++++++----------------------------
 1 file changed, 57 insertions(+), 79 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 1811104..6c6d54a 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -8,6 +8,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <float.h>
+#include <limits.h>
 #include <stdio.h>
 #include <sys/crt.h>
 #include <sys/intrs.h>
@@ -391,77 +392,80 @@ int ungetc(int c, FILE *fp)
   return (unsigned char)c;
 }
 
-int fseek(FILE *fp, long offset, int origin)
+/* repositioning helper; if it fails, buffered input is left as it was */
+static off_t setpos(FILE *fp, off_t offset, int origin)
 {
-  ssize_t c; long p;
-  fp->flags &= ~_IOEOF;
+  off_t pos;
+  if (fp->cnt < 0) fp->cnt = 0;
   if (fp->flags & _IOREAD) {
-    if (origin < 2 && fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      if (origin == 0) p += (long)c - (long)lseek(fp->fd, 0, SEEK_CUR);
-      else offset -= (long)c;
-      if (!(fp->flags & (_IORW|_IOUNG)) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
-        fp->ptr += (int)p; fp->cnt -= (int)p;
-        return 0;
+    if (origin == SEEK_CUR) offset -= fp->cnt;
+    /* try to stay in the buffer */
+    if (origin != SEEK_END && fp->base != NULL && fp->cnt > 0 && !(fp->flags & (_IONBF|_IORW|_IOUNG))) {
+      if ((pos = lseek(fp->fd, 0, SEEK_CUR)) == -1) return -1;
+      off_t delta = (origin == SEEK_SET) ? offset - (pos - fp->cnt) : offset + fp->cnt;
+      if (delta <= fp->cnt && delta >= fp->base - fp->ptr) {
+        fp->ptr += (int)delta; fp->cnt -= (int)delta;
+        fp->flags &= ~_IOEOF;
+        return pos - fp->cnt;
       }
     }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = (long)lseek(fp->fd, offset, origin);
-    fp->cnt = 0;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = (long)lseek(fp->fd, offset, origin);
+  } else if (fp->flags & _IOWRT) {
+    if (fp->base != NULL && fp->ptr > fp->base && writebuf(fp) == EOF) return -1;
+  } else if (!(fp->flags & _IORW)) {
+    errno = EBADF;
+    return -1;
   }
-  return (p == -1) ? -1 : 0;
+  if ((pos = lseek(fp->fd, offset, origin)) == -1) return -1;
+  fp->ptr = fp->base; fp->cnt = 0;
+  fp->flags &= ~(_IOEOF|_IOUNG);
+  if (fp->flags & _IORW) fp->flags &= ~(_IOREAD|_IOWRT);
+  return pos;
 }
 
-long ftell(FILE *fp)
+/* position helper */
+static off_t getpos(FILE *fp)
 {
-  long offset; ssize_t adjust;
+  off_t pos;
   if (fp->cnt < 0) fp->cnt = 0;
   if (fp->flags & _IOREAD) {
-    adjust = - fp->cnt;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    adjust = 0;
-    if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
-      adjust = fp->ptr - fp->base;
-  } else return -1;
-  offset = (long)lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += (long)adjust;
-  return offset;
+    pos = lseek(fp->fd, 0, SEEK_CUR);
+    return (pos == -1) ? -1 : pos - fp->cnt;
+  } 
+  if (!(fp->flags & (_IOWRT|_IORW))) {
+    errno = EBADF;
+    return -1;
+  }
+  /* appending moves the position, so it is known only when all is written */
+  if ((fp->flags & _IOWRT) && fp->base != NULL && fp->ptr > fp->base && writebuf(fp) == EOF) return -1;
+  return lseek(fp->fd, 0, SEEK_CUR);
+}
+
+int fseek(FILE *fp, long offset, int origin)
+{
+  return setpos(fp, (off_t)offset, origin) == -1 ? -1 : 0;
+}
+
+long ftell(FILE *fp)
+{
+  off_t offset = getpos(fp);
+  if (offset > LONG_MAX) {
+    errno = EOVERFLOW;
+    offset = -1;
+  }
+  return (long)offset;
 }
 
 void rewind(FILE *fp)
 {
-  fflush(fp);
-  lseek(fp->fd, 0, SEEK_SET);
-  fp->cnt = 0; fp->ptr = fp->base;
-  fp->flags &= ~(_IOERR|_IOEOF);
-  if (fp->flags & _IORW) fp->flags &= ~(_IOREAD|_IOWRT);
+  setpos(fp, 0, SEEK_SET);
+  fp->flags &= ~_IOERR;
 }
 
 int fgetpos(FILE *fp, fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  off_t offset; ssize_t adjust;
-  if (fp->cnt < 0) fp->cnt = 0;
-  if (fp->flags & _IOREAD) {
-    adjust = - fp->cnt;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    adjust = 0;
-    if (fp->flags & _IOWRT && fp->base != NULL && (fp->flags & _IONBF) == 0)
-      adjust = fp->ptr - fp->base;
-  } else return -1;
-  offset = lseek(fp->fd, 0, SEEK_CUR);
-  if (offset >= 0) offset += adjust;
+  off_t offset = getpos(fp);
+  if (offset == -1) return -1;
   *ptr = offset;
   return 0;
 }
@@ -469,33 +473,7 @@ int fgetpos(FILE *fp, fpos_t *ptr)
 int fsetpos(FILE *fp, const fpos_t *ptr)
 {
   static_assert(sizeof(fpos_t) == sizeof(off_t));
-  ssize_t c; off_t offset = *ptr, p;
-  fp->flags &= ~_IOEOF;
-  if (fp->flags & _IOREAD) {
-    if (fp->base != NULL && !(fp->flags & _IONBF)) {
-      c = fp->cnt; p = offset;
-      p += (off_t)c - lseek(fp->fd, 0, SEEK_CUR);
-      if (!(fp->flags & (_IORW|_IOUNG)) && c > 0 && p <= c && p >= fp->base - fp->ptr) {
-        fp->ptr += (int)p; fp->cnt -= (int)p;
-        return 0;
-      }
-    }
-    if (fp->flags & _IORW) {
-      fp->ptr = fp->base;
-      fp->flags &= ~_IOREAD;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-    fp->cnt = 0;
-  } else if (fp->flags & (_IOWRT|_IORW)) {
-    fflush(fp);
-    fp->cnt = 0;
-    if (fp->flags & _IORW) {
-      fp->flags &= ~_IOWRT;
-      fp->ptr = fp->base;
-    }
-    p = lseek(fp->fd, offset, SEEK_SET);
-  }
-  return (p == -1) ? -1 : 0;
+  return setpos(fp, *ptr, SEEK_SET) == -1 ? -1 : 0;
 }
 
 int setvbuf(FILE *fp, char *buf, int mode, size_t size)
-- 
2.43.0


From d08242f5191369c4208041ca77c30fe4617cbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 18/66] fix: preopens are looked up again if there was no
 memory to register them

---
 lib/src/fcntl.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 5438d74..f0dde49 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -80,11 +80,9 @@ static int register_preopened_fd(fd_t fd, const char *relprefix)
   return 0;
 }
 
-static int populate_preopens(void)
+static int scan_preopens(void)
 {
   fd_t fd;
-  if (preopens_populated) return 0;
-  preopens_populated = true;
   for (fd = 3; fd != 0; ++fd) {
     prestat_t prestat;
     errno_t ret = fd_prestat_get(fd, &prestat);
@@ -94,18 +92,30 @@ static int populate_preopens(void)
       char *prefix = malloc(prestat.u.dir.pr_name_len + 1);
       if (!prefix) return 2;
       ret = fd_prestat_dir_name(fd, (uint8_t *)prefix, prestat.u.dir.pr_name_len);
-      if (ret != ERRNO_SUCCESS) return 3;
+      if (ret != ERRNO_SUCCESS) { free(prefix); return 3; }
       prefix[prestat.u.dir.pr_name_len] = '\0';
       if (prestat.u.dir.pr_name_len > 0 && prefix[prestat.u.dir.pr_name_len-1] == '\\') {
         preopen_sep = '\\'; /* windows path conventions */
       }
-      register_preopened_fd(fd, prefix);
+      int res = register_preopened_fd(fd, prefix);
       free(prefix);                                       
+      if (res != 0) return 4;
     }
   }
   return 0;
 }
 
+static int populate_preopens(void)
+{
+  /* if not all of them can be registered, start over at the next use */
+  if (scan_preopens() > 1) {
+    while (num_preopens > 0) free((char*)preopens[--num_preopens].prefix);
+    return -1;
+  }
+  preopens_populated = true;
+  return 0;
+}
+
 static bool prefix_matches(const char *prefix, size_t prefix_len, const char *path) 
 {
   if (path[0] != preopen_sep && prefix_len == 0) return true;
@@ -145,7 +155,7 @@ static int find_abspath(const char *path, const char **abs_prefix, const char **
 int find_relpath(const char *path, char **relative_path) 
 {
   const char *abs_prefix; 
-  if (!preopens_populated) populate_preopens(); // todo: check ret value!
+  if (!preopens_populated && populate_preopens() != 0) return -1;
   return find_abspath(path, &abs_prefix, (const char**)relative_path);
 }
 
-- 
2.43.0


From 30e453fce3c4e7a03a1924cc91d477892a5dde3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 19/66] fix: isspace accepts vertical tab and form feed

---
 lib/src/ctype.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ctype.c b/lib/src/ctype.c
index 4b7cab3..9ac8d5e 100644
--- a/lib/src/ctype.c
+++ b/lib/src/ctype.c
@@ -42,7 +42,7 @@ int ispunct(int c)
 
 int isspace(int c)
 {
-  return c == ' ' || c == '\n' || c == '\t' || c == '\r';
+  return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f';
 }
 
 int isupper(int c)
-- 
2.43.0


From 15759f675c99d6b8e0879e8ebf91af02dde63770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 20/66] fix: an empty path does not name the current directory

---
 lib/src/fcntl.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index f0dde49..455a3e8 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -128,6 +128,7 @@ static bool prefix_matches(const char *prefix, size_t prefix_len, const char *pa
 
 static int find_abspath(const char *path, const char **abs_prefix, const char **relative_path) 
 {
+  const char *start = path;
   while (*path == preopen_sep) ++path;
   size_t match_len = 0, i;
   int fd = -1;
@@ -147,7 +148,7 @@ static int find_abspath(const char *path, const char **abs_prefix, const char **
   }
   const char *computed = path + match_len;
   while (*computed == preopen_sep) ++computed;
-  if (*computed == '\0') computed = ".";
+  if (*computed == '\0' && *start != '\0') computed = ".";
   *relative_path = computed;
   return fd;
 }
-- 
2.43.0


From e24d44943177b512da8d2041e4230d75900b4e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 21/66] fix: stat does not mix the file type into what st_mode
 held before

---
 lib/src/stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/stat.c b/lib/src/stat.c
index 798e120..c73aff8 100644
--- a/lib/src/stat.c
+++ b/lib/src/stat.c
@@ -30,6 +30,7 @@ static void to_public_stat(const filestat_t *in, struct stat *out)
   timestamp_to_timespec(in->atim, &out->st_atime, &out->st_atime_ns);
   timestamp_to_timespec(in->mtim, &out->st_mtime, &out->st_mtime_ns);
   timestamp_to_timespec(in->ctim, &out->st_ctime, &out->st_ctime_ns);
+  out->st_mode = 0;
   switch (in->filetype) {
     case FILETYPE_BLOCK_DEVICE:
       out->st_mode |= S_IFBLK;
-- 
2.43.0


From d36737a48158095c80bd227bdca25209c960591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 22/66] fix: fcntl reports a bad descriptor for F_GETFD and
 F_SETFD

---
 lib/src/fcntl.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 455a3e8..866243f 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -229,9 +229,15 @@ int fcntl(int fd, int cmd, ...)
 {
   switch (cmd) {
     case F_GETFD:
-      return FD_CLOEXEC;
-    case F_SETFD:
-      return 0;
+    case F_SETFD: {
+      fdstat_t fds;
+      errno_t error = fd_fdstat_get(fd, &fds);
+      if (error != 0) {
+        errno = error;
+        return -1;
+      }
+      return (cmd == F_GETFD) ? FD_CLOEXEC : 0;
+    }
     case F_GETFL: {
       fdstat_t fds;
       errno_t error = fd_fdstat_get(fd, &fds);
-- 
2.43.0


From dec7ae3879ea62260f099bde6d3ee77182335918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 23/66] fix: remove reports the reason why a directory cannot
 be removed

---
 lib/src/stdio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 6c6d54a..4181e1d 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -1692,8 +1692,9 @@ int remove(const char *path)
   }
   int r = unlinkat(dirfd, relpath, 0);
   if (r != 0 && (errno == EISDIR || errno == ENOTCAPABLE)) {
+    int error = errno;
     r = rmdirat(dirfd, relpath);
-    if (errno == ENOTDIR) errno = ENOTCAPABLE;
+    if (r != 0 && errno == ENOTDIR && error == ENOTCAPABLE) errno = error;
   }
   return r;
 }
-- 
2.43.0


From 06c02eaa0a911b4dfdb97f66536daccf1c74d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 24/66] fix: preopens are looked up again if the host failed to
 list them

---
 lib/src/fcntl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 866243f..6560c41 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -108,7 +108,7 @@ static int scan_preopens(void)
 static int populate_preopens(void)
 {
   /* if not all of them can be registered, start over at the next use */
-  if (scan_preopens() > 1) {
+  if (scan_preopens() != 0) {
     while (num_preopens > 0) free((char*)preopens[--num_preopens].prefix);
     return -1;
   }
-- 
2.43.0


From 54e658c584b4cb960373622150ce50f584962288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 25/66] fix: time and clock set errno when the clock cannot be
 read

---
 lib/src/time.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 29ebb80..3a3cb23 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -73,7 +73,7 @@ time_t time(time_t *pt)
 {
   timestamp_t ts = 0;
   errno_t error = clock_time_get(CLOCKID_REALTIME, CLOCKS_PER_SEC, &ts);
-  if (!error) ts /= CLOCKS_PER_SEC; else ts = -1LL;
+  if (!error) ts /= CLOCKS_PER_SEC; else { errno = (int)error; ts = -1LL; }
   if (pt != NULL) *pt = (time_t)ts; 
   return (time_t)ts;
 }
@@ -82,7 +82,7 @@ clock_t clock(void)
 {
   timestamp_t ts = 0;
   errno_t error = clock_time_get(CLOCKID_PROCESS_CPUTIME_ID, 1LL, &ts);
-  if (error) return (clock_t)-1LL;
+  if (error) { errno = (int)error; return (clock_t)-1LL; }
   return (clock_t)ts;
 }
 
-- 
2.43.0


From 712eb8540453dac9fff30b668a5ea3453aa22aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:45 +0000
Subject: [PATCH 26/66] fix: a preopen spelled with a trailing slash covers the
 directory itself

---
 lib/src/fcntl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/fcntl.c b/lib/src/fcntl.c
index 6560c41..1982563 100644
--- a/lib/src/fcntl.c
+++ b/lib/src/fcntl.c
@@ -74,6 +74,8 @@ static int register_preopened_fd(fd_t fd, const char *relprefix)
   if (num_preopens == preopen_capacity && resize_preopens() != 0) return -1;
   char *prefix = strdup(strip_prefixes(relprefix));
   if (prefix == NULL) return -1;
+  size_t len = strlen(prefix);
+  while (len > 0 && prefix[len-1] == preopen_sep) prefix[--len] = '\0';
   preopen_t *pp = &preopens[num_preopens++];
   pp->prefix = prefix;
   pp->fd = fd;
-- 
2.43.0


From a407c4935bb50b522ca1304b2761c10f333df9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 27/66] fix: readdir keeps its place when the host fails after
 storing a size

---
 lib/src/dirent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/dirent.c b/lib/src/dirent.c
index 5eb8370..1466693 100644
--- a/lib/src/dirent.c
+++ b/lib/src/dirent.c
@@ -152,6 +152,7 @@ struct dirent *readdir(DIR *dirp)
     errno_t error = fd_readdir(dirp->fd, (uint8_t *)dirp->buffer, 
       dirp->buffer_size, dirp->cookie, &dirp->buffer_used);
     if (error != 0) {
+      dirp->buffer_used = dirp->buffer_size;
       errno = (int)error;
       break;
     }
-- 
2.43.0


From f897a8520d5603027acb092428a4e801a203e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 28/66] fix: spelling of September in strftime %B

---
 lib/src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 3a3cb23..c8818a6 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -52,7 +52,7 @@ static const char *mon_name[12] = {
 
 static const char *mon_full_name[] = { 
   "January", "February", "March", "April", "May", "June", 
-  "July", "August", "Sepember", "October", "November", "December" 
+  "July", "August", "September", "October", "November", "December" 
 };
 
 /* hidden state for non-reentrant functions */
-- 
2.43.0


From 6a1618b994961d441dfb71513adc0c28b8e0d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 29/66] fix: strftime %p is AM from midnight up to noon

---
 lib/src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index c8818a6..972b219 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -418,7 +418,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'p':
-          if (tp->tm_hour > 0 && tp->tm_hour < 13) addstr = "AM";
+          if (tp->tm_hour < 12) addstr = "AM";
           else addstr = "PM";
           break;
         case 'S':
-- 
2.43.0


From 91ab226b96eac8fa033d0853afbc633e1b465133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 30/66] fix: strftime %x is the date and %X the time

---
 lib/src/time.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 972b219..f9b4690 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -381,7 +381,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           }
           break;
         case 'c':
-          strftime(addval, 80, "%a %b %d %x %Y", tp);
+          strftime(addval, 80, "%a %b %d %X %Y", tp);
           break;
         case 'd':
           addval[0] = '0' + (tp->tm_mday / 10);
@@ -438,10 +438,10 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[1] = '0' + (tp->tm_wday % 10);
           addval[2] = '\0';
           break;
-        case 'X':
-          strftime(addval, 80, "%d.%m.%Y", tp);
-          break;
         case 'x':
+          strftime(addval, 80, "%m/%d/%y", tp);
+          break;
+        case 'X':
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-- 
2.43.0


From 636778ae1449c09ca15e166e6af4c97d32cfc5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 31/66] fix: strftime %y and %Y work for years before 1900 and
 after 9999

---
 lib/src/time.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index f9b4690..0c31443 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -445,16 +445,12 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           strftime(addval, 80, "%H:%M:%S", tp);
           break;
         case 'y':
-          addval[0] = '0' + ((tp->tm_year % 100) / 10);
-          addval[1] = '0' + ((tp->tm_year % 100) % 10);
+          addval[0] = '0' + ((tp->tm_year % 100 + 100) % 100 / 10);
+          addval[1] = '0' + ((tp->tm_year % 100 + 100) % 10);
           addval[2] = '\0';
           break;
         case 'Y':
-          addval[0] = '0' + ((tp->tm_year + 1900) / 1000);
-          addval[1] = '0' + (((tp->tm_year + 1900) % 1000) / 100);
-          addval[2] = '0' + (((tp->tm_year + 1900) % 100) / 10);
-          addval[3] = '0' + ((tp->tm_year + 1900) % 10);
-          addval[4] = '\0';
+          snprintf(addval, 80, "%.4lld", tp->tm_year + 1900LL);
           break;
         case 'Z':
           addstr = tzname[tp->tm_isdst > 0];
-- 
2.43.0


From 5b99b672d7c43b2c54d4b4b89e04259e09c5178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 32/66] fix: strftime counts all it writes and stays within the
 size it is given

---
 lib/src/time.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 0c31443..442a420 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -351,7 +351,7 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
   char *ptr = s; size_t count = 0;
 
   tzset();
-  do {
+  while (*fmt != '\0') {
     if (*fmt == '%') {
       const char *addstr = NULL;
       int addlen = -1;
@@ -467,18 +467,21 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
       if (addstr == NULL) addstr = addval;
       if (*addstr != '\0') {
         size_t len = (addlen < 0) ? strlen(addstr) : addlen;
-        if (count + len > smax) len = smax - count;
+        if (count + len >= smax) return 0;
         strncpy(ptr, addstr, len);
         ptr += len;
         count += len;
       }
-      ++fmt;
+      if (*fmt != '\0') ++fmt;
     } else {
-      if (count <= smax) *ptr++ = *fmt;
+      if (count + 1 >= smax) return 0;
+      *ptr++ = *fmt;
+      ++count;
       ++fmt;
     }
-  } while (fmt[-1] != '\0');
+  }
 
-  if (count > smax) count = 0;
+  if (count >= smax) return 0;
+  *ptr = '\0';
   return count;
 }
-- 
2.43.0


From ec28c3326c68c8439c2299b187d50c5d86602171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 33/66] fix: strftime %w is one digit

---
 lib/src/time.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/time.c b/lib/src/time.c
index 442a420..dd86b2b 100644
--- a/lib/src/time.c
+++ b/lib/src/time.c
@@ -434,9 +434,8 @@ size_t strftime(char *s, size_t smax, const char *fmt, const struct tm *tp)
           addval[2] = '\0';
           break;
         case 'w':
-          addval[0] = '0' + (tp->tm_wday / 10);
-          addval[1] = '0' + (tp->tm_wday % 10);
-          addval[2] = '\0';
+          addval[0] = '0' + (tp->tm_wday % 10);
+          addval[1] = '\0';
           break;
         case 'x':
           strftime(addval, 80, "%m/%d/%y", tp);
-- 
2.43.0


From 48cb6c8530343367f718719208746f1f3f9fe794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 34/66] fix: global variables initialized with values above
 0x7fffffff give valid modules

---
 w.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/w.c b/w.c
index 1234fc5..c31ac0d 100644
--- a/w.c
+++ b/w.c
@@ -4466,6 +4466,9 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         pe->vt = pie->vt; pe->mut = pie->mut;
         assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
+        if (pdc->in == IN_I32_CONST) { /* extend sign to upper 32 bits */
+          pdc->arg.i = (long long)(pdc->arg.u << 32) >> 32;
+        }
         icbnewbk(&pe->code)->in = IN_END; 
       } break;
       default:;
-- 
2.43.0


From 4e723cb5b332bb6f78468649988fe240e832e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:47 +0000
Subject: [PATCH 35/66] fix: a failed write or close of the output is an error

---
 c.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 203f0e5..d8b0a3f 100644
--- a/c.c
+++ b/c.c
@@ -4574,6 +4574,14 @@ void compile_module_to_wat(const char *ifname, wat_module_t *pwm)
   fini_compiler();
 }
 
+/* finish writing to pf, making sure that the output is complete */
+static void close_output(FILE *pf, const char *fname)
+{
+  bool ok = !ferror(pf);
+  if ((fname ? fclose(pf) : fflush(pf)) != 0) ok = false; 
+  if (!ok) eprintf("cannot write to %s:", fname ? fname : "standard output");
+}
+
 int main(int argc, char **argv)
 {
   int opt; char *eoarg;
@@ -4640,10 +4648,11 @@ int main(int argc, char **argv)
       FILE *pf = fopen(ofile_arg, "w");
       if (!pf) eprintf("cannot open output file %s:", ofile_arg);
       write_wat_module(&wm, pf);
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# object module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output(stdout, NULL);
     }
     wat_module_fini(&wm);   
   } else {
@@ -4682,10 +4691,11 @@ int main(int argc, char **argv)
         if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wat_module(&wm, pf);
       }
-      fclose(pf);
+      close_output(pf, ofile_arg);
       logef("# executable module written to %s\n", ofile_arg);
     } else {
       write_wat_module(&wm, stdout);
+      close_output(stdout, NULL);
     }
 
     wat_module_fini(&wm);
-- 
2.43.0


From 309bb4b9a54d945e9f71ca9c7e7b71b9f6d45c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 36/66] fix: a failed read of an input is an error, not the end
 of that input

A directory in place of a searched file counts as absent.
---
 l.c | 25 +++++++++++++++++++++++--
 l.h |  1 +
 p.c |  5 ++---
 w.c |  5 ++---
 4 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/l.c b/l.c
index 3c81122..58072e9 100644
--- a/l.c
+++ b/l.c
@@ -290,6 +290,20 @@ bool fget8bom(FILE *fp)
   return true;
 }
 
+/* open text file for reading, skip bom if any; NULL if it can't be opened or is a directory */
+FILE *fopen8bom(const char *path)
+{
+  FILE *fp = fopen(path, "r");
+  if (fp != NULL) {
+    fget8bom(fp);
+    if (ferror(fp) && errno == EISDIR) {
+      fclose(fp); fp = NULL;
+      errno = EISDIR;
+    }
+  }
+  return fp;
+}
+
 int int_cmp(const void *pi1, const void *pi2)
 {
   assert(pi1); assert(pi2);
@@ -1220,12 +1234,19 @@ int cbuf_cmp(const void *p1, const void *p2)
   return 0;
 }
 
+static char *efgets(char *buf, int n, FILE *fp)
+{
+  char *line = fgets(buf, n, fp);
+  if (ferror(fp)) eprintf("input file read error:");
+  return line;
+}
+
 char *fgetlb(cbuf_t *pcb, FILE *fp)
 {
   char buf[256], *line; size_t len;
   assert(fp); assert(pcb);
   cbclear(pcb);
-  line = fgets(buf, 256, fp); /* sizeof(buf) */
+  line = efgets(buf, 256, fp); /* sizeof(buf) */
   if (!line) return NULL;
   len = strlen(line);
   if (len > 0 && line[len-1] == '\n') {
@@ -1235,7 +1256,7 @@ char *fgetlb(cbuf_t *pcb, FILE *fp)
   } else for (;;) {
     if (len > 0 && line[len-1] == '\r') line[len-1] = 0;
     cbputs(line, pcb);
-    line = fgets(buf, 256, fp); /* sizeof(buf) */
+    line = efgets(buf, 256, fp); /* sizeof(buf) */
     if (!line) break;
     len = strlen(line);
     if (len > 0 && line[len-1] == '\n') {
diff --git a/l.h b/l.h
index 9c4ee24..b9926c9 100644
--- a/l.h
+++ b/l.h
@@ -57,6 +57,7 @@ extern unsigned long strtou8c(const char *s, char **ep);
 extern unsigned long strtocc32(const char *s, char **ep, bool *rp);
 extern unsigned long strtou8cc32(const char *s, char **ep, bool *rp);
 extern bool fget8bom(FILE *fp);
+extern FILE *fopen8bom(const char *path);
 #define is8cbyte(c) (((c) & 0x80) != 0)
 #define is8chead(c) (((c) & 0xC0) == 0xC0)
 #define is8ctail(c) (((c) & 0xC0) == 0x80)
diff --git a/p.c b/p.c
index a586a92..9a244ee 100644
--- a/p.c
+++ b/p.c
@@ -103,15 +103,14 @@ pws_t *newpws(const char *infile)
 {
   FILE *fp = NULL; MEM *mp = NULL;
   const char *mpath; pws_t *pw = NULL;
-  if (streql(infile, "-")) fp = stdin;
+  if (streql(infile, "-")) { fp = stdin; fget8bom(fp); }
   else if ((mpath = strprf(infile, "res://")) != NULL) mp = mopen(mpath);
-  else fp = fopen(infile, "r");
+  else fp = fopen8bom(infile);
   if (fp) {
     pw = emalloc(sizeof(pws_t));
     pw->input = fp;
     pw->getlb = (fgetlb_t)&fgetlb;
     pw->close = (fclose_t)&fclose;
-    fget8bom(pw->input);
   } else if (mp) {
     pw = emalloc(sizeof(pws_t));
     pw->input = mp;
diff --git a/w.c b/w.c
index c31ac0d..d20eec4 100644
--- a/w.c
+++ b/w.c
@@ -2243,15 +2243,14 @@ sws_t *newsws(const char *infile)
 {
   FILE *fp = NULL; MEM *mp = NULL;
   const char *mpath; sws_t *pw = NULL;
-  if (streql(infile, "-")) fp = stdin;
+  if (streql(infile, "-")) { fp = stdin; fget8bom(fp); }
   else if ((mpath = strprf(infile, "res://")) != NULL) mp = mopen(mpath);
-  else fp = fopen(infile, "r");
+  else fp = fopen8bom(infile);
   if (fp) {
     pw = emalloc(sizeof(sws_t));
     pw->input = fp;
     pw->getlb = (fgetlb_t)&fgetlb;
     pw->close = (fclose_t)&fclose;
-    fget8bom(pw->input);
   } else if (mp) {
     pw = emalloc(sizeof(sws_t));
     pw->input = mp;
-- 
2.43.0


From 9f382ca7ef0b2854436596d46d58513154b310dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 37/66] fix: a module that cannot be converted to binary does
 not destroy the old output file

---
 c.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index d8b0a3f..5abf060 100644
--- a/c.c
+++ b/c.c
@@ -4680,10 +4680,10 @@ int main(int argc, char **argv)
       FILE *pf;
       if (strsuf(ofile_arg, ".wasm")) {
         wasm_module_t wbm;
-        pf = fopen(ofile_arg, "wb");
-        if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         wasm_module_init(&wbm);
         wat_to_wasm(&wm, &wbm);
+        pf = fopen(ofile_arg, "wb");
+        if (!pf) eprintf("cannot open output file %s:", ofile_arg);
         write_wasm_module(&wbm, pf);
         wasm_module_fini(&wbm);
       } else {
-- 
2.43.0


From 978fee77e99906bef67fd85d47d0f88e0e62df52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 38/66] fix: integer conversions report values out of range

---
 lib/src/stdio.c  |  2 +-
 lib/src/stdlib.c | 38 +++++++++++++++++++++++++++++---------
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 4181e1d..509a4e4 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -701,7 +701,7 @@ static unsigned long long _aton(in_fct_t in, void *data, const size_t maxlen, in
   buf[len] = 0; errno = 0;
   if (gotsign) res = (unsigned long long)strtoll(buf, &end, base);
   else res = strtoull(buf, &end, base);
-  if (*end != 0) errno = EILSEQ;
+  errno = (*end != 0) ? EILSEQ : 0; /* out of range is still a match */
   return res;
 }
 
diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index e36d5eb..83f39b6 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdint.h>
+#include <limits.h>
 #include <stddef.h>
 #include <stdbool.h>
 #include <errno.h>
@@ -325,9 +326,10 @@ static int digitval(int c)
   return -1;
 }
 
-static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
+/* reads magnitude, noting when it does not fit */
+static uintmax_t strntomag(const char *nptr, char **endptr, int base, size_t n, int *pminus, int *pover)
 {
-  int minus = 0; uintmax_t v = 0; int d;
+  int minus = 0; uintmax_t v = 0; int d, over = 0;
   while (n && isspace((unsigned char)*nptr)) {  nptr++;  n--; }
   if (n) {
     char c = *nptr;
@@ -353,46 +355,64 @@ static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n)
     }
   }
   while (n && (d = digitval(*nptr)) >= 0 && d < base) {
+    if (v > (UINTMAX_MAX - (uintmax_t)d) / (uintmax_t)base) over = 1;
     v = v * base + d;
     n--; nptr++;
   }
   if (endptr) *endptr = (char *)nptr;
+  *pminus = minus; *pover = over;
+  return over ? UINTMAX_MAX : v;
+}
+
+static uintmax_t strntoumax(const char *nptr, char **endptr, int base, size_t n, uintmax_t max)
+{
+  int minus, over;
+  uintmax_t v = strntomag(nptr, endptr, base, n, &minus, &over);
+  if (over || v > max) { errno = ERANGE; return max; }
   return minus ? -v : v;
 }
 
+static intmax_t strntosmax(const char *nptr, char **endptr, int base, size_t n, intmax_t max)
+{
+  int minus, over;
+  uintmax_t v = strntomag(nptr, endptr, base, n, &minus, &over);
+  if (over || v > (uintmax_t)max + (uintmax_t)minus) { errno = ERANGE; return minus ? -max - 1 : max; }
+  return minus ? (intmax_t)-v : (intmax_t)v;
+}
+
 intmax_t strntoimax(const char *nptr, char **endptr, int base, size_t n)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, n);
+  return strntosmax(nptr, endptr, base, n, INTMAX_MAX);
 }
 
 intmax_t strtoimax(const char *nptr, char **endptr, int base)
 {
-  return (intmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return strntosmax(nptr, endptr, base, ~(size_t)0, INTMAX_MAX);
 }
 
 long strtol(const char *nptr, char **endptr, int base)
 {
-  return (long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long)strntosmax(nptr, endptr, base, ~(size_t)0, LONG_MAX);
 }
 
 long long strtoll(const char *nptr, char **endptr, int base)
 {
-  return (long long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (long long)strntosmax(nptr, endptr, base, ~(size_t)0, LLONG_MAX);
 }
 
 unsigned long strtoul(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long)strntoumax(nptr, endptr, base, ~(size_t)0, ULONG_MAX);
 }
 
 unsigned long long strtoull(const char *nptr, char **endptr, int base)
 {
-  return (unsigned long long) strntoumax(nptr, endptr, base, ~(size_t)0);
+  return (unsigned long long)strntoumax(nptr, endptr, base, ~(size_t)0, ULLONG_MAX);
 }
 
 uintmax_t strtoumax(const char *nptr, char **endptr, int base)
 {
-  return (uintmax_t)strntoumax(nptr, endptr, base, ~(size_t)0);
+  return strntoumax(nptr, endptr, base, ~(size_t)0, UINTMAX_MAX);
 }
 
 static unsigned short rand48_seed[3]; 
-- 
2.43.0


From 6f3fc31ff4c819f1ab5c5f14280a71cb3e248ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:31 +0000
Subject: [PATCH 39/66] fix: a program without main() is reported as such

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index d20eec4..c6d14dd 100644
--- a/w.c
+++ b/w.c
@@ -4210,7 +4210,7 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
       eprintf("duplicate module: %s", symname(pmi->name));
     else *(sym_t*)bufnewbk(&curmodnames) = pmi->name;
   }
-  if (!mainmod) logef("error: main() function not found\n"); /* fixme: should be eprintf */
+  if (!mainmod) eprintf("main() function not found");
   else logef("# main() found in '%s' module\n", symname(mainmod));
 
   /* add missing library modules */
-- 
2.43.0


From c2d51ad75074844429f6d4142272ec85813c0054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:51 +0000
Subject: [PATCH 40/66] fix: object files may contain v128 values

---
 w.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/w.c b/w.c
index c6d14dd..c14b6f6 100644
--- a/w.c
+++ b/w.c
@@ -3213,6 +3213,7 @@ static valtype_t parse_valtype(sws_t *pw)
     else if (streql(pw->tokstr, "f32")) vt = VT_F32;
     else if (streql(pw->tokstr, "i64")) vt = VT_I64;
     else if (streql(pw->tokstr, "i32")) vt = VT_I32;
+    else if (streql(pw->tokstr, "v128")) vt = VT_V128;
     /* else if (streql(pw->tokstr, "funcref")) vt = RT_FUNCREF; */
     /* else if (streql(pw->tokstr, "externref")) vt = RT_EXTERNREF; */
     if (vt != VT_UNKN) { dropt(pw); return vt; }
-- 
2.43.0


From 9be095a9b51913933bc6ab3864106bd14d4b2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:46 +0000
Subject: [PATCH 41/66] fix: a typedef cannot redefine a symbol

---
 p.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p.c b/p.c
index 9a244ee..9358471 100644
--- a/p.c
+++ b/p.c
@@ -3923,6 +3923,8 @@ static void parse_top_typedef(pws_t *pw, node_t *pn)
     pn->name = parse_declarator(pw, ptn);
     expect(pw, TT_SEMICOLON, ";");
     if (!pn->name) reprintf(pw, startpos, "missing new type name in typedef");
+    if (bufbsearch(&g_syminfo, &pn->name, &int_cmp) != NULL)
+      neprintf(pn, "symbol already defined: %s", symname(pn->name));
     intern_symbol(symname(pn->name), TT_TYPE_NAME, (int)ndblen(&g_nodes));
     ndcpy(ndbnewbk(&g_nodes), ptn);    
   } else {
-- 
2.43.0


From 14f0dee3d2aa89ab3152b048946a518f8dfd2c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 42/66] fix: simd type specifiers do not read freed memory

---
 p.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/p.c b/p.c
index 9358471..97b6a21 100644
--- a/p.c
+++ b/p.c
@@ -3401,6 +3401,7 @@ static void parse_simd_body(pws_t *pw, node_t *pn)
   if (ahead(pw, "2") || ahead(pw, "4") || ahead(pw, "8") || ahead(pw, "16")) {
     node_t *pvn = ndnewbk(pn); long n = atol(pw->tokstr); dropt(pw);
     ndset(pvn, NT_LITERAL, pw->id, startpos); pvn->ts = TS_INT; pvn->val.i = n; 
+    ptn = ndref(pn, 0); /* may have been moved by ndnewbk */
     switch (ptn->ts) {
       case TS_BOOL:                  n = 128; break; /* all sizes work */
       case TS_CHAR:  case TS_UCHAR:  n *=  8; break;
-- 
2.43.0


From bc00015e00d9ea3f75a670f83434b6e87abf8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 43/66] fix: initializers of structures do not follow a pointer
 to a moved type

---
 c.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/c.c b/c.c
index 5abf060..25d87de 100644
--- a/c.c
+++ b/c.c
@@ -1151,14 +1151,16 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       }
       /* if (offi < asize) nwprintf(pdn, "warning: too few initializers for array"); */
     } else { /* struct or union */
-      size_t i, j, offi;
-      if (ptn->name && !ndlen(ptn)) {
-        node_t *pftn = (node_t *)lookup_eus_type(ptn->ts, ptn->name);
-        if (!pftn) n2eprintf(ptn, pdn, "can't initialize incomplete type");
-        else ptn = pftn;
-      }
-      for (i = 0, j = 1; i < ndlen(ptn); ++i, ++j) {
-        node_t *ptni = ndref(ptn, i), *pfni;
+      size_t i, j, offi; node_t *prtn = ptn;
+      for (i = 0, j = 1; true; ++i, ++j) {
+        node_t *ptni, *pfni;
+        if (prtn->name && !ndlen(prtn)) { /* re-fetched because static_eval can move global nodes */ 
+          node_t *pftn = (node_t *)lookup_eus_type(prtn->ts, prtn->name);
+          if (!pftn) n2eprintf(prtn, pdn, "can't initialize incomplete type");
+          else ptn = pftn;
+        }
+        if (i >= ndlen(ptn)) break;
+        ptni = ndref(ptn, i);
         assert(ptni->nt == NT_VARDECL && ndlen(ptni) == 1);
         offi = measure_offset(ptn, ptni, ptni->name, &pfni);
         if (j < ndlen(pdn)) {
@@ -1166,7 +1168,7 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
         } else {
           neprintf(pdn, "initializer is too short");
         }
-        if (ptn->ts == TS_UNION) break; /* first member only! */
+        if (prtn->ts == TS_UNION) break; /* first member only! */
       }
       if (j != ndlen(pdn)) 
         neprintf(pdn, "initializer is too long");
-- 
2.43.0


From 48f0b82317aebf1e0deaadc0f0879a21f9fe5314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 44/66] fix: offsets of lane loads and stores are written as
 the 32-bit values they are

---
 w.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/w.c b/w.c
index c14b6f6..db14e9b 100644
--- a/w.c
+++ b/w.c
@@ -1816,7 +1816,7 @@ char *format_inscode(inscode_t *pic, cbuf_t *pcb)
       else cbputf(pcb, " offset=%llu align=%u", pic->arg.u, 1<<(int)pic->arg2.u); 
       break;
     case INSIG_MEMARG_LANEIDX: {
-      cbputf(pcb, " offset=%llu align=%u", pic->arg2.ux2[0], 1<<(int)pic->arg2.ux2[1]); 
+      cbputf(pcb, " offset=%u align=%u", pic->arg2.ux2[0], 1<<(int)pic->arg2.ux2[1]); 
       if (pic->id) cbputf(pcb, " $%s", symname(pic->id)); 
       else cbputf(pcb, " %llu", pic->arg.u); 
     } break;      
-- 
2.43.0


From a8eceaa857fd57c1262071a76d9532e910f0aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 45/66] fix: constant shifts by 64 and more are not folded to
 whatever is on the stack

---
 c.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index 25d87de..a88dd29 100644
--- a/c.c
+++ b/c.c
@@ -427,8 +427,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->u = integral_mask(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->u = integral_mask(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->u = integral_mask(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->u = integral_mask(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
@@ -449,8 +449,8 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
         case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
         case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
-        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); break;
-        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); break;
+        case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); else tz = TS_VOID; break;
+        case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
         case TT_NE:    pvz->i = x != y; tz = TS_INT; break;
         case TT_LT:    pvz->i = x < y;  tz = TS_INT; break;
-- 
2.43.0


From 9933ef562e5a91799cf9d1347b889e02a9cf9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 46/66] fix: floating constants out of range are converted to
 integers the same way everywhere

---
 c.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/c.c b/c.c
index a88dd29..772b708 100644
--- a/c.c
+++ b/c.c
@@ -259,6 +259,24 @@ static long long integral_sext(ts_t ts, long long i)
   return i;
 }
 
+/* conversions of floating constants; out-of-range values are saturated */
+static long long double_to_llong(double d)
+{
+  double lim = 4294967296.0 * 2147483648.0; /* 2^63 */
+  if (d >= lim) return 0x7fffffffffffffffLL;
+  if (d >= -lim) return (long long)d;
+  if (d < -lim) return -0x7fffffffffffffffLL - 1LL;
+  return 0; /* nan */
+}
+
+static unsigned long long double_to_ullong(double d)
+{
+  double lim = 4294967296.0 * 4294967296.0; /* 2^64 */
+  if (d >= lim) return 0xffffffffffffffffULL;
+  if (d >= 0) return (unsigned long long)d;
+  return (unsigned long long)double_to_llong(d); /* wraps around */
+}
+
 static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
 {
   assert(pnv);
@@ -278,12 +296,12 @@ static void numval_convert(ts_t tsto, ts_t tsfrom, numval_t *pnv)
     else if (ts_unsigned(tsfrom)) pnv->u = (pnv->u != 0);
     else pnv->u = (pnv->i != 0);
   } else if (ts_unsigned(tsto)) {
-    if (tsfrom == TS_DOUBLE) pnv->u = (unsigned long long)pnv->d;
-    else if (tsfrom == TS_FLOAT) pnv->u = (unsigned long long)pnv->f;
+    if (tsfrom == TS_DOUBLE) pnv->u = integral_mask(tsto, double_to_ullong(pnv->d));
+    else if (tsfrom == TS_FLOAT) pnv->u = integral_mask(tsto, double_to_ullong(pnv->f));
     else pnv->u = integral_mask(tsto, pnv->u); /* i reinterpreted as u */
   } else { /* signed integer */
-    if (tsfrom == TS_DOUBLE) pnv->i = (long long)pnv->d;
-    else if (tsfrom == TS_FLOAT) pnv->i = (long long)pnv->f;
+    if (tsfrom == TS_DOUBLE) pnv->i = integral_sext(tsto, double_to_llong(pnv->d));
+    else if (tsfrom == TS_FLOAT) pnv->i = integral_sext(tsto, double_to_llong(pnv->f));
     else pnv->i = integral_sext(tsto, pnv->i); /* u reinterpreted as i */
   }
 }
-- 
2.43.0


From 7d7245610d6f4f32c75b190a2b45660542ef6d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 47/66] fix: folding a division of the smallest value by -1
 does not crash

---
 c.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 772b708..890d4f4 100644
--- a/c.c
+++ b/c.c
@@ -465,8 +465,9 @@ static ts_t numval_binop(tt_t op, ts_t tx, const numval_t *pvx, ts_t ty, const n
         case TT_AND:   pvz->i = integral_sext(tz, x & y); break;
         case TT_OR:    pvz->i = integral_sext(tz, x | y); break;
         case TT_XOR:   pvz->i = integral_sext(tz, x ^ y); break;
-        case TT_SLASH: if (y) pvz->i = integral_sext(tz, x / y); else tz = TS_VOID; break;
-        case TT_REM:   if (y) pvz->i = integral_sext(tz, x % y); else tz = TS_VOID; break;
+        /* division by -1 is special: it may overflow */
+        case TT_SLASH: if (y) pvz->i = integral_sext(tz, y == -1 ? (long long)(0ULL-vx.u) : x / y); else tz = TS_VOID; break;
+        case TT_REM:   if (y) pvz->i = integral_sext(tz, y == -1 ? 0LL : x % y); else tz = TS_VOID; break;
         case TT_SHL:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x << y); else tz = TS_VOID; break;
         case TT_SHR:   if (y >= 0 && y < 64) pvz->i = integral_sext(tz, x >> y); else tz = TS_VOID; break;
         case TT_EQ:    pvz->i = x == y; tz = TS_INT; break;
-- 
2.43.0


From ced60e8eca2f9f8c6b7290918e9e4898d877ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:57 +0000
Subject: [PATCH 48/66] fix: types that do not fit the 32-bit address space are
 refused

---
 c.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/c.c b/c.c
index 890d4f4..00db90e 100644
--- a/c.c
+++ b/c.c
@@ -629,6 +629,13 @@ static const node_t *type_eval(node_t *pn, buf_t *prib)
   return NULL;
 }
 
+/* increase size by n; the result should fit into 32-bit address space */
+static void grow_size(const node_t *ptn, node_t *prn, size_t *psize, size_t n)
+{
+  if (*psize > 0xffffffffU || n > 0xffffffffU - *psize) n2eprintf(ptn, prn, "type too large");
+  *psize += n;
+}
+
 /* calc size/align for ptn; prn is NULL or reference node for errors */
 void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign, int lvl)
 {
@@ -684,7 +691,7 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
       if (!*psize || !*palign) 
         n2eprintf(ptn, prn, "can't allocate/measure empty or incomplete union");
       /* round size up so it is multiple of align */
-      if ((n = *psize % *palign) > 0) *psize += *palign - n; 
+      if ((n = *psize % *palign) > 0) grow_size(ptn, prn, psize, *palign - n); 
     } break;
     case TS_STRUCT: {
       size_t size, align, i, n;
@@ -698,13 +705,13 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
         if (pni->nt == NT_VARDECL && ndlen(pni) == 1) pni = ndcref(pni, 0);
         measure_type(pni, prn, &size, &align, lvl+1);
         /* round size up so it is multiple of pni align */
-        if ((n = *psize % align) > 0) *psize += align - n; 
-        *psize += size; if (align > *palign) *palign = align;         
+        if ((n = *psize % align) > 0) grow_size(ptn, prn, psize, align - n); 
+        grow_size(ptn, prn, psize, size); if (align > *palign) *palign = align;         
       }
       if (!*psize || !*palign) 
         n2eprintf(ptn, prn, "can't allocate/measure empty or incomplete struct");
       /* round size up so it is multiple of align */
-      if ((n = *psize % *palign) > 0) *psize += *palign - n; 
+      if ((n = *psize % *palign) > 0) grow_size(ptn, prn, psize, *palign - n); 
     } break;
     case TS_ARRAY: {
       if (ndlen(ptn) == 2) {
@@ -714,6 +721,7 @@ void measure_type(const node_t *ptn, node_t *prn, size_t *psize, size_t *palign,
         if (!arithmetic_eval_to_int((node_t*)pcn, NULL, &count) || count <= 0)
           n2eprintf(pcn, prn, "can't allocate/measure data for arrays of nonconstant/nonpositive size");
         measure_type(petn, prn, psize, palign, lvl+1);
+        if (*psize > 0xffffffffU / (unsigned)count) n2eprintf(ptn, prn, "type too large");
         *psize *= count;
       } else {
         n2eprintf(ptn, prn, "can't allocate/measure data for arrays of unspecified size");
@@ -762,12 +770,12 @@ size_t measure_offset(const node_t *ptn, node_t *prn, sym_t fld, node_t **ppftn)
         if (pni->nt == NT_VARDECL && ndlen(pni) == 1) s = pni->name, pni = ndcref(pni, 0);
         measure_type(pni, prn, &size, &align, 0);
         /* round size up so it is multiple of pni align */
-        if ((n = cursize % align) > 0) cursize += align - n;
+        if ((n = cursize % align) > 0) grow_size(ptn, prn, &cursize, align - n);
         if (s == fld) {
           if (ppftn) *ppftn = (node_t*)pni;
           return cursize;
         }
-        cursize += size;
+        grow_size(ptn, prn, &cursize, size);
       }
       n2eprintf(ptn, prn, "can't find field .%s in struct", symname(fld));
     } break;
-- 
2.43.0


From 3fd70220f39fadc13847955c02c381dd43f9a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:30 +0000
Subject: [PATCH 49/66] fix: strtod handles values near and beyond the limits
 of the range

---
 lib/src/stdlib.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/lib/src/stdlib.c b/lib/src/stdlib.c
index 83f39b6..d89ef2b 100644
--- a/lib/src/stdlib.c
+++ b/lib/src/stdlib.c
@@ -134,7 +134,10 @@ long long atoll(const char *s)
 /* poor man's strtod: rounding errors are possible in decimal, hex is exact */
 
 #define MAX_BASE10_EXPONENT 511 /* largest possible base 10 exponent */
+#define MAX_EXPONENT_ARG 99999 /* larger exponents are all the same */
 #define MAX_BASE10_DIGS 18 /* more than this won't affect the result */
+#define MIN_BASE10_RESULT 0x0.ffffffffffff0p-1022 /* normal, but for rounding errors */
+#define MIN_BASE16_RESULT 0x1p-1022 /* smallest normal number */
 static double powers_of_10[] = { 10., 100., 1.0e4, 1.0e8, 1.0e16, 1.0e32, 1.0e64, 1.0e128, 1.0e256 };
 
 static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
@@ -155,6 +158,9 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   pexp = pc; pc -= mantsz;
   if (dotpos < 0) dotpos = mantsz; 
   else --mantsz;
+  while (mantsz > 1 && (*pc == '0' || *pc == '.')) { /* leading zeros */
+    if (*pc++ == '0') { --mantsz; --dotpos; }
+  }
   if (mantsz > MAX_BASE10_DIGS) mantsz = MAX_BASE10_DIGS;
   fracexp = dotpos - mantsz;
   if (mantsz == 0) {
@@ -175,6 +181,7 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
     else if (*pc == '+') ++pc;
     while (isdigit(*pc)) {
       exp = exp * 10 + (*pc++ - '0');
+      if (exp > MAX_EXPONENT_ARG) exp = MAX_EXPONENT_ARG;
       ++expsz;
     }
   }
@@ -186,10 +193,17 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   else exp = fracexp + exp;
   if (exp < 0) { negexp = true; exp = -exp; } 
   else negexp = false;
+  if (endp != NULL) *endp = (char *)pc;
+  if (fraction == 0.0) return neg ? -fraction : fraction;
   if (exp > MAX_BASE10_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
     errno = ERANGE;
-    return neg ? -HUGE_VAL : HUGE_VAL;
+    fraction = negexp ? 0.0 : HUGE_VAL;
+    return neg ? -fraction : fraction;
+  }
+  if (exp > 308) { /* 10^exp is out of range, the result may be not */
+    if (negexp) fraction /= 1.0e256;
+    else fraction *= 1.0e256;
+    exp -= 256;
   }
   exponent = 1.0;
   for (pd = &powers_of_10[0]; exp != 0; exp >>= 1, ++pd) {
@@ -198,17 +212,17 @@ static double strtod_dec(const char *s, const char *pc, bool neg, char **endp)
   if (negexp) fraction /= exponent;
   else fraction *= exponent;
 
-  if (endp != NULL) *endp = (char *)pc;
+  if (fraction < MIN_BASE10_RESULT || fraction == HUGE_VAL) errno = ERANGE;
   return neg ? -fraction : fraction;
 }
 
-#define MAX_BASE2_EXPONENT 1024 /* largest possible base 2 exponent */
+#define MAX_BASE2_EXPONENT 1200 /* larger ones are always out of range */
 #define MAX_BASE16_DIGS 15 /* more than this won't affect the result */
 
 static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
 {
   bool negexp = false;
-  double fraction; // , exponent, *pd;
+  double fraction, res;
   int c, exp = 0, fracexp = 0, val;
   int mantsz = 0, dotpos = -1, expsz = -1;
   const char *pexp;
@@ -223,6 +237,9 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
   pexp = pc; pc -= mantsz;
   if (dotpos < 0) dotpos = mantsz;
   else --mantsz;
+  while (mantsz > 1 && (*pc == '0' || *pc == '.')) { /* leading zeros */
+    if (*pc++ == '0') { --mantsz; --dotpos; }
+  }
   if (mantsz > MAX_BASE16_DIGS) mantsz = MAX_BASE16_DIGS;
   fracexp = (dotpos - mantsz)*4;
   if (mantsz == 0) {
@@ -246,6 +263,7 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
     else if (*pc == '+') ++pc;
     while (isdigit(*pc)) {
       exp = exp * 10 + (*pc++ - '0');
+      if (exp > MAX_EXPONENT_ARG) exp = MAX_EXPONENT_ARG;
       ++expsz;
     }
   }
@@ -257,15 +275,17 @@ static double strtod_hex(const char *s, const char *pc, bool neg, char **endp)
   else exp = fracexp + exp;
   if (exp < 0) { negexp = true; exp = -exp; }
   else negexp = false;
+  if (endp != NULL) *endp = (char *)pc;
+  if (fraction == 0.0) return neg ? -fraction : fraction;
   if (exp > MAX_BASE2_EXPONENT) {
-    if (endp != NULL) *endp = (char *)pc;
     errno = ERANGE;
-    return neg ? -HUGE_VAL : HUGE_VAL;
+    res = negexp ? 0.0 : HUGE_VAL;
+    return neg ? -res : res;
   }
-  fraction = ldexp(fraction, negexp ? -exp : exp);
-
-  if (endp != NULL) *endp = (char *)pc;
-  return neg ? -fraction : fraction;
+  if (negexp) exp = -exp;
+  res = ldexp(fraction, exp);
+  if (res == HUGE_VAL || (res < MIN_BASE16_RESULT && ldexp(res, -exp) != fraction)) errno = ERANGE;
+  return neg ? -res : res;
 }
 
 /* internal scanner for special values */
-- 
2.43.0


From 6f8f24d20e0286b92a58fe6771f22445d8f88e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 50/66] fix: duplicate cases are reported in source order

---
 c.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/c.c b/c.c
index 00db90e..fca42c3 100644
--- a/c.c
+++ b/c.c
@@ -1785,18 +1785,29 @@ typedef struct vi {
   ts_t cast;   /* TS_VOID or TS_CHAR..TS_USHORT for widened vars */
 } vi_t;
 
-/* case sorting aid: sorts cases numerically, default is first; dupcheck */
+/* case sorting aid: sorts cases numerically, default is first; duplicates go in source order */
 int case_cmp(const void *p1, const void *p2)
 {
-  const node_t *pn1 = p1, *pn2 = p2; int i1, i2;
-  if (pn1->nt == NT_DEFAULT && pn2->nt == NT_DEFAULT)
-    n2eprintf(pn1, pn2, "duplicate default cases"); 
-  if (pn1->nt == NT_DEFAULT) return -1;
-  if (pn2->nt == NT_DEFAULT) return 1;
-  assert(pn1->nt == NT_CASE && pn2->nt == NT_CASE);
-  i1 = (int)ndcref(pn1, 0)->val.i, i2 = (int)ndcref(pn2, 0)->val.i;
-  if (i1 == i2) n2eprintf(pn1, pn2, "duplicate cases"); 
-  return i1 < i2 ? -1 : 1;
+  const node_t *pn1 = p1, *pn2 = p2; int i1 = 0, i2 = 0;
+  if (pn1->nt != pn2->nt) return pn1->nt == NT_DEFAULT ? -1 : 1;
+  if (pn1->nt == NT_CASE) {
+    i1 = (int)ndcref(pn1, 0)->val.i; i2 = (int)ndcref(pn2, 0)->val.i;
+  } else assert(pn1->nt == NT_DEFAULT); 
+  if (i1 == i2) i1 = pn1->startpos, i2 = pn2->startpos;
+  return i1 < i2 ? -1 : i1 > i2;
+}
+
+/* report duplicates in a sorted list of cases, starting from index 1 */
+static void check_cases(node_t *psn)
+{
+  size_t i;
+  for (i = 2; i < ndlen(psn); ++i) {
+    node_t *pn1 = ndref(psn, i-1), *pn2 = ndref(psn, i);
+    if (pn1->nt != pn2->nt) continue;
+    if (pn1->nt == NT_DEFAULT) n2eprintf(pn1, pn2, "duplicate default cases"); 
+    if ((int)ndref(pn1, 0)->val.i == (int)ndref(pn2, 0)->val.i)
+      n2eprintf(pn1, pn2, "duplicate cases"); 
+  }
 }
 
 ///* convert init display to a bunch of assignments */
@@ -2009,6 +2020,7 @@ static void expr_wasmify(node_t *pn, buf_t *pvib, buf_t *plib)
         ndinsbk(psn, NT_GOTO)->name = l; *pl = l; 
       }
       if (ndlen(pn) > 2) qsort(ndref(pn, 1), ndlen(pn)-1, sizeof(node_t), &case_cmp);
+      check_cases(pn);
       if (ndlen(pn) == 1 || ndref(pn, 1)->nt != NT_DEFAULT) {
         node_t *psn = ndset(ndinsnew(pn, 1), NT_DEFAULT, pn->pwsid, pn->startpos);
         ndinsbk(psn, NT_GOTO)->name = bl;  
-- 
2.43.0


From e429b91b512ad89f832a90d58f95e7036753da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 51/66] fix: an escape that does not fit a string literal is an
 error

---
 p.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/p.c b/p.c
index 97b6a21..77d36dd 100644
--- a/p.c
+++ b/p.c
@@ -2583,7 +2583,8 @@ static void parse_primary_expr(pws_t *pw, node_t *pn)
       char *ns = pw->tokstr; unsigned long ul; bool raw;
       ndset(pn, NT_LITERAL, pw->id, startpos); 
       while (*ns && (errno = 0, ul = strtou8cc32(ns, &ns, &raw), !errno && ul <= 0x10FFFFUL)) {
-        if (raw) { assert(ul <= 0xFFL); cbputc(ul, &pn->data); }
+        if (raw && ul > 0xFFUL) reprintf(pw, startpos, "string literal char overflow");
+        if (raw) cbputc((int)ul, &pn->data);
         else cbputlc(ul, &pn->data); /* in utf-8 */
       }
       cbputc(0, &pn->data); /* terminating zero char, C-style */
-- 
2.43.0


From 7bacd58fa9414e1f25f6f65a4fbb5c492ac637b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 52/66] fix: switch statements with cases far apart compile

---
 c.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c.c b/c.c
index fca42c3..0fb6f2b 100644
--- a/c.c
+++ b/c.c
@@ -3509,7 +3509,7 @@ static node_t *compile_branch(node_t *prn, node_t *pan, sym_t lname)
 /* try to compile switch to a jump table (br_table) or return NULL if too sparse */
 static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t *pcv, size_t cc)
 {
-  size_t i, ti; sym_t dlname; int off, curidx, idx;
+  size_t i, ti; sym_t dlname; int off; unsigned curidx, idx;
   const node_t *pni, *psn, *pgn; node_t *pcn; size_t dfillc = 0;
   assert(cc >= 1); /* default goto, followed by 0 or more case gotos */
   if (cc < 3) return NULL; /* we need at least 2 cases */
@@ -3530,7 +3530,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     const node_t *pni = pcv+i; assert(pni->nt == NT_CASE && ndlen(pni) == 2);
     psn = ndcref(pni, 0); assert(psn->nt == NT_LITERAL && psn->ts == TS_INT);
     pgn = ndcref(pni, 1); assert(pgn->nt == NT_GOTO && pgn->name != 0);
-    idx = (int)psn->val.i - off; assert(idx >= 0);
+    idx = (unsigned)psn->val.i - (unsigned)off; /* cases are sorted */
     while (curidx < idx) { /* fill gap with defaults */
       acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
       ++curidx; ++dfillc;
@@ -3539,7 +3539,7 @@ static node_t *compile_switch_table(node_t *prn, const node_t *pan, const node_t
     acode_pushin_id(pcn, IN_BR, pgn->name); /* NB: not an actual instruction! */
     ++curidx;
   }
-  icbref(&pcn->data, ti)->arg.u = (unsigned)curidx; /* patch size, add default */
+  icbref(&pcn->data, ti)->arg.u = curidx; /* patch size, add default */
   acode_pushin_id(pcn, IN_BR, dlname); /* NB: not an actual instruction! */
   return pcn;
 }
-- 
2.43.0


From ece7b75a925152240a701c1e4ccb044a9a548e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 53/66] fix: putc does not report failure because of an earlier
 error

---
 lib/src/stdio.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/stdio.c b/lib/src/stdio.c
index 509a4e4..f6d1c4a 100644
--- a/lib/src/stdio.c
+++ b/lib/src/stdio.c
@@ -222,7 +222,7 @@ static int wrtchk(FILE *fp)
 /* putc helper; precondition: f->cnt <= 0 */
 int _flushbuf(int c, FILE *fp)
 {
-  unsigned char c1;
+  unsigned char c1; int res;
   if (wrtchk(fp) != 0) return EOF;
   do {
     /* check for linebuffered with write perm, but no EOF */
@@ -239,9 +239,9 @@ int _flushbuf(int c, FILE *fp)
       return EOF;
     }
   } while (fp->flags & (_IONBF|_IOLBF));
-  writebuf(fp); /* full buffer: flush it */
-  putc((char)c, fp); /* then put "c" in newly emptied buf */
-  return ferror(fp) ? EOF : (unsigned char)c;
+  res = writebuf(fp); /* full buffer: flush it */
+  /* then put "c" in newly emptied buf */
+  return (putc((char)c, fp) == EOF || res == EOF) ? EOF : (unsigned char)c;
 }
 
 size_t fwrite(const void *buf, size_t size, size_t count, FILE *fp)
-- 
2.43.0


From f3e9206e63ef8cb234d5eb8ff7bda3dd9c481699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 54/66] fix: strndup does not write past its block

---
 lib/src/string.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/string.c b/lib/src/string.c
index a427d7f..4ce3434 100644
--- a/lib/src/string.c
+++ b/lib/src/string.c
@@ -228,11 +228,11 @@ char *strncpy(char *dst, const char *src, size_t n)
 
 char *strndup(const char *s, size_t n)
 {
-  size_t sl = strlen(s), l = (n > sl ? sl : n) + 1;
-  char *d = malloc(l);
+  size_t l = strnlen(s, n);
+  char *d = malloc(l + 1);
   if (!d) return NULL;
   _bcopy(d, s, l);
-  d[n] = '\0';
+  d[l] = '\0';
   return d;
 }
 
-- 
2.43.0


From 6d2a3c0414c3855032044c282ae29131742f07db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 55/66] fix: option values out of range mean the same to the
 self-hosted compiler

---
 c.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/c.c b/c.c
index 0fb6f2b..3d153c2 100644
--- a/c.c
+++ b/c.c
@@ -4630,8 +4630,8 @@ int main(int argc, char **argv)
   const char *ofile_arg = NULL;
   bool c_opt = false;
   long lvl_arg = 3;
-  unsigned long s_arg = 131072; /* 128K default */
-  unsigned long a_arg = 4096; /* 4K default */
+  unsigned long long s_arg = 131072; /* 128K default */
+  unsigned long long a_arg = 4096; /* 4K default */
   const char *path;
   dsbuf_t incv, libv; 
   
@@ -4661,16 +4661,17 @@ int main(int argc, char **argv)
       case 'v':  incverbosity(); break;
       case 'q':  incquietness(); break;
       case 'c':  c_opt = true; break;
-      case 'O':  lvl_arg = atol(eoptarg); break;
+      case 'O':  lvl_arg = strtol(eoptarg, NULL, 10); break;
       case 'o':  ofile_arg = eoptarg; break;
       case 'I':  eoarg = eoptarg; dsbpushbk(&incv, &eoarg); break;
       case 'L':  eoarg = eoptarg; dsbpushbk(&libv, &eoarg); break;
-      case 's':  s_arg = strtoul(eoptarg, NULL, 0); break; 
-      case 'a':  a_arg = strtoul(eoptarg, NULL, 0); break; 
+      case 's':  s_arg = strtoull(eoptarg, NULL, 0); break; 
+      case 'a':  a_arg = strtoull(eoptarg, NULL, 0); break; 
       case 'h':  eusage("WCPL 1.04 built on " __DATE__);
     }
   }
 
+  if (lvl_arg > INT_MAX) lvl_arg = INT_MAX;
   if (s_arg < 1024 || s_arg > 16777216)
     eusage("-s argument is outside of reasonable range");
   if (a_arg != 0 && (a_arg < 512 || a_arg > 65536))
-- 
2.43.0


From 99b950732de55460a6a26015895d43c0a8ff73d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 56/66] fix: a UTF-8 sequence cut short does not step over the
 end of the string

---
 l.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/l.c b/l.c
index 58072e9..42f93f0 100644
--- a/l.c
+++ b/l.c
@@ -157,10 +157,11 @@ unsigned char *utf8(unsigned long c, unsigned char *s)
 }
 
 /* decodes legal utf-8 as well as any other encoded sequences for code points up to 21 bits (0 to U+001FFFFF) */
-/* CAVEAT: in broken encoding can step over \0 byte if it is a (bad) payload byte and thus run past end of line!! */
+/* NB: never steps over \0 byte: for sequence cut short by it returns -1 and advances by 1 byte only */
 unsigned long unutf8(unsigned char **ps) 
-{ /* NB: unutf8 never advances less than 1 and more than 4 bytes; gobbles up arbitrary bytes w/o error */
+{ /* NB: unutf8 never advances more than 4 bytes; gobbles up arbitrary non-0 bytes w/o error */
   unsigned char *s = *ps; unsigned long c; unsigned t = *s >> 4; 
+  if (t >= 0xC && (!s[1] || (t >= 0xE && (!s[2] || (t == 0xF && !s[3]))))) { *ps = s + 1; return (unsigned long)(-1); }
   c =  (unsigned long)(*s & t["\x7f\x7f\x7f\x7f\x7f\x7f\x7f\x7f\0\0\0\0\x1f\x1f\x0f\x07"]) << t["\0\0\0\0\0\0\0\0\0\0\0\0\x06\x06\x0c\x12"];
   s += t["\1\1\1\1\1\1\1\1\0\0\0\0\1\1\1\1"];
   c |= (unsigned long)(*s & t["\0\0\0\0\0\0\0\0\0\0\0\0\x3f\x3f\x3f\x3f"]) << t["\0\0\0\0\0\0\0\0\0\0\0\0\0\0\x06\x0c"];
@@ -174,7 +175,8 @@ unsigned long unutf8(unsigned char **ps)
 
 unsigned long strtou8c(const char *s, char **ep)
 {
-  unsigned long c = unutf8((unsigned char **)&s);
+  const char *s0 = s; unsigned long c = unutf8((unsigned char **)&s);
+  if (c == (unsigned long)(-1)) { errno = EINVAL; s = s0; }
   if (ep) *ep = (char *)s; return c;
 }
 
-- 
2.43.0


From d9800a89c069a2acdc786410ad33574fc4667394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 57/66] fix: a body after a declaration of no function is
 reported, not asserted

---
 p.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/p.c b/p.c
index 77d36dd..2659d95 100644
--- a/p.c
+++ b/p.c
@@ -3897,6 +3897,8 @@ static void parse_top_decl(pws_t *pw, node_t *pn)
       if (ndlen(pn) == 1 && ndref(pn, 0)->nt == NT_VARDECL) { 
         node_t nd = mknd(), *pbn;
         ndswap(ndref(pn, 0), &nd);
+        if (ndref(&nd, 0)->nt != NT_TYPE || ndref(&nd, 0)->ts != TS_FUNCTION)
+          neprintf(&nd, "malformed top-level function definition"); 
         nd.nt = NT_FUNDEF;
         parse_stmt(pw, (pbn = ndnewbk(&nd)));
         if (pbn->name) neprintf(pbn, "unexpected label on top function block");   
-- 
2.43.0


From f53c31c533c6ed42a8b4a4bbe64d1a28932c575c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 58/66] fix: an unsupported initializer is reported, not
 asserted

---
 c.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c.c b/c.c
index 3d153c2..93e6b53 100644
--- a/c.c
+++ b/c.c
@@ -1281,7 +1281,6 @@ static watie_t *initialize_bulk_data(size_t pdidx, watie_t *pd, size_t off, node
       }
     }
   } else {
-    assert(false);
     neprintf(pdn, "valid initializer expected");
   }
   return pd;
-- 
2.43.0


From 7189fab6645b30a58d9a02617fe30dab734a38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 59/66] fix: unbalanced blocks in an object file are reported,
 not asserted

---
 w.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/w.c b/w.c
index db14e9b..a52b060 100644
--- a/w.c
+++ b/w.c
@@ -4366,8 +4366,10 @@ static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icb
     switch (instr_sig(psc->in)) {
       case INSIG_NONE: /* end, ... */ {
         if (psc->in == IN_END) {
-          sym_t *pl = bufpopbk(&lbb);
-          if (psc->id) assert(*pl == psc->id);
+          sym_t *pl;
+          if (buflen(&lbb) == 0) eprintf("unexpected end of block");
+          pl = bufpopbk(&lbb);
+          if (psc->id && *pl != psc->id) eprintf("unexpected end of block: $%s", symname(psc->id));
         }
       } break;
       case INSIG_BT: /* block, loop, if */ {
@@ -4425,6 +4427,7 @@ static void wat_to_wasm_code(wasm_module_t *pbm, size_t parc, vtbuf_t *pltb, icb
         assert(false);     
     }
   }
+  if (buflen(&lbb) > 0) eprintf("missing end of block");
   icbnewbk(pdcb)->in = IN_END;
   buffini(&lbb);
 }
-- 
2.43.0


From 5b511d862737e45aacb64612f604f5016c6d9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 60/66] fix: a data segment without alignment in an object file
 is reported

---
 w.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/w.c b/w.c
index a52b060..905deba 100644
--- a/w.c
+++ b/w.c
@@ -3592,6 +3592,8 @@ static void parse_modulefield(sws_t *pw, wat_module_t* pm)
     }
     if (peekt(pw) == WT_KEYWORD && strprf(pw->tokstr, "align=") != NULL) {
       pd->align = (int)parse_align(pw);
+    } else if (!g_watexec) {
+      seprintf(pw, "missing align= argument");
     }
     if (peekt(pw) == WT_STRING) {
       scan_string(pw, pw->tokstr, &pd->data);
-- 
2.43.0


From 5770ead3588f11c9ae3478622e7c19649d5e1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:24 +0000
Subject: [PATCH 61/66] fix: a wrong initializer of a global in an object file
 is reported, not asserted

---
 w.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/w.c b/w.c
index 905deba..23040a1 100644
--- a/w.c
+++ b/w.c
@@ -3650,8 +3650,18 @@ static void parse_modulefield(sws_t *pw, wat_module_t* pm)
       pe->vt = parse_valtype(pw);
     }
     if (ahead(pw, "(")) {
+      bool ok = false;
       expect(pw, "(");
       parse_ins(pw, &pe->ic, NULL);
+      switch (pe->vt) {
+        case VT_I32: ok = pe->ic.in == IN_I32_CONST || pe->ic.in == IN_REF_DATA || pe->ic.in == IN_REF_FUNC; break;
+        case VT_I64: ok = pe->ic.in == IN_I64_CONST; break;
+        case VT_F32: ok = pe->ic.in == IN_F32_CONST; break;
+        case VT_F64: ok = pe->ic.in == IN_F64_CONST; break;
+        case VT_V128: ok = pe->ic.in == IN_V128_CONST; break;
+        default:;
+      }
+      if (!ok) seprintf(pw, "unexpected initializer of a global");
       expect(pw, ")");
     }
   } else if (ahead(pw, "func")) {
-- 
2.43.0


From dc44efcc3dc0d68364e3aa4556b78694d7809502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 62/66] fix: v128 globals without initializer link, elements of
 v128 arrays load

---
 c.c | 6 ++++++
 w.c | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/c.c b/c.c
index 93e6b53..968f9e8 100644
--- a/c.c
+++ b/c.c
@@ -2525,6 +2525,11 @@ static inscode_t *asm_load(ts_t tsto, ts_t tsfrom, unsigned off, icbuf_t *pdata)
         case TS_DOUBLE: in = IN_F64_LOAD; align = 3; break;
         default:;
       } break;
+    case TS_V128:
+      switch (tsfrom) {
+        case TS_V128:   in = IN_V128_LOAD; align = 4; break;
+        default:;
+      } break;
     default: assert(false);
   }
   assert(in);
@@ -2544,6 +2549,7 @@ static void asm_instr_load_to_store(const inscode_t *plic, inscode_t *psic)
     case IN_I64_LOAD: in = IN_I64_STORE; break;
     case IN_F32_LOAD: in = IN_F32_STORE; break;
     case IN_F64_LOAD: in = IN_F64_STORE; break;
+    case IN_V128_LOAD: in = IN_V128_STORE; break;
     case IN_I32_LOAD8_S:  case IN_I32_LOAD8_U:  in = IN_I32_STORE8; break;
     case IN_I32_LOAD16_S: case IN_I32_LOAD16_U: in = IN_I32_STORE16; break;
     case IN_I64_LOAD8_S:  case IN_I64_LOAD8_U:  in = IN_I64_STORE8; break;
diff --git a/w.c b/w.c
index 23040a1..f1b9359 100644
--- a/w.c
+++ b/w.c
@@ -4091,8 +4091,9 @@ size_t watify_wat_module(wat_module_t* pm)
       }
     } else if (pe->iek == IEK_GLOBAL) {
       if (pe->ic.in == 0) {
-        pe->ic.arg.u = 0; /* whole union gets zeroed */
+        pe->ic.arg.u = pe->ic.arg2.u = 0; /* whole unions get zeroed */
         switch (pe->vt) {
+          case VT_V128: pe->ic.in = IN_V128_CONST; break;
           case VT_F64: pe->ic.in = IN_F64_CONST; break;
           case VT_F32: pe->ic.in = IN_F32_CONST; break;
           case VT_I64: pe->ic.in = IN_I64_CONST; break;
@@ -4479,7 +4480,7 @@ static void wat_to_wasm_ie(bool import, watiebuf_t *pieb, wasm_module_t *pbm)
         if (import) pe->imported = true;
         else pe->exported = pie->exported;
         pe->vt = pie->vt; pe->mut = pie->mut;
-        assert(IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST);
+        assert((IN_I32_CONST <= pie->ic.in && pie->ic.in <= IN_F64_CONST) || pie->ic.in == IN_V128_CONST);
         pdc = icbnewbk(&pe->code); *pdc = pie->ic; pdc->id = 0;
         if (pdc->in == IN_I32_CONST) { /* extend sign to upper 32 bits */
           pdc->arg.i = (long long)(pdc->arg.u << 32) >> 32;
-- 
2.43.0


From ed1b12213780834fdf7c26fe990b4fa59605ab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 63/66] fix: a conditional expression of type v128 is compiled,
 not asserted

---
 c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c.c b/c.c
index 968f9e8..1d0adce 100644
--- a/c.c
+++ b/c.c
@@ -3136,7 +3136,7 @@ static node_t *compile_cond(node_t *prn, node_t *pan1, node_t *pan2, node_t *pan
     /* fixme: 'if'-'else' block is needed */
     unsigned bt = ts_to_blocktype(pctn->ts);
     if (!bt) neprintf(prn, "impossible type of logical operator result"); 
-    assert(bt == BT_VOID || (bt >= VT_F64 && bt <= VT_I32));
+    assert(bt == BT_VOID || (bt >= VT_V128 && bt <= VT_I32));
     acode_swapin(pcn, pan1);
     acode_pushin_uarg(pcn, IN_IF, bt);
     acode_swapin(pcn, pan2);
-- 
2.43.0


From 9a14f9e1a730fa5ffd324674e06693e57089ecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 64/66] fix: dereferencing a void pointer is reported, not
 asserted

---
 c.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c.c b/c.c
index 1d0adce..d372c7d 100644
--- a/c.c
+++ b/c.c
@@ -3154,6 +3154,7 @@ static node_t *compile_ataddr(node_t *prn, node_t *pan)
   node_t *patn = acode_type(pan), *petn = NULL;
   if (patn->ts == TS_PTR) petn = ndref(patn, 0);
   else neprintf(prn, "cannot dereference non-pointer expression");  
+  if (petn->ts == TS_VOID) neprintf(prn, "cannot dereference void pointer");
   if (ts_bulk(petn->ts)) {
     /* {bulk_t* | x} => {bulk_t | x} */
     lift_arg0(patn);
-- 
2.43.0


From f1a0b057eeb6ee141a2d82abe47e7b53e81940af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 65/66] fix: a local variable of a type that cannot have one is
 reported, not asserted

---
 c.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/c.c b/c.c
index d372c7d..03ff0d4 100644
--- a/c.c
+++ b/c.c
@@ -2237,8 +2237,7 @@ static void fundef_wasmify(node_t *pdn)
         ndrem(pbn, i); 
       } break;
       default: {
-        assert(false);
-        ++i;
+        neprintf(pdni, "local variables of type %s are not supported", ts_name(ptni->ts));
       } break;
     }
   }
-- 
2.43.0


From da339b1137f3f34efb14a5ef52e6ab811bb0552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 66/66] fix: a main() of another module in a damaged object is
 reported, not asserted

---
 w.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/w.c b/w.c
index f1b9359..e51e997 100644
--- a/w.c
+++ b/w.c
@@ -4206,7 +4206,9 @@ void link_wat_modules(wat_module_buf_t *pwb, wat_module_t* pm)
         watie_t *pe = watiebref(&pmi->exports, j);
         if (pe->iek != IEK_FUNC) continue;
         if (pe->id == mainid) {
-          assert(pe->mod == mainmod);
+          if (pe->mod != mainmod) 
+            eprintf("main() in %s module belongs to %s module", 
+              symname(mainmod), symname(pe->mod));
           if (mainj != (size_t)-1)
             eprintf("duplicate main() in %s module", 
               symname(mainmod));
-- 
2.43.0

