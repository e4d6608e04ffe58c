/* Native simulator for the wcpl compiler: the real compiler objects (main renamed to wcpl_main)
 * run in a forked child against an in-memory file system, a simulated clock, and a seeded
 * allocator; every host interaction is an event that a fault plan can fail, cut short or kill. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/personality.h>

int wcpl_main(int argc, char **argv);
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_open(const char *, int, ...);
extern char **environ;

/* ---------- small helpers (simulator side uses the real allocator) ---------- */
static void die(const char *m) { dprintf(2, "simcc: %s (errno %d)\n", m, errno); _exit(99); }
typedef struct { char *p; size_t n, cap; } str_t;
static void sput(str_t *s, const void *p, size_t n)
{
  if (s->n + n + 1 > s->cap) { s->cap = (s->n + n + 1) * 2 + 64; s->p = __real_realloc(s->p, s->cap); if (!s->p) die("memory"); }
  memcpy(s->p + s->n, p, n); s->n += n; s->p[s->n] = 0;
}
static void sputf(str_t *s, const char *fmt, ...)
{
  char b[4096]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  sput(s, b, (size_t)n);
}
static void sputj(str_t *s, const char *t)
{
  sput(s, "\"", 1);
  for (; *t; ++t) { unsigned char c = (unsigned char)*t; if (c == '"' || c == '\\') { sputf(s, "\\%c", c); } else if (c < 32 || c > 126) sputf(s, "\\u%04x", c); else sput(s, t, 1); }
  sput(s, "\"", 1);
}
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
typedef struct { uint64_t s; } rng_t;
static uint64_t rnd(rng_t *r) { r->s += 0x9e3779b97f4a7c15ull; return mix(r->s); }

/* ---------- in-memory file system ---------- */
enum { K_NONE, K_FILE, K_DIR };
typedef struct { char *path; int kind; char *data; size_t len, cap; int own; int ro, nr; int touched; } ent_t;
typedef struct { ent_t *e; size_t n, cap; } fs_t;
static fs_t image, cur;          /* image: as sent; cur: what the run sees (entries by index survive realloc) */

static void norm(const char *p, char *out, size_t cap)
{
  char tmp[4096]; const char *parts[256]; int n = 0; char *q, *save;
  if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p); else snprintf(tmp, sizeof tmp, "/w/%s", p);
  for (q = strtok_r(tmp, "/", &save); q; q = strtok_r(NULL, "/", &save)) {
    if (!strcmp(q, ".")) continue;
    if (!strcmp(q, "..")) { if (n) n--; continue; }
    if (n < 256) parts[n++] = q;
  }
  size_t k = 0; out[0] = 0;
  for (int i = 0; i < n; ++i) k += (size_t)snprintf(out + k, k < cap ? cap - k : 0, "/%s", parts[i]);
  if (n == 0) snprintf(out, cap, "/");
}
static ent_t *find(fs_t *f, const char *path)
{
  for (size_t i = 0; i < f->n; ++i) if (!strcmp(f->e[i].path, path)) return &f->e[i];
  return NULL;
}
static ent_t *add(fs_t *f, const char *path, int kind)
{
  ent_t *e = find(f, path);
  if (!e) {
    if (f->n == f->cap) { f->cap = f->cap ? f->cap * 2 : 64; f->e = __real_realloc(f->e, f->cap * sizeof(ent_t)); if (!f->e) die("memory"); }
    e = &f->e[f->n++]; memset(e, 0, sizeof *e); e->path = __real_malloc(strlen(path) + 1); strcpy(e->path, path);
  } else if (e->own) __real_free(e->data);
  e->kind = kind; e->data = NULL; e->len = e->cap = 0; e->own = 0; e->ro = e->nr = 0;
  return e;
}
static int parent_ok(const char *path)
{
  char d[4096]; snprintf(d, sizeof d, "%s", path); char *s = strrchr(d, '/');
  if (!s) return ENOENT;
  if (s == d) return 0;
  *s = 0; ent_t *e = find(&cur, d);
  if (e && e->kind == K_FILE) return ENOTDIR;
  return e && e->kind == K_DIR ? 0 : ENOENT;
}
/* ---------- plan of one run ---------- */
enum { C_ALLOC, C_OPEN, C_READ, C_WRITE, C_CLOSE, C_STDERR, C_TIME, C_OTHER, C_EVENT, NCLS };
static const char *clsname[NCLS] = { "alloc", "open", "read", "write", "close", "stderr", "time", "other", "event" };
typedef struct { int cls; long n; int err; int sticky; long part; char path[256]; int kill; int fired; } fault_t;
static fault_t faults[64]; static int nfaults;
static struct {
  uint64_t aseed; int amode; uint64_t ioseed; long rchunk, sbuf; long long clock, cstep; long fdmax; int qs; int keep; long evmax, allocmax; long heapcap; int trace;
} opt;
static struct { long cnt[NCLS]; long nfired; long after; unsigned long long bytes, peak; int asserted; long iob; uint64_t th; long outalloc, outevent; } st;
static str_t trace, firedlog, outb[3], stdinb; static size_t stdinpos; static str_t foreign;
static int resfd = -1; static rng_t arng, iorng; static long openfds;
static int insim;                /* simulator code is running: do not intercept */

static void finish(const char *end, int code) __attribute__((noreturn));
static void th(const char *s) { for (; *s; ++s) st.th = (st.th ^ (unsigned char)*s) * 0x100000001b3ull; }
static void note(const char *fmt, ...)
{
  char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
  th(b); if (opt.trace && trace.n < 400000) { sputf(&trace, "%s\n", b); }
}
static int match(fault_t *f, int cls, const char *path)
{
  if (f->cls != cls && !(f->cls == C_EVENT && cls != C_ALLOC && cls != C_STDERR)) return 0;
  if (f->path[0]) { size_t a = strlen(path), b = strlen(f->path); if (a < b || strcmp(path + a - b, f->path)) return 0; }
  return 1;
}
static long fcnt[64];
/* one event; returns the fault that strikes it, if any */
static fault_t *event(int cls, const char *path)
{
  fault_t *hit = NULL;
  st.cnt[cls]++; if (cls != C_ALLOC && cls != C_STDERR) st.cnt[C_EVENT]++;
  for (int i = 0; i < nfaults; ++i) {
    fault_t *f = &faults[i]; if (!match(f, cls, path)) continue;
    long k = fcnt[i]++;
    if (k == f->n || (f->sticky && k > f->n)) if (!hit) hit = f;
  }
  if (st.nfired) st.after++;
  if (hit) {
    st.nfired++;
    if (!hit->fired++) sputf(&firedlog, "%s%s#%ld %s e%d%s", firedlog.n ? "; " : "", clsname[cls], hit->n, path, hit->err, hit->kill ? " kill" : hit->sticky ? " sticky" : "");
    if (hit->kill && hit->part < 0) { note("%s %s KILL", clsname[cls], path); finish("killed", 0); }
  }
  if (st.cnt[C_EVENT] > opt.evmax || st.cnt[C_ALLOC] > opt.allocmax) finish("limit", 0);
  return hit;
}

/* ---------- streams ---------- */
typedef struct { int ei; size_t pos; int rd, wr, app; int std; char name[256]; } ck_t;   /* ei: index in cur */
static ssize_t ck_read(void *c, char *buf, size_t n)
{
  ck_t *k = c; insim++;
  fault_t *f = event(C_READ, k->name);
  if (f && f->kill) finish("killed", 0);
  if (f && f->part <= 0) { note("read %s = -1 e%d", k->name, f->err); insim--; errno = f->err; return -1; }
  if (!k->rd) { insim--; errno = EBADF; return -1; }
  const char *d; size_t len, *pos;
  if (k->std == 0) { d = stdinb.p; len = stdinb.n; pos = &stdinpos; }
  else {
    ent_t *e = &cur.e[k->ei]; pos = &k->pos;
    if (e->kind == K_DIR) { note("read %s = EISDIR", k->name); insim--; errno = EISDIR; return -1; }
    d = e->data; len = e->len;
  }
  size_t left = *pos < len ? len - *pos : 0;
  if (n > left) n = left;
  if (opt.rchunk > 0 && n > 0) { size_t m = 1 + (size_t)(rnd(&iorng) % (uint64_t)opt.rchunk); if (m < n) n = m; }
  if (f && f->part > 0 && (size_t)f->part < n) n = (size_t)f->part; /* short read */
  if (n) memcpy(buf, d + *pos, n);
  *pos += n; st.iob += (long)n; note("read %s = %zu", k->name, n);
  insim--; return (ssize_t)n;
}
static void ent_write(ent_t *e, size_t pos, const char *p, size_t n)
{
  if (!e->own) { char *d = __real_malloc(e->len + n + 64); if (!d) die("memory"); if (e->len) memcpy(d, e->data, e->len); e->data = d; e->cap = e->len + n + 64; e->own = 1; }
  if (pos + n > e->cap) { e->cap = (pos + n) * 2 + 64; e->data = __real_realloc(e->data, e->cap); if (!e->data) die("memory"); }
  if (pos > e->len) memset(e->data + e->len, 0, pos - e->len);
  memcpy(e->data + pos, p, n); if (pos + n > e->len) e->len = pos + n;
  e->touched = 1;
}
static ssize_t ck_write(void *c, const char *buf, size_t n)
{
  ck_t *k = c; insim++;
  if (n == 0) { insim--; return 0; }
  fault_t *f = event(k->std == 2 ? C_STDERR : C_WRITE, k->name); size_t ok = n; int fail = 0;
  if (f) { fail = 1; ok = f->part > 0 && f->fired == 1 /* a full disk stays full */ ? ((size_t)f->part < n ? (size_t)f->part : n - 1) : 0; }
  if (!k->wr) { insim--; errno = EBADF; return 0; }
  st.iob += (long)n;
  if (k->std > 0 && outb[k->std].n > (24u << 20)) finish("limit", 1);
  if (k->std > 0) sput(&outb[k->std], buf, ok);
  else { ent_t *e = &cur.e[k->ei]; if (k->app) k->pos = e->len; if (ok) ent_write(e, k->pos, buf, ok); k->pos += ok; }
  if (k->std != 2 || f) note("write %s %zu = %zu%s", k->name, n, ok, fail ? " FAIL" : "");
  if (f && f->kill) finish("killed", 0);
  insim--;
  if (fail) { errno = f->err; return 0; }
  return (ssize_t)n;
}
static int ck_seek(void *c, off64_t *off, int wh)
{
  ck_t *k = c; insim++; fault_t *f = event(C_OTHER, k->name);
  if (f) { if (f->kill) finish("killed", 0); insim--; errno = f->err; return -1; }
  if (k->std >= 0) { insim--; errno = ESPIPE; return -1; }
  ent_t *e = &cur.e[k->ei]; long long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long long)k->pos : (long long)e->len;
  b += *off; if (b < 0) { insim--; errno = EINVAL; return -1; }
  k->pos = (size_t)b; *off = b; insim--; return 0;
}
static int ck_close(void *c)
{
  ck_t *k = c; insim++; fault_t *f = event(C_CLOSE, k->name);
  note("close %s%s", k->name, f ? " FAIL" : "");
  if (f && f->kill) finish("killed", 0);
  if (k->std < 0) { openfds--; __real_free(k); }
  insim--; if (f) { errno = f->err; return -1; }
  return 0;
}
static const cookie_io_functions_t ckf = { ck_read, ck_write, ck_seek, ck_close };
static void setbuffering(FILE *fp) { if (opt.sbuf > 0) setvbuf(fp, NULL, _IOFBF, (size_t)opt.sbuf); }

FILE *__wrap_fopen(const char *path, const char *mode)
{
  char p[4096]; int pl, rd, wr; insim++;
  norm(path, p, sizeof p);
  pl = strchr(mode, '+') != NULL; rd = mode[0] == 'r' || pl; wr = mode[0] != 'r' || pl;
  fault_t *f = event(C_OPEN, p); int e = 0;
  ent_t *en = NULL;
  if (f && f->kill && f->part < 0) finish("killed", 0);
  if (f && !f->kill) e = f->err;
  else if (opt.fdmax && openfds >= opt.fdmax) { e = EMFILE; if (!strstr(firedlog.p ? firedlog.p : "", "fdlimit")) sputf(&firedlog, "%sfdlimit %s e%d", firedlog.n ? "; " : "", p, EMFILE); st.nfired++; }
  else if (path[0] == 0) e = ENOENT;
  else {
    en = find(&cur, p); if (en && en->kind == K_NONE) en = NULL;
    if (!en && mode[0] == 'r') { e = parent_ok(p); if (e != ENOTDIR) e = ENOENT; }
    else if (!en) e = parent_ok(p);
    else if (en->kind == K_DIR && wr) e = EISDIR;
    else if (path[strlen(path)-1] == '/' && en->kind == K_FILE) e = ENOTDIR;
    else if ((wr && en->ro) || (rd && en->nr)) e = EACCES;
  }
  if (e) { note("open %s %s = e%d", p, mode, e); insim--; errno = e; return NULL; }
  if (!en) { en = find(&cur, p); if (en) { en->kind = K_FILE; en->len = 0; } else en = add(&cur, p, K_FILE); en->touched = 1; }
  if (mode[0] == 'w') { if (en->own) __real_free(en->data); en->data = NULL; en->len = en->cap = 0; en->own = 0; en->touched = 1; }
  note("open %s %s = ok", p, mode);
  if (wr && !st.outevent) { st.outalloc = st.cnt[C_ALLOC]; st.outevent = st.cnt[C_EVENT]; }
  if (f && f->kill) finish("killed", 0);
  ck_t *k = __real_calloc(1, sizeof *k); if (!k) die("memory");
  k->ei = (int)(en - cur.e); k->rd = rd; k->wr = wr; k->app = mode[0] == 'a'; k->std = -1; snprintf(k->name, sizeof k->name, "%s", p);
  FILE *fp = fopencookie(k, pl ? (mode[0] == 'w' ? "w+" : "r+") : mode[0] == 'r' ? "r" : mode[0] == 'a' ? "a" : "w", ckf);
  if (!fp) die("fopencookie");
  setbuffering(fp); openfds++; insim--; return fp;
}
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
/* calls the compiler has no business making, kept harmless and on record */
static int other(const char *what, const char *path) { char p[4096]; insim++; norm(path, p, sizeof p); fault_t *f = event(C_OTHER, p); note("%s %s", what, p); sputf(&foreign, "%s%s %s", foreign.n ? "; " : "", what, p); insim--; if (f && f->kill) finish("killed", 0); if (f) { errno = f->err; return -1; } return 0; }
int __wrap_unlink(const char *path) { char p[4096]; if (other("remove", path)) return -1; norm(path, p, sizeof p); ent_t *e = find(&cur, p); if (!e || e->kind == K_NONE) { errno = ENOENT; return -1; } if (e->kind == K_DIR) { errno = EISDIR; return -1; } e->kind = K_NONE; e->touched = 1; return 0; }
int __wrap_remove(const char *path) { return __wrap_unlink(path); }
int __wrap_rename(const char *a, const char *b)
{
  char p[4096], q[4096]; if (other("rename-from", a)) return -1; if (other("rename-to", b)) return -1;
  norm(a, p, sizeof p); norm(b, q, sizeof q); ent_t *e = find(&cur, p); if (!e || e->kind != K_FILE) { errno = ENOENT; return -1; }
  char *d = __real_malloc(e->len + 1); size_t n = e->len; if (n) memcpy(d, e->data, n); e->kind = K_NONE; e->touched = 1;
  ent_t *g = add(&cur, q, K_FILE); g->data = d; g->len = n; g->cap = n + 1; g->own = 1; g->touched = 1; return 0;
}
int __wrap_mkdir(const char *path, mode_t m) { char p[4096]; (void)m; if (other("mkdir", path)) return -1; norm(path, p, sizeof p); ent_t *e = find(&cur, p); if (e && e->kind) { errno = EEXIST; return -1; } add(&cur, p, K_DIR)->touched = 1; return 0; }
FILE *__wrap_tmpfile(void) { other("tmpfile", "/tmp/tmpfile"); errno = EACCES; return NULL; }
FILE *__wrap_freopen(const char *path, const char *m, FILE *fp) { (void)m; (void)fp; other("freopen", path ? path : ""); errno = EACCES; return NULL; }
FILE *__wrap_fdopen(int fd, const char *m) { (void)m; (void)fd; other("fdopen", ""); errno = EBADF; return NULL; }
FILE *__wrap_popen(const char *c, const char *m) { (void)c; (void)m; other("popen", ""); errno = EACCES; return NULL; }
int __wrap_system(const char *c) { (void)c; other("system", ""); return -1; }
int __wrap_open(const char *path, int fl, ...) { (void)fl; other("open", path); errno = EACCES; return -1; }
int __wrap_creat(const char *path, mode_t m) { (void)m; other("creat", path); errno = EACCES; return -1; }
int __wrap_chmod(const char *path, mode_t m) { (void)m; return other("chmod", path); }
int __wrap_truncate(const char *path, off_t n) { (void)n; other("truncate", path); errno = EACCES; return -1; }
int __wrap_chdir(const char *path) { other("chdir", path); errno = EACCES; return -1; }
int __wrap_stat(const char *path, struct stat *s)
{
  char p[4096]; norm(path, p, sizeof p); ent_t *e = find(&cur, p); insim++; event(C_OTHER, p); insim--;
  if (!e || e->kind == K_NONE) { errno = ENOENT; return -1; }
  memset(s, 0, sizeof *s); s->st_mode = e->kind == K_DIR ? S_IFDIR | 0755 : S_IFREG | 0644; s->st_size = (off_t)e->len; return 0;
}
int __wrap_access(const char *path, int m) { struct stat s; (void)m; return __wrap_stat(path, &s); }
int __wrap_isatty(int fd) { (void)fd; errno = ENOTTY; return 0; }
pid_t __wrap_getpid(void) { return 1 + (pid_t)(opt.aseed % 30000); }

/* ---------- clock ---------- */
static long long now(void) { insim++; event(C_TIME, "clock"); insim--; long long t = opt.clock; opt.clock += opt.cstep; note("time = %lld", t); return t; }
time_t __wrap_time(time_t *t) { time_t v = (time_t)now(); if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = (time_t)now(); ts->tv_nsec = (long)(opt.aseed % 1000000000ull); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = (time_t)now(); tv->tv_usec = (long)(opt.aseed % 1000000ull); return 0; }
clock_t __wrap_clock(void) { return (clock_t)(opt.aseed % 100000); }
int __wrap_rand(void) { return (int)(rnd(&iorng) & 0x7fffffff); }

/* ---------- allocator ---------- */
#define NBIN 512
typedef struct hdr { uint64_t magic; size_t size, cls; struct hdr *next; } hdr_t;    /* 32 bytes */
typedef hdr_t fr_t;
static char *ar, *arp, *are; static fr_t *bins[NBIN]; static long nbin[NBIN];
static size_t clsize(int c) { if (c < 64) return (size_t)(c + 1) * 16; int e = (c - 64) / 8, m = (c - 64) % 8; return ((size_t)1024 << e) + (((size_t)128 << e) * (size_t)(m + 1)); }
static int szcls(size_t n) { if (n <= 1024) return n == 0 ? 0 : (int)((n - 1) / 16); int c = 64; while (clsize(c) < n) c++; return c; }
static void arena(void)
{
  static const uint64_t bases[] = { 0x10000000ull, 0x70000000ull, 0x100000000ull, 0x7fff0000ull, 0xf0000000ull, 0x2000000000ull, 0x60000000000ull, 0x200000000000ull, 0x7a0000000000ull };
  size_t len = 6ull << 30;
  for (int t = 0; t < 40; ++t) {
    uint64_t b = bases[(opt.aseed + (uint64_t)t) % 9] + ((mix(opt.aseed) & 0xffff) << 12);
    void *p = mmap((void *)b, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == (void *)b) { ar = arp = p; are = ar + len; arp += (rnd(&arng) % 4096) * 16; return; }
    if (p != MAP_FAILED) munmap(p, len);
    if (t > 20) len = 1ull << 30;
  }
  die("arena");
}
static void junk(char *p, size_t n, uint64_t salt)
{
  uint64_t v = mix(opt.aseed * 31 + salt);
  switch (opt.amode) { case 1: v = 0; break; case 2: v = ~0ull; break; case 3: v = 0x0101010101010101ull * (v & 255); break; default: break; }
  if (opt.amode == 6) return; /* lax: what was there stays */
  if (opt.amode <= 3) { memset(p, (int)(v & 255), n); return; }
  size_t i = 0; for (; i + 8 <= n; i += 8) { v = v * 6364136223846793005ull + 1442695040888963407ull; uint64_t u = v ^ (v >> 29); memcpy(p + i, &u, 8); }
  for (; i < n; ++i) p[i] = (char)(v >> (8 * (i & 7)));
}
static hdr_t *hof(void *p) { return (hdr_t *)((char *)p - 32); }
static void *aalloc(size_t n, int zero)
{
  insim++;
  fault_t *f = event(C_ALLOC, "heap");
  if (f && f->kill) finish("killed", 0);
  if (f || (opt.heapcap && st.bytes + n > (unsigned long long)opt.heapcap)) {
    if (!f) { if (!strstr(firedlog.p ? firedlog.p : "", "heapcap")) sputf(&firedlog, "%sheapcap e%d", firedlog.n ? "; " : "", ENOMEM); st.nfired++; }
    note("alloc = NULL"); insim--; errno = ENOMEM; return NULL; }
  void *r;
  if (n > (4ull << 30)) { insim--; errno = ENOMEM; return NULL; }
  st.bytes += n; if (st.bytes > st.peak) st.peak = st.bytes;
  if (opt.amode == 0) { insim--; r = __real_malloc(n ? n : 1); if (r) { if (zero) memset(r, 0, n); else memset(r, (int)(opt.aseed & 255), n); } return r; }
  int c = szcls(n); size_t cs = clsize(c);
  if (bins[c] && nbin[c] > (long)(opt.aseed % 7) && rnd(&arng) % 4) {
    fr_t **pp = &bins[c]; long k = (opt.aseed & 8) ? 0 : (long)(rnd(&arng) % (uint64_t)(nbin[c] < 6 ? nbin[c] : 6));
    while (k-- > 0 && (*pp)->next) pp = &(*pp)->next;
    fr_t *x = *pp; *pp = x->next; nbin[c]--; r = (char *)x + 32;
  } else {
    size_t gap = (opt.aseed & 16) ? (rnd(&arng) % 8) * 16 : 0;
    if (arp + gap + cs + 64 > are) { insim--; errno = ENOMEM; return NULL; }
    arp += gap; r = arp + 32; arp += 32 + cs;
  }
  hdr_t *h = hof(r); h->magic = 0xa110ca7ed0b1ec75ull; h->size = n; h->cls = (size_t)c;
  if (zero) memset(r, 0, n); else junk(r, n, (uint64_t)st.cnt[C_ALLOC]);
  if (cs > n) memset((char *)r + n, 0xA5, cs - n < 16 ? cs - n : 16);
  insim--; return r;
}
static int inarena(void *p) { return ar && (char *)p >= ar && (char *)p < are; }
static void heapbug(const char *what) { note("heap: %s", what); sputf(&foreign, "%sheap: %s", foreign.n ? "; " : "", what); finish("heapbug", 0); }
void __wrap_free(void *p)
{
  if (!p) return;
  if (opt.amode == 0 || !inarena(p)) { __real_free(p); return; }
  hdr_t *h = hof(p); if (h->magic != 0xa110ca7ed0b1ec75ull) heapbug(h->magic == 0xdeadull ? "double free" : "free of a bad pointer");
  size_t cs = clsize((int)h->cls), pad = cs - h->size < 16 ? cs - h->size : 16;
  for (size_t i = 0; i < pad; ++i) if ((unsigned char)((char *)p)[h->size + i] != 0xA5) heapbug("write past the end of a block");
  h->magic = 0xdeadull; st.bytes -= h->size; junk(p, cs, 77);
  fr_t *x = h; x->next = bins[h->cls]; bins[h->cls] = x; nbin[h->cls]++;
}
void *__wrap_malloc(size_t n) { return insim ? __real_malloc(n) : aalloc(n, 0); }
void *__wrap_calloc(size_t n, size_t m) { if (insim) return __real_calloc(n, m); if (m && n > (size_t)-1 / m) { errno = ENOMEM; return NULL; } return aalloc(n * m, 1); }
void *__wrap_realloc(void *p, size_t n)
{
  if (insim) return __real_realloc(p, n);
  if (!p) return aalloc(n, 0);
  if (opt.amode == 0) { insim++; fault_t *f = event(C_ALLOC, "heap"); insim--; if (f) { if (f->kill) finish("killed", 0); errno = ENOMEM; return NULL; } return __real_realloc(p, n ? n : 1); }
  if (!inarena(p)) return __real_realloc(p, n);
  hdr_t *h = hof(p); if (h->magic != 0xa110ca7ed0b1ec75ull) heapbug("realloc of a bad pointer");
  void *q = aalloc(n, 0); if (!q) return NULL;
  memcpy(q, p, h->size < n ? h->size : n); __wrap_free(p); return q;
}
/* ---------- sorting with unspecified order of equal elements ---------- */
static int (*qcmp)(const void *, const void *); static size_t qsz;
static void qs(char *a, size_t n)
{
  static char t[4096]; char piv[4096];
  while (n > 1) {
    size_t i, lo = 0, hi = n - 1, k = (size_t)(rnd(&iorng) % n);
    memcpy(piv, a + k * qsz, qsz); memcpy(a + k * qsz, a, qsz); memcpy(a, piv, qsz);
    /* three-way: [0,lo) < piv, [lo,i) == piv, (hi,n) > piv */
    for (i = 1; i <= hi;) {
      int c = qcmp(a + i * qsz, piv);
      if (c < 0) { memcpy(t, a + i * qsz, qsz); memcpy(a + i * qsz, a + lo * qsz, qsz); memcpy(a + lo * qsz, t, qsz); lo++; i++; }
      else if (c > 0) { memcpy(t, a + i * qsz, qsz); memcpy(a + i * qsz, a + hi * qsz, qsz); memcpy(a + hi * qsz, t, qsz); hi--; }
      else i++;
    }
    /* equal ones in any order */
    for (i = hi + 1 - lo; i > 1; --i) { size_t j = (size_t)(rnd(&iorng) % i); char *x = a + (lo + i - 1) * qsz, *y = a + (lo + j) * qsz; if (x != y) { memcpy(t, x, qsz); memcpy(x, y, qsz); memcpy(y, t, qsz); } }
    qs(a, lo); a += (hi + 1) * qsz; n -= hi + 1;
  }
}
void __real_qsort(void *, size_t, size_t, int (*)(const void *, const void *));
void __wrap_qsort(void *a, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
  if (!opt.qs || sz > 4096 || sz == 0) { __real_qsort(a, n, sz, cmp); return; }
  qcmp = cmp; qsz = sz; qs(a, n);
}
void *__wrap_bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
  size_t lo = 0, hi = n;
  while (lo < hi) {
    size_t m = opt.qs ? lo + (size_t)(rnd(&iorng) % (hi - lo)) : lo + (hi - lo) / 2; int c = cmp(key, (const char *)base + m * sz);
    if (c == 0) return (char *)base + m * sz;
    if (c < 0) hi = m; else lo = m + 1;
  }
  return NULL;
}

/* ---------- end of a run ---------- */
static void wall(int fd, const char *p, size_t n) { while (n) { ssize_t k = write(fd, p, n); if (k <= 0) _exit(98); p += k; n -= (size_t)k; } }
static void wblob(str_t *o, const char *p, size_t n) { uint32_t l = (uint32_t)n; sput(o, &l, 4); if (n) sput(o, p, n); }
static void finish(const char *end, int code)
{
  static int once; str_t j = { 0, 0, 0 }, o = { 0, 0, 0 }; uint32_t nb = 3;
  if (once++) _exit(97);
  insim = 1000;
  sputf(&j, "{\"end\":\"%s\",\"code\":%d,\"fired\":%ld,\"after\":%ld,\"outalloc\":%ld,\"outevent\":%ld,\"peak\":%llu,\"iob\":%ld,\"th\":\"%016llx\",\"cnt\":{", end, code, st.nfired, st.after, st.outalloc, st.outevent, st.peak, st.iob, (unsigned long long)st.th);
  for (int i = 0; i < NCLS; ++i) sputf(&j, "%s\"%s\":%ld", i ? "," : "", clsname[i], st.cnt[i]);
  sputf(&j, "},\"log\":"); sputj(&j, firedlog.p ? firedlog.p : "");
  sputf(&j, ",\"foreign\":"); sputj(&j, foreign.p ? foreign.p : "");
  sputf(&j, ",\"changed\":["); int first = 1;
  for (size_t i = 0; i < cur.n; ++i) if (cur.e[i].touched) { sputf(&j, "%s{\"path\":", first ? "" : ","); sputj(&j, cur.e[i].path); sputf(&j, ",\"kind\":%d}", cur.e[i].kind); first = 0; nb++; }
  sputf(&j, "]}");
  wblob(&o, j.p, j.n); sput(&o, &nb, 4);
  wblob(&o, outb[1].p, outb[1].n); wblob(&o, outb[2].p, outb[2].n); wblob(&o, trace.p, trace.n);
  for (size_t i = 0; i < cur.n; ++i) if (cur.e[i].touched) wblob(&o, cur.e[i].data, cur.e[i].kind == K_FILE ? cur.e[i].len : 0);
  wall(resfd, o.p, o.n); _exit(0);
}
static void onsig(int s)
{
  if (s == SIGVTALRM) finish("hang", 0);
  finish(st.asserted ? "assert" : "signal", s);
}
static void onex(int code, void *x) { (void)x; if (insim < 100) { fflush(NULL); finish("exit", code); } }
static __attribute__((noinline)) int dirty(int depth)
{
  volatile char b[8192]; uint64_t v = mix(opt.aseed + (uint64_t)depth);
  for (size_t i = 0; i < sizeof b; i += 8) { v = v * 6364136223846793005ull + 1442695040888963407ull; *(volatile uint64_t *)(b + i) = opt.amode == 1 ? 0 : v; }
  return depth > 0 ? dirty(depth - 1) + b[5] : b[7];
}
static __attribute__((noinline)) int enter(int argc, char **argv, size_t shift)
{
  volatile char *pad = __builtin_alloca(16 + shift); pad[0] = 1;
  return wcpl_main(argc, argv);
}
/* ---------- parent ---------- */
static char *in; static size_t inn, inp;
static uint32_t g32(void) { uint32_t v; if (inp + 4 > inn) die("input"); memcpy(&v, in + inp, 4); inp += 4; return v; }
static char *gs(size_t *pn) { uint32_t n = g32(); if (inp + n > inn) die("input"); char *p = __real_malloc(n + 1); memcpy(p, in + inp, n); p[n] = 0; inp += n; if (pn) *pn = n; return p; }
typedef struct { char *path; char *data; size_t n; } real_t; static real_t *reals; static size_t nreals;
static void slurp(const char *path, char **pd, size_t *pn)
{
  for (size_t i = 0; i < nreals; ++i) if (!strcmp(reals[i].path, path)) { *pd = reals[i].data; *pn = reals[i].n; return; }
  int fd = __real_open(path, O_RDONLY); if (fd < 0) { dprintf(2, "%s\n", path); die("open"); }
  struct stat s; fstat(fd, &s); char *d = __real_malloc((size_t)s.st_size + 1); size_t k = 0; ssize_t r;
  while (k < (size_t)s.st_size && (r = read(fd, d + k, (size_t)s.st_size - k)) > 0) k += (size_t)r;
  close(fd); reals = __real_realloc(reals, (nreals + 1) * sizeof *reals); reals[nreals].path = __real_malloc(strlen(path) + 1); strcpy(reals[nreals].path, path); reals[nreals].data = d; reals[nreals].n = k; nreals++;
  *pd = d; *pn = k;
}
static void clone(void)
{
  for (size_t i = 0; i < image.n; ++i) { ent_t *s = &image.e[i]; ent_t *e = add(&cur, s->path, s->kind); *e = (ent_t){ e->path, s->kind, s->data, s->len, 0, 0, s->ro, s->nr, 0 }; }
}
static void dropcur(void) { for (size_t i = 0; i < cur.n; ++i) { __real_free(cur.e[i].path); if (cur.e[i].own) __real_free(cur.e[i].data); } cur.n = 0; }
static char altstk[65536];
static void child(int argc, char **argv, char **env)
{
  struct sigaction sa; stack_t ss = { .ss_sp = altstk, .ss_size = sizeof altstk };
  sigaltstack(&ss, NULL); memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
#ifndef SIM_ASAN
  sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
#endif
  sigaction(SIGVTALRM, &sa, NULL);
  struct itimerval it = { { 0, 0 }, { 20, 0 } }; setitimer(ITIMER_VIRTUAL, &it, NULL);
  arng.s = opt.aseed * 3 + 1; iorng.s = opt.ioseed * 5 + 2;
  static ck_t k[3];
  for (int i = 0; i < 3; ++i) { k[i].std = i; k[i].rd = i == 0; k[i].wr = i > 0; snprintf(k[i].name, sizeof k[i].name, i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>"); }
  stdin = fopencookie(&k[0], "r", ckf); stdout = fopencookie(&k[1], "w", ckf); stderr = fopencookie(&k[2], "w", ckf);
  setbuffering(stdin); setbuffering(stdout); setvbuf(stderr, NULL, _IONBF, 0);
  if (opt.amode) arena();
  environ = env; tzset();
  on_exit(onex, NULL);
  dirty(40); errno = (int)(opt.aseed % 40);
  insim = 0;
  exit(enter(argc, argv, (size_t)(opt.aseed % 512) * 16));
}
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{ insim++; note("assert %s", e); st.asserted = 1; sputf(&outb[2], "%s:%u: %s: assertion %s failed\n", f, l, fn, e); finish("assert", 0); }

#define CPULIM 30 /* seconds of processor time a run may use; the longest takes about 2 */
int main(int argc, char **argv)
{
  int slow = 0;
  insim = 1;
  if (!getenv("SIMCC_NOASLR")) { setenv("SIMCC_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  struct rlimit rl; getrlimit(RLIMIT_CORE, &rl); rl.rlim_cur = 0; setrlimit(RLIMIT_CORE, &rl);
  { str_t s = { 0, 0, 0 }; char b[65536]; ssize_t n; (void)argc; while ((n = read(0, b, sizeof b)) > 0) sput(&s, b, (size_t)n); in = s.p; inn = s.n; }
  while (inp < inn) {
    char c = in[inp++];
    if (c == 'F') { size_t n; char *p = gs(NULL), *d = gs(&n); ent_t *e = add(&image, p, K_FILE); e->data = d; e->len = n; __real_free(p); }
    else if (c == 'L') { char *p = gs(NULL), *r = gs(NULL); ent_t *e = add(&image, p, K_FILE); slurp(r, &e->data, &e->len); __real_free(p); __real_free(r); }
    else if (c == 'D') { char *p = gs(NULL); add(&image, p, K_DIR); __real_free(p); }
    else if (c == 'P') { char *p = gs(NULL), *m = gs(NULL); ent_t *e = find(&image, p); if (e) { e->ro = strchr(m, 'w') != NULL; e->nr = strchr(m, 'r') != NULL; } __real_free(p); __real_free(m); }
    else if (c == 'Z') { image.n = 0; dropcur(); }
    else if (c == 'C') dropcur();
    else if (c == 'R') {
      char *av[512], *ev[512]; int ac = 0, ec = 0, cut = 0; memset(&opt, 0, sizeof opt); memset(&st, 0, sizeof st); nfaults = 0; memset(fcnt, 0, sizeof fcnt);
      stdinb.n = 0; stdinpos = 0; trace.n = 0; opt.evmax = 2000000; opt.allocmax = 100000000; st.th = 0xcbf29ce484222325ull; firedlog.n = 0; if (firedlog.p) firedlog.p[0] = 0;
      while (inp < inn && in[inp] != 'G') {
        char t = in[inp++]; size_t n; char *s = gs(&n);
        if (t == 'A' && ac < 510) av[ac++] = s; else if (t == 'E' && ec < 510) ev[ec++] = s; else if (t == 'I') sput(&stdinb, s, n);
        else if (t == 'O') {
          sscanf(s, "aseed=%lu amode=%d ioseed=%lu rchunk=%ld sbuf=%ld clock=%lld cstep=%lld fdmax=%ld qs=%d keep=%d evmax=%ld allocmax=%ld heapcap=%ld trace=%d",
            &opt.aseed, &opt.amode, &opt.ioseed, &opt.rchunk, &opt.sbuf, &opt.clock, &opt.cstep, &opt.fdmax, &opt.qs, &opt.keep, &opt.evmax, &opt.allocmax, &opt.heapcap, &opt.trace);
        } else if (t == 'X' && nfaults < 64) {
          fault_t *f = &faults[nfaults++]; char cl[32]; memset(f, 0, sizeof *f); int q = 0;
          sscanf(s, "%31s %ld %d %d %ld %d %n", cl, &f->n, &f->err, &f->sticky, &f->part, &f->kill, &q); snprintf(f->path, sizeof f->path, "%s", s + q);
          for (int i = 0; i < NCLS; ++i) if (!strcmp(cl, clsname[i])) f->cls = i;
        } else die("item");
      }
      inp++; av[ac] = NULL; ev[ec] = NULL; (void)cut;
      if (!cur.n) clone(); else if (!opt.keep) { dropcur(); clone(); }
      for (size_t i = 0; i < cur.n; ++i) cur.e[i].touched = 0;
      int pp[2]; if (pipe(pp)) die("pipe"); fflush(NULL);
      pid_t pid = fork(); if (pid < 0) die("fork");
      if (pid == 0) { struct rlimit cl; cl.rlim_cur = slow ? 2 : CPULIM; cl.rlim_max = cl.rlim_cur + 2; setrlimit(RLIMIT_CPU, &cl); signal(SIGXCPU, SIG_DFL); close(pp[0]); resfd = pp[1]; close(0); child(ac, av, ev); }
      close(pp[1]); str_t res = { 0, 0, 0 }; char b[65536]; ssize_t n; int ws = 0;
      while ((n = read(pp[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) sput(&res, b, (size_t)n);
      close(pp[0]); while (waitpid(pid, &ws, 0) < 0 && errno == EINTR) {}
      if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGXCPU || WTERMSIG(ws) == SIGKILL)) slow = 1; /* an endless loop: later runs of this batch get less time */
      if (res.n < 8 || !WIFEXITED(ws) || WEXITSTATUS(ws)) {
        char j[200]; str_t o = { 0, 0, 0 }; uint32_t z = 0; snprintf(j, sizeof j, "{\"end\":\"crash\",\"code\":%d,\"sig\":%d,\"fired\":0,\"cnt\":{},\"log\":\"\",\"foreign\":\"\",\"changed\":[],\"th\":\"0\"}", WIFEXITED(ws) ? WEXITSTATUS(ws) : 0, WIFSIGNALED(ws) ? WTERMSIG(ws) : 0);
        wblob(&o, j, strlen(j)); sput(&o, &z, 4); wall(1, o.p, o.n); __real_free(o.p);
      } else {
        wall(1, res.p, res.n);
        /* take over what the run left on its disk, for a following run with keep=1 */
        uint32_t jl; memcpy(&jl, res.p, 4); size_t q = 4 + jl; uint32_t nb; memcpy(&nb, res.p + q, 4); q += 4;
        char *j = res.p + 4; char *ch = strstr(j, "\"changed\":[");
        for (uint32_t i = 0; i < nb; ++i) {
          uint32_t l; memcpy(&l, res.p + q, 4); q += 4;
          if (i >= 3 && ch) {
            char *a = strstr(ch, "{\"path\":\""); if (!a) die("changed"); a += 9; char *e = strchr(a, '"'); int kind = atoi(e + 9);
            char path[4096]; snprintf(path, sizeof path, "%.*s", (int)(e - a), a); ch = e;
            ent_t *en = add(&cur, path, kind); if (kind == K_FILE) { en->data = __real_malloc(l + 1); memcpy(en->data, res.p + q, l); en->len = l; en->cap = l + 1; en->own = 1; }
          }
          q += l;
        }
      }
      __real_free(res.p); for (int i = 0; i < ac; ++i) __real_free(av[i]); for (int i = 0; i < ec; ++i) __real_free(ev[i]);
    } else die("tag");
  }
  return 0;
}
