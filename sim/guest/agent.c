/* Guest agent: fetches one library call at a time from the simulated host and performs it.
 * Channel to the simulator: random_get (which the library never uses) carries the record,
 * clock_res_get(5000+k) announces an event. */
#include <wasi/api.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <time.h>
#include <sys/stat.h>

typedef struct rec {
  int op;
  int a[7];
  long long l[2];
  int who;    /* -1 main, k: atexit handler k */
  int r;      /* result */
  int err;    /* errno after the call */
  int fl;     /* 1 feof, 2 ferror after a stream call */
  long long rl;
} rec_t;

static char iobuf[262144];
static rec_t R;
static int g_argc;
static char **g_argv;
static struct tm g_tm;
static struct stat g_st;
static fpos_t g_posv[1];
static int g_selrem;

static char *P(int a) { return (char *)a; }
static int I(const void *p) { return (int)(size_t)p; }
static FILE *F(int a) { return (FILE *)a; }

static int sel_name(const struct dirent *de)
{
  /* pseudo-random but fixed filter: sum of name bytes mod 3 */
  int s = 0;
  const char *p = &de->d_name[0];
  while (*p != 0) s += (int)(unsigned char)*p++;
  return s % 3 != g_selrem;
}

static int rev_sort(const struct dirent **a, const struct dirent **b)
{
  return -alphasort(a, b);
}

static int burn(int depth, int seed)
{
  char loc[512]; int i, s = 0;
  for (i = 0; i < 512; ++i) loc[i] = (char)(seed + i);
  if (depth > 0) s = burn(depth - 1, seed + 1);
  for (i = 0; i < 512; ++i) s += (int)loc[i];
  return s;
}

static void loop(int who);
static void h0(void) { loop(0); }
static void h1(void) { loop(1); }
static void h2(void) { loop(2); }
static void h3(void) { loop(3); }
static void h4(void) { loop(4); }
static void h5(void) { loop(5); }
static void h6(void) { loop(6); }
static void h7(void) { loop(7); }
static void h8(void) { loop(8); }
static void h9(void) { loop(9); }
static void h10(void) { loop(10); }
static void h11(void) { loop(11); }
static void h12(void) { loop(12); }
static void h13(void) { loop(13); }
static void h14(void) { loop(14); }
static void h15(void) { loop(15); }
static void h16(void) { loop(16); }
static void h17(void) { loop(17); }
static void h18(void) { loop(18); }
static void h19(void) { loop(19); }
static void h20(void) { loop(20); }
static void h21(void) { loop(21); }
static void h22(void) { loop(22); }
static void h23(void) { loop(23); }
static void h24(void) { loop(24); }
static void h25(void) { loop(25); }
static void h26(void) { loop(26); }
static void h27(void) { loop(27); }
static void h28(void) { loop(28); }
static void h29(void) { loop(29); }
static void h30(void) { loop(30); }
static void h31(void) { loop(31); }
static void h32(void) { loop(32); }
static void h33(void) { loop(33); }
static void h34(void) { loop(34); }
static void h35(void) { loop(35); }
static void h36(void) { loop(36); }
static void h37(void) { loop(37); }
static void h38(void) { loop(38); }
static void h39(void) { loop(39); }

static int reg(int k)
{
  switch (k) {
    case 0: return atexit(&h0); case 1: return atexit(&h1); case 2: return atexit(&h2);
    case 3: return atexit(&h3); case 4: return atexit(&h4); case 5: return atexit(&h5);
    case 6: return atexit(&h6); case 7: return atexit(&h7); case 8: return atexit(&h8);
    case 9: return atexit(&h9); case 10: return atexit(&h10); case 11: return atexit(&h11);
    case 12: return atexit(&h12); case 13: return atexit(&h13); case 14: return atexit(&h14);
    case 15: return atexit(&h15); case 16: return atexit(&h16); case 17: return atexit(&h17);
    case 18: return atexit(&h18); case 19: return atexit(&h19); case 20: return atexit(&h20);
    case 21: return atexit(&h21); case 22: return atexit(&h22); case 23: return atexit(&h23);
    case 24: return atexit(&h24); case 25: return atexit(&h25); case 26: return atexit(&h26);
    case 27: return atexit(&h27); case 28: return atexit(&h28); case 29: return atexit(&h29);
    case 30: return atexit(&h30); case 31: return atexit(&h31); case 32: return atexit(&h32);
    case 33: return atexit(&h33); case 34: return atexit(&h34); case 35: return atexit(&h35);
    case 36: return atexit(&h36); case 37: return atexit(&h37); case 38: return atexit(&h38);
    case 39: return atexit(&h39);
  }
  return -2;
}

/* every other formatted call goes through the v- form of the function */
static unsigned g_alt;
static int out_v(FILE *f, const char *fmt, ...)
{
  va_list ap; int r;
  va_start(ap, fmt);
  r = (f == stdout && (g_alt & 2)) ? vprintf(fmt, ap) : vfprintf(f, fmt, ap);
  va_end(ap);
  return r;
}
static int in_v(FILE *f, const char *fmt, ...)
{
  va_list ap; int r;
  va_start(ap, fmt);
  r = (f == stdin && (g_alt & 2)) ? vscanf(fmt, ap) : vfscanf(f, fmt, ap);
  va_end(ap);
  return r;
}

static void op_stdio(void)
{
  int *a = &R.a[0];
  switch (R.op) {
    case 10: R.r = I(fopen(P(a[0]), P(a[1]))); return;
    case 11: R.r = I(freopen(P(a[0]), P(a[1]), F(a[2]))); return;
    case 12: R.r = I(fdopen(a[0], P(a[1]))); return;
    case 13: R.r = fclose(F(a[0])); return;
    case 14: R.r = fflush(F(a[0])); if (a[0] == 0) return; break;
    case 15: R.r = setvbuf(F(a[0]), P(a[1]), a[2], (size_t)a[3]); break;
    case 16: setbuf(F(a[0]), P(a[1])); R.r = 0; break;
    case 17: clearerr(F(a[0])); R.r = 0; break;
    case 18: R.r = fileno(F(a[0])); break;
    case 20: R.r = putc(a[1], F(a[0])); break;
    case 21: R.r = fputc(a[1], F(a[0])); break;
    case 22: R.r = fputs(P(a[1]), F(a[0])); break;
    case 23: R.r = puts(P(a[1])); break;
    case 24: R.r = (int)fwrite(P(a[1]), (size_t)a[2], (size_t)a[3], F(a[0])); break;
    case 25: R.r = putchar(a[1]); break;
    case 26: R.r = (g_alt++ & 1) ? out_v(F(a[0]), "%s", P(a[1])) : fprintf(F(a[0]), "%s", P(a[1])); break;
    case 27: R.r = (g_alt++ & 1) ? out_v(F(a[0]), "%d:%s;%c\n", a[2], P(a[1]), a[3]) : fprintf(F(a[0]), "%d:%s;%c\n", a[2], P(a[1]), a[3]); break;
    case 28: R.r = (g_alt++ & 1) ? out_v(stdout, "%s", P(a[1])) : printf("%s", P(a[1])); break;
    case 29: R.r = (g_alt++ & 1) ? out_v(stdout, "<%d>%s\n", a[2], P(a[1])) : printf("<%d>%s\n", a[2], P(a[1])); break;
    case 30: R.r = getc(F(a[0])); break;
    case 31: R.r = fgetc(F(a[0])); break;
    case 32: R.r = I(fgets(P(a[1]), a[2], F(a[0]))); break;
    case 33: R.r = (int)fread(P(a[1]), (size_t)a[2], (size_t)a[3], F(a[0])); break;
    case 34: R.r = ungetc(a[1], F(a[0])); break;
    case 35: R.r = (g_alt++ & 1) ? in_v(F(a[0]), "%d", (int *)P(a[1])) : (F(a[0]) == stdin && (g_alt & 4)) ? scanf("%d", (int *)P(a[1])) : fscanf(F(a[0]), "%d", (int *)P(a[1])); break;
    case 36: R.r = (g_alt++ & 1) ? in_v(F(a[0]), "%15s", P(a[1])) : (F(a[0]) == stdin && (g_alt & 4)) ? scanf("%15s", P(a[1])) : fscanf(F(a[0]), "%15s", P(a[1])); break;
    case 37: R.r = (g_alt++ & 1) ? in_v(F(a[0]), "%c%d%c", P(a[1]), (int *)P(a[1] + 4), P(a[1] + 8)) : (F(a[0]) == stdin && (g_alt & 4)) ? scanf("%c%d%c", P(a[1]), (int *)P(a[1] + 4), P(a[1] + 8)) : fscanf(F(a[0]), "%c%d%c", P(a[1]), (int *)P(a[1] + 4), P(a[1] + 8)); break;
    case 38: R.r = getchar(); break;
    case 39: R.r = (g_alt++ & 1) ? in_v(F(a[0]), " %7[a-z]", P(a[1])) : (F(a[0]) == stdin && (g_alt & 4)) ? scanf(" %7[a-z]", P(a[1])) : fscanf(F(a[0]), " %7[a-z]", P(a[1])); break;
    case 40: R.r = fseek(F(a[0]), (long)R.l[0], a[1]); break;
    case 41: R.rl = ftell(F(a[0])); break;
    case 42: rewind(F(a[0])); R.r = 0; break;
    case 43: g_posv[0] = 0x5a5a5a5a5aLL; R.r = fgetpos(F(a[0]), &g_posv[0]); R.rl = g_posv[0]; break;
    case 44: g_posv[0] = R.l[0]; R.r = fsetpos(F(a[0]), &g_posv[0]); break;
    case 45: errno = a[2]; perror(P(a[1])); R.r = 0; return;
    case 46: R.r = I(strerror(a[1])); return;
    default: R.r = -9999; return;
  }
  R.fl = (feof(F(a[0])) ? 1 : 0) | (ferror(F(a[0])) ? 2 : 0);
}

static void op_fs(void)
{
  int *a = &R.a[0];
  switch (R.op) {
    case 60: R.r = open(P(a[0]), a[1]); break;
    case 61: R.r = openat(a[0], P(a[1]), a[2]); break;
    case 62: R.r = close(a[0]); break;
    case 63: R.r = (int)read(a[0], P(a[1]), (size_t)a[2]); break;
    case 64: R.r = (int)write(a[0], P(a[1]), (size_t)a[2]); break;
    case 65: R.r = (int)pread(a[0], P(a[1]), (size_t)a[2], R.l[0]); break;
    case 66: R.r = (int)pwrite(a[0], P(a[1]), (size_t)a[2], R.l[0]); break;
    case 67: R.rl = lseek(a[0], R.l[0], a[1]); break;
    case 68: R.r = ftruncate(a[0], R.l[0]); break;
    case 69: R.r = isatty(a[0]); break;
    case 70: R.r = access(P(a[0]), a[1]); break;
    case 71: R.r = unlink(P(a[0])); break;
    case 72: R.r = unlinkat(a[0], P(a[1]), a[2]); break;
    case 73: R.r = link(P(a[0]), P(a[1])); break;
    case 74: R.r = linkat(a[0], P(a[1]), a[2], P(a[3]), a[4]); break;
    case 75: R.r = symlink(P(a[0]), P(a[1])); break;
    case 76: R.r = symlinkat(P(a[0]), a[1], P(a[2])); break;
    case 77: R.r = (int)readlink(P(a[0]), P(a[1]), (size_t)a[2]); break;
    case 78: R.r = (int)readlinkat(a[0], P(a[1]), P(a[2]), (size_t)a[3]); break;
    case 79: R.r = rmdir(P(a[0])); break;
    case 80: R.r = rmdirat(a[0], P(a[1])); break;
    case 81: R.r = mkdir(P(a[0]), (mode_t)a[1]); break;
    case 82: R.r = mkdirat(a[0], P(a[1]), (mode_t)a[2]); break;
    case 83: R.r = rename(P(a[0]), P(a[1])); break;
    case 84: R.r = renameat(a[0], P(a[1]), a[2], P(a[3])); break;
    case 85: R.r = remove(P(a[0])); break;
    case 86: R.r = stat(P(a[0]), &g_st); break;
    case 87: R.r = lstat(P(a[0]), &g_st); break;
    case 88: R.r = fstat(a[0], &g_st); break;
    case 89: R.r = fstatat(a[0], P(a[1]), &g_st, a[2]); break;
    case 90: R.r = fcntl(a[0], a[1]); break;
    case 91: R.r = fcntl(a[0], a[1], a[2]); break;
    case 92: R.r = fsync(a[0]); break;
    case 93: R.r = fdatasync(a[0]); break;
    case 94: R.r = posix_fallocate(a[0], R.l[0], R.l[1]); break;
    case 95: R.r = posix_fadvise(a[0], R.l[0], R.l[1], a[1]); break;
    default: R.r = -9999; return;
  }
  if (R.op >= 86 && R.op <= 89) {
    /* flatten struct stat where the simulator can read it */
    long long *q = (long long *)P(a[6]);
    q[0] = (long long)g_st.st_dev; q[1] = (long long)g_st.st_ino;
    q[2] = (long long)g_st.st_nlink; q[3] = (long long)g_st.st_mode;
    q[4] = (long long)g_st.st_size;
    q[5] = (long long)g_st.st_atime; q[6] = (long long)g_st.st_mtime; q[7] = (long long)g_st.st_ctime;
    q[8] = (long long)g_st.st_atime_ns; q[9] = (long long)g_st.st_mtime_ns; q[10] = (long long)g_st.st_ctime_ns;
  }
}

static void op_dir(void)
{
  int *a = &R.a[0];
  switch (R.op) {
    case 100: R.r = I(opendir(P(a[0]))); break;
    case 101: R.r = I(fdopendir(a[0])); break;
    case 102: {
      struct dirent *de = readdir((DIR *)P(a[0]));
      R.r = I(de);
      if (de != NULL) {
        R.rl = (long long)de->d_ino; R.fl = (int)de->d_type;
        R.a[5] = I(&de->d_name[0]);
      }
    } break;
    case 103: R.r = closedir((DIR *)P(a[0])); break;
    case 104: rewinddir((DIR *)P(a[0])); R.r = 0; break;
    case 105: R.r = (int)telldir((DIR *)P(a[0])); break;
    case 106: seekdir((DIR *)P(a[0]), (long)a[1]); R.r = 0; break;
    case 107: case 108: {
      /* scandir; results are freed by the simulator's later free calls */
      struct dirent **nl = NULL;
      int (*cmp)(const struct dirent **, const struct dirent **) = (a[2] == 2) ? &rev_sort : &alphasort;
      g_selrem = a[3];
      if (R.op == 107)
        R.r = (a[1] != 0) ? scandir(P(a[0]), &nl, &sel_name, cmp) : scandir(P(a[0]), &nl, NULL, cmp);
      else
        R.r = (a[1] != 0) ? scandirat(a[4], P(a[0]), &nl, &sel_name, cmp) : scandirat(a[4], P(a[0]), &nl, NULL, cmp);
      R.a[5] = I(nl);
    } break;
    case 109: R.r = dirfd((DIR *)P(a[0])); break;
    case 110: R.r = I(opendirat(a[0], P(a[1]))); break;
    case 111: R.r = fdclosedir((DIR *)P(a[0])); break;
    case 112: { /* field offsets of struct dirent for reading scandir results */
      struct dirent *z = (struct dirent *)P(65536);
      R.a[0] = I(&z->d_ino) - 65536; R.a[1] = I(&z->d_type) - 65536; R.a[2] = I(&z->d_name[0]) - 65536;
    } break;
    default: R.r = -9999;
  }
}

static void put_tm(struct tm *p, int a)
{
  int *q = (int *)P(a);
  q[0] = p->tm_sec; q[1] = p->tm_min; q[2] = p->tm_hour; q[3] = p->tm_mday; q[4] = p->tm_mon;
  q[5] = p->tm_year; q[6] = p->tm_wday; q[7] = p->tm_yday; q[8] = p->tm_isdst;
}

static void get_tm(struct tm *p, int a)
{
  int *q = (int *)P(a);
  p->tm_sec = q[0]; p->tm_min = q[1]; p->tm_hour = q[2]; p->tm_mday = q[3]; p->tm_mon = q[4];
  p->tm_year = q[5]; p->tm_wday = q[6]; p->tm_yday = q[7]; p->tm_isdst = q[8];
}

static void op_time(void)
{
  int *a = &R.a[0];
  struct tm *p = NULL;
  time_t t = R.l[0];
  switch (R.op) {
    case 120: { time_t u = 77; R.rl = time(&u); R.l[1] = u; } break;
    case 121: R.rl = clock(); break;
    case 122: p = gmtime_r(&t, &g_tm); R.r = (p != NULL); if (p != NULL) put_tm(p, a[6]); break;
    case 123: p = localtime_r(&t, &g_tm); R.r = (p != NULL); if (p != NULL) put_tm(p, a[6]); break;
    case 124: get_tm(&g_tm, a[6]); R.rl = mktime(&g_tm); break;
    case 125: get_tm(&g_tm, a[6]); R.r = (int)strftime(P(a[0]), (size_t)a[1], P(a[2]), &g_tm); break;
    case 126: get_tm(&g_tm, a[6]); R.r = I(asctime_r(&g_tm, P(a[0]))); break;
    case 127: R.r = I(ctime_r(&t, P(a[0]))); break;
    case 128: p = gmtime(&t); R.r = (p != NULL); if (p != NULL) put_tm(p, a[6]); break;
    case 129: p = localtime(&t); R.r = (p != NULL); if (p != NULL) put_tm(p, a[6]); break;
    case 130: get_tm(&g_tm, a[6]); R.r = I(asctime(&g_tm)); break;
    case 131: R.r = I(ctime(&t)); break;
    case 132: R.rl = (long long)difftime((time_t)R.l[0], (time_t)R.l[1]); break;
    case 133: tzset(); R.rl = timezone; R.a[4] = I(tzname[0]); R.a[5] = I(tzname[1]); break;
    case 134: R.rl = time(NULL); break;
    default: R.r = -9999;
  }
}

static void loop(int who)
{
  int n;
  R.who = who; R.op = -1; R.r = 0; R.err = 0; R.fl = 0;
  R.a[0] = I(&iobuf[0]); R.a[1] = g_argc; R.a[2] = I(g_argv); R.a[3] = I(&R);
  while (true) {
    random_get((uint8_t *)&R, sizeof(rec_t));
    R.r = 0; R.rl = 0; R.fl = 0; errno = 0;
    n = R.op;
    if (n == 1) return;
    else if (n >= 10 && n < 50) op_stdio();
    else if (n >= 60 && n < 100) op_fs();
    else if (n >= 100 && n < 120) op_dir();
    else if (n >= 120 && n < 140) op_time();
    else switch (n) {
      case 2: { FILE *fp = (R.a[0] == 0) ? stdin : (R.a[0] == 1) ? stdout : stderr; R.r = I(fp); } break;
      case 50: R.r = I(malloc((size_t)R.a[0])); break;
      case 51: R.r = I(calloc((size_t)R.a[0], (size_t)R.a[1])); break;
      case 52: R.r = I(realloc(P(R.a[0]), (size_t)R.a[1])); break;
      case 53: free(P(R.a[0])); break;
      case 55: R.r = I(sbrk((intptr_t)R.a[0])); break;
      case 56: R.r = I(strdup(P(R.a[0]))); break;
      case 57: R.r = I(strndup(P(R.a[0]), (size_t)R.a[1])); break;
      case 54: R.r = burn(R.a[0], R.a[1]); break;
      case 140: R.r = I(getenv(P(R.a[0]))); break;
      case 150: R.r = reg(R.a[0]); break;
      case 151: exit(R.a[0]); break;
      case 152: abort(); break;
      case 153: _exit(R.a[0]); break;
      default: R.r = -9999;
    }
    R.err = errno;
    R.who = who;
  }
}

/*MAIN*/
int main(int argc, char **argv)
{
  g_argc = argc; g_argv = argv;
  loop(-1);
  return R.a[0];
}
