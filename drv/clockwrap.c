// Virtual clock, advanced by every decoding, and a log of what a user sees between decodings:
// the size of the standard output (a file) and the state of the results file.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>

int __real_dec_bpsk(void *c, double *y, int *x);
static int64_t ms = 1700000000000LL;
static uint64_t rs;
static int logfd = -1, mode, lo, hi, big, frac;
static long ndec, off_from = -1, off_to = -1; // The directory of the results file is missing between these decodings.
static char resd[2000], away[2010];
static char resf[2000];
static struct { ino_t i; off_t s; struct timespec t; } last;

static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

__attribute__((constructor)) static void start(void) {
  const char *e = getenv("CLK"); if (!e) return;
  unsigned long long s; char lf[1000]; int t0;
  if (sscanf(e, "%llu %d %d %d %d %d %999s %1999s", &s, &lo, &hi, &big, &frac, &t0, lf, resf) != 8) _exit(97);
  e = getenv("CLK_AWAY"); if (e) { if (sscanf(e, "%ld %ld %1999s", &off_from, &off_to, resd) != 3) _exit(97); snprintf(away, sizeof(away), "%s.away", resd); }
  rs = s * 0x9E3779B97F4A7C15ULL | 1; ms += t0; logfd = open(lf, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (logfd < 0) _exit(97);
}

static long trials(int *ok) {
  static char b[200000]; int f = open(resf, O_RDONLY); if (f < 0) { *ok = 0; return -1; }
  ssize_t n = read(f, b, sizeof(b) - 1); close(f); b[n < 0 ? 0 : n] = 0;
  char *p = strstr(b, "tr_num"); if (!p || !(p = strchr(p, '{'))) { *ok = 0; return -1; }
  long t = 0; for (p++; ; ) { char *q; double v = strtod(p, &q); if (q == p) break; t += (long)v; p = q; }
  *ok = 1; return t;
}

static void look(char what) {
  struct stat s; if (logfd < 0) return;
  long out = fstat(1, &s) ? -1 : (long)s.st_size, t = -1; int ch = 0, ok = 1;
  if (!stat(resf, &s)) if (s.st_ino != last.i || s.st_size != last.s || s.st_mtim.tv_sec != last.t.tv_sec || s.st_mtim.tv_nsec != last.t.tv_nsec) { last.i = s.st_ino; last.s = s.st_size; last.t = s.st_mtim; ch = 1; t = trials(&ok); }
  char l[200]; int n = snprintf(l, sizeof(l), "%c %ld %lld %ld %d %ld %d\n", what, ndec, (long long)ms, out, ch, t, ok); if (write(logfd, l, n) != n) _exit(97);
}

__attribute__((destructor)) static void stop(void) { look('E'); }

int __wrap_dec_bpsk(void *c, double *y, int *x) {
  if (ndec == off_to && rename(away, resd)) _exit(97);
  look('D');
  if (ndec == off_from && rename(resd, away)) _exit(97);
  int rc = __real_dec_bpsk(c, y, x); ndec++;
  if (logfd >= 0) { uint64_t r = rnd(); int64_t d = lo + (int64_t)(r % (uint64_t)(hi - lo + 1)); if (big && r >> 40 & 63) ; else if (big) d = (int64_t)(rnd() % (uint64_t)big); ms += frac ? d * 1000 + (int64_t)(rnd() % 1000) : d * 1000; }
  return rc;
}
time_t __wrap_time(time_t *p) { time_t t = ms / 1000; if (p) *p = t; return t; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = ms / 1000; t->tv_nsec = ms % 1000 * 1000000; return 0; }
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = ms / 1000; t->tv_usec = ms % 1000 * 1000; return 0; }
