/* MemorySanitizer driver, linked with one codec.  Reads lines "<seed>\t<params>" (tokens separated by \1). */
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sanitizer/msan_interface.h>
int cdc_init(char[], void **);
int cdc_get_n(void *), cdc_get_k(void *);
#if defined(HAVE_SG)
void cdc_set_sg(void *, double);
#endif
#if defined(HAVE_CSNRN)
void cdc_set_csnrn(void *, int);
#endif
int enc_bpsk(void *, int *, double *), dec_bpsk(void *, double *, int *);
void cdc_close(void *);
static uint64_t s;
static uint64_t nx(void) { s += 0x9E3779B97F4A7C15ULL; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static double u(void) { return (nx() >> 11) * (1.0 / 9007199254740992.0); }
static double g(void) { double a = u() + 1e-300; return sqrt(-2 * log(a)) * cos(6.283185307179586 * u()); }
int main(int argc, char **argv) {
  static char buf[1 << 20]; FILE *in = fopen(argv[1], "r"), *cur = fopen(argv[2], "w"); long no = 0, dec = 0; unsigned long h = 0;
  if (!in || !cur) return 97;
  while (fgets(buf, sizeof buf, in)) {
    char *p = strchr(buf, '\t'); if (!p) return 97; *p++ = 0; s = strtoull(buf, 0, 10); p[strcspn(p, "\n")] = 0;
    rewind(cur); fprintf(cur, "%ld\n", no++); fflush(cur);
    /* The parameter string is kept in an exactly sized block. */
    char *q = malloc(strlen(p) + 1); strcpy(q, p); void *c = 0; int rc = cdc_init(q, &c); free(q);
    if (rc) { fprintf(stderr, "MEMDRV: rejected: %s\n", p); return 65; }
    int n = cdc_get_n(c), k = cdc_get_k(c);
    for (int t = 0; t < 3; t++) {
      double *y = malloc(n * sizeof *y); int *x = malloc(k * sizeof *x); for (int i = 0; i < k; i++) x[i] = nx() & 1;
      enc_bpsk(c, x, y); __msan_check_mem_is_initialized(y, n * sizeof *y); free(x);
      double sg = 0.3 + u(); int w = nx() % 10; for (int i = 0; i < n; i++) y[i] = w == 0 ? 0 : w == 1 ? (nx() & 1 ? 1 : -1) : w == 2 ? g() : w == 3 ? (nx() & 1 ? 0 : y[i]) : y[i] + sg * g();
#if defined(HAVE_SG)
      cdc_set_sg(c, sg);
#endif
#if defined(HAVE_CSNRN)
      if (nx() & 1) cdc_set_csnrn(c, 0);
#endif
      x = malloc(k * sizeof *x); int r = dec_bpsk(c, y, x); dec++;
      __msan_check_mem_is_initialized(x, k * sizeof *x); __msan_check_mem_is_initialized(&r, sizeof r);
      for (int i = 0; i < k; i++) h = h * 31 + x[i]; free(x); free(y);
    }
    cdc_close(c);
  }
  printf("DONE %ld %ld %lx\n", no, dec, h); return 0;
}
