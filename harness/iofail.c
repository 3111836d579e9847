/* LD_PRELOAD: the IOFAIL_N-th call of the kinds in IOFAIL_K (r: read, w: write, o: open, m: malloc/realloc) fails; with IOFAIL_P
   all later ones too. Calls are counted into the file descriptor-free counter printed at exit when IOFAIL_C is set. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static long cnt, at = -1;
static int pers, init, busy;
static const char *kinds = "";
static void setup(void) {
  char *p;
  if (init) return;
  init = 1;
  if ((p = getenv("IOFAIL_K"))) kinds = p;
  if ((p = getenv("IOFAIL_N"))) at = strtol(p, 0, 10);
  pers = getenv("IOFAIL_P") != 0;
}
static int hit(char k) {
  setup();
  if (!strchr(kinds, k) || !*kinds) return 0;
  cnt++;
  return at >= 0 && (cnt == at || pers && cnt > at);
}
__attribute__((destructor)) static void fin(void) {
  char b[64], *p = getenv("IOFAIL_C");
  int n;
  if (p && (n = snprintf(b, sizeof b, "\nIOFAIL count %ld\n", cnt)) > 0) { if (write(2, b, n)) {} }
}
size_t fread(void *p, size_t s, size_t n, FILE *f) {
  static size_t (*r)(void *, size_t, size_t, FILE *);
  if (!r) r = dlsym(RTLD_NEXT, "fread");
  if (hit('r')) { errno = EIO; return s * n > 1 && s == 1 ? r(p, s, n / 2, f) : 0; }
  return r(p, s, n, f);
}
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) {
  static size_t (*r)(const void *, size_t, size_t, FILE *);
  if (!r) r = dlsym(RTLD_NEXT, "fwrite");
  if (f != stdout && f != stderr && hit('w')) { errno = ENOSPC; return n / 2 ? r(p, s, n / 2, f) : 0; }
  return r(p, s, n, f);
}
FILE *fopen(const char *a, const char *m) {
  static FILE *(*r)(const char *, const char *);
  if (!r) r = dlsym(RTLD_NEXT, "fopen");
  if (hit('o')) { errno = EMFILE; return 0; }
  return r(a, m);
}
int fseek(FILE *f, long o, int w) {
  static int (*r)(FILE *, long, int);
  if (!r) r = dlsym(RTLD_NEXT, "fseek");
  if (hit('s')) { errno = EIO; return -1; }
  return r(f, o, w);
}
int fclose(FILE *f) {
  static int (*r)(FILE *);
  if (!r) r = dlsym(RTLD_NEXT, "fclose");
  if (hit('c')) { r(f); errno = EIO; return EOF; }
  return r(f);
}
static char boot[1 << 16];
static size_t bused;
void *malloc(size_t n) {
  static void *(*r)(size_t);
  if (!r) {
    if (busy) { void *p = boot + bused; bused += (n + 15) & ~15ul; return p; }
    busy = 1; r = dlsym(RTLD_NEXT, "malloc"); busy = 0;
  }
  if (hit('m')) { errno = ENOMEM; return 0; }
  return r(n);
}
void *realloc(void *q, size_t n) {
  static void *(*r)(void *, size_t);
  if (!r) r = dlsym(RTLD_NEXT, "realloc");
  if (hit('m')) { errno = ENOMEM; return 0; }
  return r(q, n);
}
