/* Runs the compiler proper (smlrc.c built as a shared object with -Dmain=tool_main, its output calls renamed) on many sources in one process: its variables
   are put back to their initial values between runs. argv: shared object, input file, per-run CPU limit in ms.
   input: records u32 nargs, {u32 len, bytes}..., u32 nfiles, {u32 len, name, u32 len, text}...
   stdout: records u32 status (exit code; 256 memory error or signal; 512 time-out), u32 len, messages, u32 len, output */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
static sigjmp_buf jb;
static char *cap;
static size_t capn;
static FILE *msg, *outf;
static char *outb;
static size_t outn;
static int nf;
static struct { char *name; uint32_t nl, len; char *text; } vf[64];
void fk_exit(int c) { siglongjmp(jb, 1000 + (c & 255)); }
int fk_vprintf(const char *f, va_list v) { return vfprintf(msg, f, v); }
int fk_printf(const char *f, ...) { va_list v; va_start(v, f); int r = vfprintf(msg, f, v); va_end(v); return r; }
int fk_puts(const char *s) { return fprintf(msg, "%s\n", s); }
int fk_putchar(int c) { return fputc(c, msg); }
FILE *fk_fopen(const char *n, const char *m) {
  if (*m == 'w') {
    if (strcmp(n, "out")) return 0;
    return outf = open_memstream(&outb, &outn);
  }
  for (int i = 0; i < nf; i++)
    if (strlen(n) == vf[i].nl && !memcmp(n, vf[i].name, vf[i].nl))
      return vf[i].len ? fmemopen(vf[i].text, vf[i].len, "r") : fopen("/dev/null", "r");
  return 0;
}
int fk_fclose(FILE *f) { if (f == outf) { fflush(f); return 0; } return fclose(f); }
static void onalarm(int s) { (void)s; siglongjmp(jb, 512); }
static uintptr_t lo, hi;
static const char *soname;
static int cb(struct dl_phdr_info *i, size_t z, void *p) {
  (void)z; (void)p;
  if (!strcmp(i->dlpi_name, soname))
    for (int k = 0; k < i->dlpi_phnum; k++)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_flags & PF_W) {
        lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; hi = lo + i->dlpi_phdr[k].p_memsz;
        for (int q = 0; q < i->dlpi_phnum; q++)
          if (i->dlpi_phdr[q].p_type == PT_GNU_RELRO) {
            uintptr_t e = (i->dlpi_addr + i->dlpi_phdr[q].p_vaddr + i->dlpi_phdr[q].p_memsz + 4095) & ~4095ul;
            if (e > lo && e < hi) lo = e;
          }
      }
  return 0;
}
static void copy(void *d, const void *s, size_t n) {
  volatile uint64_t *a = d; const volatile uint64_t *b = s;
  for (; n >= 8; n -= 8) *a++ = *b++;
  volatile char *c = (volatile char *)a; const volatile char *e = (const volatile char *)b;
  while (n--) *c++ = *e++;
}
static unsigned char *in, *end;
static uint32_t g4(void) { uint32_t v; if (in + 4 > end) _exit(9); memcpy(&v, in, 4); in += 4; return v; }
static void put(uint32_t st, const char *m, uint32_t ml, const char *o, uint32_t ol) {
  if (ml > 4096) ml = 4096;
  if (ol > 1u << 20) ol = 1u << 20;
  fwrite(&st, 4, 1, stdout); fwrite(&ml, 4, 1, stdout); fwrite(m, 1, ml, stdout); fwrite(&ol, 4, 1, stdout); fwrite(o, 1, ol, stdout);
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[2], "rb");
  int ms = atoi(argv[3]), wantout = argc > 4;
  fseek(f, 0, SEEK_END);
  long n = ftell(f);
  rewind(f);
  unsigned char *base = malloc(n + 1);
  if (fread(base, 1, n, f) != (size_t)n) return 9;
  fclose(f);
  end = base + n;
  volatile uint64_t *pos = mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pos[0] = 0;
  char tn[] = "ccrunXXXXXX";
  int efd = mkstemp(tn);
  unlink(tn);
  soname = argv[1];
  void *h = dlopen(soname, RTLD_NOW);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 9; }
  int (*tm)(int, char **) = (int (*)(int, char **))dlsym(h, "tool_main");
  dl_iterate_phdr(cb, 0);
  if (!tm || !hi) return 9;
  size_t z = hi - lo;
  char *snap = mmap(0, z + 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  copy(snap, (void *)lo, z);
  int careful = 0;
  setvbuf(stdout, malloc(4 << 20), _IOFBF, 4 << 20);
  while (pos[0] < (uint64_t)n) {
    if (ftruncate(efd, 0)) return 9;
    lseek(efd, 0, SEEK_SET);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) return 9;
    if (!pid) {
      struct sigaction sa = {0};
      dup2(efd, 2);
      sa.sa_handler = onalarm; sa.sa_flags = SA_NODEFER;
      sigaction(SIGPROF, &sa, 0);
      in = base + pos[0];
      int since = 0;
      size_t bytes = 0;
      while (in < end) {
        char *av[40]; int ac = 1, i;
        pos[1] = in - base;
        av[0] = "smlrc";
        uint32_t k = g4();
        for (i = 0; i < (int)k; i++) { uint32_t l = g4(); char *s = malloc(l + 1); memcpy(s, in, l); s[l] = 0; in += l; if (ac < 39) av[ac++] = s; }
        av[ac] = 0;
        nf = g4();
        if (nf > 64) _exit(9);
        for (i = 0; i < nf; i++) {
          vf[i].nl = g4(); vf[i].name = (char *)in; in += vf[i].nl;
          vf[i].len = g4(); vf[i].text = (char *)in; in += vf[i].len;
        }
        pos[2] = in - base;
        copy((void *)lo, snap, z);
        msg = open_memstream(&cap, &capn);
        outf = 0; outb = 0; outn = 0;
        struct itimerval tv = {{0, 0}, {ms / 1000, ms % 1000 * 1000}}, t0 = {{0, 0}, {0, 0}};
        int r = sigsetjmp(jb, 1);
        if (!r) { setitimer(ITIMER_PROF, &tv, 0); r = 1000 + (tm(ac, av) & 255); }
        setitimer(ITIMER_PROF, &t0, 0);
        fflush(msg);
        if (outf) fflush(outf);
        put(r >= 1000 ? r - 1000 : r, cap, capn, wantout ? outb : "", wantout ? outn : 0);
        if (r >= 1000) { fclose(msg); if (outf) fclose(outf); free(cap); free(outb); }
        for (i = 1; i < ac; i++) free(av[i]);
        bytes += 12 + capn + outn;
        if (careful || ++since >= 64 || bytes > 1 << 20 || r == 512) { fflush(stdout); pos[0] = pos[2]; since = bytes = 0; }
        if (r == 512) _exit(77);
      }
      fflush(stdout);
      pos[0] = n;
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 77 || pos[0] == (uint64_t)n)) continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 9) return 9;
    if (!careful) { careful = 1; continue; }   /* again, one by one, to know which one it was */
    careful = 0;
    char b[4096];
    lseek(efd, 0, SEEK_SET);
    ssize_t k = read(efd, b, sizeof b);
    put(256, b, k > 0 ? k : 0, "", 0);
    pos[0] = pos[2];
  }
  return 0;
}
