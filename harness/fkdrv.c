/* Runs smlrcc.c's main() (compiled with -Dmain=drv_tool -Dsystem=fk_system and the stdio/memory calls below renamed) in a fresh
   directory with simulated tools. argv[1] is the plan: \x1f-separated settings
     d=DIR            directory to create, run in and remove
     e=NAME=VALUE     environment variable
     w=PATH=CONTENT   file to create first (\x02 is a newline, \x03 a tab, \x04N@ repeats 'N' bytes)
     m=DIR            directory to create
     t=STEP:MODE      tool step that fails: 1 exit 1, 2 exit 1 with half an output, 3 killed with half an output, 4 system() fails, 5 exit 127
     k=KINDS:N        the N-th driver call of these kinds fails (o fopen, r fread, w fwrite, s fseek, c fclose, m malloc/realloc)
   After the driver ends its commands (words as sh would pass them) and the remaining files are printed. */
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
int drv_tool(int, char **);
static char log_[1 << 18], *lp = log_;
static char *dirname_, start[4096];
static int steps, fstep[4], fmode[4], nf, kn, kcnt;
static char *kk = "";
static void put(const char *s) { size_t n = strlen(s); if (lp + n + 8 < log_ + sizeof log_) { memcpy(lp, s, n); lp += n; } }
static int hit(char c) { return *kk && strchr(kk, c) && ++kcnt == kn; }
static int search(const char *p) {  /* the look for system files */
  const char *b = strrchr(p, '/'); b = b ? b + 1 : p;
  return !strcmp(b, "limits.h") || !strcmp(b, "dpstub.exe") || !strncmp(b, "lcd", 3) || !strcmp(b, "lcl.a") || !strcmp(b, "lcw.a") || !strcmp(b, "lcm.a");
}
FILE *fk_fopen(const char *p, const char *m) { if (!search(p) && hit('o')) { errno = EMFILE; return 0; } return fopen(p, m); }
size_t fk_fread(void *b, size_t s, size_t n, FILE *f) { if (hit('r')) { errno = EIO; return fread(b, s, n / 2, f); } return fread(b, s, n, f); }
size_t fk_fwrite(const void *b, size_t s, size_t n, FILE *f) { if (hit('w')) { errno = ENOSPC; return fwrite(b, s, n / 2, f); } return fwrite(b, s, n, f); }
int fk_fseek(FILE *f, long o, int w) { if (hit('s')) { errno = EIO; return -1; } return fseek(f, o, w); }
int fk_fclose(FILE *f) { if (hit('c')) { fclose(f); errno = EIO; return EOF; } return fclose(f); }
void *fk_malloc(size_t n) { if (hit('m')) return 0; return malloc(n); }
void *fk_realloc(void *p, size_t n) { if (hit('m')) return 0; return realloc(p, n); }
static int words(const char *c, char **av, char *buf) {  /* -1: a construct that sh would interpret */
  int n = 0, in = 0, bad = 0;
  for (;; c++) {
    if (!*c || *c == ' ' || *c == '\t' || *c == '\n') {
      if (in) { *buf++ = 0; in = 0; }
      if (!*c) break;
      if (*c == '\n') bad = 1;
      continue;
    }
    if (!in) { in = 1; av[n++] = buf; if (n > 250) return -1; if (*c == '#' || *c == '~') bad = 1; }
    if (*c == '\'') { for (c++; *c && *c != '\''; c++) *buf++ = *c; if (!*c) return -1; }
    else if (*c == '"') {
      for (c++; *c && *c != '"'; c++) {
        if (*c == '$' || *c == '`') bad = 1;
        if (*c == '\\' && c[1] && strchr("$`\"\\\n", c[1])) c++;
        *buf++ = *c;
      }
      if (!*c) return -1;
    } else if (*c == '\\') { if (!*++c) return -1; *buf++ = *c; }
    else { if (strchr(";&|<>()$`*?[", *c)) bad = 1; *buf++ = *c; }
  }
  av[n] = 0;
  return bad ? -1 : n;
}
static char *slurp(const char *p, size_t *n) {
  FILE *f = fopen(p, "rb");
  char *b;
  if (!f) return 0;
  b = malloc(1 << 20);
  *n = fread(b, 1, (1 << 20) - 1, f);
  b[*n] = 0;
  fclose(f);
  return b;
}
static int dump(const char *p, const char *d, size_t n, int mode) {
  FILE *f = fopen(p, "wb");
  if (!f) return -1;
  fwrite(d, 1, mode == 2 || mode == 3 ? n / 2 : n, f);
  return fclose(f);
}
static int takes(const char *tool, const char *o) {   /* options with a separate parameter */
  static const char *l = "-o -map -entry -origin -stack -minheap -maxheap -stub -pesubsys ", *c = "-I -SI -D ", *p = "-o -D -I -J -isystem -U ", *s = "-o -f ";
  const char *t = !strcmp(tool, "smlrl") ? l : !strcmp(tool, "smlrc") ? c : !strcmp(tool, "smlrpp") || !strcmp(tool, "gcc") ? p : s;
  char w[64];
  if (strlen(o) > 30) return 0;
  sprintf(w, "%s ", o);
  return strstr(t, w) != 0;
}
int fk_system(const char *cmd) {
  static char buf[1 << 17], out[1 << 20];
  char *av[300], *pos[300], *o = 0, *map = 0, *res = out;
  const char *tag;
  int n, i, np = 0, mode = 0, x;
  steps++;
  for (i = 0; i < nf; i++) if (fstep[i] == steps) mode = fmode[i];
  n = words(cmd, av, buf);
  if (n < 0) { put("X\x1f"); put(cmd); put("\n"); return 2 << 8; }
  put("C");
  for (i = 0; i < n; i++) { put("\x1f"); put(av[i]); }
  put("\n");
  if (mode == 4) return -1;
  if (mode == 1) return 1 << 8;
  if (mode == 5) return 127 << 8;
  if (n < 1) return 0;
  if (!strcmp(av[0], "chmod")) {
    struct stat st;
    if (n != 3 || strcmp(av[1], "+x") || stat(av[2], &st) || chmod(av[2], st.st_mode | 0111)) return 1 << 8;
    return mode ? 1 << 8 : 0;
  }
  x = !strcmp(av[0], "smlrpp") || !strcmp(av[0], "gcc") ? 1 : !strcmp(av[0], "smlrc") ? 2 : !strcmp(av[0], "smlrl") ? 4 : 3;
  tag = x == 1 ? "PP" : x == 2 ? "CC" : x == 3 ? "AS" : "LD";
  for (i = 1; i < n; i++) {
    if (av[i][0] != '-') pos[np++] = av[i];
    else if (takes(av[0], av[i])) { if (i + 1 >= n) return 1 << 8; if (!strcmp(av[i], "-o")) o = av[i + 1]; if (!strcmp(av[i], "-map")) map = av[i + 1]; i++; }
  }
  if (x == 2 && np == 2) o = pos[--np];
  if (!np || !o) return 1 << 8;
  res += sprintf(res, "%s(", tag);
  for (i = 0; i < np; i++) {
    size_t k;
    char *d = slurp(pos[i], &k);
    if (!d) { put("M\x1f"); put(pos[i]); put("\n"); return 1 << 8; }
    if (i) *res++ = ',';
    if (k > 3000) k = 3000;
    memcpy(res, d, k); res += k;
    free(d);
  }
  *res++ = ')';
  if (dump(o, out, res - out, mode)) return 1 << 8;
  if (map && dump(map, "MAP", 3, 0)) return 1 << 8;
  return mode == 3 ? SIGINT : mode ? 1 << 8 : 0;
}
static void walk(const char *d, int show) {
  DIR *q = opendir(d);
  struct dirent *e;
  if (!q) return;
  while ((e = readdir(q))) {
    char p[4096];
    struct stat st;
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    snprintf(p, sizeof p, "%s/%s", d, e->d_name);
    if (lstat(p, &st)) continue;
    if (S_ISDIR(st.st_mode)) { walk(p, show); if (!show) rmdir(p); continue; }
    if (show) {
      size_t n;
      char *b = slurp(p, &n);
      if (!b) continue;
      printf("F\x1f%s\x1f%d\x1f%zu\n", p + 2, (st.st_mode & 0111) != 0, n);
      fwrite(b, 1, n, stdout);
      putchar('\n');
      free(b);
    } else unlink(p);
  }
  closedir(q);
}
static void fin(void) {
  fflush(stdout);
  printf("\n@@END %d\n", kcnt);
  fwrite(log_, 1, lp - log_, stdout);
  if (!chdir(start) && !chdir(dirname_)) {
    walk(".", 1);
    walk(".", 0);
    if (!chdir(start)) rmdir(dirname_);
  }
  fflush(stdout);
}
int tool_main(int ac, char **av) {
  char *p = av[1], *s;
  if (!getcwd(start, sizeof start)) _exit(98);
  unsetenv("SMLRC"); unsetenv("HOME"); unsetenv("SMLRASM"); unsetenv("SMLRPPG");
  while ((s = strsep(&p, "\x1f"))) {
    char *v = s + 2, *e;
    switch (*s) {
    case 'd': dirname_ = v; if (mkdir(v, 0755) || chdir(v)) _exit(98); break;
    case 'm': mkdir(v, 0755); break;
    case 'e': e = strchr(v, '='); *e = 0; setenv(v, e + 1, 1); break;
    case 't': fstep[nf] = atoi(v); fmode[nf++] = atoi(strchr(v, ':') + 1); break;
    case 'k': kk = v; e = strchr(v, ':'); *e = 0; kn = atoi(e + 1); break;
    case 'w': {
      FILE *f;
      e = strchr(v, '='); *e = 0;
      char *q;
      for (q = v; (q = strchr(q, '/')); q++) { *q = 0; mkdir(v, 0755); *q = '/'; }
      if (!(f = fopen(v, "wb"))) _exit(98);
      for (e++; *e; e++)
        if (*e == 4) { int k = strtol(e + 1, &e, 10); while (k--) putc("0123456789abcdef"[k % 16], f); }
        else putc(*e == 2 ? '\n' : *e == 3 ? '\t' : *e, f);
      fclose(f);
    } }
  }
  atexit(fin);
  return drv_tool(ac - 1, av + 1);
}
