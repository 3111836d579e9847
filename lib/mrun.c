// Runs many commands, NPAR at a time. Input: records of [u32 argc][u32 len, bytes]*argc [u32 len, cwd][u32 len, stdin path][u32 timeout ms]
// Output: records of [u32 index][i32 status: exit code, -signal, or -99 time-out][u32 len, output (stdout+stderr, first 64K)]
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#define MAXP 64
#define CAP 65536
struct S { int used, fd; pid_t pid; unsigned idx; double dl; unsigned len; char *buf; int to; } s[MAXP];
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static int rd(void *p, size_t n) { return fread(p, 1, n, stdin) == n; }
static char *str(void) { unsigned n; if (!rd(&n, 4)) return 0; char *p = malloc(n + 1); if (n && !rd(p, n)) exit(9); p[n] = 0; return p; }
static void wr(const void *p, size_t n) { if (fwrite(p, 1, n, stdout) != n) exit(9); }
static unsigned next, done;
static int start(struct S *q) {
  unsigned argc, to, i;
  if (!rd(&argc, 4)) return 0;
  char **a = calloc(argc + 1, sizeof *a);
  for (i = 0; i < argc; i++) a[i] = str();
  char *cwd = str(), *in = str();
  if (!rd(&to, 4)) exit(9);
  int p[2];
  if (pipe2(p, O_CLOEXEC)) exit(9);
  q->pid = fork();
  if (q->pid < 0) exit(9);
  if (!q->pid) {
    struct rlimit z = {0, 0}, f = {256u << 20, 256u << 20}, d = {3ul << 30, 3ul << 30};
    setsid();
    setrlimit(RLIMIT_CORE, &z); setrlimit(RLIMIT_FSIZE, &f); if (!getenv("MRUN_NODATA")) setrlimit(RLIMIT_DATA, &d);
    if (*cwd && chdir(cwd)) _exit(127);
    int i0 = open(*in ? in : "/dev/null", O_RDONLY);
    if (i0 < 0) _exit(127);
    dup2(i0, 0); dup2(p[1], 1); dup2(p[1], 2);
    if (i0 > 2) close(i0);
    signal(SIGPIPE, SIG_DFL);
    execvp(a[0], a);
    _exit(127);
  }
  close(p[1]);
  for (i = 0; i < argc; i++) free(a[i]);
  free(a); free(cwd); free(in);
  q->used = 1; q->fd = p[0]; q->idx = next++; q->dl = now() + to / 1000.; q->len = 0; q->to = 0;
  if (!q->buf) q->buf = malloc(CAP);
  return 1;
}
int main(int argc, char **argv) {
  int np = argc > 1 ? atoi(argv[1]) : 8, eof = 0, live = 0, i;
  if (np > MAXP) np = MAXP;
  signal(SIGPIPE, SIG_IGN);
  for (;;) {
    for (i = 0; i < np && !eof; i++)
      if (!s[i].used) { if (start(&s[i])) live++; else eof = 1; }
    if (!live) break;
    struct pollfd pf[MAXP]; int m[MAXP], n = 0; double t = now(), mind = 1e9;
    for (i = 0; i < np; i++) if (s[i].used) { pf[n].fd = s[i].fd; pf[n].events = POLLIN; m[n++] = i; if (s[i].dl - t < mind) mind = s[i].dl - t; }
    int r = poll(pf, n, mind > 0 ? (int)(mind * 1000) + 1 : 0);
    t = now();
    for (i = 0; i < n; i++) {
      struct S *q = &s[m[i]];
      int fin = 0;
      if (r > 0 && pf[i].revents) {
        char tmp[CAP];
        ssize_t k = read(q->fd, tmp, CAP);
        if (k > 0) { unsigned c = CAP - q->len; if (c > k) c = k; memcpy(q->buf + q->len, tmp, c); q->len += c; }
        else if (k == 0) fin = 1;
      }
      if (!fin && t > q->dl) { kill(-q->pid, SIGKILL); kill(q->pid, SIGKILL); q->to = 1; fin = 1; }
      if (fin) {
        int st; 
        // output closed: give it until its deadline to end
        for (;;) {
          pid_t w = waitpid(q->pid, &st, q->to ? 0 : WNOHANG);
          if (w == q->pid) break;
          if (w < 0 && errno != EINTR) { st = 0x7f00; break; }
          if (now() > q->dl) { kill(-q->pid, SIGKILL); kill(q->pid, SIGKILL); q->to = 1; }
          else { struct timespec ts = {0, 50000}; nanosleep(&ts, 0); }
        }
        close(q->fd);
        int rc = q->to ? -99 : WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
        wr(&q->idx, 4); wr(&rc, 4); wr(&q->len, 4); wr(q->buf, q->len);
        q->used = 0; live--;
      }
    }
  }
  fflush(stdout);
  return 0;
}
