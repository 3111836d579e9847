/* Runs a tool's main() (compiled with -Dmain=tool_main) once per request in a forked child, so that a sanitized tool starts fast.
   argv[1]: timeout in seconds. stdin: lines of tab-separated fields: directory, arguments...; stdout: records of
   u32 status (exit code, 256+signal, 512 timeout), u32 length, output (at most 512K). */
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
int tool_main(int, char **);
static char line[1 << 18];
int main(int argc, char **argv) {
  int tmo = argc > 1 ? atoi(argv[1]) : 10;
  char tmp[] = "/tmp/frXXXXXX";
  int cap;
  char tn[4096];
  snprintf(tn, sizeof tn, "%s/frXXXXXX", argc > 2 ? argv[2] : "/tmp");
  cap = mkstemp(tn);
  if (cap < 0) return 9;
  unlink(tn);
  (void)tmp;
  while (fgets(line, sizeof line, stdin)) {
    char *av[512], *p = line, *dir;
    int ac = 0, st;
    pid_t pid;
    line[strcspn(line, "\n")] = 0;
    dir = strsep(&p, "\t");
    av[ac++] = "tool";
    while (p && ac < 510) av[ac++] = strsep(&p, "\t");
    av[ac] = 0;
    if (ftruncate(cap, 0) || lseek(cap, 0, SEEK_SET)) return 9;
    fflush(stdout);
    pid = fork();
    if (pid < 0) return 9;
    if (!pid) {
      struct rlimit z = {0, 0}, f = {4u << 20, 4u << 20}, t = {tmo, tmo + 1};
      setrlimit(RLIMIT_CORE, &z); setrlimit(RLIMIT_FSIZE, &f); setrlimit(RLIMIT_CPU, &t);
      alarm(tmo * 3);
      signal(SIGXFSZ, SIG_IGN);   /* writing more than that fails */
      if (chdir(dir)) _exit(127);
      close(0);
      open("/dev/null", O_RDONLY);
      dup2(cap, 1); dup2(cap, 2);
      exit(tool_main(ac, av));
    }
    waitpid(pid, &st, 0);
    uint32_t rc = WIFEXITED(st) ? WEXITSTATUS(st) : 256 + WTERMSIG(st), n;
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL)) rc = 512;
    static char buf[1 << 19];
    lseek(cap, 0, SEEK_SET);
    ssize_t k = read(cap, buf, sizeof buf);
    n = k > 0 ? k : 0;
    fwrite(&rc, 4, 1, stdout); fwrite(&n, 4, 1, stdout); fwrite(buf, 1, n, stdout);
  }
  fflush(stdout);
  return 0;
}
