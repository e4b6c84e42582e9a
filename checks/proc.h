// Runs a program with captured output and a time limit.
#ifndef VERIF_PROC_H_
#define VERIF_PROC_H_
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
namespace proc {
struct Result { int code = -1; int signal = 0; bool timeout = false; std::string out; };
inline Result Run(const std::vector<std::string>& args, const std::string& cwd, int limit_s = 10) {
  Result r;
  int p[2];
  if (pipe(p)) { r.code = 97; return r; }
  pid_t pid = fork();
  if (pid == 0) {
    dup2(p[1], 1);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 2);
    for (int i = 3; i < 64; ++i) close(i);
    if (chdir(cwd.c_str())) _exit(96);
    std::vector<char*> a;
    for (auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    execv(a[0], a.data());
    _exit(95);
  }
  close(p[1]);
  timespec t0;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  char buf[65536];
  for (;;) {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    long left = limit_s * 1000 - ((t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000);
    if (left <= 0 || r.out.size() > (64u << 20)) { r.timeout = true; kill(pid, SIGKILL); break; }
    pollfd f = {p[0], POLLIN, 0};
    if (poll(&f, 1, left) <= 0) continue;
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n <= 0) break;
    r.out.append(buf, n);
  }
  close(p[0]);
  int st = 0;
  // The output is closed; the exit follows shortly.
  for (int i = 0;; ++i) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (i > limit_s * 1000) { r.timeout = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
    usleep(i < 50 ? 100 : 1000);
  }
  if (WIFSIGNALED(st)) r.signal = WTERMSIG(st);
  r.code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
  return r;
}
}  // namespace proc
#endif
