// Small frame for harnesses that enumerate a product of inputs: numbered cases, failure reports, replay by case number.
#ifndef VERIF_MINI_HPP
#define VERIF_MINI_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <string>
#include <exception>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
namespace mini {
inline long id = 0, replay = -1, checks = 0, states = 0, cases = 0, nfault = 0;
inline char art[512], sample[256];
inline const char* section = "";
inline double t0 = 0, max_s = 1e9;
inline bool out_of_time = false;
inline int bound[8] = {0};
inline double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec / 1e6; }
inline void stats(bool ok) {
  printf("STATS {\"states\":%ld,\"transitions\":%ld,\"executions\":%ld,\"fault_executions\":%ld,\"checks\":%ld,\"fixpoint\":%s,\"wall_s\":%.2f,\"sample\":\"%s\"}\n", states, cases, cases, nfault, checks, ok && !out_of_time ? "true" : "false", now() - t0, sample);
}
inline void report(const char* msg) {
  if (*art) { int f = open(art, O_WRONLY | O_CREAT | O_TRUNC, 0644); char b[900]; int n = snprintf(b, sizeof b, "CASE %ld\nBOUNDS %d %d %d %d\n# %s\n", id, bound[0], bound[1], bound[2], bound[3], msg); if (f >= 0) { (void)!write(f, b, n); close(f); } }
  if (replay >= 0) printf("REPRODUCED case %ld (%s): %s\n", id, section, msg);
  else printf("FOUND case %ld (%s): %s\n", id, section, msg);
  fflush(stdout); _exit(1);
}
[[gnu::format(printf, 1, 2)]] inline void fail(const char* f, ...) { char b[800]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); report(b); }
inline void crash(int s) { char b[64]; snprintf(b, sizeof b, "crash: signal %d%s", s, s == SIGPROF ? " (no progress)" : ""); report(b); }
// every case passes here first; false: skip it
inline bool next() {
  ++id; if (replay >= 0) return id == replay; if (out_of_time) return false; ++cases;
  if ((cases & 255) == 0) { if (now() - t0 > max_s) out_of_time = true; struct itimerval tv = {{0, 0}, {60, 0}}; setitimer(ITIMER_PROF, &tv, nullptr); }
  return true;
}
inline void say(const char* s) { if (!*sample) snprintf(sample, sizeof sample, "%s", s); }
inline int main_(int argc, char** argv, void (*body)()) {
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; auto eq = a.find('='); std::string k = a.substr(0, eq), v = eq == std::string::npos ? "" : a.substr(eq + 1);
    if (k == "--art") snprintf(art, sizeof art, "%s", v.c_str()); else if (k == "--max-s") max_s = atof(v.c_str()); else if (k.size() == 4 && k.substr(0, 3) == "--b") bound[k[3] - '0'] = atoi(v.c_str());
    else if (k == "--replay") { FILE* f = fopen(v.c_str(), "r"); char l[4096]; while (f && fgets(l, sizeof l, f)) sscanf(l, "CASE %ld", &replay), sscanf(l, "BOUNDS %d %d %d %d", bound, bound + 1, bound + 2, bound + 3); if (f) fclose(f); } else return 2; }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGPROF}) signal(s, crash);
  struct itimerval tv = {{0, 0}, {60, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
  t0 = now();
  try { body(); } catch (std::exception& e) { fail("unexpected exception: %s", e.what()); } catch (...) { fail("unexpected exception"); }
  if (replay >= 0) { printf("NOT REPRODUCED\n"); return 0; }
  stats(true); return 0;
}
}
#define MCHECK(c, ...) do { ++mini::checks; if (!(c)) mini::fail(__VA_ARGS__); } while (0)
#endif
