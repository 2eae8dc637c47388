#include "core.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>

namespace mc {

uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
  return h ? h : 1;
}
void Ctx::state(const std::string &s) { outcomes.push_back(hash_str(s)); }

bool thorough() { const char *t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

uint64_t n_strings(uint64_t k, int maxlen) {
  uint64_t t = 0, p = 1;
  for (int i = 0; i <= maxlen; i++) { t += p; p *= k; }
  return t;
}
std::vector<int> nth_string(uint64_t k, uint64_t idx) {
  int len = 0; uint64_t p = 1;
  while (idx >= p) { idx -= p; p *= k; len++; }
  std::vector<int> r(len);
  for (int i = len; i-- > 0;) { r[i] = (int)(idx % k); idx /= k; }
  return r;
}
std::string esc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c >= 32 && c < 127 && c != '\\') r += c; else { snprintf(b, 8, "\\x%02x", c); r += b; } }
  return r;
}
std::string esc(const std::u32string &s) {
  std::string r; char b[16];
  for (char32_t c : s) { if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, 16, "\\u{%x}", (unsigned)c); r += b; } }
  return r;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static const size_t HT = 1u << 22;
struct Slot { std::atomic<uint64_t> fam, idx, lo; std::atomic<double> since; std::atomic<int> busy; char msg[4096]; };
struct Shared {
  std::atomic<uint64_t> transitions, traces, nontrivial, cases, states, full;
  std::atomic<int> stop;
  Slot slot[64];
  std::atomic<uint64_t> fam_cases[256], fam_trans[256];
  std::atomic<uint64_t> table[HT];
};
static Shared *sh;

static void add_state(uint64_t h) {
  size_t i = h & (HT - 1);
  for (int n = 0; n < 64; n++, i = (i + 1) & (HT - 1)) {
    uint64_t c = sh->table[i].load(std::memory_order_relaxed);
    if (c == h) return;
    if (c == 0) {
      uint64_t e = 0;
      if (sh->table[i].compare_exchange_strong(e, h)) { sh->states++; return; }
      if (e == h) return;
    }
  }
  sh->full++;
}

static bool run_case(const Family &f, uint64_t idx, Ctx &c) {
  try { f.run(idx, c); }
  catch (const std::exception &e) { c.fail(std::string("unexpected exception: ") + e.what()); }
  catch (...) { c.fail("unexpected non-standard exception"); }
  return !c.failed;
}

// runs cases [lo,hi] of family in a fresh child; returns 0 ok, 1 mismatch, 2 crash, 3 timeout
static int isolated(std::vector<Family> &fams, int fi, uint64_t lo, uint64_t hi, double limit, std::string &msg, uint64_t &at) {
  Slot &s = sh->slot[63];
  s.msg[0] = 0;
  s.idx = lo;
  fflush(stdout); fflush(stderr);
  int pfd[2];
  if (pipe(pfd)) return 0;
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(pfd[0]);
    dup2(pfd[1], 2);
    for (uint64_t i = lo; i <= hi; i++) {
      s.idx = i;
      Ctx c;
      if (!run_case(fams[fi], i, c)) {
        snprintf(s.msg, sizeof s.msg, "%s", c.msg.c_str());
        _exit(41);
      }
    }
    _exit(0);
  }
  close(pfd[1]);
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  std::string err;
  double t0 = now();
  int st = 0;
  bool killed = false;
  for (;;) {
    char b[4096]; ssize_t n;
    while ((n = read(pfd[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, n);
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
    usleep(2000);
  }
  char b[4096]; ssize_t n;
  while ((n = read(pfd[0], b, sizeof b)) > 0) if (err.size() < 20000) err.append(b, n);
  close(pfd[0]);
  at = s.idx;
  if (killed) { msg = "did not terminate within the limit"; return 3; }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 41) { msg = s.msg; return 1; }
  char d[200];
  if (WIFSIGNALED(st)) snprintf(d, sizeof d, "crashed with signal %d\n", WTERMSIG(st));
  else snprintf(d, sizeof d, "terminated abnormally with status %d\n", WEXITSTATUS(st));
  msg = std::string(d) + err.substr(0, 4000);
  return 2;
}

// the process that enumerates must not hang inside the library while it builds its configurations
static const bool guard = (alarm(240), true);
// describing a case may run the library: do it in a child
static std::string described(const Family &f, uint64_t i) {
  if (!f.describe) return "";
  int p[2]; if (pipe(p)) return "";
  fflush(stdout); fflush(stderr);
  pid_t c = fork();
  if (c == 0) {
    close(p[0]); alarm(30); int dn = open("/dev/null", O_WRONLY); if (!getenv("MC_STDERR")) dup2(dn, 2);
    std::string d; try { d = f.describe(i); } catch (...) {}
    for (size_t k = 0; k < d.size();) { ssize_t n = write(p[1], d.data() + k, d.size() - k); if (n <= 0) break; k += n; }
    _exit(0);
  }
  close(p[1]);
  std::string d; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) d.append(b, n);
  close(p[0]); int st; waitpid(c, &st, 0);
  return d;
}
static std::string jstr(const std::string &s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

int main_(int argc, char **argv, const std::string &property, std::vector<Family> fams, const std::string &rule) {
  (void)guard; alarm(0);
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string stats_path = "stats.json", replay_dir = ".";
  int case_fam = -1; uint64_t case_lo = 0, case_hi = 0;
  std::string only;
  int nworkers = 8;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--stats") stats_path = argv[++i];
    else if (a == "--replay-dir") replay_dir = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "-j") nworkers = atoi(argv[++i]);
    else if (a == "--list") { for (auto &f : fams) printf("%-40s %10llu  %s\n", f.name.c_str(), (unsigned long long)f.count, f.bound.c_str()); return 0; }
    else if (a == "--case") {  // --case family lo [hi]
      std::string n = argv[++i];
      case_lo = strtoull(argv[++i], 0, 10); case_hi = (i + 1 < argc) ? strtoull(argv[++i], 0, 10) : case_lo;
      for (size_t k = 0; k < fams.size(); k++) if (fams[k].name == n) case_fam = k;
      if (case_fam < 0) { fprintf(stderr, "no such family %s\n", n.c_str()); return 2; }
    }
  }
  if (case_fam >= 0) {
    for (uint64_t i = case_lo; i <= case_hi; i++) {
      Ctx c;
      if (i == case_hi) printf("case %s %llu: %s\n", fams[case_fam].name.c_str(), (unsigned long long)i, fams[case_fam].describe ? fams[case_fam].describe(i).c_str() : "");
      if (!run_case(fams[case_fam], i, c)) { printf("FAIL at %llu: %s\n", (unsigned long long)i, c.msg.c_str()); return 1; }
    }
    printf("ok\n");
    return 0;
  }
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 2; }
  double t0 = now();
  struct Chunk { int fam; uint64_t lo, hi; };
  std::vector<Chunk> chunks;
  for (size_t k = 0; k < fams.size(); k++) {
    if (!only.empty() && fams[k].name != only) continue;
    uint64_t cs = fams[k].chunk ? fams[k].chunk : std::max<uint64_t>(1, fams[k].count / (fams[k].limit_s >= 60 ? 512 : 64));
    for (uint64_t lo = 0; lo < fams[k].count; lo += cs) chunks.push_back({(int)k, lo, std::min(fams[k].count, lo + cs)});
  }
  // families of expensive cases first, their largest cases first
  auto slow = [&](const Chunk &c) { return fams[c.fam].limit_s >= 60; };
  auto mid = std::stable_partition(chunks.begin(), chunks.end(), slow);
  std::reverse(chunks.begin(), mid);
  struct Run { pid_t pid; Chunk c; };
  std::map<int, Run> running;  // worker slot -> run
  size_t next = 0;
  std::set<int> freeslots;
  for (int i = 0; i < nworkers; i++) freeslots.insert(i);
  int infra = 0, violations = 0, flaky = 0;
  std::map<int, int> fam_viol;
  // replay before report: alone first, then with the chunk's history
  auto suspect = [&](const Chunk &c, uint64_t idx, const std::string &why) {
    std::string msg; uint64_t at = idx, lo = idx;
    Family &f = fams[c.fam];
    double lim = std::max(60, 3 * f.limit_s);
    int r = isolated(fams, c.fam, idx, idx, lim, msg, at);
    if (!r && c.lo < idx) { lo = c.lo; r = isolated(fams, c.fam, c.lo, idx, std::max(lim, 300.0), msg, at); }
    if (!r) {
      flaky++;
      fprintf(stderr, "note: %s case %llu failed once (%s) but not when replayed\n", f.name.c_str(), (unsigned long long)idx, why.substr(0, 300).c_str());
      if (why == "timeout" || why == "worker crashed") { f.limit_s *= 4; if (flaky < 30) chunks.push_back(c); }  // nothing was counted: explore the chunk again
      else if (idx + 1 < c.hi) chunks.push_back({c.fam, idx + 1, c.hi});
      return;
    }
    std::string d = described(f, at);
    std::string path = replay_dir + "/" + property + "-" + std::to_string(violations) + ".txt";
    FILE *o = fopen(path.c_str(), "w");
    if (o) {
      fprintf(o, "property %s\nfamily %s\ncases %llu..%llu\ncase %s\nobserved %s\nreplay: python3 check.py %s --case '%s' %llu %llu\n", property.c_str(), f.name.c_str(),
              (unsigned long long)lo, (unsigned long long)at, d.c_str(), msg.c_str(), property.c_str(), f.name.c_str(), (unsigned long long)lo, (unsigned long long)at);
      fclose(o);
    }
    printf("FOUND\t%s\t%s\t%llu\t%s\t%s\t%s\n", property.c_str(), f.name.c_str(), (unsigned long long)at, path.c_str(), esc(d).c_str(), esc(msg.substr(0, 1500)).c_str());
    fflush(stdout);
    violations++; fam_viol[c.fam]++;
  };
  int max_viol = getenv("MC_MAX_VIOL") ? atoi(getenv("MC_MAX_VIOL")) : 3;
  while (next < chunks.size() || !running.empty()) {
    while (next < chunks.size() && !freeslots.empty() && violations < max_viol) {
      Chunk c = chunks[next++];
      if (fam_viol[c.fam] >= 1) continue;
      int s = *freeslots.begin(); freeslots.erase(freeslots.begin());
      Slot &sl = sh->slot[s];
      sl.fam = c.fam; sl.idx = c.lo; sl.lo = c.lo; sl.since = now(); sl.msg[0] = 0;
      fflush(stdout); fflush(stderr);
      pid_t p = fork();
      if (p < 0) { perror("fork"); infra = 1; freeslots.insert(s); next = chunks.size(); break; }
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int dn = open("/dev/null", O_WRONLY); if (!getenv("MC_STDERR")) dup2(dn, 2);
        uint64_t tr = 0, im = 0, nt = 0, n = 0;
        for (uint64_t i = c.lo; i < c.hi; i++) {
          sl.idx = i; sl.since = now();
          Ctx x;
          bool ok = run_case(fams[c.fam], i, x);
          n++; tr += x.transitions; im += x.impl_traces; nt += x.nontrivial;
          for (auto h : x.outcomes) add_state(h);
          if (!ok) {
            snprintf(sl.msg, sizeof sl.msg, "%s", x.msg.c_str());
            break;
          }
        }
        bool bad = sl.msg[0];
        sh->cases += n; sh->transitions += tr; sh->traces += im; sh->nontrivial += nt; sh->fam_cases[c.fam] += n; sh->fam_trans[c.fam] += tr;
        _exit(bad ? 41 : 0);
      }
      running[s] = {p, c};
    }
    if (running.empty()) break;
    for (auto it = running.begin(); it != running.end();) {
      int st;
      pid_t r = waitpid(it->second.pid, &st, WNOHANG);
      Slot &sl = sh->slot[it->first];
      std::string why;
      bool done = false;
      if (r == it->second.pid) {
        done = true;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {}
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) why = sl.msg;
        else why = "worker crashed";
      } else if (now() - sl.since > fams[it->second.c.fam].limit_s) {
        kill(it->second.pid, SIGKILL); waitpid(it->second.pid, &st, 0);
        done = true; why = "timeout";
      }
      Chunk c = it->second.c; uint64_t idx = sl.idx;
      if (done) { freeslots.insert(it->first); it = running.erase(it); }
      else ++it;
      if (!why.empty() && violations < max_viol && fam_viol[c.fam] < 1) suspect(c, idx, why);
    }
    usleep(500);
  }
  // statistics
  FILE *o = fopen(stats_path.c_str(), "w");
  if (!o) { perror("stats"); return 2; }
  fprintf(o, "{\"property\":%s,\"cases\":%llu,\"transitions\":%llu,\"traces\":%llu,\"nontrivial\":%llu,\"states\":%llu,\"states_table_full\":%llu,\"violations\":%d,\"unreproduced\":%d,\"wall_s\":%.2f,\"rule\":%s,\"families\":[",
          jstr(property).c_str(), (unsigned long long)sh->cases, (unsigned long long)sh->transitions, (unsigned long long)sh->traces,
          (unsigned long long)sh->nontrivial, (unsigned long long)sh->states, (unsigned long long)sh->full, violations, flaky, now() - t0, jstr(rule).c_str());
  bool first = true;
  for (size_t k = 0; k < fams.size(); k++) {
    if (!only.empty() && fams[k].name != only) continue;
    fprintf(o, "%s{\"name\":%s,\"size\":%llu,\"explored\":%llu,\"transitions\":%llu,\"bound\":%s}", first ? "" : ",", jstr(fams[k].name).c_str(),
            (unsigned long long)fams[k].count, (unsigned long long)sh->fam_cases[k], (unsigned long long)sh->fam_trans[k], jstr(fams[k].bound).c_str());
    first = false;
  }
  fprintf(o, "],\"samples\":[");
  first = true;
  for (size_t k = 0; k < fams.size(); k++) {
    if (!only.empty() && fams[k].name != only) continue;
    if (!fams[k].count || !fams[k].describe) continue;
    uint64_t i = fams[k].count * 2 / 3;
    std::string d = described(fams[k], i);
    fprintf(o, "%s%s", first ? "" : ",", jstr(fams[k].name + "[" + std::to_string(i) + "]: " + d.substr(0, 600)).c_str());
    first = false;
  }
  fprintf(o, "]}\n");
  fclose(o);
  if (violations) return 1;
  if (infra) return 2;
  return 0;
}
}  // namespace mc
