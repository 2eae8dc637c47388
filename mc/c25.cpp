// C25: the run example prints exactly what the library returns (the real program, run on every case).
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "scale.h"
#include "fam.h"
using namespace ref;

static std::string work() { const char *w = getenv("MC_WORK"); return w ? w : "."; }
struct Dir { std::string name, path, arg; Cfg c; };
static std::vector<Dir> D;
static std::string quoted(const std::string &s) { return s == "'" ? "\"'\"" : "'" + s + "'"; }
template <class V, class F> static std::string list(const V &v, F f) { std::string r = "["; bool first = true; for (auto &e : v) { if (!first) r += ", "; first = false; r += f(e); } return r + "]\n"; }
static std::string expected(Tokenizer &t, const U &u) {
  Encoding e = t.encode(toW(u), true);
  auto num = [](int i) { return std::to_string(i); };
  std::string r = "Encoding: " + to8(u) + "\n";
  r += "ids: " + list(e.ids, num) + "type_ids: " + list(e.type_ids, num) + "tokens: " + list(e.tokens, quoted);
  r += "words: " + list(e.words, [](const std::optional<int> &w) { return w ? std::to_string(*w) : std::string("None"); });
  r += "offsets: " + list(e.offsets, [](const std::pair<int, int> &o) { return "(" + std::to_string(o.first) + ", " + std::to_string(o.second) + ")"; });
  r += "attention_mask: " + list(e.attention_mask, num);
  r += "Decoding: " + list(e.ids, num) + "tokens: " + t.decode(e.ids, true) + "\n";
  return r;
}
static std::string run(const std::string &dir, const std::string &text, const std::vector<std::string> &env, int &status) {
  int p[2]; if (pipe(p)) return "pipe";
  posix_spawn_file_actions_t a; posix_spawn_file_actions_init(&a);
  posix_spawn_file_actions_addopen(&a, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_adddup2(&a, p[1], 1); posix_spawn_file_actions_addopen(&a, 2, "/dev/null", O_WRONLY, 0);
  posix_spawn_file_actions_addclose(&a, p[0]); posix_spawn_file_actions_addclose(&a, p[1]);
  std::string exe = work() + "/run_example";
  char *av[] = {(char *)"run", (char *)dir.c_str(), (char *)text.c_str(), nullptr};
  std::vector<char *> ev; for (auto &e : env) ev.push_back((char *)e.c_str()); ev.push_back(nullptr);
  pid_t pid; int e = posix_spawn(&pid, exe.c_str(), &a, nullptr, av, ev.data());
  posix_spawn_file_actions_destroy(&a); close(p[1]);
  std::string r; char b[65536]; ssize_t n;
  if (!e) while ((n = read(p[0], b, sizeof b)) > 0) r.append(b, n);
  close(p[0]);
  if (e) { status = -1; return "spawn failed"; }
  waitpid(pid, &status, 0);
  return r;
}
static std::string one(int d, const U &u, const std::vector<std::string> &env, mc::Ctx &x) {
  static std::map<int, std::unique_ptr<Tokenizer>> live; auto &t = live[d]; if (!t) t = impl::make(D[d].c);
  std::string w = expected(*t, u); int st = 0;
  std::string g = run(D[d].arg, to8(u), env, st);
  x.impl_traces++; x.transitions += 9; x.nontrivial += !u.empty(); x.state(w);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) return "the program ended with status " + std::to_string(st) + " after printing '" + mc::esc(g.substr(0, 800)) + "'";
  if (g == w) return "";
  size_t k = 0; while (k < std::min(g.size(), w.size()) && g[k] == w[k]) k++;
  size_t l = w.rfind('\n', k ? k - 1 : 0); l = l == std::string::npos ? 0 : l + 1;
  return "printed\n  '" + mc::esc(g.substr(std::min(l, g.size()), 400)) + "'\n instead of\n  '" + mc::esc(w.substr(l, 400)) + "'";
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static const std::vector<std::string> PLAIN = {"PATH=/usr/bin", "ASAN_OPTIONS=detect_leaks=0", "LC_ALL=C"};
  static std::vector<std::string> odd = {"plain", "with space", "d\xC3\xA9j\xC3\xA0", "--flag", "a.b"};
  int n = 0;
  auto all = cfgs::all();
  { Cfg c = cfgs::bare(); c.mod.vocab.push_back({"'", 77777}); c.mod.vocab.push_back({"''", 1 << 30}); c.mod.vocab.push_back({"\"", 99999}); all.push_back({"quotes", c, U"ab'\" ", {U"'", U"''", U"ab"}}); }
  const int complete = all.size();
  for (auto &c : cfgs::variants()) all.push_back(c);
  for (auto &c : all) {
    std::string p = work() + "/cfg/" + odd[n % odd.size()] + std::to_string(n); mkdir((work() + "/cfg").c_str(), 0755); mkdir(p.c_str(), 0755);
    FILE *o = fopen((p + "/tokenizer.json").c_str(), "w"); std::string j = json(c.c); fwrite(j.data(), 1, j.size(), o); fclose(o);
    D.push_back({c.name, p, n % 3 == 2 ? p + "/" : p, c.c}); n++;
  }
  struct It { int d; U u; };
  static std::vector<It> it;
  static std::vector<int> small;
  std::vector<U> X = cfgs::texts();
  U lng; for (int k = 0; k < (T ? 3000 : 400); k++) lng += U"ab é" + U(1, U'a' + k % 26) + U" ";
  X.push_back(lng); X.push_back(U"a\nb\n"); X.push_back(U"'"); X.push_back(U"''"); X.push_back(U"\""); X.push_back(U"None"); X.push_back(U"]"); X.push_back(U"%s%n"); X.push_back(U"-h"); X.push_back(U"\U0010FFFF\uFFFD\u200E");
  static std::vector<It> vt;
  std::vector<U> Z = {U"", U" ab e\u0301 AB中a12 b\u00A0 ", U"abab,aa bé ab1\U0001F600", U"zzzzzzzzzzzz ab", U"'", U"ab\tb1 \n\u200D"};
  for (int d = complete; d < (int)D.size(); d++) for (auto &u : Z) vt.push_back({d, u});
  f.push_back(fam::blocks("variants", vt.size(), 8, [](uint64_t i, mc::Ctx &x) { return one(vt[i].d, vt[i].u, PLAIN, x); },
                          [](uint64_t i) { return "configuration " + D[vt[i].d].name + ", argument '" + mc::esc(vt[i].u.substr(0, 200)) + "'"; },
                          "the program run on " + std::to_string(Z.size()) + " texts for each of " + std::to_string(D.size() - complete) + " configurations that differ in one parameter of one component", 60));
  for (int d = 0; d < complete; d++) {
    for (auto u : X) { u.erase(std::remove(u.begin(), u.end(), U'\0'), u.end()); it.push_back({d, u}); }
    U al; for (char32_t c : all[d].alphabet + U"'") if (c && al.size() < (T ? 10u : 7u) && al.find(c) == U::npos) al += c; if (al.find(U'\'') == U::npos) al.back() = U'\'';
    for (uint64_t i = 1; i < mc::n_strings(al.size(), 3); i++) it.push_back({d, cfgs::letters(al, i)});
    for (uint64_t i = 1; i < mc::n_strings(all[d].atoms.size(), T ? 3 : 2); i++) it.push_back({d, cfgs::concat(all[d].atoms, i)});
  }
  f.push_back(fam::blocks("texts", it.size(), 16, [](uint64_t i, mc::Ctx &x) { return one(it[i].d, it[i].u, PLAIN, x); },
                          [](uint64_t i) { return "configuration " + D[it[i].d].name + ", argument '" + mc::esc(it[i].u.substr(0, 200)) + "'"; },
                          "the program run on " + std::to_string(X.size()) + " texts, all strings of at most 3 letters and all concatenations of at most " + std::string(T ? "3" : "2") + " atoms, for each of " + std::to_string(complete) + " configuration directories", 60));
  {  // long arguments (an argument can have 128 KiB)
    static std::vector<int> len; for (int n : scale::ladder(65537)) if (n > 9) len.push_back(n);
    static std::vector<int> cs; for (int d = 0; d < complete; d++) if (all[d].c.mod.dropout == 0 && (T || d % 3 == 0 || all[d].name == "gpt2" || all[d].name.find("trunc") != std::string::npos)) cs.push_back(d);
    static std::vector<cfgs::Named> nm; nm = all;
    static auto text = [](uint64_t i) { int n = len[i / 2 % len.size()]; U u = scale::kind_text(i % 2 ? 2 : 0, n, nm[cs[i / 2 / len.size()]]); u.erase(std::remove(u.begin(), u.end(), U'\0'), u.end()); while (to8(u).size() > 130000) u.resize(u.size() * 2 / 3); if (nm[cs[i / 2 / len.size()]].c.pre.type.empty() && u.size() > 20001) u.resize(20001); return u; };
    f.push_back(fam::blocks("long-texts", cs.size() * len.size() * 2, 4, [](uint64_t i, mc::Ctx &x) { return one(cs[i / 2 / len.size()], text(i), PLAIN, x); },
                            [](uint64_t i) { return "configuration " + D[cs[i / 2 / len.size()]].name + ", an argument of " + std::to_string(text(i).size()) + " characters"; }, std::to_string(cs.size()) + " configurations x two kinds of text x every length of the ladder up to " + std::to_string(len.back()), 60));
  }
  {
    static std::vector<std::vector<std::string>> E = {{"ASAN_OPTIONS=detect_leaks=0"}, {"ASAN_OPTIONS=detect_leaks=0", "LC_ALL=C.UTF-8", "LANG=C.UTF-8"}, {"ASAN_OPTIONS=detect_leaks=0", "LC_ALL=tr_TR.UTF-8", "LANGUAGE=tr"}, {"ASAN_OPTIONS=detect_leaks=0", "LC_NUMERIC=de_DE.UTF-8", "TZ=Asia/Kolkata", "HOME=/nonexistent"}};
    static std::vector<U> Y = {U"", U"ab é 中 a", U"I İ ı 1234", U"[MASK] <n> ab"};
    mc::Mix mix{{(uint64_t)complete, E.size(), Y.size()}};
    f.push_back(fam::blocks("environments", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) { auto v = mix.at(i); return one(v[0], Y[v[2]], E[v[1]], x); },
                            [=](uint64_t i) { auto v = mix.at(i); return "configuration " + D[v[0]].name + ", environment " + std::to_string(v[1]) + ", argument '" + mc::esc(Y[v[2]]) + "'"; }, "directories x 4 environments x 4 texts", 60));
  }
  return mc::main_(argc, argv, "C25", f, "non-empty text");
}
