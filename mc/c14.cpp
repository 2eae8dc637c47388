// C14: results do not depend on the process environment.
#include <ctype.h>
#include <locale.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unicode/locid.h>
#include <unistd.h>
#include <wchar.h>
#include <wctype.h>

#include <array>
#include <locale>
#include <thread>
#include "fam.h"
using namespace ref;

// ---- a C library whose classification of non-ASCII characters is not the usual one (linked with --wrap) ----
static int hostile = 0;
#define CLS(f, T) extern "C" int __real_##f(T); extern "C" int __wrap_##f(T c) { if (hostile && (long)c > 127) return hostile == 1 ? !__real_##f(c) : hostile == 2; return __real_##f(c); }
#define MAP(f, T) extern "C" T __real_##f(T); extern "C" T __wrap_##f(T c) { if (hostile && (long)c > 127) return hostile == 1 ? c ^ 1 : hostile == 2 ? (T)'a' : c; if (hostile && c == 'I') return (T)0x131; if (hostile && c == 'i') return (T)0x130; return __real_##f(c); }
CLS(iswalpha, wint_t) CLS(iswalnum, wint_t) CLS(iswspace, wint_t) CLS(iswpunct, wint_t) CLS(iswupper, wint_t) CLS(iswlower, wint_t) CLS(iswcntrl, wint_t) CLS(iswprint, wint_t) CLS(iswgraph, wint_t) CLS(iswblank, wint_t)
CLS(isalpha, int) CLS(isalnum, int) CLS(isspace, int) CLS(ispunct, int) CLS(isupper, int) CLS(islower, int) CLS(iscntrl, int) CLS(isprint, int) CLS(isgraph, int) CLS(isblank, int)
MAP(towlower, wint_t) MAP(towupper, wint_t) MAP(tolower, int) MAP(toupper, int)

// ---- an environment that answers every question (only calls made from the library and the checker are wrapped) ----
static const char *answer = nullptr; static bool asked_env = false;
extern "C" char *__real_getenv(const char *); extern "C" char *__wrap_getenv(const char *n) { return asked_env ? const_cast<char *>(answer) : __real_getenv(n); }
extern "C" char *__real_secure_getenv(const char *); extern "C" char *__wrap_secure_getenv(const char *n) { return asked_env ? const_cast<char *>(answer) : __real_secure_getenv(n); }
static int clk = 0; static int64_t ticks = 0;   // 1: 1970, 2: 2106, 3: an hour passes between any two looks, 4: stands still, 5: runs backwards
static int64_t nanos(int64_t real) { ticks++; switch (clk) { case 1: return ticks; case 2: return 4300000000ll * 1000000000 + ticks; case 3: return 1700000000ll * 1000000000 + ticks * 3600ll * 1000000000; case 4: return 1700000000ll * 1000000000; case 5: return 1700000000ll * 1000000000 - ticks * 1000000; } return real; }
extern "C" time_t __real_time(time_t *); extern "C" time_t __wrap_time(time_t *t) { time_t r = __real_time(nullptr); if (clk) r = nanos(0) / 1000000000; if (t) *t = r; return r; }
extern "C" clock_t __real_clock(); extern "C" clock_t __wrap_clock() { return clk ? nanos(0) / 1000 : __real_clock(); }
extern "C" int __real_clock_gettime(clockid_t, timespec *); extern "C" int __wrap_clock_gettime(clockid_t c, timespec *t) { int r = __real_clock_gettime(c, t); if (clk) { int64_t n = nanos(0); t->tv_sec = n / 1000000000; t->tv_nsec = (n % 1000000000 + 1000000000) % 1000000000; } return r; }
extern "C" int __real_gettimeofday(timeval *, void *); extern "C" int __wrap_gettimeofday(timeval *t, void *z) { int r = __real_gettimeofday(t, z); if (clk) { int64_t n = nanos(0); t->tv_sec = n / 1000000000; t->tv_usec = 0; } return r; }
extern "C" int64_t __real__ZNSt6chrono3_V212system_clock3nowEv(); extern "C" int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return nanos(__real__ZNSt6chrono3_V212system_clock3nowEv()); }
extern "C" int64_t __real__ZNSt6chrono3_V212steady_clock3nowEv(); extern "C" int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return nanos(__real__ZNSt6chrono3_V212steady_clock3nowEv()); }
static long machine = -1;   // number of processors, size of pages and so on, process number
extern "C" unsigned __real__ZNSt6thread20hardware_concurrencyEv(); extern "C" unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return machine >= 0 ? machine : __real__ZNSt6thread20hardware_concurrencyEv(); }
extern "C" long __real_sysconf(int); extern "C" long __wrap_sysconf(int n) { return machine >= 0 ? machine : __real_sysconf(n); }
extern "C" pid_t __real_getpid(); extern "C" pid_t __wrap_getpid() { return machine >= 0 ? machine + 1 : __real_getpid(); }
extern "C" int __real_isatty(int); extern "C" int __wrap_isatty(int f) { return machine >= 0 ? machine & 1 : __real_isatty(f); }

struct NumP : std::numpunct<char> { char do_decimal_point() const override { return ';'; } char do_thousands_sep() const override { return '!'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "ja"; } std::string do_falsename() const override { return "nein"; } };
struct NumW : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L';'; } wchar_t do_thousands_sep() const override { return L'!'; } std::string do_grouping() const override { return "\1"; } };
struct Ct : std::ctype<wchar_t> {
  bool do_is(mask m, char_type c) const override { return c > 127 ? !std::ctype<wchar_t>::do_is(m, c) : std::ctype<wchar_t>::do_is(m, c); }
  char_type do_tolower(char_type c) const override { return c == L'I' ? 0x131 : c > 127 ? c ^ 1 : std::ctype<wchar_t>::do_tolower(c); }
  const char_type *do_tolower(char_type *l, const char_type *h) const override { for (; l < h; l++) *l = do_tolower(*l); return h; }
  char_type do_toupper(char_type c) const override { return c == L'i' ? 0x130 : c > 127 ? c ^ 1 : std::ctype<wchar_t>::do_toupper(c); }
  const char_type *do_toupper(char_type *l, const char_type *h) const override { for (; l < h; l++) *l = do_toupper(*l); return h; }
};
struct Cv : std::codecvt<wchar_t, char, mbstate_t> {
  result do_out(mbstate_t &, const wchar_t *f, const wchar_t *fe, const wchar_t *&fn, char *t, char *te, char *&tn) const override { for (fn = f, tn = t; fn < fe && tn < te; fn++, tn++) *tn = '?'; return fn == fe ? ok : partial; }
  result do_in(mbstate_t &, const char *f, const char *fe, const char *&fn, wchar_t *t, wchar_t *te, wchar_t *&tn) const override { for (fn = f, tn = t; fn < fe && tn < te; fn++, tn++) *tn = L'?'; return fn == fe ? ok : partial; }
};
static std::string work() { return getenv("MC_WORK") ? getenv("MC_WORK") : "/tmp"; }
struct Env { std::string name; std::function<bool()> enter; bool late; bool thread; };   // late: entered between construction and use
static std::vector<Env> envs() {
  std::vector<Env> v;
  auto loc = [](std::string n) { return [n] { setenv("LOCPATH", (work() + "/loc").c_str(), 1); return setlocale(LC_ALL, n.c_str()) != nullptr; }; };
  for (const char *n : {"C.UTF-8", "tr_TR.UTF-8", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "lt_LT.UTF-8", "az_AZ.UTF-8", "ja_JP.EUC-JP", "hi_IN.UTF-8", "fa_IR.UTF-8"}) for (int late = 0; late < 2; late++) {
    std::string s = n; auto f = s == "C.UTF-8" ? std::function<bool()>([s] { return setlocale(LC_ALL, s.c_str()) != nullptr; }) : std::function<bool()>(loc(s));
    v.push_back({"setlocale(" + s + ")" + (late ? " after construction" : ""), f, (bool)late, false});
  }
  v.push_back({"environment variables LC_ALL=tr_TR.UTF-8", [] { setenv("LOCPATH", (work() + "/loc").c_str(), 1); for (const char *k : {"LC_ALL", "LANG", "LC_CTYPE", "LC_NUMERIC", "LANGUAGE"}) setenv(k, "tr_TR.UTF-8", 1); setenv("TZ", "Asia/Tokyo", 1); return true; }, false, false});
  v.push_back({"std::locale::global(tr_TR.UTF-8)", [] { setenv("LOCPATH", (work() + "/loc").c_str(), 1); try { std::locale::global(std::locale("tr_TR.UTF-8")); } catch (...) { return false; } return true; }, false, false});
  v.push_back({"std::locale::global(de_DE.ISO-8859-1) after construction", [] { setenv("LOCPATH", (work() + "/loc").c_str(), 1); try { std::locale::global(std::locale("de_DE.ISO-8859-1")); } catch (...) { return false; } return true; }, true, false});
  auto fac = [] { std::locale::global(std::locale(std::locale(std::locale(std::locale(std::locale::classic(), new NumP), new NumW), new Ct), new Cv)); return true; };
  v.push_back({"custom C++ facets", fac, false, false}); v.push_back({"custom C++ facets after construction", fac, true, false});
  for (int h = 1; h <= 3; h++) for (int late = 0; late < 2; late++) v.push_back({"C character classification " + std::to_string(h) + (late ? " after construction" : ""), [h] { hostile = h; return true; }, (bool)late, false});
  for (const char *n : {"tr", "lt", "az", "de", "el"}) v.push_back({std::string("ICU default locale ") + n, [n] { UErrorCode e = U_ZERO_ERROR; icu::Locale::setDefault(icu::Locale(n), e); return U_SUCCESS(e); }, false, false});
  for (const char *a : {"", "0", "1", "2", "10", "true", "false", "off", "C", "tr_TR.UTF-8", "/"}) for (int late = 0; late < 2; late++) v.push_back({std::string("every variable set to '") + a + "'" + (late ? " after construction" : ""), [a] { asked_env = true; answer = a; return true; }, (bool)late, false});
  v.push_back({"no variable set", [] { asked_env = true; answer = nullptr; clearenv(); return true; }, false, false});
  for (int k = 1; k < 6; k++) v.push_back({"clock " + std::to_string(k), [k] { clk = k; return true; }, k % 2 == 0, false});
  for (long k : {0L, 1L, 64L, 1L << 20}) v.push_back({"machine with " + std::to_string(k) + " of everything", [k] { machine = k; return true; }, k == 64, false});
  v.push_back({"another directory", [] { return chdir("/") == 0; }, false, false});
  v.push_back({"a removed directory", [] { std::string d = work() + "/gone" + std::to_string(getpid()); return mkdir(d.c_str(), 0700) == 0 && chdir(d.c_str()) == 0 && rmdir(d.c_str()) == 0; }, true, false});
  v.push_back({"another thread", [] { return true; }, true, true});
  v.push_back({"another thread with a thread locale", [] { setenv("LOCPATH", (work() + "/loc").c_str(), 1); locale_t l = newlocale(LC_ALL_MASK, "tr_TR.UTF-8", (locale_t)0); if (!l) return false; uselocale(l); return true; }, true, true});
  v.push_back({"other tokenizers used before", [] { for (auto &n : cfgs::all()) { auto t = impl::make(n.c); for (auto &a : n.atoms) { auto e = impl::encode(*t, a, true); impl::decode(*t, e.enc.ids, false); } } return true; }, false, false});
  return v;
}
struct Sys { std::string name; Cfg c; };
static std::vector<Sys> &systems() {
  static std::vector<Sys> v;
  if (!v.empty()) return v;
  using namespace cfgs;
  for (auto &n : all()) if (n.name != "nothing" && n.name != "roberta-left-trunc-pad") v.push_back({n.name, n.c});
  auto A = [&](const std::string &n, const Norm &no, const Pre &p, const Dec &d) { Cfg c; c.norm = no; c.pre = p; c.mod = m_bpe_bytes(); c.mod.unk = "a"; c.dec = d; Added t; t.content = "<N>"; t.norm = true; t.single = true; t.l = t.r = true; t.id = 0; c.added = {t}; Ref r(c); c.added[0].id = *r.id_of("<N>"); v.push_back({n, c}); };
  A("lower/bert", n_bert(false, false, false, true), p_bert(), d_("Fuse"));
  A("clean/ws", n_bert(true, true, true, false), p_split("ws", "Removed", false), d_("ByteFallback"));
  A("strip/digits", n_seq({n_strip(true, true), n_("NFKC"), n_("StripAccents")}), p_split("digits", "Isolated", false), d_wordpiece());
  A("byte", n_("NFD"), p_byte(true, true), d_byte());
  { Cfg c = gpt2(); c.mod.dropout = 1.0; v.push_back({"dropout=1.0", c}); }
  { Cfg c = gpt2(); c.mod.dropout = 0.9999999999; v.push_back({"dropout a fraction that rounds to one", c}); }   // no random outcome, but a fraction in the file
  { Cfg c = gpt2(); c.mod.dropout = 0.0000004; v.push_back({"no dropout", c}); }
  return v;
}
static std::vector<std::vector<U>> &blocks_() {
  static std::vector<std::vector<U>> v;
  if (!v.empty()) return v;
  std::vector<U> xs; for (auto &n : cfgs::all()) for (auto &a : n.atoms) xs.push_back(a); for (auto &t : cfgs::texts()) xs.push_back(t);
  for (auto &n : cfgs::all()) { xs.push_back(n.alphabet); for (char32_t a : n.alphabet) for (char32_t b : n.alphabet) xs.push_back({a, b}); }
  v.push_back(xs);
  U cur; std::vector<U> blk; auto cps = fam::sweep(mc::thorough()); if (!mc::thorough()) { std::vector<char32_t> k; for (char32_t c : cps) if (c < 0x600 || is_white(c) || is_punct(c) || (c < 0x3400 ? c % 2 == 1 : c % 16 == 1) || (c >= 0x1E00 && c < 0x2200)) k.push_back(c); cps = k; }
  for (size_t i = 0; i < cps.size(); i++) { char32_t c = cps[i]; cur += {U'x', c, U'I', U' ', c, U'.', c, c, U' '}; if (i % 16 == 15 || i + 1 == cps.size()) { blk.push_back(U(1, c) + cur + U(1, c)); cur.clear(); if (blk.size() == (mc::thorough() ? 2000 : 900)) { v.push_back(blk); blk.clear(); } } }
  if (!blk.empty()) v.push_back(blk);
  return v;
}
static std::string observe(Tokenizer &t, const U &u) {
  auto e = impl::encode(t, u, true); if (e.threw) return "threw";
  auto d = impl::decode(t, e.enc.ids, false); return show(e.enc) + " -> " + (d.threw ? "threw" : d.text);
}
// one fresh process: enter the environment, build, use; report a hash per text and optionally one observation in full
static std::vector<uint64_t> child(const Cfg &c, const std::vector<U> &xs, const Env *e, int full, std::string &text, bool &entered) {
  int fd[2]; if (pipe(fd)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    close(fd[0]);
    FILE *out = fdopen(fd[1], "w"); std::string js = json(c); bool ok = true;
    if (e && !e->late) ok = e->enter();
    auto t = impl::make_json(js);
    auto use = [&] {
      if (e && e->late) ok = e->enter();
      fwrite(&ok, 1, 1, out);
      for (size_t i = 0; i < xs.size(); i++) { if (full >= 0 && full != (int)i) continue; std::string s = observe(*t, xs[i]); uint64_t h = mc::hash_str(s); fwrite(&h, 8, 1, out); if (full >= 0) fwrite(s.data(), 1, s.size(), out); }
    };
    if (e && e->thread) std::thread(use).join(); else use();
    fclose(out);
    _exit(0);
  }
  close(fd[1]);
  std::string r; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n); close(fd[0]);
  int st; waitpid(pid, &st, 0);
  std::vector<uint64_t> v; entered = !r.empty() && r[0];
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { text = "crashed"; return v; }
  if (full >= 0) { if (r.size() > 9) text = r.substr(9); return v; }
  for (size_t i = 1; i + 8 <= r.size(); i += 8) { uint64_t h; memcpy(&h, r.data() + i, 8); v.push_back(h); }
  return v;
}
int main(int argc, char **argv) {
  if (!getenv("MC_WORK")) setenv("MC_WORK", "/tmp/c14work", 1);
  mkdir((work() + "/loc").c_str(), 0700);
  {  // real locales, compiled into the scratch directory
    static const char *L[][2] = {{"tr_TR", "UTF-8"}, {"de_DE", "UTF-8"}, {"tr_TR", "ISO-8859-9"}, {"de_DE", "ISO-8859-1"}, {"lt_LT", "UTF-8"}, {"az_AZ", "UTF-8"}, {"ja_JP", "EUC-JP"}, {"hi_IN", "UTF-8"}, {"fa_IR", "UTF-8"}};
    std::string cmd; for (auto &l : L) cmd += std::string("localedef --no-warnings=ascii -c -f ") + l[1] + " -i " + l[0] + " '" + work() + "/loc/" + l[0] + "." + l[1] + "' >/dev/null 2>&1 & ";
    int z = system((cmd + "wait").c_str()); (void)z;
  }
  std::vector<mc::Family> f;
  static auto E = envs();
  static auto &S = systems(); static auto &B = blocks_();
  // which environments exist here (asked in a child, so that this process stays untouched)
  std::string missing; { std::vector<Env> ok; for (auto &e : E) { pid_t p = fork(); if (p == 0) _exit(e.thread ? 0 : e.enter() ? 0 : 7); int st; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 7) missing += " [" + e.name + "]"; else ok.push_back(e); } E = ok; }
  static std::vector<std::array<int, 3>> it;
  for (int s = 0; s < (int)S.size(); s++) for (int b = 0; b < (int)B.size(); b++) for (int e = 0; e < (int)E.size(); e++) if (mc::thorough() || b == 0 || S[s].name.find('/') != std::string::npos || S[s].name == "byte" || S[s].name == "bert-lower") it.push_back({s, b, e});
  std::string names; for (auto &e : E) names += (names.empty() ? "" : "; ") + e.name;
  mc::Family a; a.name = "environments"; a.count = it.size(); a.chunk = E.size(); a.limit_s = 60;
  a.bound = std::to_string(E.size()) + " environments (" + names + ") x " + std::to_string(S.size()) + " configurations x all texts of " + std::to_string(B.size()) + " blocks (every swept Unicode scalar value in context; pairs of letters; fragments), each in a process of its own" + (missing.empty() ? "" : "; not available here:" + missing);
  a.run = [=](uint64_t i, mc::Ctx &x) {
    auto &v = it[i]; auto &xs = B[v[1]]; auto &c = S[v[0]].c; std::string s; bool in;
    static std::map<std::pair<int, int>, std::vector<uint64_t>> base; auto &w = base[{(int)v[0], (int)v[1]}];
    if (w.empty()) { w = child(c, xs, nullptr, -1, s, in); if (w.size() != xs.size()) { x.fail("baseline " + s); base.clear(); return; } for (auto h : w) x.outcomes.push_back(h); }
    auto g = child(c, xs, &E[v[2]], -1, s, in);
    x.impl_traces += xs.size(); x.transitions += 2 * xs.size(); x.nontrivial += xs.size();
    if (g.size() != xs.size()) { x.fail("in environment " + E[v[2]].name + ": " + (s.empty() ? "no result" : s)); return; }
    if (!in) { x.fail("MODEL: could not enter " + E[v[2]].name); return; }
    for (size_t k = 0; k < xs.size(); k++) if (g[k] != w[k]) { std::string p, q; child(c, xs, nullptr, k, p, in); child(c, xs, &E[v[2]], k, q, in); x.fail("text '" + mc::esc(xs[k]) + "' in environment " + E[v[2]].name + ": " + q.substr(0, 900) + "\n  in the plain environment: " + p.substr(0, 900)); return; }
  };
  a.describe = [=](uint64_t i) { auto &v = it[i]; return "configuration " + S[v[0]].name + ", environment " + E[v[2]].name + ", text block " + std::to_string(v[1]); };
  f.push_back(a);
  return mc::main_(argc, argv, "C14", f, "every compared observation");
}
