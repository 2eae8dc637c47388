// C29: a tokenizer gives back all memory it took, and repeating a call keeps nothing.
#include <dirent.h>
#include <malloc.h>
#include <sys/stat.h>

#include <cerrno>
#include <cstring>

#include "fam.h"
using namespace ref;

// ---- every allocation of the process, the C++ library's and ICU's included ----
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static long live_blocks, live_bytes;
static inline void in(void *p) { if (p) { live_blocks++; live_bytes += malloc_usable_size(p); } }
static inline void out(void *p) { if (p) { live_blocks--; live_bytes -= malloc_usable_size(p); } }
void *malloc(size_t n) { void *p = __libc_malloc(n); in(p); return p; }
void free(void *p) { out(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); in(p); return p; }
void *realloc(void *p, size_t n) { out(p); void *q = __libc_realloc(p, n); if (!q && n) in(p); else in(q); return q; }
void *memalign(size_t a, size_t n) { void *p = __libc_memalign(a, n); in(p); return p; }
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
}
struct Mem { long blocks, bytes, files; bool operator==(const Mem &o) const { return blocks == o.blocks && bytes == o.bytes && files == o.files; } };
static long open_files() { long n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
static Mem mem(bool files = false) { long f = files ? open_files() : 0; return {live_blocks, live_bytes, f}; }
static std::string diff(const Mem &a, const Mem &b) { return std::to_string(b.blocks - a.blocks) + " blocks, " + std::to_string(b.bytes - a.bytes) + " bytes, " + std::to_string(b.files - a.files) + " open files"; }

// strings the checker hands to the library are made beforehand
struct Op { std::string name; char kind; std::wstring w; std::vector<int> ids; bool flag; std::vector<AddedToken> add; };
static void apply(Tokenizer &t, const Op &o) {
  try {
    if (o.kind == 'e') { Encoding e = t.encode(o.w, o.flag); }
    else if (o.kind == 'd') { std::string s = t.decode(o.ids, o.flag); }
    else if (o.kind == 'a') t.add_tokens(o.add);
    else t.add_special_tokens(o.add);
  } catch (const std::exception &) {}
}
struct S { std::string name, js; std::vector<std::string> bad; std::string dir; };
static std::vector<S> &systems() {
  static std::vector<S> v;
  if (!v.empty()) return v;
  std::vector<cfgs::Named> all = cfgs::all(); for (auto &n : cfgs::variants()) all.push_back(n);
  const char *wk = getenv("MC_WORK"); std::string base = std::string(wk ? wk : ".") + "/c29"; mkdir(base.c_str(), 0755);
  for (auto &n : all) {
    S s; s.name = n.name; s.js = json(n.c);
    s.dir = base + "/" + std::to_string(v.size()); mkdir(s.dir.c_str(), 0755);
    FILE *o = fopen((s.dir + "/tokenizer.json").c_str(), "w"); fwrite(s.js.data(), 1, s.js.size(), o); fclose(o);
    v.push_back(s);
  }
  return v;
}
static std::vector<Op> &ops() {
  static std::vector<Op> r;
  if (r.empty()) {
    auto E = [&](const U &u, bool f) { r.push_back({"encode('" + mc::esc(u) + "')", 'e', toW(u), {}, f, {}}); };
    auto D = [&](std::vector<int> i, bool f) { r.push_back({"decode(" + impl::ints(i) + ")", 'd', L"", i, f, {}}); };
    auto A = [&](const std::string &c, bool norm, bool sp) { Added a; a.content = c; a.norm = norm; r.push_back({(sp ? "add_special_tokens('" : "add_tokens('") + c + "')", sp ? 's' : 'a', L"", {}, false, impl::added({a})}); };
    E(U"ab e\u0301 AB中a12 b\u00A0 [MASK] <n> 's \U0001F600", true); E(U"abab,aa bé ab1", false); E(U"", true);
    r.push_back({"encode(invalid text)", 'e', std::wstring(L"ab ") + (wchar_t)0xD800 + (wchar_t)0x110000, {}, true, {}});
    D({3, 4, 5, 6, 7, 259, 260, 261, 0, -1, 1000000}, false); D({5, 6, 7, 2, 3}, true);
    A("b1", true, false); A("\xC3\xA9", false, true); A("ab", true, true);
  }
  return r;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static auto &Y = systems(); static auto &O = ops();
  static int whole = cfgs::all().size();
  // one life: construction, a history, destruction
  static auto life = [](const S &s, const std::vector<int> &h, bool file) { Tokenizer t(file ? s.dir : "", file ? "" : s.js); for (int o : h) apply(t, O[o]); };
  auto lives = [&](const std::string &name, int from, int to, int L) {
    uint64_t n = mc::n_strings(O.size(), L);
    f.push_back(fam::blocks(name, (to - from) * n, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &s = Y[from + i / n]; auto h = mc::nth_string(O.size(), i % n); bool file = i % 5 == 0;
      life(s, h, file);   // whatever the C++ library, ICU and simdjson set up once is now there
      Mem a = mem(true); life(s, h, file); Mem b = mem(true);
      if (!(a == b)) { life(s, h, file); Mem c = mem(true); if (!(c == b)) return "a life of the tokenizer leaves behind " + diff(a, b) + ", another one " + diff(b, c); }
      x.impl_traces++; x.transitions += h.size() + 2; x.nontrivial += !h.empty(); x.state(std::to_string(i));
      return "";
    }, [=](uint64_t i) { std::string r = "configuration " + Y[from + i / n].name + (i % 5 == 0 ? " from a file" : "") + ": "; for (int o : mc::nth_string(O.size(), i % n)) r += O[o].name + "; "; return r; }, "construct, every history of at most " + std::to_string(L) + " of " + std::to_string(O.size()) + " operations (failing ones included), destroy: live blocks, live bytes and open files as before", 60));
  };
  lives("lives", 0, whole, T ? 5 : 4);
  lives("lives-variants", whole, Y.size(), T ? 4 : 3);
  {  // the same call again and again on a living tokenizer
    static const int CALLS = 6;   // encode and decode; adding tokens adds to the tokenizer
    uint64_t n = mc::n_strings(CALLS, T ? 3 : 2);
    f.push_back(fam::blocks("repetition", Y.size() * n, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &s = Y[i / n]; auto h = mc::nth_string(CALLS, i % n); if (h.empty()) return "";
      Tokenizer t("", s.js);
      auto round = [&] { for (int o : h) apply(t, O[o]); };
      apply(t, O[6]); for (int k = 0; k < 3; k++) round();   // words are remembered once; added tokens are there
      Mem a = mem(); for (int k = 0; k < 16; k++) round(); Mem b = mem(); for (int k = 0; k < 16; k++) round(); Mem c = mem();
      x.impl_traces++; x.transitions += 35 * h.size(); x.nontrivial++; x.state(std::to_string(i));
      // a container may grow once; growth that goes on is a leak
      if (b.bytes > a.bytes && c.bytes > b.bytes) { for (int k = 0; k < 32; k++) round(); Mem d = mem(); if (d.bytes > c.bytes) return "16 repetitions keep " + diff(a, b) + ", 16 more " + diff(b, c) + ", 32 more " + diff(c, d); }
      return "";
    }, [=](uint64_t i) { std::string r = "configuration " + Y[i / n].name + ", repeat: "; for (int o : mc::nth_string(CALLS, i % n)) r += O[o].name + "; "; return r; }, "all sequences of at most " + std::string(T ? "three" : "two") + " encode and decode calls, repeated 35 times on a living tokenizer, on every configuration: the live memory stops growing", 60));
  }
  {  // constructions that fail
    static std::vector<std::pair<int, size_t>> cut; for (int s = 0; s < whole; s++) for (size_t k = 0; k < Y[s].js.size(); k += T ? 1 : std::max<size_t>(1, Y[s].js.size() / 600)) cut.push_back({s, k});
    for (int s = whole; s < (int)Y.size(); s++) for (size_t k = 0; k < Y[s].js.size(); k += std::max<size_t>(1, Y[s].js.size() / (T ? 200 : 20))) cut.push_back({s, k});
    static auto attempt = [](const std::string &js) { try { Tokenizer t("", js); apply(t, O[0]); return true; } catch (const std::exception &) { return false; } };
    f.push_back(fam::blocks("rejected-configurations", cut.size() * 2, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      std::string js = Y[cut[i / 2].first].js; size_t at = cut[i / 2].second;
      if (i % 2) js.resize(at); else js[at] = js[at] == '"' ? 'x' : js[at] == ':' ? ',' : js[at] == '{' ? '[' : '"';
      attempt(js); Mem a = mem(true); bool ok = attempt(js); Mem b = mem(true);
      if (!(a == b)) { attempt(js); Mem c = mem(true); if (!(c == b)) return std::string(ok ? "accepted" : "rejected") + ", leaving behind " + diff(a, b) + ", then " + diff(b, c); }
      x.impl_traces++; x.transitions += 2; x.nontrivial += !ok; x.state(std::to_string(i));
      return "";
    }, [=](uint64_t i) { return "configuration " + Y[cut[i / 2].first].name + (i % 2 ? ", cut at byte " : ", damaged at byte ") + std::to_string(cut[i / 2].second); }, "configurations cut or damaged at every (quick: about every 600th part) byte: what was built before the error is given back"));
    static std::vector<std::string> paths = {"/nonexistent", "", "/verif-no-such-directory/x", std::string(3000, 'a')};
    f.push_back(fam::blocks("missing-files", paths.size(), 1, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto go = [&] { try { Tokenizer t(paths[i], ""); apply(t, O[0]); } catch (const std::exception &) {} };
      go(); Mem a = mem(true); go(); Mem b = mem(true); go(); Mem c = mem(true);
      x.impl_traces++; x.transitions += 3; x.nontrivial++; x.state(paths[i]);
      return a == b || b == c ? "" : "leaving behind " + diff(a, b);
    }, [](uint64_t i) { return "path '" + paths[i].substr(0, 40) + "'"; }, "paths without a tokenizer.json"));
  }
  return mc::main_(argc, argv, "C29", f, "the history is not empty / the configuration was rejected");
}
