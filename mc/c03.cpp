// C03: results do not depend on what the tokenizer did before.
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <map>

#include "cfgs.h"
#include "impl.h"
using namespace ref;

struct Op { char kind; U text; std::vector<int> ids; bool flag; std::vector<Added> add; std::wstring wide; };
static std::string show_op(const Op &o) {
  if (o.kind == 'e') return "encode('" + mc::esc(o.text) + "'," + (o.flag ? "true" : "false") + ")";
  if (o.kind == 'w') return "encode(invalid text)";
  if (o.kind == 'd') return "decode(" + impl::ints(o.ids) + "," + (o.flag ? "true" : "false") + ")";
  return "add_tokens('" + o.add[0].content + "')";
}
static std::string apply(Tokenizer &t, const Op &o) {
  if (o.kind == 'e') return impl::show(impl::encode(t, o.text, o.flag));
  if (o.kind == 'w') return impl::show(impl::encodeW(t, o.wide, o.flag));
  if (o.kind == 'd') return impl::show(impl::decode(t, o.ids, o.flag));
  try { return std::to_string(t.add_tokens(impl::added(o.add))); } catch (const std::exception &) { return "exception"; }
}
static Op E(const U &u, bool f = true) { return {'e', u, {}, f}; }
static Op D(std::vector<int> v, bool f = true) { return {'d', U"", v, f}; }
static Op W(std::wstring w) { Op o{'w', U"", {}, true}; o.wide = w; return o; }
static Op Ad(const std::string &c, bool norm) { Added a; a.content = c; a.norm = norm; Op o{'a', U"", {}, true}; o.add = {a}; return o; }

struct Sys { std::string name; Cfg c; std::vector<Op> ops, probes; };
static std::vector<Sys> systems() {
  std::vector<Sys> r;
  for (auto &n : cfgs::all()) {
    if (n.name == "nothing" || n.name == "roberta-left-trunc-pad" || n.name == "bert-cased") continue;
    Sys s; s.name = n.name; s.c = n.c;
    if (n.name == "llama2" || n.name == "nfkc-strip-split") s.c.mod.dropout = 0;
    s.ops = {E(U"ab"), E(U"ab aba", false), E(U"abab é"), E(U""), W(std::wstring(L"ab") + (wchar_t)0xD800), W(std::wstring(1, (wchar_t)0x110000)), D({5, 6, 7, -3, 100000}), D({0, 5, 6}, false), Ad("ba", false), Ad("é1", true), E(U"abé1 ba<n>[MASK]"), E(n.atoms[0] + n.atoms[1] + n.atoms[2])};
    s.probes = {E(U"ab"), E(U"aba", false), E(U"ab aba abab"), E(U"abé1 ba<n>[MASK]"), E(U"zab zaba"), E(U"é"), E(U""), D({5, 6, 7, 8, 9, 10}), D({0, 1, 5, 300, 260, 45, 46}, false), E(n.atoms[0] + n.atoms[1] + n.atoms[2])};
    r.push_back(s);
  }
  for (const char *d : {"Right", "Left"}) { Sys s = r[0]; s.name = std::string("padded to a multiple, ") + d; s.c.trunc = Trunc(); s.c.pad = Pad(); s.c.pad.on = true; s.c.pad.mult = 4; s.c.pad.dir = d; r.push_back(s); s.name = std::string("windows, ") + d; s.c.pad.mult = 0; s.c.pad.fixed = *d == 'L' ? 7 : -1; s.c.trunc = Trunc{true, d, "LongestFirst", 4, 1}; r.push_back(s); }
  { Sys s = r[0]; s.name = "bert-dropout"; s.c.mod = cfgs::m_bpe_chars(); s.c.mod.dropout = 0.5; s.c.norm = Norm(); s.c.dec = Dec(); r.push_back(s); }
  return r;
}
static std::vector<Sys> &S() { static std::vector<Sys> s = systems(); return s; }
// additions made by a history, as a key
static std::vector<int> adds_of(const Sys &s, const std::vector<int> &h) { std::vector<int> r; for (int i : h) if (s.ops[i].kind == 'a') r.push_back(i); return r; }
// outcome of every probe on a fresh tokenizer in a fresh process
static std::map<std::pair<int, std::vector<int>>, std::vector<std::string>> fresh;
struct Job { int si; std::vector<int> adds; int p; int fd; };
static void precompute(int depth) {
  std::vector<Job> jobs;
  for (size_t si = 0; si < S().size(); si++) {
    std::vector<int> ao; for (size_t i = 0; i < S()[si].ops.size(); i++) if (S()[si].ops[i].kind == 'a') ao.push_back(i);
    for (uint64_t i = 0; i < mc::n_strings(ao.size(), depth); i++) {
      std::vector<int> adds; for (int k : mc::nth_string(ao.size(), i)) adds.push_back(ao[k]);
      for (size_t p = 0; p < S()[si].probes.size(); p++) jobs.push_back({(int)si, adds, (int)p, -1});
      fresh[{(int)si, adds}].resize(S()[si].probes.size());
    }
  }
  size_t next = 0, done = 0;
  std::vector<size_t> live;
  auto start = [&](size_t k) {
    Job &j = jobs[k]; int fd[2];
    if (pipe(fd)) abort();
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]);
      const Sys &s = S()[j.si];
      auto t = impl::make(s.c);
      for (int i : j.adds) apply(*t, s.ops[i]);
      std::string r = apply(*t, s.probes[j.p]);
      size_t o = 0; while (o < r.size()) { ssize_t w = write(fd[1], r.data() + o, r.size() - o); if (w <= 0) break; o += w; }
      _exit(0);
    }
    close(fd[1]); j.fd = fd[0];
  };
  while (done < jobs.size()) {
    while (next < jobs.size() && live.size() < 16) { start(next); live.push_back(next++); }
    Job &j = jobs[live[0]];
    std::string r; char b[4096]; ssize_t n; while ((n = read(j.fd, b, sizeof b)) > 0) r.append(b, n);
    close(j.fd); waitpid(-1, nullptr, 0);
    fresh[{j.si, j.adds}][j.p] = r;
    live.erase(live.begin()); done++;
  }
}
static const std::vector<std::string> &expect(int si, const std::vector<int> &adds) { return fresh.at({si, adds}); }
static std::string hist(const Sys &s, const std::vector<int> &h) { std::string r; for (int i : h) r += show_op(s.ops[i]) + "; "; return r; }

// tokenizers that differ in one parameter: probes, and their outcomes on a tokenizer alone in its process
static std::vector<cfgs::Named> &V() { static std::vector<cfgs::Named> v = cfgs::variants(); return v; }
static std::vector<Op> &vprobes() {
  static std::vector<Op> p = {E(U" ab e\u0301 AB中a12 b\u00A0 "), E(U"abab,aa bé ab1\U0001F600", false), E(U""), D({3, 4, 5, 6, 7, 259, 260, 261}), D({69, 70, 71, 0, 1, 13, 14, 992, 995}, false), Ad("b1", true), E(U"ab b1a")};
  return p;
}
static std::string vrun(Tokenizer &t, std::string &after) { std::string r; auto &p = vprobes(); for (size_t i = 0; i + 2 < p.size(); i++) r += apply(t, p[i]) + "\n"; after.clear(); for (size_t i = p.size() - 2; i < p.size(); i++) after += apply(t, p[i]) + "\n"; return r; }
static std::vector<std::string> valone;
static void valone_compute() {
  for (size_t k = 0; k < V().size(); k++) {
    int fd[2]; if (pipe(fd)) abort();
    pid_t pid = fork();
    if (pid == 0) {
      close(fd[0]); auto t = impl::make(V()[k].c); std::string a, r = vrun(*t, a); r += "--\n" + a;
      size_t o = 0; while (o < r.size()) { ssize_t w = write(fd[1], r.data() + o, r.size() - o); if (w <= 0) break; o += w; }
      _exit(0);
    }
    close(fd[1]); std::string r; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) r.append(b, n);
    close(fd[0]); waitpid(pid, nullptr, 0); valone.push_back(r);
  }
}
// histories with many distinct words: reference first, fresh tokenizer on disagreement
struct Words { std::string name; int sys; std::vector<U> words; };
static std::vector<Words> words() {
  std::vector<Words> r;
  auto sys = [&](const std::string &n) { for (size_t i = 0; i < S().size(); i++) if (S()[i].name == n) return (int)i; abort(); };
  auto over = [](const U &al, int L) { std::vector<U> v; for (uint64_t i = 0; i < mc::n_strings(al.size(), L); i++) v.push_back(cfgs::letters(al, i)); return v; };
  for (const char *n : {"gpt2", "bert-lower", "llama2", "llama3"}) {
    r.push_back({std::string("all words over {a,b,e-acute} up to 8 letters, ") + n, sys(n), over(U"abé", 8)});
    std::vector<U> w;
    for (int i = 0; i < 12000; i++) { U u; for (int k = 0, v = i; k < 14; k++, v >>= 1) u += v & 1 ? U'a' : U'b'; w.push_back(u); }
    r.push_back({std::string("12000 distinct words of 14 letters, ") + n, sys(n), w});
    w.clear();
    for (int len : {7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 300}) {
      U base(len, U'a'); w.push_back(base);
      for (int p : {0, 1, len / 4, len / 2, len - 2, len - 1}) for (char32_t c : U"bé1\u00C3") { if (!c) continue; U u = base; u[p] = c; w.push_back(u); }
      for (int p = 0; p + 1 < len && p < 20; p++) { U u = base; u[p] = 'b'; u[p + 1] = U'é'; w.push_back(u); std::swap(u[p], u[p + 1]); w.push_back(u); }
    }
    r.push_back({std::string("words differing in one or two characters, ") + n, sys(n), w});
  }
  return r;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  precompute(T ? 4 : 3);
  for (size_t si = 0; si < S().size(); si++) {
    const Sys *s = &S()[si];
    uint64_t K = s->ops.size();
    int L = T ? 4 : 3;
    mc::Family a; a.name = "histories/" + s->name; a.count = (mc::n_strings(K, L) + 15) / 16;
    uint64_t total = mc::n_strings(K, L);
    a.run = [=](uint64_t b, mc::Ctx &x) {
      for (uint64_t i = b * 16; i < std::min(total, (b + 1) * 16) && !x.failed; i++) {
        auto h = mc::nth_string(K, i);
        auto t = impl::make(s->c);
        for (int o : h) { x.state(apply(*t, s->ops[o])); x.transitions++; }
        auto &want = expect(si, adds_of(*s, h));
        for (size_t p = 0; p < s->probes.size(); p++) {
          std::string g = apply(*t, s->probes[p]);
          x.impl_traces++; x.transitions++; x.state(g); x.nontrivial += !h.empty();
          if (g != want[p]) return x.fail("after " + hist(*s, h) + " " + show_op(s->probes[p]) + " gives\n  " + g + "\n  but on a fresh tokenizer\n  " + want[p]);
        }
      }
    };
    a.describe = [=](uint64_t b) { return "configuration " + s->name + ", 16 histories from: " + hist(*s, mc::nth_string(K, b * 16)); };
    a.bound = "every history of at most " + std::to_string(L) + " of " + std::to_string(K) + " operations, then each of " + std::to_string(s->probes.size()) + " probes against a fresh process";
    f.push_back(a);
  }
  {  // several tokenizers alive, created and destroyed, used in every order
    static const int G = T ? 5 : 3; static int pick[5] = {0, 2, 5, 4, 6};
    // operation: (tokenizer 0..4) x (create/replace, op 0..3)
    uint64_t K = G * 4; int L = 3;
    uint64_t total = mc::n_strings(K, L);
    mc::Family a; a.name = "several-tokenizers"; a.count = (total + 15) / 16;
    a.run = [=](uint64_t b, mc::Ctx &x) {
      for (uint64_t i = b * 16; i < std::min(total, (b + 1) * 16) && !x.failed; i++) {
        auto h = mc::nth_string(K, i);
        std::unique_ptr<Tokenizer> t[5];
        for (int g = 0; g < G; g++) t[g] = impl::make(S()[pick[g]].c);
        for (int o : h) {
          int g = o / 4, k = o % 4;
          if (k == 0) t[g] = impl::make(S()[pick[g]].c);
          else apply(*t[g], S()[pick[g]].ops[k == 1 ? 1 : k == 2 ? 4 : 10]);
          x.transitions++;
        }
        for (int g = 0; g < G; g++) {
          const Sys &s = S()[pick[g]];
          auto &want = expect(pick[g], {});
          for (size_t p = 0; p < s.probes.size(); p += 2) {
            std::string got = apply(*t[g], s.probes[p]);
            x.impl_traces++; x.transitions++; x.state(got); x.nontrivial += h.size() > 1;
            if (got != want[p]) { std::string hs; for (int o : h) hs += S()[pick[o / 4]].name + "#" + std::to_string(o % 4) + " "; return x.fail("history " + hs + ": " + s.name + " " + show_op(s.probes[p]) + " gives\n  " + got + "\n  alone\n  " + want[p]); }
          }
        }
      }
    };
    a.describe = [=](uint64_t b) { std::string hs; for (int o : mc::nth_string(K, b * 16)) hs += S()[pick[o / 4]].name + "#" + std::to_string(o % 4) + " "; return "16 histories over five live tokenizers from: " + hs; };
    a.bound = "every sequence of at most " + std::to_string(L) + " of " + std::to_string(K) + " operations (re-create, encode, failing encode, encode) on " + std::to_string(G) + " live tokenizers of different configurations";
    f.push_back(a);
  }
  {  // every ordered pair of tokenizers that differ in a parameter, alive together: created in order, used in both orders
    valone_compute();
    uint64_t n = V().size();
    mc::Family a; a.name = "pairs-of-variants"; a.count = n * n; a.chunk = n;
    a.run = [=](uint64_t i, mc::Ctx &x) {
      size_t u = i / n, v = i % n;
      for (int order = 0; order < 2 && !x.failed; order++) {
        std::string a, r;
        std::unique_ptr<Tokenizer> t[2] = {impl::make(V()[u].c), nullptr};
        if (order) { r = vrun(*t[0], a); if (r + "--\n" + a != valone[u]) return x.fail(V()[u].name + " alone gives\n" + r + a + "  in a fresh process\n" + valone[u]); t[0] = impl::make(V()[u].c); }
        t[1] = impl::make(V()[v].c);
        for (int k : {1, 0}) {
          size_t w = k ? v : u;
          r = vrun(*t[k], a); r += "--\n" + a;
          x.impl_traces += vprobes().size(); x.transitions += vprobes().size(); x.nontrivial += u != v; x.state(r);
          if (r != valone[w]) return x.fail("with tokenizers '" + V()[u].name + "' and '" + V()[v].name + "' alive" + (order ? " (the first used before the second was created)" : "") + ", " + V()[w].name + " gives\n" + r + "  alone\n" + valone[w]);
        }
      }
    };
    a.describe = [=](uint64_t i) { return "tokenizers '" + V()[i / n].name + "' and '" + V()[i % n].name + "'"; };
    a.bound = "every ordered pair of " + std::to_string(n) + " tokenizers differing in one parameter of one component, two orders of use, " + std::to_string(vprobes().size()) + " probes each";
    f.push_back(a);
  }
  {
    static std::vector<Words> ws = words();
    mc::Family a; a.name = "many-words"; a.count = ws.size() * 2; a.chunk = 1; a.limit_s = 120;
    a.run = [](uint64_t i, mc::Ctx &x) {
      const Words &w = ws[i / 2]; const Sys &s = S()[w.sys];
      std::vector<U> v = w.words;
      if (i % 2) std::reverse(v.begin(), v.end());
      auto t = impl::make(s.c);
      Ref r(s.c);
      for (int pass = 0; pass < 2; pass++) for (auto &u : v) {
        impl::Out o = impl::encode(*t, u, pass);
        bool rej; Enc e = r.encode(u, pass, rej);
        x.impl_traces++; x.transitions++; x.nontrivial++;
        x.state(show(e));
        if (o.threw || !impl::first_diff(e, o.enc, true).empty()) {
          auto n = impl::make(s.c);
          std::string a = impl::show(o), b = impl::show(impl::encode(*n, u, pass));
          if (a != b) return x.fail("word '" + mc::esc(u) + "' (pass " + std::to_string(pass) + ") gives\n  " + a + "\n  on a fresh tokenizer\n  " + b);
        }
      }
    };
    a.describe = [](uint64_t i) { return "encode each of " + ws[i / 2].name + (i % 2 ? ", in reverse order" : "") + ", twice, comparing every result"; };
    a.bound = "word lists up to 12000 words, two orders, two passes";
    f.push_back(a);
  }
  {  // words of tens of thousands of characters that agree but for their end, their middle or their length
    static std::vector<int> sys; for (const char *n : {"gpt2", "llama2", "llama3", "bert-lower"}) for (size_t i = 0; i < S().size(); i++) if (S()[i].name == n) sys.push_back(i);
    static std::vector<int> lens = T ? std::vector<int>{1023, 1024, 4095, 4096, 16384, 32767, 32768, 65535, 65536, 131072} : std::vector<int>{1024, 4096, 65535};
    mc::Family a; a.name = "long-words"; a.count = sys.size() * lens.size() * 2; a.chunk = 1; a.limit_s = 300;
    a.run = [](uint64_t i, mc::Ctx &x) {
      const Sys &s = S()[sys[i / 2 % sys.size()]]; int n = lens[i / 2 / sys.size()];
      auto at = [](int n, int p, char32_t c) { U u(n, U'b'); for (int k = 0; k < n; k += 2) u[k] = U'a'; u[p] = c; return u; };
      std::vector<U> w = {at(n, n - 1, U'a'), at(n, n - 1, U'b'), at(n + 1, n, U'a'), at(n + 1, n, U'b'), at(n + 2, n + 1, U'é'), at(n + 2, n + 1, U'b'), at(n, n / 2, U'é'), at(n, 0, U'b')};
      if (i % 2) std::reverse(w.begin(), w.end());
      auto t = impl::make(s.c);
      for (int pass = 0; pass < 2; pass++) for (size_t k = 0; k < w.size(); k++) {
        std::string g = impl::show(impl::encode(*t, w[k], false));
        auto n = impl::make(s.c); std::string want = impl::show(impl::encode(*n, w[k], false));
        x.impl_traces += 2; x.transitions += 2; x.nontrivial++; x.state(want);
        if (g != want) { size_t d = 0; while (d < g.size() && d < want.size() && g[d] == want[d]) d++; return x.fail("word " + std::to_string(k) + " of " + std::to_string(w[k].size()) + " letters (pass " + std::to_string(pass) + "): the result differs from a fresh tokenizer's from character " + std::to_string(d) + " on: " + g.substr(d, 200) + "\n  fresh: " + want.substr(d, 200)); }
      }
    };
    a.describe = [](uint64_t i) { return "configuration " + S()[sys[i / 2 % sys.size()]].name + ", eight words of about " + std::to_string(lens[i / 2 / sys.size()]) + " letters differing at one place or in length" + (i % 2 ? ", in reverse order" : ""); };
    a.bound = "words of up to " + std::to_string(lens.back() + 2) + " letters differing at one place or in length, two orders, two passes, against a fresh tokenizer";
    f.push_back(a);
  }
  return mc::main_(argc, argv, "C03", f, "the history is not empty");
}
