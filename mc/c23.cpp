// C23: a failing memory allocation leaves the tokenizer intact.
#include <array>
#include <cstdlib>
#include <cstring>
#include <new>
#include "fam.h"
using namespace ref;

// ---- the allocators under control ----
// (operator new; ICU's malloc is left alone: ICU's own code does not survive every failure of it)
static long seen_new = 0, fail_new = -1, fail_len = 1;   // fail allocations [fail, fail+len)
static bool armed = false;
static bool hit_new() { if (!armed) return false; long k = seen_new++; return fail_new >= 0 && k >= fail_new && k < fail_new + fail_len; }
void *operator new(size_t n) { void *p = hit_new() ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return malloc(n ? n : 1); }  // only simdjson asks this way; its own handling of a null result is not under test
void *operator new[](size_t n, const std::nothrow_t &t) noexcept { return operator new(n, t); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { free(p); }

struct Op { std::string name; char kind; std::wstring text; std::vector<int> ids; bool flag; };
struct Sys { std::string name; Cfg c; std::string js; std::vector<Op> ops; std::vector<Op> probes; };
static std::string run(Tokenizer &t, const Op &o) { return o.kind == 'e' ? show(impl::from(t.encode(o.text, o.flag))) : "'" + t.decode(o.ids, o.flag) + "'"; }
// the call alone is exposed to failing allocations; converting its result for comparison is not
static bool attempt(Tokenizer &t, const Op &o, std::string &res) {
  try {
    if (o.kind == 'e') { armed = true; Encoding e = t.encode(o.text, o.flag); armed = false; res = show(impl::from(e)); }
    else { armed = true; std::string s = t.decode(o.ids, o.flag); armed = false; res = "'" + s + "'"; }
    return true;
  } catch (const std::exception &) { armed = false; return false; }
}
static std::vector<Sys> &systems() {
  static std::vector<Sys> v;
  if (!v.empty()) return v;
  for (auto &n : cfgs::all()) {
    if (n.name == "nothing" || n.name == "bert-cased") continue;
    Sys s; s.name = n.name; s.c = n.c; s.js = json(n.c);
    U l; for (auto &a : n.atoms) l += a + U" ";
    auto E = [&](const U &u, bool f) { return Op{"encode('" + mc::esc(u) + "')", 'e', toW(u), {}, f}; };
    auto D = [&](std::vector<int> i, bool f) { return Op{"decode(" + impl::ints(i) + ")", 'd', L"", i, f}; };
    U longer; for (int k = 0; k < 12; k++) longer += U"abé ab" + U(k % 3, U'a');
    s.ops = {E(U"ab aba", true), E(l, true), D({0, 1, 5, 6, 7, 8, 9, 10, 11, 300}, false), D({5, 6, 7, 2, 3}, true), E(longer, false)};
    s.probes = {E(U"ab aba", false), E(l, true), E(U"abé\u4E2D ab", true), D({0, 1, 5, 6, 7, 8, 9}, false), E(longer, true)};
    v.push_back(s);
  }
  return v;
}
struct Want { std::vector<std::string> op, probe; };
static Want &want(int s) { static std::map<int, Want> m; auto &w = m[s]; if (w.op.empty()) { auto &y = systems()[s]; for (auto &o : y.ops) { auto t = impl::make_json(y.js); w.op.push_back(run(*t, o)); } for (auto &o : y.probes) { auto t = impl::make_json(y.js); w.probe.push_back(run(*t, o)); } } return w; }
static std::string after(Tokenizer &t, int s, int op, mc::Ctx &x, bool all) {
  auto &w = want(s); auto &y = systems()[s];
  auto chk = [&](const Op &o, const std::string &wanted) -> std::string {
    x.transitions++;
    std::string g; try { g = run(t, o); } catch (const std::exception &e) { return "afterwards " + o.name + " threw " + e.what(); }
    return g == wanted ? "" : "afterwards " + o.name + " returned " + g.substr(0, 500) + "\n  instead of " + wanted.substr(0, 500);
  };
  std::string d;
  if (op >= 0) d = chk(y.ops[op], w.op[op]);
  for (size_t p = 0; p < y.probes.size() && d.empty() && (all || p < 3); p++) d = chk(y.probes[p], w.probe[p]);
  return d;
}
// number of allocations of a step
static long count(int s, int step, bool warm) {
  static std::map<std::array<int, 3>, long> m; auto key = std::array<int, 3>{s, step, warm}; if (m.count(key)) return m[key];
  auto &y = systems()[s]; seen_new = 0; fail_new = -1;
  if (step < 0) { armed = true; try { Tokenizer t("", y.js); armed = false; } catch (...) { armed = false; } }
  else { auto t = impl::make_json(y.js); std::string r; if (warm) attempt(*t, y.ops[step], r); seen_new = 0; attempt(*t, y.ops[step], r); }
  return m[key] = seen_new;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static auto &S = systems();
  for (int s = 0; s < (int)S.size(); s++) want(s);   // also completes ICU's one-time loading, which happens once per process
  struct It { int s, step, warm; long k, len; };
  static std::vector<It> it;
  std::map<std::string, long> sizes;
  for (int s = 0; s < (int)S.size(); s++) {
    for (int step = -1; step < (int)S[s].ops.size(); step++) for (int warm = 0; warm < (step < 0 ? 1 : 2); warm++) {
      long n = count(s, step, warm); sizes[step < 0 ? "construction" : "call"] += n;
      long inc = T ? 1 : n > 3000 ? 7 : n > 1200 ? 3 : 1;
      for (long k = 0; k < n; k += (k < 400 ? 1 : inc)) { it.push_back({s, step, warm, k, 1}); if (T && k % 3 == 0) it.push_back({s, step, warm, k, 1 << 20}); }
    }
  }
  f.push_back(fam::blocks("single-failure", it.size(), 64, [](uint64_t i, mc::Ctx &x) -> std::string {
    auto &q = it[i]; auto &y = S[q.s]; x.impl_traces++; x.transitions++;
    auto arm = [&] { seen_new = 0; fail_new = q.k; fail_len = q.len; };
    if (q.step < 0) {
      bool ok = false;
      { std::unique_ptr<Tokenizer> t; arm(); armed = true; try { Tokenizer *p = new Tokenizer("", y.js); armed = false; t.reset(p); ok = true; } catch (const std::exception &) { armed = false; }
        fail_new = -1;
        if (ok) { std::string d = after(*t, q.s, -1, x, false); if (!d.empty()) return "construction succeeded, but " + d; } else x.nontrivial++; }
      x.state(ok ? "constructed" : "construction threw");
      auto t = impl::make_json(y.js); return after(*t, q.s, 0, x, false);
    }
    auto t = impl::make_json(y.js); std::string r;
    if (q.warm) attempt(*t, y.ops[q.step], r);
    arm(); r.clear();
    bool ok = attempt(*t, y.ops[q.step], r);
    fail_new = -1;
    if (ok && r != want(q.s).op[q.step]) return y.ops[q.step].name + " returned a wrong result: " + r.substr(0, 700) + "\n  instead of " + want(q.s).op[q.step].substr(0, 700);
    x.nontrivial += !ok; x.state(ok ? r : "threw " + y.ops[q.step].name);
    return after(*t, q.s, q.step, x, mc::thorough() || q.k % 8 == 0);
  }, [](uint64_t i) { auto &q = it[i]; return "configuration " + S[q.s].name + ", allocation " + std::to_string(q.k) + (q.len > 1 ? " and all later ones" : "") + " fails in " + (q.step < 0 ? "construction" : S[q.s].ops[q.step].name) + (q.warm ? ", second call" : ""); },
  "every allocation through operator new of construction and of " + std::to_string(S[0].ops.size()) + " calls, first and repeated, on " + std::to_string(S.size()) + " configurations (" + std::to_string(sizes["construction"]) + " in construction, " + std::to_string(sizes["call"]) + " in calls; beyond the 400th of one step the quick tier takes every 3rd or 7th)", 20));
  {  // two failures in one history
    static std::vector<std::array<long, 5>> p;
    for (int s = 0; s < (int)S.size(); s++) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { long na = count(s, a, 0), nb = count(s, b, 0); for (long k = 0; k < na; k += T ? std::max(1l, na / 60) : std::max(1l, na / 12)) for (long m = 0; m < nb; m += T ? std::max(1l, nb / 60) : std::max(1l, nb / 12)) p.push_back({s, a, b, k, m}); }
    f.push_back(fam::blocks("two-failures", p.size(), 64, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto &q = p[i]; auto &y = S[q[0]]; auto t = impl::make_json(y.js); std::string r; x.impl_traces++;
      for (int n = 0; n < 2; n++) { seen_new = 0; fail_new = q[3 + n]; fail_len = 1; bool ok = attempt(*t, y.ops[q[1 + n]], r); fail_new = -1; x.nontrivial += !ok; x.transitions++; if (ok && r != want(q[0]).op[q[1 + n]]) return "wrong result " + r; }
      return after(*t, q[0], q[1], x, true);
    }, [](uint64_t i) { auto &q = p[i]; return "configuration " + S[q[0]].name + ", allocation " + std::to_string(q[3]) + " fails in " + S[q[0]].ops[q[1]].name + ", then allocation " + std::to_string(q[4]) + " in " + S[q[0]].ops[q[2]].name; }, "pairs of failures in consecutive calls, a grid of " + std::string(T ? "60x60" : "12x12") + " allocation indexes per pair of calls"));
  }
  {  // additions: a failing one throws; made again, it gives what it would have given at first
    static std::vector<std::vector<Added>> L;
    auto tok = [](const std::string &c, bool special, bool norm, bool l = false) { Added a; a.content = c; a.special = special; a.norm = norm; a.l = l; return a; };
    L = {{tok("zq", false, true)}, {tok("<|a special token of some length|>", true, false)}, {tok("zq and more of a long plain token", false, false), tok("<|zs|>", true, false, true), tok("ab", false, true), tok("", false, false)}, {tok("<|zs|>", true, true), tok("<|zs|>", false, false)}};
    static std::vector<Op> pr;
    for (const wchar_t *w : {L"ab zq aba", L" <|zs|> zq", L"zq and more of a long plain token<|a special token of some length|>", L"ab"}) pr.push_back({"encode", 'e', w, {}, true});
    { std::vector<int> ids; for (int i = 0; i < 80; i++) ids.push_back(i); for (int i = 250; i < 330; i++) ids.push_back(i); pr.push_back({"decode of many ids", 'd', L"", ids, false}); pr.push_back({"decode of many ids, skipping", 'd', L"", ids, true}); }
    static auto add = [](Tokenizer &t, int l, bool sp) { auto v = impl::added(L[l]); armed = true; try { int n = sp ? t.add_special_tokens(v) : t.add_tokens(v); armed = false; return n; } catch (const std::exception &) { armed = false; return -1; } };
    static auto all = [](Tokenizer &t) { std::string r; for (auto &o : pr) try { r += run(t, o) + "\n"; } catch (const std::exception &e) { r += std::string("threw ") + e.what() + "\n"; } return r; };
    struct A { int s, l, sp; long k; std::shared_ptr<std::string> want; int n; };
    static std::vector<A> as; long total = 0;
    for (int s = 0; s < (int)S.size(); s++) for (int l = 0; l < (int)L.size(); l++) for (int sp = 0; sp < 2; sp++) {
      auto t = impl::make_json(S[s].js); seen_new = 0; fail_new = -1; int n = add(*t, l, sp); long c = seen_new; total += c;
      auto w = std::make_shared<std::string>(all(*t));
      for (long k = 0; k < c; k++) as.push_back({s, l, sp, k, w, n});
    }
    f.push_back(fam::blocks("additions", as.size(), 64, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto &q = as[i]; auto t = impl::make_json(S[q.s].js); x.impl_traces++; x.transitions += 2;
      seen_new = 0; fail_new = q.k; fail_len = 1; int n = add(*t, q.l, q.sp); fail_new = -1;
      x.nontrivial += n < 0; x.state(std::to_string(n) + "/" + S[q.s].name + std::to_string(q.k));
      if (n >= 0 && n != q.n) return "the addition returned " + std::to_string(n) + " instead of " + std::to_string(q.n);
      if (n < 0) {
        all(*t);   // usable in between
        int m = add(*t, q.l, q.sp);
        if (m != q.n) return "made again, the addition returned " + std::to_string(m) + " instead of " + std::to_string(q.n);
      }
      std::string g = all(*t);
      if (g != *q.want) { size_t d = 0; while (d < g.size() && d < q.want->size() && g[d] == (*q.want)[d]) d++; d = d > 80 ? d - 80 : 0; return std::string(n < 0 ? "after the addition was made again" : "after the addition") + " the calls return ..." + g.substr(d, 600) + "\n  instead of ..." + q.want->substr(d, 600); }
      return "";
    }, [](uint64_t i) { auto &q = as[i]; std::string c; for (auto &a : L[q.l]) c += "'" + a.content + "' "; return "configuration " + S[q.s].name + ", allocation " + std::to_string(q.k) + " fails in " + (q.sp ? "add_special_tokens " : "add_tokens ") + c; },
    "every allocation through operator new (" + std::to_string(total) + ") of 4 additions through both entry points on " + std::to_string(S.size()) + " configurations, the addition made again after the failure", 20));
  }
  return mc::main_(argc, argv, "C23", f, "runs in which the failing allocation made the call throw");
}
