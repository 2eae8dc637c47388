// C27: BPE dropout yields exactly the segmentations its random choices allow (all outcomes of the choices are enumerated).
#include <cmath>
#include <set>

#include "fam.h"
using namespace ref;

// ---- the random choices: scripted first, then "keep" (or a fixed value) ----
static std::vector<int> script; static size_t at; static std::vector<int> taken; static bool fixed = false; static uint32_t value; static uint64_t draws;
namespace mcrng {
uint32_t draw() {
  draws++;
  if (fixed) return value;
  int c = at < script.size() ? script[at] : 0; at++;
  taken.push_back(c);
  return c ? 0u : 0xFFFFFFFFu;   // 1: below every probability (skip), 0: above every probability below one (merge)
}
}  // namespace mcrng
extern "C" {
int __wrap_rand() { return mcrng::draw() >> 1; }
long __wrap_random() { return mcrng::draw() >> 1; }
double __wrap_drand48() { return mcrng::draw() / 4294967296.0; }
uint32_t __wrap_arc4random() { return mcrng::draw(); }
}
static std::string one(const std::vector<Tok> &v) { std::string r; for (auto &t : v) r += std::to_string(t.id) + "'" + t.v + "'(" + std::to_string(t.s) + "," + std::to_string(t.e) + ") "; return r; }
static std::string one(const Enc &e) { std::string r; for (size_t i = 0; i < e.ids.size(); i++) r += std::to_string(e.ids[i]) + "'" + e.tokens[i] + "'(" + std::to_string(e.offsets[i].first) + "," + std::to_string(e.offsets[i].second) + ") "; return r; }
static std::string show(const std::set<std::string> &s) { std::string r; for (auto &x : s) r += "\n    " + mc::esc(x); return r; }
// every outcome of encode(u), over all outcomes of the choices it makes
static std::set<std::string> outcomes(Tokenizer &t, const U &u, mc::Ctx &x, std::string &err, std::set<std::string> *decoded = nullptr) {
  std::set<std::string> r; fixed = false; script.clear();
  for (int runs = 0;; runs++) {
    at = 0; taken.clear();
    impl::Out o = impl::encode(t, u, false);
    x.impl_traces++; x.transitions += 1 + taken.size();
    if (o.threw) { err = "threw " + o.what; return r; }
    if (runs > 200000) { err = "more than 200000 outcomes of the choices"; return r; }
    r.insert(one(o.enc)); x.state(one(o.enc));
    if (decoded) { auto d = impl::decode(t, o.enc.ids, false); decoded->insert(d.threw ? "threw" : d.text); }
    while (!taken.empty() && taken.back()) taken.pop_back();
    if (taken.empty()) return r;
    taken.back() = 1; script = taken;
  }
}
// everything that merging any mergeable neighbours, in any order, as often as liked, gives
struct RefM { Mod m; std::map<std::string, int> v; BpeIdx idx; };
static RefM refm(const Mod &m) { RefM r; r.m = m; for (auto &p : m.vocab) r.v[p.first] = p.second; r.idx = bpe_index(m, r.v); return r; }
static std::set<std::string> reachable(const RefM &r, const U &u) {
  Mod plain = r.m; plain.merges.clear(); plain.ignore = false; plain.dropout = 0; BpeIdx none = r.idx; none.mg.clear();
  std::vector<std::vector<Tok>> todo = {bpe(plain, r.v, u, &none)}; std::set<std::string> seen;
  while (!todo.empty()) {
    auto s = todo.back(); todo.pop_back();
    if (!seen.insert(one(s)).second) continue;
    for (size_t i = 0; i + 1 < s.size(); i++) {
      auto q = r.idx.mg.find({s[i].id, s[i + 1].id}); if (q == r.idx.mg.end()) continue;
      auto n = s; n[i].id = q->second.second; n[i].v = r.idx.rev.at(n[i].id); n[i].e = n[i + 1].e; n.erase(n.begin() + i + 1); todo.push_back(n);
    }
  }
  return seen;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  struct S { std::string name; Mod m; U al; int L; };
  static std::vector<S> ss;
  {
    Mod c = cfgs::m_bpe_chars(); ss.push_back({"characters", c, U"ab", T ? 7 : 6}); c.fuse = false; ss.push_back({"characters, unknown unfused", c, U"aéz", T ? 5 : 4}); ss.push_back({"characters, more letters", cfgs::m_bpe_chars(), U"abé中z", T ? 5 : 4});
    ss.push_back({"affixes", cfgs::m_bpe_affix(), U"abs", T ? 6 : 5}); ss.push_back({"byte fallback", cfgs::m_bpe_fallback(), U"abé中", T ? 5 : 4});
    c = cfgs::m_bpe_chars(); c.ignore = true; c.vocab.push_back({"aba", 500}); c.vocab.push_back({"abba", 501}); ss.push_back({"ignore merges", c, U"ab", T ? 6 : 5});
    c = cfgs::m_bpe_chars(); c.unk = std::nullopt; ss.push_back({"no unknown token", c, U"abz", T ? 5 : 4});
    c = cfgs::m_bpe_chars(); c.merges.clear(); ss.push_back({"no merges", c, U"ab", 4});
  }
  static std::vector<double> ps = {1e-6, 0.1, 0.5, 0.9, 0.999};
  for (size_t k = 0; k < ss.size(); k++) {
    uint64_t n = mc::n_strings(ss[k].al.size(), ss[k].L);
    f.push_back(fam::blocks("reachable/" + ss[k].name, n, 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      static std::map<int, std::pair<RefM, std::vector<std::unique_ptr<Tokenizer>>>> made;
      auto &m = made[k];
      if (m.second.empty()) { m.first = refm(ss[k].m); for (double p : ps) { Cfg c; c.mod = ss[k].m; c.mod.dropout = p; m.second.push_back(impl::make(c)); } }
      U u = cfgs::letters(ss[k].al, i); auto want = reachable(m.first, u); x.nontrivial += want.size() > 1;
      for (size_t p = 0; p < ps.size(); p++) for (int again = 0; again < (p == 2 ? 2 : 1); again++) {   // twice on the living tokenizer: nothing is remembered
        std::string err; auto got = outcomes(*m.second[p], u, x, err);
        if (!err.empty()) return "dropout " + std::to_string(ps[p]) + ": " + err;
        if (got != want) { std::set<std::string> a, b; for (auto &s : want) if (!got.count(s)) a.insert(s); for (auto &s : got) if (!want.count(s)) b.insert(s); return "dropout " + std::to_string(ps[p]) + (a.empty() ? "" : ": never gives" + show(a)) + (b.empty() ? "" : ": gives" + show(b) + "\n  which no choice of merges allows"); }
      }
      return "";
    }, [=](uint64_t i) { return ss[k].name + ", word '" + mc::esc(cfgs::letters(ss[k].al, i)) + "'"; }, "all words of at most " + std::to_string(ss[k].L) + " letters over " + std::to_string(ss[k].al.size()) + ", 5 dropout values, every outcome of every random choice; the set of results is compared with the closure under the merges", 60));
    f.push_back(fam::blocks("extremes/" + ss[k].name, n, 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      static std::map<int, std::vector<std::unique_ptr<Tokenizer>>> made; auto &m = made[k];
      static const std::vector<double> es = {0, 1, 0.3};
      if (m.empty()) for (double p : es) { Cfg c; c.mod = ss[k].m; c.mod.dropout = p; m.push_back(impl::make(c)); }
      U u = cfgs::letters(ss[k].al, i);
      fixed = true;
      struct Z { int t; uint32_t v; };
      // merged whole words need no merges, so ignore-merges counts with dropout 0 only
      auto plain = [&](double drop, bool ignore) { Cfg c; c.mod = ss[k].m; c.mod.ignore &= ignore; c.mod.dropout = drop; RefM r = refm(c.mod); return one(bpe(c.mod, r.v, u, &r.idx)); };
      std::string none = plain(1, false), merged = plain(0, false), zero = plain(0, true), w;
      std::string lohi[2];
      for (Z z : {Z{0, 0}, Z{0, 0xFFFFFFFFu}, Z{0, 0x80000000u}, Z{1, 0}, Z{1, 0xFFFFFFFFu}, Z{1, 0x80000000u}, Z{2, 0}, Z{2, 0xFFFFFFFFu}}) {
        value = z.v; impl::Out o = impl::encode(*m[z.t], u, false); x.impl_traces++; x.transitions += 1 + u.size(); x.nontrivial += u.size() > 1;
        std::string g = o.threw ? "threw " + o.what : one(o.enc);
        if (z.t == 2) { lohi[z.v != 0] = g; continue; }
        if (g != (w = z.t ? none : zero)) { fixed = false; return "dropout " + std::to_string(es[z.t]) + ", all draws " + std::to_string(z.v / 4294967296.0) + "\n  expected " + mc::esc(w) + "\n  got      " + mc::esc(g); }
      }
      // which end of the unit interval skips is the library's choice
      if (!(lohi[0] == none && lohi[1] == merged) && !(lohi[1] == none && lohi[0] == merged)) { fixed = false; return "dropout 0.3, lowest draws\n  " + mc::esc(lohi[0]) + "\n  highest draws\n  " + mc::esc(lohi[1]) + "\n  instead of, in either order,\n  " + mc::esc(none) + "\n  " + mc::esc(merged); }
      fixed = false;
      return "";
    }, [=](uint64_t i) { return ss[k].name + ", word '" + mc::esc(cfgs::letters(ss[k].al, i)) + "'"; }, "all words of at most " + std::to_string(ss[k].L) + " letters over " + std::to_string(ss[k].al.size()) + ": dropout 0 merges everything and dropout 1 nothing whatever is drawn; lowest and highest draws with dropout 0.3"));
  }
  {  // the share of the draws that skips a merge is the configured one
    static std::vector<double> pr; for (int k = 1; k < 32; k++) pr.push_back(k / 32.0); pr.push_back(0.001); pr.push_back(0.3); pr.push_back(0.999);
    f.push_back(fam::blocks("share", pr.size(), 1, [](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c; c.mod = cfgs::m_bpe_chars(); c.mod.merges = {{"a", "b"}}; c.mod.dropout = pr[i]; auto t = impl::make(c);
      const int N = 1024; int skipped = 0; fixed = true;
      for (int k = 0; k < N; k++) { value = (uint32_t)((k + 0.5) / N * 4294967296.0); impl::Out o = impl::encode(*t, U"ab", false); x.impl_traces++; x.transitions += 2; x.nontrivial++; if (o.threw) { fixed = false; return "threw " + o.what; } skipped += o.enc.ids.size() == 2; }
      fixed = false;
      x.state(std::to_string(skipped));
      return std::abs(skipped - pr[i] * N) <= 1.5 ? "" : "of " + std::to_string(N) + " evenly spaced draws " + std::to_string(skipped) + " skip the merge";
    }, [](uint64_t i) { return "dropout " + std::to_string(pr[i]) + ", word 'ab', its only merge, 1024 draws spread evenly over the unit interval"; }, "34 dropout values x 1024 evenly spaced draws"));
  }
  {  // words of one text choose independently, also equal ones; decoding undoes every outcome
    static std::vector<std::pair<U, U>> w; for (uint64_t i = 1; i < mc::n_strings(2, 3); i++) for (uint64_t j = 1; j < mc::n_strings(2, 3); j++) w.push_back({cfgs::letters(U"ab", i), cfgs::letters(U"ab", j)});
    f.push_back(fam::blocks("two-words", w.size(), 1, [](uint64_t i, mc::Ctx &x) -> std::string {
      static std::unique_ptr<Tokenizer> t; static RefM r;
      if (!t) { Cfg c; c.mod = cfgs::m_bpe_chars(); c.mod.dropout = 0.4; c.pre = cfgs::p_bert(); t = impl::make(c); r = refm(c.mod); }
      auto &p = w[i]; std::set<std::string> want;
      Mod m = r.m;
      auto a = reachable(r, p.first); std::set<std::string> b;
      // second word: the same closure, moved behind the first word and the space
      { RefM q = r; auto base = reachable(q, p.second); for (auto &s : base) { std::string z; size_t k = 0; while (k < s.size()) { size_t o = s.find("(", k); size_t e = s.find(") ", o); int x1, y1; sscanf(s.c_str() + o, "(%d,%d)", &x1, &y1); int d = p.first.size() + 1; z += s.substr(k, o - k) + "(" + std::to_string(x1 + d) + "," + std::to_string(y1 + d) + ") "; k = e + 2; } b.insert(z); } }
      for (auto &s : a) for (auto &z : b) want.insert(s + z);
      std::string err; auto got = outcomes(*t, p.first + U" " + p.second, x, err); x.nontrivial += want.size() > 1;
      if (!err.empty()) return err;
      if (got != want) return "outcomes" + show(got) + "\n  instead of" + show(want);
      return "";
    }, [](uint64_t i) { return "'" + mc::esc(w[i].first + U" " + w[i].second) + "'"; }, "all pairs of words of at most 3 letters", 60));
    static std::vector<U> tx = {U"ab", U"aba b", U" aé", U"ab12", U"aaaa", U"中a", U"'s ab", U"a\n\n", U"\U0001F600a"};
    f.push_back(fam::blocks("decoding", tx.size(), 1, [](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = cfgs::gpt2(); c.mod.dropout = 0.5; auto t = impl::make(c); std::string err; std::set<std::string> d; auto got = outcomes(*t, tx[i], x, err, &d); x.nontrivial += got.size() > 1;
      if (!err.empty()) return err;
      return d == std::set<std::string>{to8(tx[i])} ? "" : "outcomes decode to" + show(d);
    }, [](uint64_t i) { return "byte-level text '" + mc::esc(tx[i]) + "'"; }, "every outcome for 9 byte-level texts decodes to the text", 60));
  }
  return mc::main_(argc, argv, "C27", f, "the word has more than one outcome");
}
