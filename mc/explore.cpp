#include "explore.h"

namespace explore {
using namespace ref;
static void one(Ref &r, Tokenizer &t, const U &u, bool add, const Judge &j, mc::Ctx &x, const std::string &cfg) {
  bool rej;
  Enc w = r.encode(u, add, rej);
  impl::Out g = impl::encode(t, u, add);
  x.impl_traces++; x.transitions += 1 + u.size();
  x.nontrivial += !w.ids.empty();
  x.state(show(w));
  std::string d = j(r.cfg(), u, add, w, rej, g);
  if (!d.empty()) x.fail("configuration " + cfg + " text '" + mc::esc(u) + "' add_special=" + (add ? "1" : "0") + ": " + d);
}
std::vector<mc::Family> families(Judge j, bool small) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static std::vector<cfgs::Named> all = cfgs::all();
  for (auto &n : all) {
    // every text over the configuration's alphabet, one case = a block of 64 texts
    int L = 3;
    uint64_t budget = T ? 3000000 : small ? 12000 : 30000;
    while (mc::n_strings(n.alphabet.size(), L + 1) <= budget) L++;
    uint64_t total = mc::n_strings(n.alphabet.size(), L);
    auto *np = &n;
    mc::Family a;
    a.name = "letters/" + n.name; a.count = (total + 63) / 64;
    a.run = [=](uint64_t b, mc::Ctx &x) {
      static std::map<std::string, std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> made;
      auto &m = made[np->name];
      if (!m.first) { m.first = std::make_unique<Ref>(np->c); m.second = impl::make(np->c); }
      for (uint64_t i = b * 64; i < std::min(total, (b + 1) * 64) && !x.failed; i++) for (int add = 0; add < 2; add++) one(*m.first, *m.second, cfgs::letters(np->alphabet, i), add, j, x, np->name);
    };
    a.describe = [=](uint64_t b) { return "configuration " + np->name + ", the 64 texts from '" + mc::esc(cfgs::letters(np->alphabet, b * 64)) + "' on"; };
    a.bound = "all texts of at most " + std::to_string(L) + " characters over '" + mc::esc(n.alphabet) + "', with and without special tokens";
    f.push_back(a);
    int D = 2;
    while (mc::n_strings(n.atoms.size(), D + 1) <= (T ? 800000 : small ? 4000 : 9000)) D++;
    uint64_t tot = mc::n_strings(n.atoms.size(), D);
    a.name = "atoms/" + n.name; a.count = (tot + 63) / 64;
    a.run = [=](uint64_t b, mc::Ctx &x) {
      static std::map<std::string, std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> made;
      auto &m = made[np->name];
      if (!m.first) { m.first = std::make_unique<Ref>(np->c); m.second = impl::make(np->c); }
      for (uint64_t i = b * 64; i < std::min(tot, (b + 1) * 64) && !x.failed; i++) for (int add = 0; add < 2; add++) one(*m.first, *m.second, cfgs::concat(np->atoms, i), add, j, x, np->name);
    };
    a.describe = [=](uint64_t b) { return "configuration " + np->name + ", the 64 concatenations from '" + mc::esc(cfgs::concat(np->atoms, b * 64)) + "' on"; };
    std::string al; for (auto &s : n.atoms) al += "'" + mc::esc(s) + "' ";
    a.bound = "all concatenations of at most " + std::to_string(D) + " of " + al;
    f.push_back(a);
  }
  // every combination of components over the hand-picked texts
  static auto N = cfgs::norms(); static auto P = cfgs::pres(); static auto M = cfgs::mods(); static auto Q = cfgs::posts(); static auto A = cfgs::addeds();
  static std::vector<std::pair<Trunc, Pad>> TP;
  { Trunc off; Pad poff; TP.push_back({off, poff});
    Trunc t; t.on = true; t.max = 3; t.stride = 1; Pad p; p.on = true; p.mult = 4; TP.push_back({t, p});
    t.dir = "Left"; t.strat = "OnlyFirst"; t.max = 4; t.stride = 0; p.dir = "Left"; p.fixed = 5; p.mult = 0; p.id = 3; p.type = 1; TP.push_back({t, p}); }
  static std::vector<U> X = cfgs::texts();
  auto combo = [&](const std::string &name, mc::Mix mix, std::function<Cfg(const std::vector<uint64_t> &)> mk, std::function<std::string(const std::vector<uint64_t> &)> nm, const std::string &bound) {
    mc::Family a; a.name = name; a.count = mix.total(); a.bound = bound;
    a.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); Cfg c = mk(v);
      Ref r(c); auto t = impl::make(c);
      for (auto &u : X) for (int add = 0; add < 2 && !x.failed; add++) one(r, *t, u, add, j, x, nm(v));
    };
    a.describe = [=](uint64_t i) { auto v = mix.at(i); return nm(v) + " config " + json(mk(v)).substr(0, 400); };
    f.push_back(a);
  };
  auto fix = [](Cfg &c) { Ref r(c); for (auto &a : c.added) if (auto i = r.id_of(a.content)) a.id = *i; };
  combo("components", {{N.size(), P.size(), M.size(), A.size()}},
        [=](const std::vector<uint64_t> &v) { Cfg c; c.norm = N[v[0]].second; c.pre = P[v[1]].second; c.mod = M[v[2]].second; c.added = A[v[3]]; c.post = cfgs::q_bert(); fix(c); return c; },
        [](const std::vector<uint64_t> &v) { return "normalizer " + N[v[0]].first + ", pre-tokenizer " + P[v[1]].first + ", model " + M[v[2]].first + ", added set " + std::to_string(v[3]); },
        "every combination of the listed normalizers, pre-tokenizers, models and added-token sets over " + std::to_string(X.size()) + " texts");
  combo("post-stages", {{P.size(), M.size(), Q.size(), TP.size()}},
        [=](const std::vector<uint64_t> &v) { Cfg c; c.pre = P[v[0]].second; c.mod = M[v[1]].second; c.post = Q[v[2]].second; c.trunc = TP[v[3]].first; c.pad = TP[v[3]].second; c.added = A[1]; fix(c); return c; },
        [](const std::vector<uint64_t> &v) { return "pre-tokenizer " + P[v[0]].first + ", model " + M[v[1]].first + ", post-processor " + Q[v[2]].first + ", truncation/padding " + std::to_string(v[3]); },
        "every combination of the listed pre-tokenizers, models, post-processors and truncation/padding settings over " + std::to_string(X.size()) + " texts");
  return f;
}
}  // namespace explore
