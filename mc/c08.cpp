// C08: BPE applies merges by priority, leftmost first, until none applies.
#include <algorithm>
#include <set>
#include "cfgs.h"
#include "scale.h"
#include "impl.h"
using namespace ref;

static std::string cmp(Ref &r, Tokenizer &t, const U &u, mc::Ctx &x) {
  bool rej; Enc w = r.encode(u, false, rej);
  impl::Out g = impl::encode(t, u, false);
  x.impl_traces++; x.transitions += 1 + u.size() - std::min(u.size(), w.ids.size()); x.nontrivial += w.ids.size() < u.size(); x.state(show(w));
  if (g.threw) return "word '" + mc::esc(u) + "' threw " + g.what;
  if (w.ids != g.enc.ids || w.tokens != g.enc.tokens || w.words != g.enc.words) return "word '" + mc::esc(u) + "'\n  expected " + show(w) + "\n  got      " + show(g.enc);
  return "";
}
static void add_vocab(Mod &m, const std::string &s) { for (auto &v : m.vocab) if (v.first == s) return; m.vocab.push_back({s, (int)m.vocab.size()}); }
struct Cand { std::string l, r; };
// vocabulary holding all results, merges = the chosen sequence of candidates
static Mod build(const std::vector<std::string> &base, const std::vector<Cand> &cand, const std::vector<int> &pick, const std::optional<std::string> &prefix) {
  Mod m; m.type = "BPE"; m.prefix = prefix;
  for (auto &b : base) add_vocab(m, b);
  size_t pl = prefix.value_or("").size();
  for (int k : pick) { m.merges.push_back({cand[k].l, cand[k].r}); }
  for (auto &c : cand) add_vocab(m, c.l + c.r.substr(pl));
  for (size_t k = 0; k < m.vocab.size(); k++) m.vocab[k].second = (int)((k * 11 + 5) % 1009);
  return m;
}
// k-permutations of n items, by index
static uint64_t n_perm(int n, int kmax) { uint64_t t = 0, p = 1; for (int k = 0; k <= kmax; k++) { t += p; p *= n - k; } return t; }
static std::vector<int> nth_perm(int n, uint64_t i) {
  int k = 0; uint64_t p = 1; while (i >= p) { i -= p; p *= n - k; k++; }
  std::vector<int> items(n), r; for (int j = 0; j < n; j++) items[j] = j;
  for (int j = 0; j < k; j++) { uint64_t q = 1; for (int z = j + 1; z < k; z++) q *= n - z; r.push_back(items[i / q]); items.erase(items.begin() + i / q); i %= q; }
  return r;
}
static std::string pairs(const std::vector<Cand> &c) { std::string r; for (auto &x : c) r += "(" + x.l + "," + x.r + ") "; return r; }

int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  struct Set { std::string name; U a, b, c; std::optional<std::string> prefix; std::vector<Cand> cand; std::vector<std::string> base; };
  static std::vector<Set> sets;
  auto S = [&](const std::string &name, const U &a8, const U &b8, const U &c8) {
    std::string a = to8(a8), b = to8(b8), c = to8(c8);
    sets.push_back({name, a8, b8, c8, std::nullopt, {{a, b}, {b, a}, {a, a}, {b, b}, {a + b, a}, {a, b + a}, {a + b, a + b}, {b, a + a}, {a + a, a + a}, {b + a, b}}, {a, b, c}});
  };
  S("ascii", U"a", U"b", U"c"); S("two-byte", U"é", U"b", U"ñ"); S("astral", U"\U0001F600", U"中", U"x");
  sets.push_back({"prefix", U"a", U"b", U"c", "##", {{"a", "##b"}, {"##b", "##a"}, {"##a", "##b"}, {"a", "##a"}, {"##a", "##a"}, {"ab", "##a"}, {"a", "##ba"}, {"##ab", "##ab"}}, {"a", "b", "c", "##a", "##b", "##c"}});
  for (auto &s : sets) {
    const Set *sp = &s;
    int K = T ? 5 : 4, L = 6; uint64_t n = n_perm(s.cand.size(), s.name == "ascii" ? K : K - 1);
    mc::Family m; m.name = "merge-lists/" + s.name; m.count = n;
    m.run = [=](uint64_t i, mc::Ctx &x) {
      Cfg c; c.mod = build(sp->base, sp->cand, nth_perm(sp->cand.size(), i), sp->prefix);
      Ref r(c); auto t = impl::make(c);
      uint64_t nw = mc::n_strings(2, T ? L + 1 : L - (sp->name == "ascii"));
      for (uint64_t w = 0; w < nw && !x.failed; w++) {
        U u; for (int k : mc::nth_string(2, w)) u += k ? sp->b : sp->a;
        std::string d = cmp(r, *t, u, x);
        if (!d.empty()) x.fail(dump(jmod(c.mod)) + ": " + d);
      }
      // longer runs where overlapping candidates and many stale queue entries occur
      for (int len : {9, 16, 33}) for (int pat = 0; pat < 8 && !x.failed; pat++) {
        U u; for (int k = 0; k < len; k++) u += (pat >> (k % 3)) & 1 ? sp->b : sp->a;
        std::string d = cmp(r, *t, u, x);
        if (!d.empty()) x.fail(dump(jmod(c.mod)) + ": " + d);
      }
    };
    m.describe = [=](uint64_t i) { std::string d; for (int k : nth_perm(sp->cand.size(), i)) d += "(" + sp->cand[k].l + "," + sp->cand[k].r + ") "; return "merges " + d + ", all words"; };
    m.bound = "every ordered list of at most " + std::to_string(s.name == "ascii" ? K : K - 1) + " of the merges " + pairs(s.cand) + " x all words of two letters up to length " + std::to_string(L) + " and periodic words up to 33";
    f.push_back(m);
  }
  // options: unknown characters, fusing, byte fallback, suffix, prefix, ignore_merges, missing byte tokens; every word over a mixed alphabet
  {
    static U alpha = U"ab\u00E9中\U0001F600 ";
    mc::Mix mix{{2, 3, 2, 2, 2, 3, 4}};  // fuse, unk(null, present, named but absent), fallback, ignore, prefix, suffix(null,"</w>","é"), vocabulary variant
    mc::Family m; m.name = "options"; m.count = mix.total();
    static auto mk = [](const std::vector<uint64_t> &v) {
      Cfg c; Mod &m = c.mod; m.type = "BPE"; m.fuse = v[0]; if (v[1]) m.unk = v[1] == 1 ? "<unk>" : "<missing>"; m.fallback = v[2]; m.ignore = v[3];
      if (v[4]) m.prefix = "##"; if (v[5]) m.suffix = v[5] == 1 ? "</w>" : "é";
      std::string p = m.prefix.value_or(""), s = m.suffix.value_or("");
      add_vocab(m, "<unk>");
      for (std::string ch : {"a", "b"}) { add_vocab(m, ch); add_vocab(m, p + ch); add_vocab(m, ch + s); if (v[6] != 1) add_vocab(m, p + ch + s); }
      if (v[6] >= 2) { add_vocab(m, "é"); add_vocab(m, p + "é"); add_vocab(m, p + "é" + s); }
      for (int b : {0xC3, 0xA9, 0xE4, 0xB8, 0xAD, 0xF0, 0x9F, 0x98, 0x80, 0x20}) { if (v[6] == 1 && b == 0x98) continue; if (v[6] == 3 && b == 0xAD) continue; char t[8]; snprintf(t, 8, "<0x%02X>", b); add_vocab(m, t); }
      size_t pl = p.size();
      auto mg = [&](const std::string &l, const std::string &r) { m.merges.push_back({l, r}); add_vocab(m, l + r.substr(pl)); };
      mg("a", p + "b"); mg(p + "b", p + "a" + s); mg("<0xE4>", "<0xB8>"); if (p.empty()) { mg("<unk>", "a"); mg("<0xC3>", "<0xA9>"); mg("b", "b"); } else mg("ab", p + "a" + s);
      add_vocab(m, "abab"); add_vocab(m, "ab" "é"); add_vocab(m, "中");
      if (v[6] == 1) m.vocab.pop_back();
      return c;
    };
    int L = T ? 6 : 4; uint64_t nw = mc::n_strings(alpha.size(), L);
    m.run = [=](uint64_t i, mc::Ctx &x) {
      Cfg c = mk(mix.at(i)); Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < nw && !x.failed; w++) { std::string d = cmp(r, *t, cfgs::letters(alpha, w), x); if (!d.empty()) x.fail(dump(jmod(c.mod)).substr(0, 700) + ": " + d); }
    };
    m.describe = [=](uint64_t i) { return "options " + dump(jmod(mk(mix.at(i)).mod)).substr(0, 300); };
    m.bound = "every combination of fuse_unk, unknown token (null, present, absent), byte_fallback, ignore_merges, prefix, suffix and four vocabularies x all words of at most " + std::to_string(L) + " over 'ab\\u{e9}\\u{4e2d}\\u{1f600} '";
    f.push_back(m);
  }
  {  // a realistic byte-level model inside a text, with added tokens
    static Cfg c = cfgs::gpt2(); int L = T ? 6 : 5; U alpha = U"ab é1's";
    uint64_t tot = mc::n_strings(alpha.size(), L);
    mc::Family m; m.name = "texts"; m.count = (tot + 255) / 256;
    m.run = [=](uint64_t b, mc::Ctx &x) {
      static Ref r(c); static auto t = impl::make(c);
      for (uint64_t i = b * 256; i < std::min(tot, (b + 1) * 256) && !x.failed; i++) { std::string d = cmp(r, *t, cfgs::letters(alpha, i), x); if (!d.empty()) x.fail(d); }
    };
    m.describe = [=](uint64_t b) { return "256 texts from '" + mc::esc(cfgs::letters(alpha, b * 256)) + "'"; };
    m.bound = "all texts of at most " + std::to_string(L) + " characters, byte-level configuration";
    f.push_back(m);
  }
  {  // many merges: ranks beyond 8, chains, duplicate merges, merges whose parts are missing
    static U alpha = U"abc";
    mc::Family m; m.name = "chains"; m.count = 64;
    m.run = [=](uint64_t i, mc::Ctx &x) {
      Cfg c; Mod &m = c.mod; m.type = "BPE";
      for (const char *s : {"a", "b", "c"}) add_vocab(m, s);
      std::vector<std::pair<std::string, std::string>> all;
      for (uint64_t p = 1; p < mc::n_strings(3, 4); p++) {
        std::string s; for (int k : mc::nth_string(3, p)) s += (char)('a' + k);
        if (s.size() < 2) continue;
        for (size_t cut = 1; cut < s.size(); cut++) all.push_back({s.substr(0, cut), s.substr(cut)});
      }
      // a deterministic pseudo-shuffle picks the order; i selects multiplier and count
      uint64_t mul[] = {1, 5, 7, 11, 13, 17, 19, 23}; size_t cnt[] = {12, 30, 60, 100, 160, 200, 240, 270};
      size_t n = all.size();
      for (size_t k = 0, pos = i; k < std::min(cnt[i / 8], n); k++, pos = (pos + mul[i % 8] * 8 + 1) % n) m.merges.push_back(all[pos]);
      std::set<std::string> have{"a", "b", "c"};
      for (auto &g : m.merges) { std::string s = g.first + g.second; if ((s.size() * 7 + s[0] + s[1]) % 11 == 0) continue; if (have.insert(s).second) add_vocab(m, s); }
      m.merges.push_back(m.merges[0]); m.merges.push_back({"a", "zz"}); m.merges.push_back({"a", ""});
      for (size_t k = 0; k < m.vocab.size(); k++) m.vocab[k].second = (int)(m.vocab.size() - 1 - k);
      Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < mc::n_strings(3, T ? 9 : 6) && !x.failed; w++) { std::string d = cmp(r, *t, cfgs::letters(alpha, w), x); if (!d.empty()) x.fail(d); }
    };
    m.describe = [](uint64_t i) { return "merge list number " + std::to_string(i) + " of up to 270 merges over three letters, all words"; };
    m.bound = "64 long merge lists x all words over three letters up to length " + std::to_string(T ? 9 : 6);
    f.push_back(m);
  }
  {  // dropout: the result is one of the segmentations reachable by merges
    static std::vector<double> ds = {0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 1.0};
    static std::vector<Mod> ms = [] { auto a = cfgs::m_bpe_chars(); auto b = cfgs::m_bpe_affix(); b.unk = "[UNK]"; auto c = cfgs::m_bpe_fallback(); return std::vector<Mod>{a, b, c}; }();
    mc::Mix mix{{ds.size(), ms.size()}};
    mc::Family m; m.name = "dropout"; m.count = mix.total();
    m.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); Cfg c; c.mod = ms[v[1]]; c.mod.dropout = ds[v[0]];
      U alpha = v[1] == 1 ? U"abs" : U"ab\u00E9▁";
      auto t = impl::make(c);
      Cfg c1 = c; c1.mod.dropout = 1; Ref none(c1);          // start symbols: no merge at all
      std::map<std::string, int> voc; for (auto &p : c.mod.vocab) voc[p.first] = p.second;
      std::map<int, std::string> rev; for (auto &p : voc) rev[p.second] = p.first;
      std::map<std::pair<int, int>, int> mg; size_t pl = c.mod.prefix.value_or("").size();
      for (auto &q : c.mod.merges) { auto a = voc.find(q.first), b = voc.find(q.second); if (a == voc.end() || b == voc.end()) continue; auto z = voc.find(a->first + b->first.substr(pl)); if (z != voc.end()) mg.insert({{a->second, b->second}, z->second}); }
      for (uint64_t w = 0; w < mc::n_strings(alpha.size(), T ? 7 : 6) && !x.failed; w++) {
        U u = cfgs::letters(alpha, w);
        bool rej; Enc s = none.encode(u, false, rej);
        std::set<std::vector<int>> seen{s.ids}; std::vector<std::vector<int>> todo{s.ids};
        while (!todo.empty()) {
          auto cur = todo.back(); todo.pop_back();
          for (size_t k = 0; k + 1 < cur.size(); k++) { auto it = mg.find({cur[k], cur[k + 1]}); if (it == mg.end()) continue; auto nx = cur; nx[k] = it->second; nx.erase(nx.begin() + k + 1); x.transitions++; if (seen.insert(nx).second) todo.push_back(nx); }
        }
        std::set<std::vector<int>> got;
        for (int rep = 0; rep < 3; rep++) {
          impl::Out g = impl::encode(*t, u, false);
          x.impl_traces++; x.nontrivial += seen.size() > 1; x.state(impl::ints(g.enc.ids) + mc::esc(u));
          if (g.threw) { x.fail("'" + mc::esc(u) + "' threw " + g.what); break; }
          if (!seen.count(g.enc.ids)) { x.fail("'" + mc::esc(u) + "' gave " + show(g.enc) + ", not among the " + std::to_string(seen.size()) + " segmentations reachable by merges"); break; }
          for (size_t k = 0; k < g.enc.ids.size(); k++) if (rev[g.enc.ids[k]] != g.enc.tokens[k]) { x.fail("token string differs from the vocabulary in " + show(g.enc)); break; }
          if (ds[v[0]] >= 1 && g.enc.ids != s.ids) { x.fail("dropout 1 merged: " + show(g.enc)); break; }
        }
      }
    };
    m.describe = [=](uint64_t i) { auto v = mix.at(i); return "dropout " + std::to_string(ds[v[0]]) + " model " + std::to_string(v[1]) + ", all words, result among all segmentations reachable by merges"; };
    m.bound = "eight dropout values x three models x all words of at most 6 characters, three times each";
    f.push_back(m);
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({vocabulary(70000, "BPE"), ids("BPE"), merges(k > 1 ? 140000 : 70000), entry_length(2049, "BPE"), word_length(8193 * k, "BPE")}, scale::full)); }
  return mc::main_(argc, argv, "C08", f, "at least one merge applies");
}
