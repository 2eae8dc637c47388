// C07: WordPiece segments every word greedily, longest match first.
#include <algorithm>
#include "cfgs.h"
#include "scale.h"
#include "impl.h"
using namespace ref;

// independent statement of the greedy segmentation on a list of words: the reference Ref is used for whole encodings
static std::string cmp(Ref &r, Tokenizer &t, const U &u, mc::Ctx &x) {
  bool rej; Enc w = r.encode(u, false, rej);
  impl::Out g = impl::encode(t, u, false);
  x.impl_traces++; x.transitions += 1 + w.ids.size(); x.nontrivial += w.ids.size() > 1; x.state(show(w));
  if (g.threw) return "word '" + mc::esc(u) + "' threw " + g.what;
  if (w.ids != g.enc.ids || w.tokens != g.enc.tokens || w.words != g.enc.words) return "word '" + mc::esc(u) + "'\n  expected " + show(w) + "\n  got      " + show(g.enc);
  return "";
}
struct Alpha { std::string name; U a, b; };
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  // every vocabulary that is a subset of the candidate pieces x every word
  static std::vector<Alpha> al = {{"ascii", U"a", U"b"}, {"two-byte", U"é", U"a"}, {"astral", U"\U0001F600", U"中"}, {"combining", U"e", U"\u0301"}};
  static std::vector<std::pair<std::string, std::optional<std::string>>> pf = {{"##", "##"}, {"empty", ""}, {"null", std::nullopt}, {"non-ascii", "é"}};
  for (size_t ai = 0; ai < al.size(); ai++) for (size_t pi = 0; pi < pf.size(); pi++) {
    if (ai && pi == 2) continue;
    const Alpha A = al[ai]; std::string p = pf[pi].second.value_or("");
    std::vector<U> pieces;
    for (uint64_t i = 1; i < mc::n_strings(2, 3); i++) { U u; for (int k : mc::nth_string(2, i)) u += k ? A.b : A.a; if (u.size() < 3 || i == 7 || i == 8 || i == 10) pieces.push_back(u); }
    std::vector<std::string> cand;
    for (auto &u : pieces) cand.push_back(to8(u));
    if (!p.empty()) for (auto &u : pieces) { if (u.size() == 3 && cand.size() > 15) continue; cand.push_back(p + to8(u)); }
    int n = cand.size(); int lim = T ? 16 : 11;
    if (ai || pi) lim = T ? 13 : 9;
    // keep the pieces that matter most first: single characters of both kinds, then pairs
    std::stable_sort(cand.begin(), cand.end(), [](auto &a, auto &b) { return a.size() < b.size(); });
    if (n > lim) { std::vector<std::string> c2; for (int i = 0; i < n; i++) if ((i * lim) / n != ((i + 1) * lim) / n) c2.push_back(cand[i]); cand = c2; }
    int L = T ? 7 : 6;
    mc::Family m; m.name = "vocabularies/" + A.name + "/prefix-" + pf[pi].first; m.count = 1ull << cand.size();
    m.run = [=](uint64_t i, mc::Ctx &x) {
      Cfg c; c.mod.type = "WordPiece"; c.mod.unk = "[UNK]"; c.mod.prefix = pf[pi].second; c.mod.max_chars = 100;
      c.mod.vocab.push_back({"[UNK]", 0});
      for (size_t k = 0; k < cand.size(); k++) if (i >> k & 1) { bool dup = false; for (auto &v : c.mod.vocab) dup |= v.first == cand[k]; if (!dup) c.mod.vocab.push_back({cand[k], (int)c.mod.vocab.size() * 3 % 31 + 1}); }
      for (size_t k = 0; k < c.mod.vocab.size(); k++) c.mod.vocab[k].second = (int)((k * 7 + 3) % 1000);   // ids in no particular order
      Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < mc::n_strings(2, L) && !x.failed; w++) {
        U u; for (int k : mc::nth_string(2, w)) u += k ? A.b : A.a;
        std::string d = cmp(r, *t, u, x);
        if (!d.empty()) x.fail("vocabulary " + dump(jmod(c.mod)) + ": " + d);
      }
    };
    std::string cs; for (auto &s : cand) cs += mc::esc(s) + " ";
    m.describe = [=](uint64_t i) { std::string d; for (size_t k = 0; k < cand.size(); k++) if (i >> k & 1) d += cand[k] + " "; return "vocabulary { [UNK] " + d + "}, all words"; };
    m.bound = "all subsets of { " + cs + "} x all words of at most " + std::to_string(L) + " characters over two letters";
    f.push_back(m);
  }
  {  // limits: word length around max_input_chars_per_word, counted in characters
    static std::vector<U> ch = {U"a", U"é", U"中", U"\U0001F600", U"e\u0301"};
    static std::vector<int> mx = {0, 1, 2, 3, 5, 99, 100, 101, 200, 1000};
    mc::Mix mix{{ch.size(), mx.size(), 3}};
    mc::Family m; m.name = "length-limit"; m.count = mix.total();
    m.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i);
      Cfg c; c.mod.type = "WordPiece"; c.mod.unk = v[2] == 2 ? "<none>" : "[UNK]"; c.mod.prefix = "##"; c.mod.max_chars = mx[v[1]];
      if (v[2] == 2) c.mod.unk = "[UNK]";
      c.mod.vocab = {{"a", 7}, {"##a", 1}, {"é", 2}, {"##é", 3}, {"中", 4}, {"##中", 5}, {"[UNK]", 6}, {"😀", 8}, {"##😀", 9}, {"e", 10}, {"##\xCC\x81", 11}, {"##e", 12}};
      if (v[2] == 1) c.mod.vocab.push_back({"##aa", 13});
      Ref r(c); auto t = impl::make(c);
      for (int n = 0; n <= mx[v[1]] + 3 && !x.failed; n++) {
        if (mx[v[1]] >= 1000 && n > 5 && n < mx[v[1]] - 4) continue;
        U u; while ((int)u.size() < n) u += ch[v[0]];
        u.resize(n);
        std::string d = cmp(r, *t, u, x);
        if (!d.empty()) x.fail("limit " + std::to_string(mx[v[1]]) + " length " + std::to_string(n) + ": " + d);
      }
    };
    m.describe = [=](uint64_t i) { auto v = mix.at(i); return "limit " + std::to_string(mx[v[1]]) + ", words of 0..limit+3 characters '" + mc::esc(ch[v[0]]) + "'"; };
    m.bound = "ten limits x five kinds of characters x every length up to limit+3 (around the limit only for 1000)";
    f.push_back(m);
  }
  {  // words inside a text: pre-tokenized, added and special tokens not segmented, every text over an alphabet
    static Cfg cs[3];
    for (int k = 0; k < 3; k++) {
      Cfg &c = cs[k]; c.mod = cfgs::m_wordpiece(); c.mod.max_chars = 4; if (k < 2) c.pre = cfgs::p_bert();
      Added a; a.content = "ab"; a.norm = k == 1; a.single = k == 0; a.special = k == 1; Added b; b.content = "abab"; b.norm = false; Added s; s.content = "[M]"; s.norm = false; s.special = true;
      c.added = {a, s}; if (k != 1) c.added.push_back(b);
      if (k == 1) { Added q; q.content = "a b"; c.added.push_back(q); }
    }
    int L = T ? 6 : 5; U alpha = U"ab s1é[M]";
    uint64_t tot = mc::n_strings(alpha.size(), L);
    for (int k = 0; k < 3; k++) {
      mc::Family m; m.name = "texts/" + std::to_string(k); m.count = (tot + 255) / 256;
      m.run = [=](uint64_t b, mc::Ctx &x) {
        static std::unique_ptr<Ref> r[3]; static std::unique_ptr<Tokenizer> t[3];
        if (!r[k]) { r[k] = std::make_unique<Ref>(cs[k]); t[k] = impl::make(cs[k]); }
        for (uint64_t i = b * 256; i < std::min(tot, (b + 1) * 256) && !x.failed; i++) { std::string d = cmp(*r[k], *t[k], cfgs::letters(alpha, i), x); if (!d.empty()) x.fail(d); }
      };
      m.describe = [=](uint64_t b) { return "256 texts from '" + mc::esc(cfgs::letters(alpha, b * 256)) + "', added tokens of set " + std::to_string(k); };
      m.bound = "all texts of at most " + std::to_string(L) + " characters over 'ab s1\\u{e9}[M]' with added tokens";
      f.push_back(m);
    }
  }
  {  // long entries and long words: every split point of one long entry
    mc::Family m; m.name = "long-entries"; m.count = 99;
    m.run = [](uint64_t i, mc::Ctx &x) {
      int n = i + 1;
      Cfg c; c.mod.type = "WordPiece"; c.mod.unk = "[UNK]"; c.mod.prefix = "##"; c.mod.max_chars = 100;
      std::string a(n, 'a'), b(100 - n, 'a');
      c.mod.vocab = {{"[UNK]", 0}, {a, 1}, {"##" + b, 2}, {"##b", 3}, {"##中" + b, 4}, {a + "é", 5}};
      Ref r(c); auto t = impl::make(c);
      for (int len = 0; len <= 101 && !x.failed; len++) for (const U &tail : {U(), U(U"b"), U(U"é"), U(U"éb"), U(U"中") + from8(b)}) {
        std::string d = cmp(r, *t, U(len, 'a') + tail, x);
        if (!d.empty()) { x.fail(d); break; }
      }
    };
    m.describe = [](uint64_t i) { return "entries of " + std::to_string(i + 1) + " and " + std::to_string(99 - i) + " letters, words of 0..101 letters with five endings"; };
    m.bound = "entry lengths 1..99, words of 0..101 letters";
    f.push_back(m);
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({vocabulary(70000, "WordPiece"), ids("WordPiece"), entry_length(300 * std::min(k, 3L), "WordPiece"), word_length(4097 * k, "WordPiece")}, scale::full)); }
  return mc::main_(argc, argv, "C07", f, "the text becomes more than one token");
}
