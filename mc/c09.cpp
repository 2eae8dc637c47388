// C09: added tokens are found in every text exactly as configured.
#include "fam.h"
#include "scale.h"
using namespace ref;

static size_t NV = 17;
static std::string cmp(Ref &r, Tokenizer &t, const U &u, mc::Ctx &x) {
  bool rej; Enc w = r.encode(u, false, rej);
  impl::Out g = impl::encode(t, u, false);
  x.impl_traces++; x.transitions += 1 + w.ids.size(); x.state(show(w));
  bool some = false; for (int i : w.ids) if (i >= (int)NV) some = true;
  x.nontrivial += some;
  if (g.threw) return "text '" + mc::esc(u) + "' threw " + g.what;
  if (w.ids != g.enc.ids || w.tokens != g.enc.tokens || w.words != g.enc.words) return "text '" + mc::esc(u) + "'\n  expected " + show(w) + "\n  got      " + show(g.enc);
  return "";
}
// a model that spells every other character on its own; ids below 17, added tokens from there on
static Mod speller() {
  Mod m; m.type = "BPE"; m.unk = "<unk>";
  for (const char *s : {"<unk>", "a", "b", "c", " ", "é", "A", "B", ".", "1", "e", "\xCC\x81", "▁", "_", "\n", "\xC2\xA0", "x"}) m.vocab.push_back({s, (int)m.vocab.size()});
  return m;
}
static Added tok(const std::string &c, int flags) { Added a; a.content = c; a.single = flags & 1; a.l = flags & 2; a.r = flags & 4; a.norm = flags & 8; a.special = flags & 16; return a; }
static std::string fl(const Added &a) { return "'" + mc::esc(a.content) + "'" + (a.single ? " single" : "") + (a.l ? " lstrip" : "") + (a.r ? " rstrip" : "") + (a.norm ? " normalized" : "") + (a.special ? " special" : ""); }
static void fix(Cfg &c) { Ref r(c); for (auto &a : c.added) if (auto i = r.id_of(a.content)) a.id = *i; }

int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  using namespace cfgs;
  static Mod M = speller();
  static std::vector<std::pair<std::string, Norm>> N = {{"none", Norm()}, {"lower+nfd", n_bert(false, false, true, true)}, {"replace a->''", n_replace("a", "")}, {"prepend+replace", n_seq({n_prepend("▁"), n_replace(" ", "▁")})}, {"nfc+strip", n_seq({n_("NFC"), n_strip(true, true)})}};
  static std::vector<std::string> C = {"a", "ab", "b a", " a", "a ", "é", "e\xCC\x81", "AB", "aa", "\U0001F600", ".", "  ", "a.b"};
  {  // one token: every content, flag combination and normalizer x every text
    mc::Mix mix{{C.size(), 32, N.size()}};
    static U al = U"ab é."; static U al2 = U"aAB e\u0301\U0001F600";
    uint64_t n1 = mc::n_strings(al.size(), T ? 6 : 4), n2 = mc::n_strings(al2.size(), T ? 4 : 3);
    auto mk = [](const std::vector<uint64_t> &v) { Cfg c; c.mod = M; c.norm = N[v[2]].second; c.added = {tok(C[v[0]], v[1])}; fix(c); return c; };
    f.push_back(fam::blocks("one-token", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = mk(mix.at(i)); Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < n1 + n2; w++) { std::string d = cmp(r, *t, w < n1 ? letters(al, w) : letters(al2, w - n1), x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "token " + fl(tok(C[v[0]], v[1])) + ", normalizer " + N[v[2]].first; }, std::to_string(C.size()) + " contents x 32 flag combinations x 5 normalizers x all texts of at most " + std::to_string(T ? 6 : 4) + " over 'ab \\u{e9}.' and " + std::to_string(T ? 4 : 3) + " over 'aAB e\\u{301}\\u{1f600}'"));
  }
  {  // pairs with overlapping contents, in both orders, every flag combination of both
    static std::vector<std::pair<int, int>> pr; static std::vector<std::string> D = {"a", "ab", "b", "ba", "a b", "aba", " b"};
    for (int i = 0; i < (int)D.size(); i++) for (int j = 0; j < (int)D.size(); j++) if (i != j && (T || i < j || (i + j) % 2)) pr.push_back({i, j});
    mc::Mix mix{{pr.size(), T ? 32u : 16u, T ? 32u : 16u, T ? 3u : 1u}};
    static U al = U"ab "; uint64_t n = mc::n_strings(3, T ? 6 : 5);
    auto mk = [=](const std::vector<uint64_t> &v) { Cfg c; c.mod = M; c.norm = v[3] == 0 ? n_replace("b", "b") : v[3] == 1 ? Norm() : n_replace("ba", "a"); c.added = {tok(D[pr[v[0]].first], v[1] ^ (T ? 0 : 16 * (v[0] % 2))), tok(D[pr[v[0]].second], v[2])}; fix(c); return c; };
    f.push_back(fam::blocks("two-tokens", mix.total(), 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = mk(mix.at(i)); Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < n; w++) { std::string d = cmp(r, *t, letters(al, w), x); if (!d.empty()) return "tokens " + fl(c.added[0]) + ", " + fl(c.added[1]) + " " + d; }
      return "";
    }, [=](uint64_t i) { Cfg c = mk(mix.at(i)); return "tokens " + fl(c.added[0]) + ", " + fl(c.added[1]); }, std::to_string(pr.size()) + " pairs of overlapping contents x flags of both x all texts of at most " + std::to_string(T ? 6 : 5) + " over 'ab '"));
  }
  {  // tokens that differ in the text but have one normalized spelling: which of them a match becomes
    static std::vector<std::string> D = {"a", "A", "É", "é", "E\xCC\x81", "aB", "AB", "ab"};
    static std::vector<int> fls = {8, 24, 9, 14, 0, 16};
    mc::Mix mix{{D.size(), D.size(), fls.size(), fls.size(), 3, 2}};
    auto mk = [](const std::vector<uint64_t> &v) { Cfg c; c.mod = M; c.norm = v[4] == 0 ? N[1].second : v[4] == 1 ? n_bert(false, false, std::nullopt, true) : n_seq({n_("NFC"), n_replace("A", "a")}); c.added = {tok(D[v[0]], fls[v[2]]), tok(D[v[1]], fls[v[3]])}; if (v[5]) c.added.push_back(tok("aa", 8)); fix(c); return c; };
    static U al = U"aAbBeE\u00C9\u00E9\u0301"; uint64_t n = mc::n_strings(al.size(), T ? 3 : 2);
    f.push_back(fam::blocks("same-spelling", mix.total(), 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); if (v[0] == v[1]) return "";
      Cfg c = mk(v); Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < n; w++) { std::string d = cmp(r, *t, letters(al, w), x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { Cfg c = mk(mix.at(i)); return "tokens " + fl(c.added[0]) + ", " + fl(c.added[1]) + " normalizer " + dump(jnorm(c.norm)); }, "ordered pairs of eight contents that normalize alike x 6 flag combinations each x 3 normalizers x (alone, with a longer token) x all texts of at most " + std::to_string(T ? 3 : 2) + " of nine characters"));
  }
  {  // triples
    static std::vector<std::string> D = {"a", "ab", "b a", "aba", " "};
    std::vector<std::vector<int>> tr; for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) for (int k = 0; k < 5; k++) if (i != j && j != k && i != k) tr.push_back({i, j, k});
    static std::vector<int> fls = {0, 1, 2, 4, 6, 8, 14, 25};
    mc::Mix mix{{tr.size(), fls.size(), fls.size(), T ? fls.size() : 3}};
    auto mk = [=](const std::vector<uint64_t> &v) { Cfg c; c.mod = M; c.added = {tok(D[tr[v[0]][0]], fls[v[1]]), tok(D[tr[v[0]][1]], fls[v[2]]), tok(D[tr[v[0]][2]], fls[T ? v[3] : v[3] * 3])}; fix(c); return c; };
    static U al = U"ab "; uint64_t n = mc::n_strings(3, T ? 6 : 5);
    f.push_back(fam::blocks("three-tokens", mix.total(), 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = mk(mix.at(i)); Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < n; w++) { std::string d = cmp(r, *t, letters(al, w), x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { Cfg c = mk(mix.at(i)); return "tokens " + fl(c.added[0]) + ", " + fl(c.added[1]) + ", " + fl(c.added[2]); }, "ordered triples of five overlapping contents x flag combinations x all texts of at most " + std::to_string(T ? 6 : 5) + " over 'ab '"));
  }
  {  // which characters touch a word / are white space: every scalar value next to a token
    static std::vector<char32_t> cps = fam::sweep(T);
    static std::vector<Cfg> cs;
    for (int fl2 : {1, 2, 4, 7, 9, 14}) { Cfg c; c.mod = M; c.added = {tok("<n>", fl2), tok("é", fl2 ^ 6)}; fix(c); cs.push_back(c); }
    f.push_back(fam::blocks("neighbours", cps.size(), 128, [=](uint64_t i, mc::Ctx &x) -> std::string {
      static std::vector<std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> m;
      if (m.empty()) for (auto &c : cs) m.push_back({std::make_unique<Ref>(c), impl::make(c)});
      U s(1, cps[i]);
      for (auto &p : m) for (auto &u : {s + U"<n>", U"<n>" + s, U"a " + s + U"<n>" + s + s + U" b\u00E9" + s}) { std::string d = cmp(*p.first, *p.second, u, x); if (!d.empty()) return d; }
      return "";
    }, [](uint64_t i) { return fam::cp(cps[i]); }, "every Unicode scalar value before, after and on both sides of a token x 6 flag combinations"));
  }
  {  // with pre-tokenizers and other models
    static std::vector<Pre> P = {p_byte(false, true), p_byte(true, true), p_bert(), p_split("any", "Isolated", false), p_split("ws", "Removed", false)};
    static std::vector<std::vector<Added>> A;
    for (int k = 0; k < 32; k++) A.push_back({tok("[M] x", k), tok("a1", k ^ 15), tok("é", (k * 7 + 3) & 31)});
    static std::vector<U> at = {U"[M] x", U"a1", U"a", U" ", U"é", U"1", U"\n", U"E\u0301", U"A1"};
    mc::Mix mix{{P.size(), A.size(), 3, 3, 2}};
    auto mk = [](const std::vector<uint64_t> &v) { Cfg c; c.pre = P[v[0]]; c.added = A[v[1]]; c.norm = N[v[2]].second; c.mod = v[3] == 0 ? m_wordpiece() : v[3] == 1 ? m_bpe_bytes() : m_bpe_fallback(); fix(c); if (v[4]) id_zero(c, c.added[v[1] % 3].content); return c; };
    uint64_t n = mc::n_strings(at.size(), T ? 4 : 3);
    f.push_back(fam::blocks("pipeline", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = mk(mix.at(i)); Ref r(c); auto t = impl::make(c);
      for (uint64_t w = 0; w < n; w++) { x.nontrivial++; std::string d = cmp(r, *t, concat(at, w), x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { Cfg c = mk(mix.at(i)); return "tokens " + fl(c.added[0]) + ", " + fl(c.added[1]) + ", " + fl(c.added[2]) + " pre-tokenizer " + dump(jpre(c.pre)) + " normalizer " + N[mix.at(i)[2]].first + " model " + std::to_string(mix.at(i)[3]) + (mix.at(i)[4] ? ", one of them with id 0" : ""); }, "5 pre-tokenizers x 32 flag assignments of three tokens x 3 normalizers x 3 models x (new ids, one token with id 0) x all concatenations of at most " + std::to_string(T ? 4 : 3) + " of nine fragments"));
  }
  {  // many tokens: chains of prefixes, hundreds of contents
    mc::Family m;
    static std::vector<Cfg> cs;
    { Cfg c; c.mod = M; for (int k = 20; k >= 1; k--) c.added.push_back(tok(std::string(k, 'a'), k % 3 ? 0 : 8)); fix(c); cs.push_back(c); }
    { Cfg c; c.mod = M; for (int k = 1; k <= 20; k++) c.added.push_back(tok(std::string(k, 'a') + "b", 0)); fix(c); cs.push_back(c); }
    { Cfg c; c.mod = M; for (int k = 0; k < 400; k++) c.added.push_back(tok("<unused" + std::to_string(k) + ">", k % 2 ? 16 : 8)); fix(c); cs.push_back(c); }
    { Cfg c; c.mod = M; for (uint64_t k = 1; k < mc::n_strings(3, 4); k++) c.added.push_back(tok(to8(letters(U"ab ", k)), (k * 5) & 23)); fix(c); cs.push_back(c); }
    static std::vector<U> xs;
    for (int len = 0; len <= 60; len++) { xs.push_back(U(len, U'a')); xs.push_back(U(len, U'a') + U"b" + U(len / 2, U'a')); U u; for (int k = 0; k < len; k++) u += U"ab "[(k * k + len) % 3]; xs.push_back(u); }
    for (int k = 0; k < 401; k++) { std::string s = "x <unused" + std::to_string(k) + "> <unused" + std::to_string(k * 7 % 400) + "><unused"; xs.push_back(from8(s)); }
    f.push_back(fam::blocks("many-tokens", cs.size() * xs.size(), 16, [](uint64_t i, mc::Ctx &x) -> std::string {
      static std::map<int, std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> made;
      int k = i / xs.size(); auto &m = made[k]; if (!m.first) { m.first = std::make_unique<Ref>(cs[k]); m.second = impl::make(cs[k]); }
      return cmp(*m.first, *m.second, xs[i % xs.size()], x);
    }, [](uint64_t i) { return "token set " + std::to_string(i / xs.size()) + " text '" + mc::esc(xs[i % xs.size()]) + "'"; }, "sets of 20 to 400 tokens (prefix chains, all words over three letters) x texts up to 90 characters"));
  }
  {  // tokens added after construction behave like those of the file
    mc::Mix mix{{C.size(), 32, C.size()}};
    static U al = U"ab é."; uint64_t n = mc::n_strings(al.size(), 3);
    f.push_back(fam::blocks("added-later", mix.total(), 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Cfg c; c.mod = M; c.norm = n_replace("b", "b"); c.added = {tok(C[v[0]], 0)}; fix(c);
      Ref r(c); auto t = impl::make(c); Added a = tok(C[v[2]], v[1]);
      if (v[2] == v[0]) return "";
      r.add({a}); if (a.special) t->add_special_tokens(impl::added({a})); else t->add_tokens(impl::added({a}));
      for (uint64_t w = 0; w < n; w++) { std::string d = cmp(r, *t, letters(al, w), x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "token '" + C[v[0]] + "' in the file, then added " + fl(tok(C[v[2]], v[1])); }, "a token of the file x a token added later, all flag combinations x all texts of at most 3"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({added_count(1025 * k), added_length(1025 * k)}, scale::full)); }
  return mc::main_(argc, argv, "C09", f, "an added token is recognized");
}
