// C01: every encoding is structurally consistent and agrees with the vocabulary.
#include <map>
#include <set>

#include "scale.h"
using namespace ref;
struct Voc { std::map<int, std::set<std::string>> rev; std::set<std::string> added; std::set<std::pair<int, std::string>> specials; };
static void specials(const Post &p, Voc &v) {
  for (auto &s : p.specials) for (size_t i = 0; i < s.ids.size(); i++) v.specials.insert({s.ids[i], s.tokens[i]});
  for (auto &q : p.seq) specials(q, v);
}
static std::string inner(const Cfg &c, const Voc &v, const Enc &e, bool add, const std::string &at) {
  auto bad = [&](const std::string &m, size_t i) { return at + " position " + std::to_string(i) + ": " + m + " in " + show(e); };
  int n = e.ids.size(), first = -1, last = -1, zeros = 0, word = -1;
  for (int i = 0; i < n; i++) {
    int a = e.attention[i], s = e.special[i];
    if ((a != 0 && a != 1) || (s != 0 && s != 1)) return bad("mask value outside {0,1}", i);
    if (!a) {
      if (first < 0) first = i;
      last = i; zeros++;
      if (!c.pad.on) return bad("attention 0 without padding", i);
      if (!s || e.ids[i] != c.pad.id || e.type_ids[i] != c.pad.type || e.tokens[i] != c.pad.tok || e.offsets[i] != R{0, 0}) return bad("not a padding entry but attention 0", i);
    } else if (s) {
      if (!add) return bad("special position without special tokens", i);
      if (e.words[i]) return bad("word index on a template-inserted position", i);
      if (e.offsets[i] != R{0, 0}) return bad("offsets on a template-inserted position", i);
      if (!v.specials.count({e.ids[i], e.tokens[i]})) return bad("not a special token of the template but special mask 1", i);
    } else {
      if (!e.words[i]) return bad("no word index on a text position", i);
      if (*e.words[i] < word) return bad("word index decreases", i);
      word = *e.words[i];
      auto it = v.rev.find(e.ids[i]);
      if (it == v.rev.end()) return bad("unknown id", i);
      if (!it->second.count(e.tokens[i])) {
        // an added token's string is the matched text; anything else must be the vocabulary's own string
        bool ad = false;
        for (auto &s2 : it->second) if (v.added.count(s2)) ad = true;
        if (!ad) return bad("the id does not map back to the token string", i);
      }
    }
  }
  if (zeros && (last - first + 1 != zeros || (c.pad.dir == "Left" ? first != 0 : last != n - 1))) return bad("padding is not one run on the configured side", first);
  for (size_t i = 0; i < e.over.size(); i++) { auto d = inner(c, v, e.over[i], add, at + ".over[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
  return "";
}
static bool same_ids(const Enc &a, const Enc &b) {
  if (a.ids != b.ids || a.over.size() != b.over.size()) return false;
  for (size_t i = 0; i < a.over.size(); i++) if (!same_ids(a.over[i], b.over[i])) return false;
  return true;
}
static std::string marks(const Enc &w, const Enc &g, const std::string &at) {
  if (w.special != g.special || w.attention != g.attention || w.words != g.words || w.tokens != g.tokens) return at + ": masks, words or tokens differ\n expected " + show(w) + "\n got " + show(g);
  for (size_t i = 0; i < w.over.size(); i++) { auto d = marks(w.over[i], g.over[i], at + ".over"); if (!d.empty()) return d; }
  return "";
}
int main(int argc, char **argv) {
  auto j = [](const Cfg &c, const U &, bool add, const Enc &w, bool rej, const impl::Out &g) -> std::string {
    if (rej || g.threw) return "";
    std::string d = impl::wellformed(g.enc);
    if (!d.empty()) return d;
    static long uid = 0; static Voc v;
    if (c.uid != uid) {
      uid = c.uid; v = Voc();
      if (!c.mod.type.empty()) for (auto &x : c.mod.vocab) v.rev[x.second].insert(x.first);
      Ref r(c);
      for (auto &a : c.added) { v.rev[*r.id_of(a.content)].insert(a.content); v.added.insert(a.content); }
      specials(c.post, v);
    }
    d = inner(c, v, g.enc, add, "main");
    if (!d.empty()) return d;
    return same_ids(w, g.enc) ? marks(w, g.enc, "main") : "";
  };
  auto f = explore::families(j);
  auto k = mc::thorough() ? 8 : 1;
  using namespace scale;
  append(f, families({text_length(1025 * k), distinct_words(4097 * k), added_count(300 * k), windows(300 * k), many_words(66000 * k), padding(1025 * k), templates(257 * k)}, j));
  {  // every tokenizer differing in one parameter (also unknown tokens that are empty) x limits, on every text of the list and all short texts
    static std::vector<cfgs::Named> V;
    for (auto &v : cfgs::variants()) { bool in = !v.c.mod.unk; for (auto &p : v.c.mod.vocab) in |= p.first == v.c.mod.unk; if (in) V.push_back(v); }   // the unknown token, if any, is in the vocabulary
    static std::vector<U> tx = cfgs::texts(); static std::vector<std::vector<U>> shorts;
    for (auto &v : V) { std::vector<U> s; for (uint64_t i = 0; i < mc::n_strings(v.alphabet.size(), 2); i++) s.push_back(cfgs::letters(v.alphabet, i)); for (auto &u : tx) s.push_back(u); shorts.push_back(s); }
    mc::Mix mix{{V.size(), 4}};
    auto mk = [](const std::vector<uint64_t> &v) { Cfg c = V[v[0]].c; if (v[1] & 1) { c.pad.on = true; c.pad.fixed = 6; c.pad.mult = 4; } if (v[1] & 2) c.trunc = Trunc{true, "Right", "LongestFirst", 3, 1}; return c; };
    mc::Family u; u.name = "variants"; u.count = mix.total(); u.chunk = 4; u.bound = std::to_string(V.size()) + " tokenizers differing in one parameter x truncation x padding, on every text of up to two letters of their alphabet and " + std::to_string(tx.size()) + " others";
    u.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); Cfg c = mk(v); std::unique_ptr<Tokenizer> t;
      static long uid = 1L << 40; c.uid = ++uid;
      try { t = impl::make(c); } catch (const std::exception &e) { return; }
      Ref r(c);
      for (auto &s : shorts[v[0]]) for (int add = 0; add < 2; add++) {
        bool rej; Enc w = r.encode(s, add, rej); impl::Out g = impl::encode(*t, s, add);
        x.impl_traces++; x.transitions += 1 + s.size(); x.nontrivial += !w.ids.empty(); x.state(show(w));
        std::string d = j(c, s, add, w, rej, g);
        if (!d.empty()) { x.fail("text '" + mc::esc(s) + "': " + d); return; }
      }
    };
    u.describe = [=](uint64_t i) { auto v = mix.at(i); return V[v[0]].name + ": " + dump(jcfg(mk(v))); };
    f.push_back(u);
  }
  {  // special tokens with more or fewer tokens than ids: rejected, or still consistent
    mc::Mix mix{{5, 5, 3, 2, 2, 2}};
    auto mk = [](const std::vector<uint64_t> &v) {
      Cfg c = cfgs::bare(); c.added = {};
      Post p; p.type = "TemplateProcessing"; p.single = {{true, "[X]", 0}, {false, "A", 0}, {true, "[X]", 1}};
      std::vector<int> ids(v[0], 1); std::vector<std::string> toks(v[1], "a");
      p.specials = {{"[X]", ids, toks}};
      c.post = v[2] == 0 ? p : v[2] == 1 ? cfgs::q_seq({p, cfgs::q_byte(true, true)}) : cfgs::q_seq({p, p});
      if (v[3]) c.trunc = Trunc{true, "Right", "LongestFirst", 3, 1};
      c.pad.on = v[4];
      c.pad.dir = v[5] ? "Left" : "Right"; c.pad.fixed = 9;
      return c;
    };
    mc::Family u; u.name = "uneven-special-tokens"; u.count = mix.total(); u.bound = "special tokens of 0-4 ids x 0-4 tokens in a template alone, followed by trimming, or twice x truncation x padding x texts: the configuration is rejected or all sequences have one length";
    u.run = [=](uint64_t i, mc::Ctx &x) {
      Cfg c = mk(mix.at(i)); std::unique_ptr<Tokenizer> t;
      x.impl_traces++; x.transitions++;
      try { t = impl::make(c); } catch (const std::exception &e) { x.state(std::string("rejected ") + e.what()); return; }
      for (const char32_t *s : {U"", U"a", U"ab ba", U"aaaaaaaaaa"}) for (int add = 0; add < 2; add++) {
        impl::Out g = impl::encode(*t, s, add); x.transitions++; x.nontrivial++;
        if (g.threw) continue;
        std::string d = impl::wellformed(g.enc); if (!d.empty()) { x.fail("text '" + mc::esc(U(s)) + "': " + d); return; }
        x.state(impl::show(g));
      }
    };
    u.describe = [=](uint64_t i) { return dump(jcfg(mk(mix.at(i)))); };
    f.push_back(u);
  }
  return mc::main_(argc, argv, "C01", f, "the encoding has at least one token");
}
