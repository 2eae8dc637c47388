// C10: ids of added tokens are stable, unique and decodable, whatever the history of additions.
#include "fam.h"
#include "scale.h"
#include <map>
using namespace ref;

static std::vector<Mod> &models() {
  static std::vector<Mod> m;
  if (m.empty()) {
    Mod b; b.type = "BPE"; for (const char *s : {"a", "b", "c", " ", "ab", "é", "<"}) b.vocab.push_back({s, (int)b.vocab.size()});
    Mod w = b; w.type = "WordPiece"; w.unk = "a"; w.prefix = "##"; w.max_chars = 9; for (const char *s : {"##a", "##b", "##c"}) w.vocab.push_back({s, (int)w.vocab.size()});
    Mod e; e.type = "BPE";
    m = {b, w, e, Mod()};
  }
  return m;
}
static const char *MN[] = {"bpe", "wordpiece", "empty vocabulary", "no model"};
// the operation alphabet: one batch of tokens through one of the two entry points
struct Op { std::string name; bool special; std::vector<Added> ts; };
static Added tok(const std::string &c, const std::string &f = "") { Added a; a.content = c; a.single = f.find('w') != f.npos; a.l = f.find('l') != f.npos; a.r = f.find('r') != f.npos; a.norm = f.find('n') != f.npos; a.special = f.find('s') != f.npos; a.id = 3; return a; }
static std::vector<Op> ops() {
  return {
      {"add x", false, {tok("x")}},
      {"add special y", true, {tok("y", "s")}},
      {"add a (in the model)", false, {tok("a", "n")}},
      {"add special ab (in the model)", true, {tok("ab", "s")}},
      {"add xy,yx", false, {tok("xy"), tok("yx", "n")}},
      {"add '' and x", false, {tok(""), tok("x", "n")}},
      {"add special x", true, {tok("x", "s")}},
      {"add é and 中", false, {tok("é"), tok("中", "w")}},
      {"add y,y,z", false, {tok("y"), tok("y", "n"), tok("z")}},
      {"add nothing", false, {}},
      {"add special batch with plain member", true, {tok("<s>", "s"), tok("q"), tok("", "s")}},
      {"add special flag through add_tokens", false, {tok("<t>", "sl")}},
  };
}
static std::vector<U> &probes() {
  static std::vector<U> p = {U"x", U"y", U"xy", U"yx", U"xyx", U"ab", U"a", U"aab", U"é", U"中", U"z", U"<s>", U"q", U"<t>", U" <t>x", U"xyéab<s>y"};
  return p;
}
// everything observable about the token set
static std::string probe(Ref &r, Tokenizer &t, mc::Ctx &x, int top) {
  std::string seen;
  for (auto &u : probes()) {
    bool rej; Enc w = r.encode(u, false, rej); auto g = impl::encode(t, u, false);
    x.impl_traces++; x.transitions++;
    if (g.threw || g.enc.ids != w.ids || g.enc.tokens != w.tokens) return "text '" + mc::esc(u) + "': expected " + show(w) + " got " + impl::show(g);
    seen += show(w);
  }
  for (int skip = 0; skip < 2; skip++) {
    for (int id = -1; id <= top + 8; id++) {
      std::string w = r.decode({id}, skip); auto g = impl::decode(t, {id}, skip);
      x.impl_traces++; x.transitions++;
      if (g.threw || g.text != w) return "decode id " + std::to_string(id) + (skip ? " skipping special tokens" : "") + ": expected '" + mc::esc(w) + "' got " + impl::show(g);
      seen += "|" + w;
    }
    std::vector<int> all; for (int id = 0; id < top + 8; id++) all.push_back(id);
    std::string w = r.decode(all, skip); auto g = impl::decode(t, all, skip); x.impl_traces++;
    if (g.threw || g.text != w) return "decode all ids: expected '" + mc::esc(w) + "' got " + impl::show(g);
  }
  x.state(seen);
  return "";
}
// direct statement of the rule, independent of the pipeline: each added content has one id, given when first added
struct Ids {
  std::map<std::string, int> id; int vs; const Mod &m;
  std::string apply(const std::vector<Added> &ts) {
    for (auto &a : ts) {
      if (a.content.empty() || id.count(a.content)) continue;
      int n = -1; for (auto &v : m.vocab) if (v.first == a.content && !m.type.empty()) n = v.second;
      if (n < 0) { int mx = -1; for (auto &p : id) mx = std::max(mx, p.second); n = mx >= vs ? mx + 1 : vs; }
      id[a.content] = n;
    }
    return "";
  }
};

int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static auto O = ops();
  static std::vector<std::vector<Added>> file = {{}, {tok("x", "n"), tok("<s>", "s")}, {tok("ab", "w"), tok("b"), tok("xyz")}, {tok(""), tok("y"), tok("y", "s")}};
  {
    int D = T ? 4 : 3;
    uint64_t nh = mc::n_strings(O.size(), D);
    mc::Mix mix{{models().size(), file.size(), nh}};
    auto name = [](uint64_t h) { std::string s; for (int o : mc::nth_string(O.size(), h)) s += (s.empty() ? "" : "; ") + O[o].name; return s; };
    f.push_back(fam::blocks("histories", mix.total(), 32, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Cfg c; c.mod = models()[v[0]]; c.added = file[v[1]];
      int vs = c.mod.type.empty() ? 0 : c.mod.vocab.size();
      Ref r(c); auto t = impl::make(c); Ids ids{{}, vs, c.mod}; ids.apply(c.added);
      auto h = mc::nth_string(O.size(), v[2]);
      x.nontrivial += h.size() > 1;
      for (size_t k = 0; k < h.size(); k++) {
        auto &o = O[h[k]];
        int n; try { n = o.special ? t->add_special_tokens(impl::added(o.ts)) : t->add_tokens(impl::added(o.ts)); } catch (const std::exception &e) { return std::string("adding threw ") + e.what(); }
        int want = 0; for (auto &a : o.ts) want += !a.content.empty();
        r.add(o.ts); ids.apply(o.ts); x.transitions++;
        if (n != want) return "step " + std::to_string(k + 1) + " reported " + std::to_string(n) + " tokens, expected " + std::to_string(want);
        // use in between, so that stale matchers or caches would show
        if (k + 1 < h.size()) { auto d = impl::encode(*t, probes()[(h[k] + k) % probes().size()], false); if (d.threw) return "encode threw " + d.what; }
      }
      // ids: unique per content, and decodable
      for (auto &p : ids.id) {
        auto g = impl::encode(*t, from8(p.first), false); x.impl_traces++;
        if (g.threw) return "encoding '" + p.first + "' threw " + g.what;
        bool longest = g.enc.ids.size() == 1 && g.enc.ids[0] == p.second;
        if (!longest) { bool rej; Enc w = r.encode(from8(p.first), false, rej); if (w.ids == std::vector<int>{p.second} || w.ids != g.enc.ids) return "added token '" + mc::esc(p.first) + "' should encode to id " + std::to_string(p.second) + ", got " + impl::show(g); }
        auto q = impl::decode(*t, {p.second}, false); x.impl_traces++;
        if (q.threw || q.text != p.first) return "id " + std::to_string(p.second) + " should decode to '" + mc::esc(p.first) + "', got " + impl::show(q);
        for (auto &o : ids.id) if (o.first != p.first && o.second == p.second) return "MODEL: ids collide";
      }
      return probe(r, *t, x, vs + (int)ids.id.size());
    }, [=](uint64_t i) { auto v = mix.at(i); return std::string("model ") + MN[v[0]] + ", file tokens " + std::to_string(v[1]) + ", history [" + name(v[2]) + "]"; }, "4 models x 4 added_tokens lists x all sequences of at most " + std::to_string(D) + " of " + std::to_string(O.size()) + " add operations; all ids and 16 texts probed after each"));
  }
  {  // growth: many tokens one at a time, with interleaved duplicates, each probed right after
    int n = T ? 400 : 120;
    f.push_back(fam::blocks("growth", 4 * 4 * 2, 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c; c.mod = models()[i % 4]; c.added = file[i / 4 % 4]; bool sp = i / 16;
      int vs = c.mod.type.empty() ? 0 : c.mod.vocab.size();
      auto t = impl::make(c); Ids ids{{}, vs, c.mod}; ids.apply(c.added);
      for (int k = 0; k < n; k++) {
        std::vector<Added> b = {tok("<t" + std::to_string(k) + ">", k % 3 ? "" : "s")};
        if (k % 5 == 0) b.push_back(tok("<t" + std::to_string(k / 2) + ">", "n"));
        if (k % 7 == 0) b.insert(b.begin(), tok("a"));
        if (sp) t->add_special_tokens(impl::added(b)); else t->add_tokens(impl::added(b));
        ids.apply(b); x.transitions++;
        for (int q : {k, k / 2, 0}) {
          std::string s = "<t" + std::to_string(q) + ">"; int want = ids.id[s]; x.impl_traces++; x.nontrivial++;
          auto g = impl::encode(*t, from8(s + s), false);
          if (g.threw || g.enc.ids != std::vector<int>{want, want}) return "after " + std::to_string(k + 1) + " additions '" + s + s + "' should encode to twice " + std::to_string(want) + ", got " + impl::show(g);
          auto d = impl::decode(*t, {want}, false); if (d.threw || d.text != s) return "id " + std::to_string(want) + " should decode to " + s + ", got " + impl::show(d);
        }
      }
      return "";
    }, [](uint64_t i) { return std::string("model ") + MN[i % 4] + ", file tokens " + std::to_string(i / 4 % 4) + (i / 16 ? ", add_special_tokens" : ", add_tokens"); }, "4 models x 4 lists x 2 entry points, " + std::to_string(n) + " additions"));
  }
  {  // skip-special-tokens drops exactly the tokens added as special: decode every id list, all assignments of the flag
    f.push_back(fam::blocks("skip-special", 2 * 256, 4, [](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c; c.mod = models()[i % 2]; std::vector<Added> ts; int bits = i / 2;
      const char *cs[] = {"x", "a", "ab", "<s>"};
      for (int k = 0; k < 4; k++) { Added a = tok(cs[k]); a.special = bits >> k & 1; if (bits >> (4 + k) & 1) c.added.push_back(a); else ts.push_back(a); }
      Ref r(c); auto t = impl::make(c); r.add(ts); t->add_tokens(impl::added(ts));
      int top = c.mod.vocab.size() + 4; uint64_t n = mc::n_strings(top, 3);
      for (uint64_t w = 0; w < n; w++) for (int skip = 0; skip < 2; skip++) {
        auto ids = mc::nth_string(top, w); x.impl_traces++; x.transitions++; x.nontrivial += skip;
        auto g = impl::decode(*t, ids, skip); std::string s = r.decode(ids, skip);
        if (g.threw || g.text != s) return "ids " + impl::ints(ids) + (skip ? " skip" : "") + ": expected '" + mc::esc(s) + "' got " + impl::show(g);
      }
      return "";
    }, [](uint64_t i) { return std::string("model ") + MN[i % 2] + " special flags " + std::to_string(i / 2 % 16) + " in file " + std::to_string(i / 32); }, "4 contents x all special flags x all file/later splits x all id lists of length 3"));
  }
  {  // vocabularies whose ids are not 0..n-1: gaps, shared ids, large ids
    static std::vector<std::vector<std::pair<std::string, int>>> V = {
        {{"a", 0}, {"b", 2}, {"c", 5}}, {{"a", 0}, {"b", 1}, {"c", 1}}, {{"a", 7}, {"b", 7}, {"c", 7}}, {{"a", 0}, {"b", 40}, {"c", 41}}, {{"a", 1}, {"b", 2}, {"c", 3}}, {{"a", 2147483000}, {"b", 3}, {"c", 0}}, {{"a", 3}, {"b", 4}, {"c", 2}, {"ab", 9}}};
    int D = T ? 3 : 2; uint64_t nh = mc::n_strings(O.size(), D);
    mc::Mix mix{{V.size(), 3, file.size(), nh}};
    static const char *ty[] = {"BPE", "WordPiece", "WordPiece without unk"};
    f.push_back(fam::blocks("irregular-vocabularies", mix.total(), 32, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Cfg c; c.mod.type = v[1] ? "WordPiece" : "BPE"; c.mod.vocab = V[v[0]]; c.added = file[v[2]];
      if (v[1]) { c.mod.unk = v[1] == 1 ? "a" : ""; c.mod.prefix = "##"; c.mod.max_chars = 9; }
      int vs = c.mod.vocab.size();
      auto t = impl::make(c); Ids ids{{}, vs, c.mod}; ids.apply(c.added);
      auto h = mc::nth_string(O.size(), v[3]);
      for (size_t k = 0; k < h.size(); k++) {
        auto &o = O[h[k]];
        if (o.special) t->add_special_tokens(impl::added(o.ts)); else t->add_tokens(impl::added(o.ts));
        ids.apply(o.ts); x.transitions++;
      }
      std::map<int, int> many; for (auto &p : ids.id) many[p.second]++;
      for (auto &p : ids.id) {
        bool whole = true; for (auto &o : ids.id) if (o.first != p.first && p.first.find(o.first) != std::string::npos) whole = false;
        if (whole) {
          auto g = impl::encode(*t, from8(p.first), false); x.impl_traces++; x.transitions++; x.nontrivial++;
          if (g.threw || g.enc.ids != std::vector<int>{p.second}) return "added token '" + mc::esc(p.first) + "' should encode to id " + std::to_string(p.second) + ", got " + impl::show(g);
        }
        if (many[p.second] > 1) continue;
        auto q = impl::decode(*t, {p.second}, false); x.impl_traces++; x.transitions++;
        if (q.threw || q.text != p.first) return "id " + std::to_string(p.second) + " should decode to '" + mc::esc(p.first) + "', got " + impl::show(q);
        x.state(p.first + std::to_string(p.second) + "/" + std::to_string(vs));
      }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); std::string s, hs; for (auto &p : V[v[0]]) s += p.first + "=" + std::to_string(p.second) + " "; for (int o : mc::nth_string(O.size(), v[3])) hs += (hs.empty() ? "" : "; ") + O[o].name; return std::string(ty[v[1]]) + " vocabulary " + s + ", file tokens " + std::to_string(v[2]) + ", history [" + hs + "]"; }, std::to_string(V.size()) + " vocabularies with gaps, shared or large ids x 3 models x 4 added_tokens lists x all sequences of at most " + std::to_string(D) + " add operations"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({added_count(2000 * k)}, scale::full)); }
  return mc::main_(argc, argv, "C10", f, "a history of at least two additions");
}
