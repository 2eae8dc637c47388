// C19: the configured maximum length bounds the final encoding, and nothing is lost.
#include <set>
#include "fam.h"
#include "scale.h"
using namespace ref;

static PieceT sp(const std::string &s, int t = 0) { return {true, s, t}; }
static PieceT A(int t = 0) { return {false, "A", t}; }
static Post tmpl(std::vector<PieceT> s) {
  Post p; p.type = "TemplateProcessing"; p.single = s; p.pair = {};
  p.specials = {{"[CLS]", {2}, {"[CLS]"}}, {"[SEP]", {3}, {"[SEP]"}}, {"three", {2, 3, 4}, {"[CLS]", "[SEP]", "[MASK]"}}, {"none", {}, {}}};
  return p;
}
static std::vector<std::pair<std::string, Post>> &posts() {
  using namespace cfgs;
  static std::vector<std::pair<std::string, Post>> v = {{"none", Post()}, {"A", tmpl({A()})}, {"CLS A", tmpl({sp("[CLS]"), A(1)})}, {"A SEP", tmpl({A(), sp("[SEP]", 2)})}, {"CLS A SEP", tmpl({sp("[CLS]"), A(), sp("[SEP]")})},
    {"three A CLS", tmpl({sp("three"), A(), sp("[CLS]")})}, {"none A SEP SEP", tmpl({sp("none"), A(), sp("[SEP]"), sp("[SEP]")})}, {"byte", q_byte(true, true)},
    {"byte; CLS A SEP", q_seq({q_byte(false, true), tmpl({sp("[CLS]"), A(), sp("[SEP]")})})}, {"CLS A; A SEP", q_seq({tmpl({sp("[CLS]"), A()}), tmpl({A(), sp("[SEP]")})})}, {"nested", q_seq({q_seq({tmpl({sp("[CLS]"), A()})}), q_seq({}), q_byte(true, false)})}};
  return v;
}
static std::vector<Pad> &pads() {
  static std::vector<Pad> v;
  if (v.empty()) {
    Pad p; v.push_back(p); p.on = true; v.push_back(p); p.fixed = 6; v.push_back(p); p.dir = "Left"; p.mult = 4; p.id = 9; p.type = 3; p.tok = "<p>"; v.push_back(p); p.fixed = -1; v.push_back(p); p.dir = "Right"; p.mult = 0; p.fixed = 0; v.push_back(p); p.fixed = 12; v.push_back(p);
  }
  return v;
}
struct Job { std::unique_ptr<Ref> r; std::unique_ptr<Ref> whole; std::unique_ptr<Tokenizer> t; int specials; };
static std::string judge(Job &j, const Cfg &c, const U &u, bool add, mc::Ctx &x) {
  bool rej, z; Enc w = j.r->encode(u, add, rej), all = j.whole->encode(u, false, z);
  auto g = impl::encode(*j.t, u, add);
  x.impl_traces++; x.transitions += 1 + w.over.size(); x.nontrivial += !w.over.empty(); x.state(show(w));
  std::string at = "text '" + mc::esc(u) + "' add_special=" + (add ? "1" : "0") + ": ";
  int n = all.ids.size(), room = c.trunc.max - (add ? j.specials : 0);
  if (rej) return g.threw ? "" : at + "a stride that cannot be honoured was accepted: " + impl::show(g);
  if (g.threw) return at + "threw " + g.what;
  std::string d = impl::first_diff(w, g.enc, true);
  if (!d.empty()) return at + d;
  // the property itself, from the output alone
  std::vector<const Enc *> ws{&g.enc}; for (auto &o : g.enc.over) ws.push_back(&o);
  if (n <= room && ws.size() != 1) return at + "the text fits but was truncated";
  std::set<R> seen; size_t longest = 0;
  for (auto *e : ws) {
    int real = 0; for (size_t i = 0; i < e->ids.size(); i++) { real += e->attention[i] != 0; if (e->words[i] && !e->special[i]) seen.insert(e->offsets[i]); }
    if (room > 0 && real > c.trunc.max) return at + "a window has " + std::to_string(real) + " tokens";
    longest = std::max(longest, e->ids.size());
  }
  bool trims = false; std::function<void(const Post &)> ft = [&](const Post &p) { trims |= p.type == "ByteLevel"; for (auto &q : p.seq) ft(q); }; ft(c.post);
  std::set<R> want(all.offsets.begin(), all.offsets.end());
  if (!trims && seen != want) return at + "windows hold " + std::to_string(seen.size()) + " of " + std::to_string(want.size()) + " tokens of the text";
  if (c.pad.on) for (auto *e : ws) {
    size_t to = longest; if (c.pad.fixed >= 0) to = std::max<size_t>(e->ids.size(), c.pad.fixed);
    if (room > 0 && e->ids.size() != to && c.pad.fixed < 0) return at + "windows are padded to different lengths";
    if (c.pad.fixed >= 0 && (int)e->ids.size() < c.pad.fixed) return at + "a window is shorter than the padded length";
  }
  return "";
}
static std::string name(const Cfg &c, const std::string &post) { return "post-processor " + post + " truncation " + dump(jtrunc(c.trunc)) + " padding " + dump(jpad(c.pad)); }

int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static std::vector<std::string> dirs = {"Right", "Left"}, strats = {"LongestFirst", "OnlyFirst"};
  auto run = [&](const std::string &nm, std::function<Cfg(const std::vector<uint64_t> &)> mk, mc::Mix mix, std::vector<U> texts, const std::string &bound) {
    f.push_back(fam::blocks(nm, mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = mk(mix.at(i)); Cfg un = c; un.trunc = Trunc(); un.pad = Pad(); un.post = Post();
      Job j; j.r = std::make_unique<Ref>(c); j.whole = std::make_unique<Ref>(un); j.t = impl::make(c); j.specials = post(c.post, Enc(), true).ids.size();
      for (auto &u : texts) for (int add = 0; add < 2; add++) { std::string d = judge(j, c, u, add, x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return name(mk(v), posts()[v[0]].first); }, bound));
  };
  {
    int MX = T ? 12 : 8, L = T ? 16 : 11;
    std::vector<U> xs; for (int n = 0; n <= L; n++) { U u; for (int k = 0; k < n; k++) u += k % 3 == 2 ? U" " : U"", u += U"ab1"[k % 3]; xs.push_back(u); } xs.push_back(U"ab [MASK]a"); xs.push_back(U"\u00E9\u4E2D\U0001F600 ab");
    Mod m; m.type = "BPE"; m.unk = "[UNK]"; for (const char *s : {"[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]", "a", "b", "1", "é"}) m.vocab.push_back({s, (int)m.vocab.size()});
    auto mk = [=](const std::vector<uint64_t> &v) { Cfg c; c.mod = m; c.pre = cfgs::p_bert(); c.added = cfgs::bert_added(); c.post = posts()[v[0]].second; c.trunc = Trunc{true, dirs[v[1] % 2], strats[v[1] / 2], (int)v[2], (int)v[3]}; c.pad = pads()[v[4]]; return c; };
    run("budget", mk, mc::Mix{{posts().size(), 4, (uint64_t)MX + 1, T ? 8u : 5u, pads().size()}}, xs, "11 post-processors x direction x strategy x maximum 0.." + std::to_string(MX) + " x stride 0.." + std::to_string(T ? 7 : 4) + " x 7 paddings x texts of 0.." + std::to_string(L) + " tokens x add_special_tokens");
  }
  {  // complete tokenizers with multi-token words, byte-level trimming, added tokens
    std::vector<U> xs; for (auto &u : cfgs::texts()) if (u.size() > 3) xs.push_back(u); xs.push_back(U"abab ab é中 1212 '\n  aba <n> b [MASK] x"); 
    static std::vector<Cfg> base = {cfgs::bert(true), cfgs::gpt2(), cfgs::roberta(), cfgs::llama3(), cfgs::llama2()};
    auto mk = [=](const std::vector<uint64_t> &v) { Cfg c = base[v[0] % base.size()]; c.trunc = Trunc{true, dirs[v[1]], strats[v[2] % 2], (int)v[2], (int)v[3]}; c.pad = pads()[v[4]]; return c; };
    mc::Mix mix{{base.size(), 2, T ? 14u : 9u, T ? 4u : 3u, T ? pads().size() : 3}};
    f.push_back(fam::blocks("tokenizers", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c = mk(mix.at(i)); Cfg un = c; un.trunc = Trunc(); un.pad = Pad(); un.post = Post();
      Job j; j.r = std::make_unique<Ref>(c); j.whole = std::make_unique<Ref>(un); j.t = impl::make(c); j.specials = post(c.post, Enc(), true).ids.size();
      for (auto &u : xs) for (int add = 0; add < 2; add++) { bool rej, z; Enc w = j.r->encode(u, add, rej); auto g = impl::encode(*j.t, u, add); x.impl_traces++; x.transitions++; x.nontrivial += !w.over.empty(); x.state(show(w)); (void)z;
        if (rej) { if (!g.threw) return "accepted a stride that cannot be honoured"; continue; }
        if (g.threw) return "text '" + mc::esc(u) + "' threw " + g.what;
        std::string d = impl::first_diff(w, g.enc, true); if (!d.empty()) return "text '" + mc::esc(u) + "' add_special=" + std::to_string(add) + ": " + d;
        std::vector<const Enc *> ws{&g.enc}; for (auto &o : g.enc.over) ws.push_back(&o);
        if (c.trunc.max - (add ? j.specials : 0) > 0) for (auto *e : ws) { int real = 0; for (int a : e->attention) real += a; if (real > c.trunc.max) return "text '" + mc::esc(u) + "': a window has " + std::to_string(real) + " tokens"; } }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "tokenizer " + std::to_string(v[0]) + " " + name(mk(v), ""); }, "5 complete tokenizers x direction x maximum x stride x padding over " + std::to_string(xs.size()) + " texts"));
  }
  {  // realistic sizes
    static std::vector<int> len = {510, 511, 512, 513, 1022, 1023, 1024, 1500}, mx = {512, 128, 511, 3, 1024};
    mc::Mix mix{{posts().size(), 2, mx.size(), 3}};
    f.push_back(fam::blocks("long", mix.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Cfg c; c.mod = cfgs::m_wordpiece(); c.pre = cfgs::p_bert(); c.added = cfgs::bert_added(); c.post = posts()[v[0]].second; int m = mx[v[2]];
      c.trunc = Trunc{true, dirs[v[1]], "LongestFirst", m, v[3] == 0 ? 0 : v[3] == 1 ? m / 4 : std::max(0, m - 300)};
      Cfg un = c; un.trunc = Trunc(); un.post = Post();
      Job j; j.r = std::make_unique<Ref>(c); j.whole = std::make_unique<Ref>(un); j.t = impl::make(c); j.specials = post(c.post, Enc(), true).ids.size();
      for (int n : len) { U u; for (int k = 0; k < n; k++) { u += U"ab1s"[k % 4]; u += U' '; } for (int add = 0; add < 2; add++) { std::string d = judge(j, c, u, add, x); if (!d.empty()) return "length " + std::to_string(n) + ": " + d.substr(d.size() > 600 ? d.size() - 600 : 0); } }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "post-processor " + posts()[v[0]].first + " " + dirs[v[1]] + " max " + std::to_string(mx[v[2]]) + " stride kind " + std::to_string(v[3]); }, "texts of 510..1500 tokens with maxima 3..1024", 60));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({windows(2001 * k)}, scale::full)); }
  return mc::main_(argc, argv, "C19", f, "the text does not fit");
}
