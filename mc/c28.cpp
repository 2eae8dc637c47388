// C28: with byte fallback, decode(encode(text)) == text for every text.
#include "scale.h"
#include "fam.h"
using namespace ref;

struct S { std::string name; Cfg c; std::unique_ptr<Tokenizer> t; };
static std::vector<S> &systems() {
  static std::vector<S> v;
  if (!v.empty()) return v;
  auto full = [](Cfg c) { bool has = false; for (auto &p : c.mod.vocab) has |= p.first == "<0x98>"; if (!has) c.mod.vocab.push_back({"<0x98>", (int)c.mod.vocab.size() + 50}); std::vector<std::pair<std::string, std::string>> k; for (auto &m : c.mod.merges) if (m.first.find("<0x") == std::string::npos) k.push_back(m); c.mod.merges = k; c.added.resize(3); return c; };
  auto add = [&](const std::string &n, const Cfg &c) { v.push_back({n, full(c), nullptr}); };
  Cfg c = cfgs::llama2(); add("llama2", c);
  c.mod.fuse = false; add("unfused unknown tokens", c);
  c = cfgs::llama2(); c.mod.ignore = true; for (const char *s : {"aba", "▁b", "▁▁a", "é1"}) c.mod.vocab.push_back({s, (int)c.mod.vocab.size() + 100}); add("ignore merges", c);
  c = cfgs::llama2(); c.mod.merges.clear(); add("no merges", c);
  c = cfgs::llama2(); c.mod.dropout = 0.5; add("dropout", c);
  c = cfgs::llama2(); std::vector<std::pair<std::string, int>> only; for (auto &p : c.mod.vocab) if (p.first.size() > 3 || p.first == "▁") only.push_back(p); c.mod.vocab = only; c.mod.merges.clear(); add("bytes only", c);
  c = cfgs::llama2(); c.norm = cfgs::n_replace(" ", "▁"); c.dec = cfgs::d_seq({cfgs::d_replace("▁", " "), cfgs::d_("ByteFallback"), cfgs::d_("Fuse")}); add("no prefix", c);
  c.norm = Norm(); c.dec = cfgs::d_("ByteFallback"); add("no normalizer", c);
  c.pre = cfgs::p_split("ws", "MergedWithNext", false); add("split at white space", c);
  c.pre = cfgs::p_split("digits", "Isolated", false); add("split at digits", c);
  return v;
}
static std::string trip(int s, const U &u, mc::Ctx &x) {
  auto &y = systems()[s]; if (!y.t) y.t = impl::make(y.c);
  std::string want = to8(u);
  for (int add = 0; add < 2; add++) {
    impl::Out e = impl::encode(*y.t, u, add); x.transitions += 2; x.impl_traces++; x.nontrivial += e.enc.ids.size() > u.size();
    if (e.threw) return y.name + ": encode threw " + e.what;
    impl::Out d = impl::decode(*y.t, e.enc.ids, true);
    if (d.threw) return y.name + ": decode threw " + d.what;
    x.state(show(e.enc));
    if (d.text != want) return y.name + ": '" + mc::esc(want) + "' comes back as '" + mc::esc(d.text) + "' from " + show(e.enc);
  }
  return "";
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static int n = systems().size();
  static std::vector<char32_t> cps = fam::sweep(T);
  f.push_back(fam::blocks("scalar-values", cps.size(), 128, [=](uint64_t i, mc::Ctx &x) -> std::string {
    char32_t c = cps[i]; if (c == 0x2581) return "";
    U s(1, c);
    for (int k = 0; k < n; k++) for (auto &u : {U"a" + s + U" b" + s + s, s, U"\u4E2D" + s + U"\U0001F600"}) { if (k > 1 && !T && u[0] != 'a') continue; auto d = trip(k, u, x); if (!d.empty()) return d; }
    return "";
  }, [](uint64_t i) { return fam::cp(cps[i]); }, (T ? "every Unicode scalar value" : "every assigned scalar value outside the large uniform blocks, and samples of those") + std::string(", alone and in two contexts (quick: in one, beyond the first two configurations), x ") + std::to_string(n) + " configurations"));
  auto texts = [&](const std::string &name, const U &al, int L) {
    uint64_t m = mc::n_strings(al.size(), L);
    f.push_back(fam::blocks(name, m, 32, [=](uint64_t i, mc::Ctx &x) -> std::string { U u = cfgs::letters(al, i); for (int k = 0; k < n; k++) { auto d = trip(k, u, x); if (!d.empty()) return d; } return ""; },
                            [=](uint64_t i) { return "'" + mc::esc(cfgs::letters(al, i)) + "'"; }, "all texts of at most " + std::to_string(L) + " over '" + mc::esc(al) + "' x " + std::to_string(n) + " configurations"));
  };
  texts("letters", U"ab \u00E91\u4E2D\U0001F600", T ? 6 : 5);
  texts("spaces", U" a\u00A0\n", T ? 8 : 6);
  texts("byte-token-look-alikes", U"<0x4E>", T ? 7 : 6);
  texts("utf8-lengths", U"\u007F\u0080\u07FF\u0800\uFFFF\U00010000\U0010FFFF", T ? 6 : 4);
  {
    static std::vector<U> at = {U"<0x41>", U"<0xE4>", U"<unk", U"a", U" ", U"\u00E9", U"<", U"##", U"\U0001F600", U"\u4E2D\u6587"};
    int L = T ? 5 : 4; uint64_t m = mc::n_strings(at.size(), L);
    f.push_back(fam::blocks("spellings", m, 32, [=](uint64_t i, mc::Ctx &x) -> std::string { U u = cfgs::concat(at, i); for (int k = 0; k < n; k++) { auto d = trip(k, u, x); if (!d.empty()) return d; } return ""; },
                            [=](uint64_t i) { return "'" + mc::esc(cfgs::concat(at, i)) + "'"; }, "all concatenations of at most " + std::to_string(L) + " of ten fragments (spelled-out byte tokens, token beginnings, multi-byte characters)"));
    static std::vector<int> len; for (int l : scale::ladder(T ? 20001 : 5001)) if (l > 9) len.push_back(l);
    static U ch = U"a \u00E9\u4E2D\U0001F600z";
    mc::Mix mix{{len.size(), ch.size(), 2}};
    f.push_back(fam::blocks("long", mix.total(), 1, [=](uint64_t i, mc::Ctx &x) -> std::string { auto v = mix.at(i); U u(len[v[0]], ch[v[1]]); if (v[2]) for (size_t k = 0; k < u.size(); k += 5) u[k] = ch[(v[1] + 1 + k / 5) % ch.size()]; for (int k = 0; k < n; k++) { auto d = trip(k, u, x); if (!d.empty()) return d.substr(0, 1500); } return ""; },
                            [=](uint64_t i) { auto v = mix.at(i); return std::to_string(len[v[0]]) + " x " + fam::cp(ch[v[1]]) + (v[2] ? ", every fifth replaced" : ""); }, "runs of every length of the ladder up to " + std::to_string(len.back()) + " characters"));
  }
  return mc::main_(argc, argv, "C28", f, "a character is spelled with bytes");
}
