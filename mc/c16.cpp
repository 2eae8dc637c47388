// C16: padding reaches exactly the target length and changes nothing else.
#include "encs.h"
#include "scale.h"
using namespace ref;

static std::string run(const Pad &p, const Padding &o, const Enc &in, mc::Ctx &x) {
  Enc w = ref::pad(p, in);
  impl::Out g = encs::call([&] { return o.pad_encoding(impl::to(in)); });
  x.impl_traces++; x.transitions += 1 + in.over.size(); x.nontrivial += w.ids.size() > in.ids.size(); x.state(show(w));
  if (g.threw) return "threw " + g.what;
  // padding entries carry no word of the text: the word index there is not specified
  std::function<void(Enc &, const Enc &)> words = [&](Enc &a, const Enc &b) { if (a.words.size() == b.words.size() && a.attention.size() == b.attention.size() && b.special.size() == b.words.size()) for (size_t i = 0; i < a.words.size(); i++) if (!b.attention[i] && b.tokens[i] == p.tok && b.ids[i] == p.id) a.words[i] = b.words[i]; for (size_t i = 0; i < a.over.size() && i < b.over.size(); i++) words(a.over[i], b.over[i]); };
  words(g.enc, w);
  return impl::first_diff(w, g.enc, true);
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static std::vector<std::string> dirs = {"Right", "Left"};
  static std::vector<std::vector<int>> shapes;
  int S = T ? 5 : 4;
  for (int a = 0; a <= 9; a++) shapes.push_back({a});
  for (int a = 0; a <= S; a++) for (int b = 0; b <= S; b++) { shapes.push_back({a, b}); for (int c = 0; c <= S; c++) shapes.push_back({a, b, c}); }
  for (int n : {31, 32, 33, 127, 128, 129, 512}) shapes.push_back({n, n, n / 2});
  {
    int F = T ? 40 : 18, M = T ? 20 : 10;
    mc::Mix mix{{2, (uint64_t)F + 2, (uint64_t)M + 1}};
    f.push_back(fam::blocks("targets", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Pad p; p.on = true; p.dir = dirs[v[0]]; p.fixed = (int)v[1] - 1; p.mult = v[2]; p.id = 7; p.type = 4; p.tok = "[P]";
      auto o = impl::pad(p);
      for (auto &s : shapes) for (bool nested : {false, true}) { if (nested && s.size() < 3) continue; std::string d = run(p, *o, encs::tree(s, nested), x); if (!d.empty()) return (nested ? "nested " : "") + std::string("shape ") + impl::ints(s) + ": " + d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); Pad p; p.on = true; p.dir = dirs[v[0]]; p.fixed = (int)v[1] - 1; p.mult = v[2]; return dump(jpad(p)) + ", all shapes"; },
      "directions x fixed sizes 0.." + std::to_string(F) + " and batch-longest x multiples none..M=" + std::to_string(M) + " x " + std::to_string(shapes.size()) + " encodings with up to two overflowing windows, flat and nested"));
  }
  {  // values of the padding entries
    static std::vector<int> ids = {0, 1, -1, 50256, 2147483647}, types = {0, 1, 2}; static std::vector<std::string> toks = {"[PAD]", "", "\xC3\xA9", "\"\\\n", "t0"}; static std::vector<int> fx = {-1, 4, 9}, mu = {0, 4, 64};
    mc::Mix mix{{2, ids.size(), types.size(), toks.size(), fx.size(), mu.size()}};
    auto mk = [=](uint64_t i) { auto v = mix.at(i); Pad p; p.on = true; p.dir = dirs[v[0]]; p.id = ids[v[1]]; p.type = types[v[2]]; p.tok = toks[v[3]]; p.fixed = fx[v[4]]; p.mult = mu[v[5]]; return p; };
    f.push_back(fam::blocks("values", mix.total(), 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Pad p = mk(i); auto o = impl::pad(p);
      for (auto s : std::vector<std::vector<int>>{{0}, {3}, {5, 2}, {4, 4, 1}, {0, 3}}) { std::string d = run(p, *o, encs::tree(s), x); if (!d.empty()) return "shape " + impl::ints(s) + ": " + d; }
      return "";
    }, [=](uint64_t i) { return dump(jpad(mk(i))); }, "pad ids, type ids and tokens x strategies x directions"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({padding(70000)}, scale::full)); }
  return mc::main_(argc, argv, "C16", f, "the encoding is padded");
}
