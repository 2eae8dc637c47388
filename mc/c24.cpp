// C24: offset trimming removes exactly the byte-level spaces of each token.
#include "encs.h"
#include "scale.h"
using namespace ref;

static std::string run(const Post &p, const PostProcessor &o, const Enc &in, bool add, mc::Ctx &x) {
  Enc w = ref::post(p, in, add);
  impl::Out g = encs::call([&] { return o.process(impl::to(in), add); });
  x.impl_traces++; x.transitions += 1 + in.ids.size(); x.nontrivial += w.offsets != in.offsets; x.state(show(w));
  if (g.threw) return "threw " + g.what;
  return impl::first_diff(w, g.enc, true);
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static U al = U"\u0120a\u00E9 \u4E2D";      // the byte-level space symbol, letters of 1-3 bytes, a real space (not a byte-level symbol)
  int L = T ? 6 : 5; uint64_t n = mc::n_strings(al.size(), L);
  auto opts = [](int k) { return cfgs::q_byte(k & 1, k & 2); };
  f.push_back(fam::blocks("tokens", n, 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
    static std::unique_ptr<PostProcessor> o[4];
    std::string tok = to8(cfgs::letters(al, i));
    for (int k = 0; k < 4; k++) {
      if (!o[k]) o[k] = impl::post(opts(k));
      for (int s = 0; s <= 4; s++) for (int e = s; e <= s + 6; e++) for (int pos = 0; pos < 3; pos++) {
        Enc in = encs::make(3); in.tokens[pos] = tok; in.offsets[pos] = {s, e};
        std::string d = run(opts(k), *o[k], in, (s + e) % 2, x);
        if (!d.empty()) return "prefix option " + std::to_string(k & 1) + " trim " + std::to_string(k >> 1) + " offsets (" + std::to_string(s) + "," + std::to_string(e) + ") position " + std::to_string(pos) + ": " + d;
        Enc win = encs::make(2, 1); win.over.push_back(in);
        Enc win2 = encs::make(1, 2); win2.over.push_back(encs::make(1, 3)); win2.over.push_back(in);
        if (e - s > 3) continue;
        d = run(opts(k), *o[k], win, false, x); if (d.empty()) d = run(opts(k), *o[k], win2, true, x);
        if (!d.empty()) return "in an overflowing window, prefix option " + std::to_string(k & 1) + " trim " + std::to_string(k >> 1) + " offsets (" + std::to_string(s) + "," + std::to_string(e) + "): " + d;
      }
    }
    return "";
  }, [=](uint64_t i) { return "token '" + mc::esc(cfgs::letters(al, i)) + "'"; }, "all tokens of at most " + std::to_string(L) + " symbols over { byte-level space, a, e-acute, space, ideograph } x offset pairs in a box x three positions x both options x main and overflowing windows"));
  {  // long runs of spaces
    static std::vector<int> runs = {0, 1, 2, 7, 8, 63, 64, 255, 256, 300};
    mc::Mix mix{{runs.size(), runs.size(), 3, 4}};
    f.push_back(fam::blocks("runs", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); std::string t; for (int k = 0; k < runs[v[0]]; k++) t += "\xC4\xA0"; t += v[2] == 0 ? "" : v[2] == 1 ? "a" : "\xE4\xB8\xAD"; for (int k = 0; k < runs[v[1]]; k++) t += "\xC4\xA0";
      auto o = impl::post(opts(v[3]));
      for (R r : {R{0, 0}, R{0, 1}, R{0, 600}, R{5, 310}, R{5, 905}, R{300, 301}}) { Enc in = encs::make(2); for (int p = 0; p < 2; p++) { in.tokens[p] = t; in.offsets[p] = r; } std::string d = run(opts(v[3]), *o, in, true, x); if (!d.empty()) return d.substr(0, 1500); }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return std::to_string(runs[v[0]]) + " spaces, body " + std::to_string(v[2]) + ", " + std::to_string(runs[v[1]]) + " spaces, options " + std::to_string(v[3]); }, "runs of up to 300 space symbols on both sides"));
  }
  {  // end to end: the offsets of encode
    static std::vector<std::pair<Pre, Post>> pp;
    for (bool a : {false, true}) for (bool b : {false, true}) for (bool t : {false, true}) pp.push_back({cfgs::p_byte(a, true), cfgs::q_byte(b, t)});
    for (bool b : {false, true}) pp.push_back({cfgs::p_byte(b, false), cfgs::q_seq({cfgs::q_byte(b, true), cfgs::q_bert()})});
    static U te = U"a \u00E9\u3000\n"; int TL = T ? 8 : 6; uint64_t tn = mc::n_strings(te.size(), TL);
    f.push_back(fam::blocks("texts", tn, 32, [=](uint64_t i, mc::Ctx &x) -> std::string {
      static std::vector<std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> made;
      if (made.empty()) for (auto &p : pp) for (int tr = 0; tr < 2; tr++) { Cfg c = cfgs::gpt2(); c.pre = p.first; c.post = p.second; c.trunc.on = tr; c.trunc.max = 3; c.trunc.stride = 0; made.push_back({std::make_unique<Ref>(c), impl::make(c)}); }
      U u = cfgs::letters(te, i);
      for (size_t k = 0; k < made.size(); k++) {
        bool rej; Enc w = made[k].first->encode(u, true, rej); impl::Out g = impl::encode(*made[k].second, u, true);
        x.impl_traces++; x.transitions += w.ids.size(); x.state(show(w)); x.nontrivial += w.ids.size() > 0;
        std::string d = g.threw ? "threw " + g.what : impl::first_diff(w, g.enc, true);
        if (!d.empty()) return "configuration " + std::to_string(k) + ": " + d;
      }
      return "";
    }, [=](uint64_t i) { return "'" + mc::esc(cfgs::letters(te, i)) + "'"; }, "all texts of at most " + std::to_string(TL) + " over 'a \\u{e9}\\u{3000}\\n' x " + std::to_string(pp.size() * 2) + " byte-level configurations, with and without truncation windows"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({spaces(4097 * k), text_length(1025 * k, "gpt2")}, scale::full)); }
  return mc::main_(argc, argv, "C24", f, "trimming changes an offset");
}
