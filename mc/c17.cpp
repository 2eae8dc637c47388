// C17: templates place sequence and special tokens as written, in every window.
#include <algorithm>
#include "encs.h"
#include "scale.h"
using namespace ref;

static std::string run(const Post &p, const PostProcessor &o, const Enc &in, bool add, mc::Ctx &x) {
  Enc w = ref::post(p, in, add);
  impl::Out g = encs::call([&] { return o.process(impl::to(in), add); });
  x.impl_traces++; x.transitions += 1 + p.single.size(); x.nontrivial += w.ids.size() > in.ids.size(); x.state(show(w));
  if (g.threw) return "threw " + g.what;
  return impl::first_diff(w, g.enc, true);
}
static std::vector<Special> specials() { return {{"X", {11}, {"X"}}, {"Y", {21, 22}, {"y1", "y2"}}, {"<s> \xC3\xA9", {31, 32, 31}, {"e", "e", ""}}, {"Z", {}, {}}, {"A", {41}, {"notA"}}, {"B\"\\", {51}, {"b"}}}; }
// piece alphabet: sequence A with three type ids, specials with type ids
static std::vector<PieceT> alphabet(bool T) {
  std::vector<PieceT> r;
  for (int t : {0, 1, 3}) r.push_back({false, "A", t});
  auto sp = specials();
  for (size_t i = 0; i < sp.size(); i++) { r.push_back({true, sp[i].id, (int)(i * 2 % 5)}); if (T) r.push_back({true, sp[i].id, (int)(i + 1)}); }
  return r;
}
static std::string text(const Post &p) { std::string r; for (auto &x : p.single) r += (x.special ? "special '" : "sequence '") + x.id + "':" + std::to_string(x.type_id) + " "; return r; }
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static std::vector<PieceT> al = alphabet(T);
  static std::vector<std::vector<int>> shapes = {{0}, {1}, {2}, {5}, {0, 0}, {0, 4}, {3, 0}, {3, 3}, {4, 4, 2}, {2, 2, 2, 2}, {1, 1, 1, 1, 1}};
  int L = 4; uint64_t n = mc::n_strings(al.size(), L);
  auto mk = [](uint64_t i, int order) {
    Post p; p.type = "TemplateProcessing"; p.specials = specials(); if (order) std::reverse(p.specials.begin(), p.specials.end());
    for (int k : mc::nth_string(al.size(), i)) p.single.push_back(al[k]);
    p.pair = p.single; p.pair.push_back({false, "B", 1});
    return p;
  };
  f.push_back(fam::blocks("templates", n, 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
    Post p = mk(i, i % 2); auto o = impl::post(p);
    for (auto &s : shapes) for (int k = 0; k < 4; k++) {
      if (k >= 2 && s.size() < 3) continue;
      std::string d = run(p, *o, encs::tree(s, k >= 2), k % 2, x);
      if (!d.empty()) return std::string(k % 2 ? "with" : "without") + " special tokens, windows " + impl::ints(s) + ": " + d;
    }
    return "";
  }, [=](uint64_t i) { return "template " + text(mk(i, 0)); }, "every template of at most " + std::to_string(L) + " pieces over " + std::to_string(al.size()) + " pieces (special tokens of 0..3 ids, the empty and the sequence-free template included) x encodings with 0..4 overflowing windows, flat and nested x both flags"));
  {  // sequences of template and byte-level processors over windows; repeated application is not cumulative in the object
    static std::vector<Post> members = {cfgs::q_bert(), cfgs::q_roberta(), cfgs::q_byte(true, true), cfgs::q_byte(false, false)};
    uint64_t m = mc::n_strings(members.size(), 3);
    f.push_back(fam::blocks("reuse", m, 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      std::vector<Post> v; for (int k : mc::nth_string(members.size(), i)) v.push_back(members[k]);
      Post p = v.size() == 1 ? v[0] : cfgs::q_seq(v); auto o = impl::post(p);
      for (int pass = 0; pass < 2; pass++) for (auto &s : shapes) for (int add = 0; add < 2; add++) { std::string d = run(p, *o, encs::tree(s), add, x); if (!d.empty()) return "pass " + std::to_string(pass) + " windows " + impl::ints(s) + " add " + std::to_string(add) + ": " + d; }
      return "";
    }, [=](uint64_t i) { return "processors " + std::to_string(i); }, "all chains of at most three processors, each object used twice"));
  }
  {  // malformed: sequences A only partly, uneven special tokens are rejected rather than mis-sized
    static std::vector<std::pair<int, int>> un = {{1, 0}, {0, 1}, {2, 1}, {1, 2}, {3, 1}};
    f.push_back(fam::blocks("uneven-special-tokens", un.size() * 3, 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Post p = cfgs::q_bert(); Special &s = p.specials[i % 2]; s.ids.clear(); s.tokens.clear();
      for (int k = 0; k < un[i / 3].first; k++) s.ids.push_back(9 + k); for (int k = 0; k < un[i / 3].second; k++) s.tokens.push_back("u");
      x.impl_traces++; x.nontrivial++;
      std::unique_ptr<PostProcessor> o;
      try { o = impl::post(p); } catch (const std::exception &) { return ""; }
      impl::Out g = encs::call([&] { return o->process(impl::to(encs::tree({3, 2})), true); });
      return g.threw ? "" : impl::wellformed(g.enc);
    }, [=](uint64_t i) { return "special token with " + std::to_string(un[i / 3].first) + " ids and " + std::to_string(un[i / 3].second) + " tokens"; }, "special tokens with different numbers of ids and tokens"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({templates(1025 * k)}, scale::full)); }
  return mc::main_(argc, argv, "C17", f, "special tokens are inserted");
}
