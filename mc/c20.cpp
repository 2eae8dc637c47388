// C20: Sequence components equal applying their members one after the other (implementation against implementation).
#include "encs.h"
#include "scale.h"
using namespace ref;

// lists of at most L members over n, plus how they are nested: 0 flat, 1 [[a],b,c], 2 [a,[b,c]], 3 [[[a,b]],c,[]], 4 [[a,b,c]]
static const int NEST = 5;
template <class C, class S>
static C nest(const std::vector<C> &v, int how, S seq) {
  auto part = [&](size_t a, size_t b) { return std::vector<C>(v.begin() + std::min(a, v.size()), v.begin() + std::min(b, v.size())); };
  auto cat = [](std::vector<C> a, const std::vector<C> &b) { a.insert(a.end(), b.begin(), b.end()); return a; };
  if (how == 0) return seq(v);
  if (how == 1) return seq(cat({seq(part(0, 1))}, part(1, 99)));
  if (how == 2) return seq(cat(part(0, 1), {seq(part(1, 99))}));
  if (how == 3) return seq(cat(cat({seq({seq(part(0, 2))})}, part(2, 99)), {seq({})}));
  return seq({seq(v)});
}
static std::string splits(const PreTokenizedString &p) {
  std::string r; for (auto &s : p.splits) { r += "'" + mc::esc(s.normalized) + "'(" + std::to_string(s.offsets.first) + "," + std::to_string(s.offsets.second) + ")"; for (auto &t : s.tokens) r += "#" + std::to_string(t.id) + t.value; r += " "; }
  return r;
}
template <class F> static std::string guard(F f) { try { return f(); } catch (const std::exception &e) { return "exception"; } }
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  int L = T ? 4 : 3;
  static std::vector<U> X; X = cfgs::texts();
  for (uint64_t i = 0; i < mc::n_strings(5, 3); i++) X.push_back(cfgs::letters(U"aé ,\u0301", i));
  {
    using namespace cfgs;
    static std::vector<Norm> m = {n_bert(true, true, std::nullopt, true), n_("NFD"), n_("NFKC"), n_("StripAccents"), n_strip(true, false), n_prepend("▁a"), n_replace("a", " a"), n_replace(" ", ""), n_replace("", "x")};
    mc::Mix mix{{mc::n_strings(m.size(), L), NEST}};
    f.push_back(fam::blocks("normalizers", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); std::vector<Norm> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]);
      auto whole = impl::norm(nest<Norm>(ms, v[1], [](std::vector<Norm> q) { return n_seq(q); }));
      if (!whole) return "no component was built";
      std::vector<std::unique_ptr<Normalizer>> one; for (auto &q : ms) one.push_back(impl::norm(q));
      for (auto &u : X) {
        std::string g = guard([&] { return mc::esc(fromW(whole->normalize(NormalizedString(toW(u))).normalized)); });
        std::string w = guard([&] { NormalizedString n(toW(u)); for (auto &o : one) n = o->normalize(n); return mc::esc(fromW(n.normalized)); });
        x.impl_traces++; x.transitions += ms.size() + 1; x.nontrivial += ms.size() > 1; x.state(w);
        if (g != w) return "text '" + mc::esc(u) + "': sequence gives '" + g + "', members one after the other '" + w + "'";
      }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); std::vector<Norm> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]); return dump(jnorm(nest<Norm>(ms, v[1], [](std::vector<Norm> q) { return n_seq(q); }))); }, "all lists of at most " + std::to_string(L) + " of " + std::to_string(m.size()) + " normalizers x 5 nestings x " + std::to_string(X.size()) + " texts"));
  }
  {
    using namespace cfgs;
    static std::vector<Pre> m = {p_bert(), p_byte(false, true), p_byte(true, true), p_byte(true, false), p_split("digits", "Isolated", false), p_split("ws", "Removed", false), p_split("lit:a", "MergedWithNext", false), p_split("comma", "MergedWithPrevious", true), p_split("never", "Removed", true)};
    mc::Mix mix{{mc::n_strings(m.size(), L), NEST}};
    f.push_back(fam::blocks("pre-tokenizers", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); std::vector<Pre> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]);
      auto whole = impl::pre(nest<Pre>(ms, v[1], [](std::vector<Pre> q) { return p_seq(q); }));
      if (!whole) return "no component was built";
      std::vector<std::unique_ptr<PreTokenizer>> one; for (auto &q : ms) one.push_back(impl::pre(q));
      for (auto &u : X) {
        std::string g = guard([&] { return splits(whole->pre_tokenize(PreTokenizedString(NormalizedString(toW(u))))); });
        std::string w = guard([&] { PreTokenizedString n{NormalizedString(toW(u))}; for (auto &o : one) n = o->pre_tokenize(n); return splits(n); });
        x.impl_traces++; x.transitions += ms.size() + 1; x.nontrivial += ms.size() > 1; x.state(w);
        if (g != w) return "text '" + mc::esc(u) + "': sequence gives " + g + ", members one after the other " + w;
      }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); std::vector<Pre> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]); return dump(jpre(nest<Pre>(ms, v[1], [](std::vector<Pre> q) { return p_seq(q); }))).substr(0, 900); }, "all lists of at most " + std::to_string(L) + " of " + std::to_string(m.size()) + " pre-tokenizers x 5 nestings x " + std::to_string(X.size()) + " texts"));
  }
  {
    using namespace cfgs;
    Post ab; ab.type = "TemplateProcessing"; ab.single = {{true, "S", 1}, {false, "A", 2}}; ab.pair = ab.single; ab.specials = {{"S", {90, 91}, {"\xC4\xA0S", "T"}}};
    static std::vector<Post> m = {q_bert(), q_roberta(), q_byte(true, true), q_byte(false, true), q_byte(true, false), ab};
    mc::Mix mix{{mc::n_strings(m.size(), L + 1), NEST}};
    f.push_back(fam::blocks("post-processors", mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); std::vector<Post> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]);
      auto whole = impl::post(nest<Post>(ms, v[1], [](std::vector<Post> q) { return q_seq(q); }));
      if (!whole) return "no component was built";
      std::vector<std::unique_ptr<PostProcessor>> one; for (auto &q : ms) one.push_back(impl::post(q));
      for (auto s : std::vector<std::vector<int>>{{0}, {1}, {3}, {2, 2, 1}, {0, 2}}) for (int add = 0; add < 2; add++) {
        Enc in = encs::tree(s); for (size_t k = 0; k < in.tokens.size(); k++) { in.tokens[k] = k % 2 ? "\xC4\xA0\xC4\xA0" + in.tokens[k] : in.tokens[k] + "\xC4\xA0"; in.offsets[k] = {(int)k * 4, (int)k * 4 + 4}; }
        impl::Out g = encs::call([&] { return whole->process(impl::to(in), add); });
        impl::Out w = encs::call([&] { Encoding e = impl::to(in); for (auto &o : one) e = o->process(e, add); return e; });
        x.impl_traces++; x.transitions += ms.size() + 1; x.nontrivial += ms.size() > 1; x.state(impl::show(w));
        if (impl::show(g) != impl::show(w)) return "windows " + impl::ints(s) + " add " + std::to_string(add) + ": sequence gives " + impl::show(g) + "\n members one after the other " + impl::show(w);
      }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); std::string r; for (int k : mc::nth_string(m.size(), v[0])) r += std::to_string(k) + " "; return "processors " + r + "nesting " + std::to_string(v[1]); }, "all lists of at most " + std::to_string(L + 1) + " of " + std::to_string(m.size()) + " post-processors x 5 nestings x encodings with windows x flag"));
  }
  {
    using namespace cfgs;
    static std::vector<Dec> m = {d_wordpiece(), d_byte(), d_replace("▁", " "), d_replace("a", "##a"), d_("ByteFallback"), d_("Fuse"), d_strip(" ", 1, 0), d_strip("a", 0, 2)};
    static std::vector<std::string> tk = {"a", "##b", "▁a", "<0x61>", "<0xC3>", "<0xA9>", "\xC4\xA0", " a ", "."};
    mc::Mix mix{{mc::n_strings(m.size(), L), NEST}};
    uint64_t nt = mc::n_strings(tk.size(), 3);
    f.push_back(fam::blocks("decoders", mix.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); std::vector<Dec> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]);
      auto whole = impl::dec(nest<Dec>(ms, v[1], [](std::vector<Dec> q) { return d_seq(q); }));
      if (!whole) return "no component was built";
      std::vector<std::unique_ptr<Decoder>> one; for (auto &q : ms) one.push_back(impl::dec(q));
      auto J = [](const std::vector<std::string> &t) { std::string r; for (auto &s : t) r += "'" + mc::esc(s) + "' "; return r; };
      for (uint64_t w0 = 0; w0 < nt; w0++) {
        std::vector<std::string> in; for (int k : mc::nth_string(tk.size(), w0)) in.push_back(tk[k]);
        std::string g = guard([&] { return J(whole->decode_chain(in)); }), w = guard([&] { auto t = in; for (auto &o : one) t = o->decode_chain(t); return J(t); });
        x.impl_traces++; x.transitions += ms.size() + 1; x.nontrivial += ms.size() > 1; x.state(w);
        if (g != w) return "tokens " + J(in) + ": sequence gives " + g + ", members one after the other " + w;
      }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); std::vector<Dec> ms; for (int k : mc::nth_string(m.size(), v[0])) ms.push_back(m[k]); return dump(jdec(nest<Dec>(ms, v[1], [](std::vector<Dec> q) { return d_seq(q); }))); }, "all lists of at most " + std::to_string(L) + " of " + std::to_string(m.size()) + " decoders x 5 nestings x all lists of at most 3 of " + std::to_string(tk.size()) + " tokens"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({members(513 * k)}, scale::full)); }
  return mc::main_(argc, argv, "C20", f, "the sequence has at least two members");
}
