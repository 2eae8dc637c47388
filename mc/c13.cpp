// C13: normalizers compute the text they are specified to compute.
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>
#include "fam.h"
#include "scale.h"
using namespace ref;

struct N2 { std::string name; Norm n; };
static Normalizer &norm_of(const Norm &n) {
  static std::map<std::string, std::unique_ptr<Normalizer>> m;
  auto &r = m[dump(jnorm(n))];
  if (!r) r = impl::norm(n);
  return *r;
}
// whole-text normalization forms straight from ICU, independent of the reference's grouping
static U icu_form(const std::string &t, const U &u) {
  UErrorCode st = U_ZERO_ERROR;
  auto *z = icu::Normalizer2::getInstance(nullptr, t.size() == 4 ? "nfkc" : "nfc", t.back() == 'C' ? UNORM2_COMPOSE : UNORM2_DECOMPOSE, st);
  icu::UnicodeString s = icu::UnicodeString::fromUTF32((const UChar32 *)u.data(), (int)u.size()), d;
  z->normalize(s, d, st);
  U r; for (int k = 0; k < d.length(); k = d.moveIndex32(k, 1)) r += (char32_t)d.char32At(k);
  return r;
}
static std::string check(const Norm &n, Normalizer &z, const U &u, mc::Ctx &x) {
  U want = n.type.size() >= 3 && n.type.substr(0, 2) == "NF" ? icu_form(n.type, u) : normalize(n, ns(u)).t, got;
  try { got = fromW(z.normalize(NormalizedString(toW(u))).normalized); } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
  x.impl_traces++; x.transitions += 1 + got.size(); x.nontrivial += want != u; x.outcomes.push_back(mc::hash_str(std::string((const char *)want.data(), want.size() * 4)));
  if (want == got) return "";
  return "text '" + mc::esc(u.substr(0, 200)) + "'\n  expected '" + mc::esc(want.substr(0, 300)) + "'\n  got      '" + mc::esc(got.substr(0, 300)) + "'";
}
static std::vector<N2> berts() {
  std::vector<N2> r;
  for (int c = 0; c < 2; c++) for (int z = 0; z < 2; z++) for (int a = 0; a < 3; a++) for (int l = 0; l < 2; l++)
    r.push_back({"bert clean=" + std::to_string(c) + " chinese=" + std::to_string(z) + " accents=" + (a == 2 ? "null" : std::to_string(a)) + " lower=" + std::to_string(l), cfgs::n_bert(c, z, a == 2 ? std::nullopt : std::optional<bool>(a), l)});
  return r;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static std::vector<N2> forms, rest, all;
  for (const char *s : {"NFC", "NFD", "NFKC", "NFKD"}) forms.push_back({s, cfgs::n_(s)});
  rest = {{"StripAccents", cfgs::n_("StripAccents")}};
  for (int l = 0; l < 2; l++) for (int r = 0; r < 2; r++) rest.push_back({"strip " + std::to_string(l) + std::to_string(r), cfgs::n_strip(l, r)});
  static std::vector<N2> B = berts();
  all = forms; for (auto &x : rest) all.push_back(x); for (auto &x : B) all.push_back(x);
  static std::vector<N2> key = {{"NFC", cfgs::n_("NFC")}, {"NFKD", cfgs::n_("NFKD")}, {"bert default", cfgs::n_bert(true, true, std::nullopt, true)}, {"strip", cfgs::n_strip(true, true)}, {"StripAccents", cfgs::n_("StripAccents")}};
  auto scalars = [&](const std::string &name, std::vector<char32_t> *cps, std::vector<N2> *ns_, const std::string &bound) {
    f.push_back(fam::blocks(name, cps->size(), 128, [=](uint64_t i, mc::Ctx &x) -> std::string {
      U s(1, (*cps)[i]);
      U t[3] = {s, U"e" + s + U"\u0301 A" + s, s + U" a\u0323" + s + s + U"\u4E2D" + s};
      for (auto &n : *ns_) for (auto &u : t) { std::string d = check(n.n, norm_of(n.n), u, x); if (!d.empty()) return n.name + ": " + d; }
      return "";
    }, [=](uint64_t i) { return fam::cp((*cps)[i]); }, bound + " alone and in two contexts x " + std::to_string(ns_->size()) + " normalizers"));
  };
  static std::vector<char32_t> full = fam::sweep(true), some = fam::sweep(false);
  scalars("scalar-values-every-option", T ? &full : &some, &all, T ? "every Unicode scalar value" : "every assigned scalar value outside the large uniform blocks, and samples of those");
  scalars("scalar-values", &full, &key, "every Unicode scalar value");
  auto words = [&](const std::string &name, std::vector<N2> *ps, const U &al, int L) {
    uint64_t n = mc::n_strings(al.size(), L);
    f.push_back(fam::blocks(name, n, 32, [=](uint64_t i, mc::Ctx &x) -> std::string {
      U u = cfgs::letters(al, i);
      for (auto &p : *ps) { std::string d = check(p.n, norm_of(p.n), u, x); if (!d.empty()) return p.name + ": " + d; }
      return "";
    }, [=](uint64_t i) { return "'" + mc::esc(cfgs::letters(al, i)) + "'"; }, "all texts of at most " + std::to_string(L) + " over '" + mc::esc(al) + "' x " + std::to_string(ps->size()) + " normalizers"));
  };
  using namespace std::string_literals;
  words("effects", &all, U"aÉ\u0301 \t\u0000\u00AD\uFFFD中\u0130\u00A0\u093E"s, T ? 5 : 4);
  words("composition", &forms, U"ae\u0301\u0323\u0344\u212B\u1100\u1161\u11A8\uAC00\u0344\u1E9B\U0001D15E\uFB01", T ? 5 : 4);
  words("composition-long", &forms, U"a\u0301\u0323\u1161\u1100", T ? 8 : 6);
  words("strip", &rest, U"a \n\u3000\u0301\u200B", T ? 8 : 6);
  words("case-and-marks", &B, U"AΣ\u0307\u0130i\u0345\u1E9E\u01C5", T ? 5 : 4);
  {  // Replace: every short pattern and text, contents of every shape
    static U al = U"abé"; static std::vector<std::string> con = {"", "a", "b", "ab", "aa", "é", "\U0001F600b", "aab"};
    uint64_t np = mc::n_strings(3, T ? 4 : 3), nw = mc::n_strings(3, T ? 7 : 6);
    mc::Mix mix{{np, con.size()}};
    f.push_back(fam::blocks("replace", mix.total(), 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Norm n = cfgs::n_replace(to8(cfgs::letters(al, v[0])), con[v[1]]); auto z = impl::norm(n);
      for (uint64_t w = 0; w < nw; w++) { std::string d = check(n, *z, cfgs::letters(al, w), x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "Replace '" + mc::esc(cfgs::letters(al, v[0])) + "' by '" + con[v[1]] + "', all texts"; }, "every pattern of at most " + std::to_string(T ? 4 : 3) + " letters x 8 contents x all texts over three letters"));
    static std::vector<std::string> pats = {" ", "▁", "``", "''", "\\", ".", "(", "^", "$", "a*", "\U0001F600", "\U0001F600\U0001F600", "é", "e\xCC\x81", "\n", "\t", "\"", "[a]", "\\s"}, cons = {"▁", "\"", "\\", "$0", "\\1", "", " ", "\U0001F600", "x\xCC\x81", "$"};
    static U al2 = U" `'\\.(^$a*\U0001F600é\n\"[]s\u0301e";
    mc::Mix m2{{pats.size(), cons.size()}};
    uint64_t n2 = mc::n_strings(al2.size(), T ? 3 : 2);
    static std::vector<U> extra = {U"a  b", U"  ", U"\U0001F600\U0001F600\U0001F600", U"``a''", U"a*a**", U"\\s \\\\", U"[a]a[a]", U"e\u0301e\u0301"};
    f.push_back(fam::blocks("replace-literal", m2.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = m2.at(i); Norm n = cfgs::n_replace(pats[v[0]], cons[v[1]]); auto z = impl::norm(n);
      for (uint64_t w = 0; w < n2 + extra.size(); w++) { std::string d = check(n, *z, w < n2 ? cfgs::letters(al2, w) : extra[w - n2], x); if (!d.empty()) return d; }
      return "";
    }, [=](uint64_t i) { auto v = m2.at(i); return "Replace '" + mc::esc(pats[v[0]]) + "' by '" + mc::esc(cons[v[1]]) + "', all short texts"; }, "19 literal patterns (regex metacharacters included) x 10 contents x short texts"));
  }
  {  // Prepend, and members chained in a Sequence
    using namespace cfgs;
    static std::vector<N2> q;
    for (const char *s : {"▁", "", " ", "ab", "\U0001F600", "e\xCC\x81", "\\", "\""}) q.push_back({std::string("prepend ") + s, n_prepend(s)});
    q.push_back({"llama", n_seq({n_prepend("▁"), n_replace(" ", "▁")})}); q.push_back({"nfd+accents+lower", n_seq({n_("NFD"), n_("StripAccents"), n_bert(false, false, false, true)})});
    q.push_back({"strip+prepend+nfkc", n_seq({n_strip(true, true), n_prepend("e"), n_("NFC")})}); q.push_back({"replace+strip", n_seq({n_replace("a", " "), n_strip(true, false), n_seq({n_("NFKC")})})}); q.push_back({"empty", n_seq({})});
    words("prepend-and-sequences", &q, U"a é\u0301▁\U0001F600ﬁ", T ? 6 : 5);
  }
  {  // long texts
    static std::vector<int> len = {30, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000};
    static U ch = U"aé\u0301\u0323 中\U0001F600\u1100\u1161\uAC00\u200D";
    mc::Mix mix{{len.size(), ch.size(), ch.size()}};
    f.push_back(fam::blocks("long", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); U u = U(len[v[0]], ch[v[1]]) + U(1, ch[v[2]]) + U(len[v[0]] / 2, ch[v[1]]) + U(3, ch[v[2]]) + U" e\u0301";
      for (auto &p : all) { std::string d = check(p.n, norm_of(p.n), u, x); if (!d.empty()) return p.name + ": " + d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "run of " + std::to_string(len[v[0]]) + " x " + fam::cp(ch[v[1]]) + " mixed with " + fam::cp(ch[v[2]]); }, "runs up to 1000 characters of every pair of kinds x all normalizers"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({marks(2049 * k)}, scale::full)); }
  return mc::main_(argc, argv, "C13", f, "the normalizer changes the text");
}
