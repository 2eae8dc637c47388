// C12: pre-tokenizers cut every text at the right places and nowhere else.
#include "fam.h"
#include "scale.h"
using namespace ref;

static bool has_byte(const Pre &p) { if (p.type == "ByteLevel") return true; for (auto &q : p.seq) if (has_byte(q)) return true; return false; }
static std::string show(const std::vector<std::pair<std::string, R>> &v) { std::string r; for (auto &x : v) r += "'" + mc::esc(x.first) + "'(" + std::to_string(x.second.first) + "," + std::to_string(x.second.second) + ") "; return r; }
static std::string direct(const Pre &p, PreTokenizer &t, const U &u, mc::Ctx &x) {
  std::vector<std::pair<std::string, R>> want, got;
  ref::Piece whole; whole.n = ns(u);
  bool pos = !has_byte(p);
  for (auto &q : pretok(p, {whole})) want.push_back({to8(q.n.t), pos ? R{q.pos, q.pos + (int)q.n.t.size()} : R{0, 0}});
  try {
    PreTokenizedString o = t.pre_tokenize(PreTokenizedString(NormalizedString(toW(u))));
    for (auto &s : o.splits) if (!(u.empty() && s.normalized.empty())) got.push_back({s.normalized, pos ? R{s.offsets.first, s.offsets.second} : R{0, 0}});
  } catch (const std::exception &e) { return std::string("threw ") + e.what(); }
  x.impl_traces++; x.transitions += 1 + got.size(); x.nontrivial += want.size() > 1;
  x.state(show(want));
  if (want == got || u.empty() && got.empty()) return "";
  return "\n  expected " + show(want) + "\n  got      " + show(got);
}
struct P2 { std::string name; Pre p; };
static PreTokenizer &pre_of(const Pre &p) {
  static std::map<std::string, std::unique_ptr<PreTokenizer>> m;
  auto &r = m[dump(jpre(p))];
  if (!r) r = impl::pre(p);
  return *r;
}
static std::vector<P2> basics() {
  using namespace cfgs;
  return {{"bert", p_bert()}, {"byte", p_byte(false, true)}, {"byte-prefix", p_byte(true, true)}, {"byte-raw", p_byte(false, false)}, {"byte-raw-prefix", p_byte(true, false)}, {"cl100k", p_split("cl100k", "Isolated", false)},
          {"cl100k-removed-inverted", p_split("cl100k", "Removed", true)}, {"llama3", p_seq({p_split("cl100k", "Isolated", false), p_byte(false, false)})}};
}
static std::vector<P2> splits() {
  using namespace cfgs;
  std::vector<P2> r;
  for (const char *pat : {"digits", "digit", "ws", "comma", "any", "pair", "astar", "never", "lit:a", "lit:aa", "lit: a", "lit:.", "lit:", "lit:\U0001F600", "lit:é,"})
    for (const char *b : {"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}) for (bool inv : {false, true})
      r.push_back({std::string(pat) + "/" + b + (inv ? "/inverted" : ""), p_split(pat, b, inv)});
  return r;
}
static std::vector<P2> splits2() {
  using namespace cfgs;
  std::vector<P2> r;
  for (const char *pat : {"gpt2", "line", "lower", "not-ab", "digits3", "a-not-1", "1-after-a", "before-1", "lazy", "ordered", "twice", "title", "icase", "spaced", "space#", "lit:a|1", "lit:\\", "lit:A", "lit:[a", "lit:\n", "lit:(?i)", "lit:a+"})
    for (const char *b : {"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}) for (bool inv : {false, true})
      r.push_back({std::string(pat) + "/" + b + (inv ? "/inverted" : ""), p_split(pat, b, inv)});
  return r;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static auto B = basics(); static auto S = splits();
  {  // every scalar value in context
    static std::vector<char32_t> cps = fam::sweep(T);
    static std::vector<P2> pr = B;
    pr.push_back({"digits", cfgs::p_split("digits", "Isolated", false)}); pr.push_back({"ws", cfgs::p_split("ws", "Removed", false)});
    auto ctx = [](char32_t c, int k) -> U { U s(1, c); return k == 0 ? s : k == 1 ? U"a" + s + U"b 1" + s + U"2 ," + s + U"." + s + s + U" " + s + U" \n" + s + U"\n" : U"'" + s + U" '" + s + U"e  " + s; };
    f.push_back(fam::blocks("scalar-values", cps.size(), 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      for (auto &p : pr) for (int k = 0; k < 3; k++) { std::string d = direct(p.p, pre_of(p.p), ctx(cps[i], k), x); if (!d.empty()) return p.name + " context " + std::to_string(k) + d; }
      return "";
    }, [](uint64_t i) { return fam::cp(cps[i]); }, (T ? "every Unicode scalar value" : "every assigned scalar value outside the large uniform blocks, and samples of those") + std::string(" alone and in two contexts x ") + std::to_string(pr.size()) + " pre-tokenizers"));
  }
  auto words = [&](const std::string &name, std::vector<P2> *ps, const U &al, int L) {
    uint64_t n = mc::n_strings(al.size(), L);
    f.push_back(fam::blocks(name, n, 32, [=](uint64_t i, mc::Ctx &x) -> std::string {
      U u = cfgs::letters(al, i);
      for (auto &p : *ps) { std::string d = direct(p.p, pre_of(p.p), u, x); if (!d.empty()) return p.name + d; }
      return "";
    }, [=](uint64_t i) { return "'" + mc::esc(cfgs::letters(al, i)) + "'"; }, "all texts of at most " + std::to_string(L) + " over '" + mc::esc(al) + "' x " + std::to_string(ps->size()) + " pre-tokenizers"));
  };
  words("classes", &B, U"aé1', \n\u00A0\u0301\U0001F600中-", T ? 5 : 4);
  words("contractions", &B, U"'strevmld aS", T ? 5 : 4);
  words("spaces", &B, U" \n\r\ta\u3000.", T ? 7 : 5);
  words("digits", &B, U"1\uFF12a ,\u0663", T ? 7 : 5);
  words("splits", &S, U"a1 ,é\U0001F600", T ? 6 : 4);
  static auto S2 = splits2();
  words("regexes", &S2, U"aAb1 \n", T ? 6 : 5);
  words("regexes-marks", &S2, U"a1|\\[+é\U0001F600", T ? 5 : 3);
  words("splits-ascii", &S, U"a,1", T ? 9 : 6);
  {  // nested sequences
    using namespace cfgs;
    static std::vector<P2> q = {{"digit+byte", p_seq({p_split("digit", "Isolated", false), p_byte(true, true)})}, {"ws+bert", p_seq({p_split("ws", "MergedWithNext", false), p_bert()})}, {"byte-prefix+digits", p_seq({p_byte(true, true), p_split("digits", "Isolated", false)})},
      {"bert+lit", p_seq({p_bert(), p_split("lit:aa", "Contiguous", false), p_split("astar", "Removed", true)})}, {"removed+byte-prefix", p_seq({p_split("comma", "Removed", false), p_byte(true, false)})}, {"nested", p_seq({p_seq({p_split("ws", "Removed", false)}), p_seq({}), p_seq({p_split("any", "Isolated", false), p_byte(false, true)})})}};
    words("sequences", &q, U"a1 ,é\U0001F600", T ? 7 : 5);
  }
  {  // long texts: every position of a delimiter in a long run
    static std::vector<P2> all; all = B; for (auto &s : S) if (s.name.find("any") && s.name.find("pair")) all.push_back(s);
    static std::vector<int> len = {63, 64, 65, 255, 256, 257, 1000};
    static U ch = U"aé\U0001F600 1,", del = U",1 \U0001F600'\n";
    mc::Mix mix{{len.size(), ch.size(), del.size(), 4}};
    f.push_back(fam::blocks("long", mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); U u(len[v[0]], ch[v[1]]); int n = u.size(); for (int p : {v[3] == 0 ? 0 : v[3] == 1 ? n - 1 : v[3] == 2 ? n / 2 : 63 % n}) u[p] = del[v[2]]; if (v[3] == 3) for (int k = 0; k < n; k += 7) u[k] = del[v[2]];
      for (auto &p : all) { std::string d = direct(p.p, pre_of(p.p), u, x); if (!d.empty()) return p.name + d.substr(0, 800); }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return std::to_string(len[v[0]]) + " x " + fam::cp(ch[v[1]]) + " with " + fam::cp(del[v[2]]) + " placed " + std::to_string(v[3]); }, "runs of up to 1000 characters with a delimiter at the start, end, middle or every seventh position x all pre-tokenizers"));
  }
  {  // recognized added tokens are not cut and keep their place among the pieces; positions end to end
    struct E2 { std::string name; Cfg c; };
    static std::vector<E2> es;
    std::vector<P2> ps = B; for (auto &s : S) if (s.name.find("digits/") == 0 || s.name.find("ws/") == 0 || s.name.find("lit:a/") == 0 || s.name.find("comma/") == 0) ps.push_back(s);
    for (auto &p : cfgs::pres()) ps.push_back({p.first, p.second});
    for (auto &p : ps) for (bool byte : {true, false}) {
      if (byte != has_byte(p.p)) continue;
      Cfg c; c.pre = p.p; c.mod = byte ? cfgs::m_bpe_bytes() : cfgs::m_bpe_chars(); if (!byte) c.mod.fuse = false; c.mod.merges.clear();
      Added a; a.content = "1 1"; a.norm = false; Added b; b.content = ",a"; b.norm = true; Added d; d.content = "é "; d.norm = false; d.l = true; d.special = true; Added e; e.content = "\U0001F600"; e.norm = true; e.r = true;
      c.added = {a, b, d, e};
      Ref r(c); for (auto &z : c.added) z.id = *r.id_of(z.content);
      es.push_back({p.name, c});
      cfgs::id_zero(c, c.added[es.size() / 2 % 4].content);   // ids are names: no id is special, 0 least of all
      es.push_back({p.name + ", '" + c.added[(es.size() - 1) / 2 % 4].content + "' with id 0", c});
    }
    static std::vector<U> at = {U"1 1", U",a", U"é", U" ", U"\U0001F600", U"a", U",", U"1", U"\n"};
    int L = T ? 5 : 4; uint64_t n = mc::n_strings(at.size(), L);
    f.push_back(fam::blocks("added-tokens", n, 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      static std::vector<std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> made;
      if (made.empty()) for (auto &e : es) made.push_back({std::make_unique<Ref>(e.c), impl::make(e.c)});
      U u = cfgs::concat(at, i);
      for (size_t k = 0; k < es.size(); k++) {
        bool rej; Enc w = made[k].first->encode(u, false, rej);
        impl::Out g = impl::encode(*made[k].second, u, false);
        x.impl_traces++; x.transitions += 1 + w.ids.size(); x.nontrivial += w.ids.size() > 1;
        if (g.threw) return es[k].name + " threw " + g.what;
        // judged here: which characters form which piece; the pieces' positions
        if (w.words != g.enc.words || w.offsets != g.enc.offsets || w.ids != g.enc.ids) return es[k].name + "\n  expected " + show(w) + "\n  got      " + show(g.enc);
      }
      return "";
    }, [=](uint64_t i) { return "'" + mc::esc(cfgs::concat(at, i)) + "'"; }, "all concatenations of at most " + std::to_string(L) + " of four added tokens and five delimiters x " + std::to_string(es.size()) + " pre-tokenizers, character/byte models without merges"));
  }
  {  // long texts
    static std::vector<P2> ps = B; for (auto &p : cfgs::pres()) if (!p.second.type.empty()) ps.push_back({p.first, p.second});
    for (auto &s : S) if (s.name.find("inverted") == s.name.npos && (s.name.find("digits/") == 0 || s.name.find("lit:a/") == 0 || s.name.find("ws/") == 0)) ps.push_back(s);
    static std::vector<int> len = scale::ladder(T ? 70000 : 4097); static auto all = cfgs::all();
    mc::Mix mix{{ps.size(), 10, len.size()}};
    f.push_back(fam::blocks("scale/length", mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); std::string d = direct(ps[v[0]].p, pre_of(ps[v[0]].p), scale::kind_text(v[1], len[v[2]], all[(v[0] + v[2]) % 10]), x);
      if (d.empty()) return ""; size_t k = d.find("\n  got"), a = 13, b = k + 13; while (a < k && b < d.size() && d[a] == d[b]) a++, b++;
      return "pieces differ: ..." + d.substr(std::max<long>(0, (long)a - 80), 200) + " got ..." + d.substr(std::max<long>(0, (long)b - 80), 200);
    }, [=](uint64_t i) { auto v = mix.at(i); return ps[v[0]].name + ", text kind " + std::to_string(v[1]) + " of " + std::to_string(len[v[2]]) + " characters"; }, std::to_string(ps.size()) + " pre-tokenizers x ten kinds of text x every length of the ladder up to " + std::to_string(len.back()), 60));
  }
  return mc::main_(argc, argv, "C12", f, "at least two pieces");
}
