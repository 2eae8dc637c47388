// C30: added tokens act only where they occur, and cut the text into independent parts (relations between runs of the implementation).
#include "fam.h"
using namespace ref;

struct S { std::string name; Cfg c; };
static std::vector<S> &systems() {
  static std::vector<S> v;
  if (v.empty()) {
    for (auto &n : cfgs::all()) v.push_back({n.name, n.c});
    for (auto &n : cfgs::variants()) v.push_back({n.name, n.c});
    for (auto &n : cfgs::norms()) for (auto &p : cfgs::pres()) { Cfg c = cfgs::bare(); c.norm = n.second; c.pre = p.second; c.mod = cfgs::m_bpe_fallback(); v.push_back({"normalizer " + n.first + ", pre-tokenizer " + p.first, c}); }
    for (auto &s : v) s.c.mod.dropout = 0;
  }
  return v;
}
static Added tok(const std::string &c, int flags) { Added a; a.content = c; a.single = flags & 1; a.l = flags & 2; a.r = flags & 4; a.norm = flags & 8; a.special = flags & 16; return a; }
static std::string flags(int f) { return std::string(f & 1 ? " single_word" : "") + (f & 2 ? " lstrip" : "") + (f & 4 ? " rstrip" : "") + (f & 8 ? " normalized" : "") + (f & 16 ? " special" : ""); }
static std::unique_ptr<Tokenizer> with(const Cfg &c, const std::vector<Added> &a) { auto t = impl::make(c); t->add_tokens(impl::added(a)); return t; }
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static auto &Y = systems();
  static std::vector<U> X = cfgs::texts();
  X.push_back(U"ab e\u0301 AB中a12 b\u00A0 "); X.push_back(U"ab\u4E2Dab\u4E2D"); X.push_back(U" 1 a\n\n'll ab"); X.push_back(U"e\u0301\u0301a");
  {  // a token that does not occur in the text changes nothing
    static const std::vector<std::string> C = {"q", "qq", " q", "q ", "aq", "qa", "q\xCC\x81", "\xC4\xB1q", "\xF0\x9F\x98\x80q", "ab q", "\xE2\x9F\xA8\xE2\x9F\xA9", " q "};
    mc::Mix mix{{Y.size(), C.size()}};
    mc::Family a; a.name = "absent-tokens"; a.count = mix.total();
    a.bound = std::to_string(Y.size()) + " configurations x " + std::to_string(C.size()) + " contents that occur in no text x 32 flag combinations x " + std::to_string(X.size()) + " texts x both special-token flags: encode and decode as without the token";
    a.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); auto &s = Y[v[0]];
      auto base = impl::make(s.c);
      std::vector<std::string> want; std::vector<std::string> dec; std::vector<std::vector<int>> ids;
      for (auto &u : X) for (int add = 0; add < 2; add++) { auto o = impl::encode(*base, u, add); want.push_back(impl::show(o)); ids.push_back(o.enc.ids); dec.push_back(impl::show(impl::decode(*base, o.enc.ids, add))); }
      for (int fl = 0; fl < 32 && !x.failed; fl++) {
        if (v[0] >= 23 && fl % 5 != v[1] % 5 && !T) continue;   // quick: all flags on the complete configurations, a fifth of them on each other pair
        auto t = with(s.c, {tok(C[v[1]], fl)});
        size_t k = 0;
        for (auto &u : X) for (int add = 0; add < 2 && !x.failed; add++, k++) {
          auto o = impl::encode(*t, u, add); x.impl_traces++; x.transitions += 2; x.nontrivial += !ids[k].empty(); x.state(want[k]);
          std::string g = impl::show(o);
          if (g != want[k]) { x.fail("with '" + C[v[1]] + "'" + flags(fl) + " added, text '" + mc::esc(u) + "' gives\n  " + g + "\n  without it\n  " + want[k]); break; }
          std::string d = impl::show(impl::decode(*t, ids[k], add));
          if (d != dec[k]) x.fail("with '" + C[v[1]] + "'" + flags(fl) + " added, decode(" + impl::ints(ids[k]) + ") gives " + d + ", without it " + dec[k]);
        }
      }
    };
    a.describe = [=](uint64_t i) { auto v = mix.at(i); return "configuration " + Y[v[0]].name + ", adding '" + C[v[1]] + "' with every combination of flags"; };
    f.push_back(a);
  }
  {  // a recognized token separates the text before it from the text after it
    static std::vector<std::string> C = {"<q>", "q", "\xF0\x9F\x98\x80q", "[SEPq]"};
    static std::vector<U> P; { std::vector<U> at = {U"a", U"b", U" ", U"\u00E9", U"1", U"e\u0301", U"\u4E2D", U"'s"}; for (uint64_t k = 0; k < mc::n_strings(at.size(), T ? 3 : 2); k++) P.push_back(cfgs::concat(at, k)); P.push_back(U" ab a"); P.push_back(U"abab  "); P.push_back(U"AB,ab"); P.push_back(U"\n ab"); }
    mc::Mix mix{{Y.size(), C.size()}};
    mc::Family a; a.name = "separation"; a.count = mix.total(); a.limit_s = 60;
    a.bound = std::to_string(Y.size()) + " configurations x " + std::to_string(C.size()) + " non-normalized tokens, special or not x all pairs of " + std::to_string(P.size()) + " texts (quick: every third pair): encode(x token y) without special tokens is encode(x), the token, encode(y), with positions and words moved";
    a.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); Cfg c = Y[v[0]].c; c.trunc.on = false; c.pad.on = false; c.post = Post(); for (auto &d : c.added) d.single = false;   // a token configured to stand alone looks at its neighbours
      std::string con = C[v[1]]; int n = from8(con).size(); bool special = i & 1;
      auto t = with(c, {tok(con, special ? 16 : 0)});
      std::map<U, impl::Out> solo; for (auto &p : P) solo[p] = impl::encode(*t, p, false);
      int id = impl::encode(*t, from8(con), false).enc.ids.at(0);
      for (size_t k = 0; k < P.size() * P.size() && !x.failed; k++) {
        if (!T && k % 3 != i % 3) continue;
        const U &p = P[k / P.size()], &q = P[k % P.size()];
        auto &a = solo[p], &b = solo[q]; auto o = impl::encode(*t, p + from8(con) + q, false);
        x.impl_traces++; x.transitions += 1 + o.enc.ids.size(); x.nontrivial += !a.enc.ids.empty() && !b.enc.ids.empty();
        std::string what = "text '" + mc::esc(p) + "' + '" + con + "' + '" + mc::esc(q) + "': ";
        if (a.threw || b.threw || o.threw) { x.fail(what + "threw " + a.what + b.what + o.what); break; }
        size_t m = a.enc.ids.size();
        if (o.enc.ids.size() != m + 1 + b.enc.ids.size() || o.enc.ids[m] != id) { x.fail(what + show(o.enc) + "\n  parts " + show(a.enc) + "\n  and " + show(b.enc)); break; }
        Enc w = a.enc; int wt = o.enc.words[m].value_or(-1);
        w.ids.push_back(id); w.tokens.push_back(con); w.type_ids.push_back(0); w.offsets.push_back({(int)p.size(), (int)p.size() + n}); w.words.push_back(wt); w.special.push_back(o.enc.special[m]); w.attention.push_back(1);
        int off = p.size() + n;
        for (size_t z = 0; z < b.enc.ids.size(); z++) { w.ids.push_back(b.enc.ids[z]); w.tokens.push_back(b.enc.tokens[z]); w.type_ids.push_back(b.enc.type_ids[z]); w.offsets.push_back({b.enc.offsets[z].first + off, b.enc.offsets[z].second + off}); w.words.push_back(*b.enc.words[z] + wt + 1); w.special.push_back(b.enc.special[z]); w.attention.push_back(b.enc.attention[z]); }
        int last = -1; for (auto &y : a.enc.words) last = std::max(last, *y);
        x.state(show(w));
        if (show(w) != show(o.enc) || wt <= last) x.fail(what + show(o.enc) + "\n  parts put together " + show(w));
      }
    };
    a.describe = [=](uint64_t i) { auto v = mix.at(i); return "configuration " + Y[v[0]].name + ", token '" + C[v[1]] + "'"; };
    f.push_back(a);
  }
  return mc::main_(argc, argv, "C30", f, "both parts have tokens");
}
