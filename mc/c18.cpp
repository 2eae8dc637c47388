// C18: decoding is total and renders every id sequence as the decoder specifies.
#include "fam.h"
#include "scale.h"
using namespace ref;

static std::string join(const std::vector<std::string> &t) { std::string r; for (auto &s : t) r += s; return r; }
static std::string show(const std::vector<std::string> &t) { std::string r; for (auto &s : t) r += "'" + mc::esc(s) + "' "; return r; }
static Decoder &dec_of(const Dec &d) { static std::map<std::string, std::unique_ptr<Decoder>> m; auto &r = m[dump(jdec(d))]; if (!r) r = impl::dec(d); return *r; }
static std::string chain(const Dec &d, const std::vector<std::string> &in, mc::Ctx &x) {
  std::vector<std::string> w = dec_chain(d, in), g;
  try { g = dec_of(d).decode_chain(in); } catch (const std::exception &e) { return dump(jdec(d)) + " on " + show(in) + " threw " + e.what(); }
  x.impl_traces++; x.transitions += 1 + in.size(); x.nontrivial += join(w) != join(in); x.state(show(w));
  if (w == g || join(w) == join(g) && d.type != "Sequence" && false) return "";
  return dump(jdec(d)) + " on " + show(in) + "\n  expected " + show(w) + "\n  got      " + show(g);
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  using namespace cfgs;
  static std::vector<Dec> ds;
  ds = {d_wordpiece(), d_byte(), d_("ByteFallback"), d_("Fuse"), d_llama(), d_replace("▁", " "), d_replace("a", "aa"), d_replace("aa", "a"), d_replace("", "x"), d_replace("é", ""), d_strip(" ", 1, 0), d_strip("a", 2, 1), d_strip("é", 1, 1), d_strip("", 1, 1), d_strip("ab", 3, 0), d_strip(" ", 0, 0), d_seq({}), d_seq({d_("Fuse"), d_strip(" ", 2, 2)}), d_seq({d_("ByteFallback"), d_byte()})};
  { Dec w = d_wordpiece(); w.cleanup = false; ds.push_back(w); w.prefix = ""; ds.push_back(w); w.prefix = "a"; w.cleanup = true; ds.push_back(w); w.prefix = "é"; ds.push_back(w); }
  {
    static std::vector<std::string> tk = {"a", "##a", "##", "aa", " a ", "▁", "é", "<0x61>", "<0xC3>", "<0xA9>", "\xC4\xA0\x61", ".", "n't", "\U0001F600", ""};
    int L = T ? 4 : 3; uint64_t n = mc::n_strings(tk.size(), L);
    f.push_back(fam::blocks("chains", n, 16, [=](uint64_t i, mc::Ctx &x) -> std::string {
      std::vector<std::string> in; for (int k : mc::nth_string(tk.size(), i)) in.push_back(tk[k]);
      for (auto &d : ds) { std::string r = chain(d, in, x); if (!r.empty()) return r; }
      return "";
    }, [=](uint64_t i) { std::vector<std::string> in; for (int k : mc::nth_string(tk.size(), i)) in.push_back(tk[k]); return show(in); }, "all lists of at most " + std::to_string(L) + " of " + std::to_string(tk.size()) + " tokens x " + std::to_string(ds.size()) + " decoders"));
  }
  {  // WordPiece clean-up: every concatenation of the pieces of its rules, as one token and split in two at every place
    static std::vector<std::string> at = {" ", ".", "?", "!", ",", "'", "n't", "m", "s", "ve", "re", "do not", "a", "##"};
    int L = T ? 5 : 4; uint64_t n = mc::n_strings(at.size(), L);
    f.push_back(fam::blocks("word-piece-cleanup", n, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mc::nth_string(at.size(), i);
      for (size_t cut = 0; cut <= v.size(); cut++) {
        std::string a, b; for (size_t k = 0; k < v.size(); k++) (k < cut ? a : b) += at[v[k]];
        std::string r = chain(ds[0], cut ? std::vector<std::string>{a, b} : std::vector<std::string>{b}, x);
        if (!r.empty()) return r;
      }
      return "";
    }, [=](uint64_t i) { std::string s; for (int k : mc::nth_string(at.size(), i)) s += at[k]; return "'" + s + "'"; }, "all concatenations of at most " + std::to_string(L) + " fragments of the clean-up rules, cut everywhere"));
  }
  {  // byte fallback: all bytes, all pairs, all sequences of UTF-8 classes, malformed byte tokens
    auto bt = [](int b) { char c[8]; snprintf(c, 8, "<0x%02X>", b); return std::string(c); };
    f.push_back(fam::blocks("byte-pairs", 65536 + 256, 256, [=](uint64_t i, mc::Ctx &x) -> std::string {
      std::vector<std::string> in = i < 256 ? std::vector<std::string>{bt(i)} : std::vector<std::string>{bt((i - 256) / 256), bt((i - 256) % 256)};
      std::string r = chain(ds[2], in, x); if (!r.empty()) return r;
      in.push_back("a"); in.push_back(bt(0x41)); return chain(ds[2], in, x);
    }, [=](uint64_t i) { return i < 256 ? bt(i) : bt((i - 256) / 256) + bt((i - 256) % 256); }, "every byte and every pair of bytes"));
    static std::vector<std::string> cl = {"<0x41>", "<0x80>", "<0xBF>", "<0xC0>", "<0xC3>", "<0xE0>", "<0xA0>", "<0xED>", "<0xE4>", "<0xF0>", "<0x90>", "<0xF4>", "<0xF5>", "a", "é"};
    int L = T ? 6 : 4; uint64_t n = mc::n_strings(cl.size(), L);
    f.push_back(fam::blocks("byte-classes", n, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      std::vector<std::string> in; for (int k : mc::nth_string(cl.size(), i)) in.push_back(cl[k]);
      return chain(ds[2], in, x);
    }, [=](uint64_t i) { std::string s; for (int k : mc::nth_string(cl.size(), i)) s += cl[k]; return s; }, "all sequences of at most " + std::to_string(L) + " of one byte per UTF-8 role and two texts"));
    static std::vector<std::string> mal = {"<0x4>", "<0xGG>", "<0X41>", "<0x41>>", "<0x+1>", "<0x 1>", "<0x4g>", "<0xc3>", "<0xa9>", "<0xcA>", "0x41", "<0x041>", "<0x>", "<0x-1>", "<0x0x>", "<0x1.>", "<0xE4>", "<0xB8>", "<0xAD>"};
    int M = T ? 4 : 3; uint64_t m = mc::n_strings(mal.size(), M);
    f.push_back(fam::blocks("byte-malformed", m, 32, [=](uint64_t i, mc::Ctx &x) -> std::string {
      std::vector<std::string> in; for (int k : mc::nth_string(mal.size(), i)) in.push_back(mal[k]);
      std::string r = chain(ds[2], in, x); return r.empty() ? chain(ds[4], in, x) : r;
    }, [=](uint64_t i) { std::string s; for (int k : mc::nth_string(mal.size(), i)) s += mal[k] + " "; return s; }, "all lists of at most " + std::to_string(M) + " of " + std::to_string(mal.size()) + " malformed, mixed-case and well-formed byte tokens"));
  }
  {  // byte level: every pair of symbols, and symbols next to characters that are none
    f.push_back(fam::blocks("symbol-pairs", 65536, 256, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &s = byte_symbols();
      std::string r = chain(ds[1], {to8(U{s[i / 256], s[i % 256]})}, x); if (!r.empty()) return r;
      return chain(ds[1], {to8(s[i / 256]), to8(s[i % 256]), "▁"}, x);
    }, [](uint64_t i) { return "bytes " + std::to_string(i / 256) + "," + std::to_string(i % 256); }, "every pair of byte symbols in one token and in two"));
    static U al = U"a\u0120\u0100\u00AD\u0143\u0144\u00E9 \u00A0\U0001F600\u007F";
    int L = T ? 5 : 4; uint64_t n = mc::n_strings(al.size(), L);
    f.push_back(fam::blocks("symbols-mixed", n, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      U u = letters(al, i); std::string r = chain(ds[1], {to8(u)}, x); if (!r.empty()) return r;
      return u.size() > 1 ? chain(ds[1], {to8(u.substr(0, 1)), to8(u.substr(1))}, x) : "";
    }, [](uint64_t i) { return "'" + mc::esc(letters(al, i)) + "'"; }, "all tokens of at most " + std::to_string(L) + " characters over symbols and non-symbols"));
  }
  {  // Strip and Replace: every short token, every small parameter
    static U al = U"aé b"; static std::vector<std::string> con = {"a", "é", " ", "b", "ab", "éa", "", "\U0001F600", "x"};
    int L = T ? 7 : 5; mc::Mix mix{{con.size(), 4, 4}}; uint64_t n = mc::n_strings(al.size(), L);
    f.push_back(fam::blocks("strip", mix.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Dec d = d_strip(con[v[0]], v[1], v[2]);
      for (uint64_t w = 0; w < n; w++) { std::string r = chain(d, {to8(letters(al, w)), "a a"}, x); if (!r.empty()) return r; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return "Strip '" + con[v[0]] + "' " + std::to_string(v[1]) + " " + std::to_string(v[2]) + ", all tokens"; }, "9 contents x start and stop 0..3 x all tokens of at most " + std::to_string(L) + " characters over four"));
    static std::vector<std::string> rp = {"", "a", "b", "é", " ", "▁", "ab", "aa", "a a", "\\", "$0", "."};
    mc::Mix m2{{rp.size(), rp.size()}};
    static U al2 = U"a b▁é\\.$";
    uint64_t n2 = mc::n_strings(al2.size(), T ? 5 : 4);
    f.push_back(fam::blocks("replace", m2.total(), 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = m2.at(i); Dec d = d_replace(rp[v[0]], rp[v[1]]);
      for (uint64_t w = 0; w < n2; w++) { std::string r = chain(d, {to8(letters(al2, w))}, x); if (!r.empty()) return r; }
      return "";
    }, [=](uint64_t i) { auto v = m2.at(i); return "Replace '" + rp[v[0]] + "' by '" + rp[v[1]] + "', all tokens"; }, "144 pattern/content pairs x all tokens of at most " + std::to_string(T ? 5 : 4) + " characters over eight"));
  }
  {  // id lists through the tokenizer
    struct S { std::string name; Cfg c; std::vector<int> ids; };
    static std::vector<S> ss;
    for (auto &n : all()) {
      S s{n.name, n.c, {-1, 0, 100000, 2147483647, (-2147483647 - 1)}};
      for (size_t k = 0; k < n.c.added.size() && k < 4; k++) s.ids.push_back(n.c.added[k].id);
      size_t V = n.c.mod.vocab.size(); for (size_t k : {(size_t)1, V / 5, V / 3, V / 2, V - 2, V - 1}) if (k < V) s.ids.push_back(n.c.mod.vocab[k].second);
      s.ids.push_back((int)V + 20);
      ss.push_back(s);
    }
    { Cfg c = bert(); c.added.clear(); c.added_null = true; ss.push_back({"bert without added tokens", c, {-1, 2, 3, 4, 7, 46, 60}}); c.dec = Dec(); ss.push_back({"no decoder, no added tokens", c, {-1, 2, 3, 4, 7, 46, 60}}); }
    { Cfg c = bert(); c.dec = Dec(); ss.push_back({"no decoder", c, {-1, 0, 2, 3, 4, 7, 46, 60, 1000}}); }
    { Cfg c = bert(); c.mod.vocab.clear(); c.mod.vocab = {{"[UNK]", 7}, {"a", 3}, {"##b", 1000000}, {"", 12}, {"c", 0}}; c.added.clear(); Added a; a.content = "c"; a.special = true; c.added = {a}; ss.push_back({"sparse ids, special token in the vocabulary", c, {7, 3, 1000000, 12, 0, 5, 8, 1000001}}); }
    int L = T ? 5 : 4;
    for (size_t si = 0; si < ss.size(); si++) {
      uint64_t n = mc::n_strings(ss[si].ids.size(), L - (ss[si].ids.size() > 12));
      f.push_back(fam::blocks("ids/" + ss[si].name, n, 128, [=](uint64_t i, mc::Ctx &x) -> std::string {
        static std::map<int, std::pair<std::unique_ptr<Ref>, std::unique_ptr<Tokenizer>>> made;
        auto &m = made[si]; if (!m.first) { m.first = std::make_unique<Ref>(ss[si].c); m.second = impl::make(ss[si].c); }
        std::vector<int> ids; for (int k : mc::nth_string(ss[si].ids.size(), i)) ids.push_back(ss[si].ids[k]);
        for (int skip = 0; skip < 2; skip++) {
          std::string w = m.first->decode(ids, skip); impl::Out g = impl::decode(*m.second, ids, skip);
          x.impl_traces++; x.transitions += ids.size() + 1; x.nontrivial += !w.empty(); x.state(w);
          if (g.threw) return "threw " + g.what;
          if (g.text != w) return std::string("skip=") + (skip ? "1" : "0") + ": expected '" + mc::esc(w) + "', got '" + mc::esc(g.text) + "'";
        }
        return "";
      }, [=](uint64_t i) { std::vector<int> ids; for (int k : mc::nth_string(ss[si].ids.size(), i)) ids.push_back(ss[si].ids[k]); return "decode(" + impl::ints(ids) + ")"; }, "all lists of at most " + std::to_string(L - (ss[si].ids.size() > 12)) + " of the ids " + impl::ints(ss[si].ids) + " x skip"));
    }
    static std::vector<int> len = {64, 255, 256, 257, 1000, 1023, 1025, 4097, 5000, 10001, 32769, 65535, 65536, 65537, 100000};
    mc::Mix mix{{ss.size(), len.size(), 3}};
    f.push_back(fam::blocks("long-id-lists", mix.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Ref r(ss[v[0]].c); auto t = impl::make(ss[v[0]].c);
      std::vector<int> ids; for (int k = 0; k < len[v[1]]; k++) ids.push_back(v[2] == 0 ? k % 300 : v[2] == 1 ? ss[v[0]].ids[k % ss[v[0]].ids.size()] : ss[v[0]].ids[((long)k * k) % ss[v[0]].ids.size()]);
      for (int skip = 0; skip < 2; skip++) { std::string w = r.decode(ids, skip); impl::Out g = impl::decode(*t, ids, skip); x.impl_traces++; x.transitions += ids.size(); x.nontrivial++; if (g.threw || g.text != w) return "skip " + std::to_string(skip) + ": " + (g.threw ? "threw " + g.what : "text differs"); }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return ss[v[0]].name + ", " + std::to_string(len[v[1]]) + " ids, order " + std::to_string(v[2]); }, "id lists of 64 to 100000 ids", 60));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({text_length(1025 * k), members(257)}, scale::full)); }
  return mc::main_(argc, argv, "C18", f, "the decoded text is not empty / differs from the concatenated tokens");
}
