// C11: byte-level tokenization loses no byte.
#include <set>
#include "fam.h"
#include "scale.h"
using namespace ref;

static std::vector<std::pair<std::string, Cfg>> &configs() {
  static std::vector<std::pair<std::string, Cfg>> v;
  if (!v.empty()) return v;
  using namespace cfgs;
  Mod nomerge = m_bpe_bytes(); nomerge.merges.clear();
  Mod uni = m_bpe_bytes();   // many merges across character borders: every pair of neighbouring byte symbols of a block
  { auto &bs = byte_symbols(); for (int b = 0x80; b < 0xC0; b++) for (int l : {0xC2, 0xC3, 0xE2, 0xF0, 0xCC}) { std::string x = to8(bs[l]), y = to8(bs[b]); uni.merges.push_back({x, y}); bool k = false; for (auto &e : uni.vocab) k |= e.first == x + y; if (!k) uni.vocab.push_back({x + y, (int)uni.vocab.size()}); }
    for (int b = 0x80; b < 0xC0; b++) for (int l : {0xE3, 0xE2, 0xC3}) { std::string x = to8(bs[b]), y = to8(bs[l]); uni.merges.push_back({x, y}); bool k = false; for (auto &e : uni.vocab) k |= e.first == x + y; if (!k) uni.vocab.push_back({x + y, (int)uni.vocab.size()}); } }
  Mod ign = m_bpe_bytes(); ign.ignore = true;
  auto add = [&](const std::string &n, const Pre &p, const Mod &m, std::vector<std::string> toks, bool norm) {
    Cfg c; c.pre = p; c.mod = m; c.dec = d_byte();
    for (auto &s : toks) { Added a; a.content = s; a.norm = norm; c.added.push_back(a); }
    Ref r(c); for (auto &a : c.added) if (auto i = r.id_of(a.content)) a.id = *i;
    v.push_back({n, c});
  };
  add("pattern", p_byte(false, true), m_bpe_bytes(), {}, false);
  add("pattern+prefix", p_byte(true, true), uni, {}, false);
  add("whole", p_byte(false, false), nomerge, {}, false);
  add("whole+prefix", p_byte(true, false), ign, {}, false);
  add("cl100k", p_seq({p_split("cl100k", "Isolated", false), p_byte(false, false)}), uni, {"<|e|>", "ab", "b ", " "}, false);
  add("tokens", p_byte(false, true), m_bpe_bytes(), {"<|e|>", "a", "\n", "ab ", "s'"}, true);
  add("tokens+split", p_seq({p_split("ws", "Isolated", false), p_split("lit:a", "MergedWithNext", false), p_byte(false, true)}), ign, {"1", "ba"}, false);
  v.back().second.post = q_byte(true, true);
  return v;
}
static std::string rt(Tokenizer &t, const Cfg &c, const U &u, mc::Ctx &x) {
  auto g = impl::encode(t, u, false);
  x.impl_traces++; x.transitions += 2;
  if (g.threw) return "encode '" + mc::esc(u) + "' threw " + g.what;
  auto d = impl::decode(t, g.enc.ids, false);
  std::string w = to8(u); bool pre = false;
  std::function<void(const Pre &)> fp = [&](const Pre &p) { if (p.type == "ByteLevel") pre |= p.prefix_space; for (auto &q : p.seq) fp(q); };
  fp(c.pre);
  if (pre && !u.empty() && !is_white(u[0])) w = " " + w;
  x.nontrivial += w.size() > u.size();
  x.state(impl::ints(g.enc.ids));
  if (d.threw || d.text != w) return "text '" + mc::esc(u) + "' came back as " + (d.threw ? d.what : "'" + mc::esc(d.text) + "'") + " expected '" + mc::esc(w) + "' ids " + impl::ints(g.enc.ids);
  return "";
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  auto &C = configs();
  auto tk = [](int k) -> Tokenizer & { static std::map<int, std::unique_ptr<Tokenizer>> m; auto &p = m[k]; if (!p) p = impl::make(configs()[k].second); return *p; };
  {  // every scalar value, alone and in context
    static std::vector<char32_t> cps = fam::sweep(T);
    f.push_back(fam::blocks("scalars", cps.size(), 512, [=](uint64_t i, mc::Ctx &x) -> std::string {
      U s(1, cps[i]);
      for (int k = 0; k < (int)configs().size(); k++) {
        if (!T && k >= 3 && k != 4) continue;
        for (auto &u : {s, U"a" + s + U" " + s + s + U"b"}) { std::string d = rt(tk(k), configs()[k].second, u, x); if (!d.empty()) return "configuration " + configs()[k].first + ": " + d; }
      }
      return "";
    }, [](uint64_t i) { return fam::cp(cps[i]); }, std::string(T ? "every Unicode scalar value" : "every Unicode scalar value outside the large uniform blocks and every 64th inside") + " alone and inside 'aX XXb', " + std::to_string(T ? C.size() : 4) + " configurations"));
  }
  static U al = U"a \u00E9\u4E2D\U0001F600\n\u00A0\u0120'1\u0301\u3000"; al += U'\0'; al += U'\x7F';
  {
    int L = T ? 5 : 4; uint64_t n = mc::n_strings(al.size(), L);
    f.push_back(fam::blocks("strings", n * C.size(), 512, [=](uint64_t i, mc::Ctx &x) -> std::string { int k = i / n; return rt(tk(k), configs()[k].second, cfgs::letters(al, i % n), x); },
      [=](uint64_t i) { return "configuration " + configs()[i / n].first + " text '" + mc::esc(cfgs::letters(al, i % n)) + "'"; }, "all strings of at most " + std::to_string(L) + " over one representative per UTF-8 length and class '" + mc::esc(al) + "', 7 configurations"));
  }
  {
    static U a2 = U"ab s'1<"; int L = T ? 7 : 5; uint64_t n = mc::n_strings(a2.size(), L);
    f.push_back(fam::blocks("ascii", n * C.size(), 512, [=](uint64_t i, mc::Ctx &x) -> std::string { int k = i / n; return rt(tk(k), configs()[k].second, cfgs::letters(a2, i % n), x); },
      [=](uint64_t i) { return "configuration " + configs()[i / n].first + " text '" + mc::esc(cfgs::letters(a2, i % n)) + "'"; }, "all strings of at most " + std::to_string(L) + " over '" + mc::esc(a2) + "', 7 configurations"));
  }
  {  // the byte alphabet: 256 distinct symbols, one per byte, the same ones on the way back
    f.push_back(fam::blocks("byte-pairs", 256, 1, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Tokenizer &t = tk(2); auto &bs = byte_symbols(); auto &v = configs()[2].second.mod.vocab;
      std::map<std::string, int> id; for (auto &e : v) id[e.first] = e.second;
      for (int b = 0; b < 256; b++) for (int b2 : {-1, (int)(i * 7 + b) % 256}) {
        std::vector<int> ids = {id.at(to8(bs[i])), id.at(to8(bs[b]))}; std::string w = {(char)i, (char)b};
        if (b2 >= 0) { ids.push_back(id.at(to8(bs[b2]))); w += (char)b2; }
        auto d = impl::decode(t, ids, false); x.impl_traces++; x.transitions++; x.nontrivial++; x.state(w);
        if (d.threw || d.text != w) return "bytes '" + mc::esc(w) + "' decode to " + (d.threw ? d.what : "'" + mc::esc(d.text) + "'");
        // one token spelling all of it, alone
        auto dec = impl::dec(configs()[2].second.dec); std::string tokn; for (unsigned char c : w) tokn += to8(bs[c]);
        auto r = dec->decode_chain({tokn}); std::string got; for (auto &s : r) got += s;
        if (got != w) return "token spelling bytes '" + mc::esc(w) + "' decodes to '" + mc::esc(got) + "'";
      }
      return "";
    }, [](uint64_t i) { return "first byte " + std::to_string(i); }, "all pairs of bytes, each also followed by a third byte; as separate tokens and as one token"));
    f.push_back(fam::blocks("alphabet", 1, 1, [=](uint64_t, mc::Ctx &x) -> std::string {
      // collect the symbol of each byte that can occur in UTF-8 text from the pre-tokenizer itself
      auto p = impl::pre(cfgs::p_byte(false, false)); std::map<int, std::set<std::string>> sym;
      for (char32_t c : fam::sweep(true)) {
        std::string raw = to8(c); auto r = p->pre_tokenize(PreTokenizedString(NormalizedString(std::wstring(1, (wchar_t)c)))); x.impl_traces++; x.transitions++;
        std::string s; for (auto &q : r.splits) s += q.normalized;
        U su = from8(s); if (su.size() != raw.size()) return fam::cp(c) + " became " + std::to_string(su.size()) + " symbols for " + std::to_string(raw.size()) + " bytes";
        for (size_t k = 0; k < raw.size(); k++) sym[(unsigned char)raw[k]].insert(to8(su[k]));
      }
      std::map<std::string, int> back;
      for (auto &e : sym) {
        if (e.second.size() != 1) return "byte " + std::to_string(e.first) + " has several symbols";
        std::string s = *e.second.begin(); x.state(s); x.nontrivial++;
        if (back.count(s)) return "bytes " + std::to_string(e.first) + " and " + std::to_string(back[s]) + " share a symbol";
        back[s] = e.first;
        if (s != to8(byte_symbols()[e.first])) return "byte " + std::to_string(e.first) + " is spelled '" + mc::esc(s) + "'";
        char32_t c = from8(s)[0]; if (is_white(c) || is_control(c)) return "symbol of byte " + std::to_string(e.first) + " is not printable";
      }
      if (sym.size() != 243) return "MODEL: " + std::to_string(sym.size()) + " bytes occur in UTF-8";
      return "";
    }, [](uint64_t) { return "the byte alphabet"; }, "all 243 bytes that occur in UTF-8, over all scalar values", 120));
  }
  {  // trimming recognizes exactly the symbols of white-space bytes... and never touches tokens or ids
    f.push_back(fam::blocks("trim-symbols", 256, 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      Post q = cfgs::q_byte(false, true); auto p = impl::post(q);
      Enc e; std::string s = to8(byte_symbols()[i]);
      for (auto &w : {s + "a", "a" + s, s + "a" + s, s, s + s}) { e.ids.push_back(1); e.tokens.push_back(w); e.type_ids.push_back(0); e.words.push_back(0); e.special.push_back(0); e.attention.push_back(1); int n = from8(w).size(); e.offsets.push_back({10, 10 + n}); }
      Enc g = impl::from(p->process(impl::to(e), false)), w = post(q, e, false); x.impl_traces++; x.transitions++; x.nontrivial++; x.state(show(g));
      return show(g) == show(w) ? "" : "expected " + show(w) + " got " + show(g);
    }, [](uint64_t i) { return "byte " + std::to_string(i); }, "every byte symbol at every end of a token"));
  }
  { using namespace scale; long k = mc::thorough() ? 8 : 1; (void)k; append(f, families({text_length(2001 * k, "gpt2"), text_length(2001 * k, "llama3")}, scale::full)); }
  return mc::main_(argc, argv, "C11", f, "text has a multi-byte character or a prefix space");
}
