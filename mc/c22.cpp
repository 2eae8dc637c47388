// C22: no input crashes, hangs or corrupts the tokenizer.
#include "newlimit.h"

#include <climits>
#include <ctime>

#include "fam.h"
using namespace ref;

static const std::vector<unsigned> HOSTILE = {0, 'a', ' ', '.', '<', '[', 0x301, 0xE9, 0x120, 0x2581, 0x1100, 0x4E2D, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFD, 0xFFFF, 0x1F600, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
static bool scalar(unsigned c) { return c < 0x110000 && !(c >= 0xD800 && c < 0xE000); }
static std::wstring hostile(uint64_t i) { std::wstring w; for (int k : mc::nth_string(HOSTILE.size(), i)) w.push_back((wchar_t)HOSTILE[k]); return w; }
static std::string escw(const std::wstring &w) { std::string r; for (wchar_t c : w.substr(0, 40)) { char b[16]; snprintf(b, 16, "%X ", (unsigned)c); r += b; } return r + (w.size() > 40 ? "... (" + std::to_string(w.size()) + " units)" : ""); }
static bool valid(const std::wstring &w) { for (wchar_t c : w) if (!scalar((unsigned)c)) return false; return true; }

struct Sys { std::string name; Cfg c; };
static std::vector<Sys> &systems() {
  static std::vector<Sys> v;
  if (v.empty()) {
    for (auto &n : cfgs::all()) v.push_back({n.name, n.c});
    // components that no complete configuration above uses
    auto add = [&](const std::string &n, std::function<void(Cfg &)> f) { Cfg c = cfgs::bare(); c.added = {}; f(c); v.push_back({n, c}); };
    int k = 0;
    for (auto &n : cfgs::norms()) add("normalizer " + n.first, [&](Cfg &c) { c.norm = n.second; c.mod = k++ % 2 ? cfgs::m_wordpiece() : cfgs::m_bpe_bytes(); });
    for (auto &n : cfgs::bert_flags()) add("normalizer " + n.first, [&](Cfg &c) { c.norm = n.second; c.mod = cfgs::m_bpe_fallback(); });
    for (const char *n : {"NFC", "NFD", "NFKD", "StripAccents"}) add(std::string("normalizer ") + n, [&](Cfg &c) { c.norm = cfgs::n_(n); c.mod = cfgs::m_bpe_bytes(); c.pre = cfgs::p_byte(false, true); });
    for (int side = 1; side < 3; side++) add("normalizer one-sided strip " + std::to_string(side), [&](Cfg &c) { c.norm = cfgs::n_strip(side == 1, side == 2); });
    for (auto &p : cfgs::pres()) add("pre-tokenizer " + p.first, [&](Cfg &c) { c.pre = p.second; });
    for (auto &m : cfgs::mods()) add("model " + m.first, [&](Cfg &c) { c.mod = m.second; });
    add("WordPiece without a limit", [&](Cfg &c) { c.mod = cfgs::m_wordpiece(); c.mod.max_chars = 1 << 30; });
    add("WordPiece without a limit or prefix", [&](Cfg &c) { c.mod = cfgs::m_wordpiece(); c.mod.max_chars = INT_MAX; c.mod.prefix = ""; });
    for (int at = 0; at < 3; at++) add("empty Replace patterns " + std::to_string(at), [&](Cfg &c) { c.norm = at == 0 ? cfgs::n_replace("", "x") : at == 1 ? cfgs::n_replace("", "") : cfgs::n_seq({cfgs::n_replace("a", ""), cfgs::n_replace("", "b")}); c.dec = cfgs::d_replace("", at ? "x" : ""); });
    add("empty literal Split pattern", [&](Cfg &c) { c.pre = cfgs::p_split("lit:", "Isolated", false); });
    add("empty Prepend", [&](Cfg &c) { c.norm = cfgs::n_prepend(""); });
    add("added token that normalizes to nothing", [&](Cfg &c) { c.norm = cfgs::n_replace("x", ""); Added t; t.content = "xx"; t.norm = true; c.added = {t}; });
    for (auto &a : cfgs::addeds()) add("added set " + std::to_string(k++), [&](Cfg &c) { c.added = a; c.norm = cfgs::n_("NFKD"); });
  }
  return v;
}
static const U PROBE = U"ab é <n> [M] a b中";
static std::string probe(Tokenizer &t) { try { Encoding e = t.encode(toW(PROBE)); return show(impl::from(e)) + "|" + t.decode(e.ids, false); } catch (const std::exception &e) { return std::string("threw ") + e.what(); } }
// one tokenizer per configuration and worker: every case also runs in the history of the ones before it
static Tokenizer &live(int s) { static std::map<int, std::unique_ptr<Tokenizer>> m; auto &t = m[s]; if (!t) t = impl::make(systems()[s].c); return *t; }
static const std::string &wantprobe(int s) { static std::map<int, std::string> m; auto &w = m[s]; if (w.empty()) { auto t = impl::make(systems()[s].c); w = probe(*t); } return w; }
static double cpu() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string feed(int s, const std::wstring &w, mc::Ctx &x) {
  auto &t = live(s);
  impl::Out o[2];
  for (int add = 0; add < 2; add++) {
    o[add] = impl::encodeW(t, w, add); x.transitions++;
    if (o[add].threw && valid(w)) return "valid text, but encode threw " + o[add].what;
    if (!o[add].threw) { auto d = impl::wellformed(o[add].enc); if (!d.empty()) return d; }
    x.state(impl::show(o[add]));
  }
  if (!o[1].threw) for (int skip = 0; skip < 2; skip++) { auto d = impl::decode(t, o[1].enc.ids, skip); x.transitions++; if (d.threw) return "decoding the encoded ids threw " + d.what; }
  x.impl_traces++; x.nontrivial += !valid(w);
  return "";
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static auto &S = systems();
  auto hostiles = [&](const std::string &name, int from, int to, int L) {
    uint64_t n = mc::n_strings(HOSTILE.size(), L), blk = 64, per = (n + blk - 1) / blk;
    mc::Family a; a.name = name; a.count = (to - from) * per; a.chunk = std::max<uint64_t>(1, per / 2);
    a.bound = "all sequences of at most " + std::to_string(L) + " of " + std::to_string(HOSTILE.size()) + " code units (NUL, surrogates, beyond U+10FFFF, negative, letters, marks, token beginnings) x " + std::to_string(to - from) + " configurations x both flags, in blocks of 64 on a living tokenizer, each block followed by a probe";
    a.run = [=](uint64_t i, mc::Ctx &x) {
      int s = from + i / per; uint64_t b = i % per;
      for (uint64_t k = b * blk; k < std::min(n, (b + 1) * blk) && !x.failed; k++) { auto w = hostile(k); std::string d = feed(s, w, x); if (!d.empty()) x.fail("configuration " + S[s].name + ", code units " + escw(w) + ": " + d); }
      if (!x.failed) { std::string g = probe(live(s)); if (g != wantprobe(s)) x.fail("configuration " + S[s].name + ": afterwards the probe gives " + g + " instead of " + wantprobe(s)); }
    };
    a.describe = [=](uint64_t i) { return "configuration " + S[from + i / per].name + ", 64 sequences from " + escw(hostile(i % per * blk)); };
    f.push_back(a);
  };
  int whole = cfgs::all().size();
  hostiles("hostile-texts", 0, whole, T ? 4 : 3);
  hostiles("hostile-texts-components", whole, S.size(), T ? 3 : 2);
  {  // every scalar value and the surrogates, between letters and alone
    static std::vector<unsigned> C; for (char32_t c : fam::sweep(T)) C.push_back(c);
    for (unsigned c = 0xD800; c < 0xE000; c += T ? 1 : 37) C.push_back(c);
    uint64_t blk = 256, per = (C.size() + blk - 1) / blk;
    mc::Family a; a.name = "every-character"; a.count = whole * per; a.bound = "every scalar value (quick: large uniform blocks thinned) and surrogates, alone and inside 'a_ _b', on " + std::to_string(whole) + " configurations";
    a.run = [=](uint64_t i, mc::Ctx &x) {
      int s = i / per; uint64_t b = i % per;
      for (uint64_t k = b * blk; k < std::min<uint64_t>(C.size(), (b + 1) * blk) && !x.failed; k++) {
        wchar_t c = C[k];
        std::wstring w[] = {std::wstring(1, c), std::wstring(L"a") + c + L" " + c + L"b"};
        for (auto &v : w) { auto o = impl::encodeW(live(s), v, true); x.transitions++; x.impl_traces++; if (o.threw && valid(v)) x.fail("configuration " + S[s].name + ", text " + escw(v) + ": encode threw " + o.what); }
        x.nontrivial++;
      }
    };
    a.describe = [=](uint64_t i) { return "configuration " + S[i / per].name + ", characters from " + fam::cp(C[i % per * blk]); };
    f.push_back(a);
  }
  {  // id lists
    int L = T ? 4 : 3;
    static std::vector<std::vector<int>> ids;
    for (int s = 0; s < whole; s++) {
      int n = S[s].c.mod.vocab.size(), m = n; for (auto &a : S[s].c.added) m = std::max(m, a.id + 1);
      std::vector<int> v = {INT_MIN, -1, 0, 1, n - 1, n, m - 1, m, m + 1, 1 << 20, INT_MAX}; std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); ids.push_back(v);
    }
    uint64_t n = mc::n_strings(11, L);
    f.push_back(fam::blocks("id-lists", whole * n, 256, [=](uint64_t i, mc::Ctx &x) -> std::string {
      int s = i / n; std::vector<int> l; for (int k : mc::nth_string(11, i % n)) l.push_back(ids[s][k % ids[s].size()]);
      for (int skip = 0; skip < 2; skip++) { auto d = impl::decode(live(s), l, skip); x.transitions++; x.state(impl::show(d)); if (d.threw) return "decode threw " + d.what; }
      x.impl_traces++; x.nontrivial++;
      return "";
    }, [=](uint64_t i) { std::vector<int> l; for (int k : mc::nth_string(11, i % n)) l.push_back(ids[i / n][k % ids[i / n].size()]); return "configuration " + S[i / n].name + ", ids " + impl::ints(l); }, "all lists of at most " + std::to_string(L) + " of 11 ids (extreme, negative, borders of the vocabulary and of the added tokens) x configurations x flag"));
  }
  {  // length scaling
    static std::vector<std::pair<std::string, std::wstring>> pat = {{"a", L"a"}, {"ab", L"ab"}, {"b", L"b"}, {"x", L"x"}, {"space", L" "}, {"nbsp", L"\u00A0"}, {"newline", L"\n"}, {"CRLF", L"\r\n"}, {"space newline", L" \n"}, {"apostrophe", L"'"}, {"'s", L"'s"}, {"digit", L"1"}, {"punctuation", L"."}, {"comma", L","}, {"acute", L"\u0301"}, {"marks in reverse order", L"\u0301\u0316"}, {"e acute", L"e\u0301"}, {"ideograph", L"\u4E2D"}, {"emoji", L"\U0001F600"}, {"jamo", L"\u1100"}, {"syllables", L"\u1100\u1161\u11A8"}, {"ligature", L"\uFB03"}, {"U+FDFA", L"\uFDFA"}, {"NUL", std::wstring(1, L'\0')}, {"U+FFFD", L"\uFFFD"}, {"'<'", L"<"}, {"'<n>'", L"<n>"}, {"' <n>'", L" <n>"}, {"'[MASK]'", L"[MASK]"}, {"'  [MASK]'", L"  [MASK]"}, {"'<s'", L"<s"}, {"'[MASK'", L"[MASK"}, {"'a b'", L"a b"}, {"'ab,'", L"ab,"}, {"surrogate", std::wstring(1, (wchar_t)0xD800)}, {"beyond Unicode", std::wstring(1, (wchar_t)0x110000)}, {"words", L"ab aba "}, {"U+2581", L"\u2581"}, {"capitals", L"AB"}, {"dotted I", L"\u0130"}};
    static std::vector<int> lens = T ? std::vector<int>{1000, 10000, 20000} : std::vector<int>{1000, 10000};
    mc::Mix mix{{S.size(), pat.size(), lens.size(), 2}};
    mc::Family a; a.name = "lengths"; a.count = mix.total(); a.limit_s = T ? 120 : 45; a.bound = "one pattern of " + std::to_string(pat.size()) + " repeated to 1000, 10000" + (T ? ", 20000" : "") + " units, alone and between letters, on all " + std::to_string(S.size()) + " configurations; encode and decode within 45 s (thorough: 120 s) of wall time each (a quadratic algorithm needs well under 5 s, a cubic one hours)";
    a.chunk = 8;
    a.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); int s = v[0]; auto &p = pat[v[1]].second; int n = lens[v[2]];
      std::wstring w; while ((int)w.size() < n) w += p;
      if (v[3]) w = L"a" + w + L"b";
      auto t = impl::make(S[s].c);
      double t0 = cpu();
      auto o = impl::encodeW(*t, w, true); x.transitions++;
      if (o.threw && valid(w)) { x.fail("encode threw " + o.what); return; }
      if (!o.threw) { auto d = impl::decode(*t, o.enc.ids, false); x.transitions++; if (d.threw) { x.fail("decode threw " + d.what); return; } }
      double dt = cpu() - t0;
      if (getenv("C22_TIMES") && dt > 0.3) fprintf(stderr, "%6.2fs %s / %s / %d\n", dt, S[s].name.c_str(), pat[v[1]].first.c_str(), n);
      x.impl_traces++; x.nontrivial++; x.state(impl::show(o));
      std::string g = probe(*t); if (g != wantprobe(s)) x.fail("afterwards the probe gives " + g);
    };
    a.describe = [=](uint64_t i) { auto v = mix.at(i); return "configuration " + S[v[0]].name + ", pattern " + pat[v[1]].first + " repeated to " + std::to_string(lens[v[2]]) + " units" + (v[3] ? " between letters" : ""); };
    f.push_back(a);
  }
  {  // texts of a million characters through every pre-tokenizer and normalizer: nothing that grows with the text (stacks, counters) runs out
    static std::vector<std::pair<std::string, std::wstring>> pat = {{"a", L"a"}, {"space", L" "}, {"digit", L"1"}, {"punctuation", L"."}, {"'a '", L"a "}, {"e acute", L"\u00E9"}, {"newline", L"\n"}, {"'s", L"'s"}, {"words", L"abaab ab"}};
    static std::vector<int> lens = T ? std::vector<int>{1 << 17, 1 << 20, 1 << 22} : std::vector<int>{1 << 18};
    static std::vector<Sys> L; static std::vector<std::string> names;
    auto put = [&](const std::string &n, const Cfg &c) { L.push_back({n, c}); };
    for (auto &p : cfgs::pres()) { Cfg c = cfgs::bare(); c.added = {}; c.pre = p.second; c.mod = cfgs::m_bpe_bytes(); c.mod.merges.clear(); put("pre-tokenizer " + p.first, c); }
    for (auto &n : cfgs::norms()) { Cfg c = cfgs::bare(); c.added = {}; c.norm = n.second; c.mod = cfgs::m_wordpiece(); put("normalizer " + n.first, c); }
    { Cfg c = cfgs::gpt2(); put("gpt2", c); c = cfgs::bert(); put("bert", c); c = cfgs::llama2(); put("llama2", c); c = cfgs::bare(); put("bare", c); }
    mc::Mix mix0{{L.size(), pat.size(), lens.size()}};
    // the quick tier takes the pre-tokenizers with built-in patterns to 2^20 characters of one class as well
    static std::vector<std::vector<uint64_t>> extra;
    if (!T) { lens.push_back(1 << 20); for (size_t l = 0; l < L.size(); l++) if (L[l].name == "pre-tokenizer byte" || L[l].name == "pre-tokenizer bert" || L[l].name == "pre-tokenizer seq") for (uint64_t q = 0; q < 4; q++) extra.push_back({l, q, 1}); }
    struct M { mc::Mix m; uint64_t total() const { return m.total() + extra.size(); } std::vector<uint64_t> at(uint64_t i) const { return i < extra.size() ? extra[i] : m.at(i - extra.size()); } } mix{mix0};
    mc::Family a; a.name = "very-long"; a.count = mix.total(); a.chunk = 1; a.limit_s = T ? 800 : 400;
    a.bound = "one of " + std::to_string(pat.size()) + " patterns repeated to " + std::string(T ? "2^17, 2^20 and 2^22" : "2^18 (for three pre-tokenizers 2^20)") + " characters x " + std::to_string(L.size()) + " configurations (every pre-tokenizer, every normalizer, four complete ones): encode and decode return";
    a.run = [=](uint64_t i, mc::Ctx &x) {
      auto v = mix.at(i); auto &p = pat[v[1]].second; int n = lens[v[2]]; if (!T && L[v[0]].name == "bert") n >>= 2;   // joining its decoded tokens takes time quadratic in their number
      std::wstring w; while ((int)w.size() < n) w += p;
      auto t = impl::make(L[v[0]].c); double t0 = cpu();
      auto o = impl::encodeW(*t, w, true); x.transitions++;
      if (o.threw) { x.fail("encode threw " + o.what); return; }
      auto d = impl::decode(*t, o.enc.ids, false); x.transitions++; if (d.threw) { x.fail("decode threw " + d.what); return; }
      if (getenv("C22_TIMES")) fprintf(stderr, "%6.2fs %s / %s / %d\n", cpu() - t0, L[v[0]].name.c_str(), pat[v[1]].first.c_str(), n);
      x.impl_traces++; x.nontrivial++; x.state(std::to_string(o.enc.ids.size()) + "/" + std::to_string(o.enc.over.size()) + "/" + std::to_string(d.text.size()));
    };
    a.describe = [=](uint64_t i) { auto v = mix.at(i); return "configuration " + L[v[0]].name + ", pattern " + pat[v[1]].first + " repeated to " + std::to_string(lens[v[2]]) + " characters"; };
    f.push_back(a);
  }
  return mc::main_(argc, argv, "C22", f, "the text has an invalid code unit");
}
