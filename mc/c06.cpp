// C06: equivalent configurations load to equivalent tokenizers.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <fstream>
#include "scale.h"
#include "fam.h"
using namespace ref;

// ---- a writer whose every free choice is explicit ----
struct Write {
  long esc_at = -1, gap_at = -1;   // escape this character / put white space into this gap
  std::string gap = " \n\t\r ";
  bool all_upper = false;
  long chars = 0, gaps = 0;
  std::string out;
  void g() { if (gaps++ == gap_at) out += gap; }
  void str(const std::string &s, bool free) {
    out += '"';
    for (char32_t c : from8(s)) {
      bool e = free && chars++ == esc_at;
      if (e) { char b[16]; if (c >= 0x10000) snprintf(b, 16, all_upper ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xD800 + (c - 0x10000) / 1024, 0xDC00 + (c - 0x10000) % 1024); else snprintf(b, 16, all_upper ? "\\u%04X" : "\\u%04x", (unsigned)c); out += b; continue; }
      if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
      else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned)c); out += b; }
      else out += to8(c);
    }
    out += '"';
  }
  void val(const J &j, bool freekeys) {
    if (j.k == J::Str) str(j.s, true);
    else if (j.k == J::Arr) { out += '['; for (size_t i = 0; i < j.a.size(); i++) { g(); val(j.a[i], false); g(); if (i + 1 < j.a.size()) out += ','; } if (j.a.empty()) g(); out += ']'; }
    else if (j.k == J::Obj) {
      out += '{';
      for (size_t i = 0; i < j.o.size(); i++) { g(); str(j.o[i].first, freekeys); g(); out += ':'; g(); val(j.o[i].second, !freekeys && (j.o[i].first == "vocab" || j.o[i].first == "special_tokens")); g(); if (i + 1 < j.o.size()) out += ','; }
      if (j.o.empty()) g();
      out += '}';
    } else out += dump(j);
  }
  std::string top(const J &j) { out.clear(); chars = gaps = 0; g(); val(j, false); g(); return out; }
};
struct Probe { std::vector<U> texts; std::vector<std::vector<int>> ids; };
struct Case { std::string name; Cfg c; Probe p; std::string want; };
static std::string fp(Tokenizer &t, const Probe &p) {
  std::string s;
  for (auto &u : p.texts) for (int add = 0; add < 2; add++) { auto o = impl::encode(t, u, add); s += o.threw ? "THROW" : impl::show(o); s += '\n'; }
  for (auto &v : p.ids) for (int sk = 0; sk < 2; sk++) { auto o = impl::decode(t, v, sk); s += o.threw ? "THROW" : "'" + o.text + "'"; s += '\n'; }
  return s;
}
static std::string fpr(const Cfg &c, const Probe &p) {
  Ref r(c); std::string s;
  for (auto &u : p.texts) for (int add = 0; add < 2; add++) { bool rej; impl::Out o; o.enc = r.encode(u, add, rej); o.threw = rej; s += rej ? "THROW" : impl::show(o); s += '\n'; }
  for (auto &v : p.ids) for (int sk = 0; sk < 2; sk++) s += "'" + r.decode(v, sk) + "'\n";
  return s;
}
static Probe probe(const Cfg &c, const std::vector<U> &atoms, const U &al) {
  Probe p; U a, b; for (auto &x : atoms) { a += x; b = b + U" " + x; } p.texts = {a, b, al, U"", U" ab "};
  for (auto &x : atoms) if (p.texts.size() < 9) p.texts.push_back(x);
  std::vector<int> ids; for (auto &v : c.mod.vocab) ids.push_back(v.second); Ref r(c); for (auto &t : c.added) if (auto i = r.id_of(t.content)) ids.push_back(*i);
  p.ids = {ids, {}, {1, 2, 3, 0, 4}}; return p;
}
static std::vector<Case> &cases() {
  static std::vector<Case> v;
  if (v.empty()) for (auto &n : cfgs::all()) {
    if (n.name == "bert-cased") continue;
    Case k; k.name = n.name; k.c = n.c; k.p = probe(n.c, n.atoms, n.alphabet); k.want = fpr(k.c, k.p); v.push_back(k);
  }
  return v;
}
static std::string line_diff(const std::string &w, const std::string &g) {
  size_t i = 0; while (i < w.size() && i < g.size() && w[i] == g[i]) i++;
  auto cut = [&](const std::string &s) { size_t b = s.rfind('\n', i ? i - 1 : 0); b = b == s.npos ? 0 : b + 1; return s.substr(b, std::min<size_t>(s.find('\n', b) - b, 600)); };
  return "expected " + cut(w) + "\n  got      " + cut(g);
}
static std::string same(const std::string &json, const Probe &p, const std::string &want, mc::Ctx &x, const std::string &dir = "") {
  x.impl_traces++; x.transitions += p.texts.size() * 2 + p.ids.size() * 2; x.nontrivial++; x.state(json);
  try {
    std::unique_ptr<Tokenizer> t = dir.empty() ? impl::make_json(json) : std::make_unique<Tokenizer>(dir, "");
    std::string g = fp(*t, p);
    return g == want ? "" : line_diff(want, g);
  } catch (const std::exception &e) { return std::string("rejected: ") + e.what(); }
}
// every object of the tree, as a path of child indexes
static void objects(J &j, std::vector<J *> &out) { if (j.k == J::Obj) { out.push_back(&j); for (auto &p : j.o) objects(p.second, out); } for (auto &x : j.a) objects(x, out); }
static bool is_map(const J &root, const J *o) {   // vocab, special_tokens and one-of wrappers: their keys are data
  bool r = false;
  std::function<void(const J &, const std::string &)> w = [&](const J &j, const std::string &k) {
    if (&j == o && (k == "vocab" || k == "special_tokens" || k == "pattern" || k == "strategy" || k == "single[]" || k == "pair[]")) r = true;
    for (auto &p : j.o) w(p.second, p.first);
    for (auto &x : j.a) w(x, k + "[]");
  };
  w(root, "");
  return r;
}
static uint64_t fact(int n) { uint64_t r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
static void permute(std::vector<std::pair<std::string, J>> &o, uint64_t k) {
  std::vector<std::pair<std::string, J>> in = o, r; for (int n = in.size(); n > 0; n--) { uint64_t f = fact(n - 1); int i = k / f; k %= f; r.push_back(in[i]); in.erase(in.begin() + i); } o = r;
}

int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  auto &C = cases();
  {  // top-level order
    static std::vector<int> full; for (size_t k = 0; k < C.size(); k++) if (T || C[k].name == "bert-trunc-pad" || C[k].name == "nfd-strip-replace") full.push_back(k);
    uint64_t n = fact(8);
    f.push_back(fam::blocks("top-order", full.size() * n, 256, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &k = cases()[full[i / n]]; J j = jcfg(k.c); j.o.erase(j.o.begin()); permute(j.o, i % n);
      static Probe small; small = k.p; small.texts.resize(2); small.ids.resize(1); static std::map<int, std::string> w; auto &want = w[i / n]; if (want.empty()) want = fpr(k.c, small);
      return same(dump(j), small, want, x);
    }, [=](uint64_t i) { J j = jcfg(cases()[full[i / n]].c); j.o.erase(j.o.begin()); permute(j.o, i % n); std::string s; for (auto &p : j.o) s += p.first + " "; return "configuration " + cases()[full[i / n]].name + " order " + s; }, "all 40320 orders of the eight top-level fields"));
  }
  {  // order inside every object
    static std::vector<std::array<uint64_t, 3>> items;   // case, object, permutation
    for (size_t k = 0; k < C.size(); k++) {
      J j = jcfg(C[k].c); std::vector<J *> os; objects(j, os);
      for (size_t o = 0; o < os.size(); o++) {
        size_t n = os[o]->o.size();
        if (n < 2) continue;
        if (n <= (T ? 7u : 4u)) for (uint64_t p = 1; p < fact(n); p++) items.push_back({k, o, p});
        else if (n <= 12) { for (size_t a = 0; a < n; a++) for (size_t b = a + 1; b < n; b++) items.push_back({k, o, 1000000 + a * 100 + b}); for (size_t r = 1; r < n; r++) { items.push_back({k, o, 2000000 + r}); items.push_back({k, o, 3000000 + r}); } items.push_back({k, o, 3000000}); }
        else for (size_t r : {0ul, 1ul, n / 2, n - 1}) { items.push_back({k, o, 2000000 + r}); items.push_back({k, o, 3000000 + r}); }
      }
    }
    f.push_back(fam::blocks("inner-order", items.size(), 32, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto &it = items[i]; auto &k = cases()[it[0]]; J j = jcfg(k.c); std::vector<J *> os; objects(j, os); auto &o = os[it[1]]->o; uint64_t p = it[2];
      if (p >= 2000000) { if (p >= 3000000) std::reverse(o.begin(), o.end()); std::rotate(o.begin(), o.begin() + p % 1000000, o.end()); }
      else if (p >= 1000000) std::swap(o[p % 1000000 / 100], o[p % 100]);
      else permute(o, p);
      return same(dump(j), k.p, k.want, x);
    }, [](uint64_t i) { return "configuration " + cases()[items[i][0]].name + " object " + std::to_string(items[i][1]) + " permutation " + std::to_string(items[i][2]); }, "every object of every configuration: all orders up to 4 (thorough 7) fields, all swaps, rotations and reversals of larger ones"));
  }
  {  // one character escaped / white space in one gap
    static std::vector<std::array<uint64_t, 3>> items;
    for (size_t k = 0; k < C.size(); k++) { Write w; w.top(jcfg(C[k].c)); for (long c = 0; c < w.chars; c += (!T && w.chars > 1500) ? 3 : 1) items.push_back({k, 0, (uint64_t)c}); for (long g = 0; g < w.gaps; g += (!T && w.gaps > 1200) ? 5 : 1) items.push_back({k, 1, (uint64_t)g}); }
    f.push_back(fam::blocks("one-escape", items.size(), 64, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto &it = items[i]; auto &k = cases()[it[0]]; Write w; (it[1] ? w.gap_at : w.esc_at) = it[2]; w.all_upper = it[2] % 2; return same(w.top(jcfg(k.c)), k.p, k.want, x);
    }, [](uint64_t i) { return "configuration " + cases()[items[i][0]].name + (items[i][1] ? " white space in gap " : " escaped character ") + std::to_string(items[i][2]); }, "each single character of every string, vocabulary key and special-token name written as an escape; white space in each single gap between JSON tokens (in large files every 3rd/5th in the quick tier)"));
  }
  {  // whole-document styles, as a string and as a file
    mc::Mix mix{{C.size(), 4, 3, 3}};
    f.push_back(fam::blocks("styles", mix.total(), 4, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); auto &k = cases()[v[0]]; Style s; s.escape = v[1]; s.space = v[2]; std::string js = dump(jcfg(k.c), s), d;
      if (v[3]) {
        d = std::string(getenv("MC_WORK") ? getenv("MC_WORK") : "/tmp") + "/c06-" + std::to_string(getpid()) + (v[3] == 2 ? "-dé ir" : ""); mkdir(d.c_str(), 0700);
        std::ofstream(d + "/tokenizer.json", std::ios::binary) << js;
      }
      std::string r = same(js, k.p, k.want, x, v[3] == 2 ? d + "/" : d);
      if (v[3]) { unlink((d + "/tokenizer.json").c_str()); rmdir(d.c_str()); }
      return r;
    }, [=](uint64_t i) { auto v = mix.at(i); return "configuration " + cases()[v[0]].name + " escape style " + std::to_string(v[1]) + " space style " + std::to_string(v[2]) + (v[3] ? " from a file" : " from a string"); }, "all configurations x 4 escape styles x 3 white-space styles x string/file/file in an odd directory"));
  }
  {  // unknown extra fields
    static std::vector<std::pair<std::string, J>> extra = {{"extra", J()}, {"x", J(1)}, {"comment", J("type")}, {"zz", J::obj({{"type", "BPE"}, {"vocab", J::obj({{"a", 1}})}, {"normalizer", J()}})}, {"aa", J::arr({J::obj({{"id", 3}, {"content", "a"}}), J(1.5), J(true)})}, {"typ", J("WordPiece")}, {"Type", J("BPE")}, {"", J("")}, {"é\"\\", J(false)}};
    static std::vector<std::array<uint64_t, 4>> items;
    for (size_t k = 0; k < C.size(); k++) { J j = jcfg(C[k].c); std::vector<J *> os; objects(j, os); for (size_t o = 0; o < os.size(); o++) if (!is_map(j, os[o])) for (size_t e = 0; e < extra.size(); e++) for (size_t pos = 0; pos <= os[o]->o.size(); pos += os[o]->o.size() > 0 && !T ? os[o]->o.size() : 1) items.push_back({k, o, e, pos}); }
    f.push_back(fam::blocks("extra-fields", items.size(), 32, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto &it = items[i]; auto &k = cases()[it[0]]; J j = jcfg(k.c); std::vector<J *> os; objects(j, os); auto &o = os[it[1]]->o; o.insert(o.begin() + it[3], extra[it[2]]);
      return same(dump(j), k.p, k.want, x);
    }, [](uint64_t i) { auto &it = items[i]; return "configuration " + cases()[it[0]].name + " object " + std::to_string(it[1]) + " extra field " + extra[it[2]].first + ": " + dump(extra[it[2]].second) + " at " + std::to_string(it[3]); }, "nine unknown fields (scalars, look-alike and nested component names) in every object, first and last (thorough: every position)"));
  }
  {  // every option takes effect with exactly its value
    static std::vector<std::pair<std::string, Cfg>> v;
    using namespace cfgs;
    static U al = U"aAb é\u0301中.1\u00A0\U0001F600\n,▁"; static std::vector<U> at;
    for (auto &n : all()) for (auto &a : n.atoms) if (std::find(at.begin(), at.end(), a) == at.end()) at.push_back(a);
    auto A = [&](const std::string &n, const Cfg &c) { v.push_back({n, c}); };
    for (int b = 0; b < 24; b++) { Cfg c = bert(); c.norm = n_bert(b & 1, b & 2, b / 8 == 0 ? std::optional<bool>() : b / 8 == 1, b & 4); A("bert normalizer " + std::to_string(b), c); }
    for (auto &n : norms()) for (auto &p : pres()) { Cfg c = bare(); c.norm = n.second; c.pre = p.second; A(n.first + "/" + p.first, c); }
    for (auto &pt : {"ws", "digits", "lit:a", "comma", "digit", "lit:,"}) for (auto &bh : {"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}) for (int inv = 0; inv < 2; inv++) { Cfg c = bare(); c.pre = p_split(pt, bh, inv); A(std::string("split ") + pt + " " + bh, c); }
    for (int mx = 0; mx < 8; mx++) for (auto &px : {"##", "", "é", "a"}) for (auto &un : {"[UNK]", "a", "é"}) { Cfg c = bert(); c.mod.max_chars = mx; c.mod.prefix = px; c.mod.unk = un; A("wordpiece " + std::to_string(mx) + " " + px + " " + un, c); }
    for (int b = 0; b < 8; b++) for (int u = 0; u < 3; u++) for (int m = 0; m < 4; m++) { Cfg c; c.mod = m == 0 ? m_bpe_chars() : m == 1 ? m_bpe_fallback() : m == 2 ? m_bpe_affix() : m_bpe_bytes(); c.pre = m == 2 ? p_bert() : Pre(); c.mod.fuse = b & 1; c.mod.fallback = b & 2; c.mod.ignore = b & 4; if (u == 0) c.mod.unk = std::nullopt; if (u == 1) c.mod.unk = c.mod.vocab[3].first; if (u == 1 && m != 2) { c.mod.prefix = ""; c.mod.suffix = ""; } if (m == 3 && u == 2) c.mod.unk = "a"; A("bpe " + std::to_string(b) + " " + std::to_string(u) + " " + std::to_string(m), c); }
    for (auto &q : posts()) for (int b = 0; b < 4; b++) { Cfg c = roberta(); c.post = q.second; c.pre.prefix_space = b & 1; c.pre.use_regex = b & 2; A("post " + q.first, c); }
    for (int t = 0; t < 4; t++) for (int ty = 0; ty < 3; ty++) { Cfg c = bert(); c.post.single[t % 3].type_id = ty * 5; c.post.specials[t % 2].ids = ty ? std::vector<int>{ty, 4, 70000} : std::vector<int>{}; c.post.specials[t % 2].tokens = ty ? std::vector<std::string>{"x", "é\"", ""} : std::vector<std::string>{}; A("template " + std::to_string(t), c); }
    for (auto &d : std::vector<Dec>{d_wordpiece(), d_byte(), d_llama(), d_("Fuse"), d_("ByteFallback"), d_replace("a", "\"\\"), d_strip("a", 1, 2), d_seq({}), Dec()}) for (int m = 0; m < 3; m++) { Cfg c = m == 0 ? bert() : m == 1 ? gpt2() : llama2(); c.dec = d; A("decoder " + d.type, c); }
    { Dec d = d_wordpiece(); for (int b = 0; b < 6; b++) { d.cleanup = b & 1; d.prefix = b / 2 == 0 ? "" : b / 2 == 1 ? "é" : "a"; Cfg c = bert(); c.dec = d; A("wordpiece decoder", c); } }
    for (int b = 0; b < 48; b++) { Cfg c = bert(); c.trunc = Trunc{true, b & 1 ? "Left" : "Right", b & 2 ? "OnlyFirst" : "LongestFirst", 3 + b / 4, b / 4 % 2}; A("truncation " + std::to_string(b), c); }
    for (int b = 0; b < 64; b++) { Cfg c = bert(); c.pad.on = true; c.pad.dir = b & 1 ? "Left" : "Right"; c.pad.fixed = b & 2 ? b / 8 * 3 : -1; c.pad.mult = b & 4 ? 5 : 0; c.pad.id = b * 1000; c.pad.type = b / 4; c.pad.tok = b & 8 ? "" : "é\"p"; A("padding " + std::to_string(b), c); }
    for (int b = 0; b < 64; b++) for (const char *s : {"ab", "é", " a", "\"\\"}) { Cfg c = b & 32 ? bert() : gpt2(); Added a; a.content = s; a.single = b & 1; a.l = b & 2; a.r = b & 4; a.norm = b & 8; a.special = b & 16; c.added.push_back(a); Ref r(c); for (auto &q : c.added) q.id = *r.id_of(q.content); A("added token " + std::string(s) + " " + std::to_string(b), c); }
    static std::vector<U> xs; { U s; for (size_t k = 0; k < at.size(); k++) { s += at[k]; if (k % 6 == 5) { xs.push_back(s); s.clear(); } } xs.push_back(s); xs.push_back(al); for (auto &t : texts()) xs.push_back(t); xs.push_back(U"x\"\\y \"\\"); }
    f.push_back(fam::blocks("options", v.size(), 8, [](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg &c = v[i].second; Probe p; p.texts = xs; p.ids = probe(c, {}, U"").ids; std::string w = fpr(c, p);
      std::string d = same(json(c), p, w, x); if (!d.empty()) return d;
      J j = jcfg(c); std::vector<J *> os; objects(j, os); for (auto *o : os) std::reverse(o->o.begin(), o->o.end());
      Style s; s.escape = 3; s.space = 2; return same(dump(j, s), p, w, x);
    }, [](uint64_t i) { return v[i].first + " " + json(v[i].second).substr(0, 600); }, std::to_string(v.size()) + " configurations, one per value of each option, compared with the reference on " + std::to_string(xs.size()) + " texts; also reversed and escaped"));
  }
  {  // vocabulary entries and ids of every kind
    static std::vector<char32_t> cps = fam::sweep(T);
    f.push_back(fam::blocks("vocab-characters", (cps.size() + 63) / 64, 4, [](uint64_t i, mc::Ctx &x) -> std::string {
      Cfg c; c.mod.type = "BPE"; U all; std::vector<int> ids;
      for (size_t k = i * 64; k < std::min(cps.size(), (i + 1) * 64); k++) { c.mod.vocab.push_back({to8(cps[k]), (int)c.mod.vocab.size() * 3 + 1}); all += cps[k]; ids.push_back(c.mod.vocab.back().second); }
      c.mod.merges.push_back({to8(all[0]), to8(all[1])}); if (all[0] != ' ' && all[1] != ' ') c.mod.vocab.push_back({to8(all.substr(0, 2)), 5000}); else c.mod.merges.clear();
      Probe p; p.texts = {all, U(all.rbegin(), all.rend())}; p.ids = {ids}; std::string w = fpr(c, p);
      for (int e = 0; e < 4; e++) { Style s; s.escape = e; std::string d = same(dump(jcfg(c), s), p, w, x); if (!d.empty()) return "escape style " + std::to_string(e) + ": " + d; }
      return "";
    }, [](uint64_t i) { return "vocabulary of 64 characters from " + fam::cp(cps[i * 64]); }, "vocabularies holding every Unicode scalar value (quick: all outside the large uniform blocks), in 4 escape styles"));
    static std::vector<std::string> odd = {"", "\"", "\\", "\\n", "\n", "a\"b", "\\u0041", "/", "\t\t", "é\\", "\"\"", "\\\\", "{", "}", "[", "]", ",", ":", "null", "a b", " ", "\x7f", "\xC2\x80", "\xF0\x9F\x98\x80", "\xEF\xBF\xBF", std::string("\0", 1), std::string("a\0b", 3), "true", "\xE2\x80\xA8", "type", "vocab", "a:b", "x,y", "\"}"};
    f.push_back(fam::blocks("odd-strings", odd.size() * odd.size() * 4, 64, [](uint64_t i, mc::Ctx &x) -> std::string {
      const std::string &a = odd[i / 4 / odd.size()], &b = odd[i / 4 % odd.size()]; if (a == b) return "";
      Cfg c; c.mod.type = "WordPiece"; c.mod.unk = "u"; c.mod.prefix = ""; c.mod.max_chars = 50; c.mod.vocab = {{a, 7}, {b, 123456}, {"u", 2147483647}, {"z", 0}}; c.post.type = "TemplateProcessing"; c.post.single = {{true, b, 0}, {false, "A", 0}}; c.post.pair = c.post.single; c.post.specials = {{b, {9}, {a}}};
      if (!a.empty() && i % 4 > 1) { Added t; t.content = b + "!"; t.norm = false; t.id = 4; c.added.push_back(t); }
      Probe p; p.texts = {from8(a), from8(b), from8(a + b), from8(b + "!"), from8(a + "z"), U"q"}; p.ids = {{7, 123456, 2147483647, 0, 4}};
      std::string w = fpr(c, p); Style s; s.escape = i % 4; return same(dump(jcfg(c), s), p, w, x);
    }, [](uint64_t i) { return "strings '" + mc::esc(odd[i / 4 / odd.size()]) + "' and '" + mc::esc(odd[i / 4 % odd.size()]) + "' style " + std::to_string(i % 4); }, "all pairs of " + std::to_string(odd.size()) + " awkward strings (quotes, backslashes, control characters, JSON syntax) as vocabulary entries, template names and added tokens, in 4 escape styles"));
  }
  {  // configurations of every ladder size
    static std::vector<int> sizes; for (int n : scale::ladder(T ? 17000000 : 2200000)) if (n > 3000) sizes.push_back(n);
    static std::vector<int> cs; for (size_t k = 0; k < C.size(); k++) if (T || C[k].name == "bert-trunc-pad" || C[k].name == "llama2" || C[k].name == "roberta") cs.push_back(k);
    static const char *FILL[] = {"spaces in front", "spaces behind", "spaces inside", "an unknown field with a long string", "an unknown field with a long array", "more vocabulary entries"};
    mc::Mix mix{{sizes.size(), cs.size(), 6, 2}};
    f.push_back(fam::blocks("sizes", mix.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); auto &k = cases()[cs[v[1]]]; J j = jcfg(k.c); std::string js; size_t n = sizes[v[0]];
      auto room = [&] { size_t d = dump(j).size(); return n > d ? n - d : 0; };
      if (v[2] < 3) { js = dump(j); std::string sp(room(), ' '); for (size_t q = 63; q < sp.size(); q += 64) sp[q] = '\n'; js.insert(v[2] == 0 ? 0 : v[2] == 1 ? js.size() : js.find(",\"model\"") != std::string::npos ? js.find(",\"model\"") + 1 : 1, sp); }
      else if (v[2] < 5) {
        J e; e.k = v[2] == 3 ? J::Str : J::Arr; j.o.insert(j.o.begin() + 3, {"x_notes", e}); size_t r = room();
        if (v[2] == 3) j.o[3].second.s = std::string(r, 'z'); else { J z; z.k = J::Str; z.s = "[}\\\""; j.o[3].second.a.assign(r / 9, z); }
        js = dump(j); if (js.size() < n) js.append(n - js.size(), ' ');
      } else {
        if (n > 2200000) return "";
        Cfg c = k.c; size_t r = room(), q = 0; int top = 0; for (auto &e : c.mod.vocab) top = std::max(top, e.second); for (auto &a : c.added) top = std::max(top, a.id);
        bool holes = false; (void)holes;
        while (q * 24 < r) { c.mod.vocab.push_back({"\xE2\x9F\xA6" + std::to_string(q) + "\xE2\x9F\xA7", top + 1 + (int)q}); q++; }
        Ref ref(c); for (auto &a : c.added) a.id = *ref.id_of(a.content);
        Probe p = k.p; p.texts.resize(3); for (int id : p.ids[0]) (void)id; for (size_t z = 0; z < q; z += q / 37 + 1) p.ids[2].push_back(top + 1 + (int)z); for (auto &a : c.added) p.ids[2].push_back(a.id); if (q) { p.ids[2].push_back(top + (int)q); p.texts.push_back(from8(c.mod.vocab.back().first)); }
        js = json(c); std::string d; if (v[3]) { d = std::string(getenv("MC_WORK") ? getenv("MC_WORK") : "/tmp") + "/size" + std::to_string(getpid()); mkdir(d.c_str(), 0700); std::ofstream(d + "/tokenizer.json", std::ios::binary) << js; }
        std::string r2 = same(js, p, fpr(c, p), x, d); if (v[3]) { unlink((d + "/tokenizer.json").c_str()); rmdir(d.c_str()); } return r2;
      }
      std::string d; if (v[3]) { d = std::string(getenv("MC_WORK") ? getenv("MC_WORK") : "/tmp") + "/size" + std::to_string(getpid()); mkdir(d.c_str(), 0700); std::ofstream(d + "/tokenizer.json", std::ios::binary) << js; }
      Probe p = k.p; std::string w = fpr(k.c, p);
      std::string r = same(js, p, w, x, d); if (v[3]) { unlink((d + "/tokenizer.json").c_str()); rmdir(d.c_str()); } return r;
    }, [=](uint64_t i) { auto v = mix.at(i); return C[cs[v[1]]].name + " made " + std::to_string(sizes[v[0]]) + " bytes long with " + FILL[v[2]] + (v[3] ? ", from a file" : ""); }, std::to_string(cs.size()) + " configurations brought to every length of the ladder from 3000 to " + std::to_string(sizes.back()) + " bytes in six ways, from a string and from a file", 60));
  }
  return mc::main_(argc, argv, "C06", f, "every loaded variant");
}
