// C05: a damaged configuration is rejected cleanly or yields a usable tokenizer.
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <array>
#include <fstream>
#include "fam.h"
#include "newlimit.h"
using namespace ref;

// Outcome of using a tokenizer built from damaged text: only standard exceptions may escape (anything else ends the worker).
static std::string use(Tokenizer &t, const std::vector<U> &texts, mc::Ctx &x) {
  std::string s;
  auto call = [&](auto f) { x.transitions++; try { f(); s += 'r'; } catch (const std::exception &e) { s += 't'; } };
  auto round = [&] {
    for (auto &u : texts) for (int add = 0; add < 2; add++) call([&] { Encoding e = t.encode(toW(u), add); s += std::to_string(e.ids.size()) + "." + std::to_string(e.overflowing.size()); });
    for (auto &v : std::vector<std::vector<int>>{{}, {0, 1, 2, 3, 4, 5}, {-1, 100, 2147483647, -2147483647 - 1, 6}}) for (int sk = 0; sk < 2; sk++) call([&] { s += t.decode(v, sk).substr(0, 40); });
  };
  round();
  Added a; a.content = "<new>"; Added b = a; b.content = "b"; b.special = true; b.norm = false; Added e;
  call([&] { t.add_tokens(impl::added({a, e})); });
  call([&] { t.add_special_tokens(impl::added({b})); });
  round();
  return s;
}
static std::string damaged(const std::string &json, const std::vector<U> &texts, mc::Ctx &x, const std::string &path = "") {
  x.impl_traces++; x.transitions++;
  std::unique_ptr<Tokenizer> t;
  try { t = std::make_unique<Tokenizer>(path, json); } catch (const std::exception &e) { x.state(std::string("rejected ") + e.what()); return ""; }
  x.nontrivial++;
  x.state(use(*t, texts, x));
  return "";
}
// ---- base configurations: small ones, together holding one component of every kind ----
struct Base { std::string name; Cfg c; std::vector<U> texts; };
static std::vector<Base> &bases() {
  static std::vector<Base> v;
  if (!v.empty()) return v;
  using namespace cfgs;
  auto ad = [](const char *s, bool norm, bool sp) { Added a; a.content = s; a.norm = norm; a.special = sp; a.l = sp; a.single = norm; return a; };
  auto wp = [] { Mod m; m.type = "WordPiece"; m.unk = "[UNK]"; m.prefix = "##"; m.max_chars = 5; for (const char *s : {"[UNK]", "[CLS]", "a", "##b", "é"}) m.vocab.push_back({s, (int)m.vocab.size()}); return m; };
  auto bpe = [](bool f) { Mod m; m.type = "BPE"; m.unk = "<u>"; m.fallback = f; m.fuse = true; for (const char *s : {"<u>", "a", "b", "ab", "Ġ", "<0x41>", "Ã", "©"}) m.vocab.push_back({s, (int)m.vocab.size()}); m.merges = {{"a", "b"}}; return m; };
  auto tmpl = [] { Post p; p.type = "TemplateProcessing"; p.single = {{true, "[CLS]", 0}, {false, "A", 1}}; p.pair = p.single; p.specials = {{"[CLS]", {1}, {"[CLS]"}}}; return p; };
  static std::vector<U> xs = {U"ab \u00E9A", U"", U"abababab<n> a b [CLS]"};
  auto A = [&](const std::string &n, const Cfg &c) { v.push_back({n, c, xs}); };
  { Cfg c; c.norm = n_bert(true, true, std::nullopt, true); c.pre = p_bert(); c.mod = wp(); c.post = tmpl(); c.dec = d_wordpiece(); c.added = {ad("[CLS]", false, true), ad("<n>", true, false)}; A("wordpiece", c); }
  { Cfg c; c.pre = p_byte(true, true); c.mod = bpe(false); c.post = q_byte(true, true); c.dec = d_byte(); c.trunc = Trunc{true, "Right", "LongestFirst", 3, 1}; c.pad.on = true; c.pad.fixed = 5; c.pad.mult = 2; A("bytelevel", c); }
  { Cfg c; c.norm = n_seq({n_prepend("▁"), n_replace(" ", "▁"), n_("NFKC"), n_strip(true, false)}); c.mod = bpe(true); c.mod.prefix = "#"; c.mod.suffix = "w"; c.dec = d_llama(); c.post = q_seq({q_byte(false, true), tmpl(), q_byte(true, true)}); c.trunc = Trunc{true, "Left", "OnlyFirst", 4, 0}; c.added = {ad("<n>", true, true)}; A("sequences", c); }
  { Cfg c; c.norm = n_seq({n_("NFD"), n_("StripAccents"), n_("NFC"), n_("NFKD")}); c.pre = p_seq({p_split("ws", "Removed", false), p_split("lit:a", "MergedWithNext", true), p_byte(false, false)}); c.mod = bpe(false); c.mod.ignore = true; c.mod.dropout = 0.5; c.dec = d_seq({d_("Fuse"), d_("ByteFallback"), d_replace("a", "b"), d_strip("a", 1, 1)}); c.pad.on = true; c.pad.dir = "Left"; A("splits", c); }
  { Cfg c; c.mod = wp(); c.norm = n_replace("a", ""); c.dec = d_strip("a", 0, 3); c.pre = p_split("digits", "Contiguous", false); A("small", c); }
  return v;
}
static std::string js(int b) { return dump(jcfg(bases()[b].c)); }
// ---- structural faults ----
static void nodes(J &j, std::vector<std::pair<J *, int>> &out) { for (size_t i = 0; i < j.o.size(); i++) { out.push_back({&j, (int)i}); nodes(j.o[i].second, out); } for (size_t i = 0; i < j.a.size(); i++) { out.push_back({&j, (int)i}); nodes(j.a[i], out); } }
static J big(long long v) { return J(v); }
static std::vector<std::pair<std::string, J>> &repl() {
  static std::vector<std::pair<std::string, J>> v;
  if (v.empty()) {
    J deep; for (int k = 0; k < 40; k++) deep = J::arr({deep});
    v = {{"null", J()}, {"{}", J::obj()}, {"[]", J::arr()}, {"''", J("")}, {"'x'", J("x")}, {"0", J(0)}, {"-1", J(-1)}, {"1", J(1)}, {"70000", J(70000)}, {"INT_MAX", J(2147483647)}, {"INT_MIN", big(-2147483648LL)}, {"INT64_MAX", big(9223372036854775807LL)}, {"1.5", J(1.5)}, {"true", J(true)}, {"false", J(false)},
         {"[null]", J::arr({J()})}, {"[[]]", J::arr({J::arr()})}, {"[{}]", J::arr({J::obj()})}, {"['x']", J::arr({J("x")})}, {"[0]", J::arr({J(0)})}, {"{'a':1}", J::obj({{"a", J(1)}})}, {"{'a':null}", J::obj({{"a", J()}})}, {"{'type':'x'}", J::obj({{"type", J("x")}})}, {"{'type':null}", J::obj({{"type", J()}})}, {"{'type':'Sequence'}", J::obj({{"type", J("Sequence")}})}, {"deep", deep}, {"'a b c'", J("a b c")}, {"' '", J(" ")}, {"'NUL'", J(std::string("\0", 1))}, {"'\\u00e9'", J("\xC3\xA9")}};
    for (const char *s : {"(", "[", "\\", "a{99999999}", "(a*)*b", "(?<=a*)b", "", "a|", "$", "^", "\\b", "(?=a)"}) v.push_back({std::string("pattern ") + s, J(s)});
    for (const char *s : {"BertNormalizer", "Sequence", "Prepend", "NFC", "Replace", "Strip", "StripAccents", "BertPreTokenizer", "ByteLevel", "Split", "WordPiece", "BPE", "TemplateProcessing", "ByteFallback", "Fuse", "Lowercase", "Unigram", "Metaspace", "RobertaProcessing", "Removed", "Left", "Right", "OnlySecond", "LongestFirst", "BatchLongest", "Fixed", "A", "B", "[CLS]", "[nope]"}) v.push_back({std::string("'") + s + "'", J(s)});
  }
  return v;
}
static const int REMOVE = 0, DUP_FIRST = 1, DUP_LAST = 2, SWAP = 3, RENAME = 4, EXTRA = 5;
static size_t n_faults() { return EXTRA + 1 + 3 * repl().size(); }
static void apply(J &root, int node, int fault) {
  std::vector<std::pair<J *, int>> ns; nodes(root, ns); if (node >= (int)ns.size()) return;
  auto [p, i] = ns[node]; bool obj = p->k == J::Obj;
  auto ins = [&](int at, const J &v) { if (obj) p->o.insert(p->o.begin() + at, {p->o[i].first, v}); else p->a.insert(p->a.begin() + at, v); };
  J &v = obj ? p->o[i].second : p->a[i]; J copy = v;
  if (fault == REMOVE) { if (obj) p->o.erase(p->o.begin() + i); else p->a.erase(p->a.begin() + i); }
  else if (fault == DUP_FIRST) ins(i, copy);
  else if (fault == DUP_LAST) ins(obj ? p->o.size() : p->a.size(), copy);
  else if (fault == SWAP) { if (obj) std::swap(p->o[i].second, p->o[(i + 1) % p->o.size()].second); else std::swap(p->a[i], p->a[(i + 1) % p->a.size()]); }
  else if (fault == RENAME) { if (obj) p->o[i].first += "_"; else p->a[i] = J::obj({{"x", copy}}); }
  else if (fault == EXTRA) { if (obj) p->o[i].second = J::arr({copy}); else p->a[i] = J::arr({copy}); }
  else { int k = fault - EXTRA - 1; const J &r = repl()[k / 3].second; if (k % 3 == 0) v = r; else if (!obj) v = r; else if (k % 3 == 1) ins(i, r); else ins(i + 1, r); }   // replaced / contradicting duplicate before / after
}
static std::string fname(int node, int fault) {
  static const char *n[] = {"removed", "duplicated before", "duplicated at the end", "swapped with the next", "renamed/wrapped in an object", "wrapped in an array"};
  if (fault <= EXTRA) return "node " + std::to_string(node) + " " + n[fault];
  int k = fault - EXTRA - 1; return "node " + std::to_string(node) + (k % 3 == 0 ? " replaced by " : k % 3 == 1 ? " preceded by a duplicate " : " followed by a duplicate ") + repl()[k / 3].first;
}
static int n_nodes(int b) { J j = jcfg(bases()[b].c); std::vector<std::pair<J *, int>> ns; nodes(j, ns); return ns.size(); }
static std::string scratch() { std::string d = std::string(getenv("MC_WORK") ? getenv("MC_WORK") : "/tmp") + "/c05-" + std::to_string(getpid()); mkdir(d.c_str(), 0700); return d; }

int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  auto &B = bases();
  {  // truncation at every byte
    static std::vector<std::array<size_t, 2>> it;
    for (size_t b = 0; b < B.size(); b++) for (size_t n = 0; n <= js(b).size(); n++) it.push_back({b, n});
    f.push_back(fam::blocks("truncated", it.size() * 2, 64, [](uint64_t i, mc::Ctx &x) -> std::string {
      auto &k = it[i / 2]; std::string s = js(k[0]).substr(0, k[1]);
      if (i % 2 == 0) return damaged(s, bases()[k[0]].texts, x);
      std::string d = scratch(); std::ofstream(d + "/tokenizer.json", std::ios::binary) << s; std::string r = damaged("", bases()[k[0]].texts, x, d); unlink((d + "/tokenizer.json").c_str()); rmdir(d.c_str()); return r;
    }, [](uint64_t i) { return "configuration " + bases()[it[i / 2][0]].name + " cut after " + std::to_string(it[i / 2][1]) + " bytes" + (i % 2 ? ", from a file" : ""); }, "every truncation point of five configurations, as a string and as a file"));
  }
  {  // one byte changed, deleted, inserted
    static std::vector<std::array<size_t, 2>> it;
    for (size_t b = 0; b < B.size(); b++) for (size_t n = 0; n < js(b).size(); n++) it.push_back({b, n});
    static std::string set = "\"\\{}[],:09-nx te.\n"; set += '\0'; set += "\x80\xC3\xFF\x7F"; if (T) { set.clear(); for (int c = 0; c < 256; c++) set += (char)c; }
    uint64_t per = set.size() * 2 + 2;
    f.push_back(fam::blocks("one-byte", it.size() * per, 256, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &k = it[i / per]; std::string s = js(k[0]); uint64_t m = i % per; size_t p = k[1];
      if (m < set.size()) { if (s[p] == set[m]) return ""; s[p] = set[m]; } else if (m < 2 * set.size()) s.insert(p, 1, set[m - set.size()]); else if (m == 2 * set.size()) s.erase(p, 1); else if (p + 1 < s.size()) std::swap(s[p], s[p + 1]);
      return damaged(s, bases()[k[0]].texts, x);
    }, [=](uint64_t i) { return "configuration " + bases()[it[i / per][0]].name + " byte " + std::to_string(it[i / per][1]) + " change " + std::to_string(i % per); }, "every byte position of five configurations: replaced by / preceded by each of " + std::to_string(set.size()) + " bytes, deleted, swapped with the next"));
  }
  {  // one structural fault at every node
    static std::vector<std::array<int, 2>> it;
    for (size_t b = 0; b < B.size(); b++) for (int n = 0; n < n_nodes(b); n++) it.push_back({(int)b, n});
    uint64_t per = n_faults();
    f.push_back(fam::blocks("one-field", it.size() * per, 64, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &k = it[i / per]; J j = jcfg(bases()[k[0]].c); apply(j, k[1], i % per); return damaged(dump(j), bases()[k[0]].texts, x);
    }, [=](uint64_t i) { auto &k = it[i / per]; J j = jcfg(bases()[k[0]].c); apply(j, k[1], i % per); return "configuration " + bases()[k[0]].name + " " + fname(k[1], i % per) + ": " + dump(j).substr(0, 1500); }, "every node of five configurations (" + std::to_string(it.size()) + ") x " + std::to_string(per) + " faults: removal, duplication, swap, renaming, wrapping, replacement by / contradiction with " + std::to_string(repl().size()) + " values"));
  }
  {  // two structural faults
    static std::vector<int> fs = {REMOVE, RENAME}; for (const char *n : {"null", "{}", "[]", "''", "-1", "0", "'x'", "[{}]"}) for (size_t k = 0; k < repl().size(); k++) if (repl()[k].first == n) fs.push_back(EXTRA + 1 + 3 * k);
    if (T) for (const char *n : {"INT_MAX", "true", "{'a':1}", "1.5"}) for (size_t k = 0; k < repl().size(); k++) if (repl()[k].first == n) fs.push_back(EXTRA + 1 + 3 * k);
    static std::vector<std::array<int, 3>> it;
    for (size_t b = 0; b < B.size(); b++) { int n = n_nodes(b); for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) if (T || (p + q) % 4 == 0 || b == 4) it.push_back({(int)b, p, q}); }
    uint64_t per = T ? fs.size() * fs.size() : fs.size();
    f.push_back(fam::blocks("two-fields", it.size() * per, 256, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &k = it[i / per]; J j = jcfg(bases()[k[0]].c); int m = i % per; apply(j, k[2], fs[m % fs.size()]); apply(j, k[1], fs[T ? m / fs.size() : (m + k[1] + k[2]) % fs.size()]); return damaged(dump(j), bases()[k[0]].texts, x);
    }, [=](uint64_t i) { auto &k = it[i / per]; return "configuration " + bases()[k[0]].name + " " + fname(k[2], fs[i % per % fs.size()]) + ", then " + fname(k[1], fs[T ? i % per / fs.size() : (i % per + k[1] + k[2]) % fs.size()]); }, std::string(T ? "all pairs of nodes x all pairs of " : "a quarter of the pairs of nodes (all of the smallest configuration) x ") + std::to_string(fs.size()) + " faults each"));
  }
  {  // files and degenerate documents
    static std::vector<std::pair<std::string, std::function<std::string(mc::Ctx &)>>> v;
    auto D = [&](const std::string &n, const std::string &json) { v.push_back({n, [=](mc::Ctx &x) { return damaged(json, bases()[0].texts, x); }}); };
    for (auto &s : {"", " ", "\n", "null", "true", "0", "-", "\"\"", "\"x\"", "[]", "[{}]", "{}", "{", "}", "[", "{}{}", "{} x", "\xEF\xBB\xBF{}", "nul", "{\"model\"}", "{\"model\":}", "{\"model\":{}}", "{\"model\":[]}", "{\"a\":1,}", "{,}", "/**/{}", "{\"model\":{\"type\":\"BPE\"}}", "{\"model\":{\"type\":\"WordPiece\"}}", "{\"model\":{\"type\":\"BPE\",\"vocab\":{},\"merges\":[]}}"}) D(std::string("document ") + s, s);
    for (int n : {1, 50, 500, 1000}) { D("nested arrays " + std::to_string(n), std::string(n, '[')); D("nested objects " + std::to_string(n), [n] { std::string s; for (int k = 0; k < n; k++) s += "{\"normalizer\":"; return s; }()); D("closed nested arrays " + std::to_string(n), "{\"added_tokens\":" + std::string(n, '[') + std::string(n, ']') + "}"); 
      std::string q; for (int k = 0; k < n; k++) q += "{\"type\":\"Sequence\",\"normalizers\":["; for (int k = 0; k < n; k++) q += "]}"; J j = jcfg(bases()[0].c); std::string base = dump(j); size_t p = base.find("\"normalizer\":") + 13, e = base.find(",\"pre_tokenizer\""); D("nested sequences " + std::to_string(n), base.substr(0, p) + q + base.substr(e)); }
    auto P = [&](const std::string &n, std::function<std::string(mc::Ctx &, const std::string &)> g) { v.push_back({n, [=](mc::Ctx &x) { std::string d = scratch(), r = g(x, d); std::string cmd = "rm -rf '" + d + "'"; if (d.find("/c05-") != d.npos) { int z = system(cmd.c_str()); (void)z; } return r; }}); };
    P("missing directory", [](mc::Ctx &x, const std::string &d) { return damaged("", bases()[0].texts, x, d + "/none"); });
    P("directory without the file", [](mc::Ctx &x, const std::string &d) { return damaged("", bases()[0].texts, x, d); });
    P("tokenizer.json is a directory", [](mc::Ctx &x, const std::string &d) { mkdir((d + "/tokenizer.json").c_str(), 0700); return damaged("", bases()[0].texts, x, d); });
    P("empty file", [](mc::Ctx &x, const std::string &d) { std::ofstream(d + "/tokenizer.json"); return damaged("", bases()[0].texts, x, d); });
    P("path is a file", [](mc::Ctx &x, const std::string &d) { std::ofstream(d + "/tokenizer.json") << js(0); return damaged("", bases()[0].texts, x, d + "/tokenizer.json"); });
    P("dangling link", [](mc::Ctx &x, const std::string &d) { int z = symlink("nowhere", (d + "/tokenizer.json").c_str()); (void)z; return damaged("", bases()[0].texts, x, d); });
    P("link loop", [](mc::Ctx &x, const std::string &d) { int z = symlink("tokenizer.json", (d + "/tokenizer.json").c_str()); (void)z; return damaged("", bases()[0].texts, x, d); });
    P("binary file", [](mc::Ctx &x, const std::string &d) { std::ofstream o(d + "/tokenizer.json", std::ios::binary); for (int k = 0; k < 5000; k++) o << (char)(k * 37); o.close(); return damaged("", bases()[0].texts, x, d); });
    P("path with a NUL", [](mc::Ctx &x, const std::string &d) { return damaged("", bases()[0].texts, x, d + std::string("\0x", 2)); });
    P("very long path", [](mc::Ctx &x, const std::string &d) { return damaged("", bases()[0].texts, x, d + "/" + std::string(5000, 'x')); });
    P("path wins over config", [](mc::Ctx &x, const std::string &d) { return damaged(js(0), bases()[0].texts, x, d + "/none"); });
    f.push_back(fam::blocks("documents", v.size(), 1, [](uint64_t i, mc::Ctx &x) { return v[i].second(x); }, [](uint64_t i) { return v[i].first.substr(0, 200); }, "degenerate documents, deep nesting, missing/unreadable files"));
  }
  return mc::main_(argc, argv, "C05", f, "distinct damaged configurations that were accepted and then used (the others were rejected with a standard exception)");
}
