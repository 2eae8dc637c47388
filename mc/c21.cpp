// C21: the Java binding returns exactly what the native library returns (the real binding in a real JVM).
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>

#include <set>

#include "scale.h"
#include "fam.h"
using namespace ref;
using S16 = std::u16string;

static std::string work() { const char *w = getenv("MC_WORK"); return w ? w : "."; }
static S16 to16(const U &u) { S16 r; for (char32_t c : u) if (c >= 0x10000) { c -= 0x10000; r += (char16_t)(0xD800 + (c >> 10)); r += (char16_t)(0xDC00 + (c & 0x3FF)); } else r += (char16_t)c; return r; }
// the text of a Java string; lone surrogates stay or (alt) become U+FFFD
static U from16(const S16 &s, bool alt, bool *lone = nullptr) {
  U r;
  for (size_t i = 0; i < s.size(); i++) {
    char32_t c = s[i];
    if (c >= 0xD800 && c < 0xDC00 && i + 1 < s.size() && s[i + 1] >= 0xDC00 && s[i + 1] < 0xE000) { r += 0x10000 + ((c - 0xD800) << 10) + (s[++i] - 0xDC00); continue; }
    if (c >= 0xD800 && c < 0xE000) { if (lone) *lone = true; if (alt) c = 0xFFFD; }
    r += c;
  }
  return r;
}
static std::string esc16(const S16 &s) { std::string r; char b[8]; for (char16_t c : s) if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, 8, "\\u%04x", c); r += b; } return r; }
static bool utf8(const std::string &s) { return to8(from8(s)) == s && from8(s).find(0xFFFD) == U::npos; }

struct Op { int kind; int cfg; bool flag; bool null = false; S16 s; std::vector<int> ids; };   // 0 construct, 1 decode, 2 encode
struct Config { std::string name, js; std::unique_ptr<Tokenizer> t; };
static std::vector<Config> C;
static Tokenizer *native(int c) { auto &q = C[c]; if (!q.t) try { q.t = impl::make_json(q.js); } catch (const std::exception &) { return nullptr; } return q.t.get(); }

struct Res { int status = -1; std::vector<int> v; S16 s; };   // 0 value, 1 exception, 2 null, -1 the JVM ended before
struct Put { std::string b; void u8(int x) { b += (char)x; } void i32(int x) { for (int k = 3; k >= 0; k--) b += (char)(x >> (8 * k)); } void u16(int x) { b += (char)(x >> 8); b += (char)x; } void str(const S16 &s) { i32(s.size()); for (char16_t c : s) u16(c); } };
static std::vector<Res> jvm(const std::vector<Op> &ops, int &status) {
  std::string base = work() + "/jvm" + std::to_string(getpid()), in = base + ".in", out = base + ".out";
  Put p; p.i32(C.size()); p.i32(ops.size());
  for (auto &o : ops) { p.u8(o.kind); p.i32(o.cfg); p.u8(o.flag); if (o.null) p.i32(-1); else if (o.kind == 1) { p.i32(o.ids.size()); for (int i : o.ids) p.i32(i); } else p.str(o.s); }
  FILE *f = fopen(in.c_str(), "w"); fwrite(p.b.data(), 1, p.b.size(), f); fclose(f);
  unlink(out.c_str());
  std::string java = getenv("MC_JAVA"), lp = "-Djava.library.path=" + work(), cp = work() + "/classes";
  std::vector<std::string> a = {"java", "-Xmx512m", "-Xshare:auto", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:-UsePerfData", "-XX:ErrorFile=/dev/null", lp, "-cp", cp, "Driver", in, out};
  std::vector<char *> av; for (auto &s : a) av.push_back((char *)s.c_str()); av.push_back(nullptr);
  char *ev[] = {(char *)"PATH=/usr/bin:/bin", (char *)"LC_ALL=C", nullptr};
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, "/dev/null", O_WRONLY, 0); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  pid_t pid; int e = posix_spawn(&pid, java.c_str(), &fa, nullptr, av.data(), ev); posix_spawn_file_actions_destroy(&fa);
  if (e) _exit(3);
  waitpid(pid, &status, 0);
  std::string b; if (FILE *g = fopen(out.c_str(), "r")) { char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, g)) > 0) b.append(t, n); fclose(g); }
  unlink(in.c_str()); unlink(out.c_str());
  std::vector<Res> r(ops.size()); size_t k = 0;
  auto i32 = [&] { int x = 0; for (int q = 0; q < 4; q++) x = x << 8 | (unsigned char)(k < b.size() ? b[k] : 0), k++; return x; };
  for (size_t i = 0; i < ops.size() && k < b.size(); i++) {
    r[i].status = b[k++]; if (r[i].status || !ops[i].kind) continue;
    int n = i32(); for (int q = 0; q < n && k < b.size(); q++) if (ops[i].kind == 1) { r[i].s += (char16_t)((unsigned char)b[k] << 8 | (unsigned char)b[k + 1]); k += 2; } else r[i].v.push_back(i32());
  }
  return r;
}
static U collapse(const U &u) { U r; for (char32_t c : u) if (c != 0xFFFD || r.empty() || r.back() != 0xFFFD) r += c; return r; }
static std::string name(const Op &o) { return o.kind == 0 ? "new Tokenizer(" + (o.null ? "null" : C[o.cfg].name) + ")" : C[o.cfg].name + (o.kind == 1 ? ": decode(" + (o.null ? "null" : impl::ints(o.ids)) : ": encode('" + (o.null ? "null" : esc16(o.s.substr(0, 200)))) + (o.flag ? "', true)" : "', false)"); }
static std::string judge(const Op &o, const Res &r, mc::Ctx &x) {
  x.impl_traces++; x.transitions++;
  if (r.status < 0) return "the virtual machine ended";
  if (o.null || (o.kind && !native(o.cfg))) { x.nontrivial++; x.state("exception"); return r.status == 1 ? "" : "no Java exception"; }
  if (o.kind == 0) { bool ok = native(o.cfg); x.nontrivial += !ok; x.state(C[o.cfg].name); return r.status == (ok ? 0 : 1) ? "" : ok ? "a Java exception, but the native constructor succeeds" : "no Java exception, but the native constructor throws"; }
  if (o.kind == 1) {
    auto d = impl::decode(*native(o.cfg), o.ids, o.flag); x.state(impl::show(d));
    if (d.threw) return r.status == 1 ? "" : "no Java exception for a native one";
    if (r.status) return "no result, natively '" + mc::esc(d.text) + "'";
    x.nontrivial++;
    if (utf8(d.text) ? r.s == to16(from8(d.text)) : true) {
      if (utf8(d.text)) return "";
      // the native bytes are not UTF-8: replacement characters, but every well-formed character in place
      U w, g = collapse(from16(r.s, true)); bool in = false;
      for (size_t i = 0; i < d.text.size();) {
        unsigned char b = d.text[i]; int n = b < 0x80 ? 1 : b >= 0xC2 && b < 0xE0 ? 2 : b >= 0xE0 && b < 0xF0 ? 3 : b >= 0xF0 && b < 0xF5 ? 4 : 0;
        std::string part = d.text.substr(i, n); U u; if (n && (int)part.size() == n) u = from8(part);
        if (u.size() == 1 && to8(u) == part && (u[0] != 0xFFFD || part == "\xEF\xBF\xBD")) { w += u; i += n; } else { w += 0xFFFD; i++; }
      }
      (void)in;
      return collapse(w) == g ? "" : "'" + esc16(r.s) + "' for the native bytes '" + mc::esc(d.text) + "'";
    }
    return "'" + esc16(r.s) + "' instead of '" + esc16(to16(from8(d.text))) + "'";
  }
  bool lone = false; auto w = impl::encode(*native(o.cfg), from16(o.s, false, &lone), o.flag); x.state(impl::show(w)); x.nontrivial++;
  if (w.threw ? r.status == 1 : r.status == 0 && r.v == w.enc.ids) return "";
  if (lone) { auto a = impl::encode(*native(o.cfg), from16(o.s, true), o.flag); if (a.threw ? r.status == 1 : r.status == 0 && r.v == a.enc.ids) return ""; }
  return (r.status ? std::string("no result") : impl::ints(r.v)) + " instead of " + (w.threw ? "an exception" : impl::ints(w.enc.ids));
}
// one JVM per block of operations; construct the configurations it uses first
static std::string block(std::vector<Op> ops, mc::Ctx &x) {
  std::set<int> used; for (auto &o : ops) if (o.kind) used.insert(o.cfg);
  std::vector<Op> a; for (int c : used) a.push_back({0, c, false, false, to16(from8(C[c].js))});
  a.insert(a.end(), ops.begin(), ops.end());
  int st = 0; auto r = jvm(a, st);
  for (size_t i = 0; i < a.size(); i++) { std::string d = judge(a[i], r[i], x); if (!d.empty()) return name(a[i]) + ": " + d + (r[i].status < 0 ? " with status " + std::to_string(st) : ""); }
  return "";
}
static mc::Family ops(const std::string &nm, uint64_t n, uint64_t per, std::function<std::vector<Op>(uint64_t)> gen, const std::string &bound) {
  mc::Family f; f.name = nm; f.count = (n + per - 1) / per; f.limit_s = 120; f.chunk = 1; f.bound = bound + " (" + std::to_string(n) + " in one JVM per " + std::to_string(per) + ")";
  f.run = [=](uint64_t b, mc::Ctx &x) { std::vector<Op> o; for (uint64_t i = b * per; i < std::min(n, (b + 1) * per); i++) { auto g = gen(i); o.insert(o.end(), g.begin(), g.end()); } std::string d = block(o, x); if (!d.empty()) x.fail(d); };
  f.describe = [=](uint64_t b) { auto g = gen(b * per); return g.empty() ? std::string() : "a JVM with calls from " + name(g[0]); };
  return f;
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  for (auto &n : cfgs::all()) { C.push_back({n.name, json(n.c), nullptr}); }
  int good = C.size();
  auto idx = [&](const std::string &n) { for (int i = 0; i < (int)C.size(); i++) if (C[i].name == n) return i; return 0; };
  {
    Cfg c = cfgs::gpt2(); c.added.push_back(Added{"\U0001F600\U0001F680", false, false, false, false, false, (int)c.mod.vocab.size() + 1}); Ref r(c); c.added.back().id = *r.id_of(c.added.back().content);
    C.push_back({"gpt2 with an emoji token", json(c), nullptr});
    std::string j = json(c); Style st; st.escape = 1; C.push_back({"gpt2 escaped", dump(jcfg(c), st), nullptr});
    good = C.size();
    for (std::string b : {"", "{", "null", "[]", "{\"version\":1}", "{\"model\":{\"type\":\"BPE\",\"vocab\":3,\"merges\":[]}}", "\xEF\xBB\xBF", "{\"a\":\"\xF0\x9F\x98\x80"}) C.push_back({"broken '" + mc::esc(b) + "'", b, nullptr});
    Cfg t = cfgs::bert(); t.trunc = {true, "Right", "LongestFirst", 3, 3}; C.push_back({"bert, stride as long as the window", json(t), nullptr});
    good = good;
  }
  static const S16 AL = {0, u'a', u'b', u' ', 0x7F, 0x80, 0xE9, 0x301, 0x7FF, 0x800, 0x4E2D, 0xD83D, 0xDE00, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF};
  std::vector<int> use = {idx("gpt2"), idx("bert-lower"), idx("llama2"), idx("gpt2 with an emoji token"), idx("nfkc-strip-split")};
  auto both = [](int c, const S16 &s) {
    std::vector<Op> o = {{2, c, true, false, s}, {2, c, false, false, s}};
    if (native(c)) { auto e = impl::encode(*native(c), from16(s, false), true); if (!e.threw) { o.push_back({1, c, true, false, {}, e.enc.ids}); o.push_back({1, c, false, false, {}, e.enc.ids}); } }
    return o;
  };
  {
    uint64_t n = mc::n_strings(AL.size(), T ? 4 : 3);
    f.push_back(ops("utf-16", n * use.size(), 4096, [=](uint64_t i) { S16 s; for (int k : mc::nth_string(AL.size(), i % n)) s += AL[k]; return both(use[i / n], s); },
                    "all strings of at most " + std::string(T ? "4" : "3") + " of " + std::to_string(AL.size()) + " UTF-16 units (NUL, lone and paired surrogates, every UTF-8 length) x " + std::to_string(use.size()) + " configurations, encoded with both flags and decoded back with both"));
  }
  {
    static std::vector<char32_t> cs = fam::sweep(T);
    f.push_back(ops("every-character", cs.size() * 2, 8192, [=](uint64_t i) { U u = U"a"; u += cs[i / 2]; u += U"b"; return both(use[i % 2 ? 0 : 1], to16(u)); }, "every scalar value (quick: large uniform blocks thinned) between letters x 2 configurations"));
  }
  {
    static std::vector<U> X; X = cfgs::texts(); U l; for (int k = 0; k < 5000; k++) l += U"ab é中\U0001F600 "; X.push_back(l); X.push_back(U(20000, U'\0')); X.push_back(U(3000, U'\U0001F600'));
    int g = good, nx = X.size();
    f.push_back(ops("configurations", (uint64_t)g * nx, 64, [=](uint64_t i) { return both(i % g, to16(X[i / g])); }, std::to_string(g) + " configurations x " + std::to_string(nx) + " texts up to 35000 units"));
  }
  {
    static const std::vector<int> base = {INT32_MIN, -1, 0, 1, 5, 40, 97, 130, 180, 200, 225, 255, 256, 257, 260, 300, INT32_MAX};
    uint64_t n = mc::n_strings(base.size(), T ? 4 : 3);
    f.push_back(ops("id-lists", n * 3, 4096, [=](uint64_t i) { std::vector<int> v; for (int k : mc::nth_string(base.size(), i % n)) v.push_back(base[k]); int c = use[std::vector<int>{0, 2, 1}[i / n]]; return std::vector<Op>{{1, c, true, false, {}, v}, {1, c, false, false, {}, v}}; },
                    "all id lists of at most " + std::string(T ? "4" : "3") + " of " + std::to_string(base.size()) + " ids, byte symbols that are not UTF-8 together included, x 3 configurations x both flags"));
  }
  {  // long strings and id lists: every length of the ladder
    static std::vector<int> len; for (int n : scale::ladder(T ? 200001 : 65537)) if (n > 3) len.push_back(n);
    static const U kinds = U"a\u00E9\u4E2D\U0001F600 ";
    const int wide = use[0], tall = use[3];
    f.push_back(ops("long-strings", len.size() * kinds.size(), 96, [=](uint64_t i) {
      int n = len[i % len.size()]; char32_t c = kinds[i / len.size()]; U u; u.reserve(n + 9);
      for (int k = 0; k < n; k++) u += k % 7 == 6 ? U' ' : c;   // words of six, so that no step is quadratic
      for (int p = 8; p < n; p *= 2) u[p - 1] = kinds[(p + i) % kinds.size()];
      return both(i % 2 ? wide : tall, to16(u));
    }, "strings of every length of the ladder up to " + std::to_string(len.back()) + " of characters of every width, others around every power of two"));
    f.push_back(ops("long-id-lists", len.size() * 2, 96, [=](uint64_t i) { std::vector<int> v; for (int k = 0; k < len[i / 2]; k++) v.push_back((k * 7 + k / 256) % 300); int c = i % 2 ? wide : use[2]; return std::vector<Op>{{1, c, true, false, {}, v}, {1, c, false, false, {}, v}}; }, "id lists of every length of the ladder"));
  }
  {
    // histories of failing and succeeding calls in one JVM
    int bad = good, nb = C.size() - good; int ok = idx("gpt2"), st = C.size() - 1;
    static std::vector<Op> al;
    for (int b = 0; b < nb - 1; b++) al.push_back({0, bad + b, false, false, to16(from8(C[bad + b].js))});
    al.push_back({0, 0, false, true}); al.push_back({1, ok, true, true}); al.push_back({2, ok, true, true});
    al.push_back({2, st, true, false, u"ab ab ab ab"}); al.push_back({2, ok, true, false, u"ab \xD83D\xDE00"}); al.push_back({1, ok, true, false, {}, {1, 2, 3, 300}}); al.push_back({0, ok, false, false, to16(from8(C[ok].js))});
    uint64_t n = mc::n_strings(al.size(), T ? 3 : 2);
    f.push_back(ops("errors", n, 512, [=](uint64_t i) { std::vector<Op> o; for (int k : mc::nth_string(al.size(), i)) { o.push_back(al[k]); if (al[k].kind == 0 && al[k].cfg >= bad && !al[k].null) o.push_back({2, ok, true, false, u"ab"}); } return o; },
                    "all sequences of at most " + std::string(T ? "3" : "2") + " of " + std::to_string(al.size()) + " failing (broken configurations, null arguments, rejected parameters) and succeeding calls"));
  }
  return mc::main_(argc, argv, "C21", f, "the native call returns a value, or both fail");
}
