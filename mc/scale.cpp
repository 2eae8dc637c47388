#include "scale.h"

#include <set>
#include "fam.h"

namespace scale {
using namespace ref;
using std::to_string;
using namespace std::string_literals;
std::vector<int> ladder(int max) {
  std::set<int> s;
  for (int i = 0; i < 10; i++) s.insert(i);
  for (long p = 16; p <= max + 1L; p *= 2) for (int d = -1; d < 2; d++) s.insert(p + d);
  for (long p = 10; p <= max + 1L; p *= 10) for (int k : {1, 2, 3, 5}) for (int d = -1; d < 2; d++) s.insert(p * k + d);
  std::vector<int> r;
  for (int i : s) if (i <= max) r.push_back(i);
  return r;
}
std::string brief(const std::string &d) { return d.size() < 1500 ? d : d.substr(0, 700) + " ... " + d.substr(d.size() - 600); }
static std::string where(const Enc &w, const Enc &g, const std::string &at) {
  auto f = [&](const char *n, const auto &a, const auto &b) -> std::string {
    if (a == b) return "";
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    return at + ": " + n + " differ first at position " + to_string(i) + " (" + to_string(a.size()) + " expected, " + to_string(b.size()) + " returned)";
  };
  std::string d;
  if (!(d = f("ids", w.ids, g.ids)).empty() || !(d = f("tokens", w.tokens, g.tokens)).empty() || !(d = f("words", w.words, g.words)).empty() || !(d = f("offsets", w.offsets, g.offsets)).empty() || !(d = f("type ids", w.type_ids, g.type_ids)).empty() ||
      !(d = f("special masks", w.special, g.special)).empty() || !(d = f("attention masks", w.attention, g.attention)).empty()) return d;
  if (w.over.size() != g.over.size()) return at + ": " + to_string(g.over.size()) + " overflowing windows, expected " + to_string(w.over.size());
  for (size_t i = 0; i < w.over.size(); i++) if (!(d = where(w.over[i], g.over[i], at + ".over[" + to_string(i) + "]")).empty()) return d;
  return "";
}
std::string full(const Cfg &, const U &, bool, const Enc &w, bool rej, const impl::Out &g) {
  if (rej) return g.threw ? "" : "parameters that cannot be honoured were accepted";
  if (g.threw) return "threw " + g.what;
  return where(w, g.enc, "main");
}
static uint64_t digest(const Enc &e) {
  uint64_t h = e.ids.size() * 31 + e.over.size();
  for (int i : e.ids) h = h * 1099511628211ULL + i;
  for (auto &o : e.offsets) h = h * 1099511628211ULL + o.first * 7 + o.second;
  for (auto &o : e.over) h = h * 1099511628211ULL + digest(o);
  return h | 1;
}
std::vector<mc::Family> families(std::vector<Dim> dims, explore::Judge j) {
  std::vector<mc::Family> f;
  for (auto &dm : dims) {
    auto d = std::make_shared<Dim>(dm);
    f.push_back(fam::blocks("scale/" + d->name, d->items.size(), d->block, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto &it = d->items[i];
      Cfg c = it.cfg();
      Ref r(c); auto t = impl::make(c);
      for (auto &u : it.texts(c)) for (int add = 0; add < 2; add++) {
        bool rej; Enc w = r.encode(u, add, rej);
        impl::Out g = impl::encode(*t, u, add);
        x.impl_traces++; x.transitions += 1 + u.size(); x.nontrivial += !w.ids.empty(); x.outcomes.push_back(digest(w));
        std::string at = "a text of " + to_string(u.size()) + " characters beginning '" + mc::esc(u.substr(0, 24)) + "', add_special=" + to_string(add) + ": ";
        std::string e = j(r.cfg(), u, add, w, rej, g);
        if (!e.empty()) return at + brief(e);
        if (!it.decode || rej || g.threw) continue;
        for (int skip = 0; skip < 2; skip++) {
          std::string want = r.decode(g.enc.ids, skip); auto o = impl::decode(*t, g.enc.ids, skip);
          x.impl_traces++;
          if (o.threw) return at + "decode threw " + o.what;
          if (o.text != want) { size_t k = 0; while (k < want.size() && k < o.text.size() && want[k] == o.text[k]) k++; return at + "decoding differs first at byte " + to_string(k) + " of " + to_string(want.size()) + " expected and " + to_string(o.text.size()) + " returned"; }
        }
      }
      return "";
    }, [=](uint64_t i) { return d->items[i].name; }, d->bound, 120));
  }
  return f;
}
// ---- texts ----
static U word(unsigned k) { static const U al = U"ab1s"; U u; do { u += al[k % 4]; k /= 4; } while (k); return u; }
U kind_text(int kind, int n, const cfgs::Named &m) {
  U u;
  unsigned z = 12345;
  switch (kind) {
    case 0: for (int i = 0; (int)u.size() < n; i++) u += m.atoms[(i * 7 + i / 3) % m.atoms.size()]; break;
    case 1: while ((int)u.size() < n) { z = z * 1664525u + 1013904223u; u += m.alphabet[(z >> 16) % m.alphabet.size()]; } break;
    case 2: for (int i = 0; (int)u.size() < n; i++) { if (i) u += U' '; u += word(i); } break;
    case 3: u.assign(n, U'a'); break;
    case 4: u.assign(n, U' '); u += U"ab"; return u;
    case 5: u = U"e"; u.append(n, U'\u0301'); u += U'b'; return u;
    case 6: while ((int)u.size() < n) u += U"ab"; break;
    case 7: u.assign(n, U'\u4E2D'); break;
    case 8: u.assign(n, U'\U0001F600'); break;
    case 9: while ((int)u.size() < n) u += U"\u00E9 ."; break;
  }
  u.resize(n);
  return u;
}
static const char *KIND[] = {"a mixture of words and added tokens", "a mixture of characters", "distinct words", "one letter repeated", "spaces and a word", "one letter with many accents", "a long word", "ideographs", "emoji", "accented letters and stops"};
static std::vector<cfgs::Named> &all() { static auto v = cfgs::all(); return v; }
Dim text_length(int max, const std::string &only) {
  Dim d; d.name = "text-length" + (only.empty() ? only : "/" + only); d.block = 8;
  std::set<std::string> names;
  for (auto &m : all()) {
    if (!only.empty() && m.name.find(only) == std::string::npos) continue;
    names.insert(m.name);
    for (int k = 0; k < 10; k++) for (int n : ladder(max)) {
      if (n < 15) continue;
      bool one_piece = m.c.pre.type.empty() || k == 3 || k == 5 || k == 6;
      if (one_piece && n > 20001) continue;
      auto *mp = &m;
      d.items.push_back({"tokenizer " + m.name + ", " + KIND[k] + ", " + to_string(n) + " characters", [=] { return mp->c; }, [=](const Cfg &) { return std::vector<U>{kind_text(k, n, *mp)}; }, true});
    }
  }
  d.bound = to_string(names.size()) + " complete tokenizers x ten kinds of text x every length of the ladder up to " + to_string(max) + ", encoded and decoded";
  return d;
}
Dim distinct_words(int max) {
  Dim d; d.name = "distinct-words"; d.block = 1; d.bound = "texts of distinct words, counts of the ladder up to " + to_string(max) + ", one tokenizer encoding each text twice";
  for (auto &m : all()) for (int n : {255, 256, 257, 1000, 4095, 4096, 4097, 9999, 10000, 10001, 20000, 32768, 65536, 65537, 100001}) {
    if (n > max || m.c.pre.type.empty()) continue;
    auto *mp = &m;
    d.items.push_back({"tokenizer " + m.name + ", " + to_string(n) + " distinct words", [=] { return mp->c; }, [=](const Cfg &) { U u; for (int i = 0; i < n; i++) { if (i) u += U' '; u += word(i); } return std::vector<U>{u, u}; }});
  }
  return d;
}
Dim many_words(int max) {
  Dim d; d.name = "many-words"; d.block = 1; d.bound = "texts of up to " + to_string(max) + " one-letter words, numbers just above (in the thorough tier: around) the powers of two from 2^15 on";
  for (auto &m : all()) for (int n : {32767, 32768, 32769, 65535, 65536, 65537, 65539, 131071, 131072, 131073, 262145}) {
    if (n > max || m.c.pre.type.empty() || (!mc::thorough() && n != 32769 && n != 65537)) continue;
    auto *mp = &m;
    d.items.push_back({"tokenizer " + m.name + ", " + to_string(n) + " words", [=] { return mp->c; }, [=](const Cfg &) { U u; for (int i = 0; i < n; i++) { if (i) u += U' '; u += U"ab1"[i % 3]; } return std::vector<U>{u}; }});
  }
  return d;
}
// ---- added tokens ----
static Added tok(const std::string &c, const char *flags) {
  Added a; a.content = c; std::string f = flags; auto has = [&](char k) { return f.find(k) != std::string::npos; };
  a.single = has('w'); a.l = has('l'); a.r = has('r'); a.norm = has('n'); a.special = has('s'); return a;
}
static void fix(Cfg &c) { Ref r(c); for (auto &a : c.added) if (auto i = r.id_of(a.content)) a.id = *i; }
Dim added_count(int max) {
  Dim d; d.name = "added-tokens"; d.block = 2; d.bound = "numbers of added tokens of the ladder up to " + to_string(max) + " x four ways to set their options x two spellings, texts naming tokens at every ladder position";
  for (int n : ladder(max)) for (int k = 0; k < 4; k++) for (int s = 0; s < 2; s++) {
    if (!n) continue;
    auto spell = [=](int i) { return s ? "t" + to_string(i) : "<" + to_string(i) + ">"; };  // the second spelling nests: t1 is a prefix of t10
    d.items.push_back({to_string(n) + " added tokens, options " + to_string(k) + ", spelt " + spell(7), [=] {
      Cfg c = k % 2 ? cfgs::bert(true) : cfgs::gpt2();
      for (int i = 0; i < n; i++) { static const char *fl[] = {"", "s", "n", "wn", "l", "rn", "sn", "lr"}; c.added.push_back(tok(spell(i), k == 0 ? "" : k == 1 ? "s" : k == 2 ? "n" : fl[i % 8])); }
      fix(c); return c;
    }, [=](const Cfg &) {
      U u, v = U"ab";
      for (int i : ladder(n + 3)) { u += from8(spell(i)) + U" ab "; v += from8(spell(i)); }
      return std::vector<U>{u, v};
    }, true});
  }
  return d;
}
Dim added_length(int max) {
  Dim d; d.name = "added-length"; d.block = 4; d.bound = "added tokens of every length of the ladder up to " + to_string(max) + " x seven option sets, in texts of the token, one character more and one less";
  static const char *fl[] = {"", "s", "n", "w", "lr", "wn", "lrn"};
  for (int n : ladder(max)) for (auto *f : fl) {
    if (n < 2) continue;
    d.items.push_back({"an added token of " + to_string(n) + " characters, options '" + f + "'", [=] {
      Cfg c = cfgs::bert(true); std::string s(n - 1, 'x'); c.added.push_back(tok(s + "y", f)); c.added.push_back(tok("ab", f)); fix(c); return c;
    }, [=](const Cfg &) {
      U t(n - 1, U'x'), y = U"y";
      return std::vector<U>{t + y, U"a " + t + y + U" ab", U"ab" + t + y + U"ab", t.substr(1) + y, U"x" + t + y, t + U"\u00E9" + y, t + y + t + y, U"a  " + t + U" " + y, t};
    }, true});
  }
  return d;
}
// ---- models ----
static Mod model(const std::string &type) { Mod m; m.type = type; m.unk = "[UNK]"; if (type == "WordPiece") m.prefix = "##"; m.vocab.push_back({"[UNK]", 0}); return m; }
static U cjk(int i) { return U(1, 0x4E00 + i % 20000) + (i >= 20000 ? U(1, 0xAC00 + i / 20000) : U()); }
Dim vocabulary(int max, const std::string &type) {
  Dim d; d.name = "vocabulary/" + type; d.block = 1; d.bound = "vocabularies of every size of the ladder up to " + to_string(max) + ", entries at every ladder position looked up";
  for (int n : ladder(max)) {
    d.items.push_back({"a vocabulary of " + to_string(n) + " entries", [=] {
      Cfg c; c.mod = model(type); c.pre = cfgs::p_split("ws", "Removed", false); c.mod.ignore = true;
      for (int i = 1; i < n; i++) c.mod.vocab.push_back({to8(cjk(i)), i});
      c.added = {tok("<a>", ""), tok("<b>", "s")}; fix(c);
      return c;
    }, [=](const Cfg &) { U u; for (int i : ladder(n + 2)) u += cjk(i) + U" "; return std::vector<U>{u + U"<a><b>"}; }, true});
  }
  return d;
}
Dim ids(const std::string &type) {
  Dim d; d.name = "ids/" + type; d.block = 1; d.bound = "a vocabulary whose ids are all powers of two up to 2^31-1 with their neighbours, in both orders, with and without added tokens";
  for (int k = 0; k < 4; k++) d.items.push_back({"sparse ids, order " + to_string(k), [=] {
    Cfg c; c.mod = model(type); c.pre = cfgs::p_split("ws", "Removed", false); c.mod.ignore = true;
    std::set<int> s; for (long p = 4; p <= 0x7FFFFFFF; p *= 2) for (int q = -1; q < 2; q++) s.insert(p + q);
    if (k & 2) s.insert(0x7FFFFFFF); 
    int i = 1; for (int v : s) c.mod.vocab.push_back({to8(cjk(i++)), v});
    if (k & 1) std::reverse(c.mod.vocab.begin(), c.mod.vocab.end());
    for (auto &p : std::vector<std::pair<std::string, std::string>>{{to8(cjk(5)), to8(cjk(6))}, {to8(cjk(80)), to8(cjk(79))}}) if (type == "BPE" && !(k & 2)) { c.mod.vocab.push_back({p.first + p.second, 0x7FFFFFF0 + (int)p.first[2] % 8}); c.mod.merges.push_back(p); }
    if (!(k & 2)) { c.added = {tok(to8(cjk(40)), ""), tok(to8(cjk(60)), "s")}; fix(c); }
    return c;
  }, [=](const Cfg &) { U u; for (int i = 0; i < 95; i++) u += cjk(i) + U" "; u += cjk(5) + cjk(6) + cjk(80) + cjk(79); return std::vector<U>{u}; }, true});
  return d;
}
Dim merges(int max) {
  Dim d; d.name = "merges"; d.block = 1; d.bound = "merge lists of every length of the ladder up to " + to_string(max) + ", in both orders: words whose result depends on the order of merges at every ladder rank";
  // merge k joins x(k) and x(k+1) over a cycle-free numbering of 300 characters; word x(k) x(k+1) x(k+2) depends on the ranks of k and k+1
  auto X = [](int i) { return to8(U(1, 0x4E00 + i)); };
  for (int n : ladder(max)) for (int rev = 0; rev < 2; rev++) {
    d.items.push_back({to_string(n) + " merges" + (rev ? " in reverse" : ""), [=] {
      Cfg c; c.mod = model("BPE"); c.pre = cfgs::p_split("ws", "Removed", false);
      int w = 300; if (n > 80000) w = 600;
      for (int i = 0; i < w; i++) c.mod.vocab.push_back({X(i), i + 1});
      for (int k = 0; k < n; k++) { int a = k / w, b = k % w; c.mod.merges.push_back({X(a), X(b)}); c.mod.vocab.push_back({X(a) + X(b), w + 1 + k}); }
      if (rev) std::reverse(c.mod.merges.begin(), c.mod.merges.end());
      return c;
    }, [=](const Cfg &) {
      int w = 300; if (n > 80000) w = 600;
      auto Y = [](int i) { return U(1, 0x4E00 + i); };
      U u;
      for (int k : ladder(n + 2)) { int a = k / w, b = k % w; u += Y(a) + Y(b) + U" " + Y(a) + Y(b) + Y((b * 7 + 1) % w) + U" " + Y((a * 3 + 2) % w) + Y(a) + Y(b) + Y(a) + Y(b) + U" "; }
      return std::vector<U>{u};
    }});
  }
  return d;
}
Dim entry_length(int max, const std::string &type) {
  Dim d; d.name = "entry-length/" + type; d.block = 4; d.bound = "vocabulary entries of every length of the ladder up to " + to_string(max) + " characters of one to four bytes, words one shorter, equal, one longer and doubled";
  for (int n : ladder(max)) for (char32_t ch : {U'a', U'\u00E9', U'\u4E2D', U'\U0001F600'}) {
    if (!n) continue;
    d.items.push_back({"an entry of " + to_string(n) + " characters " + fam::cp(ch), [=] {
      Cfg c; c.mod = model(type); c.mod.max_chars = 4 * n + 9; c.pre = cfgs::p_split("ws", "Removed", false);
      U e(n, ch); std::string one = to8(ch), p = c.mod.prefix.value_or("");
      auto add = [&](const std::string &s) { for (auto &v : c.mod.vocab) if (v.first == s) return; c.mod.vocab.push_back({s, (int)c.mod.vocab.size()}); };
      add("b"); add(p + "b"); add(one); add(to8(e)); add(to8(e) + "b"); add(p + to8(e)); add(p + one); add("b" + to8(e));
      if (type == "BPE") { c.mod.ignore = true; c.mod.merges.push_back({to8(e), "b"}); c.mod.merges.push_back({"b", to8(e)}); }
      return c;
    }, [=](const Cfg &) { U e(n, ch); U t = e; t.pop_back(); return std::vector<U>{e + U" " + t + U" " + e + ch + U" " + e + e + U" " + e + U"b " + U"b" + e + U" b" + e + U"b", e, e + e}; }, true});
  }
  return d;
}
Dim word_length(int max, const std::string &type) {
  Dim d; d.name = "word-length/" + type; d.block = 4; d.bound = "single words of every length of the ladder up to " + to_string(max) + " over four patterns" + (type == "WordPiece" ? ", with the limit just at and below the length" : ", byte-level, plain and with fallback and affixes");
  for (int n : ladder(max)) for (int k = 0; k < 4; k++) for (int v = 0; v < (type == "BPE" ? 4 : 2); v++) {
    if (!n) continue;
    auto text = [=] { static const U pat[] = {U"a", U"ab", U"aab\u00E9", U"ba1s\u4E2Dx"}; U u; for (int i = 0; i < n; i++) u += pat[k][(i * (k == 3 ? 5 : 1) + i / 17) % pat[k].size()]; return u; };
    d.items.push_back({"a word of " + to_string(n) + " characters, pattern " + to_string(k) + ", model " + to_string(v), [=] {
      Cfg c; c.pre = cfgs::p_split("ws", "Removed", false);
      if (type == "BPE") { c.mod = v == 0 ? cfgs::m_bpe_bytes() : v == 1 ? cfgs::m_bpe_chars() : v == 2 ? cfgs::m_bpe_fallback() : cfgs::m_bpe_affix(); if (!v) c.pre = cfgs::p_byte(false, false); }
      else { c.mod = cfgs::m_wordpiece(); c.mod.max_chars = n - v; c.pre = cfgs::p_split("ws", "Removed", false); }
      return c;
    }, [=](const Cfg &) { U u = text(); return type == "BPE" && n > 2000 ? std::vector<U>{u} : std::vector<U>{u, U"ab " + u + U" s", u.substr(1), u + U"b"}; }, true});
  }
  return d;
}
// ---- truncation, padding, templates ----
static Cfg flat() {
  Cfg c; Mod m; m.type = "BPE"; m.unk = "[UNK]";
  for (const char *s : {"[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]", "a", "b", "1", "\xC3\xA9"}) m.vocab.push_back({s, (int)m.vocab.size()});
  c.mod = m; c.pre = cfgs::p_bert(); c.added = cfgs::bert_added(); c.post = cfgs::q_bert();
  return c;
}
static U tokens(int n) { U u; for (int i = 0; i < n; i++) { u += U"ab1\u00E9"[(i + i / 5) % 4]; u += U' '; } return u; }
Dim windows(int max) {
  Dim d; d.name = "windows"; d.block = 2; d.bound = "texts of every number of tokens of the ladder up to " + to_string(max) + " x five small maxima and three near the length x strides x both directions";
  for (int n : ladder(max)) for (int m : {3, 4, 7, 130, 514, n - 1, n, n + 1, n + 2, n / 2 + 2}) for (int s : {0, 1, m - 3, m / 2}) for (int left = 0; left < 2; left++) {
    if (m < 3 || s < 0 || (m < 100 && n > 5000 && s == m / 2)) continue;
    if (m - 2 - s > 0 && (long)(n / (m - 2 - s) + 1) * m > 4000000) continue;
    d.items.push_back({to_string(n) + " tokens, maximum " + to_string(m) + " stride " + to_string(s) + (left ? " from the left" : ""), [=] { Cfg c = flat(); c.trunc = Trunc{true, left ? "Left" : "Right", "LongestFirst", m, s}; return c; }, [=](const Cfg &) { return std::vector<U>{tokens(n)}; }});
  }
  return d;
}
Dim padding(int max) {
  Dim d; d.name = "padding"; d.block = 2; d.bound = "fixed lengths and multiples of the ladder up to " + to_string(max) + " x both sides x texts of 0, 5 and 300 tokens, with and without windows";
  for (int n : ladder(max)) for (int k = 0; k < 3; k++) for (int left = 0; left < 2; left++) for (int w = 0; w < 2; w++) d.items.push_back({std::string(k == 0 ? "fixed length " : k == 1 ? "multiple " : "both ") + to_string(n) + (left ? " on the left" : "") + (w ? ", three windows" : ""), [=] {
    Cfg c = flat(); c.pad.on = true; c.pad.dir = left ? "Left" : "Right"; c.pad.id = 70000; c.pad.type = 300; c.pad.tok = "<pad>";
    if (k != 1) c.pad.fixed = n; if (k != 0) c.pad.mult = k == 1 ? n : 8;
    if (w) c.trunc = Trunc{true, "Right", "LongestFirst", 102, 0};
    return c;
  }, [=](const Cfg &) { std::vector<U> v{tokens(5), tokens(300)}; if (n < 1000) v.push_back(U()); return v; }});
  return d;
}
Dim templates(int max) {
  Dim d; d.name = "templates"; d.block = 2; d.bound = "templates of up to " + to_string(max) + " pieces, special tokens of up to " + to_string(max) + " ids and up to " + to_string(max) + " different special tokens, around texts of 0, 5 and 300 tokens";
  auto S = [](const std::string &s, int t) { return PieceT{true, s, t}; };
  for (int n : ladder(max)) for (int k = 0; k < 4; k++) for (int w = 0; w < 2; w++) {
    d.items.push_back({std::string(k == 0 ? "pieces before and after the text: " : k == 1 ? "ids of one special token: " : k == 2 ? "different special tokens: " : "type id ") + to_string(n) + (w ? ", windows" : ""), [=] {
      Cfg c = flat(); Post p; p.type = "TemplateProcessing"; p.single = {{false, "A", k == 3 ? n : 0}};
      p.specials = {{"[CLS]", {2}, {"[CLS]"}}, {"[SEP]", {3}, {"[SEP]"}}};
      if (k == 0) { p.single.insert(p.single.begin(), n, S("[CLS]", 1)); p.single.insert(p.single.end(), n, S("[SEP]", 2)); }
      if (k == 1) { Special s; s.id = "many"; for (int i = 0; i < n; i++) s.ids.push_back(100 + i), s.tokens.push_back("m" + to_string(i)); p.specials.push_back(s); p.single.push_back(S("many", 3)); p.single.insert(p.single.begin(), S("[CLS]", 4)); }
      if (k == 2) for (int i = 0; i < n; i++) { Special s; s.id = "s" + to_string(i); s.ids = {1000 + i}; s.tokens = {"t" + to_string(i)}; p.specials.push_back(s); p.single.push_back(S(s.id, i)); }
      if (k == 3) { p.single.push_back(S("[SEP]", n + 1)); }
      p.pair = p.single; c.post = p;
      if (w) c.trunc = Trunc{true, "Right", "LongestFirst", 2 * n + 100, 3};
      return c;
    }, [=](const Cfg &) { return std::vector<U>{U(), tokens(5), tokens(300)}; }});
  }
  return d;
}
Dim members(int max) {
  Dim d; d.name = "sequence-members"; d.block = 2; d.bound = "sequences of every number of members of the ladder up to " + to_string(max) + ": normalizers, pre-tokenizers, post-processors and decoders, and nesting depths up to 60";
  for (int n : ladder(max)) for (int k = 0; k < 5; k++) d.items.push_back({to_string(n) + " members, kind " + to_string(k), [=] {
    Cfg c = cfgs::bare(); c.mod = cfgs::m_bpe_fallback(); using namespace cfgs;
    c.dec = d_seq({});
    if (k == 0) { std::vector<Norm> v; for (int i = 0; i < n; i++) v.push_back(i % 3 == 0 ? n_replace(to8(U(1, 0x4E00 + i)), to8(U(1, 0x4E01 + i))) : i % 3 == 1 ? n_replace(to8(U(1, 0x4E00 + i)), to8(U(1, 0x4E01 + i)) + "a") : n_replace(to8(U(1, 0x4E00 + i)), to8(U(1, 0x4E01 + i)))); c.norm = n_seq(v); }
    if (k == 1) { std::vector<Pre> v; for (int i = 0; i < n; i++) v.push_back(p_split("lit:" + to8(U(1, 0x4E00 + i)), i % 2 ? "Removed" : "Isolated", false)); c.pre = p_seq(v); }
    if (k == 2) { std::vector<Post> v; for (int i = 0; i < n; i++) { Post p; p.type = "TemplateProcessing"; p.single = {{true, "x", i}, {false, "A", i + 1}}; p.pair = p.single; p.specials = {{"x", {100 + i}, {"x" + to_string(i)}}}; v.push_back(p); } c.post = q_seq(v); }
    if (k == 3) { std::vector<Dec> v; for (int i = 0; i < n; i++) v.push_back(d_replace(i ? std::string(1, 'a' + i % 26) : "a", std::string(1, 'a' + (i + 1) % 26))); c.dec = d_seq(v); }
    if (k == 4) { int deep = std::min(n, 60); for (int i = 0; i < deep; i++) { c.norm = n_seq(i ? std::vector<Norm>{c.norm, n_replace(to8(U(1, 0x4E00 + i)), "a")} : std::vector<Norm>{}); c.dec = d_seq(i ? std::vector<Dec>{c.dec} : std::vector<Dec>{d_("Fuse")}); } }
    return c;
  }, [=](const Cfg &) { U u = U"aab"; for (int i : ladder(n + 2)) { u += U(1, 0x4E00 + i); u += U'b'; } return std::vector<U>{u, U(U"ab \u4E00b")}; }, true});
  return d;
}
Dim contents(int max) {
  Dim d; d.name = "contents"; d.block = 4; d.bound = "lengths of the ladder up to " + to_string(max) + " for each string option: Prepend, Replace pattern and content, Split literal, continuation prefix, end-of-word suffix, unknown token, pad token, decoder Replace and Strip";
  for (int n : ladder(max)) for (int k = 0; k < 10; k++) {
    if (!n) continue;
    std::string L = to8(U(n, U'\u00E9'));
    d.items.push_back({"string option " + to_string(k) + " of " + to_string(n) + " characters", [=] {
      using namespace cfgs; Cfg c = bare(); c.mod = m_bpe_fallback(); c.dec = d_seq({});
      switch (k) {
        case 0: c.norm = n_prepend(L); break;
        case 1: c.norm = n_replace(L, "ab"); break;
        case 2: c.norm = n_replace("b", L); break;
        case 3: c.pre = p_split("lit:" + L, "Isolated", false); break;
        case 4: c.mod = m_bpe_affix(); for (auto &v : c.mod.vocab) if (v.first.compare(0, 2, "##") == 0) v.first = L + v.first.substr(2); for (auto &m : c.mod.merges) { if (m.first.compare(0, 2, "##") == 0) m.first = L + m.first.substr(2); if (m.second.compare(0, 2, "##") == 0) m.second = L + m.second.substr(2); } c.mod.prefix = L; break;
        case 5: c.mod = m_bpe_affix(); { auto f = [&](std::string &s) { if (s.size() > 4 && s.compare(s.size() - 4, 4, "</w>") == 0) s = s.substr(0, s.size() - 4) + L; }; for (auto &v : c.mod.vocab) f(v.first); for (auto &m : c.mod.merges) f(m.first), f(m.second); } c.mod.suffix = L; break;
        case 6: c.mod = m_bpe_chars(); c.mod.unk = L; for (auto &v : c.mod.vocab) if (v.first == "<unk>") v.first = L; break;
        case 7: c.pad.on = true; c.pad.fixed = 9; c.pad.tok = L; break;
        case 8: c.dec = d_seq({d_("Fuse"), d_replace("b", L), d_replace(L + L, "1")}); break;
        case 9: c.dec = d_seq({d_("Fuse"), d_strip("\xC3\xA9", n, n / 2)}); break;
      }
      return c;
    }, [=](const Cfg &) { U l(n, U'\u00E9'); return std::vector<U>{U"abba", l + U"ab" + l, l.substr(1) + U"b", l + l, U"a" + l + U"b" + l + l + U"\u4E2D"}; }, true});
  }
  return d;
}
Dim spaces(int max) {
  Dim d; d.name = "spaces"; d.block = 8; d.bound = "runs of every length of the ladder up to " + to_string(max) + " of a space or other white space before, inside and after words, byte-level tokenizers with trimming";
  for (int n : ladder(max)) for (char32_t ch : {U' ', U'\n', U'\u3000'}) for (int k = 0; k < 4; k++) d.items.push_back({to_string(n) + " x " + fam::cp(ch) + ", tokenizer " + to_string(k), [=] {
    Cfg c = k == 0 ? cfgs::roberta() : k == 1 ? cfgs::llama3() : cfgs::gpt2();
    if (k == 2) { c.mod.ignore = true; std::string g; for (int i = 0; i < n; i++) g += to8(byte_symbols()[' ']); if (n > 3) c.mod.vocab.push_back({g, (int)c.mod.vocab.size()}), c.mod.vocab.push_back({g + "a", (int)c.mod.vocab.size()}); c.pre = cfgs::p_byte(false, false); fix(c); }
    if (k == 3) { c.pre = cfgs::p_byte(true, false); c.mod.merges.clear(); std::string g = to8(byte_symbols()[' ']); std::string w = g; auto put = [&](const std::string &s) { for (auto &v : c.mod.vocab) if (v.first == s) return; c.mod.vocab.push_back({s, (int)c.mod.vocab.size()}); };
      for (int i = 1; i < std::min(n, 600); i++) { c.mod.merges.push_back({w, g}); w += g; put(w); } fix(c); c.post = cfgs::q_byte(true, true); }
    return c;
  }, [=](const Cfg &) { U s(n, ch); return std::vector<U>{s, s + U"a", U"a" + s, U"a" + s + U"b", s + U"ab" + s + U"1" + s}; }, true});
  return d;
}
Dim marks(int max) {
  Dim d; d.name = "marks"; d.block = 8; d.bound = "runs of every length of the ladder up to " + to_string(max) + " of combining marks of several classes, Hangul, compatibility characters, ideographs and controls through every normalizer";
  static auto N = cfgs::norms();
  for (int n : ladder(max)) for (size_t k = 0; k < N.size(); k++) d.items.push_back({"normalizer " + N[k].first + ", runs of " + to_string(n), [=] {
    Cfg c = cfgs::bare(); c.mod = cfgs::m_bpe_fallback(); c.norm = N[k].second; if (n > 3000) c.mod.merges.clear(); return c;
  }, [=](const Cfg &) {
    auto rep = [&](const U &s) { U u; for (int i = 0; i < n; i++) u += s; return u; };
    std::vector<U> v{U"a" + rep(U"\u0301") + U"b", U"e" + rep(U"\u0301\u0323") + U"\u0301", rep(U"\u1100\u1161\u11A8"), rep(U"\uFB01") + U"a", rep(U"\u4E2D"), rep(U"\t\u0000\u200D"s), rep(U" ") + U"a" + rep(U" "), rep(U"A\u0130")};
    if (n <= 1100) return v;
    if (n % 2) return std::vector<U>{v[1], v[3], v[5]};
    return std::vector<U>{v[0], v[2], v[4], v[6], v[7]};
  }});
  return d;
}
}  // namespace scale
