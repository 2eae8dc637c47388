#include "ref.h"

#include <unicode/normalizer2.h>
#include <unicode/uchar.h>
#include <unicode/unistr.h>

#include <algorithm>
#include <array>
#include <set>
#include <stdexcept>

namespace ref {

std::string to8(char32_t c) {
  std::string r;
  if (c < 0x80) r += (char)c;
  else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
  return r;
}
std::string to8(const U &s) { std::string r; for (auto c : s) r += to8(c); return r; }
U from8(const std::string &s) {
  U r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    char32_t v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
    for (int k = 1; k < n && i + k < s.size(); k++) v = v << 6 | (s[i + k] & 63);
    r += v; i += n;
  }
  return r;
}
std::wstring toW(const U &s) { return std::wstring(s.begin(), s.end()); }
U fromW(const std::wstring &s) { return U(s.begin(), s.end()); }

// ---------------- JSON ----------------
static void dstr(std::string &r, const std::string &s, const Style &st) {
  static const char *hx = "0123456789abcdef";
  auto u16 = [&](unsigned v) { r += "\\u"; for (int k = 12; k >= 0; k -= 4) r += st.escape == 3 ? (char)toupper(hx[v >> k & 15]) : hx[v >> k & 15]; };
  r += '"';
  for (char32_t c : from8(s)) {
    if (st.escape == 3) {
      const char *sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : c == '\n' ? "\\n" : c == '\r' ? "\\r" : c == '\t' ? "\\t" : nullptr;
      if (sh) { r += sh; continue; }
    }
    bool e = c < 32 || c == '"' || c == '\\' || (st.escape >= 1 && c > 126) || st.escape == 2;
    if (!e) r += to8(c);
    else if (c == '"' && st.escape != 2) r += "\\\"";
    else if (c == '\\' && st.escape != 2) r += "\\\\";
    else if (c < 0x10000) u16(c);
    else { u16(0xD800 + ((c - 0x10000) >> 10)); u16(0xDC00 + ((c - 0x10000) & 0x3FF)); }
  }
  r += '"';
}
// field names of the format itself are always written literally; keys of vocab and special_tokens are data
static void dj(std::string &r, const J &j, const Style &st, int depth, bool data = false) {
  auto nl = [&](int d) { if (st.space == 1) { r += "\n"; r += std::string(2 * d, ' '); } else if (st.space == 2) r += " \t\r\n "; };
  switch (j.k) {
    case J::Null: r += "null"; break;
    case J::Bool: r += j.b ? "true" : "false"; break;
    case J::Int: r += std::to_string(j.i); break;
    case J::Dbl: { char b[40]; snprintf(b, 40, j.d > 0.999999 && j.d < 1 ? "%.10f" : "%.6f", j.d); r += b; break; }
    case J::Str: dstr(r, j.s, st); break;
    case J::Arr: {
      r += '['; bool f = true;
      for (auto &x : j.a) { if (!f) r += ','; f = false; nl(depth + 1); dj(r, x, st, depth + 1); }
      if (!f) nl(depth);
      r += ']'; break;
    }
    case J::Obj: {
      r += '{'; bool f = true;
      for (auto &x : j.o) { if (!f) r += ','; f = false; nl(depth + 1); { Style ks = st; if (!data && ks.escape == 2) ks.escape = 1; dstr(r, x.first, ks); } if (st.space == 2) r += " "; r += ':'; if (st.space) r += ' '; dj(r, x.second, st, depth + 1, !data && (x.first == "vocab" || x.first == "special_tokens")); }
      if (!f) nl(depth);
      r += '}'; break;
    }
  }
}
std::string dump(const J &j, const Style &st) { std::string r; dj(r, j, st, 0); return r; }

static J opt(const std::optional<std::string> &s) { return s ? J(*s) : J(); }
J jnorm(const Norm &n) {
  if (n.type.empty()) return J();
  J j = J::obj({{"type", n.type}});
  auto P = [&](const char *k, J v) { j.o.push_back({k, v}); };
  if (n.type == "Sequence") { J a = J::arr(); for (auto &x : n.seq) a.a.push_back(jnorm(x)); P("normalizers", a); }
  else if (n.type == "BertNormalizer") { P("clean_text", n.clean); P("handle_chinese_chars", n.chinese); P("strip_accents", n.accents ? J(*n.accents) : J()); P("lowercase", n.lower); }
  else if (n.type == "Prepend") P("prepend", n.a);
  else if (n.type == "Replace") { P("pattern", J::obj({{"String", n.a}})); P("content", n.b); }
  else if (n.type == "Strip") { P("strip_left", n.left); P("strip_right", n.right); }
  return j;
}
J jpre(const Pre &n) {
  if (n.type.empty()) return J();
  J j = J::obj({{"type", n.type}});
  auto P = [&](const char *k, J v) { j.o.push_back({k, v}); };
  if (n.type == "Sequence") { J a = J::arr(); for (auto &x : n.seq) a.a.push_back(jpre(x)); P("pretokenizers", a); }
  else if (n.type == "Split") { P("pattern", J::obj({{n.pat.regex ? "Regex" : "String", n.pat.text}})); P("behavior", n.behavior); P("invert", n.invert); }
  else if (n.type == "ByteLevel") { P("add_prefix_space", n.prefix_space); P("trim_offsets", true); P("use_regex", n.use_regex); }
  return j;
}
J jmod(const Mod &m) {
  if (m.type.empty()) return J();
  J j = J::obj({{"type", m.type}});
  auto P = [&](const char *k, J v) { j.o.push_back({k, v}); };
  if (m.type == "WordPiece") { P("unk_token", opt(m.unk)); P("continuing_subword_prefix", opt(m.prefix)); P("max_input_chars_per_word", m.max_chars); }
  else { P("dropout", m.dropout > 0 ? J(m.dropout) : J()); P("unk_token", opt(m.unk)); P("continuing_subword_prefix", opt(m.prefix)); P("end_of_word_suffix", opt(m.suffix)); P("fuse_unk", m.fuse); P("byte_fallback", m.fallback); P("ignore_merges", m.ignore); }
  J v = J::obj(); for (auto &x : m.vocab) v.o.push_back({x.first, x.second}); P("vocab", v);
  if (m.type == "BPE") { J a = J::arr(); for (auto &x : m.merges) a.a.push_back(x.first + " " + x.second); P("merges", a); }
  return j;
}
J jpost(const Post &n) {
  if (n.type.empty()) return J();
  J j = J::obj({{"type", n.type}});
  auto P = [&](const char *k, J v) { j.o.push_back({k, v}); };
  if (n.type == "Sequence") { J a = J::arr(); for (auto &x : n.seq) a.a.push_back(jpost(x)); P("processors", a); }
  else if (n.type == "ByteLevel") { P("add_prefix_space", n.prefix_space); P("trim_offsets", n.trim); P("use_regex", true); }
  else if (n.type == "TemplateProcessing") {
    auto T = [](const std::vector<PieceT> &v) { J a = J::arr(); for (auto &x : v) a.a.push_back(J::obj({{x.special ? "SpecialToken" : "Sequence", J::obj({{"id", x.id}, {"type_id", x.type_id}})}})); return a; };
    P("single", T(n.single)); P("pair", T(n.pair));
    J s = J::obj();
    for (auto &x : n.specials) { J ids = J::arr(), tk = J::arr(); for (int i : x.ids) ids.a.push_back(i); for (auto &t : x.tokens) tk.a.push_back(t); s.o.push_back({x.id, J::obj({{"id", x.id}, {"ids", ids}, {"tokens", tk}})}); }
    P("special_tokens", s);
  }
  return j;
}
J jdec(const Dec &n) {
  if (n.type.empty()) return J();
  J j = J::obj({{"type", n.type}});
  auto P = [&](const char *k, J v) { j.o.push_back({k, v}); };
  if (n.type == "Sequence") { J a = J::arr(); for (auto &x : n.seq) a.a.push_back(jdec(x)); P("decoders", a); }
  else if (n.type == "WordPiece") { P("prefix", n.prefix); P("cleanup", n.cleanup); }
  else if (n.type == "Strip") { P("content", n.a); P("start", n.start); P("stop", n.stop); }
  else if (n.type == "Replace") { P("pattern", J::obj({{"String", n.a}})); P("content", n.b); }
  else if (n.type == "ByteLevel") { P("add_prefix_space", true); P("trim_offsets", true); P("use_regex", true); }
  return j;
}
J jtrunc(const Trunc &t) { if (!t.on) return J(); return J::obj({{"direction", t.dir}, {"max_length", t.max}, {"strategy", t.strat}, {"stride", t.stride}}); }
J jpad(const Pad &p) {
  if (!p.on) return J();
  return J::obj({{"strategy", p.fixed >= 0 ? J::obj({{"Fixed", p.fixed}}) : J("BatchLongest")}, {"direction", p.dir}, {"pad_to_multiple_of", p.mult > 0 ? J(p.mult) : J()}, {"pad_id", p.id}, {"pad_type_id", p.type}, {"pad_token", p.tok}});
}
J jadded(const Added &a) { return J::obj({{"id", a.id}, {"content", a.content}, {"single_word", a.single}, {"lstrip", a.l}, {"rstrip", a.r}, {"normalized", a.norm}, {"special", a.special}}); }
J jcfg(const Cfg &c) {
  J ad = J::arr(); for (auto &a : c.added) ad.a.push_back(jadded(a));
  return J::obj({{"version", "1.0"}, {"truncation", jtrunc(c.trunc)}, {"padding", jpad(c.pad)}, {"added_tokens", c.added_null ? J() : ad}, {"normalizer", jnorm(c.norm)}, {"pre_tokenizer", jpre(c.pre)}, {"post_processor", jpost(c.post)}, {"decoder", jdec(c.dec)}, {"model", jmod(c.mod)}});
}
std::string json(const Cfg &c) { return dump(jcfg(c)); }

// ---------------- character classes ----------------
bool is_white(char32_t c) {
  return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xA0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200A) || c == 0x2028 || c == 0x2029 || c == 0x202F || c == 0x205F || c == 0x3000;
}
static uint32_t cat(char32_t c) { return 1u << u_charType((UChar32)c); }
bool is_letter(char32_t c) { return cat(c) & U_GC_L_MASK; }
bool is_number(char32_t c) { return cat(c) & U_GC_N_MASK; }
bool is_punct(char32_t c) {
  if ((c >= 33 && c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126)) return true;
  return cat(c) & U_GC_P_MASK;
}
bool is_control(char32_t c) { if (c == '\t' || c == '\n' || c == '\r') return false; return cat(c) & U_GC_C_MASK; }
bool is_word(char32_t c) { return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) || (cat(c) & (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) || c == 0x200C || c == 0x200D; }
bool is_cjk(char32_t c) {
  static const char32_t r[][2] = {{0x4E00, 0x9FFF}, {0x3400, 0x4DBF}, {0x20000, 0x2A6DF}, {0x2A700, 0x2B73F}, {0x2B740, 0x2B81F}, {0x2B920, 0x2CEAF}, {0xF900, 0xFAFF}, {0x2F800, 0x2FA1F}};
  for (auto &x : r) if (c >= x[0] && c <= x[1]) return true;
  return false;
}

// ---------------- normalizers ----------------
NS ns(const U &u) { NS n; n.t = u; for (int i = 0; i < (int)u.size(); i++) n.al.push_back({i, i + 1}); return n; }
static NS form(const NS &in, const char *name, UNormalization2Mode mode) {
  UErrorCode st = U_ZERO_ERROR;
  const icu::Normalizer2 *z = icu::Normalizer2::getInstance(nullptr, name, mode, st);
  if (U_FAILURE(st)) throw std::logic_error("icu");
  NS r;
  size_t i = 0;
  while (i < in.t.size()) {
    size_t j = i + 1;
    while (j < in.t.size() && !z->hasBoundaryBefore((UChar32)in.t[j])) j++;
    icu::UnicodeString src = icu::UnicodeString::fromUTF32((const UChar32 *)in.t.data() + i, (int)(j - i)), dst;
    z->normalize(src, dst, st);
    U out;
    for (int k = 0; k < dst.length(); k = dst.moveIndex32(k, 1)) out += (char32_t)dst.char32At(k);
    if (out == in.t.substr(i, j - i)) {
      for (size_t k = i; k < j; k++) { r.t += in.t[k]; r.al.push_back(in.al[k]); }
    } else {
      for (char32_t c : out) { r.t += c; r.al.push_back({in.al[i].first, in.al[j - 1].second}); }
    }
    i = j;
  }
  return r;
}
NS normalize(const Norm &n, NS in) {
  NS r;
  auto put = [&](char32_t c, R a) { r.t += c; r.al.push_back(a); };
  if (n.type.empty()) return in;
  if (n.type == "Sequence") { for (auto &x : n.seq) in = normalize(x, in); return in; }
  if (n.type == "NFC") return form(in, "nfc", UNORM2_COMPOSE);
  if (n.type == "NFD") return form(in, "nfc", UNORM2_DECOMPOSE);
  if (n.type == "NFKC") return form(in, "nfkc", UNORM2_COMPOSE);
  if (n.type == "NFKD") return form(in, "nfkc", UNORM2_DECOMPOSE);
  if (n.type == "Prepend") {
    if (in.t.empty()) return in;
    for (char32_t c : from8(n.a)) put(c, in.al[0]);
    r.t += in.t; r.al.insert(r.al.end(), in.al.begin(), in.al.end());
    return r;
  }
  if (n.type == "Replace") {
    U pat = from8(n.a), con = from8(n.b);
    if (pat.empty()) return in;
    for (size_t i = 0; i < in.t.size();) {
      if (in.t.compare(i, pat.size(), pat) == 0) {
        R a{in.al[i].first, in.al[i + pat.size() - 1].second};
        for (char32_t c : con) put(c, a);
        i += pat.size();
      } else { put(in.t[i], in.al[i]); i++; }
    }
    return r;
  }
  if (n.type == "Strip") {
    size_t s = 0, e = in.t.size();
    if (n.left) while (s < e && is_white(in.t[s])) s++;
    if (n.right) while (e > s && is_white(in.t[e - 1])) e--;
    r.t = in.t.substr(s, e - s); r.al.assign(in.al.begin() + s, in.al.begin() + e);
    return r;
  }
  if (n.type == "StripAccents") {
    for (size_t i = 0; i < in.t.size(); i++) if (!(cat(in.t[i]) & U_GC_M_MASK)) put(in.t[i], in.al[i]);
    return r;
  }
  if (n.type == "BertNormalizer") {
    if (n.clean) {
      for (size_t i = 0; i < in.t.size(); i++) {
        char32_t c = in.t[i];
        if (c == 0 || c == 0xFFFD || is_control(c)) continue;
        else if (is_white(c)) put(' ', in.al[i]);
        else put(c, in.al[i]);
      }
      in = r; r = NS();
    }
    if (n.chinese) {
      for (size_t i = 0; i < in.t.size(); i++) {
        bool z = is_cjk(in.t[i]);
        if (z) put(' ', in.al[i]);
        put(in.t[i], in.al[i]);
        if (z) put(' ', in.al[i]);
      }
      in = r; r = NS();
    }
    if (n.accents.value_or(n.lower)) {
      NS d = form(in, "nfc", UNORM2_DECOMPOSE);
      for (size_t i = 0; i < d.t.size(); i++) if (u_charType(d.t[i]) != U_NON_SPACING_MARK) put(d.t[i], d.al[i]);
      in = r; r = NS();
    }
    if (n.lower) for (auto &c : in.t) c = (char32_t)u_tolower((UChar32)c);
    return in;
  }
  return in;
}

// ---------------- pre-tokenizers ----------------
const std::vector<char32_t> &byte_symbols() {
  static std::vector<char32_t> t = [] {
    std::vector<char32_t> r(256, 0); char32_t n = 256;
    for (int b = 0; b < 256; b++) {
      bool p = (b >= 0x21 && b <= 0x7E) || (b >= 0xA1 && b <= 0xAC) || (b >= 0xAE && b <= 0xFF);
      r[b] = p ? b : n++;
    }
    return r;
  }();
  return t;
}
// GPT-2: 's|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+
std::vector<R> find_gpt2(const U &u) {
  std::vector<R> r; int n = u.size(), i = 0;
  auto cls = [](char32_t c) { return is_letter(c) ? 1 : is_number(c) ? 2 : is_white(c) ? 0 : 3; };
  while (i < n) {
    int e = i;
    if (u[i] == '\'' && i + 1 < n) {
      char32_t a = u[i + 1], b = i + 2 < n ? u[i + 2] : 0;
      if (a == 's' || a == 't' || a == 'm' || a == 'd') e = i + 2;
      else if ((a == 'r' && b == 'e') || (a == 'v' && b == 'e') || (a == 'l' && b == 'l')) e = i + 3;
    }
    if (e == i) {
      int k = i;
      if (u[k] == ' ' && k + 1 < n && cls(u[k + 1])) k++;
      int c = cls(u[k]);
      if (c) { e = k; while (e < n && cls(u[e]) == c) e++; }
      else {
        e = i; while (e < n && is_white(u[e])) e++;
        if (e < n && e - i > 1) e--;   // \s+(?!\S): give one back; a single one falls to \s+
      }
    }
    r.push_back({i, e}); i = e;
  }
  return r;
}
static bool icu_s(char32_t c) { return is_white(c); }
// Llama-3 / cl100k pattern
std::vector<R> find_cl100k(const U &u) {
  std::vector<R> r; int n = u.size(), i = 0;
  auto lo = [](char32_t c) -> char32_t { return c == 0x17F ? 's' : c < 128 ? (char32_t)tolower((int)c) : c; };
  auto nl = [](char32_t c) { return c == '\r' || c == '\n'; };
  auto sym = [](char32_t c) { return !icu_s(c) && !is_letter(c) && !is_number(c); };
  while (i < n) {
    int e = i;
    if (u[i] == '\'' && i + 1 < n) {
      char32_t a = lo(u[i + 1]), b = i + 2 < n ? lo(u[i + 2]) : 0;
      // alternation order: 's 't 're 've 'm 'll 'd
      if (a == 's' || a == 't') e = i + 2;
      else if ((a == 'r' && b == 'e') || (a == 'v' && b == 'e')) e = i + 3;
      else if (a == 'm') e = i + 2;
      else if (a == 'l' && b == 'l') e = i + 3;
      else if (a == 'd') e = i + 2;
    }
    if (e == i) {  // [^\r\n\p{L}\p{N}]?\p{L}+
      int k = i;
      if (!nl(u[k]) && !is_letter(u[k]) && !is_number(u[k]) && k + 1 < n && is_letter(u[k + 1])) k++;
      if (is_letter(u[k])) { e = k; while (e < n && is_letter(u[e])) e++; }
    }
    if (e == i && is_number(u[i])) { while (e < n && e - i < 3 && is_number(u[e])) e++; }
    if (e == i) {
      int k = i;
      if (u[k] == ' ' && k + 1 < n && sym(u[k + 1])) k++;
      if (sym(u[k])) { e = k; while (e < n && sym(u[e])) e++; while (e < n && nl(u[e])) e++; }
    }
    if (e == i && icu_s(u[i])) {
      int w = i; while (w < n && icu_s(u[w])) w++;
      int last = -1; for (int k = i; k < w; k++) if (nl(u[k])) last = k;
      if (last >= 0) e = last + 1;                // \s*[\r\n]+
      else if (w == n) e = w;                      // \s+(?!\S)
      else if (w - i > 1) e = w - 1;
      else e = w;
    }
    if (e == i) { i++; continue; }                 // not matched by the pattern
    r.push_back({i, e}); i = e;
  }
  return r;
}
static std::vector<R> find_lit(const U &u, const U &p) {
  std::vector<R> r;
  if (p.empty()) return r;
  for (size_t i = 0; i + p.size() <= u.size();) if (u.compare(i, p.size(), p) == 0) { r.push_back({(int)i, (int)(i + p.size())}); i += p.size(); } else i++;
  return r;
}
template <class F> static std::function<std::vector<R>(const U &)> runs(F f, int min, int max) {
  return [=](const U &u) {
    std::vector<R> r; int n = u.size();
    for (int i = 0; i < n;) {
      int e = i; while (e < n && e - i < max && f(u[e])) e++;
      if (e - i >= min && e > i) { r.push_back({i, e}); i = e; }
      else { if (min == 0) r.push_back({i, i}); i++; }
    }
    if (min == 0) r.push_back({n, n});
    return r;
  };
}
// leftmost matches, f(text, i) being the length of the match at i (-1: none)
template <class F> static std::function<std::vector<R>(const U &)> scan(F f) {
  return [=](const U &u) {
    std::vector<R> r; int n = u.size();
    for (int i = 0; i <= n;) {
      int k = f(u, i);
      if (k > 0) { r.push_back({i, i + k}); i += k; }
      else { if (k == 0) r.push_back({i, i}); i++; }
    }
    return r;
  };
}
static char32_t at(const U &u, int i) { return i >= 0 && i < (int)u.size() ? u[i] : 0xFFFFFFFF; }
template <class F> static int run(const U &u, int i, F f) { int k = 0; while (i + k < (int)u.size() && f(u[i + k])) k++; return k; }
Pat pat_of(const std::string &name) {
  Pat p; p.text = name; p.regex = true;
  if (name == "cl100k") { p.text = "(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\\r\\n\\p{L}\\p{N}]?\\p{L}+|\\p{N}{1,3}| ?[^\\s\\p{L}\\p{N}]+[\\r\\n]*|\\s*[\\r\\n]+|\\s+(?!\\S)|\\s+"; p.find = find_cl100k; }
  else if (name == "digits") { p.text = "\\p{N}+"; p.find = runs(is_number, 1, 1 << 30); }
  else if (name == "digit") { p.text = "\\p{N}"; p.find = runs(is_number, 1, 1); }
  else if (name == "ws") { p.text = "\\s+"; p.find = runs(icu_s, 1, 1 << 30); }
  else if (name == "comma") { p.text = "[,.]"; p.find = runs([](char32_t c) { return c == ',' || c == '.'; }, 1, 1); }
  else if (name == "any") { p.text = "(?s)."; p.find = runs([](char32_t) { return true; }, 1, 1); }
  else if (name == "pair") { p.text = "(?s).."; p.find = runs([](char32_t) { return true; }, 2, 2); }
  else if (name == "astar") { p.text = "a*"; p.find = runs([](char32_t c) { return c == 'a'; }, 0, 1 << 30); }
  else if (name == "never") { p.text = "(?!)"; p.find = [](const U &) { return std::vector<R>(); }; }
  else if (name == "gpt2") { p.text = "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| ?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+"; p.find = find_gpt2; }
  else if (name == "line") { p.text = ".+"; p.find = runs([](char32_t c) { return c != '\n'; }, 1, 1 << 30); }
  else if (name == "lower") { p.text = "[a-z]+"; p.find = runs([](char32_t c) { return c >= 'a' && c <= 'z'; }, 1, 1 << 30); }
  else if (name == "not-ab") { p.text = "[^ab]"; p.find = runs([](char32_t c) { return c != 'a' && c != 'b'; }, 1, 1); }
  else if (name == "digits3") { p.text = "\\p{N}{1,3}"; p.find = runs(is_number, 1, 3); }
  else if (name == "a-not-1") { p.text = "a(?!1)"; p.find = scan([](const U &u, int i) { return at(u, i) == 'a' && at(u, i + 1) != '1' ? 1 : -1; }); }
  else if (name == "1-after-a") { p.text = "(?<=a)1"; p.find = scan([](const U &u, int i) { return at(u, i) == '1' && at(u, i - 1) == 'a' ? 1 : -1; }); }
  else if (name == "before-1") { p.text = "(?=1)"; p.find = scan([](const U &u, int i) { return at(u, i) == '1' ? 0 : -1; }); }
  else if (name == "lazy") { p.text = "a+?1|a"; p.find = scan([](const U &u, int i) { int k = run(u, i, [](char32_t c) { return c == 'a'; }); return k && at(u, i + k) == '1' ? k + 1 : k ? 1 : -1; }); }
  else if (name == "ordered") { p.text = "a|aa|1a"; p.find = scan([](const U &u, int i) { return at(u, i) == 'a' ? 1 : at(u, i) == '1' && at(u, i + 1) == 'a' ? 2 : -1; }); }
  else if (name == "twice") { p.text = "([a1 ])\\1"; p.find = scan([](const U &u, int i) { char32_t c = at(u, i); return (c == 'a' || c == '1' || c == ' ') && at(u, i + 1) == c ? 2 : -1; }); }
  else if (name == "title") { p.text = "\\p{Lu}\\p{Ll}*"; p.find = scan([](const U &u, int i) { return at(u, i) < 0x110000 && u_charType((UChar32)u[i]) == U_UPPERCASE_LETTER ? 1 + run(u, i + 1, [](char32_t c) { return u_charType((UChar32)c) == U_LOWERCASE_LETTER; }) : -1; }); }
  else if (name == "icase") { p.text = "(?i)ab"; p.find = scan([](const U &u, int i) { return (at(u, i) | 32) == 'a' && at(u, i) < 128 && (at(u, i + 1) | 32) == 'b' && at(u, i + 1) < 128 ? 2 : -1; }); }
  else if (name == "spaced") { p.text = "\\s?\\p{L}+"; p.find = scan([](const U &u, int i) { int s = i < (int)u.size() && icu_s(u[i]); int k = run(u, i + s, is_letter); return k ? s + k : -1; }); }
  else if (name == "space#") { p.text = " #a| a"; p.find = scan([](const U &u, int i) { return at(u, i) == ' ' && at(u, i + 1) == 'a' ? 2 : -1; }); }
  else if (name.rfind("lit:", 0) == 0) { p.text = name.substr(4); p.regex = false; U t = from8(p.text); p.find = [t](const U &u) { return find_lit(u, t); }; }
  else throw std::logic_error("pattern " + name);
  return p;
}
std::vector<std::pair<R, bool>> split_ranges(const Pat &p, const std::string &beh, bool inv, const U &u) {
  std::vector<std::pair<R, bool>> m;
  int cur = 0;
  for (auto &x : p.find(u)) {
    if (x.first > cur) m.push_back({{cur, x.first}, false});
    m.push_back({x, true});
    cur = x.second;
  }
  if (cur < (int)u.size()) m.push_back({{cur, (int)u.size()}, false});
  if (inv) for (auto &x : m) x.second = !x.second;
  std::vector<std::pair<R, bool>> r;  // second: removed
  if (beh == "Removed") r = m;
  else if (beh == "Isolated") for (auto &x : m) r.push_back({x.first, false});
  else if (beh == "Contiguous") {
    bool pm = false;
    for (auto &x : m) { if (x.second == pm && !r.empty()) r.back().first.second = x.first.second; else r.push_back({x.first, false}); pm = x.second; }
  } else if (beh == "MergedWithPrevious") {
    bool pm = false;
    for (auto &x : m) { if (x.second && !pm && !r.empty()) r.back().first.second = x.first.second; else r.push_back({x.first, false}); pm = x.second; }
  } else if (beh == "MergedWithNext") {
    bool pm = false;
    for (size_t k = m.size(); k-- > 0;) { auto &x = m[k]; if (x.second && !pm && !r.empty()) r.back().first.first = x.first.first; else r.push_back({x.first, false}); pm = x.second; }
    std::reverse(r.begin(), r.end());
  } else throw std::logic_error("behavior");
  return r;
}
static void cut(std::vector<Piece> &out, const Piece &p, const std::vector<std::pair<R, bool>> &rs) {
  for (auto &x : rs) {
    if (x.second || x.first.first >= x.first.second) continue;
    Piece q; q.n.t = p.n.t.substr(x.first.first, x.first.second - x.first.first);
    q.n.al.assign(p.n.al.begin() + x.first.first, p.n.al.begin() + x.first.second);
    q.pos = p.pos + x.first.first;
    out.push_back(q);
  }
}
std::vector<Piece> pretok(const Pre &p, std::vector<Piece> in) {
  if (p.type.empty()) return in;
  if (p.type == "Sequence") { for (auto &x : p.seq) in = pretok(x, in); return in; }
  std::vector<Piece> out;
  for (auto &x : in) {
    if (!x.toks.empty()) { out.push_back(x); continue; }
    if (p.type == "Split") { cut(out, x, split_ranges(p.pat, p.behavior, p.invert, x.n.t)); continue; }
    if (p.type == "BertPreTokenizer") {
      int n = x.n.t.size(); std::vector<std::pair<R, bool>> rs;
      for (int i = 0; i < n;) {
        if (is_white(x.n.t[i])) { i++; continue; }
        int e = i + 1;
        if (!is_punct(x.n.t[i])) while (e < n && !is_white(x.n.t[e]) && !is_punct(x.n.t[e])) e++;
        rs.push_back({{i, e}, false}); i = e;
      }
      cut(out, x, rs); continue;
    }
    if (p.type == "ByteLevel") {
      Piece y = x;
      if (p.prefix_space && !y.n.t.empty() && !is_white(y.n.t[0])) { y.n.t.insert(0, 1, U' '); y.n.al.insert(y.n.al.begin(), y.n.al[0]); }
      std::vector<Piece> part;
      std::vector<std::pair<R, bool>> rs;
      if (p.use_regex) for (auto &m : find_gpt2(y.n.t)) rs.push_back({m, false});
      else rs.push_back({{0, (int)y.n.t.size()}, false});
      cut(part, y, rs);
      for (auto &q : part) {
        Piece b; b.pos = q.pos;
        for (size_t i = 0; i < q.n.t.size(); i++) for (unsigned char c : to8(q.n.t[i])) { b.n.t += byte_symbols()[c]; b.n.al.push_back(q.n.al[i]); }
        out.push_back(b);
      }
      continue;
    }
    throw std::logic_error("pretok " + p.type);
  }
  return out;
}

// ---------------- models ----------------
std::vector<Tok> wordpiece(const Mod &m, const std::map<std::string, int> &v, const U &w) {
  int n = w.size();
  std::string unk = m.unk.value_or("");
  auto bad = [&] { auto it = v.find(unk); return std::vector<Tok>{{it == v.end() ? 0 : it->second, unk, 0, n}}; };
  if (n > m.max_chars) return bad();
  std::vector<Tok> r;
  size_t longest = 0;
  for (auto &x : v) longest = std::max(longest, x.first.size());
  for (int i = 0; i < n;) {
    int best = -1; Tok t;
    for (int e = i + 1; e <= n && (size_t)(e - i) <= longest; e++) {
      std::string s = (i ? m.prefix.value_or("") : "") + to8(w.substr(i, e - i));
      auto it = v.find(s);
      if (it != v.end()) { best = e; t = {it->second, s, i, e}; }
    }
    if (best < 0) return bad();
    r.push_back(t); i = best;
  }
  return r;
}
BpeIdx bpe_index(const Mod &m, const std::map<std::string, int> &v) {
  BpeIdx x;
  for (auto &y : v) x.rev[y.second] = y.first;
  size_t pl = m.prefix.value_or("").size();
  for (size_t k = 0; k < m.merges.size(); k++) {
    auto a = v.find(m.merges[k].first), b = v.find(m.merges[k].second);
    if (a == v.end() || b == v.end()) continue;
    if (b->first.size() < pl) continue;
    auto c = v.find(a->first + b->first.substr(pl));
    if (c == v.end()) continue;
    x.mg.insert({{a->second, b->second}, {(int)k, c->second}});
  }
  return x;
}
std::vector<Tok> bpe(const Mod &m, const std::map<std::string, int> &v, const U &w, const BpeIdx *idx) {
  std::vector<Tok> sy;
  int n = w.size();
  BpeIdx own;
  if (!idx) { own = bpe_index(m, v); idx = &own; }
  const auto &rev = idx->rev; const auto &mg = idx->mg;
  if (m.ignore) { auto it = v.find(to8(w)); if (it != v.end()) return {{it->second, it->first, 0, n}}; }
  bool prev_unk = false;
  for (int i = 0; i < n; i++) {
    std::string s = to8(w[i]);
    if (i > 0) s = m.prefix.value_or("") + s;
    if (i == n - 1) s += m.suffix.value_or("");
    auto it = v.find(s);
    if (it != v.end()) { sy.push_back({it->second, it->first, i, i + 1}); prev_unk = false; continue; }
    if (m.fallback) {
      std::vector<Tok> bs;
      for (unsigned char b : to8(w[i])) { char code[8]; snprintf(code, 8, "<0x%02X>", b); auto q = v.find(code); if (q == v.end()) { bs.clear(); break; } bs.push_back({q->second, q->first, i, i + 1}); }
      if (!bs.empty()) { sy.insert(sy.end(), bs.begin(), bs.end()); prev_unk = false; continue; }
    }
    if (m.unk && !m.unk->empty()) {
      auto q = v.find(*m.unk);
      if (q == v.end()) continue;
      if (prev_unk && m.fuse) sy.back().e = i + 1;
      else sy.push_back({q->second, q->first, i, i + 1});
      prev_unk = true;
    }
  }
  if (m.dropout < 1 && sy.size() > 300) {  // the same rule with an ordered queue; C08 compares the two
    int k = sy.size();
    std::vector<int> next(k), prev(k);
    std::set<std::array<int, 3>> q;  // rank, left position, merged id
    auto offer = [&](int i) { if (i < 0 || next[i] >= k) return; auto f = mg.find({sy[i].id, sy[next[i]].id}); if (f != mg.end()) q.insert({f->second.first, i, f->second.second}); };
    auto drop = [&](int i) { if (i < 0 || next[i] >= k) return; auto f = mg.find({sy[i].id, sy[next[i]].id}); if (f != mg.end()) q.erase({f->second.first, i, f->second.second}); };
    for (int i = 0; i < k; i++) next[i] = i + 1, prev[i] = i - 1;
    for (int i = 0; i < k; i++) offer(i);
    std::vector<char> gone(k, 0);
    while (!q.empty()) {
      auto [rank, i, id] = *q.begin();
      int j = next[i];
      drop(prev[i]); drop(j); drop(i);
      sy[i].e = sy[j].e; sy[i].id = id; gone[j] = 1; next[i] = next[j];
      if (next[i] < k) prev[next[i]] = i;
      offer(prev[i]); offer(i);
    }
    std::vector<Tok> out;
    for (int i = 0; i < k; i++) if (!gone[i]) out.push_back(sy[i]);
    sy = out;
  } else if (m.dropout < 1) {
    for (;;) {
      int at = -1, rank = 1 << 30, id = 0;
      for (size_t i = 0; i + 1 < sy.size(); i++) {
        auto q = mg.find({sy[i].id, sy[i + 1].id});
        if (q != mg.end() && q->second.first < rank) { at = i; rank = q->second.first; id = q->second.second; }
      }
      if (at < 0) break;
      sy[at].e = sy[at + 1].e; sy[at].id = id; 
      sy.erase(sy.begin() + at + 1);
    }
  }
  for (auto &t : sy) t.v = rev.at(t.id);
  return sy;
}

// ---------------- encoding stages ----------------
std::string show(const Enc &e) {
  std::string r = "{";
  auto I = [&](const char *n, const std::vector<int> &v) { r += n; r += "["; for (int x : v) r += std::to_string(x) + ","; r += "] "; };
  I("ids", e.ids); I("type", e.type_ids);
  r += "tokens["; for (auto &t : e.tokens) r += "'" + t + "',"; r += "] words[";
  for (auto &w : e.words) r += w ? std::to_string(*w) + "," : "-,";
  r += "] offsets["; for (auto &o : e.offsets) r += "(" + std::to_string(o.first) + "," + std::to_string(o.second) + ")";
  r += "] "; I("special", e.special); I("att", e.attention);
  if (!e.over.empty()) { r += "over["; for (auto &o : e.over) r += show(o); r += "]"; }
  return r + "}";
}
template <class T> static std::vector<T> sl(const std::vector<T> &v, int a, int b) { return std::vector<T>(v.begin() + a, v.begin() + b); }
static Enc slice(const Enc &e, int a, int b) {
  Enc r; r.ids = sl(e.ids, a, b); r.type_ids = sl(e.type_ids, a, b); r.tokens = sl(e.tokens, a, b); r.words = sl(e.words, a, b);
  r.offsets = sl(e.offsets, a, b); r.special = sl(e.special, a, b); r.attention = sl(e.attention, a, b); return r;
}
Enc truncate(const Enc &e, int max, int stride, bool left, bool &error) {
  int n = e.ids.size();
  error = false;
  if (n <= max) return e;
  if (max == 0) { Enc r; Enc o = e; o.over.clear(); r.over.push_back(o); return r; }
  if (stride >= max) { error = true; return e; }
  std::vector<R> w;
  if (!left) { for (int s = 0;; s += max - stride) { int t = std::min(s + max, n); w.push_back({s, t}); if (t == n) break; } }
  else { for (int t = n;; t -= max - stride) { int s = std::max(t - max, 0); w.push_back({s, t}); if (s == 0) break; } }
  Enc r = slice(e, w[0].first, w[0].second);
  for (size_t i = 1; i < w.size(); i++) r.over.push_back(slice(e, w[i].first, w[i].second));
  return r;
}
static Enc tmpl(const Post &p, const Enc &e, bool add) {
  Enc r;
  for (auto &x : p.single) {
    if (!x.special) {
      for (size_t i = 0; i < e.ids.size(); i++) {
        r.ids.push_back(e.ids[i]); r.type_ids.push_back(x.id == "A" ? x.type_id : e.type_ids[i]); r.tokens.push_back(e.tokens[i]); r.words.push_back(e.words[i]);
        r.offsets.push_back(e.offsets[i]); r.special.push_back(e.special[i]); r.attention.push_back(e.attention[i]);
      }
    } else if (add) {
      for (auto &s : p.specials) if (s.id == x.id) {
        for (size_t i = 0; i < s.ids.size(); i++) {
          r.ids.push_back(s.ids[i]); r.type_ids.push_back(x.type_id); r.tokens.push_back(s.tokens[i]); r.words.push_back(std::nullopt);
          r.offsets.push_back({0, 0}); r.special.push_back(1); r.attention.push_back(1);
        }
        break;
      }
    }
  }
  for (auto &o : e.over) r.over.push_back(tmpl(p, o, add));
  return r;
}
static Enc trim(const Post &p, Enc e) {
  char32_t G = byte_symbols()[' '];
  for (size_t i = 0; i < e.ids.size(); i++) {
    U t = from8(e.tokens[i]);
    int l = 0, n = t.size(), q = 0;
    while (l < n && t[l] == G) l++;
    while (q < n && t[n - 1 - q] == G) q++;
    R &o = e.offsets[i];
    if (l == 1 && p.prefix_space && (i == 0 || o.first == 0)) l = 0;
    if (l) o.first = std::min(o.first + l, o.second);
    if (q && o.second >= q) o.second = std::max(o.second - q, o.first);
  }
  for (auto &o : e.over) o = trim(p, o);
  return e;
}
Enc post(const Post &p, const Enc &e, bool add) {
  if (p.type == "Sequence") { Enc r = e; for (auto &x : p.seq) r = post(x, r, add); return r; }
  if (p.type == "TemplateProcessing") return tmpl(p, e, add);
  if (p.type == "ByteLevel") return p.trim ? trim(p, e) : e;
  return e;
}
static Enc padto(const Pad &p, Enc e, int target) {
  for (auto &o : e.over) o = padto(p, o, target);
  int k = target - (int)e.ids.size();
  if (k <= 0) return e;
  bool left = p.dir == "Left";
  auto put = [&](auto &v, auto x) { v.insert(left ? v.begin() : v.end(), k, x); };
  put(e.ids, p.id); put(e.type_ids, p.type); put(e.tokens, p.tok); put(e.words, std::optional<int>(0)); put(e.offsets, R{0, 0}); put(e.special, 1); put(e.attention, 0);
  return e;
}
Enc pad(const Pad &p, const Enc &e) {
  int t = p.fixed >= 0 ? p.fixed : (int)e.ids.size();
  if (p.mult > 0) t = (t + p.mult - 1) / p.mult * p.mult;
  return padto(p, e, t);
}

// ---------------- decoders ----------------
static std::string rep(const std::string &s, const std::string &f, const std::string &t) {
  if (f.empty()) return s;
  std::string r;
  for (size_t i = 0; i < s.size();) if (s.compare(i, f.size(), f) == 0) { r += t; i += f.size(); } else r += s[i++];
  return r;
}
static bool valid8(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i]; int n = c < 0x80 ? 1 : (c >= 0xC2 && c < 0xE0) ? 2 : (c >= 0xE0 && c < 0xF0) ? 3 : (c >= 0xF0 && c < 0xF5) ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    for (int k = 1; k < n; k++) if ((s[i + k] & 0xC0) != 0x80) return false;
    unsigned char d = n > 1 ? s[i + 1] : 0;
    if ((c == 0xE0 && d < 0xA0) || (c == 0xED && d > 0x9F) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d > 0x8F)) return false;
    i += n;
  }
  return true;
}
std::vector<std::string> dec_chain(const Dec &d, std::vector<std::string> t) {
  if (d.type.empty()) return t;
  std::vector<std::string> r;
  if (d.type == "Sequence") { for (auto &x : d.seq) t = dec_chain(x, t); return t; }
  if (d.type == "WordPiece") {
    for (size_t i = 0; i < t.size(); i++) {
      std::string s = t[i];
      if (i) { if (s.compare(0, d.prefix.size(), d.prefix) == 0) s = s.substr(d.prefix.size()); else s = " " + s; }
      if (d.cleanup) {
        static const char *c[][2] = {{" .", "."}, {" ?", "?"}, {" !", "!"}, {" ,", ","}, {" ' ", "'"}, {" n't", "n't"}, {" 'm", "'m"}, {" do not", " don't"}, {" 's", "'s"}, {" 've", "'ve"}, {" 're", "'re"}};
        for (auto &x : c) s = rep(s, x[0], x[1]);
      }
      r.push_back(s);
    }
    return r;
  }
  if (d.type == "ByteLevel") {
    std::string o;
    for (auto &s : t) {
      std::string bytes; bool ok = true;
      for (char32_t c : from8(s)) { int b = -1; for (int k = 0; k < 256; k++) if (byte_symbols()[k] == c) b = k; if (b < 0) { ok = false; break; } bytes += (char)b; }
      o += ok ? bytes : s;
    }
    return {o};
  }
  if (d.type == "Replace") { for (auto &s : t) r.push_back(rep(s, d.a, d.b)); return r; }
  if (d.type == "Fuse") { std::string o; for (auto &s : t) o += s; return {o}; }
  if (d.type == "Strip") {
    char32_t c = d.a.empty() ? 0xFFFFFFFF : from8(d.a)[0];
    for (auto &s : t) {
      U u = from8(s); int b = 0, e = u.size(), n = u.size();
      while (b < n && b < d.start && u[b] == c) b++;
      while (e > 0 && n - e < d.stop && u[e - 1] == c) e--;
      r.push_back(b < e ? to8(u.substr(b, e - b)) : "");
    }
    return r;
  }
  if (d.type == "ByteFallback") {
    std::string buf;
    auto flush = [&] { if (buf.empty()) return; if (valid8(buf)) r.push_back(buf); else for (size_t i = 0; i < buf.size(); i++) r.push_back("\xEF\xBF\xBD"); buf.clear(); };
    for (auto &s : t) {
      if (s.size() == 6 && s.compare(0, 3, "<0x") == 0 && s[5] == '>' && isxdigit((unsigned char)s[3]) && isxdigit((unsigned char)s[4])) buf += (char)strtol(s.substr(3, 2).c_str(), 0, 16);
      else { flush(); r.push_back(s); }
    }
    flush();
    return r;
  }
  throw std::logic_error("decoder " + d.type);
}

// ---------------- tokenizer ----------------
Ref::Ref(const Cfg &cc) : c(cc) {
  static long n = 0; c.uid = ++n;
  for (auto &x : c.mod.vocab) if (!c.mod.type.empty()) { vocab.insert(x); }
  for (auto &x : vocab) rev[x.second] = x.first;
  bidx = bpe_index(c.mod, vocab);
  add(c.added);
}
std::optional<int> Ref::id_of(const std::string &s) const {
  auto a = amap.find(s); if (a != amap.end()) return a->second;
  auto b = vocab.find(s); if (b != vocab.end()) return b->second;
  return std::nullopt;
}
int Ref::add(const std::vector<Added> &ts) {
  for (auto &t : ts) if (t.special && !t.content.empty()) {
    bool k = false; for (auto &s : specials) if (s.content == t.content) k = true;
    if (!k) specials.push_back(t);
  }
  int n = 0;
  for (auto &t : ts) {
    if (t.content.empty()) continue;
    n++;
    int id;
    if (auto q = id_of(t.content)) id = *q;
    else {
      int mx = -1; for (auto &x : amap) mx = std::max(mx, x.second);
      id = std::max(mx + 1, (int)vocab.size());
    }
    amap[t.content] = id; arev[id] = t;
    bool k = false; for (auto &s : specials) if (s.content == t.content) k = true;
    if (!k) plain.push_back(t);
  }
  refresh();
  return n;
}
void Ref::refresh() {
  raw_set.clear(); norm_set.clear();
  for (auto *l : {&specials, &plain}) for (auto &t : *l) {
    int id = amap.at(t.content);
    U u = from8(t.content);
    if (t.norm) { u = normalize(c.norm, ns(u)).t; if (!u.empty()) norm_set.push_back({u, id}); }
    else raw_set.push_back({u, id});
  }
}
std::vector<std::pair<std::optional<int>, R>> Ref::match(const U &u, const std::vector<std::pair<U, int>> &set) const {
  std::vector<std::pair<std::optional<int>, R>> r;
  int n = u.size(), done = 0, i = 0;
  std::map<char32_t, std::vector<std::pair<U, int>>> by;
  for (auto &t : set) by[t.first[0]].push_back(t);
  while (i < n) {
    int len = 0, id = 0;
    auto b = by.find(u[i]);
    if (b != by.end()) for (auto &t : b->second) if ((int)t.first.size() > len && u.compare(i, t.first.size(), t.first) == 0) { len = t.first.size(); id = t.second; }
    if (!len) { i++; continue; }
    int s = i, e = i + len;
    const Added &a = arev.at(id);
    i = e;
    if (a.single && ((s > 0 && is_word(u[s - 1])) || (e < n && is_word(u[e])))) continue;
    if (a.l) while (s > done && is_white(u[s - 1])) s--;
    if (a.r) while (e < n && is_white(u[e])) e++;
    if (done < s) r.push_back({std::nullopt, {done, s}});
    r.push_back({id, {s, e}});
    done = e; i = e;
  }
  if (done < n) r.push_back({std::nullopt, {done, n}});
  return r;
}
std::vector<Piece> Ref::pieces(const U &u) const {
  NS all = ns(u);
  auto sub = [](const NS &n, R r) { NS x; x.t = n.t.substr(r.first, r.second - r.first); x.al.assign(n.al.begin() + r.first, n.al.begin() + r.second); return x; };
  std::vector<Piece> out;
  int pos = 0;
  auto emit = [&](const NS &n, std::optional<int> id) {
    Piece p; p.n = n; p.pos = pos; pos += n.t.size();
    if (id) p.toks.push_back({*id, to8(n.t), 0, (int)n.t.size()});
    out.push_back(p);
  };
  for (auto &m : match(u, raw_set)) {
    NS part = sub(all, m.second);
    if (m.first) { emit(part, m.first); continue; }
    part = normalize(c.norm, part);
    for (auto &k : match(part.t, norm_set)) emit(sub(part, k.second), k.first);
  }
  return pretok(c.pre, out);
}
Enc Ref::encode(const U &u, bool add_special, bool &error) const {
  error = false;
  std::vector<Piece> ps = pieces(u);
  Enc e;
  for (size_t w = 0; w < ps.size(); w++) {
    Piece &p = ps[w];
    if (p.toks.empty() && !c.mod.type.empty()) p.toks = c.mod.type == "WordPiece" ? wordpiece(c.mod, vocab, p.n.t) : bpe(c.mod, vocab, p.n.t, &bidx);
    for (auto &t : p.toks) {
      e.ids.push_back(t.id); e.type_ids.push_back(0); e.tokens.push_back(t.v); e.words.push_back((int)w);
      e.offsets.push_back({p.n.al[t.s].first, p.n.al[t.e - 1].second}); e.special.push_back(0); e.attention.push_back(1);
    }
  }
  if (c.trunc.on) {
    int budget = c.trunc.max;
    if (add_special) budget = std::max(0, budget - (int)post(c.post, Enc(), true).ids.size());
    e = truncate(e, budget, c.trunc.stride, c.trunc.dir == "Left", error);
    if (error) return e;
  }
  e = post(c.post, e, add_special);
  if (c.pad.on) e = pad(c.pad, e);
  return e;
}
std::string Ref::decode(const std::vector<int> &ids, bool skip) const {
  std::vector<std::string> t;
  for (int i : ids) {
    std::string s;
    auto a = arev.find(i);
    if (a != arev.end()) s = a->second.content;
    else { auto b = rev.find(i); if (b == rev.end()) continue; s = b->second; }
    if (skip) { bool sp = false; for (auto &x : specials) if (x.content == s) { sp = true; break; } if (sp) continue; }
    t.push_back(s);
  }
  std::string r;
  if (c.dec.type.empty()) { for (size_t i = 0; i < t.size(); i++) r += (i ? " " : "") + t[i]; return r; }
  for (auto &s : dec_chain(c.dec, t)) r += s;
  return r;
}
}  // namespace ref
