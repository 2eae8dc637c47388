// C31: text conversion between UTF-8 and characters is exact for valid text and never invents characters.
#include "scale.h"
#include "fam.h"
using namespace ref;

// what a byte string means: the characters, and whether it is well-formed; for malformed text the well-formed beginning
static bool parse(const std::string &b, std::wstring &w) {
  size_t i = 0; w.clear();
  while (i < b.size()) {
    unsigned char c = b[i]; int n; unsigned v, lo;
    if (c < 0x80) { n = 0; v = c; lo = 0; } else if (c >= 0xC2 && c < 0xE0) { n = 1; v = c & 31; lo = 0x80; } else if (c >= 0xE0 && c < 0xF0) { n = 2; v = c & 15; lo = 0x800; } else if (c >= 0xF0 && c < 0xF5) { n = 3; v = c & 7; lo = 0x10000; } else return false;
    if (i + n >= b.size()) return false;
    for (int k = 1; k <= n; k++) { unsigned char d = b[i + k]; if ((d & 0xC0) != 0x80) return false; v = v << 6 | (d & 63); }
    if (v < lo || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false;
    w += (wchar_t)v; i += n + 1;
  }
  return true;
}
static std::string hex(const std::string &b) { std::string r; for (unsigned char c : b) { char t[4]; snprintf(t, 4, "%02X ", c); r += t; } return r; }
static std::string hexw(const std::wstring &b) { std::string r; for (wchar_t c : b) { char t[12]; snprintf(t, 12, "%X ", (unsigned)c); r += t; } return r; }
static std::string bytes(const std::string &b, mc::Ctx &x) {
  std::wstring want, got; bool ok = parse(b, want), threw = false;
  x.impl_traces++; x.transitions++; x.nontrivial += !b.empty() && (unsigned char)b[0] >= 0x80;
  try { got = convert_from_string(b); } catch (const std::exception &) { threw = true; }
  if (b.size() < 4) x.state(hexw(want) + (ok ? "ok" : "malformed"));
  if (ok) {
    if (threw) return "valid text " + hex(b) + "threw";
    if (got != want) return "valid text " + hex(b) + "gives characters " + hexw(got) + "instead of " + hexw(want);
    x.transitions++;
    std::string back; try { back = convert_to_string(got); } catch (const std::exception &e) { return "characters " + hexw(got) + "do not convert back"; }
    if (back != b) return "characters " + hexw(got) + "convert to " + hex(back) + "instead of " + hex(b);
    return "";
  }
  if (threw) return "";
  if (got != want.substr(0, got.size()) || got.size() > want.size()) return "malformed text " + hex(b) + "gives characters " + hexw(got) + "which are not its well-formed beginning";
  return "";
}
static std::string chars(const std::wstring &w, mc::Ctx &x) {
  bool ok = true; for (wchar_t c : w) ok &= (unsigned)c < 0x110000 && !((unsigned)c >= 0xD800 && (unsigned)c < 0xE000);
  x.impl_traces++; x.transitions++; x.nontrivial += !ok;
  std::string b; bool threw = false; try { b = convert_to_string(w); } catch (const std::exception &) { threw = true; }
  if (threw) return ok ? "characters " + hexw(w) + "threw" : "";
  std::wstring back; bool valid = parse(b, back);
  if (ok && (!valid || back != w)) return "characters " + hexw(w) + "give bytes " + hex(b);
  if (!ok && (valid ? back.size() > w.size() || back != w.substr(0, back.size()) : true)) return "invalid characters " + hexw(w) + "give bytes " + hex(b);
  return "";
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  auto blk = [&](const std::string &n, uint64_t c, uint64_t b, std::function<std::string(uint64_t, mc::Ctx &)> it, std::function<std::string(uint64_t)> d, const std::string &bound) { f.push_back(fam::blocks(n, c, b, it, d, bound)); };
  auto str = [](uint64_t i) { std::string s; for (int k : mc::nth_string(256, i)) s += (char)k; return s; };
  uint64_t n3 = mc::n_strings(256, T ? 3 : 2);
  blk("bytes", n3, 4096, [=](uint64_t i, mc::Ctx &x) { return bytes(str(i), x); }, [=](uint64_t i) { return hex(str(i)); }, T ? "every byte string of at most 3 bytes" : "every byte string of at most 2 bytes");
  // one byte per role in UTF-8
  static const std::string role("\x00\x41\x7F\x80\x8F\x90\x9F\xA0\xBF\xC0\xC1\xC2\xDF\xE0\xE1\xEC\xED\xEE\xEF\xF0\xF1\xF3\xF4\xF5\xFF", 25);
  auto rs = [](uint64_t i) { std::string s; for (int k : mc::nth_string(role.size(), i)) s += role[k]; return s; };
  blk("byte-roles", mc::n_strings(role.size(), T ? 5 : 4), 1024, [=](uint64_t i, mc::Ctx &x) { return bytes(rs(i), x); }, [=](uint64_t i) { return hex(rs(i)); }, "every string of at most " + std::string(T ? "5" : "4") + " bytes over 25 bytes, the borders of every role in UTF-8");
  blk("scalar-values", 0x110000 + 64, 4096, [](uint64_t i, mc::Ctx &x) -> std::string {
    unsigned c = i < 0x110000 ? i : i < 0x110020 ? i : 0x80000000u + (i - 0x110020) * 0x3FFFFFF;
    std::wstring s(1, (wchar_t)c); auto d = chars(s, x); if (!d.empty()) return d;
    d = chars(L"a" + s + L"\u4E2D" + s, x); if (!d.empty()) return d;
    if (c < 0x110000 && !(c >= 0xD800 && c < 0xE000)) { std::string b = to8((char32_t)c); d = bytes(b, x); if (d.empty()) d = bytes("a" + b + b + "\xC3\xA9", x); for (size_t k = 1; k < b.size() && d.empty(); k++) { d = bytes(b.substr(0, k), x); if (d.empty()) d = bytes(b.substr(k), x); if (d.empty()) d = bytes(b.substr(0, k) + "a", x); } }
    return d;
  }, [](uint64_t i) { return fam::cp((char32_t)i); }, "every value below 0x110020 and samples up to 0xFFFFFFFF, alone and in context, cut after every byte");
  static const std::vector<unsigned> cu = {0, 'a', 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF};
  auto ws = [](uint64_t i) { std::wstring s; for (int k : mc::nth_string(cu.size(), i)) s += (wchar_t)cu[k]; return s; };
  blk("characters", mc::n_strings(cu.size(), T ? 5 : 4), 1024, [=](uint64_t i, mc::Ctx &x) { return chars(ws(i), x); }, [=](uint64_t i) { return hexw(ws(i)); }, "every sequence of at most " + std::string(T ? "5" : "4") + " of 16 boundary values");
  // texts of every ladder length: runs, and one wide character at the end and in the middle of narrow ones (borders of any block size)
  static const std::vector<int> len = scale::ladder(T ? 1050000 : 131073);
  static const U ch = U"a\u00E9\u4E2D\U0001F600";
  mc::Mix mix{{len.size(), ch.size(), ch.size(), 2}};
  blk("long", mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
    auto v = mix.at(i); int n = len[v[0]]; if (!n) return "";
    U u(n, ch[v[1]]); if (v[3]) { u.back() = ch[v[2]]; u += U"zz"; } else for (int p = 1; p <= n; p *= 2) for (int d = -1; d < 2; d++) if (p + d >= 0 && p + d < n) u[p + d] = ch[v[2]];
    auto d = bytes(to8(u), x); if (d.empty()) d = chars(toW(u), x);
    if (d.empty() && n < 5000) { std::string b = to8(u); for (int k = 1; k < 8 && k < (int)b.size() && d.empty(); k++) d = bytes(b.substr(0, b.size() - k), x); b[b.size() / 2] = (char)0xFF; if (d.empty()) d = bytes(b, x); }
    return d.substr(0, 500); },
      [=](uint64_t i) { auto v = mix.at(i); return std::to_string(len[v[0]]) + " x " + fam::cp(ch[v[1]]) + " with " + fam::cp(ch[v[2]]); }, "runs of every length of the ladder up to " + std::to_string(len.back()) + " of characters of one to four bytes with one of another width at the end or around every power of two; short ones also cut and damaged");
  return mc::main_(argc, argv, "C31", f, "the first byte is not ASCII / the characters are not valid");
}
