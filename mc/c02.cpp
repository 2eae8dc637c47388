// C02: offsets point at exactly the source characters of each token.
#include "scale.h"
using namespace ref;
static std::string bounds(const Enc &e, int n, const std::string &at) {
  for (auto &o : e.offsets) if (o.first < 0 || o.second < o.first || o.second > n) return at + ": offset (" + std::to_string(o.first) + "," + std::to_string(o.second) + ") outside the input of " + std::to_string(n) + " characters";
  for (size_t i = 0; i < e.over.size(); i++) { auto d = bounds(e.over[i], n, at + ".over"); if (!d.empty()) return d; }
  return "";
}
static bool same_tokens(const Enc &a, const Enc &b) {
  if (a.ids != b.ids || a.tokens != b.tokens || a.over.size() != b.over.size() || a.offsets.size() != b.offsets.size()) return false;
  for (size_t i = 0; i < a.over.size(); i++) if (!same_tokens(a.over[i], b.over[i])) return false;
  return true;
}
static std::string cmp(const Enc &w, const Enc &g, const std::string &at) {
  if (w.offsets != g.offsets) return at + ": offsets differ\n expected " + show(w) + "\n got " + show(g);
  for (size_t i = 0; i < w.over.size(); i++) { auto d = cmp(w.over[i], g.over[i], at + ".over[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
  return "";
}
int main(int argc, char **argv) {
  auto j = [](const Cfg &, const U &u, bool, const Enc &w, bool rej, const impl::Out &g) -> std::string {
    if (rej || g.threw) return "";   // C26, C22
    std::string d = bounds(g.enc, u.size(), "main");
    if (!d.empty()) return d;
    if (!same_tokens(w, g.enc)) return "";  // other tokens than specified: C26
    return cmp(w, g.enc, "main");
  };
  auto f = explore::families(j);
  auto k = mc::thorough() ? 8 : 1;
  using namespace scale;
  append(f, families({text_length(2001 * k), added_count(300 * k), added_length(300 * k), contents(300 * k), marks(1025 * k), spaces(513 * k)}, j));
  return mc::main_(argc, argv, "C02", f, "the encoding has at least one token");
}
