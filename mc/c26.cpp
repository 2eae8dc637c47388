// C26: encode equals the composition of the configured stages.
#include "scale.h"
int main(int argc, char **argv) {
  auto j = [](const ref::Cfg &, const ref::U &, bool, const ref::Enc &w, bool rej, const impl::Out &g) -> std::string {
    if (rej) return g.threw ? "" : "parameters that cannot be honoured were accepted";
    if (g.threw) return "threw " + g.what;
    return impl::first_diff(w, g.enc, false);
  };
  auto f = explore::families(j);
  auto k = mc::thorough() ? 8 : 1;
  using namespace scale;
  append(f, families({text_length(2001 * k), distinct_words(10001 * k), many_words(66000 * k), added_count(300 * k), added_length(129 * k), padding(300 * k), templates(129 * k), windows(130 * k), members(129 * k), contents(129 * k), vocabulary(5000 * k, "BPE"), vocabulary(5000 * k, "WordPiece")}, full));
  return mc::main_(argc, argv, "C26", f, "the encoding has at least one token");
}
