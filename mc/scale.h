// Large instances: every dimension of a configuration or text, taken through a ladder of sizes around all powers of two,
// compared with the reference model.
#pragma once
#include "explore.h"

namespace scale {
using ref::Cfg;
using ref::U;
std::vector<int> ladder(int max);      // 0..9, then every power of two and of ten up to max with its neighbours
struct Item { std::string name; std::function<Cfg()> cfg; std::function<std::vector<U>(const Cfg &)> texts; bool decode = false; };
struct Dim { std::string name, bound; std::vector<Item> items; int block = 4; };
Dim text_length(int max, const std::string &only = ""), distinct_words(int max), many_words(int max), added_count(int max), added_length(int max), vocabulary(int max, const std::string &model), ids(const std::string &model), merges(int max), entry_length(int max, const std::string &model),
    word_length(int max, const std::string &model), windows(int max), padding(int max), templates(int max), members(int max), contents(int max), spaces(int max), marks(int max);
U kind_text(int kind, int n, const cfgs::Named &);
std::vector<mc::Family> families(std::vector<Dim> dims, explore::Judge j);
std::string full(const Cfg &, const U &, bool, const ref::Enc &w, bool rej, const impl::Out &g);  // everything equal
std::string brief(const std::string &);
template <class V> void append(std::vector<mc::Family> &f, V v) { f.insert(f.end(), v.begin(), v.end()); }
}  // namespace scale
