// Encodings whose every position is distinguishable in every field.
#pragma once
#include "fam.h"
namespace encs {
inline ref::Enc make(int n, int salt = 0) {
  ref::Enc e;
  for (int i = 0; i < n; i++) {
    int k = i + salt * 100;
    e.ids.push_back(1000 + k * 3); e.type_ids.push_back((k * 5) % 3); e.tokens.push_back("t" + std::to_string(k));
    e.words.push_back(k % 4 == 3 ? std::optional<int>() : std::optional<int>(k / 2)); e.offsets.push_back({k * 2, k * 2 + 1 + k % 2});
    e.special.push_back(k % 4 == 3); e.attention.push_back(k % 5 != 4);
  }
  return e;
}
// main of length n[0] with overflowing windows of lengths n[1..]; nested: the second window hangs below the first
inline ref::Enc tree(const std::vector<int> &n, bool nested = false) {
  ref::Enc e = make(n.empty() ? 0 : n[0]);
  for (size_t i = 1; i < n.size(); i++) (nested && i > 1 ? e.over[0].over : e.over).push_back(make(n[i], i));
  return e;
}
template <class F>
impl::Out call(F f) {
  impl::Out o;
  try { o.enc = impl::from(f()); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
  return o;
}
}  // namespace encs
