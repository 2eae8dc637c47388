// Shorthand for families whose cases are explored in blocks.
#pragma once
#include <functional>
#include <string>
#include "cfgs.h"
#include "impl.h"

namespace fam {
using ref::U;
// item(i) returns "" or the disagreement; desc(i) names the item
inline mc::Family blocks(const std::string &name, uint64_t n, uint64_t block, std::function<std::string(uint64_t, mc::Ctx &)> item, std::function<std::string(uint64_t)> desc, const std::string &bound, int limit_s = 20) {
  mc::Family f;
  f.name = name; f.count = (n + block - 1) / block; f.bound = bound + " (" + std::to_string(n) + " in blocks of " + std::to_string(block) + ")"; f.limit_s = limit_s;
  f.run = [=](uint64_t b, mc::Ctx &x) {
    for (uint64_t i = b * block; i < std::min(n, (b + 1) * block) && !x.failed; i++) { std::string d = item(i, x); if (!d.empty()) x.fail(desc(i) + ": " + d); }
  };
  f.describe = [=](uint64_t b) { return (block > 1 ? std::to_string(block) + " cases from: " : std::string()) + desc(b * block); };
  return f;
}
// every Unicode scalar value, or (quick) all of them outside the large uniform blocks, whose borders and every 64th member are kept
inline std::vector<char32_t> sweep(bool all) {
  std::vector<char32_t> r;
  auto big = [](char32_t c) {
    static const char32_t b[][2] = {{0x3400, 0x4DBF}, {0x4E00, 0x9FFF}, {0xAC00, 0xD7A3}, {0xE000, 0xF8FF}, {0x12000, 0x1247F}, {0x13000, 0x1345F}, {0x14400, 0x1467F}, {0x16800, 0x16A3F}, {0x17000, 0x18CFF}, {0x18D09, 0x1AFEF}, {0x1B123, 0x1BBFF}, {0x20000, 0x10FFFF}};
    for (auto &x : b) if (c > x[0] + 1 && c + 1 < x[1]) return true;
    return false;
  };
  static const char32_t edge[] = {0x20000, 0x2A6DF, 0x2A700, 0x2B73F, 0x2B740, 0x2B81D, 0x2B820, 0x2B920, 0x2CEA1, 0x2CEAF, 0x2CEB0, 0x2EBE0, 0x2F800, 0x2FA1D, 0x2FA1F, 0x30000, 0x3134A, 0xE0001, 0xE0020, 0xE007F, 0xE0100, 0xE01EF, 0xF0000, 0x10FFFD};
  for (char32_t c = 0; c < 0x110000; c++) {
    if (c >= 0xD800 && c < 0xE000) continue;
    if (all || !big(c) || (c < 0x20000 ? c % 64 == 5 : c % 4096 == 5)) { r.push_back(c); continue; }
    for (char32_t e : edge) if (c + 2 > e && c < e + 2) { r.push_back(c); break; }
  }
  return r;
}
inline std::string cp(char32_t c) { char b[16]; snprintf(b, 16, "U+%04X", (unsigned)c); return b; }
}  // namespace fam
