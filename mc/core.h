// Exhaustive-enumeration core: families of deterministic, indexed cases explored by forked workers.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Ctx {
  bool failed = false;
  std::string msg;            // first disagreement
  uint64_t transitions = 0;   // steps of the implementation executed / compared
  uint64_t impl_traces = 0;   // traces replayed on the implementation and compared with the model
  uint64_t nontrivial = 0;    // cases that are non-trivial by the property's rule
  std::vector<uint64_t> outcomes;  // hashes of observed outcomes / model states
  void fail(const std::string &m) { if (!failed) { failed = true; msg = m; } }
  void state(const std::string &s);   // record an observed/model state (deduplicated by 64-bit hash)
};

struct Family {
  std::string name;
  uint64_t count = 0;
  std::function<void(uint64_t, Ctx &)> run;            // must be deterministic
  std::function<std::string(uint64_t)> describe;       // human readable case
  uint64_t chunk = 0;                                  // 0 = automatic
  int limit_s = 20;                                    // per-case wall limit before re-running alone
  std::string bound;                                   // text for the evidence
};

bool thorough();
uint64_t hash_str(const std::string &s);
int main_(int argc, char **argv, const std::string &property, std::vector<Family> fams,
          const std::string &rule);

// enumeration helpers
// number of strings of length 0..maxlen over an alphabet of size k
uint64_t n_strings(uint64_t k, int maxlen);
// idx-th string (as letter indexes), shortest first
std::vector<int> nth_string(uint64_t k, uint64_t idx);
// mixed radix
struct Mix {
  std::vector<uint64_t> radix;
  uint64_t total() const { uint64_t t = 1; for (auto r : radix) t *= r; return t; }
  std::vector<uint64_t> at(uint64_t i) const {
    std::vector<uint64_t> r(radix.size());
    for (size_t k = radix.size(); k-- > 0;) { r[k] = i % radix[k]; i /= radix[k]; }
    return r;
  }
};
std::string esc(const std::string &s);
std::string esc(const std::u32string &s);
}  // namespace mc
