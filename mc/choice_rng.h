// Compiled in front of the library's sources by C27: every source of randomness the library could use asks the checker.
#pragma once
#include <cstdint>
#include <random>
#include <type_traits>
namespace mcrng { uint32_t draw(); }
namespace std {
class mc_engine {
 public:
  typedef uint32_t result_type;
  static constexpr result_type default_seed = 1;
  mc_engine() {}
  explicit mc_engine(result_type) {}
  template <class S, class = typename enable_if<!is_convertible<S, result_type>::value && !is_same<typename decay<S>::type, mc_engine>::value>::type> explicit mc_engine(S &) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xFFFFFFFFu; }
  result_type operator()() { return mcrng::draw(); }
  void discard(unsigned long long) {}
  void seed() {}
  template <class S> void seed(S &&) {}
};
class mc_device {
 public:
  typedef uint32_t result_type;
  mc_device() {}
  template <class S> explicit mc_device(const S &) {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return 0xFFFFFFFFu; }
  result_type operator()() { return 1; }   // only ever a seed
  double entropy() const { return 0; }
};
// distributions: one draw per value, whatever the width of the result
namespace mcdist {
template <class T> T unit() { double u = mcrng::draw() / 4294967296.0; T r = (T)u; return r < T(1) ? r : T(0.99999994); }
}
template <class T = double> class mc_uniform_real {
  T lo, hi;
 public:
  typedef T result_type;
  struct param_type { T lo, hi; param_type(T a = 0, T b = 1) : lo(a), hi(b) {} };
  explicit mc_uniform_real(T a = 0, T b = 1) : lo(a), hi(b) {}
  explicit mc_uniform_real(const param_type &p) : lo(p.lo), hi(p.hi) {}
  template <class G> T operator()(G &) { return lo + (hi - lo) * mcdist::unit<T>(); }
  template <class G> T operator()(G &, const param_type &p) { return p.lo + (p.hi - p.lo) * mcdist::unit<T>(); }
  void reset() {}
  T a() const { return lo; }
  T b() const { return hi; }
  T min() const { return lo; }
  T max() const { return hi; }
};
class mc_bernoulli {
  double pr;
 public:
  typedef bool result_type;
  explicit mc_bernoulli(double p = 0.5) : pr(p) {}
  template <class G> bool operator()(G &) { return mcdist::unit<double>() < pr; }
  void reset() {}
  double p() const { return pr; }
};
template <class T, size_t B, class G> T mc_canonical(G &) { return mcdist::unit<T>(); }
}  // namespace std
#define uniform_real_distribution mc_uniform_real
#define bernoulli_distribution mc_bernoulli
#define generate_canonical mc_canonical
#define default_random_engine mc_engine
#define minstd_rand0 mc_engine
#define minstd_rand mc_engine
#define mt19937 mc_engine
#define mt19937_64 mc_engine
#define ranlux24 mc_engine
#define ranlux48 mc_engine
#define knuth_b mc_engine
#define random_device mc_device
