// C15: truncation keeps every token in correctly sized, overlapping windows.
#include <set>
#include "encs.h"
using namespace ref;

static std::string judge(const Trunc &t, const Enc &in, mc::Ctx &x, Truncation *obj) {
  bool rej = false;
  bool unsupported = t.max < 0 || t.stride < 0 || t.strat != "LongestFirst" && t.strat != "OnlyFirst" || t.dir != "Right" && t.dir != "Left";
  Enc w = in;
  if (!unsupported) w = ref::truncate(in, t.max, t.stride, t.dir == "Left", rej);
  impl::Out g = encs::call([&] { return obj->truncate_encoding(impl::to(in)); });
  x.impl_traces++; x.transitions += 1 + w.over.size(); x.nontrivial += !w.over.empty(); x.state(show(w));
  if (unsupported || rej) {   // nothing to honour: an exception (or, when the text fits, the unchanged encoding)
    if (g.threw) return "";
    if (t.max == 0 && (t.strat == "LongestFirst" || t.strat == "OnlyFirst")) { Enc z = ref::truncate(in, 0, 0, false, rej); return impl::first_diff(z, g.enc, true); }  // neither stride nor direction matters
    if ((int)in.ids.size() <= t.max || unsupported && (int)in.ids.size() <= std::max(t.max, 0)) { std::string d = impl::first_diff(in, g.enc, true); return d.empty() ? "" : "accepted but changed: " + d; }
    return "parameters that cannot be honoured were accepted: " + show(g.enc);
  }
  if (g.threw) return "threw " + g.what;
  std::string d = impl::first_diff(w, g.enc, true);
  if (!d.empty()) return d;
  // direct statement of the property, independent of the reference's window computation
  std::vector<const Enc *> ws{&g.enc}; for (auto &o : g.enc.over) { ws.push_back(&o); if (!o.over.empty()) return "an overflowing window has overflowing windows"; }
  if (t.max > 0) {
    std::set<int> seen;
    for (size_t k = 0; k < ws.size(); k++) {
      if ((int)ws[k]->ids.size() > t.max) return "window longer than the maximum";
      if (k + 1 < ws.size() && (int)ws[k]->ids.size() != t.max && (int)in.ids.size() > t.max) return "a window before the last is not full";
      for (int i : ws[k]->ids) seen.insert(i);
    }
    if (seen.size() != in.ids.size()) return "a token is in no window";
  }
  return "";
}
int main(int argc, char **argv) {
  std::vector<mc::Family> f;
  bool T = mc::thorough();
  static std::vector<std::string> dirs = {"Right", "Left"}, strats = {"LongestFirst", "OnlyFirst"};
  {
    int N = T ? 64 : 26, M = T ? 40 : 20;
    mc::Mix mix{{2, 2, (uint64_t)M + 1, (uint64_t)M + 3}};
    f.push_back(fam::blocks("windows", mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Trunc t{true, dirs[v[0]], strats[v[1]], (int)v[2], (int)v[3]};
      auto o = impl::trunc(t);
      for (int n = 0; n <= N; n++) { std::string d = judge(t, encs::make(n), x, o.get()); if (!d.empty()) return "length " + std::to_string(n) + ": " + d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return dump(jtrunc(Trunc{true, dirs[v[0]], strats[v[1]], (int)v[2], (int)v[3]})) + ", all lengths"; },
      "every maximum length 0.." + std::to_string(M) + " x stride 0.." + std::to_string(M + 2) + " x direction x strategy x encodings of 0.." + std::to_string(N) + " tokens"));
  }
  {
    static std::vector<int> len = {100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 600, 1000, 1025, 2048, 4097, 10000, 32769, 65537}, mx = {1, 2, 10, 64, 127, 128, 129, 384, 511, 512, 513, 1024};
    mc::Mix mix{{2, mx.size(), len.size()}};
    f.push_back(fam::blocks("long", mix.total(), 2, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); int m = mx[v[1]]; Enc e = encs::make(len[v[2]]);
      std::set<int> st{0, 1, 2, m / 4, m / 2, m - 2, m - 1, m};
      for (int s : st) if (s >= 0 && s <= m && (s == m || (long)len[v[2]] / (m - s) < 500)) { Trunc t{true, dirs[v[0]], "LongestFirst", m, s}; auto o = impl::trunc(t); std::string d = judge(t, e, x, o.get()); if (!d.empty()) return "stride " + std::to_string(s) + ": " + d.substr(0, 1500); }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return dirs[v[0]] + " max " + std::to_string(mx[v[1]]) + " length " + std::to_string(len[v[2]]); }, "realistic sizes around powers of two"));
  }
  {  // values that cannot be honoured
    static std::vector<std::string> ds = {"Right", "Left", "Up", "", "right"}, ss = {"LongestFirst", "OnlyFirst", "OnlySecond", "None", "longest_first", ""};
    static std::vector<int> ms = {-5, -1, 0, 1, 3}, st = {-3, -1, 0, 1, 2, 3, 5, 1000000};
    mc::Mix mix{{ds.size(), ss.size(), ms.size(), st.size()}};
    f.push_back(fam::blocks("unusable-parameters", mix.total(), 8, [=](uint64_t i, mc::Ctx &x) -> std::string {
      auto v = mix.at(i); Trunc t{true, ds[v[0]], ss[v[1]], ms[v[2]], st[v[3]]};
      std::unique_ptr<Truncation> o;
      try { o = impl::trunc(t); } catch (const std::exception &) { x.impl_traces++; bool good = v[0] < 2 && v[1] < 2 && t.max >= 0 && t.stride >= 0 && (t.stride < t.max || t.max == 0); return good ? "usable parameters rejected on construction" : ""; }
      if (!o) return "";
      for (int n = 0; n <= 9; n++) { std::string d = judge(t, encs::make(n), x, o.get()); if (!d.empty()) return "length " + std::to_string(n) + ": " + d; }
      return "";
    }, [=](uint64_t i) { auto v = mix.at(i); return dump(jtrunc(Trunc{true, ds[v[0]], ss[v[1]], ms[v[2]], st[v[3]]})); }, "unknown directions and strategies, negative and too large numbers x lengths 0..9"));
  }
  return mc::main_(argc, argv, "C15", f, "the encoding is longer than the maximum");
}
