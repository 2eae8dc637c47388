#include "impl.h"

#include <stdexcept>

namespace impl {
std::unique_ptr<Tokenizer> make_json(const std::string &j) { return std::make_unique<Tokenizer>("", j); }
std::unique_ptr<Tokenizer> make(const ref::Cfg &c) { return make_json(ref::json(c)); }
std::unique_ptr<Normalizer> norm(const ref::Norm &n) { return with_json(ref::dump(ref::jnorm(n)), [](simdjson::ondemand::object o) { return with_normalizer(o); }); }
std::unique_ptr<PreTokenizer> pre(const ref::Pre &n) { return with_json(ref::dump(ref::jpre(n)), [](simdjson::ondemand::object o) { return with_pre_tokenizer(o); }); }
std::unique_ptr<Model> mod(const ref::Mod &n) { return with_json(ref::dump(ref::jmod(n)), [](simdjson::ondemand::object o) { return with_model(o); }); }
std::unique_ptr<PostProcessor> post(const ref::Post &n) { return with_json(ref::dump(ref::jpost(n)), [](simdjson::ondemand::object o) { return with_post_processor(o); }); }
std::unique_ptr<Decoder> dec(const ref::Dec &n) { return with_json(ref::dump(ref::jdec(n)), [](simdjson::ondemand::object o) { return with_decoder(o); }); }
std::unique_ptr<Truncation> trunc(const ref::Trunc &n) { return with_json(ref::dump(ref::jtrunc(n)), [](simdjson::ondemand::object o) { return with_truncation(o); }); }
std::unique_ptr<Padding> pad(const ref::Pad &n) { return with_json(ref::dump(ref::jpad(n)), [](simdjson::ondemand::object o) { return with_padding(o); }); }
ref::Enc from(const Encoding &e) {
  ref::Enc r;
  r.ids = e.ids; r.type_ids = e.type_ids; r.tokens = e.tokens; r.words = e.words; r.offsets = e.offsets; r.special = e.special_tokens_mask; r.attention = e.attention_mask;
  for (auto &o : e.overflowing) r.over.push_back(from(o));
  return r;
}
Encoding to(const ref::Enc &e) {
  Encoding r(e.ids, e.type_ids, e.tokens, e.words, e.offsets, e.special, e.attention);
  for (auto &o : e.over) r.overflowing.push_back(to(o));
  return r;
}
std::vector<AddedToken> added(const std::vector<ref::Added> &v) {
  std::vector<AddedToken> r;
  for (auto &a : v) r.push_back(AddedToken(a.id, a.content, a.single, a.l, a.r, a.norm, a.special));
  return r;
}
Out encodeW(Tokenizer &t, const std::wstring &w, bool add) {
  Out o;
  try { o.enc = from(t.encode(w, add)); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
  return o;
}
Out encode(Tokenizer &t, const U &u, bool add) { return encodeW(t, ref::toW(u), add); }
Out decode(Tokenizer &t, const std::vector<int> &ids, bool skip) {
  Out o;
  try { o.text = t.decode(ids, skip); } catch (const std::exception &e) { o.threw = true; o.what = e.what(); }
  return o;
}
std::string show(const Out &o) { return o.threw ? "exception" : ref::show(o.enc) + o.text; }
std::string ints(const std::vector<int> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }

template <class T>
static bool eq(const std::vector<T> &a, const std::vector<T> &b) { return a == b; }
std::string first_diff(const ref::Enc &w, const ref::Enc &g, bool offsets, const std::string &at) {
  auto two = [&](const char *f) { return at + ": " + f + " differ\n  expected " + ref::show(w) + "\n  got      " + ref::show(g); };
  if (!eq(w.ids, g.ids)) return two("ids");
  if (!eq(w.tokens, g.tokens)) return two("tokens");
  if (!eq(w.type_ids, g.type_ids)) return two("type ids");
  if (!eq(w.words, g.words)) return two("words");
  if (offsets && !eq(w.offsets, g.offsets)) return two("offsets");
  if (w.offsets.size() != g.offsets.size()) return two("offset lengths");
  if (!eq(w.special, g.special)) return two("special tokens masks");
  if (!eq(w.attention, g.attention)) return two("attention masks");
  if (w.over.size() != g.over.size()) return two("overflowing windows");
  for (size_t i = 0; i < w.over.size(); i++) {
    std::string d = first_diff(w.over[i], g.over[i], offsets, at + ".over[" + std::to_string(i) + "]");
    if (!d.empty()) return d;
  }
  return "";
}
std::string wellformed(const ref::Enc &e, const std::string &at) {
  size_t n = e.ids.size();
  if (e.type_ids.size() != n || e.tokens.size() != n || e.words.size() != n || e.offsets.size() != n || e.special.size() != n || e.attention.size() != n)
    return at + ": sequences of different lengths " + ref::show(e);
  for (size_t i = 0; i < e.over.size(); i++) { auto d = wellformed(e.over[i], at + ".over[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
  return "";
}
}  // namespace impl
