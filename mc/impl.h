// Adapter: drives the real library through its public API only.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "core.h"
#include "ref.h"
#include "tokenizers/tokenizer.h"

namespace impl {
using ref::U;
template <class F>
auto with_json(const std::string &json, F f) {
  simdjson::ondemand::parser parser;
  simdjson::padded_string s(json);
  simdjson::ondemand::document d = parser.iterate(s);
  simdjson::ondemand::object o = d.get_object();
  return f(o);
}
std::unique_ptr<Tokenizer> make(const ref::Cfg &);
std::unique_ptr<Tokenizer> make_json(const std::string &);
std::unique_ptr<Normalizer> norm(const ref::Norm &);
std::unique_ptr<PreTokenizer> pre(const ref::Pre &);
std::unique_ptr<Model> mod(const ref::Mod &);
std::unique_ptr<PostProcessor> post(const ref::Post &);
std::unique_ptr<Decoder> dec(const ref::Dec &);
std::unique_ptr<Truncation> trunc(const ref::Trunc &);
std::unique_ptr<Padding> pad(const ref::Pad &);
ref::Enc from(const Encoding &);
Encoding to(const ref::Enc &);
std::vector<AddedToken> added(const std::vector<ref::Added> &);
// outcome of a call: value, or the fact that a standard exception was thrown
struct Out { bool threw = false; std::string what; ref::Enc enc; std::string text; };
Out encode(Tokenizer &, const U &, bool add);
Out encodeW(Tokenizer &, const std::wstring &, bool add);
Out decode(Tokenizer &, const std::vector<int> &, bool skip);
std::string show(const Out &);
std::string ints(const std::vector<int> &);
// projections
std::string first_diff(const ref::Enc &want, const ref::Enc &got, bool offsets, const std::string &at = "main");
std::string wellformed(const ref::Enc &e, const std::string &at = "main");  // "" or what is wrong with the lengths
}  // namespace impl
