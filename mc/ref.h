// Independent reference model of the tokenizer pipeline (the specification the checks compare with).
// Works on code points with one source range per character; shares no code with /repo.
#pragma once
#include <functional>
#include <map>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace ref {
using U = std::u32string;
using R = std::pair<int, int>;

std::string to8(const U &s);
std::string to8(char32_t c);
U from8(const std::string &s);
std::wstring toW(const U &s);
U fromW(const std::wstring &s);

// ---- JSON (ordered) ----
struct J {
  enum K { Null, Bool, Int, Dbl, Str, Arr, Obj } k = Null;
  bool b = false; long long i = 0; double d = 0; std::string s;
  std::vector<J> a; std::vector<std::pair<std::string, J>> o;
  J() {}
  J(bool v) : k(Bool), b(v) {}
  J(int v) : k(Int), i(v) {}
  J(long long v) : k(Int), i(v) {}
  J(double v) : k(Dbl), d(v) {}
  J(const char *v) : k(Str), s(v) {}
  J(const std::string &v) : k(Str), s(v) {}
  static J arr(std::vector<J> v = {}) { J j; j.k = Arr; j.a = v; return j; }
  static J obj(std::vector<std::pair<std::string, J>> v = {}) { J j; j.k = Obj; j.o = v; return j; }
  J *get(const std::string &k) { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
};
struct Style { int escape = 0; int space = 0; };  // escape: 0 minimal, 1 \uXXXX for non-ASCII, 2 \uXXXX for everything; 3 also short escapes
std::string dump(const J &j, const Style &st = {});

// ---- configuration ----
struct Norm {
  std::string type;  // "" = none
  bool clean = true, chinese = true, lower = true;
  std::optional<bool> accents;
  std::string a, b;  // prepend / pattern, content
  bool left = true, right = true;
  std::vector<Norm> seq;
};
struct Pat { std::string text; bool regex = true; std::function<std::vector<R>(const U &)> find; };
struct Pre {
  std::string type;
  Pat pat; std::string behavior = "Isolated"; bool invert = false;
  bool prefix_space = false, use_regex = true;
  std::vector<Pre> seq;
};
struct Mod {
  std::string type;
  std::vector<std::pair<std::string, int>> vocab;
  std::optional<std::string> unk, prefix, suffix;
  int max_chars = 100;
  std::vector<std::pair<std::string, std::string>> merges;
  double dropout = 0;
  bool fuse = false, fallback = false, ignore = false;
};
struct Added { std::string content; bool single = false, l = false, r = false, norm = true, special = false; int id = 0; };
struct Special { std::string id; std::vector<int> ids; std::vector<std::string> tokens; };
struct PieceT { bool special; std::string id; int type_id; };
struct Post {
  std::string type;
  std::vector<PieceT> single, pair; std::vector<Special> specials;
  bool prefix_space = false, trim = true;
  std::vector<Post> seq;
};
struct Dec {
  std::string type;
  std::string prefix = "##"; bool cleanup = true;
  std::string a, b;       // pattern/content
  int start = 0, stop = 0;
  std::vector<Dec> seq;
};
struct Trunc { bool on = false; std::string dir = "Right", strat = "LongestFirst"; int max = 0, stride = 0; };
struct Pad { bool on = false; std::string dir = "Right"; int fixed = -1; int id = 0, type = 0; std::string tok = "[PAD]"; int mult = 0; };
struct Cfg {
  Trunc trunc; Pad pad; std::vector<Added> added; bool added_null = false;
  Norm norm; Pre pre; Mod mod; Post post; Dec dec;
  long uid = 0;  // identifies the reference tokenizer built from it
};
J jnorm(const Norm &), jpre(const Pre &), jmod(const Mod &), jpost(const Post &), jdec(const Dec &), jtrunc(const Trunc &), jpad(const Pad &), jadded(const Added &);
J jcfg(const Cfg &);
std::string json(const Cfg &);

// ---- model ----
struct NS { U t; std::vector<R> al; };
NS ns(const U &);
NS normalize(const Norm &, NS);
struct Tok { int id; std::string v; int s, e; };
struct Piece { NS n; std::vector<Tok> toks; int pos = 0; };
bool is_white(char32_t), is_word(char32_t), is_punct(char32_t), is_control(char32_t), is_cjk(char32_t), is_letter(char32_t), is_number(char32_t);
std::vector<R> find_gpt2(const U &), find_cl100k(const U &);
Pat pat_of(const std::string &name);  // named patterns with hand-written matchers
U find_replace(const U &, const U &, const U &);
std::vector<Piece> pretok(const Pre &, std::vector<Piece>);
std::vector<std::pair<R, bool>> split_ranges(const Pat &, const std::string &behavior, bool invert, const U &);
const std::vector<char32_t> &byte_symbols();  // byte -> symbol
std::vector<Tok> wordpiece(const Mod &, const std::map<std::string, int> &, const U &);
struct BpeIdx { std::map<int, std::string> rev; std::map<std::pair<int, int>, std::pair<int, int>> mg; };  // pair -> rank, id
BpeIdx bpe_index(const Mod &, const std::map<std::string, int> &);
std::vector<Tok> bpe(const Mod &, const std::map<std::string, int> &, const U &, const BpeIdx * = nullptr);

struct Enc {
  std::vector<int> ids, type_ids; std::vector<std::string> tokens; std::vector<std::optional<int>> words;
  std::vector<R> offsets; std::vector<int> special, attention; std::vector<Enc> over;
};
std::string show(const Enc &);
Enc truncate(const Enc &, int max, int stride, bool left, bool &error);
Enc post(const Post &, const Enc &, bool add);
Enc pad(const Pad &, const Enc &);
std::vector<std::string> dec_chain(const Dec &, std::vector<std::string>);

struct Tok_ {};
// reference tokenizer
class Ref {
 public:
  explicit Ref(const Cfg &);
  int add(const std::vector<Added> &);            // returns number of non-empty tokens
  Enc encode(const U &, bool add_special, bool &error) const;
  std::vector<Piece> pieces(const U &) const;     // before the model
  std::string decode(const std::vector<int> &, bool skip) const;
  std::optional<int> id_of(const std::string &) const;
  const Cfg &cfg() const { return c; }
 private:
  Cfg c;
  std::map<std::string, int> vocab; std::map<int, std::string> rev; BpeIdx bidx;
  std::map<std::string, int> amap; std::map<int, Added> arev;
  std::vector<Added> specials, plain;
  std::vector<std::pair<U, int>> raw_set, norm_set;
  void refresh();
  std::vector<std::pair<std::optional<int>, R>> match(const U &, const std::vector<std::pair<U, int>> &) const;
};
}  // namespace ref
