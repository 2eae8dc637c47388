#include "cfgs.h"

#include <algorithm>

using namespace std::string_literals;
namespace cfgs {
Norm n_(const std::string &t) { Norm n; n.type = t; return n; }
Norm n_bert(bool clean, bool chinese, std::optional<bool> accents, bool lower) { Norm n = n_("BertNormalizer"); n.clean = clean; n.chinese = chinese; n.accents = accents; n.lower = lower; return n; }
Norm n_prepend(const std::string &s) { Norm n = n_("Prepend"); n.a = s; return n; }
Norm n_replace(const std::string &a, const std::string &b) { Norm n = n_("Replace"); n.a = a; n.b = b; return n; }
Norm n_strip(bool l, bool r) { Norm n = n_("Strip"); n.left = l; n.right = r; return n; }
Norm n_seq(std::vector<Norm> v) { Norm n = n_("Sequence"); n.seq = v; return n; }
Pre p_bert() { Pre p; p.type = "BertPreTokenizer"; return p; }
Pre p_byte(bool prefix, bool regex) { Pre p; p.type = "ByteLevel"; p.prefix_space = prefix; p.use_regex = regex; return p; }
Pre p_split(const std::string &pat, const std::string &b, bool inv) { Pre p; p.type = "Split"; p.pat = pat_of(pat); p.behavior = b; p.invert = inv; return p; }
Pre p_seq(std::vector<Pre> v) { Pre p; p.type = "Sequence"; p.seq = v; return p; }

static Mod base(const std::string &type) { Mod m; m.type = type; return m; }
static void put(Mod &m, const std::string &s) { for (auto &x : m.vocab) if (x.first == s) return; m.vocab.push_back({s, (int)m.vocab.size()}); }
static void merge(Mod &m, const std::string &a, const std::string &b) { m.merges.push_back({a, b}); put(m, a + b.substr(m.prefix.value_or("").size())); }
Mod m_wordpiece() {
  Mod m = base("WordPiece");
  m.unk = "[UNK]"; m.prefix = "##"; m.max_chars = 6;
  for (const char *s : {"[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]", "a", "b", "ab", "aba", "s", "e", "1", "12", "é", "中", "文", "😀", "i", "ss", "'", ".", ",", "!", "[", "]", "<", ">", "n", "ñ", "▁", "▁a", "ae",
                        "##a", "##b", "##ab", "##s", "##e", "##1", "##é", "##中", "##文", "##😀", "##i", "##n", "##ss", "##'", "##.", "##▁", "##]", "##ba", "##fi", "fi", "##\xCC\x81", "e\xCC\x81"})
    put(m, s);
  return m;
}
Mod m_bpe_bytes() {
  Mod m = base("BPE");
  for (char32_t c : byte_symbols()) put(m, to8(c));
  merge(m, "a", "b"); merge(m, "Ġ", "a"); merge(m, "ab", "a"); merge(m, "Ġ", "ab"); merge(m, "b", "a"); merge(m, "Ã", "©"); merge(m, "Ġ", "Ġ"); merge(m, "Ġ", "Ã©"); merge(m, "1", "2");
  merge(m, "'", "s"); merge(m, "ä", "¸"); merge(m, "ä¸", "Ń"); merge(m, "a", "a"); merge(m, "aa", "aa"); merge(m, "Ċ", "Ċ");
  return m;
}
Mod m_bpe_chars() {
  Mod m = base("BPE");
  m.unk = "<unk>"; m.fuse = true;
  for (const char *s : {"<unk>", "<s>", "</s>", "a", "b", "s", "▁", "1", "2", "é", "中", ".", "'", "e", "i", "f"}) put(m, s);
  merge(m, "▁", "a"); merge(m, "a", "b"); merge(m, "b", "a"); merge(m, "▁", "ab"); merge(m, "a", "a"); merge(m, "▁a", "b"); merge(m, "ab", "ab"); merge(m, "é", "中"); merge(m, "▁", "▁"); merge(m, "e", "é");
  return m;
}
Mod m_bpe_fallback() {
  Mod m = base("BPE");
  m.unk = "<unk>"; m.fuse = true; m.fallback = true;
  for (const char *s : {"<unk>", "<s>", "</s>"}) put(m, s);
  for (int b = 0; b < 256; b++) { char t[8]; snprintf(t, 8, "<0x%02X>", b); if (b != 0x98) put(m, t); }   // one byte is missing: U+1F600 cannot fall back
  for (const char *s : {"a", "b", "▁", "1", "é", "s", "e"}) put(m, s);
  merge(m, "▁", "a"); merge(m, "a", "b"); merge(m, "▁a", "b"); merge(m, "é", "a"); merge(m, "▁", "▁"); merge(m, "<0xE4>", "<0xB8>");
  return m;
}
Mod m_bpe_affix() {
  Mod m = base("BPE");
  m.unk = "[UNK]"; m.prefix = "##"; m.suffix = "</w>";
  for (const char *s : {"[UNK]", "a", "b", "##a", "##b", "a</w>", "b</w>", "##a</w>", "##b</w>", "s", "##s</w>", "##s", "é", "##é</w>"}) put(m, s);
  merge(m, "a", "##b"); merge(m, "##a", "##b"); merge(m, "##b", "##a</w>"); merge(m, "ab", "##a</w>"); merge(m, "##ab", "##s</w>"); merge(m, "b", "##a");
  return m;
}
static PieceT seqA(int t = 0) { return {false, "A", t}; }
static PieceT sp(const std::string &s, int t = 0) { return {true, s, t}; }
Post q_bert() {
  Post p; p.type = "TemplateProcessing";
  p.single = {sp("[CLS]"), seqA(), sp("[SEP]")};
  p.pair = {sp("[CLS]"), seqA(), sp("[SEP]"), {false, "B", 1}, sp("[SEP]", 1)};
  p.specials = {{"[CLS]", {2}, {"[CLS]"}}, {"[SEP]", {3}, {"[SEP]"}}};
  return p;
}
Post q_roberta() {
  Post p; p.type = "TemplateProcessing";
  p.single = {sp("<s>"), seqA(1)};
  p.pair = {};
  p.specials = {{"<s>", {1, 7}, {"<s>", "a"}}, {"</s>", {2}, {"</s>"}}};
  return p;
}
Post q_byte(bool prefix, bool trim) { Post p; p.type = "ByteLevel"; p.prefix_space = prefix; p.trim = trim; return p; }
Post q_seq(std::vector<Post> v) { Post p; p.type = "Sequence"; p.seq = v; return p; }
Dec d_(const std::string &t) { Dec d; d.type = t; return d; }
Dec d_wordpiece() { return d_("WordPiece"); }
Dec d_byte() { return d_("ByteLevel"); }
Dec d_replace(const std::string &a, const std::string &b) { Dec d = d_("Replace"); d.a = a; d.b = b; return d; }
Dec d_strip(const std::string &a, int s, int e) { Dec d = d_("Strip"); d.a = a; d.start = s; d.stop = e; return d; }
Dec d_seq(std::vector<Dec> v) { Dec d = d_("Sequence"); d.seq = v; return d; }
Dec d_llama() { return d_seq({d_replace("▁", " "), d_("ByteFallback"), d_("Fuse"), d_strip(" ", 1, 0)}); }

static Added ad(const std::string &c, int id, const char *flags) {
  Added a; a.content = c; a.id = id; std::string f = flags;
  auto has = [&](char k) { return f.find(k) != std::string::npos; };
  a.single = has('w'); a.l = has('l'); a.r = has('r'); a.norm = has('n'); a.special = has('s');
  return a;
}
static void file_ids(Cfg &c) {  // give added tokens the ids the library documents (C10)
  Ref r(c);
  for (auto &a : c.added) if (auto i = r.id_of(a.content)) a.id = *i;
}
std::vector<Added> bert_added() { return {ad("[PAD]", 0, "s"), ad("[UNK]", 1, "s"), ad("[CLS]", 2, "s"), ad("[SEP]", 3, "s"), ad("[MASK]", 4, "sl")}; }
Cfg bert(bool lower) {
  Cfg c; c.norm = n_bert(true, true, std::nullopt, lower); c.pre = p_bert(); c.mod = m_wordpiece(); c.post = q_bert(); c.dec = d_wordpiece(); c.added = bert_added();
  return c;
}
Cfg gpt2() {
  Cfg c; c.pre = p_byte(false, true); c.mod = m_bpe_bytes(); c.post = q_byte(true, false); c.dec = d_byte(); c.added = {ad("<|end|>", 0, "s")};
  file_ids(c); return c;
}
Cfg roberta() {
  Cfg c; c.pre = p_byte(true, true); c.mod = m_bpe_bytes(); c.dec = d_byte();
  c.added = {ad("<s>", 0, "s"), ad("</s>", 0, "s"), ad("<mask>", 0, "sl"), ad("<n>", 0, "n")};
  file_ids(c);
  Post t; t.type = "TemplateProcessing"; t.single = {sp("<s>"), seqA(), sp("</s>")};
  t.pair = t.single; t.specials = {{"<s>", {c.added[0].id}, {"<s>"}}, {"</s>", {c.added[1].id}, {"</s>"}}};
  c.post = q_seq({q_byte(true, true), t});
  return c;
}
Cfg llama3() {
  Cfg c; c.pre = p_seq({p_split("cl100k", "Isolated", false), p_byte(false, false)}); c.mod = m_bpe_bytes(); c.mod.ignore = true; put(c.mod, "aab"); put(c.mod, "Ġb1"); c.dec = d_byte();
  c.added = {ad("<s>", 0, "s"), ad("<|e|>", 0, "s"), ad("<x>", 0, "r")};
  file_ids(c);
  Post t; t.type = "TemplateProcessing"; t.single = {sp("<s>"), seqA()}; t.pair = t.single; t.specials = {{"<s>", {c.added[0].id}, {"<s>"}}};
  c.post = q_seq({q_byte(true, false), t});
  return c;
}
Cfg llama2() {
  Cfg c; c.norm = n_seq({n_prepend("▁"), n_replace(" ", "▁")}); c.mod = m_bpe_fallback(); c.dec = d_llama();
  c.added = {ad("<unk>", 0, "s"), ad("<s>", 1, "s"), ad("</s>", 2, "s"), ad("<n>", 0, "n")};
  file_ids(c);
  c.post.type = "TemplateProcessing"; c.post.single = {sp("<s>"), seqA()}; c.post.pair = c.post.single; c.post.specials = {{"<s>", {1}, {"<s>"}}};
  return c;
}
Cfg bare() { Cfg c; c.mod = m_bpe_chars(); return c; }

std::vector<Named> all() {
  std::vector<Named> r;
  auto A = [&](const std::string &n, const Cfg &c, const U &al, std::vector<U> at) { r.push_back({n, c, al, at}); };
  A("bert-lower", bert(true), U"aAé \u0301.中\u0000\n1İ\U0001F600"s, {U"ab", U"AB ", U"[MASK]", U" [MASK]", U"[CLS]", U"é", U"中文", U"'s", U" ", U"1", U"abab", U"xyz"});
  A("bert-cased", bert(false), U"abA \u0301e,[\t文\u200D\uFFFD", {U"ab", U"AB ", U"[MASK]", U"[SEP]x", U"e\u0301", U"中", U"!", U"  ", U"aba", U"\u00A0"});
  {
    Cfg c = bert(true); c.trunc = {true, "Right", "LongestFirst", 5, 1}; c.pad.on = true; c.pad.fixed = 7; c.pad.mult = 4;
    A("bert-trunc-pad", c, U"abs é.1中\u00A0", {U"ab ", U"a", U"[MASK]", U"s.", U"中", U"abs", U"x "});
  }
  A("gpt2", gpt2(), U"ab s'1é \n\u3000中\U0001F600", {U"ab", U" a", U"  ", U"'s", U"<|end|>", U"é", U"12", U"\n\n", U"aaaa", U".", U"\u2028 ", U"中"});
  A("roberta", roberta(), U"ab <n>s\u0301é1\u3000", {U"ab", U" a", U"<n>", U"<mask>", U"  <mask>", U"</s>", U"é ", U"'ll", U" ", U"<s>"});
  {
    Cfg c = roberta(); c.trunc = {true, "Left", "OnlyFirst", 4, 1}; c.pad.on = true; c.pad.dir = "Left"; c.pad.mult = 3; c.pad.id = 9; c.pad.type = 2; c.pad.tok = "<pad>";
    A("roberta-left-trunc-pad", c, U"ab é<n>1 ", {U"ab", U" a", U"<n>", U"é", U"<mask>", U"   "});
  }
  A("llama3", llama3(), U"ab 1\n'sé\u2029\U0001F600.中", {U"aab", U" b1", U"<x>", U"<x> ", U"12345", U"\r\n", U" \n ", U"'S", U"é", U"!?", U"<|e|>"});
  A("llama2", llama2(), U"ab é中\U0001F600▁<n>s1", {U"ab", U" ", U"<n>", U"<s>", U"中", U"\U0001F600", U"é", U"a b", U"\u4E2D\u4E2D"});
  {
    Cfg c = bare(); c.norm = n_seq({n_("NFKC"), n_strip(true, true)}); c.pre = p_split("digits", "MergedWithPrevious", false); c.added = {ad("ab1", 0, "nw"), ad("é", 0, "lr"), ad("ﬁ", 0, "n")}; file_ids(c);
    A("nfkc-strip-split", c, U"ab1 e\u0301éﬁ中\u00A0s2", {U"ab1", U"é", U" ", U"ﬁ", U"①", U"ab", U"가", U"\u1100\u1161", U"１"});
  }
  {
    Cfg c = bare(); c.norm = n_seq({n_("NFD"), n_("StripAccents"), n_replace("ab", "")}); c.pre = p_seq({p_split("ws", "Removed", false), p_split("lit:,", "Isolated", false)}); c.mod = m_wordpiece(); c.mod.max_chars = 3; c.mod.unk = "[UNK]"; c.added = {ad("ab", 0, "w"), ad("a b", 0, ""), ad("<n>", 0, "nr")}; file_ids(c);
    A("nfd-strip-replace", c, U"ab é\u0344,e\tñ중s<", {U"ab", U"a b", U"<n> ", U"é", U" ", U",", U"중", U"aba", U"\u00A0"});
  }
  { Cfg c; c.mod = m_bpe_affix(); c.pre = p_bert(); A("bpe-affix", c, U"abs é\U0001F600.", {U"ab", U"aba ", U"s", U"é", U" ", U"abab"}); }
  { Cfg c; c.added_null = true; A("nothing", c, U"ab é", {U"ab", U" "}); }
  return r;
}
std::vector<std::pair<std::string, Norm>> norms() {
  return {{"none", Norm()}, {"bert", n_bert(true, true, std::nullopt, true)}, {"bert-accents", n_bert(false, false, true, false)}, {"nfkc", n_("NFKC")}, {"nfd+accents", n_seq({n_("NFD"), n_("StripAccents")})},
          {"strip", n_strip(true, true)}, {"prepend+replace", n_seq({n_prepend("▁"), n_replace(" ", "▁")})}, {"replace-a-bb", n_replace("a", "bb")}, {"replace-ab-empty", n_replace("ab", "")}, {"empty-seq", n_seq({})}};
}
std::vector<std::pair<std::string, Pre>> pres() {
  return {{"none", Pre()}, {"bert", p_bert()}, {"byte", p_byte(false, true)}, {"byte-prefix", p_byte(true, true)}, {"byte-raw-prefix", p_byte(true, false)}, {"split-removed", p_split("ws", "Removed", false)},
          {"split-prev", p_split("digits", "MergedWithPrevious", false)}, {"split-next-inv", p_split("lit:a", "MergedWithNext", true)}, {"split-contiguous", p_split("comma", "Contiguous", false)},
          {"seq", p_seq({p_split("digit", "Isolated", false), p_byte(true, true)})}, {"empty-seq", p_seq({})}};
}
std::vector<std::pair<std::string, Mod>> mods() {
  Mod n = m_bpe_chars(); n.unk = std::nullopt; n.ignore = true;
  return {{"none", Mod()}, {"wordpiece", m_wordpiece()}, {"bpe-bytes", m_bpe_bytes()}, {"bpe-chars", m_bpe_chars()}, {"bpe-fallback", m_bpe_fallback()}, {"bpe-affix", m_bpe_affix()}, {"bpe-no-unk", n}};
}
std::vector<std::pair<std::string, Post>> posts() {
  return {{"none", Post()}, {"bert", q_bert()}, {"roberta", q_roberta()}, {"byte-trim", q_byte(true, true)}, {"seq", q_seq({q_byte(false, true), q_bert()})}, {"empty-seq", q_seq({})}};
}
std::vector<std::vector<Added>> addeds() {
  return {{}, {ad("<n>", 0, "n"), ad("[M]", 0, "sl"), ad("ab", 0, "w")}, {ad("a b", 0, ""), ad("é", 0, "nr"), ad("AB", 0, "ns"), ad("1", 0, "lr")}};
}
void id_zero(Cfg &c, const std::string &content) {
  std::vector<std::pair<std::string, int>> v;
  for (auto &p : c.mod.vocab) if (p.first != content) v.push_back({p.first, p.second + 1});
  v.insert(v.begin(), {content, 0});
  c.mod.vocab = v;
  file_ids(c);
}
std::vector<std::pair<std::string, Norm>> bert_flags() {
  std::vector<std::pair<std::string, Norm>> r;
  for (int k = 0; k < 24; k++) {
    std::optional<bool> acc; if (k / 8) acc = k / 8 == 1;
    r.push_back({std::string("bert") + (k & 1 ? " clean" : "") + (k & 2 ? " chinese" : "") + (k & 4 ? " lower" : "") + (acc ? *acc ? " accents" : " no accents" : ""), n_bert(k & 1, k & 2, acc, k & 4)});
  }
  return r;
}
std::vector<Named> variants() {
  std::vector<Named> r;
  auto A = [&](const std::string &n, const Cfg &c) { r.push_back({n, c, U"ab é1", {U"ab", U" ", U"é"}}); };
  auto N = [&](const std::string &n, const Norm &x) { Cfg c = bare(); c.norm = x; c.mod = m_bpe_fallback(); A("normalizer " + n, c); };
  for (const char *t : {"NFC", "NFD", "NFKC", "NFKD", "StripAccents"}) N(t, n_(t));
  N("Prepend ▁", n_prepend("▁")); N("Prepend ab", n_prepend("ab")); N("Replace a b", n_replace("a", "b")); N("Replace a é", n_replace("a", "é")); N("Replace b a", n_replace("b", "a")); N("Replace ' ' ▁", n_replace(" ", "▁"));
  N("Strip left", n_strip(true, false)); N("Strip right", n_strip(false, true)); N("Strip both", n_strip(true, true)); N("empty sequence", n_seq({})); N("sequence", n_seq({n_replace("b", "é"), n_prepend("1")}));
  for (auto &b : bert_flags()) if (b.first == "bert" || b.first == "bert clean" || b.first == "bert chinese" || b.first == "bert lower" || b.first == "bert accents" || b.first == "bert clean chinese lower no accents") N(b.first, b.second);
  auto P = [&](const std::string &n, const Pre &x) { Cfg c = bare(); c.pre = x; c.mod = x.type == "BertPreTokenizer" || x.type == "Split" ? m_bpe_fallback() : m_bpe_bytes(); A("pre-tokenizer " + n, c); };
  for (auto &p : pres()) P(p.first, p.second);
  for (const char *pat : {"digits", "lit:a", "lit:b", "ws"}) for (const char *b : {"Isolated", "Removed", "MergedWithPrevious"}) P(std::string(pat) + " " + b, p_split(pat, b, false));
  P("lit:a inverted", p_split("lit:a", "Isolated", true)); P("cl100k", p_split("cl100k", "Isolated", false)); P("gpt2", p_split("gpt2", "Isolated", false));
  auto M = [&](const std::string &n, const Mod &x) { Cfg c; c.mod = x; c.pre = p_bert(); A("model " + n, c); };
  for (auto &m : mods()) M(m.first, m.second);
  { Mod m = m_wordpiece(); m.max_chars = 2; M("WordPiece max 2", m); m = m_wordpiece(); m.unk = "a"; M("WordPiece unknown a", m); m = m_wordpiece(); m.prefix = ""; M("WordPiece no prefix", m); m.prefix = "é"; M("WordPiece prefix é", m); m = m_wordpiece(); m.unk = "missing"; m.max_chars = 4; M("WordPiece unknown token missing", m); m = m_wordpiece(); m.unk = ""; put(m, ""); m.max_chars = 4; M("WordPiece empty unknown token", m); m = m_wordpiece(); m.prefix = "a"; M("WordPiece prefix a", m); m = m_bpe_chars(); m.unk = ""; put(m, ""); M("BPE empty unknown token", m); m = m_bpe_chars(); m.unk = "missing"; M("BPE unknown token missing", m); m.fuse = false; M("BPE unknown token missing, unfused", m); m.unk = std::nullopt; M("BPE no unknown token", m); }
  { Mod m = m_bpe_chars(); m.fuse = false; M("BPE unfused", m); m.unk = "a"; M("BPE unknown a", m); m = m_bpe_chars(); m.merges.resize(2); M("BPE two merges", m); m = m_bpe_chars(); std::reverse(m.merges.begin(), m.merges.end()); M("BPE merges reversed", m); m.ignore = true; put(m, "aba"); M("BPE ignore merges", m); m = m_bpe_affix(); m.suffix = std::nullopt; M("BPE prefix only", m); m = m_bpe_fallback(); m.fallback = false; M("BPE no fallback", m); }
  { Mod m = m_bpe_chars(); int k = 0; for (auto &v : m.vocab) v.second = 1000 - k++; M("BPE other ids", m); }
  auto Q = [&](const std::string &n, const Post &x) { Cfg c = bare(); c.post = x; A("post-processor " + n, c); };
  for (auto &p : posts()) Q(p.first, p.second);
  { Post p = q_bert(); p.single = {seqA(), sp("[SEP]", 3)}; Q("template tail", p); p = q_bert(); p.specials[0].ids = {5, 6}; p.specials[0].tokens = {"a", "b"}; Q("template other ids", p); p = q_bert(); p.single = {seqA(4)}; Q("template types", p); Q("byte", q_byte(true, false)); }
  auto D = [&](const std::string &n, const Dec &x, bool bytes = false) { Cfg c = bare(); c.mod = bytes ? m_bpe_bytes() : m_bpe_fallback(); c.dec = x; A("decoder " + n, c); };
  D("WordPiece", d_wordpiece()); { Dec d = d_wordpiece(); d.cleanup = false; D("WordPiece no cleanup", d); d.prefix = "a"; D("WordPiece prefix a", d); d.prefix = ""; D("WordPiece no prefix", d); }
  D("ByteLevel", d_byte(), true); D("ByteFallback", d_("ByteFallback")); D("Fuse", d_("Fuse")); D("llama", d_llama()); D("Replace a b", d_replace("a", "b")); D("Replace a é", d_replace("a", "é")); D("Replace ▁", d_replace("▁", " ")); D("Strip a 1 0", d_strip("a", 1, 0)); D("Strip a 0 1", d_strip("a", 0, 1)); D("Strip b 1 1", d_strip("b", 1, 1));
  auto O = [&](const std::string &n, std::function<void(Cfg &)> f) { Cfg c = bare(); c.mod.merges.clear(); f(c); A(n, c); };
  O("truncation 2", [](Cfg &c) { c.trunc = {true, "Right", "LongestFirst", 2, 0}; }); O("truncation 2 left", [](Cfg &c) { c.trunc = {true, "Left", "LongestFirst", 2, 0}; }); O("truncation 3 stride 1", [](Cfg &c) { c.trunc = {true, "Right", "OnlyFirst", 3, 1}; });
  O("padding 5", [](Cfg &c) { c.pad.on = true; c.pad.fixed = 5; }); O("padding 5 left", [](Cfg &c) { c.pad.on = true; c.pad.fixed = 5; c.pad.dir = "Left"; }); O("padding token", [](Cfg &c) { c.pad.on = true; c.pad.fixed = 6; c.pad.tok = "p"; c.pad.id = 77; c.pad.type = 3; }); O("padding multiple", [](Cfg &c) { c.pad.on = true; c.pad.mult = 4; });
  O("truncation 2 padding 4", [](Cfg &c) { c.trunc = {true, "Right", "LongestFirst", 2, 0}; c.pad.on = true; c.pad.fixed = 4; });
  for (const char *fl : {"", "n", "w", "l", "r", "s"}) for (const char *k : {"ab", "é"}) O(std::string("added ") + k + " " + fl, [=](Cfg &c) { c.added = {ad(k, 0, fl)}; file_ids(c); });
  O("added id zero", [](Cfg &c) { c.added = {ad("ab", 0, "s")}; id_zero(c, "ab"); });
  return r;
}
U letters(const U &al, uint64_t idx) { U r; for (int i : mc::nth_string(al.size(), idx)) r += al[i]; return r; }
U concat(const std::vector<U> &at, uint64_t idx) { U r; for (int i : mc::nth_string(at.size(), idx)) r += at[i]; return r; }
std::vector<U> texts() {
  return {U"", U"a", U" ", U"ab", U"  ab  ", U"ab a", U"AB ab", U"é", U"e\u0301 a", U"a\u0301b", U"中a文", U"a1b12", U"<n>", U"a<n>b", U" <n> ab", U"[M] a", U"a [M][M]", U"ab,ab", U"ab ab1", U"a b", U"aa b b",
          U"'s a's", U"\U0001F600a", U"a\U0001F600 \U0001F600", U"\n a\t", U"\u00A0a", U"ﬁ①", U"가a", U"İI", U"ßa", U"1 1", U"1,1.", U"ab[M]ab", U"abab ab<n>", U"\u3000a ", U"  ", U"\u200Da", U"a\u0000b"s, U"x y", U"aéa é "};
}
}  // namespace cfgs
