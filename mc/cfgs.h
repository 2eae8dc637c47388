// Configurations, alphabets and texts shared by the checkers.
#pragma once
#include <string>
#include <vector>

#include "core.h"
#include "ref.h"

namespace cfgs {
using namespace ref;
struct Named { std::string name; Cfg c; U alphabet; std::vector<U> atoms; };

Norm n_(const std::string &type);
Norm n_bert(bool clean, bool chinese, std::optional<bool> accents, bool lower);
Norm n_prepend(const std::string &), n_replace(const std::string &, const std::string &), n_strip(bool, bool), n_seq(std::vector<Norm>);
Pre p_bert(), p_byte(bool prefix, bool regex), p_split(const std::string &pat, const std::string &behavior, bool invert), p_seq(std::vector<Pre>);
Mod m_wordpiece(), m_bpe_bytes(), m_bpe_chars(), m_bpe_fallback(), m_bpe_affix();
Post q_bert(), q_roberta(), q_byte(bool prefix, bool trim), q_seq(std::vector<Post>), q_pair();
Dec d_wordpiece(), d_byte(), d_llama(), d_(const std::string &), d_replace(const std::string &, const std::string &), d_strip(const std::string &, int, int), d_seq(std::vector<Dec>);
std::vector<Added> bert_added();
Cfg bert(bool lower = true), gpt2(), roberta(), llama3(), llama2(), bare();
std::vector<Named> all();            // complete tokenizers
std::vector<std::pair<std::string, Norm>> norms();
std::vector<std::pair<std::string, Pre>> pres();
std::vector<std::pair<std::string, Mod>> mods();
std::vector<std::pair<std::string, Post>> posts();
std::vector<std::vector<Added>> addeds();
void id_zero(Cfg &, const std::string &content);             // moves the content to id 0 of the model vocabulary and fixes the added ids
std::vector<std::pair<std::string, Norm>> bert_flags();      // every combination of the BERT normalizer's options
std::vector<Named> variants();        // small tokenizers that differ in one parameter of one component
U letters(const U &alphabet, uint64_t idx);                 // idx-th string over the alphabet
U concat(const std::vector<U> &atoms, uint64_t idx);        // idx-th concatenation of atoms
std::vector<U> texts();              // hand-picked texts mixing scripts, spaces, tokens
}  // namespace cfgs
