#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=("Tokenizer::encode", "Tokenizer::decode")):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

S = "src/"
p("C01", "Every encoding is structurally consistent and agrees with the vocabulary",
  "For every configuration, input text and add-special-tokens choice, all per-token sequences of the result (ids, type ids, tokens, word indices, offsets, special-tokens mask, attention mask) have the same length, in the main encoding and in every overflowing window. The attention mask is 1 on every non-padding position and 0 on padding; the special-tokens mask is 1 exactly on positions inserted by post-processing or padding; word indices are absent on template-inserted positions and never decrease over the text's own positions. Every id the model emits maps back to the token string next to it (the unknown token being in the vocabulary).",
  ["inputs", "configurations"], "all combinations of pipeline components x all short texts over an alphabet of colliding characters",
  "The unit tests compare seven vectors for two sentences with one configuration; agreement must hold for every combination of component, text, flag and overflow window.",
  [S+"tokenizer.cpp", S+"utils.cpp", S+"post_processor.cpp"],
  [("token-to-encoding assembly", "src/tokenizer.cpp into_encoding"), ("template insertion", "src/post_processor.cpp TemplateProcessing::process"), ("padding", "src/utils.cpp pad"), ("truncation slices", "src/utils.cpp truncate")])
p("C02", "Offsets point at exactly the source characters of each token",
  "For every input, each offset pair of a token produced from the text is a half-open range of character (code point) positions of the original, un-normalized input, and covers exactly the input characters the token's text was derived from, whatever was inserted, removed, replaced, lower-cased, decomposed, composed or byte-encoded before it; characters rewritten together by a Unicode normalization form share the span of their group. Inserted text (prefixes, padding around ideographs) takes the span of the character it was attached to; characters outside the Basic Multilingual Plane count as one. Template and padding tokens have offsets (0,0), and offsets always lie inside the input.",
  ["inputs", "configurations"], "all texts up to a length over an alphabet with one representative per normalization effect x all normalizer/pre-tokenizer/model/added-token combinations",
  "The tests check offsets for plain ASCII only; the arithmetic depends on every preceding insertion/removal and on multi-byte and non-BMP characters.",
  [S+"normalizer.cpp", S+"pre_tokenizer.cpp", S+"added_vocabulary.cpp", S+"tokenizer.cpp", S+"model.cpp"],
  [("alignment bookkeeping", "src/normalizer.cpp NormalizedString"), ("alignment splice after normalizing a section", "src/normalizer.cpp NormalizedString::transform_range"), ("token offsets to input offsets", "src/tokenizer.cpp into_encoding")],
  [("alignment", "for each normalized character, the input range it came from", "include/tokenizers/normalizer.h NormalizedString")], ["Encoding::offsets"])
p("C03", "Results do not depend on what the tokenizer did before",
  "The result of encode and decode is a function of the configuration, the tokens added so far and the arguments only: for every history of encode and decode calls (including ones that fail), the next call on a used tokenizer returns exactly what a fresh tokenizer with the same configuration and added tokens returns. This holds however many distinct words were seen, for words sharing prefixes or differing in one character, and for several tokenizers alive at once.",
  ["histories"], "all sequences of operations up to a depth over a small operation alphabet, on one or two live tokenizers, plus long histories of distinct words",
  "The tests make one or two calls per object; a stale cache entry, leaked scratch state or lazily built global needs a specific sequence.",
  [S+"model.cpp", S+"tokenizer.cpp", S+"added_vocabulary.cpp"],
  [("word cache", "src/model.cpp BPE::tokenize_with_cache"), ("const pipeline stages", "src/tokenizer.cpp Tokenizer::encode")],
  [("cache", "merge result per word", "include/tokenizers/model.h BPE")])
p("C04", "Concurrent encode and decode on one tokenizer are safe",
  "Any number of threads may call encode and decode on the same tokenizer, or on different tokenizers, at the same time: there is no data race, no deadlock, and every call returns exactly what it returns when run alone, under every thread schedule. This includes the first calls ever made, while caches are empty. Constructing further tokenizers at the same time is equally safe.",
  ["schedules"], "all interleavings of 2-3 threads with 1-3 operations each at synchronization points, up to 2 preemptions, plus happens-before race detection on each execution",
  "No test uses threads; a race needs two threads on the same word at the same time.",
  [S+"model.cpp", S+"tokenizer.cpp"],
  [("cache guarded during lookup and insert", "src/model.cpp BPE::tokenize_with_cache"), ("read-only members elsewhere", "include/tokenizers/tokenizer.h")],
  [("cache", "shared mutable state written by encode", "include/tokenizers/model.h BPE")])
p("C05", "A damaged configuration is rejected cleanly or yields a usable tokenizer",
  "For every configuration damaged by truncation at any byte, change of a byte, or removal, nulling, emptying, retyping or duplication of any field, and for a missing or unreadable file, constructing a tokenizer either throws a standard exception or succeeds. After success, encode, decode and adding tokens neither crash nor hang: they return or throw a standard exception.",
  ["fault_sequences", "configurations"], "every truncation point, every single-byte corruption from a set, every single-field structural fault (and pairs on the small configurations) of one configuration per component kind",
  "The tests try three broken configurations; the faults are a function of position and field.",
  [S+"tokenizer.cpp", S+"normalizer.cpp", S+"pre_tokenizer.cpp", S+"model.cpp", S+"decoder.cpp", S+"post_processor.cpp", S+"utils.cpp", S+"added_vocabulary.cpp"],
  [("error wrapping", "src/tokenizer.cpp Tokenizer::Tokenizer"), ("null component handling", "src/tokenizer.cpp encode/decode/add_tokens")], (), ["Tokenizer constructor", "encode", "decode", "add_tokens"])
p("C06", "Equivalent configurations load to equivalent tokenizers",
  "Loading is faithful: a configuration given as a string or as a tokenizer.json file, with its object fields in any order, with any insignificant whitespace, and with any characters of its string values, vocabulary entries and special-token names written literally or as JSON escapes, yields tokenizers that behave identically. Every vocabulary entry, merge, special token and option of the file takes effect with exactly the value written (except that added tokens get their ids as property C10 says), and unknown extra fields are ignored. Field names of the format itself are written literally.",
  ["configurations", "inputs"], "all permutations of component fields, all escape spellings, string vs file, all option values, vocabularies covering every byte-level character",
  "The tests write every configuration in one spelling and order.",
  [S+"tokenizer.cpp", S+"utils.cpp", S+"post_processor.cpp", S+"added_vocabulary.cpp"],
  [("vocabulary reader", "src/utils.cpp get_map_ints_from_json"), ("component factories", "with_* functions")], (), ["Tokenizer constructor"])
p("C07", "WordPiece segments every word greedily, longest match first",
  "Every word (in characters, not bytes or UTF-16 units) no longer than the configured limit is cut, left to right, into the longest vocabulary entries available at each position, using the continuation prefix for every piece but the first; if some position has no match the whole word becomes one unknown token, as does every longer word. The pieces cover the word exactly, carry the id the vocabulary gives them, and a word that is an added or special token is never segmented again.",
  ["inputs", "configurations"], "all small vocabularies over a small alphabet x all words up to a length (with multi-byte and non-BMP letters) x limits x prefixes; lengths around the limit",
  "Five tests use one word each; greedy matching depends on which overlapping entries exist.",
  [S+"model.cpp"], [("greedy loop", "src/model.cpp WordPiece::tokenize")], (), ["Model::tokenize", "Encoding::ids"])
p("C08", "BPE applies merges by priority, leftmost first, until none applies",
  "Without dropout, the BPE segmentation of every word equals: start from its characters (decorated with the continuation prefix and end-of-word suffix), repeatedly merge the adjacent pair with the lowest merge rank, leftmost first, until no merge applies. Characters missing from the vocabulary become byte tokens when byte fallback is on and all their bytes are in the vocabulary, otherwise the unknown token, fused with neighbouring unknown characters if so configured, always in text order; with ignore-merges a whole word in the vocabulary is one token. With dropout, the tokens still spell the word using vocabulary entries reachable by merges.",
  ["inputs", "configurations", "histories"], "all merge lists up to a size over a small alphabet x all words up to a length x flag combinations; long words; repeated encodes through the cache",
  "Three tests use one merge table whose result does not depend on merge order.",
  [S+"model.cpp"], [("merge queue", "src/model.cpp Word::merge_all"), ("initial symbols and fallback", "src/model.cpp BPE::merge_word"), ("cache", "src/model.cpp BPE::tokenize_with_cache")],
  [("merges", "pair to (rank, new id)", "include/tokenizers/model.h BPE")], ["Model::tokenize", "Encoding::ids"])
p("C09", "Added tokens are found in every text exactly as configured",
  "In every text, scanning left to right, an added token is recognized wherever its content occurs, longest first at each position (of several with the same normalized spelling, special tokens first and then the one added first), and becomes exactly one token with its id: non-normalized tokens are matched in the raw text, normalized ones (themselves normalized) in the normalized text between them. A single-word token is recognized only if no word character touches it; left/right stripping tokens swallow the adjacent white space; the rest of the text is tokenized as if the token were not there, and neither normalizer, pre-tokenizer nor model alters a recognized token.",
  ["inputs", "configurations", "histories"], "all sets of 1-3 added tokens with overlapping contents x all flag combinations x all texts up to a length over their characters, spaces, letters and non-ASCII",
  "One test has five non-overlapping ASCII tokens surrounded by spaces.",
  [S+"added_vocabulary.cpp"], [("matching", "src/added_vocabulary.cpp AddedVocabulary::find_matches"), ("two-phase extraction", "src/added_vocabulary.cpp AddedVocabulary::extract_and_normalize")])
p("C10", "Added tokens get stable, unique, decodable ids",
  "For every sequence of add_tokens and add_special_tokens calls, a content already known to the model or added before keeps its id, and a new content gets the next id: the vocabulary size if no added id reaches it, else one more than the largest added id (so ids are unique for models whose ids are 0..n-1). Every added token encodes to its id and that id decodes back to its content, tokens added earlier keep working, empty contents are ignored, and skip-special-tokens drops exactly the tokens added with the special flag set.",
  ["histories"], "breadth-first over all sequences of add operations up to a depth, over contents that collide with the model vocabulary, with each other and by prefix",
  "No test adds tokens after construction; id assignment depends on the whole history.",
  [S+"added_vocabulary.cpp", S+"tokenizer.cpp"], [("id assignment", "src/added_vocabulary.cpp AddedVocabulary::add_tokens"), ("matcher refresh", "src/added_vocabulary.cpp AddedVocabulary::refresh_added_tokens")],
  [("added token maps", "content to id and id to token", "include/tokenizers/added_vocabulary.h")], ["add_tokens", "add_special_tokens", "encode", "decode"])
p("C11", "Byte-level tokenization loses no byte of any text",
  "With byte-level pre-tokenization and decoding and a vocabulary holding the 256 byte symbols, decode(encode(text)) returns the UTF-8 bytes of the text for every text (apart from a configured prefix space), whatever the merges, the splitting option or the added tokens are (apart from white space that a stripping added token is configured to swallow, and added tokens spelled with non-ASCII byte symbols). The 256 bytes map one-to-one to 256 distinct printable symbols, the same ones in pre-tokenization, decoding and offset trimming, and every byte sequence spelled with them decodes to exactly those bytes.",
  ["inputs"], "all 256 bytes and pairs of bytes, every Unicode scalar value, all short strings over one representative per UTF-8 length and white-space class",
  "The tests decode one ASCII sentence; the bytes 0x7F-0xA0, 0xAD and all multi-byte text are never exercised.",
  [S+"common.cpp", S+"pre_tokenizer.cpp", S+"decoder.cpp"], [("byte alphabet", "src/common.cpp bytes_char"), ("byte encoding", "src/pre_tokenizer.cpp ByteLevelPreTokenizer::pre_tokenize"), ("byte decoding", "src/decoder.cpp ByteLevelDecoder::decode_chain")])
p("C12", "Pre-tokenizers cut every text at the right places and nowhere else",
  "For every text, the pieces a pre-tokenizer returns appear in order, do not overlap, and are the non-empty maximal parts its rule defines: BERT drops Unicode white space and isolates every punctuation character (all ASCII symbols and Unicode punctuation); byte-level follows the GPT-2 pattern and optionally prefixes a space to parts not starting with white space; Split finds its pattern (regular expression or literal) and removes, isolates or merges the matches as its behaviour and invert options say. Only removed delimiters disappear; piece positions count characters; parts already recognized as added tokens are not cut.",
  ["inputs", "configurations"], "every Unicode scalar value in context, all strings up to a length over one representative per character class, all behaviours x invert x patterns",
  "The tests split five ASCII sentences; the classes and behaviours are defined over all characters.",
  [S+"pre_tokenizer.cpp"], [("matching", "src/pre_tokenizer.cpp find_matches"), ("behaviours", "src/pre_tokenizer.cpp split_normalized"), ("classes", "src/pre_tokenizer.cpp is_whitespace, is_bert_punc")], (), ["PreTokenizer::pre_tokenize"])
p("C13", "Normalizers compute the text they are specified to compute",
  "For every text: NFC, NFD, NFKC and NFKD return the Unicode normalization form; BERT cleaning drops NUL, U+FFFD and all control, format, unassigned and private-use characters except tab, newline and carriage return and turns Unicode white space into spaces, ideographs are surrounded by spaces, accents (non-spacing marks after canonical decomposition) are stripped when asked for (or, if unset, when lower-casing), and lower-casing is Unicode's simple one-to-one mapping. Strip removes exactly the leading/trailing Unicode white space, StripAccents exactly the combining marks, Replace every occurrence of its literal pattern left to right, Prepend puts its text before any non-empty input; all accept the empty text.",
  ["inputs", "configurations"], "every Unicode scalar value alone and in context, all strings up to a length over one representative per effect, all option combinations",
  "The tests normalize one sentence per option.",
  [S+"normalizer.cpp"], [("normalizers", "src/normalizer.cpp *::normalize")], (), ["Normalizer::normalize"])
p("C14", "Results do not depend on the process environment",
  "For every configuration and input, encode and decode return the same result under every C/C++ locale setting and current directory, on every thread, and whichever other tokenizers were used before. In particular character classification and case mapping, number formatting and text conversion never follow the process locale.",
  ["configurations", "inputs"], "configurations x texts x environments: C locales (C, C.UTF-8 and Turkish, Azeri, German, Lithuanian, Japanese, Hindi, Persian ones compiled for the run), hostile stand-ins for the C character classification, custom C++ global locales, ICU default locales, working directories, threads, each in a fresh process",
  "The tests run in a single locale.",
  [S+"normalizer.cpp", S+"pre_tokenizer.cpp", S+"model.cpp"], [("locale-free classification", "src/normalizer.cpp, src/pre_tokenizer.cpp (ICU)")])
p("C15", "Truncation keeps every token in correctly sized, overlapping windows",
  "For every encoding, maximum length, stride and direction, truncation yields a first window and overflowing windows that are contiguous slices of at most maximum-length tokens, each next window overlapping the previous by exactly the stride (the last may be shorter when it reaches the end, or start, of the text), so that together they contain every token. From the right the first window is the beginning of the text, from the left its end; with maximum length 0 the main encoding is empty and the whole text is the overflow; parameters that cannot be honoured (stride not below the maximum length, negative lengths, a strategy that needs a second sequence or is unknown, an unknown direction) are rejected with an exception when truncation is needed, rather than looping; maximum length 0 needs neither stride nor direction.",
  ["inputs", "configurations"], "all encoding lengths 0..N x all maximum lengths x all strides x directions x strategies",
  "Two tests truncate two tokens to one.",
  [S+"utils.cpp"], [("window computation", "src/utils.cpp truncate"), ("strategy", "src/utils.cpp Truncation::truncate_encoding")], (), ["Truncation::truncate_encoding", "Encoding::overflowing"])
p("C16", "Padding reaches exactly the target length and changes nothing else",
  "For every encoding, padding extends the main encoding and each overflowing window to the target length (the fixed size, or the main encoding's own length, rounded up to the configured multiple) by adding only pad entries (pad id, pad type id, pad token, attention 0, special mask 1, offsets (0,0)) on the configured side, and leaves the original entries unchanged and in order. (The word index of a pad entry is unspecified.) Encodings already at or beyond the target are returned unchanged.",
  ["inputs", "configurations"], "all encoding lengths x fixed sizes x multiples x directions x strategies, with nested overflow windows",
  "Two tests pad on the right with one multiple.",
  [S+"utils.cpp"], [("target length", "src/utils.cpp Padding::pad_encoding"), ("insertion", "src/utils.cpp pad")], (), ["Padding::pad_encoding"])
p("C17", "Templates place sequence and special tokens as written, in every window",
  "For every template and encoding, post-processing with special tokens returns the pieces in template order: the sequence's tokens unchanged except for the piece's type id, and each special token's ids and tokens with the piece's type id, special mask 1, attention mask 1, no word index and offsets (0,0). Without special tokens only the sequence remains. Every overflowing window is wrapped in the same way.",
  ["inputs", "configurations"], "all templates up to a number of pieces x multi-id special tokens x type ids x encodings with 0-3 overflow windows x flag",
  "The tests use one BERT template and no overflow.",
  [S+"post_processor.cpp"], [("template application", "src/post_processor.cpp TemplateProcessing::process")], (), ["PostProcessor::process"])
p("C18", "Decoding is total and renders every id sequence as the decoder specifies",
  "For every sequence of ids (known, unknown, negative, special, repeated, empty), decode returns normally: unknown ids contribute nothing, special tokens are dropped exactly when requested, and the remaining tokens are rendered by the configured decoder: WordPiece joins continuations and separates words by a space with optional clean-up, byte-level maps symbols back to bytes, Replace, Strip, ByteFallback, Fuse and Sequence do what their names specify. Without a decoder, tokens are joined by single spaces.",
  ["inputs", "configurations"], "all id sequences up to a length over a vocabulary with one token per decoder effect x all decoders and chains",
  "The tests decode three fixed token lists and never an unknown id; four decoders have no test at all.",
  [S+"decoder.cpp", S+"tokenizer.cpp"], [("id lookup and filtering", "src/tokenizer.cpp Tokenizer::decode"), ("decoders", "src/decoder.cpp *::decode_chain")], (), ["Tokenizer::decode", "Decoder::decode_chain"])
p("C19", "The configured maximum length bounds the final encoding",
  "With truncation configured, no encoding returned by encode, main or overflowing, has more tokens than the maximum length, special tokens inserted by post-processing included (unless the special tokens alone exceed it), before padding; nothing is lost: main and overflowing encodings together contain every token of the text. If the text fits, it is not truncated. If the special tokens leave no room at all, the main encoding holds only them and the whole text is overflow. Padding then brings every window to the padded length. (Templates that place the text once; parameters that truncation cannot honour are rejected with an exception.)",
  ["inputs", "configurations"], "all text lengths x maximum lengths x strides x templates x padding strategies x add-special-tokens",
  "No test combines truncation with a post-processor.",
  [S+"tokenizer.cpp", S+"utils.cpp", S+"post_processor.cpp"], [("order and budget", "src/tokenizer.cpp Tokenizer::do_post_process")], (), ["Tokenizer::encode"])
p("C20", "Sequence components equal applying their members one after the other",
  "For every list of normalizers, pre-tokenizers, post-processors or decoders, including empty and nested lists, a Sequence of them behaves exactly as applying the members in order, and an empty Sequence changes nothing. Components inside a Sequence behave as they do alone.",
  ["configurations", "inputs"], "all member lists up to length 3 (and nestings) of every component kind x inputs",
  "One test per kind with one fixed list.",
  [S+"normalizer.cpp", S+"pre_tokenizer.cpp", S+"post_processor.cpp", S+"decoder.cpp"], [("Sequence implementations", "Sequence* classes")], (), ["normalize", "pre_tokenize", "process", "decode_chain"])
p("C21", "The Java binding returns exactly what the native library returns",
  "For every configuration and Java string, including supplementary characters, NUL and unpaired surrogates, the Java Tokenizer's encode returns the ids the native tokenizer gives for the same text, and decode returns the same text as a Java string. Native errors surface as Java exceptions and never terminate the virtual machine.",
  ["inputs"], "all Java strings up to a length over one representative per UTF-16/UTF-8 class, every scalar value, all configurations of a small set, id arrays, through a real JVM",
  "The binding has only an on-device test with one ASCII sentence, which is not run here.",
  ["android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp", "android/tokenizers_android/src/main/java/xyz/omkar/tokenizers/Tokenizer.java"],
  [("string conversion", "tokenizers_android_jni.cpp encode/decode/newTokenizer")], (), ["Java Tokenizer.encode", "Java Tokenizer.decode"])
p("C22", "No input crashes, hangs or corrupts the tokenizer",
  "For every wide string (any code unit values: NUL, surrogates, values above U+10FFFF, very long or empty, one character repeated many times) and every list of ids, encode and decode either return or throw a standard exception, without memory errors, and in time that grows no faster than roughly quadratically with the length. Texts consisting of valid characters never throw, and after a throw the tokenizer works as before.",
  ["inputs", "configurations"], "all short sequences over an alphabet of invalid and boundary code units x all components; length scaling per character class up to thousands of characters",
  "The tests pass only short valid text, without sanitizers.",
  [S+"tokenizer.cpp", S+"normalizer.cpp", S+"pre_tokenizer.cpp", S+"added_vocabulary.cpp", S+"model.cpp", S+"decoder.cpp"], [("index arithmetic", "all pipeline stages")])
p("C23", "Running out of memory in a call leaves the tokenizer intact",
  "If any single memory allocation made through operator new during encode, decode or construction fails, the call throws a standard exception (or succeeds), nothing is corrupted or leaked into later results, no lock stays held, and every later call returns what it would have returned had the failed call not been made. An addition of tokens that fails in this way, made again, has the effect it would have had at first.",
  ["fault_sequences"], "every allocation index of each operation x operations x follow-up calls",
  "No test injects allocation failures.",
  [S+"model.cpp", S+"tokenizer.cpp"], [("exception safety of the cache update", "src/model.cpp BPE::tokenize_with_cache"), ("value semantics of the pipeline", "src/tokenizer.cpp")])
p("C24", "Offset trimming removes exactly the byte-level spaces of each token",
  "With trimming on, byte-level post-processing moves each token's start forward by its number of leading byte-level space symbols and its end back by its trailing ones, never past each other, keeping a single leading space that the prefix option may have inserted (on the first token of each window, or on a token at offset 0), in the main encoding and in every overflowing window; tokens, ids and masks are unchanged. With trimming off nothing changes.",
  ["inputs", "configurations"], "all tokens up to a length over space symbol/letter/multi-byte letters x all offset pairs in a box x positions x option values x overflow windows",
  "The tests check a few hand-written tokens.",
  [S+"post_processor.cpp"], [("trimming", "src/post_processor.cpp ByteLevelProcessing::process_offsets")], (), ["PostProcessor::process"])
p("C25", "The run example prints exactly what the library returns",
  "For every configuration directory and command-line text (valid UTF-8), the run example exits normally and prints the text, then the ids, type ids, tokens, word indices (None where absent), offsets and attention mask of encode, and the decoded text, each value exactly as the library returns it and in the documented order. An empty list prints as [].",
  ["inputs", "configurations"], "all short command-line texts over a small alphabet x a small set of configuration directories, through the real program",
  "The example is only compiled, never run, by the test suite.",
  ["examples/run/run.cpp"], [("printing", "examples/run/run.cpp print_result")], (), ["standard output of the example"])
p("C26", "Encoding equals the composition of the configured stages",
  "For every configuration, encode returns exactly the result of: extracting non-normalized added tokens, normalizing, extracting normalized added tokens, pre-tokenizing, applying the model, truncating, post-processing and padding, each stage as specified and in this order, with ids, tokens, type ids, word indices and masks all as that composition gives them. A component that is null or absent in its function leaves its stage without effect.",
  ["inputs", "configurations"], "all combinations of components over small texts in which every stage interacts with the next, compared with an independent reference pipeline",
  "One end-to-end test with one sentence.",
  [S+"tokenizer.cpp"], [("pipeline order", "src/tokenizer.cpp Tokenizer::encode, do_tokenize, do_post_process")])
p("C27", "BPE dropout yields exactly the segmentations its choices allow",
  "With a BPE dropout probability strictly between 0 and 1, encoding a text consults random choices, and over all outcomes of those choices the possible results are exactly these: every word independently takes every segmentation that can be reached from its characters by merging neighbours that the merge list (with its ids) allows, in any order, until stopping anywhere, and nothing else. With probability 0 (or no dropout) the result is the full merge result, with probability 1 the characters alone. Each single choice skips a merge with the configured probability. A choice made in one call is never remembered in a later one, and offsets, cover of the text and decoding of every outcome are as for an ordinary segmentation.",
  ["inputs", "configurations", "schedules"], "all outcomes of all random choices (enumerated by taking over the generator) x all short words and pairs of words x merge lists x BPE flags",
  "The tests fix dropout at 0 and 1; the outcomes between are never looked at, and a cached or biased outcome is invisible in one sample.",
  [S+"model.cpp", "include/tokenizers/model.h"],
  [("skipping of merges and their restoration", "src/model.cpp merge_word / merge_all"), ("bypass of the cache", "src/model.cpp BPE::tokenize")],
  [("cache", "must not hold a random outcome", "include/tokenizers/model.h BPE")], ["Tokenizer::encode", "Model::tokenize"])
p("C28", "With byte fallback, decode undoes encode for every text",
  "For every SentencePiece-style BPE configuration (space replaced by U+2581 or left alone, optional prefix, byte fallback with all 256 byte tokens, decoder Replace, ByteFallback, Fuse, Strip in the usual order) and every valid text that contains neither U+2581 nor an added token, decode(encode(text)) with special tokens skipped equals the text exactly: whatever mixture of known, unknown, multi-byte and control characters, spaces at any place, with or without dropout, ignore-merges or fused unknown tokens.",
  ["inputs", "configurations"], "every Unicode scalar value in several contexts, and all short texts over an alphabet of interacting characters, for each configuration",
  "The tests cover byte fallback for one character, and the ByteFallback decoder not at all.",
  [S+"model.cpp", S+"decoder.cpp", S+"normalizer.cpp", S+"tokenizer.cpp"],
  [("characters to byte tokens", "src/model.cpp merge_word"), ("byte tokens to characters", "src/decoder.cpp ByteFallbackDecoder"), ("prefix and its removal", "src/normalizer.cpp Prepend, src/decoder.cpp StripDecoder")])
p("C29", "Tokenizers give back all memory and files they took",
  "After a tokenizer is destroyed, all memory and open files taken for it are given back, whatever was done with it before: construction from a string, a file, a missing file or a rejected configuration, encode, decode, adding tokens, calls that threw, in any order. While it lives, repeating an encode or decode call that was already made keeps no additional memory or files, so a service encoding the same requests for ever does not grow.",
  ["histories", "configurations", "fault_sequences"], "all operation histories up to a depth on each configuration; every truncation and field fault of small configurations; repetition of each call",
  "The tests never measure memory; a leak needs a failing construction, a given component kind or a repeated call.",
  [S+"tokenizer.cpp", S+"pre_tokenizer.cpp", S+"normalizer.cpp", S+"utils.cpp", S+"added_vocabulary.cpp", S+"model.cpp", S+"decoder.cpp"],
  [("ownership of components", "src/tokenizer.cpp Tokenizer members (unique_ptr)"), ("ICU handles", "src/pre_tokenizer.cpp Split, src/normalizer.cpp")],
  [("cache", "grows with distinct words only, never with repetition", "include/tokenizers/model.h BPE")], ["Tokenizer constructor and destructor", "encode", "decode", "add_tokens"])
p("C30", "Added tokens act only where they occur, and cut the text there",
  "Adding a token that does not occur in a text changes nothing in the result of encoding that text, and nothing in the decoding of the old ids, whatever the token's flags. Where an added token (a plain one: no space absorption, not single-word, not normalized) occurs and no other added token overlaps it or looks at its neighbours, it appears in the encoding exactly once for that place, and the text before it and the text after it are encoded exactly as if each had been given alone at its place, with ids, tokens, offsets (shifted) and type ids unchanged: nothing of one part influences the other.",
  ["inputs", "configurations"], "all complete configurations and all normalizer x pre-tokenizer pairs x all flag combinations x texts, as relations between runs of the implementation",
  "The tests add one token to one configuration and look at one text.",
  [S+"added_vocabulary.cpp", S+"tokenizer.cpp", S+"normalizer.cpp", S+"pre_tokenizer.cpp"],
  [("splitting around added tokens", "src/added_vocabulary.cpp extract_and_normalize / find_matches"), ("sections pre-tokenized separately", "src/tokenizer.cpp Tokenizer::encode")],
  [("matchers", "patterns built from the added tokens", "include/tokenizers/added_vocabulary.h AddedVocabulary")])
p("C31", "Text conversion between UTF-8 and characters is exact",
  "Converting UTF-8 text to characters and characters to UTF-8 are inverse on all valid text: every Unicode scalar value, NUL and noncharacters included, at every position, converts to itself and back, and the length in characters is the number of code points. A malformed byte sequence (overlong, surrogate, stray or missing continuation byte, value above U+10FFFF) either throws a standard exception or yields only characters of the well-formed text before it; it never yields a character the bytes do not spell. Characters that have no UTF-8 form throw or are cut off in the same way.",
  ["inputs"], "every Unicode scalar value alone and in context, every byte sequence of up to 2 bytes (thorough: 3), all 4-byte sequences over the bytes bordering each role in UTF-8, all sequences of boundary characters",
  "The tests convert no text but ASCII and one accented word.",
  [S+"common.cpp", "include/tokenizers/common.h"], [("conversion functions", "src/common.cpp convert_from_string, convert_to_string")], (), ["convert_from_string", "convert_to_string"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
