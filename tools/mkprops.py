#!/usr/bin/env python3
"""Writes properties.jsonl (the texts are kept here, one call per property)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    o = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "hook_needed": None}}
    if state:
        o["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        o["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(o)


A = "src/core/analysis/"
p("A01", "Every analysis returned tiles the input exactly",
  "For every accepted input, the best analysis and every path through the reported beams is a chain of morphemes in which each starts at the character where the previous one ended, the first starts at the beginning and the last ends at the end of the input. "
  "Concatenating the surfaces of such a path gives back the input text, byte for byte.",
  ["inputs", "configurations"], "all dictionaries, unknown-word configurations, beam and global-beam settings and inputs",
  "Tests look at the best path of a few fixed sentences; a broken back pointer, boundary index or compacted node shows only on particular lattices.",
  [A + "lattice_builder.cc", A + "analysis_result.cc", A + "score_processor.cc", A + "lattice_types.cc", A + "analyzer_impl.cc"],
  [("back pointers of connection beams", "ScoreProcessor::makeBeams, makeT0Beam"), ("path extraction", "AnalysisPath::fillIn"), ("node placement", "LatticeBuilder")],
  [("ConnectionPtr", "boundary, left, right, beam and previous element of one connection", "lattice_types.h")],
  ["AnalysisPath after analysis", "beam data of lattice boundaries", "output formats"])
p("A02", "Dictionary candidates are exactly the dictionary words in the input",
  "For every position of the input reachable from its start, every dictionary entry whose indexed surface is written at that position appears as a candidate morpheme there exactly once (alone or grouped with entries that differ only in ungrouped fields), covering exactly that surface. "
  "No candidate claims to be a dictionary word unless the dictionary has that entry and its surface is the covered text, and the fields reported for it are the entry's fields.",
  ["inputs", "configurations"], "all dictionaries (prefix chains, homographs, multi-byte characters) and all inputs",
  "Tests query a handful of words; errors in trie traversal, entry grouping or deduplication depend on prefix structure and on homographs.",
  [A + "dictionary_node_creator.cc", A + "lattice_builder.cc", A + "dic_reader.cc", "src/core/dic/darts_trie.cc", "src/core/dic/dictionary.cc", "src/core/dic/entry_builder.cc"],
  [("double array trie traversal", "DictionaryNodeCreator::spawnNodes"), ("entry traversal", "dic::IndexedEntries"), ("lattice compaction", "LatticeCompactor")],
  None, ["nodes of the built lattice read through the output manager"])
p("A03", "Unknown-word candidates are exactly those the declared rules generate",
  "Each declared unknown-word rule (single character, character-class chunk, number, onomatopoeia, spelling normalisation) proposes a candidate for a span of the input exactly when the span satisfies that rule's definition over the characters and the dictionary, subject to its priority class. "
  "Candidates carry the template entry's fields with the surface and the fields declared as replaced taken from the input, and the declared placeholders hold the rule's indicator values.",
  ["inputs", "configurations"], "all inputs over the character classes and all dictionaries and rule declarations",
  "Tests contain one or two sentences per rule; the rules are small grammars over character classes whose corner cases (ends of input, adjacent classes, dictionary prefixes) are many.",
  [A + "unk_nodes_creator.cc", A + "numeric_creator.cc", A + "onomatopoeia_creator.cc", A + "normalized_node_creator.cc", A + "charlattice.cc", A + "unk_nodes.cc", "src/util/characters.cc"],
  [("rule implementations", "ChunkingUnkMaker, SingleUnkMaker, NumericUnkMaker, OnomatopoeiaUnkMaker, NormalizedNodeMaker"), ("priority filter", "AnalyzerImpl::makeUnkNodes1/2")],
  None, ["lattice seeds and extra nodes after seeding"])
p("A04", "Beam search returns the best paths and scores are sums of weights",
  "The score of each reported path is the sum, over its morphemes, of the model weights of the features that fire there, and each candidate's beam holds the best-scoring ways to reach it among the continuations of its predecessors' beams, best first and without repeats. "
  "With a beam at least as wide as the number of paths the returned analysis has the maximum score over all paths of the lattice.",
  ["inputs", "configurations"], "all lattices, weights, beam widths",
  "Tests fix one weight vector and a few sentences; pruning, tie and ordering errors need a lattice where the best path is not locally best.",
  [A + "score_processor.cc", A + "score_processor.h", A + "analyzer_impl.cc", A + "perceptron.cc", A + "ngram_computations.cc", A + "lattice_types.h", "src/core/impl/feature_impl_ngram_partial.cc"],
  [("beam assembly", "ScoreProcessor::makeBeams"), ("n-gram scoring", "ScoreProcessor::computeNgramScores / applyT0, applyT1, applyT2"), ("beam insertion", "EntryBeam / util::fill")],
  [("beam element", "pointer to predecessor and total score", "score_processor.h")], ["beam data of every boundary after scoring"])
p("A05", "Features depend on exactly the values their template names",
  "Two occurrences of a feature of the same template use the same weight whenever the values named by the template agree for all the morphemes involved, whatever the sentence, position or dictionary layout. "
  "They use different weights (up to the width of the hash) whenever any of those values differs, and so do features of different templates; every declared template fires exactly once per context it applies to.",
  ["inputs", "configurations"], "all feature templates over fields, length, surface codepoints, character classes, context and matches; all morpheme triples",
  "Tests compare a few features to hand-written combinations; a template reading the wrong column, offset or position changes only which features are shared.",
  ["src/core/impl/feature_impl_prim.cc", "src/core/impl/feature_impl_prim.h", "src/core/impl/feature_impl_compute.cc", "src/core/impl/feature_impl_pattern.cc", "src/core/impl/feature_impl_combine.cc", "src/core/impl/feature_impl_ngram_partial.cc", "src/core/impl/feature_computer.cc"],
  [("primitive features", "feature_impl_prim"), ("pattern hashing", "PatternDynamicApplyImpl"), ("n-gram hashing", "NgramDynamicFeatureApply, PartialNgramDynamicFeatureApply")],
  None, ["indices of n-gram features for morpheme triples of a lattice"])
p("A06", "The analysis of a text does not depend on what was analysed before",
  "An analyser gives for every input the same result (status, lattice, scores, output text) as a freshly created analyser with the same model and settings, whatever sequence of accepted, rejected, longer, shorter or empty inputs it has processed.",
  ["histories", "inputs"], "all sequences of inputs for one analyser",
  "Every test creates its own analyser and analyses one or two sentences; stale buffers, pools and counters need particular histories.",
  [A + "analyzer_impl.cc", A + "lattice_types.cc", A + "lattice_builder.cc", A + "extra_nodes.cc", A + "score_processor.cc", A + "analysis_input.cc", "src/util/memory.hpp"],
  [("reset of all per-input state", "AnalyzerImpl::reset / resetForInput"), ("pooled memory", "util::memory::PoolAlloc")],
  None, ["outputs of one analyser over a history against fresh analysers"])
p("A07", "Every well-formed input within limits is analysed; others fail cleanly",
  "Analysis succeeds for every structurally valid UTF-8 text not longer than the configured maximum, including texts with unassigned characters, control characters and no dictionary word, provided the declared unknown-word rules cover single characters. "
  "Malformed or oversized text is refused with an error that leaves the analyser usable, and an empty text gives an empty analysis.",
  ["inputs", "histories"], "all byte strings up to and just over the limits",
  "Tests analyse valid short Japanese text; they do not enumerate malformed sequences, limit lengths or uncovered characters.",
  [A + "analysis_input.cc", A + "analyzer_impl.cc", A + "lattice_builder.cc", "src/util/characters.cc", A + "analyzer.cc"],
  [("input check", "AnalysisInput::reset"), ("connectivity check and fallback", "AnalyzerImpl::prepareNodeSeeds, LatticeBuilder::checkConnectability")],
  None, ["status and path of analyses"])
p("A08", "Generated feature code and interpreted features give identical analyses",
  "For a specification, analysing with the precompiled feature code generated from it gives for every input the same lattice, the same score for every connection and the same analysis as interpreting the specification at run time; scoring n-grams piecewise gives the same sums as scoring whole triples.",
  ["inputs", "configurations"], "all inputs, weights and models of a specification with generated code",
  "Tests compare the two on two sentences; generated code that differs for one template or offset needs a morpheme triple that makes it matter.",
  ["src/core/codegen/pattern_feature_codegen.cc", "src/core/codegen/ngram_feature_codegen.cc", "src/core/codegen/partial_ngram_feature_codegen.cc", "src/core/codegen/feature_codegen.cc", "src/core/impl/feature_impl_ngram_partial_kernels.h", "src/core/features_api.cc"],
  [("code generators", "StaticFeatureCodegen"), ("partial n-gram kernels", "feature_impl_ngram_partial_kernels.h"), ("specification hash check", "CoreHolder::initialize")],
  None, ["beam scores and paths of the two analysers"])
p("A09", "Global and automatic beams only restrict the search",
  "With a global beam, a boundary's candidates are scored only against the best-scoring left contexts of that boundary, at most the configured number, and at most the configured number of right candidates keep their place; scores, tiling and ordering stay exact for what is kept. "
  "When the limits are not smaller than what a sentence offers, the result equals that of the unrestricted search with the same beam.",
  ["inputs", "configurations"], "all lattices and settings of left, check and right beams, fixed or derived from sentence length",
  "Two regression sentences run with one global-beam setting; selection and renumbering errors depend on how candidates tie and interleave.",
  [A + "score_processor.cc", A + "analyzer_impl.cc", A + "score_processor.h", "src/core/env.cc"],
  [("left beam", "ScoreProcessor::makeGlobalBeam"), ("right ranking and dedup", "ScoreProcessor::computeT0Prescores, makeT0cutoffBeam, dedupT0"), ("automatic sizes", "AnalyzerImpl::autoBeamSizes")],
  None, ["beam data and global beam of each boundary"])

p("A10", "A recurrent network rescores exactly the paths that survive",
  "With a recurrent network, read from its files or from inside the model, the feature search finds the same final paths with the same feature scores as without it. Every word of every one of them gets the score the network assigns to that word after all words before it on that path; words the network does not have get the configured constant plus the penalty times their length; the accumulated score is the weighted sum, and the best paths are those with the highest sums, in order. "
  "Options stored with the network hold unless given again for the analysis, and a weight of zero given then switches the network off.",
  ["inputs", "configurations"], "all networks, vocabularies, sentences and weights; paths sharing words in every way",
  "The tests of the network need files that are not in the repository; scores go wrong only where paths with the same words merge, where the context is longer than a word, or where a network comes back from a model file.",
  [A + "rnn_scorer_gbeam.cc", A + "rnn_id_resolver.cc", A + "rnn_id_resolver.h", "src/core/env.cc", "src/rnn/mikolov_rnn.cc"],
  [("network scores", "GbeamRnnState::computeContext, computeScores"), ("merging of paths", "RnnIdContainer::addPrevChain, addPath"), ("final scores", "ScoreProcessor::adjustBeamScores, remakeEosBeam")],
  None, ["node scores, beams and global beam of the lattice"])

D = "src/core/dic/"
p("D01", "A dictionary gives back exactly what was imported",
  "After building a dictionary from rows, saving it and loading it, looking up any surface finds every row with that surface, with every field equal to the imported text, list and key-value fields holding exactly the imported items (as bags: their order is not kept) and empty fields empty; nothing else is found. "
  "Rows that agree in all grouping fields share one candidate, in the order of the file and individually visible except that the fields features use are those of the first of them (node aliasing in docs/spec.md); rows that do not fit the declared columns make the import fail instead of being dropped.",
  ["inputs", "configurations"], "all specifications (storages, separators, alignments, defaults) and all sets of rows",
  "Tests import a few rows; offsets, alignment, string sharing and alias groups only go wrong for particular lengths, repeats and orders.",
  [D + "dic_builder.cc", D + "dic_build_detail.cc", D + "entry_builder.cc", D + "field_import.cc", D + "field_reader.h", D + "dictionary.cc", D + "darts_trie.cc", "src/core/impl/model_io.cc"],
  [("string and list storages", "StringStorage, StringListStorage"), ("entry table and alias groups", "EntryTableBuilder"), ("trie payload", "DoubleArrayBuilder")],
  None, ["entries read through node walkers and string fields of the loaded dictionary"])
p("D02", "The row reader implements its documented quoting rules",
  "For every file, separator and quote character, the row reader delivers exactly the rows and fields that RFC 4180 quoting with LF or CRLF line ends gives, including empty fields at either end and line ends inside quotes, and then stops. "
  "A malformed row is not delivered, nothing after it is, and the rows before it are unaffected.",
  ["inputs"], "all byte strings, separators and quotes",
  "A finite list of examples; the reader is a state machine whose states combine quote, separator, CR, LF and end of file.",
  ["src/util/csv_reader.cc", "src/util/csv_reader.h", "src/util/char_buffer.h"],
  [("field scanner", "CsvReader::nextLine"), ("unescaping", "CsvReader::unescapeString")], None, ["rows, fields and positions of the reader"])
p("D03", "Value-match features test the column they name",
  "A feature that matches a field (or several fields) against given values fires for a morpheme exactly when that field's text of that dictionary entry, or one of its items for list fields, is one of the values, for whole-field, list and multi-field matches from inline values or files. "
  "This does not depend on the order in which columns are declared, on which columns are stored, or on how many entries the dictionary has.",
  ["inputs", "configurations"], "all column layouts, match tables and dictionary rows",
  "Tests declare columns in file order, where field numbers and column numbers coincide.",
  [D + "dic_feature_impl.cc", D + "dic_feature_impl.h", D + "dic_build_detail.cc", "src/core/spec/spec_compiler.cc"],
  [("match features at import time", "MatchListDicFeatureImpl, MatchTupleDicFeatureImpl")], None, ["feature values of entries; features firing in a lattice"])
p("D04", "Model files round-trip, and damaged ones are refused",
  "Saving a model and loading it again gives every part, in order, with the same bytes and metadata; saving over an existing file replaces it. "
  "A file that is empty, too short for its header, has a wrong signature or version, or is cut before the end of its parts is refused with an error, not loaded and not crashed on; so is what is left when saving failed or was interrupted (unless that is the previous model, whole).",
  ["inputs", "fault_sequences"], "all part lists and sizes; every truncation point and header damage",
  "One round trip of small parts is tested; alignment, header size and truncation are not.",
  ["src/core/impl/model_io.cc", "src/core/impl/model_io.h", "src/core/impl/model_format_ser.h", "src/util/mmap.cc", "src/util/coded_io.cc", "src/util/serialization.h"],
  [("block layout with alignment", "ModelSaver::save"), ("header check", "FilesystemModel::load")], None, ["ModelInfo after load; status"])

I = "src/core/input/"
J = "src/jumandic/"
p("I01", "One output block per input sentence, in order, over all inputs",
  "The analyser program emits exactly one output block per input sentence, in input order, over all input files (or standard input), with the comment line directly before a sentence attached to that sentence's block only (formats without comments leave it out); a sentence that cannot be analysed yields an error block in its place and does not affect the others. "
  "The process exits with zero exactly when every file was read and every sentence analysed.",
  ["inputs", "histories", "fault_sequences"], "all sequences of files, lines, comments, empty lines, missing final newlines, invalid and oversized lines",
  "No test runs the program; readers are only used with single in-memory examples.",
  [J + "main/jumanpp.cc", J + "main/jumanpp.h", I + "stream_reader.cc", I + "pex_stream_reader.cc", J + "shared/jumandic_env.cc"],
  [("input loop", "main and InputOutput in jumanpp.cc"), ("line reader", "PlainStreamReader")], None, ["standard output and exit code of jumanpp_v2"])
p("I02", "Text is decoded into characters exactly",
  "A byte string decodes exactly when it is a sequence of lead bytes each followed by the number of continuation bytes it announces; the decoded characters' byte ranges are consecutive, cover the string and carry the encoded code points. "
  "Each code point belongs to exactly the character classes documented for it, and counting characters agrees with decoding them.",
  ["inputs"], "all byte strings; all code points",
  "Tests decode a few Japanese strings and classify a few characters.",
  ["src/util/characters.cc", "src/util/characters.h"],
  [("decoder", "getCodepoint, preprocessRawData, numCodepoints"), ("classifier", "getCodeType")], None, ["decoded code points, slices and classes"])
p("I03", "Partial annotations are read as written",
  "Reading a stream of partially annotated sentences yields, for each sentence in order, its text, its comment if it has one, the boundaries that must and must not exist and the words with their tags as written, and nothing carried over from other sentences. "
  "Malformed annotation lines are reported with their line number instead of being misread.",
  ["inputs", "histories"], "all annotation streams",
  "Tests read single hand-written examples.",
  [I + "partial_example_io.cc", I + "partial_example_io.h", I + "partial_example.h", I + "pex_stream_reader.cc"],
  [("annotation parser", "PartialExampleReader::readExample"), ("state of one example", "PartialExample")], None, ["PartialExample values and statuses"])
p("I04", "Partial annotations constrain the analysis",
  "Analysing with a partial annotation returns an analysis with a boundary at every required position, none at a forbidden one, and for each annotated word a morpheme with exactly that extent and those field values, whenever the lattice has such a path. "
  "Unannotated stretches are analysed as without annotation, among what remains.",
  ["inputs", "configurations"], "all annotations and lattices",
  "Two fixed examples; a constraint that is dropped shows only where the unconstrained analysis would violate it.",
  [I + "partial_example.cc", I + "partial_example.h", I + "pex_stream_reader.cc", "src/core/training/partial_trainer.cc"],
  [("penalty scores", "PartialExample::doesNodeMatch / PartialScorer")], None, ["analyses with partial examples"])
p("I05", "Lattice output lists consistent N-best paths",
  "The lattice output of a sentence contains exactly the morphemes of its N best paths, each once, numbered so that every listed predecessor is listed and ends where the morpheme starts, with ranks such that following rank k from end to start gives the k-th best path; the best path is that of the plain output. "
  "Fewer than N paths are listed only when the search kept fewer, and per-morpheme scores are those of the analysis.",
  ["inputs", "configurations"], "all sentences and N",
  "Two regression sentences are compared to their text.",
  [J + "shared/lattice_format.cc", J + "shared/lattice_format.h", A + "analysis_result.cc", J + "shared/juman_format.cc"],
  [("path collection", "LatticeFormat::format, LatticeFormatInfo")], None, ["lattice format output"])
p("I06", "Options follow their precedence, and bad ones are refused",
  "The effective value of each option is the one of the command line if given there, else of the configuration file in use (the one named on the command line, else the installed one, else the user's), else the built-in default, independently for every option; a model that the file names relative to itself is found. "
  "Unknown options, malformed values, and named files which can not be read or written are reported and prevent the run.",
  ["configurations"], "all combinations of options in three layers",
  "No test parses options.",
  [J + "shared/jumanpp_args.cc", J + "shared/jumanpp_args.h", "src/util/cfg.h"],
  [("layered values", "util::Cfg, JumanppConf::mergeWith"), ("parsers", "parseCfgFile, parseArgs")], None, ["JumanppConf after parsing; program behaviour"])
p("I07", "The text output formats agree on the analysis and stay parseable",
  "For one analysis, every output format lists the same morphemes in the same order (the best path), and the fields printed are those of the dictionary entry or of the unknown-word template. "
  "Output can be split back into its fields for every surface, including ones that contain separators, quotes, blanks or backslashes, by the format's documented escaping.",
  ["inputs", "configurations"], "all sentences and dictionaries, including special characters",
  "Tests print a few words without special characters.",
  [J + "shared/juman_format.cc", J + "shared/morph_format.cc", J + "shared/mdic_format.cc", J + "shared/subset_format.cc", "src/core/impl/segmented_format.cc", A + "output.cc"],
  [("formatters", "JumanFormat, MorphFormat, MdicFormat, SubsetFormat, SegmentedFormat")], None, ["texts of all formats for one analysis"])

T = "src/core/training/"
p("T01", "Parallel training handles every example exactly once and terminates",
  "Under every interleaving of the submitting thread and the workers, each submitted example is processed exactly once, each result is delivered exactly once with its own example's outcome, waiting never deadlocks, and shutting down returns after finishing or abandoning queued work. "
  "An error of one example reaches the caller and does not disturb later batches.",
  ["schedules", "fault_sequences"], "all interleavings of producer and workers, all batch sizes, thread counts and failure positions",
  "Training tests run one or two batches on whatever schedule the machine picks.",
  [T + "training_executor.cc", T + "training_executor.h", T + "training_env.cc", "src/util/bounded_queue.h"],
  [("task and result queues", "TrainingExecutor::submit, nextReady, runTask"), ("batch loop", "TrainingEnv::trainOneBatch")],
  [("queues, stop flag", "pending examples and results", "training_executor.h")], ["order of trainer calls and delivered results"])
p("T02", "Updates follow the difference between gold and predicted analyses",
  "Training on an example builds a gold path that tiles the sentence with exactly the annotated morphemes (an unknown word is stood for by an unknown-word candidate of the same surface which agrees or is allowed to, else one is made), and the loss is zero exactly when the predicted path equals it on the fields that count. "
  "Otherwise the update contains exactly the features that do not fire equally often at the morphemes where the two paths disagree or the prediction leads, increasing those more frequent in gold, decreasing those more frequent in the prediction, and weights of no other feature change.",
  ["inputs", "configurations"], "all examples, weights, beams",
  "Tests check that training a tiny corpus lowers the loss.",
  [T + "loss.cc", T + "loss.h", T + "gold_example.cc", T + "trainer.cc", T + "trainer_base.cc", T + "partial_trainer.cc"],
  [("feature difference", "LossCalculator::computeFeatureDiff"), ("gold path", "TrainingExampleAdapter")], None, ["feature difference, loss and gold path of a trainer"])
p("T03", "Training corpora are read completely and as written",
  "Reading an annotated corpus yields every example of the file, in order and in full, for every batch size, with the sentence text the concatenation of its surfaces, every field value as written, and the comment of that example; a last example without terminator counts. "
  "Malformed lines are reported, not skipped or merged with their neighbours.",
  ["inputs", "histories"], "all corpora in the supported formats and all batch sizes",
  "Tests read corpora of one to three examples.",
  [T + "full_example.cc", T + "full_example.h", I + "training_io.cc", T + "training_env.cc"],
  [("example readers", "FullExampleReader::readDoubleCsv, readSimpleCsv"), ("batches", "TrainingDataReader::readFullBatch")], None, ["examples and batches"])
p("T04", "A trained model scores like the weights it was trained with",
  "Exporting a trained model, saving and loading it gives an analyser whose weights equal the averaged or final weights of the trainer for every feature, so that its analyses equal those the trainer would make. "
  "Training on a corpus that the model already reproduces leaves the weights unchanged.",
  ["inputs", "histories"], "all training runs, feature-table sizes and algorithms settings",
  "Tests do not reload a trained model and compare it.",
  [T + "scw.cc", T + "training_env.cc", "src/core/impl/perceptron_io.h", A + "perceptron.cc", J + "main/jumanpp_train.cc"],
  [("export", "SoftConfidenceWeighted::exportModel"), ("load", "HashedFeaturePerceptron::load")], None, ["weights before export and after load"])
p("T05", "Confidence-weighted updates move weights soundly",
  "An update with positive loss changes the weight of every feature of the difference in the direction of its sign and of no other feature, never increases any feature's variance, and keeps every variance positive and every value finite; with the margin already met nothing changes. "
  "Updates do not depend on features outside the difference, and repeating an example makes its margin grow.",
  ["histories", "inputs"], "all sequences of updates",
  "Tests run whole training epochs and look at the loss.",
  [T + "scw.cc", T + "scw.h"],
  [("update rule", "SoftConfidenceWeighted::update, calcAlpha, calcBeta")], None, ["weights and variances after updates"])

S = "src/core/spec/"
p("S01", "A textual specification means what the grammar says",
  "A specification text is accepted exactly when it follows the grammar and refers only to declared things, and the analysis specification built from it equals the one built by declaring the same fields, features, unknown-word rules, n-grams and training fields directly. "
  "Comments, blank space, statement order where it does not matter, and string escapes do not change the result, and rejected texts name the offending position.",
  ["programs"], "all specification texts",
  "Tests parse short snippets, one construct each.",
  [S + "spec_parser.cc", S + "spec_parser_impl.cc", S + "spec_parser_impl.h", S + "spec_grammar.h", S + "spec_dsl.cc", S + "spec_compiler.cc"],
  [("grammar", "spec_grammar.h"), ("actions", "SpecParserImpl"), ("compiler", "SpecCompiler")], None, ["AnalysisSpec from text and from builder calls"])
p("S02", "Specifications survive saving and are told apart",
  "Saving and loading a specification gives an equal one for every specification the builder can produce, and truncated or foreign data is refused. "
  "Feature code generated for one specification is accepted for models whose features are the same and refused for models with any difference in fields, features or n-grams.",
  ["inputs", "configurations", "fault_sequences"], "all specifications; all truncations",
  "One specification is serialised in tests and one hash compared.",
  [S + "spec_serialization.cc", S + "spec_ser.h", S + "spec_hashing.cc", "src/util/serialization.h", "src/util/coded_io.cc"],
  [("serialisers", "spec_ser.h"), ("specification hash", "hashSpec")], None, ["restored specification; hash"])
p("U01", "The bounded queue is a linearisable FIFO",
  "Under every interleaving of producers and consumers, the queue delivers each accepted element exactly once and in acceptance order per queue, never holds more than its capacity, refuses offers only when full and polls only when empty, and wakes a blocked caller when it can proceed.",
  ["schedules"], "all interleavings of any number of producers and consumers",
  "No test exercises the queue directly.",
  ["src/util/bounded_queue.h"], [("ring buffer with lock and condition variables", "bounded_queue")], None, ["recorded call histories"])
p("U02", "Container classes behave like the maps, sets and buffers they stand for",
  "For every sequence of operations the hash map and hash set hold exactly what was inserted and not overwritten (through growth and for colliding keys), the cache returns only what was stored under that key, keeps its capacity of most recently used keys and drops what was not used for twice as many other keys, and memory handed out by pools is disjoint, aligned and stable until reset.",
  ["histories"], "all operation sequences",
  "Tests perform a few operations per container.",
  ["src/util/flatmap.h", "src/util/flatset.h", "src/util/flatrep.h", "src/util/lru_cache.h", "src/util/memory.hpp", "src/util/memory.cpp", "src/util/char_buffer.h", "src/util/inlined_vector.h"],
  [("open addressing", "flatrep.h"), ("recency list", "lru_cache.h"), ("pool", "memory.hpp")], None, ["results of operation sequences"])
p("U03", "Binary encodings round-trip and reject truncated data",
  "Every integer, string and structure written by the binary encoders is read back equal, with any other data following it undisturbed; reading from data cut at any byte reports failure and never yields a value or touches memory outside the data.",
  ["inputs", "fault_sequences"], "all values, all truncation points",
  "Tests encode a few values.",
  ["src/util/coded_io.cc", "src/util/coded_io.h", "src/util/serialization.h", "src/util/serialization_flatmap.h"],
  [("variable length integers", "CodedBuffer, CodedBufferParser"), ("structures", "util::serialization")], None, ["decoded values and statuses"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as h:
    for o in sorted(P, key=lambda o: o["id"]):
        h.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(P))
