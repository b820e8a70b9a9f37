prop("D01", "Text decoding explores exactly the derivations of the grammar",
     """For every input sentence, set of synchronous grammars (shared and per-sentence, with or without glue rules,
     pass-through rules and a span limit) and weights, the decoder finds a translation exactly when the grammars derive
     one. The forest it builds has exactly the derivations of the grammars, so the 1-best output is a highest-scoring
     derivation, the k-best list is the k highest-scoring derivations (or distinct translations) in descending order
     with their true features, and the reported partition function is the sum over all derivations.""",
     "inputs configurations",
     "all grammars without unary cycles, sentences, weights and decoder options of the SCFG formalism",
     """The system tests decode a handful of sentences with fixed grammars; whether a derivation is lost, duplicated or
     misscored depends on how rules, spans, categories and ties combine.""",
     "decoder/bottom_up_parser.cc decoder/scfg_translator.cc decoder/grammar.cc decoder/kbest.h decoder/viterbi.h decoder/decoder.cc",
     [("chart parsing", "decoder/bottom_up_parser.cc PassiveChart::Parse"), ("lazy k-best extraction", "decoder/kbest.h LazyKthBest")],
     "property-based testing: random grammars and inputs against an exhaustive reference enumeration of derivations, with shrinking")
prop("D02", "Lattice decoding is decoding of every path with its arc scores",
     """For every word lattice (written in the lattice notation, with arc features, arcs of any length, parallel arcs and empty arcs) and every
     grammar, the decoder's forest has exactly the derivations whose source side spells a path through the lattice, each scored with
     its rules' features plus the features of the arcs it covers. A lattice with a single path decodes as the sentence it spells.""",
     "inputs configurations",
     "all acyclic lattices with arcs that lead forward, grammars, weights and decoder options",
     """The system tests decode a few fixed lattices; arc costs can be lost, doubled or put on the wrong span only in lattices with
     parallel paths of different length.""",
     "decoder/lattice.cc decoder/bottom_up_parser.cc decoder/hg_io.cc decoder/scfg_translator.cc",
     [("lattice reading", "decoder/hg_io.cc"), ("arc features on rules", "decoder/bottom_up_parser.cc ActiveChart::ActiveItem"),
      ("span limits by shortest path", "decoder/lattice.cc Lattice::ComputeDistances")],
     "property-based testing: random lattices and grammars against an exhaustive reference enumeration; metamorphic single-path relation")
prop("D03", "Feature functions and search strategies score the same derivations exactly",
     """Whatever feature functions are configured in any number of rescoring passes, every derivation in the output carries exactly
     the feature values that their definitions give its rules, spans and whole output string (an n-gram model scores the whole
     sentence with its boundaries), however the string was assembled. Full intersection and unlimited cube pruning (all variants)
     keep every derivation with the same best score, k-best list and partition function; limited pop sizes only lose
     derivations, and beam or density pruning keeps the best derivation and everything inside the beam.""",
     "inputs configurations",
     "all grammars, inputs, weights, combinations of modelled feature functions, passes, search strategies and pruning limits",
     """Features that span rule boundaries depend on how partial states combine; an error shows only for particular orders of words,
     nonterminals and context lengths, and a wrong state merge only changes which derivation wins.""",
     "decoder/apply_models.cc decoder/ffset.cc decoder/ff_klm.cc decoder/ff_ngrams.cc decoder/ff_basic.cc decoder/ff_rules.cc decoder/ff_lexical.h decoder/ff_ruleshape.cc decoder/ff_spans.cc decoder/ff_wordset.cc decoder/hg.cc klm/lm/left.hh decoder/decoder.cc",
     [("cube pruning", "decoder/apply_models.cc CubePruningRescorer"), ("full intersection", "decoder/apply_models.cc NoPruningRescorer"),
      ("language model state", "decoder/ff_klm.cc KLanguageModelImpl::LookupWords"), ("forest pruning", "decoder/hg.cc Hypergraph::PruneInsideOutside")],
     "property-based testing: features recomputed from their definition on every derivation of an exhaustive reference enumeration; differential between search strategies; shrinking")
prop("D05", "Phrase-based decoding covers the input with phrases in every allowed order",
     """For every phrase table and every sentence or lattice, phrase-based decoding builds exactly the derivations that cover
     each input position once with a phrase of the table, where each next phrase starts no further from the first uncovered position than
     the distortion limit (and with words copied when pass-through is on and the table cannot translate them), scored by their phrases' features. This
     does not depend on the sentences decoded before.""",
     "inputs histories",
     "all phrase tables, sentences, forward lattices, distortion limits, weights, sequences of sentences",
     """No test runs the phrase-based decoder; coverage bookkeeping fails only for particular overlaps of phrases, limits and earlier inputs.""",
     "decoder/phrasebased_translator.cc decoder/phrasetable_fst.cc decoder/decoder.cc",
     [("coverage search", "decoder/phrasebased_translator.cc PhraseBasedTranslatorImpl::Translate"), ("phrase table trie", "decoder/phrasetable_fst.cc TextFSTNode")],
     "property-based testing: random phrase tables and inputs against an exhaustive enumeration of phrase sequences, with shrinking")
prop("D04", "References: constrained forests, likelihoods, gradients and alignments",
     """Given a reference sentence or lattice with the input, the decoder keeps exactly the derivations whose output is a path of the
     reference, with unchanged scores (plus those of the reference's arcs), and says so when there are none. The conditional log
     probability, the gradient, the feature expectations and the objective it writes are the sums over these derivations and over all
     derivations; the alignment it writes links each target word to the source words with the highest posterior of being produced by the same rule
     (or follows the best derivations).""",
     "inputs configurations",
     "all grammars, inputs and references (sentences and lattices), weights, numbers of sentences combined in one vector, vector formats",
     """Tests compare a handful of training examples with stored output; reordering of several nonterminals, unary steps, repeated words
     and ambiguous references combine in ways they do not sample.""",
     "decoder/hg_intersect.cc decoder/aligner.cc decoder/decoder.cc decoder/inside_outside.h decoder/bottom_up_parser.cc",
     [("intersection with the reference", "decoder/hg_intersect.cc HG::Intersect"), ("gradient and expectations", "decoder/decoder.cc DecoderImpl::Decode"),
      ("alignment", "decoder/aligner.cc AlignerTools::WriteAlignment")],
     "property-based testing: random grammars, inputs and references against an exhaustive enumeration of derivations, with shrinking")
prop("D07", "Tagging and word alignment models score every labelling by its features",
     """For every tag set or lexicon and every sentence or sentence pair, the tagger and the lexical translation and alignment models consider
     exactly the labellings (one tag per word; one source word, or the null word, and one of its translations per target word), each scored by the
     documented indicators of its words, neighbouring words and jumps, word classes and tables included. Best lists, likelihoods, gradients,
     expectations and alignments are those of the labellings enumerated one by one.""",
     "inputs configurations",
     "all lexicons, tag sets, sentence pairs, subsets and options of the word alignment and tagging features, weights",
     """Tests never run the alignment features; conditions on the first, last, null and repeated words fail only for particular combinations.""",
     "decoder/lextrans.cc decoder/lexalign.cc decoder/tagger.cc decoder/ff_wordalign.cc decoder/ff_tagger.cc decoder/ff_factory.cc decoder/hg_intersect.cc decoder/factored_lexicon_helper.cc",
     [("labellings", "decoder/lextrans.cc LexicalTransImpl::BuildTrellis"), ("alignment features", "decoder/ff_wordalign.cc NewJump::TraversalFeaturesImpl"),
      ("tagging features", "decoder/ff_tagger.cc Tagger_BigramIndicator::TraversalFeaturesImpl"), ("reference constraint", "decoder/hg_intersect.cc FastLinearIntersect")],
     "property-based testing: random linear-chain models against an exhaustive enumeration of labellings, with shrinking")
prop("D08", "Compound splitting scores every segmentation and writes them as a lattice",
     """For every word, compound splitting considers exactly the ways to cut it into parts of at least three letters, with and without a linking
     element at the end of each inner part, each scored by the frequency, length, word list and character model features of its parts. Best lists and likelihoods
     are those of the segmentations enumerated one by one; the lattice it writes has exactly the segmentations that survive pruning (always with the whole
     word when asked to keep it), each arc with its score.""",
     "inputs configurations",
     "all words (any script), frequency, bad and special word lists, character models, weights, pruning limits, references",
     """No test runs the compound splitter; mixed scripts, linking elements at the minimum length and pruned lattices fail only for particular words.""",
     "decoder/csplit.cc decoder/ff_csplit.cc decoder/freqdict.h decoder/hg_io.cc decoder/hg.cc decoder/decoder.cc",
     [("segmentations", "decoder/csplit.cc CompoundSplitImpl::BuildTrellis"), ("features", "decoder/ff_csplit.cc BasicCSplitFeaturesImpl::TraversalFeaturesImpl"),
      ("lattice output", "decoder/hg_io.cc HypergraphIO::AsPLF")],
     "property-based testing: random words, lists and models against an exhaustive enumeration of segmentations, with shrinking")
prop("D06", "Finite-state translation covers sentences and source forests with phrases",
     """For every phrase table and every sentence or acyclic source grammar, finite-state translation builds exactly one derivation for each derivation
     of the source and each way to cut its words into phrases of the table (with words the table cannot start with copied when pass-through is on), the
     outputs in source order, scored by the features of the grammar rules and the phrases used. Phrases may cross constituents. This does not depend on
     the inputs decoded before.""",
     "inputs histories",
     "all phrase tables, sentences, acyclic source grammars, weights, references, sequences of inputs",
     """The one test composes a single five-rule grammar with four phrases; phrases that cross constituents reached in several ways are not in it.""",
     "decoder/fst_translator.cc decoder/earley_composer.cc decoder/hg_remove_eps.cc decoder/phrasetable_fst.cc",
     [("composition", "decoder/earley_composer.cc EarleyComposerImpl::Compose"), ("removal of empty constituents", "decoder/hg_remove_eps.cc RemoveEpsilons"),
      ("phrase trie", "decoder/phrasetable_fst.cc TextFSTNode")],
     "property-based testing: random phrase tables, sentences and source grammars against an exhaustive enumeration of derivations, with shrinking")
prop("D09", "Tree-to-string translation covers the tree with rules in every way",
     """For every parse tree and set of tree-to-string rules (shared and per-sentence, with or without pass-through rules), the derivations are exactly the
     ways to cover the tree with rules whose fragments match it node for node, open nodes being derived independently. Each has the output and the summed
     features of its rules. The decoder fails exactly when there is none, whatever trees were decoded before.""",
     "inputs histories",
     "all trees, rule fragments, rule files, weights, references, sequences of inputs",
     """The tests only parse and print single trees; whether a fragment matches depends on the shape of rule and tree around shared prefixes.""",
     "decoder/tree2string_translator.cc decoder/tree_fragment.h decoder/tree_fragment.cc",
     [("matching by traversal", "decoder/tree2string_translator.cc Tree2StringTranslatorImpl::Translate"),
      ("pass-through rules", "decoder/tree2string_translator.cc Tree2StringTranslatorImpl::CreatePassThroughRules"),
      ("tree traversal", "decoder/tree_fragment.h DepthFirstIterator")],
     "property-based testing: random trees and rule fragments against an exhaustive enumeration (or recursive sums) of derivations, with shrinking")
prop("D10", "Every view, summary and sample of the search space agrees with it",
     """For every decoded input, the expected length, the probability of a reference, posteriors used as a feature, and the most probable translation are
     those of the weighted set of derivations. Samples follow its distribution. The search space written as a grammar, as a target graph, as a picture, as a
     list of rules, trees or derivations denotes exactly those derivations, with their words, spans and features.""",
     "inputs configurations",
     "all grammars without unary cycles, sentences, weights, and ways of showing the search space",
     """The tests never look at these outputs; whether a view is faithful depends on reordered variables, shared parts and ambiguity.""",
     "decoder/decoder.cc decoder/hg_io.cc decoder/viterbi.cc decoder/viterbi.h decoder/inside_outside.h decoder/maxtrans_blunsom.cc decoder/hg_sampler.cc decoder/hg.cc",
     [("summaries", "decoder/decoder.cc DecoderImpl::Decode"), ("sampling", "decoder/decoder.cc MaxTranslationSample"),
      ("grammar view", "decoder/hg_io.cc HypergraphIO::WriteAsCFG"), ("target graph", "decoder/hg_io.cc HypergraphIO::WriteTarget"),
      ("most probable translation", "decoder/maxtrans_blunsom.cc"), ("derivation trees", "decoder/viterbi.cc JoshuaVisualizationString")],
     "property-based testing: random grammars, each view parsed back and compared with an exhaustive enumeration of derivations; statistical bounds for samples; shrinking")
prop("D11", "Forests on disk and further passes keep and rescore every derivation",
     """A forest written to disk and merged over several decoder runs holds exactly the union of the runs' derivations, and rescoring it gives what the
     rescoring features and weights assign to each of them. With up to three passes of features and weights in one run, each pass scores every derivation
     with the weights given for it, and features of all earlier passes stay.""",
     "inputs configurations histories",
     "all grammars, numbers of runs, features and weights per run and per pass",
     """The tests run single passes on single inputs; merging and repeated scoring go wrong only when runs differ or features overlap.""",
     "decoder/hg_union.cc decoder/hg_io.cc decoder/rescore_translator.cc decoder/decoder.cc decoder/apply_models.cc",
     [("union of forests", "decoder/hg_union.cc Union"), ("rescoring input", "decoder/rescore_translator.cc RescoreTranslator::TranslateImpl"),
      ("passes", "decoder/decoder.cc DecoderImpl::Decode")],
     "property-based testing: sequences of random runs merged on disk and rescored, against the composed derivations; shrinking")
prop("D12", "Forest pruning and coarse-to-fine search keep just what their beam allows",
     """Pruning of the search space by a score beam, by density or both keeps each derivation whose parts all lie on derivations within the limit, and
     no other, with unchanged features; the best derivation always survives. Coarse-to-fine decoding finds the refinements of the coarse derivations within the
     beam, widens the beam exactly as configured when there are none, and finally searches everything or reports failure.""",
     "inputs configurations",
     "all grammars and (nested) refinements, weights, beams, densities, widenings",
     """The tests contain no pruned run; a wrong cut shows only near the limit, or in what is silently missing from the list.""",
     "decoder/decoder.cc decoder/hg.cc decoder/inside_outside.h decoder/scfg_translator.cc decoder/bottom_up_parser.cc decoder/trule.h",
     [("pruning options", "decoder/decoder.cc DecoderImpl::maybe_prune"), ("margins", "decoder/hg.cc Hypergraph::PruneInsideOutside"),
      ("refinement", "decoder/scfg_translator.cc SCFGTranslatorImpl::RefineForest"), ("widening", "decoder/scfg_translator.cc SCFGTranslatorImpl::Translate")],
     "property-based testing: random grammars with refinements against an enumeration pruned by definition, with shrinking")
prop("D13", "Features of the source sentence and its parse tree follow their definitions",
     """Whatever source parse tree comes with a sentence, every derivation carries exactly the values that the definitions of the source-side features give
     its rules, their spans and the spans of their nonterminals: constituent match in each scoring, soft syntactic constraints (exact and by the nearest
     constituent), source syntax indicators with or without a list of admitted ones, span sizes, context templates, and source words and their
     neighbours. Neither the order in which derivations are built, nor other sentences, nor the search strategy or pass has an influence.""",
     "inputs configurations histories",
     "all grammars, sentences with trees (also sequences of them in one run), labels, scorings, templates, feature lists, search strategies",
     """The tests never give the decoder a source tree; a value remembered for a rule and span, but not for how it was split, is wrong only in ambiguous parses.""",
     "decoder/ff_parse_match.cc decoder/ff_soft_syntax.cc decoder/ff_soft_syntax_mindist.cc decoder/ff_source_syntax.cc decoder/ff_source_syntax2.cc decoder/ff_context.cc decoder/ff_source_path.cc utils/filelib.h",
     [("constituent match", "decoder/ff_parse_match.cc ParseMatchFeaturesImpl::FireFeatures"), ("source trees", "decoder/ff_source_syntax.cc SourceSyntaxFeaturesImpl::ParseTreeString"),
      ("templates", "decoder/ff_context.cc RuleContextFeatures::TraversalFeaturesImpl"), ("paths", "decoder/ff_source_path.cc SourcePathFeatures::TraversalFeaturesImpl")],
     "property-based testing: random grammars, sentences and parse trees against the features' definitions on every enumerated derivation, with shrinking")
prop("G01", "Grammars and parse trees mean what is written in them",
     """For every grammar text (any words and categories, features with and without names, alignments, trees, levels of projection, empty lines, a missing
     last newline, rules and files of any length), exactly the rules written are read, each with its symbols, features and alignment, nothing is printed,
     and no earlier grammar has an influence. A lookup returns the rules with that source side and no others; a printed rule or tree reads as itself.
     Trees are traversed in order, with the spans and words they have.""",
     "inputs histories",
     "all grammar texts, rule strings and bracketed trees, sequences of grammars",
     """The tests read a few short, well-formed rules; reading depends on what was read before, on buffer boundaries and on characters that also are syntax.""",
     "decoder/rule_lexer.ll decoder/trule.cc decoder/trule.h decoder/grammar.cc decoder/tree_fragment.cc decoder/tree_fragment.h",
     [("rule reader", "decoder/rule_lexer.ll"), ("grammar trie", "decoder/grammar.cc TextGrammar::AddRule"), ("tree reader", "decoder/tree_fragment.cc TreeFragment::ParseRec")],
     "property-based testing: random grammar texts and trees against the model they were written from, with shrinking; address sanitizer")
