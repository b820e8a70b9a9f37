prop("X01", "Extracted grammars are exactly the rules the corpus supports",
     """For every word-aligned corpus and sentence, the extracted grammar holds each hierarchical rule whose source side the sentence contains
     and which some occurrence in the corpus supports consistently with its alignment, and no other rule, with counts, lexical scores,
     singleton flags and alignment of the sampled occurrences. Threads, compression, precomputation and file layout do not matter,
     and leaving a sentence out removes exactly its occurrences.""".replace(", and leaving a sentence out removes exactly its occurrences", ", nor does a sentence that is left out count"),
     "inputs",
     "all aligned corpora, test sentences, span, symbol, gap and sample limits, tight or loose phrases, precomputation and thread settings",
     """The unit tests mock every neighbour of a class; patterns with several gaps, precomputed collocations, sampling and left-out sentences
     only meet in whole extractions.""",
     "extractor/rule_factory.cc extractor/fast_intersector.cc extractor/precomputation.cc extractor/suffix_array.cc extractor/rule_extractor.cc extractor/rule_extractor_helper.cc extractor/target_phrase_extractor.cc extractor/backoff_sampler.cc extractor/translation_table.cc extractor/scorer.cc extractor/extract.cc extractor/sacompile.cc extractor/run_extractor.cc extractor/grammar.cc",
     [("finding patterns", "extractor/rule_factory.cc, fast_intersector.cc, precomputation.cc, suffix_array.cc"), ("extraction", "extractor/rule_extractor.cc, rule_extractor_helper.cc, target_phrase_extractor.cc"),
      ("scores", "extractor/features, translation_table.cc"), ("sampling", "extractor/backoff_sampler.cc")],
     "property-based testing: random aligned corpora, sentences and settings, the extraction programs against a declarative reference extractor; shrinking")
