prop("M01", "Corpus scores equal the metrics' definitions",
     """For every corpus of translations with one or more references, the reported score is the one its metric defines: BLEU with clipped
     n-gram counts and the length rule of each variant (closest, shortest or average reference, characters), word and character error
     rate, translation edit rate with block moves, string kernel similarity, and weighted combinations of them. References may come
     from several files or several to a line, and empty translations, repeated words and ties are no exception.""",
     "inputs",
     "all non-empty corpora of tokenized translations and references, all built-in metrics",
     """The unit tests score one fixed document; clipping over several references, ties of length, short sentences and moves only
     matter in inputs they do not hold.""",
     "mteval/ns.cc mteval/ns_ter.cc mteval/ns_ter_impl.cc mteval/ns_wer.cc mteval/ns_cer.cc mteval/ns_ssk.cc mteval/ns_comb.cc mteval/ns_docscorer.cc mteval/fast_score.cc mteval/levenshtein.h utils/kernel_string_subseq.h",
     [("n-gram counts and brevity penalty", "mteval/ns.cc BleuSegmentEvaluator, BleuMetric"), ("edit rate with shifts", "mteval/ns_ter_impl.cc"),
      ("combination", "mteval/ns_comb.cc"), ("references", "mteval/ns_docscorer.cc")],
     "property-based testing: random corpora, fast_score against reference models of the definitions, and a search bound for edit rate; shrinking")
prop("M02", "Segment statistics add up and survive storage",
     """A segment's sufficient statistics depend only on the hypothesis and its references, not on what was scored before. Their sums do not
     depend on order or grouping, exchanging one segment equals summing anew, and the text form keeps them, so that the score
     of a corpus can be computed from stored parts. The older scoring interface gives the same scores as the newer one.""",
     "histories",
     "all sequences of evaluations, sums, differences and conversions",
     """The evaluators keep counts between calls, so an error shows only after particular histories, which unit tests do not generate.""",
     "mteval/ns.h mteval/ns.cc mteval/scorer.cc mteval/ter.cc mteval/wer.cc mteval/aer_scorer.cc mteval/comb_scorer.cc mteval/ns_docscorer.cc",
     [("reused evaluators", "mteval/ns.cc ComputeNgramStats"), ("statistics", "mteval/ns.h SufficientStats"), ("older interface", "mteval/scorer.cc, mteval/ter.cc")],
     "property-based testing: random histories of evaluations and sums, metamorphic and differential relations; shrinking")
prop("M03", "Minimum Bayes risk reranking picks the least expected loss",
     """For every set of k-best lists, the reranker outputs for every sentence the candidate whose expected loss under the (scaled and
     offset) posterior of the list is least, or the whole list sorted by that loss. No sentence or candidate is lost or attributed to
     another sentence, however many lists are combined and however short they are.""",
     "inputs",
     "all k-best lists over the same sentences in the same order, all metrics",
     "There is no test of the reranker; the lookahead between sentences and pruning of the loss only fail for particular list lengths.",
     "mteval/mbr_kbest.cc",
     [("reading ahead", "mteval/mbr_kbest.cc ReadKBestList"), ("expected loss", "mteval/mbr_kbest.cc main")],
     "property-based testing: random k-best lists against a reference model of expected loss; shrinking")
