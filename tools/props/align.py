prop("A01", "Alignment tools compute what they are named for",
     """For every pair of alignment files, each operation (convert, invert, intersect, union, the grow-diag family, f-measure) gives the links
     that its definition gives, in sorted order and line by line, and mismatched numbers of lines are refused.""",
     "inputs",
     "all pairs of alignments of all sizes, link orders and duplicates, from files or standard input, with or without sentences in front",
     """No test runs the alignment tool; growing depends on the order in which candidates are accepted, and sizes of the two grids differ.""",
     "utils/atools.cc utils/alignment_io.cc utils/array2d.h",
     [("operations", "utils/atools.cc"), ("format", "utils/alignment_io.cc")],
     "property-based testing: random pairs of alignments, every operation against a reference on sets of links; shrinking")
prop("A02", "The word aligner estimates its model by expectation maximization",
     """For every parallel corpus and combination of options, the likelihoods, tension, parameters and best alignments are those of
     expectation maximization for the lexical translation model with a uniform or diagonal prior. Maximum likelihood iterations
     never lower the likelihood, and aligning with written parameters gives the alignments and likelihoods of the trained model.""",
     "inputs",
     "all parallel corpora, iterations, directions, priors, null words, smoothing, beams, test sets and forced alignments",
     """No test runs the aligner; a small error in expected counts still gives plausible alignments.""",
     "word-aligner/fast_align.cc word-aligner/ttables.h word-aligner/ttables.cc word-aligner/da.h utils/corpus_tools.cc utils/m.h",
     [("estimation", "word-aligner/fast_align.cc, ttables.h"), ("diagonal prior", "word-aligner/da.h"), ("parameters", "word-aligner/ttables.cc")],
     "property-based testing: random corpora and options, the aligner against a reference implementation of its estimation; shrinking")
