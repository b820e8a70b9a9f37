prop("U01", "Sparse and small vectors behave as plain maps and sequences",
     """After every sequence of insertions, updates, erasures, arithmetic, copies, swaps, resizes and serialization, a sparse vector holds
     exactly the entries of an ordinary map and a small vector those of an ordinary sequence, whatever their size was on the way.
     Norms, dot products, equality, hashes and iteration agree with those contents.""",
     "histories",
     "all sequences of operations on several vectors, sizes around and beyond the switch from inline to heap storage",
     """Vectors change their representation at a size that depends on the history; unit tests never go back across that boundary.""",
     "utils/fast_sparse_vector.h utils/sparse_vector.h utils/small_vector.h",
     [("sparse", "utils/fast_sparse_vector.h"), ("small", "utils/small_vector.h")],
     "stateful property-based testing: random operation histories against std::map and std::vector, under AddressSanitizer; shrinking")
prop("U02", "Log-space numbers and semirings compute ordinary arithmetic",
     """For all signed numbers, sums, differences, products, quotients, powers and comparisons of their log-space representation equal those
     of ordinary arithmetic, without overflow far outside the range of doubles. Pairs of a weight and a value propagate
     expectations exactly, and discrete distributions sum to one.""",
     "inputs",
     "all sequences of operations on positive, negative and zero numbers, cancellations, magnitudes from exp(-5000) to exp(5000)",
     """Every probability in the decoder goes through these numbers; cancellation, zero and signs are the cases a sample misses.""",
     "utils/logval.h utils/prob.h utils/semiring.h utils/exp_semiring.h utils/m.h",
     [("log values", "utils/logval.h"), ("expectation semiring", "utils/exp_semiring.h"), ("densities", "utils/m.h")],
     "property-based testing: random expressions against extended-precision arithmetic and exact sums; shrinking")
prop("U03", "Dictionaries map words to dense ids and back, and lines to words",
     """Every distinct word gets the next unused positive id, keeps it, and is found again from it, and a frozen dictionary never grows. Every line
     splits into exactly its words, whatever the white space around them, the same way in each of the functions that split it, and
     reading a corpus in parts yields every sentence in exactly one part.""",
     "inputs",
     "all words, lines, separators, frozen look-ups, corpora and numbers of parts",
     """All components identify words by these ids, so one merged or shifted id silently changes translations.""",
     "utils/dict.h utils/dict.cc utils/tdict.cc utils/fdict.h utils/stringlib.h utils/corpus_tools.cc",
     [("dictionary", "utils/dict.h"), ("sentences", "utils/tdict.cc, utils/stringlib.h"), ("corpora", "utils/corpus_tools.cc")],
     "property-based testing: random words, lines and corpora against reference maps and splits, under AddressSanitizer; shrinking")
prop("U04", "Weights and feature vectors survive writing and reading",
     """For every set of named weights, a written weights file, a one-line form, or an encoded or archived vector reads back, also into another
     dictionary, with exactly the same names and values; files with comments, blank lines and any of the separators give the weights they
     show. Damaged encodings are refused.""",
     "inputs",
     "all feature names (up to 254 bytes), values over the whole range of doubles, dictionaries, compressed or not, encodings of every length",
     """Training jobs exchange millions of vectors of all lengths in this form; tests encode none of them.""",
     "utils/weights.cc utils/sparse_vector.cc utils/b64tools.cc utils/b64featvector.cc utils/fast_sparse_vector.h",
     [("weights", "utils/weights.cc"), ("encoding", "utils/b64tools.cc, utils/sparse_vector.cc, utils/b64featvector.cc")],
     "property-based testing: random weights and vectors, round trip through every format, single damages refused; shrinking")
prop("U05", "Files and text helpers return what was written",
     """For every content, a plain or compressed file reads back identically whatever the sizes of the writes and reads, including files of several
     compressed members. Digests equal those of the MD5 standard, and segment tags, references and separators in
     input lines are split as documented.""",
     "inputs",
     "all contents around and beyond the buffer size, all sizes of reads and writes, all attributes and tags",
     """The faults lie at buffer boundaries and in combinations of attributes that no test writes.""",
     "utils/filelib.h utils/filelib.cc utils/gzstream.cc utils/stringlib.cc utils/stringlib.h",
     [("files", "utils/filelib.h, utils/gzstream.cc"), ("text", "utils/stringlib.cc")],
     "property-based testing: random contents and access patterns, round trip and zlib, reference MD5, generated tags; under AddressSanitizer; shrinking")
prop("U06", "Maximum entropy models: training, classification and files",
     """Batch training ends where the gradient of the regularised log likelihood of the training samples vanishes (L1, L2 or none), and
     stochastic training gives the weights that its documented steps give for some order of the samples in each pass, with weights for exactly
     the label and feature pairs of the training samples. Classification returns the normalised log-linear distribution over labels, times that of a
     reference model if there is one, and the most probable label. A model written to a file and read again, or loaded
     from an array, classifies as before with nothing left of what the object held earlier.""",
     "inputs",
     "all sample sets with binary and real-valued features, regularisers, step sizes, held-out parts, reference models and weights",
     """The repository has no test of this library; convergence and numeric range depend on the data (separable samples, flat steps).""",
     "utils/maxent.h utils/maxent.cpp",
     [("training", "utils/maxent.cpp perform_LBFGS, perform_OWLQN, perform_SGD"), ("classification and files", "utils/maxent.cpp classify, save_to_file, load_from_file")],
     "property-based testing: random sample sets; optimality conditions, search over sample orders, reference distribution, round trip; under AddressSanitizer; shrinking")
