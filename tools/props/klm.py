prop("L01", "Language model queries follow the model file",
     """For every back-off model file, every query returns the back-off probability that the file defines, for known and unknown words, any
     history, and any data structure: hashed or trie, quantized finely enough or not, pointer-compressed, built in memory or
     loaded from a binary file. Histories that leave equal states have equal futures, and vocabulary lookup agrees with enumeration.""",
     "inputs",
     "all well-formed ARPA models whose probabilities do not exceed one, all word sequences, all data structures, building and loading options",
     """The unit tests query one small fixed model; bit packing, pruned suffixes, minimized states and probing depend on the n-grams present.""",
     "klm/lm/model.cc klm/lm/search_hashed.cc klm/lm/search_trie.cc klm/lm/trie.cc klm/lm/trie_sort.cc klm/lm/quantize.cc klm/lm/bhiksha.cc klm/lm/vocab.cc klm/lm/read_arpa.cc klm/lm/binary_format.cc klm/lm/ngram_query.hh klm/util/bit_packing.hh",
     [("scoring", "klm/lm/model.cc ScoreExceptBackoff, GetState"), ("hashed models", "klm/lm/search_hashed.cc"), ("trie models", "klm/lm/search_trie.cc, trie.cc"),
      ("storage", "klm/lm/binary_format.cc, quantize.cc, bhiksha.cc")],
     "property-based testing: random ARPA models and word sequences, all data structures against a reference scorer of the file; shrinking")
prop("L02", "Fragments score like the sentences they form",
     """For every back-off model and every way to cut a sentence into nested fragments, combining the fragments' scores and states gives
     the score of the sentence read word by word. Fragments with equal states are interchangeable in any context, and revealing
     the words around a fragment in any order adds up to the whole.""",
     "inputs",
     "all ARPA models whose back-off weights belong to n-grams with continuations, all word sequences and bracketings",
     """State minimization drops words whose influence is over; whether it was over depends on which longer n-grams exist, which fixed tests do not vary.""",
     "klm/lm/left.hh klm/lm/partial.hh klm/lm/model.cc klm/lm/state.hh klm/lm/search_hashed.cc klm/lm/search_trie.cc klm/lm/value_build.cc",
     [("fragment scoring", "klm/lm/left.hh RuleScore"), ("extension", "klm/lm/model.cc ExtendLeft, UnRest"), ("partial contexts", "klm/lm/partial.hh")],
     "property-based testing: random models and bracketings, metamorphic (any order of combination equals left to right) and against a reference scorer; shrinking")
prop("L03", "Estimated models are interpolated modified Kneser-Ney",
     """For every corpus, order, pruning threshold and discount fallback, the estimated model lists exactly the n-grams that survive pruning,
     with the probabilities and back-off weights of interpolated modified Kneser-Ney smoothing, and every context's distribution
     sums to one. The amount of memory and the sizes of blocks do not change the model.""",
     "inputs",
     "all corpora, orders, pruning thresholds, fallback discounts, vocabulary padding and memory settings that leave n-grams of every order",
     """The unit tests check counting on one text; discounts, ties, pruning at the ends of streams and merging over many blocks are not exercised.""",
     "klm/lm/builder/pipeline.cc klm/lm/builder/corpus_count.cc klm/lm/builder/adjust_counts.cc klm/lm/builder/initial_probabilities.cc klm/lm/builder/interpolate.cc klm/lm/builder/joint_order.hh klm/lm/builder/print.cc klm/lm/builder/lmplz_main.cc klm/util/stream/sort.hh klm/util/stream/chain.cc",
     [("counting", "klm/lm/builder/corpus_count.cc"), ("adjusted counts", "klm/lm/builder/adjust_counts.cc"), ("smoothing", "klm/lm/builder/initial_probabilities.cc, interpolate.cc"),
      ("external sorting", "klm/util/stream/sort.hh")],
     "property-based testing: random corpora and settings, lmplz against a reference estimator, normalization, and metamorphic memory settings; shrinking")
prop("L04", "Filtering keeps exactly the usable n-grams",
     """For every model or count file and every set of vocabularies or phrase lists, filtering keeps, in order and unchanged, exactly the
     n-grams whose words (or contexts) one of the sentences can produce, separately per sentence or for their union, and the
     counts in the header match. The number of threads and the batch size do not matter.""",
     "inputs",
     "all ARPA and count files, all vocabulary and phrase lists, all modes, thread counts and batch sizes",
     """There is no test of the filter; intersections of sentence lists, phrase boundaries and batches at section ends only fail on particular inputs.""",
     "klm/lm/filter/filter_main.cc klm/lm/filter/vocab.hh klm/lm/filter/vocab.cc klm/lm/filter/phrase.cc klm/lm/filter/phrase.hh klm/lm/filter/format.hh klm/lm/filter/thread.hh klm/lm/filter/arpa_io.cc klm/lm/filter/arpa_io.hh klm/lm/filter/count_io.hh klm/util/multi_intersection.hh",
     [("vocabulary filter", "klm/lm/filter/vocab.hh"), ("phrase filter", "klm/lm/filter/phrase.cc"), ("batches", "klm/lm/filter/thread.hh, format.hh")],
     "property-based testing: random models and sentence lists, filter against a reference predicate, over threads and batch sizes; shrinking")

prop("K01", "Readers get the text whole, whatever buffers and compression",
     """For every file content, buffer size, way of reading (mapped, pipe, stream) and compression in one or several members, lines,
     words, numbers and characters come out exactly as the text has them and the position is right; damaged compressed
     files are refused. What is written through buffers and positioned writes is what the file then holds.""",
     "inputs",
     "all texts, sequences of reading operations, buffer sizes, kinds of input and compression; all sequences of writes",
     """The unit tests read one file; whether a word, number or magic number crosses a page, a buffer or a compressed member depends on sizes they never have.""",
     "klm/util/file_piece.cc klm/util/file_piece.hh klm/util/read_compressed.cc klm/util/file.cc klm/util/mmap.cc klm/util/tokenize_piece.hh klm/util/fake_ofstream.hh klm/util/string_piece.hh",
     [("reading", "klm/util/file_piece.cc"), ("decompression", "klm/util/read_compressed.cc"), ("splitting", "klm/util/tokenize_piece.hh"), ("files", "klm/util/file.cc"), ("output", "klm/util/fake_ofstream.hh")],
     "property-based testing: model-based histories of reading operations against the text, metamorphic over buffers and compression, round trips of output; under AddressSanitizer; shrinking")
prop("K02", "Streams and external sorts between threads lose nothing",
     """Whatever the block sizes, memory limits, record sizes, number of workers and interleaving of threads, records leave a chain of
     stream workers in order and complete, an external sort outputs exactly the sorted (and where asked combined) records it was
     given, and every queued item is consumed exactly once.""",
     "schedules",
     "all record sequences, block and buffer sizes, worker chains, thread counts and interleavings",
     """The unit tests run one chain and one sort of fixed size; merge rounds, partly filled blocks, reuse after recycling and thread timing are not varied.""",
     "klm/util/stream/chain.cc klm/util/stream/chain.hh klm/util/stream/sort.hh klm/util/stream/io.cc klm/util/stream/stream.hh klm/util/stream/multi_stream.hh klm/util/stream/block.hh klm/util/pcqueue.hh klm/util/thread_pool.hh",
     [("chains", "klm/util/stream/chain.cc"), ("sorting", "klm/util/stream/sort.hh"), ("file workers", "klm/util/stream/io.cc"), ("queues", "klm/util/pcqueue.hh, thread_pool.hh")],
     "property-based testing: random worker pipelines on real threads against a sequential model; shrinking")
prop("K03", "Compact tables, searches and bit fields behave like plain containers",
     """For every history of insertions and look-ups, hash tables answer like a map, however weak the hash and however often they grow;
     search, intersection and sorting give what their definitions say; and packed fields read back exactly as written
     without disturbing their neighbours.""",
     "histories",
     "all histories of operations, key sets, hash functions, value distributions, field widths and offsets",
     """The unit tests insert a few keys and one sequence of fields; wrap-around, growth, collisions and skewed distributions need particular data.""",
     "klm/util/probing_hash_table.hh klm/util/sorted_uniform.hh klm/util/multi_intersection.hh klm/util/joint_sort.hh klm/util/sized_iterator.hh klm/util/bit_packing.hh klm/util/bit_packing.cc klm/util/murmur_hash.cc klm/util/pool.cc klm/util/pool.hh",
     [("hash tables", "klm/util/probing_hash_table.hh"), ("search", "klm/util/sorted_uniform.hh"), ("bit fields", "klm/util/bit_packing.hh"), ("sorting", "klm/util/joint_sort.hh, sized_iterator.hh"), ("hashing", "klm/util/murmur_hash.cc")],
     "property-based testing: model-based histories against std containers under AddressSanitizer; shrinking")
