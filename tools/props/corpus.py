prop("C01", "Corpus and grammar conversion tools keep parallel data parallel and intact",
     """For every corpus, pasting, cutting, adding sentence markers (also to word alignments), labelled sequences, escaping for Moses, rare self-translations
     and converted Moses rules yield exactly the documented lines, in order and none lost, and files of different lengths are refused.
     The length filter keeps exactly the well-formed pairs of two non-empty sides within the maximum length whose length ratio is within two standard
     deviations of the mean (short pairs always), including corpora with only short pairs or a single ratio.""",
     "inputs",
     "all corpora: empty sides, odd white space, compressed files, missing final newlines, badly formed lines, lengths at the limits, all labels and alignments",
     """A dropped or shifted line silently ruins a whole parallel corpus, and only rare lines or endings of files trigger it; no test runs these tools.""",
     "corpus/paste-files.pl corpus/cut-corpus.pl corpus/filter-length.pl corpus/add-sos-eos.pl corpus/add-self-translations.pl corpus/corpus-stats.pl corpus/conll2cdec.pl corpus/moses-xml.pl corpus/moses-scfg-to-cdec.pl",
     [("parallel files", "corpus/paste-files.pl, corpus/cut-corpus.pl, corpus/filter-length.pl, corpus/add-sos-eos.pl"),
      ("conversions", "corpus/conll2cdec.pl, corpus/moses-xml.pl, corpus/moses-scfg-to-cdec.pl")],
     "property-based testing: random corpora through the real tools against reference models, round trips (paste/cut, escape/unescape); shrinking")
prop("C02", "Tokenization treats every line alone, separates as documented and loses nothing",
     """Every line of any text becomes exactly one line, the same wherever it stands in the file and whether output is buffered or not, and its letters, digits
     and ordinary punctuation are all kept. Words, numbers, punctuation, quotes, clitics, currency, ranges, addresses and abbreviations are separated as
     documented, entities and encodings are normalized to valid UTF-8, and joining the tokens of simple sentences again and
     tokenizing the result gives the same tokens.""",
     "inputs",
     "all lines: scripts, entities (also of impossible characters), control characters, bad bytes, very long tokens, any order of lines",
     """One line too few or too many shifts all the following sentence pairs of a corpus; the texts that cause it are rare and no test tokenizes any.""",
     "corpus/tokenize-anything.sh corpus/support/quote-norm.pl corpus/support/tokenizer.pl corpus/support/fix-contract.pl corpus/support/fix-eos.pl corpus/support/utf8-normalize.sh corpus/support/utf8-normalize-batch.pl corpus/untok.pl corpus/lowercase.pl",
     [("normalization", "corpus/support/quote-norm.pl, corpus/support/utf8-normalize.sh"), ("tokens", "corpus/support/tokenizer.pl, corpus/support/fix-contract.pl"),
      ("joining", "corpus/untok.pl")],
     "property-based testing: lines composed of pieces with known tokens, metamorphic relations (order, buffering, characters kept), round trip through untok.pl; shrinking")
