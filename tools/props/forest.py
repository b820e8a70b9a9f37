prop("H01", "Forest algorithms agree with the enumeration of all derivations",
     """For every forest (acyclic hypergraph with weighted edges), the inside and outside scores, edge posteriors, feature
     expectations, Viterbi scores, weight pushing and path counts equal the sums and maxima over all its derivations. The best
     derivation's strings, trees, lengths and features all describe one derivation of maximal score, and k-best extraction (of
     derivations or of distinct strings) yields exactly the k best in order, however far beyond the end and in whatever order
     it is asked.""",
     "inputs",
     "all finite acyclic hypergraphs, edge weights and k",
     """The unit tests use a few fixed forests; shared substructure, ties, zero-arity edges and requests beyond the last derivation
     only matter in particular combinations.""",
     "decoder/inside_outside.h decoder/viterbi.h decoder/viterbi.cc decoder/kbest.h decoder/hg.cc decoder/hg.h utils/exp_semiring.h",
     [("inside and outside", "decoder/inside_outside.h"), ("k-best", "decoder/kbest.h LazyKthBest"), ("posteriors, pushing", "decoder/hg.cc")],
     "property-based testing: random hypergraphs against exhaustive enumeration of their derivations, with shrinking")
prop("H02", "Pruning, sorting, joining and storing forests keep the right derivations",
     """Pruning a forest keeps exactly the derivations that avoid pruned edges, and beam or density limits (Viterbi or sum-product)
     remove exactly the edges whose best or total score falls outside, never the best derivation. Sorting, the binary format and
     weight pushing keep every derivation with its rules, features and spans; the union of two forests has exactly the
     derivations of the joined edges. Every result is again well formed: ids, edge lists and topological order agree.""",
     "inputs",
     "all finite acyclic hypergraphs, masks, limits and node orders",
     """The unit tests check sizes on fixed forests; a dangling edge or a lost derivation appears only for particular masks and orders.""",
     "decoder/hg.cc decoder/hg.h decoder/hg_union.cc decoder/hg_io.cc decoder/trule.h utils/indices_after.h",
     [("pruning", "decoder/hg.cc PruneInsideOutside, PruneEdges"), ("topological sort", "decoder/hg.cc TopologicallySortNodesAndEdges"),
      ("union", "decoder/hg_union.cc Union"), ("serialization", "decoder/hg_io.cc, decoder/trule.h save/load")],
     "property-based testing: random hypergraphs and operations against enumeration; round trip through the binary format; shrinking")
prop("H03", "Sampling draws derivations in proportion to their weight",
     """Hypotheses and trees sampled from a forest are derivations of it, with their own strings, features and model scores, and each is
     drawn with frequency proportional to its probability under the forest. The random number helpers (choice from weights,
     pairs and sets, also annealed) draw from the stated distribution.""",
     "inputs",
     "all finite acyclic hypergraphs whose derivations use no node twice, and all seeds",
     """A wrong inside weight or a biased choice leaves every sample a valid derivation, so that only the distribution over many
     generated forests shows it.""",
     "decoder/hg_sampler.cc utils/sampler.h decoder/inside_outside.h",
     [("top-down sampling", "decoder/hg_sampler.cc sample_hypotheses, sample_trees"), ("weighted choice", "utils/sampler.h SelectSample")],
     "property-based testing: sampled frequencies against enumerated probabilities, with a bound of 7 standard errors; shrinking")

prop("H04", "Lattices mean what their notation says",
     """For every lattice in its text notation, with any labels, escapes, spacing, dense or named features, the lattice read has exactly
     the notated nodes, arcs, lengths and features, and distances are the fewest arcs between nodes. The forest read
     from it has exactly the lattice's paths with their weights, and writing it and reading it back keeps them.""",
     "inputs",
     "all well-formed lattice texts and plain sentences, labels, spacing, feature formats and weights",
     """The unit tests read a few fixed lattices; escapes, trailing commas, named features, dead ends and jumps are combinations they do not contain.""",
     "decoder/hg_io.cc decoder/lattice.cc decoder/lattice.h decoder/hg.cc",
     [("reading and writing", "decoder/hg_io.cc ReadFromPLF, PLFtoLattice, AsPLF"), ("distances", "decoder/lattice.cc ComputeDistances"), ("weights", "decoder/hg.cc Reweight")],
     "property-based testing: lattices and their notation generated together, reader against the model, round trips; shrinking")
