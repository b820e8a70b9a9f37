prop("T01", "Minimum error rate training finds the best point of a line",
     """For a forest of translations, a starting point and a direction, the envelope lists exactly the derivations that win somewhere on the line,
     with the points where they take over. The statistics accumulated along it are those of the winning translation at every point, in memory
     and when written and read. Line search over several sentences, and the programs built on it, return a point whose corpus score is the
     best along the line, for score and error metrics, whatever the first translation or the starting point.""",
     "inputs",
     "all acyclic forests with feature vectors, origins, directions and references; all metrics",
     """The tests run one fixed forest; the envelope arithmetic only goes wrong for particular slopes, ties, empty translations or zero
     weights.""",
     "training/dpmert/mert_geometry.cc training/dpmert/ces.cc training/dpmert/error_surface.cc training/dpmert/line_optimizer.cc training/dpmert/mr_dpmert_generate_mapper_input.cc training/dpmert/mr_dpmert_map.cc training/dpmert/mr_dpmert_reduce.cc",
     [("upper envelopes", "training/dpmert/mert_geometry.cc ConvexHull"), ("error surfaces", "training/dpmert/ces.cc ComputeErrorSurface"),
      ("line search", "training/dpmert/line_optimizer.cc LineOptimize"), ("programs", "training/dpmert/mr_dpmert_*.cc")],
     "property-based testing: random forests and lines against enumeration of all derivations (C++ harness and programs); shrinking")

prop("T02", "Numerical optimizers find the optimum",
     """On every smooth convex function, optionally with an L1 term on some of the variables, L-BFGS ends without an error at a point that is no worse
     than its starting point and where the gradient vanishes; the step-by-step batch optimizers do so too, report convergence only there and do not
     move afterwards, and an optimizer saved and loaded between any two steps continues exactly as one that was not. The online optimizer follows
     stochastic gradient descent with cumulative L1 penalties and the chosen learning rate schedule, and leaves frozen features alone.""",
     "histories",
     "all strongly convex functions, starting points, numbers of corrections, L1 strengths, and sequences of updates",
     """The tests minimise one quadratic function from one point; failures of the line search, of the treatment of zero weights and of saved
     states depend on the function and the history.""",
     "training/liblbfgs/lbfgs.c training/liblbfgs/lbfgs++.h training/utils/optimize.cc training/utils/optimize.h training/utils/online_optimizer.h training/utils/lbfgs.h",
     [("L-BFGS", "training/liblbfgs/lbfgs.c lbfgs"), ("batch optimizers", "training/utils/optimize.cc RPropOptimizer::OptimizeImpl, LBFGSOptimizer::OptimizeImpl"),
      ("online optimizer", "training/utils/online_optimizer.h CumulativeL1OnlineOptimizer")],
     "property-based testing: random convex functions and update histories against optimality conditions and a reference optimizer; shrinking")

prop("T03", "Candidate pools accumulate exactly; expected risk is optimised",
     """The pool of candidate translations kept for a sentence is the union, without repetitions, of the k-best lists added in all rounds, whatever
     order they came in and whether or not it was written and read in between, and keeps each candidate's features and score. The objectives over a
     pool (expected loss, entropy) and their gradients are those of the distribution the weights define. Minimum risk training of forests returns
     weights at which the regularised expected loss of the pools does not improve locally and is no worse than at the start.""",
     "histories",
     "all sets of forests, references, weights, metrics and sequences of rounds",
     """No test adds to a pool twice; repetitions, lost candidates and pools of the wrong sentence need several rounds and sentences to show.""",
     "training/utils/candidate_set.cc training/utils/candidate_set.h training/utils/risk.cc training/utils/entropy.cc training/minrisk/minrisk_optimize.cc",
     [("pools", "training/utils/candidate_set.cc CandidateSet"), ("risk", "training/utils/risk.cc CandidateSetRisk"), ("entropy", "training/utils/entropy.cc CandidateSetEntropy"),
      ("program", "training/minrisk/minrisk_optimize.cc main")],
     "property-based testing: histories of forests and weights against enumeration of derivations, finite differences and optimality conditions; shrinking")

prop("T04", "Pairwise ranking samples true preferences and fits them optimally",
     """Every training example written by the sampler is the feature difference of two different candidates of one sentence's pool, labelled by which
     has the better score, followed by its mirror image; no more than the requested number per sentence, those with the largest differences, and with
     enough samples every admissible pair. The learner returns the weights that minimise the regularised logistic loss of the training examples
     (L2, L1 and distance to the previous weights), interpolated as asked, with the perplexity of held-out data, and chooses the regularisation strength with the best one.""",
     "inputs",
     "all forests, references, metrics, sampling parameters, training and test examples and regularisation settings",
     """There is no test; a wrong label, a lost kind of pair or training on the test data still gives plausible weights.""",
     "training/pro/mr_pro_map.cc training/pro/mr_pro_reduce.cc",
     [("sampling", "training/pro/mr_pro_map.cc Sample"), ("learning", "training/pro/mr_pro_reduce.cc LearnParameters")],
     "property-based testing: sampled pairs against all pairs of enumerated candidates, learned weights against a reference Newton optimizer; shrinking")

prop("T05", "Rampion follows the concave-convex procedure on its pools",
     """Each pass chooses for every sentence of the pool the candidate with the highest model score minus cost as its goal, and moves the weights, as often as
     asked, by the difference between that and the candidate with the highest score plus cost, decayed towards zero by the regulariser; the weights written are
     the result for every sentence order, metric, step size and cost scale. Pools accumulate from one round to the next.""",
     "histories",
     "all forests, references, weights, metrics, step sizes, numbers of passes and sequences of rounds",
     """There is no test; a stale goal, a wrong sign for error metrics or a pool of another sentence still gives plausible weights.""",
     "training/rampion/rampion_cccp.cc training/utils/candidate_set.cc",
     [("procedure", "training/rampion/rampion_cccp.cc main"), ("cost-augmented search", "training/rampion/rampion_cccp.cc CostAugmentedSearch")],
     "property-based testing: an exact simulation of the procedure on enumerated candidates; shrinking")

prop("T06", "Log-linear and Markov models are trained by their likelihood",
     """For every corpus, grammar and weights the conditional log likelihood reported is that of the distribution over derivations, summed over those that
     yield the reference, with unreachable sentences left out; the batch trainer returns the weights that maximise it together with the regulariser, and the
     online and adaptive trainers return weights that follow from their stated update rules on some choice of minibatches. The reachable part of a corpus and
     the features of its forests are listed exactly, and each pass of the Markov model trainer replaces the weights by the normalised expected counts under the previous ones.""",
     "inputs",
     "all corpora, grammars, per-sentence grammars, starting weights, regularisation and step settings",
     """No test runs these programs; a wrong expectation, a sentence counted twice or a penalty on the wrong weight still trains to something.""",
     "training/crf/mpi_batch_optimize.cc training/crf/mpi_online_optimize.cc training/crf/mpi_adagrad_optimize.cc training/crf/mpi_flex_optimize.cc training/crf/mpi_compute_cllh.cc training/crf/mpi_extract_reachable.cc training/crf/mpi_extract_features.cc training/crf/mpi_baum_welch.cc training/crf/cllh_observer.cc",
     [("likelihood", "training/crf/cllh_observer.cc ConditionalLikelihoodObserver"), ("batch training", "training/crf/mpi_batch_optimize.cc TrainingObserver"),
      ("minibatches", "training/crf/mpi_online_optimize.cc, mpi_adagrad_optimize.cc, mpi_flex_optimize.cc main"), ("reachability", "training/crf/mpi_extract_reachable.cc ReachabilityObserver"),
      ("Markov models", "training/crf/mpi_baum_welch.cc")],
     "property-based testing: random corpora against enumerated derivations, optimality conditions and simulated updates; shrinking")

prop("T07", "Online ranking follows the perceptron on k-best pairs",
     """The weights written after any number of passes over a corpus are those of the stated procedure: translate each sentence with the current weights, score
     its k best translations with the chosen smoothed metric, choose pairs as asked (all, best and worst against the rest, the largest differences), and move
     the weights by the difference of every misranked pair or pair within the margin, with the chosen step size, decay, rescaling, averaging or batching.
     Scores, model scores and list sizes reported for each pass are the averages over its sentences, of which those without a translation contribute nothing.""",
     "histories",
     "all corpora, grammars, starting weights, metrics, pair selections and update settings",
     """The two example configurations are not run by a test; a pair left out, a stale list or a weight from the wrong pass still gives plausible weights.""",
     "training/dtrain/dtrain.cc training/dtrain/kbestget.h training/dtrain/pairsampling.h training/dtrain/score.cc training/dtrain/score.h",
     [("learning", "training/dtrain/dtrain.cc main"), ("pairs", "training/dtrain/pairsampling.h partXYX, all_pairs, PROsampling"), ("metrics", "training/dtrain/score.cc"),
      ("k-best lists", "training/dtrain/kbestget.h KBestGetter")],
     "property-based testing: an exact simulation of the procedure on enumerated derivations; shrinking")

prop("T08", "Large-margin tuning moves from fear to hope",
     """For every sentence of a pass the tuner writes the hope, best and fear translations that its options define over the k-best list (model score with or without the
     metric, measured per sentence, as a gain over the previous pass or on a growing pseudo document), and changes the weights by the step of the chosen optimizer;
     at the end it writes the weights and their average. As a service it answers every request in order with translations, updates and weights that reflect all
     requests before. A sentence without translations changes nothing.""",
     "histories",
     "all corpora, grammars, references, starting weights, metrics, optimizers and sequences of requests",
     """There is no test; a stale list, weights that are set and forgotten or a wrong sign for error metrics still gives plausible weights.""",
     "training/mira/kbest_cut_mira.cc mteval/scorer.cc mteval/scorer.h utils/weights.cc",
     [("selection", "training/mira/kbest_cut_mira.cc TrainingObserver::UpdateOracles"), ("updates", "training/mira/kbest_cut_mira.cc ComputeDelta, SelectPair, CuttingPlane, main"),
      ("sentence scores", "mteval/scorer.cc BLEUScore"), ("service", "training/mira/kbest_cut_mira.cc main")],
     "property-based testing: an exact simulation of the tuner on enumerated derivations, over passes and request histories; shrinking")

prop("T09", "Online tuners take every step of their updates and report where they end",
     """For every development set, pass by pass over the sentences in some order or sentence by sentence as drawn, the online tuners move the weights exactly as the hope,
     fear and best translations found so far dictate, with losses limited to the greatest step, accumulated adaptive steps, and error metrics counted as losses.
     After every pass, and at the end, they write the weights all updates lead to, and the average over all steps where one is promised.""",
     "histories",
     "all corpora, grammars, references, starting weights, metrics, sizes of lists or samples, numbers of passes and orders of the sentences",
     """There is no test; the weights after many steps look as plausible with a lost update, a wrong sign or an average in place of the weights.""",
     "training/mira/kbest_mira.cc training/mira/ada_opt_sm.cc training/utils/candidate_set.cc decoder/hg_sampler.cc",
     [("passes", "training/mira/kbest_mira.cc TrainingObserver::UpdateOracles, main"), ("adaptive steps", "training/mira/ada_opt_sm.cc CostAugmentedDecode, main"),
      ("pools", "training/utils/candidate_set.cc AddUniqueKBestCandidates")],
     "property-based testing: the trajectory is followed step by step in an exact simulation on enumerated derivations, over all orders of the sentences; shrinking")
