From 0ba8112e1989c7a2b54ba4c2dd0abbec5c58301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:11 +0000
Subject: [PATCH 01/98] fix: NgramFeatures of order 3 and up fire the n-grams
 that begin with <s>

---
 decoder/ff_ngrams.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index a45bd27..f71629e 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -173,7 +173,7 @@ class NgramDetectorImpl {
 
   inline const State<5> BeginSentenceState() const {
     State<5> state(order_);
-    state.state[0] = kSOS_;
+    if (order_ > 1) state.state[order_ - 2] = kSOS_;  // the most recent word comes last
     return state;
   }
 
-- 
2.43.0


From fe48e641c6e9a66e8fa213655f1da8fa39dc8eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 02/98] fix: NgramFeatures with a cluster file no longer writes
 outside the cluster table

---
 decoder/ff_ngrams.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder/ff_ngrams.cc b/decoder/ff_ngrams.cc
index f71629e..4b3651c 100644
--- a/decoder/ff_ngrams.cc
+++ b/decoder/ff_ngrams.cc
@@ -402,6 +402,9 @@ class NgramDetectorImpl {
         cluster_map.resize(wordid + 10, kCDEC_UNK);
       cluster_map[wordid] = clusterid;
     }
+    const WordID last = max(kSOS_, kEOS_);
+    if (last >= cluster_map.size())
+      cluster_map.resize(last + 1, kCDEC_UNK);
     cluster_map[kSOS_] = kSOS_;
     cluster_map[kEOS_] = kEOS_;
   }
-- 
2.43.0


From bf75306198ccb8417f026f3ac7ad859462788b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 03/98] fix: pruning no longer drops edges that score the
 cutoff up to rounding

---
 decoder/hg.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index 46543b0..de17c20 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -295,7 +295,13 @@ void Hypergraph::MarginPrune(vector<prob_t> const& io,prob_t cutoff,vector<bool>
 
   //TODO: //FIXME: if EPSILON is 0, then remnants (useless edges that don't connect to top? or top-connected but not bottom-up buildable referenced?) are left in the hypergraph output that cause mr_vest_map to segfault.  adding EPSILON probably just covers up the symptom by making it far less frequent; I imagine any time threshold is set by DensityPrune, cutoff is exactly equal to the io of several nodes, but because of how it's computed, some round slightly down vs. slightly up.  probably the flaw is in PruneEdges.
 
-  const prob_t creep=abslog(cutoff).pow(1e-6); // some barely >1 (small positive log) ratio.  linear in logspace of course // start more permissive, then become less generous.  this is barely more than 1.  we want to do this because it's a disaster if something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside)
+  // Edges that should score exactly the cutoff (e.g. all those of the best derivation) may round below it, so stay a
+  // little more generous than the cutoff; start more permissive, then become less generous, since it's a disaster if
+  // something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside)
+  const double log_cutoff = log(cutoff);
+  const double slack = 1e-6 * (1.0 + (std::isfinite(log_cutoff) ? fabs(log_cutoff) : 0.0));
+  const prob_t creep = prob_t::exp(slack / (edges_.size() + 1));  // linear in logspace of course
+  cutoff *= prob_t::exp(-2.0 * slack);
 
   vector<bool> prune(edges_.size());
   if (verbose) {
@@ -304,7 +310,7 @@ void Hypergraph::MarginPrune(vector<prob_t> const& io,prob_t cutoff,vector<bool>
   }
   unsigned pc = 0;
   for (unsigned i = 0; i < io.size(); ++i) {
-    cutoff*=creep; // start more permissive, then become less generous.  this is barely more than 1.  we want to do this because it's a disaster if something lower in a derivation tree is deleted, but the higher thing remains (unless safe_inside)
+    cutoff *= creep;
     const bool prune_edge = (io[i] < cutoff);
     if (prune_edge) {
       ++pc;
-- 
2.43.0


From 5d11eaac985c582662a1df98071312e05955e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 04/98] fix: weights files shorter than five bytes can be read

---
 utils/weights.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 7d5d96d..ff433bb 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -25,8 +25,8 @@ void Weights::InitFromFile(const string& filename,
     assert(hi);
     char buf[10];
     hi.read(buf, 5);
-    assert(hi.good());
-    if (strncmp(buf, "_PHWf", 5) == 0) {
+    // a text file may be shorter than the header of a binary one
+    if (hi.gcount() == 5 && strncmp(buf, "_PHWf", 5) == 0) {
       read_text = false;
     }
   }
-- 
2.43.0


From 1d5149cbd4dcd7aa89501fdf78c7e15edb39e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 05/98] fix: RuleShape2 tells rules apart that differ in where
 the source side ends

---
 decoder/ff_ruleshape.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_ruleshape.cc b/decoder/ff_ruleshape.cc
index 35b41c4..31694eb 100644
--- a/decoder/ff_ruleshape.cc
+++ b/decoder/ff_ruleshape.cc
@@ -216,6 +216,7 @@ void RuleShapeFeatures2::TraversalFeaturesImpl(const SentenceMetadata& /* smeta
   if (has_src_) {
     for (unsigned i = 0; i < f.size(); ++i)
       fid = &fid->next_[MapF(f[i])];
+    if (has_trg_) fid = &fid->next_[0];  // where one side ends and the other begins
   }
   if (has_trg_) {
     for (unsigned i = 0; i < e.size(); ++i)
-- 
2.43.0


From 8bf8c3e227a884098f551bd5bf95c431aa759b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 06/98] fix: WordSet --oov counts words only, not the
 non-terminals of a rule

---
 decoder/ff_wordset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder/ff_wordset.cc b/decoder/ff_wordset.cc
index 9be6f2e..bb327c8 100644
--- a/decoder/ff_wordset.cc
+++ b/decoder/ff_wordset.cc
@@ -63,6 +63,7 @@ void WordSet::TraversalFeaturesImpl(const SentenceMetadata& /*smeta*/ ,
 				    void* /* context */) const {
   double addScore = 0.0;
   for(vector<WordID>::const_iterator it = edge.rule_->e_.begin(); it != edge.rule_->e_.end(); ++it) {
+    if (*it < 1) continue; // a non-terminal is no word
     bool inVocab = (vocab_.find(*it) != vocab_.end());
     if(oovMode_ && !inVocab) {
       addScore += 1.0;
-- 
2.43.0


From 8ac8d4b13ba2b05e2d7840bee90506473924d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 07/98] fix: node ids in hypergraph subsets

copy_reindex of a node looked up the new id of the (default constructed) copy
instead of the original's, so every node of a subset got the same id.
---
 decoder/hg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg.h b/decoder/hg.h
index c756012..21debbe 100644
--- a/decoder/hg.h
+++ b/decoder/hg.h
@@ -186,7 +186,7 @@ namespace HG {
     }
     void copy_reindex(Node const& o,indices_after const& n2,indices_after const& e2) {
       copy_fixed(o);
-      id_=n2[id_];
+      id_=n2[o.id_];
       e2.reindex_push_back(o.in_edges_,in_edges_);
       e2.reindex_push_back(o.out_edges_,out_edges_);
     }
-- 
2.43.0


From f221dfd0d975566524740d25b47555f020f47e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 08/98] fix: marginals of scaled sum-product pruning used
 unscaled edge weights

---
 decoder/hg.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/hg.cc b/decoder/hg.cc
index de17c20..aa855df 100644
--- a/decoder/hg.cc
+++ b/decoder/hg.cc
@@ -356,7 +356,8 @@ bool Hypergraph::PruneInsideOutside(double alpha,double density,const EdgeMask*
   else
     io.compute(*this,norm,ViterbiWeightFunction());  // the storage gets cast to Tropical from prob_t, scary - e.g. w/ specialized static allocator differences it could break.
   vector<prob_t> mm;
-  io.compute_edge_marginals(*this,mm,EdgeProb()); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
+  // the marginals need the same edge weights as inside and outside
+  io.compute_edge_marginals(*this,mm,ScaledEdgeProb(use_sum_prod_semiring ? scale : 1.0)); // should be normalized to 1 for best edges in viterbi.  in sum, best is less than 1.
 
   prob_t cutoff=prob_t::One(); // we'll destroy everything smaller than this (note: nothing is bigger than 1).  so bigger cutoff = more pruning.
   bool density_won=false;
-- 
2.43.0


From 2231a2d9354ce221e448758986d9cfc41872a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 09/98] fix: CER counts segments whose edit distance is not
 below the hypothesis length

---
 mteval/ns_cer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_cer.cc b/mteval/ns_cer.cc
index da6683b..fa86882 100644
--- a/mteval/ns_cer.cc
+++ b/mteval/ns_cer.cc
@@ -19,11 +19,11 @@ void CERMetric::ComputeSufficientStatistics(const std::vector<WordID>& hyp,
                                             SufficientStats* out) const {
   out->fields.resize(kNUMFIELDS);
   std::string hyp_str(TD::GetString(hyp));
-  float best_score = hyp_str.size();
+  float best_score = 0;
   for (size_t i = 0; i < refs.size(); ++i) {
     std::string ref_str(TD::GetString(refs[i]));
     float score = cdec::LevenshteinDistance(hyp_str, ref_str);
-    if (score < best_score) {
+    if (score < best_score || i == 0) {
       out->fields[kEDITDISTANCE] = score;
       out->fields[kCHARCOUNT] = ref_str.size();
       best_score = score;
-- 
2.43.0


From 1b5bc45fe62fda8475b3e5102e9b67b4ea1eeff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 10/98] fix: reference files whose last line has no newline can
 be scored against

---
 mteval/ns_docscorer.cc | 2 +-
 mteval/scorer.cc       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mteval/ns_docscorer.cc b/mteval/ns_docscorer.cc
index 242f134..546590a 100644
--- a/mteval/ns_docscorer.cc
+++ b/mteval/ns_docscorer.cc
@@ -66,7 +66,7 @@ void DocumentScorer::Init(const EvaluationMetric* metric,
     refs.clear();
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
+      if (i > 0 && in.eof()) break;
       in.getline(buf, 64000);
       if (strlen(buf) == 0) {
         if (in.eof()) {
diff --git a/mteval/scorer.cc b/mteval/scorer.cc
index 71e05e9..046086c 100644
--- a/mteval/scorer.cc
+++ b/mteval/scorer.cc
@@ -647,7 +647,7 @@ void DocScorer::Init(
     vector<vector<WordID> > refs;
     for (int i=0; i < ref_files.size(); ++i) {
       istream &in=ifs[i].get();
-      if (in.eof()) break;
+      if (i > 0 && in.eof()) break;
       in.getline(buf, 64000);
       if (strlen(buf) == 0) {
         if (in.eof()) {
-- 
2.43.0


From 27625c26387a6da2711f99a0b4ad0b153ad11ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 11/98] fix: fast_score reports too many translations instead
 of reading past the references

---
 mteval/fast_score.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mteval/fast_score.cc b/mteval/fast_score.cc
index a271ccc..ea3b0bb 100644
--- a/mteval/fast_score.cc
+++ b/mteval/fast_score.cc
@@ -55,6 +55,10 @@ int main(int argc, char** argv) {
   int lc = 0;
   string line;
   while(getline(in, line)) {
+    if (lc >= ds.size()) {
+      ++lc;
+      continue;
+    }
     vector<WordID> sent;
     TD::ConvertSentence(line, &sent);
     SufficientStats t;
-- 
2.43.0


From f76f044b5abc3e3254fd2fa5fa79a3d967325156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 12/98] fix: BLEU of an empty translation is 0, not NaN

---
 mteval/ns.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mteval/ns.cc b/mteval/ns.cc
index 1d37c43..41b3b57 100644
--- a/mteval/ns.cc
+++ b/mteval/ns.cc
@@ -216,6 +216,10 @@ struct BleuMetric : public EvaluationMetric {
         ++count;
       }
     }
+    if (!count) {  // nothing was translated
+      if (bp) *bp = 0;
+      return 0;
+    }
     log_bleu /= count;
     log_bleu_adj /= count;
     float lbp = 0.0;
-- 
2.43.0


From a87b862ac62fd5bf930e4c010c3e7ea493496642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 13/98] fix: mbr_kbest minimizes WER and CER instead of
 maximizing them

---
 mteval/mbr_kbest.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index eb36e00..7e5db35 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -108,7 +108,7 @@ int main(int argc, char** argv) {
   const string smetric = conf["evaluation_metric"].as<string>();
   EvaluationMetric* metric = EvaluationMetric::Instance(smetric);
 
-  const bool is_loss = (UppercaseString(smetric) == "TER");
+  const bool is_loss = metric->IsErrorMetric();
   const bool output_list = conf.count("output_list") > 0;
   vector<string> file;
   if (conf.count("input") == 0)
-- 
2.43.0


From 408a6d232c015d65c6b6511b1dd4966d2de7adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 14/98] fix: mbr_kbest keeps empty translations and the ids of
 sentences with one translation

---
 mteval/mbr_kbest.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index 7e5db35..e2aa916 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -59,15 +59,17 @@ bool ReadKBestList(const vector<double>& mbr_scale,
   static string cache_id;
   pair<vector<WordID>, prob_t> tmp_pair;
   static vector<pair<vector<WordID>, prob_t> > cache_pair(rfs.size());
+  static vector<bool> cached(rfs.size(), false);
   list->clear();
   string cur_id;
-  if (cache_pair[0].first.size() > 0) {
-    for (unsigned i = 0; i < cache_pair.size(); ++i)
-      list->push_back(cache_pair[i]);
-    cur_id = cache_id;
-    cache_pair.clear();
-    cache_pair.resize(rfs.size());
+  for (unsigned i = 0; i < cache_pair.size(); ++i) {
+    if (!cached[i]) continue;
+    list->push_back(cache_pair[i]);
+    cached[i] = false;
+    *sent_id = cur_id = cache_id;
   }
+  cache_pair.clear();
+  cache_pair.resize(rfs.size());
   string line;
   string tstr;
   for (unsigned fi = 0; fi < rfs.size(); ++fi) {
@@ -90,6 +92,7 @@ bool ReadKBestList(const vector<double>& mbr_scale,
         tmp_pair.first.clear();
       } else {
         swap(cache_pair[fi], tmp_pair);
+        cached[fi] = true;
         break;
       }
     }
-- 
2.43.0


From 01391ac6d3eff24ae2e1d9e7850ec3f2a0d60249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:16 +0000
Subject: [PATCH 15/98] fix: the trie builder forgot that pruned n-grams extend
 right when their sort position is past the last listed n-gram

---
 klm/lm/search_trie.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klm/lm/search_trie.cc b/klm/lm/search_trie.cc
index 7fc70f4..317a390 100644
--- a/klm/lm/search_trie.cc
+++ b/klm/lm/search_trie.cc
@@ -126,6 +126,10 @@ class BackoffMessages {
             break;
         }
       }
+      // The rest of the messages have nobody to receive them either.
+      for (; current_ != allocated_; current_ += entry_size_) {
+        for (const WordIndex *w = reinterpret_cast<const WordIndex *>(current_); w != reinterpret_cast<const WordIndex *>(current_) + order; ++w, ++extend_out) *extend_out = *w;
+      }
       // Now this is a list of blanks that extend right.
       entry_size_ = sizeof(WordIndex) * order;
       Resize(sizeof(WordIndex) * (extend_out - (const WordIndex*)backing_.get()));
-- 
2.43.0


From 92afdfc07206009de414be298730d99676b16a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 16/98] fix: lmplz pruned the last n-grams of each order by
 their adjusted counts

---
 klm/lm/builder/adjust_counts.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klm/lm/builder/adjust_counts.cc b/klm/lm/builder/adjust_counts.cc
index 803c557..00875d7 100644
--- a/klm/lm/builder/adjust_counts.cc
+++ b/klm/lm/builder/adjust_counts.cc
@@ -269,7 +269,8 @@ void AdjustCounts::Run(const util::stream::ChainPositions &positions) {
 
   // Output everything valid.
   for (NGramStream *s = streams.begin(); s <= lower_valid; ++s) {
-    if((*s)->Count() <= prune_thresholds_[(*s)->Order() - 1])
+    uint64_t order = (*s)->Order();
+    if(order > 1 && prune_thresholds_[order - 1] && lower_counts[order - 1] <= prune_thresholds_[order - 1])
       (*s)->Mark();
     stats.Add(s - streams.begin(), (*s)->UnmarkedCount(), (*s)->IsMarked());
     ++*s;
-- 
2.43.0


From cab5109010c70a2ab969f191341a6727e90a62c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 17/98] fix: the n-gram count filter lost the last batch when
 run with several threads

---
 klm/lm/filter/format.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/lm/filter/format.hh b/klm/lm/filter/format.hh
index 5a2e2db..ffc97a6 100644
--- a/klm/lm/filter/format.hh
+++ b/klm/lm/filter/format.hh
@@ -129,6 +129,7 @@ struct CountFormat {
   template <class Filter, class Out> static void RunFilter(util::FilePiece &in, Filter &filter, Out &output) {
     DispatchInput<Filter, Out> dispatcher(filter, output);
     ReadCount(in, dispatcher);
+    filter.Flush();
   }
 };
 
-- 
2.43.0


From 894cbc2fcb8287cb567cfccf723907a4b3f98574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 18/98] fix: the threaded n-gram filter waited forever for a
 batch that was empty when flushed

---
 klm/lm/filter/thread.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/klm/lm/filter/thread.hh b/klm/lm/filter/thread.hh
index 6a6523f..90a4b19 100644
--- a/klm/lm/filter/thread.hh
+++ b/klm/lm/filter/thread.hh
@@ -134,7 +134,11 @@ template <class Filter, class OutputBuffer, class RealOutput> class Controller :
 
   private:
     void FlushInput() {
-      if (input_->Empty()) return;
+      if (input_->Empty()) {
+        // NewInput will hand out this batch's number again; the output waits for every number.
+        --sequence_;
+        return;
+      }
       filter_.Produce(local_read_.top());
       local_read_.pop();
       if (local_read_.empty()) MoveRead();
-- 
2.43.0


From fd7306485d0097e3f4bc341074f01d1c185697b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 19/98] fix: the threaded filter to several vocabularies took
 the first n-gram of a batch for the last one of the batch before

---
 klm/lm/filter/format.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/lm/filter/format.hh b/klm/lm/filter/format.hh
index ffc97a6..ff9b3d9 100644
--- a/klm/lm/filter/format.hh
+++ b/klm/lm/filter/format.hh
@@ -231,6 +231,8 @@ class MultipleOutputBuffer {
         }
       }
       annotated_.clear();
+      // The next batch may reuse the memory of this line.
+      last_ = StringPiece();
     }
 
   private:
-- 
2.43.0


From 4960ee21edb2330cd34d510b9e1c8d1b0c3981ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 20/98] fix: frequent patterns past the end of the corpus

With min_frequency 1 the empty suffix counted as a frequent pattern and the
word after the last one was read.
---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 3e58e2a..0cfdfd3 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -84,7 +84,7 @@ vector<vector<int>> Precomputation::FindMostFrequentPatterns(
     for (int len = lcp[i]; len < max_frequent_phrase_len; ++len) {
       int frequency = i - run_start[len];
       int start = suffix_array->GetSuffix(run_start[len]);
-      if (frequency >= min_frequency && start + len <= data.size()) {
+      if (frequency >= min_frequency && start + len < data.size()) {
         heap.push(make_pair(frequency, make_pair(start, len + 1)));
       }
       run_start[len] = i;
-- 
2.43.0


From 306def1f92ac4a98b546d5eaccc7da894e9a9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 21/98] fix: target order of three or more nonterminals

The ranks of the gaps were taken for their order, which only agrees for
permutations that are their own inverse.
---
 extractor/rule_extractor_helper.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/extractor/rule_extractor_helper.cc b/extractor/rule_extractor_helper.cc
index d7e332d..1642dad 100644
--- a/extractor/rule_extractor_helper.cc
+++ b/extractor/rule_extractor_helper.cc
@@ -1,5 +1,7 @@
 #include "rule_extractor_helper.h"
 
+#include <algorithm>
+
 #include "data_array.h"
 #include "alignment.h"
 
@@ -331,16 +333,13 @@ bool RuleExtractorHelper::GetGaps(
 
 vector<int> RuleExtractorHelper::GetGapOrder(
     const vector<pair<int, int>>& gaps) const {
+  // The i-th element is the index of the i-th gap from the left.
   vector<int> gap_order(gaps.size());
   for (size_t i = 0; i < gap_order.size(); ++i) {
-    for (size_t j = 0; j < i; ++j) {
-      if (gaps[gap_order[j]] < gaps[i]) {
-        ++gap_order[i];
-      } else {
-        ++gap_order[j];
-      }
-    }
+    gap_order[i] = i;
   }
+  sort(gap_order.begin(), gap_order.end(),
+       [&gaps](int x, int y) { return gaps[x] < gaps[y]; });
   return gap_order;
 }
 
-- 
2.43.0


From e1fa62cd4fa1e03669faefa3cda36987de4e0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:19 +0000
Subject: [PATCH 22/98] fix: precomputed ternary collocations

Only one word of the third part was taken back, so the next patterns were
indexed with words that are not theirs, and their own occurrences got lost.
---
 extractor/precomputation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extractor/precomputation.cc b/extractor/precomputation.cc
index 0cfdfd3..27dea58 100644
--- a/extractor/precomputation.cc
+++ b/extractor/precomputation.cc
@@ -160,7 +160,7 @@ void Precomputation::UpdateIndex(
                 && (is_super1 || is_super3)) {
               AppendSubpattern(pattern, annotations[k]);
               AppendCollocation(index[pattern], start1, start2, start3);
-              pattern.erase(pattern.end() - size3);
+              pattern.erase(pattern.end() - size3, pattern.end());
             }
           }
         }
-- 
2.43.0


From 848d531bb0784008615c1c33fb53a965cf164e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 23/98] fix: expected diagonal feature off by one position

The tension was fitted to features of the word before (positions count from
one), so likelihoods fell with --optimize_tension.
---
 word-aligner/fast_align.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 73b7239..154f7d7 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -202,7 +202,7 @@ int main(int argc, char** argv) {
           for (unsigned i = 1; i <= src.size(); ++i) {
             const double p = probs[i] / sum;
             s2t.Increment(src[i-1], f_j, p);
-            emp_feat += DiagonalAlignment::Feature(j, i, trg.size(), src.size()) * p;
+            emp_feat += DiagonalAlignment::Feature(j + 1, i, trg.size(), src.size()) * p;
           }
         }
         likelihood += log(sum);
-- 
2.43.0


From 41f608b51a66f2d3d818700dcfe3586d58fc46ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 24/98] fix: normalizer of the expected diagonal feature

The sentence lengths were swapped, which gave the wrong gradient of the
tension for pairs of different lengths.
---
 word-aligner/da.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/word-aligner/da.h b/word-aligner/da.h
index c979b64..94ccacc 100644
--- a/word-aligner/da.h
+++ b/word-aligner/da.h
@@ -41,7 +41,7 @@ struct DiagonalAlignment {
   }
 
   static double ComputeDLogZ(const unsigned i, const unsigned m, const unsigned n, const double alpha) {
-    const double z = ComputeZ(i, n, m, alpha);
+    const double z = ComputeZ(i, m, n, alpha);
     const double split = double(i) * n / m;
     const unsigned floor = split;
     const unsigned ceil = floor + 1;
-- 
2.43.0


From 46808d6d33b8dc02e673cb0c836a71fd084c77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 25/98] fix: writing parameters of words that are in no Viterbi
 alignment

The table of Viterbi points ends with the last word that has one; its end was
read past for later words.
---
 word-aligner/fast_align.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index 154f7d7..f5ce691 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -309,6 +309,7 @@ int main(int argc, char** argv) {
 
   if (output_parameters) {
     WriteFile params_out(conf["output_parameters"].as<string>());
+    if (s2t_viterbi.size() < s2t.ttable.size()) s2t_viterbi.resize(s2t.ttable.size());
     for (unsigned eind = 1; eind < s2t.ttable.size(); ++eind) {
       const auto& cpd = s2t.ttable[eind];
       const TTable::Word2Double& vit = s2t_viterbi[eind];
-- 
2.43.0


From 10e86aed0344dfa41015418b17dcb00c27ad6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:54 +0000
Subject: [PATCH 26/98] fix: --no_add_viterbi had no effect when alignments are
 printed

---
 word-aligner/fast_align.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/word-aligner/fast_align.cc b/word-aligner/fast_align.cc
index f5ce691..ddc66bd 100644
--- a/word-aligner/fast_align.cc
+++ b/word-aligner/fast_align.cc
@@ -190,8 +190,10 @@ int main(int argc, char** argv) {
                   cout << (max_index - 1) << '-' << j;
               }
             }
-            if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
-            s2t_viterbi[max_i][f_j] = 1.0;
+            if (add_viterbi) {
+              if (s2t_viterbi.size() <= static_cast<unsigned>(max_i)) s2t_viterbi.resize(max_i + 1);
+              s2t_viterbi[max_i][f_j] = 1.0;
+            }
           }
         } else {
           if (use_null) {
-- 
2.43.0


From 1760a814dea19cae2b2a13a33b85838504895ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 27/98] fix: unquoted attributes of a seg tag after a longer
 one were lost

---
 utils/stringlib.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/stringlib.cc b/utils/stringlib.cc
index 1a15298..6a39486 100644
--- a/utils/stringlib.cc
+++ b/utils/stringlib.cc
@@ -82,6 +82,7 @@ void ProcessAndStripSGML(string* pline, map<string, string>* out) {
         } else {
           seg = val.substr(close+1);
           val = val.substr(0, close);
+          i = 0;
         }
       }
       label = Trim(label);
-- 
2.43.0


From 906bd9c74d90ceb5de676b22c1948b9bcea07cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 28/98] fix: decoding of vectors with feature names of more
 than 127 bytes

---
 utils/sparse_vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/sparse_vector.cc b/utils/sparse_vector.cc
index 00e7bd6..9e957fa 100644
--- a/utils/sparse_vector.cc
+++ b/utils/sparse_vector.cc
@@ -71,7 +71,7 @@ bool Decode(double* objective, SparseVector<double>* v, const char* in, size_t s
   int fc = 0;
   while(fc < num_feats && cur < decoded_size) {
     ++fc;
-    const int fname_len = data[cur++];
+    const int fname_len = static_cast<unsigned char>(data[cur++]);
     assert(fname_len > 0);
     assert(fname_len < 256);
     string fname(fname_len, '\0');
-- 
2.43.0


From 38da2b711873543d2790421c2780bffe5a4ddc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 29/98] fix: erasing an absent key removed the last element of
 a small sparse vector

---
 utils/fast_sparse_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/fast_sparse_vector.h b/utils/fast_sparse_vector.h
index 0697fc4..b3c129b 100644
--- a/utils/fast_sparse_vector.h
+++ b/utils/fast_sparse_vector.h
@@ -204,9 +204,10 @@ class FastSparseVector {
             data_.local[j-1].first() = data_.local[j].first();
             data_.local[j-1].second() = data_.local[j].second();
           }
+          --local_size_;
+          break;
         }
       }
-      --local_size_;
     }
   }
   const FastSparseVector<T>& operator=(const FastSparseVector<T>& other) {
-- 
2.43.0


From f7ca325d616cbcdbcd39b44a7dd5b741c7864cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 30/98] fix: overlapping copy when the end of a compressed file
 is read

---
 utils/gzstream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/gzstream.cc b/utils/gzstream.cc
index dbfa2f5..e8c3002 100644
--- a/utils/gzstream.cc
+++ b/utils/gzstream.cc
@@ -98,7 +98,7 @@ int gzstreambuf::underflow() { // used for input buffer only
     int n_putback = gptr() - eback();
     if ( n_putback > 4)
         n_putback = 4;
-    std::memcpy( buffer + (4 - n_putback), gptr() - n_putback, n_putback);
+    std::memmove( buffer + (4 - n_putback), gptr() - n_putback, n_putback);
 
     int num = gzread( file, buffer+4, bufferSize-4);
     if (num <= 0) // ERROR or EOF
-- 
2.43.0


From 50729d9be52778dc4f2267d1fdc2c51cf6c49145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 31/98] fix: base64 lost bits when two bytes remained in the
 last group

---
 utils/b64tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/b64tools.cc b/utils/b64tools.cc
index 78c1cb4..e8b3d6d 100644
--- a/utils/b64tools.cc
+++ b/utils/b64tools.cc
@@ -13,7 +13,7 @@ static void encodeblock(const unsigned char* in, ostream* os, int len) {
   // cerr << len << endl;
   out[0] = cb64[ in[0] >> 2 ];
   out[1] = cb64[ ((in[0] & 0x03) << 4) | (len > 1 ? ((in[1] & 0xf0) >> 4) : static_cast<unsigned char>(0))];
-  out[2] = (len > 2 ? cb64[ ((in[1] & 0x0f) << 2) | ((in[2] & 0xc0) >> 6) ] : '=');
+  out[2] = (len > 1 ? cb64[ ((in[1] & 0x0f) << 2) | (len > 2 ? ((in[2] & 0xc0) >> 6) : static_cast<unsigned char>(0)) ] : '=');
   out[3] = (len > 2 ? cb64[ in[2] & 0x3f ] : '=');
   os->write(out, 4);
 }
-- 
2.43.0


From c35962d51e7112a4cf19d7b4b090b3f9daeb59e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 32/98] fix: order of two negative numbers in log space

---
 utils/logval.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/utils/logval.h b/utils/logval.h
index 0c9ee98..d06a2fc 100644
--- a/utils/logval.h
+++ b/utils/logval.h
@@ -118,10 +118,10 @@ class LogVal {
 
   //remember, s_ means negative.
   inline bool lt(Self const& o) const {
-    return s_==o.s_ ? v_ < o.v_ : s_ > o.s_;
+    return s_==o.s_ ? (s_ ? o.v_ < v_ : v_ < o.v_) : s_ > o.s_;
   }
   inline bool gt(Self const& o) const {
-    return s_==o.s_ ? o.v_ < v_ : s_ < o.s_;
+    return s_==o.s_ ? (s_ ? v_ < o.v_ : o.v_ < v_) : s_ < o.s_;
   }
 
   Self operator-() const {
@@ -219,7 +219,7 @@ bool operator!=(const LogVal<T>& lhs, const LogVal<T>& rhs) {
 template <class T>
 bool operator<(const LogVal<T>& lhs, const LogVal<T>& rhs) {
   if (lhs.s_ == rhs.s_) {
-    return (lhs.v_ < rhs.v_);
+    return lhs.s_ ? (rhs.v_ < lhs.v_) : (lhs.v_ < rhs.v_);
   } else {
     return lhs.s_ > rhs.s_;
   }
-- 
2.43.0


From 91cba75a6a449e9b242215119bb9ce2417585a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 33/98] fix: phrase-based decoding aborts at start-up: the
 concatenation rule is synchronous, not monolingual

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 8415353..80bc867 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -76,7 +76,7 @@ struct PhraseBasedTranslatorImpl {
   PhraseBasedTranslatorImpl(const boost::program_options::variables_map& conf) :
       add_pass_through_rules(conf.count("add_pass_through_rules")),
       max_distortion(conf["pb_max_distortion"].as<int>()),
-      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]", true)),
+      kCONCAT_RULE(new TRule("[X] ||| [X,1] [X,2] ||| [X,1] [X,2]")),
       kNT_TYPE(TD::Convert("X") * -1) {
     assert(max_distortion >= 0);
     vector<string> gfiles = conf["grammar"].as<vector<string> >();
-- 
2.43.0


From ae8f7ae10c6562936f428dd1a6f6407efc963d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 34/98] fix: phrase-based coverage reads past the end when the
 last gap is filled

---
 decoder/phrasebased_translator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index 80bc867..b39b15c 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -35,7 +35,7 @@ struct Coverage : public vector<bool> {
     if (first_gap == i) {
       first_gap = j;
       it = end;
-      while (*it && it != this->end()) {
+      while (it != this->end() && *it) {
         ++it;
         ++first_gap;
       }
-- 
2.43.0


From 7014cc40a7d8b9bdefa46397779833c93cf2da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 35/98] fix: phrase-based decoding of lattices drops phrases
 that start at the left edge

---
 decoder/phrasebased_translator.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/decoder/phrasebased_translator.cc b/decoder/phrasebased_translator.cc
index b39b15c..1baf839 100644
--- a/decoder/phrasebased_translator.cc
+++ b/decoder/phrasebased_translator.cc
@@ -145,7 +145,14 @@ struct PhraseBasedTranslatorImpl {
         new_cov.Cover(s.i, s.j);
         EnqueuePossibleContinuations(new_cov, &q, &ucs);
         const vector<TRulePtr>& phrases = s.fst->GetTranslations()->GetRules();
-        const int phrase_head_index = minus_lm_forest->AddNode(kNT_TYPE)->id_;
+        CoverageNodeMap::iterator cit = c.find(s.coverage);
+        assert(cit != c.end());
+        const int tail_node_plus1 = cit->second;
+        int& head_node_plus1 = c[new_cov];
+        // on the left edge, the phrase itself heads the new coverage (in a
+        // lattice, several phrases may lead to the same one)
+        const bool is_head = (tail_node_plus1 == 0 && head_node_plus1 > 0);
+        const int phrase_head_index = is_head ? head_node_plus1 - 1 : minus_lm_forest->AddNode(kNT_TYPE)->id_;
         for (int i = 0; i < phrases.size(); ++i) {
           Hypergraph::Edge* edge = minus_lm_forest->AddEdge(phrases[i], Hypergraph::TailNodeVector());
           edge->feature_values_ = edge->rule_->scores_;
@@ -153,13 +160,9 @@ struct PhraseBasedTranslatorImpl {
           edge->j_ = s.j;
           minus_lm_forest->ConnectEdgeToHeadNode(edge->id_, phrase_head_index);
         }
-        CoverageNodeMap::iterator cit = c.find(s.coverage);
-        assert(cit != c.end());
-        const int tail_node_plus1 = cit->second;
         if (tail_node_plus1 == 0) {  // left edge
-          c[new_cov] = phrase_head_index + 1;
+          head_node_plus1 = phrase_head_index + 1;
         } else { // not left edge
-          int& head_node_plus1 = c[new_cov];
           if (!head_node_plus1)
             head_node_plus1 = minus_lm_forest->AddNode(kNT_TYPE)->id_ + 1;
           Hypergraph::TailNodeVector tail(2, tail_node_plus1 - 1);
-- 
2.43.0


From 932a211c4a21f0a60292765e894405fe06bb1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 36/98] fix: clearing pass-through translations removes longer
 phrases from the phrase table

---
 decoder/phrasetable_fst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/phrasetable_fst.cc b/decoder/phrasetable_fst.cc
index b3bec86..1966519 100644
--- a/decoder/phrasetable_fst.cc
+++ b/decoder/phrasetable_fst.cc
@@ -97,7 +97,7 @@ void TextFSTNode::AddPassThroughTranslation(const WordID& w, const SparseVector<
 
 void TextFSTNode::ClearPassThroughTranslations() {
   for (int i = 0; i < passthroughs.size(); ++i)
-    ptr.erase(passthroughs[i]);
+    ptr[passthroughs[i]].data.reset();  // longer phrases may start with this word
   passthroughs.clear();
 }
 
-- 
2.43.0


From 45db579c0c0ecfbb48ab89690e37791aeda11f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 37/98] fix: target words that no rule generates with a source
 word are aligned to the whole source

---
 decoder/aligner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/aligner.cc b/decoder/aligner.cc
index fd64837..d1ea84f 100644
--- a/decoder/aligner.cc
+++ b/decoder/aligner.cc
@@ -292,7 +292,7 @@ void AlignerTools::WriteAlignment(const Lattice& src_lattice,
         //threshold *= prob_t(0.99);
       }
       for (int i = 0; i < src_size; ++i)
-        grid(i, j) = align(i+1, j) >= threshold;
+        grid(i, j) = align(i+1, j) >= threshold && align(i+1, j) > prob_t::Zero();
     }
     if (out == &cout && k_best < 2) {
       // TODO need to do some sort of verbose flag
-- 
2.43.0


From a6e3119987e1effee1c30dcc10495a1b6736aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 38/98] fix: only one of the edges sharing a rule is inverted
 when a reference constrains a linear chain

---
 decoder/hg_intersect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_intersect.cc b/decoder/hg_intersect.cc
index b9381d0..79a2b05 100644
--- a/decoder/hg_intersect.cc
+++ b/decoder/hg_intersect.cc
@@ -75,7 +75,7 @@ static bool FastLinearIntersect(const Lattice& target, Hypergraph* hg) {
         cov.insert(trg_index);
         swap(edge.prev_i_, edge.i_);
         swap(edge.prev_j_, edge.j_);
-        edge.rule_.swap(inv_rule);
+        edge.rule_ = inv_rule;
       }
     }
   }
-- 
2.43.0


From fd261032655ed547bb59993bbdf3a47a0201d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 39/98] fix: the last word of a frequency list loses its
 frequency

---
 decoder/freqdict.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/decoder/freqdict.h b/decoder/freqdict.h
index 07d797e..da711c9 100644
--- a/decoder/freqdict.h
+++ b/decoder/freqdict.h
@@ -20,8 +20,7 @@ class FreqDict {
     int cc=0;
     std::string word;
     while (ifs) {
-      ifs >> word;
-      if (word.size() == 0) continue;
+      if (!(ifs >> word)) break;
       if (word[0] == '#') continue;
       T count = 0;
       ifs >> count;
-- 
2.43.0


From 7777fd0b060fb0e455d0e6f05fab33ef886f3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 40/98] fix: bad words are ignored when a list of special words
 is given as well

---
 decoder/ff_csplit.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_csplit.cc b/decoder/ff_csplit.cc
index 550ff69..f93c0c0 100644
--- a/decoder/ff_csplit.cc
+++ b/decoder/ff_csplit.cc
@@ -46,7 +46,7 @@ struct BasicCSplitFeaturesImpl {
       abort();
     }
     freq_dict_.Load(argv[0]);
-    if (argc == 2) {
+    if (argc > 1) {
       ReadFile rf(argv[1]);
       istream& in = *rf.stream();
       while(in) {
-- 
2.43.0


From 41ae0fa998d64d62491fac3655fa0de2fe53707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 41/98] fix: derivations that end in the middle of a phrase are
 lost when others end there too

---
 decoder/earley_composer.cc |  2 +
 decoder/hg_remove_eps.cc   | 81 +++++++++++++++++++-------------------
 2 files changed, 43 insertions(+), 40 deletions(-)

diff --git a/decoder/earley_composer.cc b/decoder/earley_composer.cc
index d47a696..c5a968a 100644
--- a/decoder/earley_composer.cc
+++ b/decoder/earley_composer.cc
@@ -583,6 +583,8 @@ class EarleyComposerImpl {
       tps = node;
     }
     Hypergraph::Node*& head_node = edge2node[edge];
+    if (head_node && edge->IsCreatedByPredict())
+      return;  // predicting an edge again is no other derivation
     if (!head_node)
       head_node = hg->AddNode(edge->cat);
     if (edge->cat == start_cat_ && edge->q == q_0_ && edge->r == q_0_ && edge->IsPassive()) {
diff --git a/decoder/hg_remove_eps.cc b/decoder/hg_remove_eps.cc
index 050c487..f367ec8 100644
--- a/decoder/hg_remove_eps.cc
+++ b/decoder/hg_remove_eps.cc
@@ -33,59 +33,60 @@ namespace {
   }
 }
 
+// nodes must be topologically sorted
 void RemoveEpsilons(Hypergraph* g, WordID eps) {
   vector<bool> kill(g->edges_.size(), false);
-  for (unsigned i = 0; i < g->edges_.size(); ++i) {
-    const Hypergraph::Edge& edge = g->edges_[i];
-    if (edge.tail_nodes_.empty() &&
-        edge.rule_->f_.size() == 1 &&
-        edge.rule_->f_[0] == eps) {
-      kill[i] = true;
-      if (!edge.feature_values_.empty()) {
-        Hypergraph::Node& node = g->nodes_[edge.head_node_];
-        if (node.in_edges_.size() != 1) {
-          cerr << "[WARNING] <eps> edge with features going into non-empty node - can't promote\n";
-          // this *probably* means that there are multiple derivations of the
-          // same sequence via different paths through the input forest
-          // this needs to be investigated and fixed
-        } else {
-          for (unsigned j = 0; j < node.out_edges_.size(); ++j)
-            g->edges_[node.out_edges_[j]].feature_values_ += edge.feature_values_;
-          // cerr << "PROMOTED " << edge.feature_values_ << endl;
-	}
+  for (unsigned i = 0; i < g->nodes_.size(); ++i) {
+    // one feature vector for each way to derive <eps>
+    vector<SparseVector<double> > eps_features;
+    bool derives_other = false;
+    const Hypergraph::EdgesVector in_edges = g->nodes_[i].in_edges_;
+    for (unsigned j = 0; j < in_edges.size(); ++j) {
+      const Hypergraph::Edge& edge = g->edges_[in_edges[j]];
+      if (kill[edge.id_]) continue;
+      if (edge.tail_nodes_.empty() &&
+          edge.rule_->f_.size() == 1 &&
+          edge.rule_->f_[0] == eps) {
+        kill[edge.id_] = true;
+        eps_features.push_back(edge.feature_values_);
+      } else {
+        derives_other = true;
       }
     }
-  }
-  bool created_eps = false;
-  g->PruneEdges(kill);
-  for (unsigned i = 0; i < g->nodes_.size(); ++i) {
-    const Hypergraph::Node& node = g->nodes_[i];
-    if (node.in_edges_.empty()) {
-      for (unsigned j = 0; j < node.out_edges_.size(); ++j) {
-        Hypergraph::Edge& edge = g->edges_[node.out_edges_[j]];
+    if (eps_features.empty()) continue;
+    const Hypergraph::EdgesVector out_edges = g->nodes_[i].out_edges_;
+    for (unsigned j = 0; j < out_edges.size(); ++j) {
+      const int out = out_edges[j];
+      if (kill[out]) continue;
+      // replace the edge (or, if the node derives something else as well,
+      // supplement it) with edges that do not use this node
+      for (unsigned k = 0; k < eps_features.size(); ++k) {
+        Hypergraph::Edge& edge = g->edges_[out];
         const int lhs = edge.rule_->lhs_;
+        TRulePtr rule;
+        Hypergraph::TailNodeVector tail;
         if (edge.rule_->Arity() == 2) {
           assert(edge.rule_->f_.size() == 2);
           assert(edge.rule_->e_.size() == 2);
-          unsigned cur = node.id_;
-          int t = -1;
           assert(edge.tail_nodes_.size() == 2);
-          int rhs = 0;
-          for (unsigned i = 0; i < 2u; ++i) if (edge.tail_nodes_[i] != cur) { t = edge.tail_nodes_[i]; rhs = edge.rule_->f_[i]; }
-          assert(t != -1);
-          edge.tail_nodes_.resize(1);
-          edge.tail_nodes_[0] = t;
-          edge.rule_ = CreateUnaryRule(lhs, rhs);
+          assert(edge.tail_nodes_[0] != edge.tail_nodes_[1]);
+          const unsigned rest = (edge.tail_nodes_[0] == static_cast<int>(i) ? 1 : 0);
+          tail.push_back(edge.tail_nodes_[rest]);
+          rule = CreateUnaryRule(lhs, edge.rule_->f_[rest]);
         } else {
-          edge.rule_ = CreateEpsilonRule(lhs, eps);
-          edge.tail_nodes_.clear();
-          created_eps = true;
+          rule = CreateEpsilonRule(lhs, eps);
         }
+        const int head = edge.head_node_;
+        SparseVector<double> features = edge.feature_values_;
+        features += eps_features[k];
+        Hypergraph::Edge* new_edge = g->AddEdge(rule, tail);
+        new_edge->feature_values_ = features;
+        g->ConnectEdgeToHeadNode(new_edge, &g->nodes_[head]);
+        kill.push_back(false);
       }
+      if (!derives_other) kill[out] = true;
     }
   }
-  vector<bool> k2(g->edges_.size(), false);
-  g->PruneEdges(k2);
-  if (created_eps) RemoveEpsilons(g, eps);
+  g->PruneEdges(kill);
 }
 
-- 
2.43.0


From 1ef996e783df553f2c9e749b2cd77496dd0aaa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 42/98] fix: adding TER statistics with a scale of 1 or -1
 throws

---
 mteval/ter.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mteval/ter.cc b/mteval/ter.cc
index 19b90bb..b49e07c 100644
--- a/mteval/ter.cc
+++ b/mteval/ter.cc
@@ -438,9 +438,10 @@ class TERScore : public ScoreBase<TERScore> {
   void PlusEquals(const Score& delta, const float scale) {
     if (scale==1)
       stats += static_cast<const TERScore&>(delta).stats;
-    if (scale==-1)
+    else if (scale==-1)
       stats -= static_cast<const TERScore&>(delta).stats;
-    throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
+    else
+      throw std::runtime_error("TERScore::PlusEquals with scale != +-1");
  }
   void PlusEquals(const Score& delta) {
     stats += static_cast<const TERScore&>(delta).stats;
-- 
2.43.0


From 1380ab10970c12636f35e5ff8fb1a05af8eafae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:14 +0000
Subject: [PATCH 43/98] fix: tree-to-string rules match input trees whose nodes
 have other children

---
 decoder/tree2string_translator.cc | 34 ++++++++++++++++++++++++-------
 decoder/tree_fragment.h           |  5 +++++
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/decoder/tree2string_translator.cc b/decoder/tree2string_translator.cc
index cdd83ff..9af8980 100644
--- a/decoder/tree2string_translator.cc
+++ b/decoder/tree2string_translator.cc
@@ -23,6 +23,12 @@ struct Tree2StringGrammarNode {
   vector<TRulePtr> rules;
 };
 
+// key in the trie for the number of children of a node. it follows the LHS symbol
+// since the symbols alone do not tell (S (X a) b) from (S (X a b))
+static unsigned ArityKey(const cdec::TreeFragment::iterator& it) {
+  return it.arity() | cdec::RESERVED_BIT;
+}
+
 // this needs to be rewritten so it is fast and checks errors well
 // use a lexer probably
 static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bool has_multiple_states) {
@@ -50,9 +56,11 @@ static void ReadTree2StringGrammar(istream* in, Tree2StringGrammarNode* root, bo
     // build source RHS for SCFG projection
     vector<int> frhs;
     // we traverse the rule_src in left to right, DFS order
-    for (auto sym : rule_src) {
+    for (auto it = rule_src.begin(); !it.at_end(); ++it) {
+      const unsigned sym = *it;
       //cerr << TD::Convert(sym & cdec::ALL_MASK) << endl;
       cur = &cur->next[sym];
+      if (cdec::IsLHS(sym)) cur = &cur->next[ArityKey(it)];
       if (cdec::IsFrontier(sym)) {  // frontier symbols -> variables
         int nt = (sym & cdec::ALL_MASK);
         frhs.push_back(-nt);
@@ -193,11 +201,17 @@ struct Tree2StringTranslatorImpl {
       cur = &it->second;
       bool failed = false;
       vector<int> trg;
-      for (auto sym : src) {
+      for (auto src_it = src.begin(); !src_it.at_end(); ++src_it) {
+        const unsigned sym = *src_it;
         it = cur->next.find(sym);
         if (it == cur->next.end()) { failed = true; break; }
         if (cdec::IsFrontier(sym)) trg.push_back(-trg.size());
         cur = &it->second;
+        if (cdec::IsLHS(sym)) {
+          it = cur->next.find(ArityKey(src_it));
+          if (it == cur->next.end()) { failed = true; break; }
+          cur = &it->second;
+        }
       }
       if (failed) continue;
       // TODO check for destination states in t2t
@@ -264,8 +278,10 @@ struct Tree2StringTranslatorImpl {
       // the following reduces ambiguity quite a lot
       if (abstract_rule && DoesAbstractPassThroughRuleExist(transducer_state, rule_src)) continue; 
       cur = &cur->next[transducer_state];
-      for (auto sym : rule_src)
-        cur = &cur->next[sym];
+      for (auto it = rule_src.begin(); !it.at_end(); ++it) {
+        cur = &cur->next[*it];
+        if (cdec::IsLHS(*it)) cur = &cur->next[ArityKey(it)];
+      }
       TRulePtr rule(new TRule(rhse, rhsf, lhs));
       rule->a_.push_back(AlignmentPoint(0, 0));
       rule->ComputeArity();
@@ -360,9 +376,13 @@ struct Tree2StringTranslatorImpl {
         if (cdec::IsLHS(sym)) {
           auto nit = s.node->next.find(sym);
           if (nit != s.node->next.end()) {
-            //cerr << "MATCHED LHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
-            ParserState news(++s.in_iter, &nit->second, s);
-            if (unique.insert(news).second) q.push(news);
+            Tree2StringGrammarNode* lhs_node = &nit->second;
+            nit = lhs_node->next.find(ArityKey(s.in_iter));
+            if (nit != lhs_node->next.end()) {
+              //cerr << "MATCHED LHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
+              ParserState news(++s.in_iter, &nit->second, s);
+              if (unique.insert(news).second) q.push(news);
+            }
           }
         } else if (cdec::IsRHS(sym)) {
           //cerr << "Attempting to match RHS: " << TD::Convert(sym & cdec::ALL_MASK) << endl;
diff --git a/decoder/tree_fragment.h b/decoder/tree_fragment.h
index e19b79f..db9ade1 100644
--- a/decoder/tree_fragment.h
+++ b/decoder/tree_fragment.h
@@ -164,6 +164,11 @@ class DepthFirstIterator : public std::iterator<std::forward_iterator_tag, unsig
     assert(IsRHS(sym));
     return q_.back().node;
   }
+  // number of children of the node whose LHS symbol was just visited
+  unsigned arity() const {
+    assert(IsLHS(sym));
+    return tf_->nodes[q_.back().node].rhs.size();
+  }
   DepthFirstIterator remainder() const {
     assert(IsRHS(sym));
     return DepthFirstIterator(tf_, q_.back());
-- 
2.43.0


From ee83c918353862f1827928ab3376bf1800f07bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 44/98] fix: counts of words and frontier sites of a parsed
 tree start from garbage

---
 decoder/tree_fragment.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder/tree_fragment.cc b/decoder/tree_fragment.cc
index ff406ad..87f7d9a 100644
--- a/decoder/tree_fragment.cc
+++ b/decoder/tree_fragment.cc
@@ -8,7 +8,8 @@ using namespace std;
 
 namespace cdec {
 
-TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) {
+TreeFragment::TreeFragment(const StringPiece& tree, bool allow_frontier_sites) :
+    frontier_sites(), terminals() {
   int bal = 0;
   const unsigned len = tree.size();
   unsigned cur = 0;
-- 
2.43.0


From e0cce4e997512d7159d69c19a72fc31e5102a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 45/98] fix: empty lines of a grammar are copied to the
 standard output

---
 decoder/rule_lexer.ll | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 8b48ab7..b1ad2ec 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -130,6 +130,12 @@ NT ([^\t \n\r\[\],]+|Goal)
   ctf_level++;
   };
 
+<INITIAL>\r?\n	{
+  // empty line
+  ctf_level = 0;
+  lex_line++;
+  };
+
 <INITIAL>\[{NT}\]   {
 		scfglex_tmp_token.assign(yytext + 1, yyleng - 2);
 		scfglex_lhs = -TD::Convert(scfglex_tmp_token);
-- 
2.43.0


From cf29f1feee6cc26340ead3020d0dde83389d34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 46/98] fix: a rule's last feature swallows the next line up to
 a '=' in its category

---
 decoder/rule_lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index b1ad2ec..f8c5f8c 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -276,7 +276,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 
 <FEATS>[ \t;]	{ ; }
-<FEATS>[^ \t=;]+=	{
+<FEATS>[^ \t\r\n=;]+=	{
 		scfglex_tmp_token.assign(yytext, yyleng - 1);
 		const int fid = FD::Convert(scfglex_tmp_token);
 		if (fid < 1) {
-- 
2.43.0


From 6ef3dcbf6545e694f636bbf423b4d6287e7081bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 47/98] fix: the last rule of a grammar without a newline at
 the end is lost

---
 decoder/rule_lexer.ll | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index f8c5f8c..04574ba 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -23,7 +23,19 @@ std::vector<int> scfglex_phrase_fnames;
 std::string scfglex_fname;
 
 #undef YY_INPUT
-#define YY_INPUT(buf, result, max_size) (result = scfglex_stream->read(buf, max_size).gcount())
+#define YY_INPUT(buf, result, max_size) (result = read_input(buf, max_size))
+
+// the last line of a grammar may lack its newline
+static char scfglex_last_char = '\n';
+static size_t read_input(char* buf, size_t max_size) {
+  size_t n = scfglex_stream->read(buf, max_size).gcount();
+  if (!n && scfglex_last_char != '\n') {
+    buf[0] = '\n';
+    n = 1;
+  }
+  if (n) scfglex_last_char = buf[n - 1];
+  return n;
+}
 
 #define YY_SKIP_YYWRAP 1
 int num_rules = 0;
@@ -355,6 +367,7 @@ void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const
   lex_line = 1;
   scfglex_fname = fname;
   scfglex_stream = in;
+  scfglex_last_char = '\n';
   rule_callback_extra = extra,
   rule_callback = func;
   yylex();
-- 
2.43.0


From 56e953408e2f873c3d3b6f7a8798dd9699c6eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 48/98] fix: long rules and long feature lists overflow the
 buffers of the grammar reader

---
 decoder/rule_lexer.ll | 73 ++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/decoder/rule_lexer.ll b/decoder/rule_lexer.ll
index 04574ba..4ac4201 100644
--- a/decoder/rule_lexer.ll
+++ b/decoder/rule_lexer.ll
@@ -44,33 +44,47 @@ bool fl = true;
 #define MAX_TOKEN_SIZE 255
 std::string scfglex_tmp_token(MAX_TOKEN_SIZE, '\0');
 
-#define MAX_RULE_SIZE 200
-WordID scfglex_src_rhs[MAX_RULE_SIZE];
-WordID scfglex_trg_rhs[MAX_RULE_SIZE];
+// buffers grow with the longest rule
+template <typename T> T& at(std::vector<T>& v, int i) {
+  if (i >= static_cast<int>(v.size())) v.resize(2 * i + 1);
+  return v[i];
+}
+
+#define INIT_RULE_SIZE 200
+std::vector<WordID> scfglex_src_rhs(INIT_RULE_SIZE);
+std::vector<WordID> scfglex_trg_rhs(INIT_RULE_SIZE);
 int scfglex_src_rhs_size;
 int scfglex_trg_rhs_size;
 WordID scfglex_lhs;
 int scfglex_src_arity;
 int scfglex_trg_arity;
 
-#define MAX_FEATS 10000
-int scfglex_feat_ids[MAX_FEATS];
-double scfglex_feat_vals[MAX_FEATS];
+#define INIT_FEATS 100
+std::vector<int> scfglex_feat_ids(INIT_FEATS);
+std::vector<double> scfglex_feat_vals(INIT_FEATS);
 int scfglex_num_feats;
 
-#define MAX_ARITY 1000
-int scfglex_nt_sanity[MAX_ARITY];
-int scfglex_src_nts[MAX_ARITY];
+std::vector<int> scfglex_nt_sanity;
+std::vector<int> scfglex_src_nts(INIT_RULE_SIZE);
 // float scfglex_nt_size_means[MAX_ARITY];
 // float scfglex_nt_size_vars[MAX_ARITY];
 std::stack<TRulePtr> ctf_rule_stack;
 unsigned int ctf_level = 0;
 boost::shared_ptr<cdec::TreeFragment> scfglex_tree;
 
-#define MAX_ALS 2000
-AlignmentPoint scfglex_als[MAX_ALS];
+std::vector<AlignmentPoint> scfglex_als(INIT_RULE_SIZE);
 int scfglex_num_als;
 
+// name of a feature that is given by its position only
+static int default_feature_name(int i) {
+  for (int j = scfglex_phrase_fnames.size(); j <= i; ++j) {
+    std::ostringstream os;
+    os << "PhraseModel_" << j;
+    scfglex_phrase_fnames.push_back(FD::Convert(os.str()));
+  }
+  return scfglex_phrase_fnames[i];
+}
+
 void sanity_check_trg_symbol(WordID nt, int index) {
   if (scfglex_src_nts[index-1] != nt) {
     std::cerr << "Target symbol with index " << index << " is of type " << TD::Convert(nt*-1)
@@ -157,7 +171,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 
 <SRC>\[{NT}\]   {
 		scfglex_tmp_token.assign(yytext + 1, yyleng - 2);
-		scfglex_src_nts[scfglex_src_arity] = scfglex_src_rhs[scfglex_src_rhs_size] = -TD::Convert(scfglex_tmp_token);
+		at(scfglex_src_nts, scfglex_src_arity) = at(scfglex_src_rhs, scfglex_src_rhs_size) = -TD::Convert(scfglex_tmp_token);
 		++scfglex_src_arity;
 		++scfglex_src_rhs_size;
 		}
@@ -174,7 +188,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 			std::cerr << "Src indices must go in order: expected " << scfglex_src_arity << " but got " << index << std::endl;
 			abort();
 		}
-		scfglex_src_nts[scfglex_src_arity] = scfglex_src_rhs[scfglex_src_rhs_size] = -TD::Convert(scfglex_tmp_token);
+		at(scfglex_src_nts, scfglex_src_arity) = at(scfglex_src_rhs, scfglex_src_rhs_size) = -TD::Convert(scfglex_tmp_token);
 		++scfglex_src_rhs_size;
 		++scfglex_src_arity;
 		}
@@ -191,7 +205,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		// std::cerr << "TRG INDEX: " << index << std::endl;
 		sanity_check_trg_symbol(-TD::Convert(scfglex_tmp_token), index);
 		sanity_check_trg_index(index);
-		scfglex_trg_rhs[scfglex_trg_rhs_size] = 1 - index;
+		at(scfglex_trg_rhs, scfglex_trg_rhs_size) = 1 - index;
 		++scfglex_trg_rhs_size;
 }
 
@@ -202,7 +216,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 		++scfglex_trg_arity;
 		sanity_check_trg_index(index);
-		scfglex_trg_rhs[scfglex_trg_rhs_size] = 1 - index;
+		at(scfglex_trg_rhs, scfglex_trg_rhs_size) = 1 - index;
 		++scfglex_trg_rhs_size;
 }
 
@@ -217,12 +231,12 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 
 <SRC>\|\|\|	{
-		memset(scfglex_nt_sanity, 0, scfglex_src_arity * sizeof(int));
+		scfglex_nt_sanity.assign(scfglex_src_arity, 0);
 		if (lex_mono_rules) { BEGIN(FEATS); } else { BEGIN(TRG); }
 		}
 <SRC>[^ \t\n\r]+	{
 		scfglex_tmp_token.assign(yytext, yyleng);
-		scfglex_src_rhs[scfglex_src_rhs_size] = TD::Convert(scfglex_tmp_token);
+		at(scfglex_src_rhs, scfglex_src_rhs_size) = TD::Convert(scfglex_tmp_token);
 		++scfglex_src_rhs_size;
 		}
 <SRC>[ \t]+	{ ; }
@@ -238,7 +252,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		}
 <TRG>[^ \t\n\r]+	{
 		scfglex_tmp_token.assign(yytext, yyleng);
-		scfglex_trg_rhs[scfglex_trg_rhs_size] = TD::Convert(scfglex_tmp_token);
+		at(scfglex_trg_rhs, scfglex_trg_rhs_size) = TD::Convert(scfglex_tmp_token);
 		++scfglex_trg_rhs_size;
 		}
 <TRG>[ \t]+	{ ; }
@@ -253,7 +267,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		  scfglex_trg_rhs_size = scfglex_src_rhs_size;
 		  int ntc = 0;
 		  for (int i = 0; i < scfglex_src_rhs_size; ++i)
-		    if (scfglex_trg_rhs[i] <= 0)
+		    if (at(scfglex_trg_rhs, i) <= 0)
                       scfglex_trg_rhs[i] = ntc--;
                     else
                       scfglex_trg_rhs[i] = scfglex_src_rhs[i];
@@ -264,7 +278,7 @@ NT ([^\t \n\r\[\],]+|Goal)
                 }
 		// const bool ignore_grammar_features = false;
 		// if (ignore_grammar_features) scfglex_num_feats = 0;
-		TRulePtr rp(new TRule(scfglex_lhs, scfglex_src_rhs, scfglex_src_rhs_size, scfglex_trg_rhs, scfglex_trg_rhs_size, scfglex_feat_ids, scfglex_feat_vals, scfglex_num_feats, scfglex_src_arity, scfglex_als, scfglex_num_als));
+		TRulePtr rp(new TRule(scfglex_lhs, scfglex_src_rhs.data(), scfglex_src_rhs_size, scfglex_trg_rhs.data(), scfglex_trg_rhs_size, scfglex_feat_ids.data(), scfglex_feat_vals.data(), scfglex_num_feats, scfglex_src_arity, scfglex_als.data(), scfglex_num_als));
 		if (scfglex_tree) {
 		  if (scfglex_tree->frontier_sites != rp->Arity()) {
 		    std::cerr << "Arity mismatch with tree annotation: " << *scfglex_tree << std::endl;
@@ -295,7 +309,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 			std::cerr << "\nUNWEIGHED FEATURE " << scfglex_tmp_token << std::endl;
 			abort();
 		}
-		scfglex_feat_ids[scfglex_num_feats] = fid;
+		at(scfglex_feat_ids, scfglex_num_feats) = fid;
 		BEGIN(FEATVAL);
 		}
 <FEATS>\|\|\|	{
@@ -305,7 +319,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		BEGIN(TREE);
 		}
 <FEATVAL>{REAL}	{
-		scfglex_feat_vals[scfglex_num_feats] = strtod(yytext, NULL);
+		at(scfglex_feat_vals, scfglex_num_feats) = strtod(yytext, NULL);
 		++scfglex_num_feats;
 		BEGIN(FEATS);
 		}
@@ -314,8 +328,8 @@ NT ([^\t \n\r\[\],]+|Goal)
 		abort();
 		}
 <FEATS>{REAL} 	{
-		scfglex_feat_ids[scfglex_num_feats] = scfglex_phrase_fnames[scfglex_num_feats];
-		scfglex_feat_vals[scfglex_num_feats] = strtod(yytext, NULL);
+		at(scfglex_feat_ids, scfglex_num_feats) = default_feature_name(scfglex_num_feats);
+		at(scfglex_feat_vals, scfglex_num_feats) = strtod(yytext, NULL);
 		++scfglex_num_feats;
 		}
 <FEATS>.	{
@@ -339,7 +353,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 		  b += yytext[i] - '0';
 		  ++i;
 		}
-		scfglex_als[scfglex_num_als++]=AlignmentPoint(a,b);
+		at(scfglex_als, scfglex_num_als++) = AlignmentPoint(a,b);
 		}
 <ALIGNS>[ \t]	;
 <ALIGNS>.	{
@@ -351,14 +365,7 @@ NT ([^\t \n\r\[\],]+|Goal)
 #include "filelib.h"
 
 static void init_default_feature_names() {
-  if (scfglex_phrase_fnames.empty()) {
-    scfglex_phrase_fnames.resize(100);
-    for (int i = 0; i < scfglex_phrase_fnames.size(); ++i) {
-      std::ostringstream os;
-      os << "PhraseModel_" << i;
-      scfglex_phrase_fnames[i] = FD::Convert(os.str());
-    }
-  }
+  default_feature_name(99);
 }
 
 void RuleLexer::ReadRules(std::istream* in, RuleLexer::RuleCallback func, const std::string& fname, void* extra) {
-- 
2.43.0


From 7251c66fc2b8f90ace67e6d8eb41d9e7f11ad707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 49/98] fix: error surfaces lose the statistics of a first
 segment that is empty or scores zero

---
 training/dpmert/ces.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/dpmert/ces.cc b/training/dpmert/ces.cc
index 157b2d1..16a1376 100644
--- a/training/dpmert/ces.cc
+++ b/training/dpmert/ces.cc
@@ -56,7 +56,8 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       seg.ConstructTranslation(&trans);
     //}
     //cerr << "Scoring: " << TD::GetString(trans) << endl;
-    if (trans == prev_trans) {
+    // the first segment is always kept: it carries the initial statistics
+    if (i > 0 && trans == prev_trans) {
       if (!minimize_segments) {
         ErrorSegment& out = (*env)[j];
         out.delta.fields.clear();
@@ -74,7 +75,7 @@ void ComputeErrorSurface(const SegmentEvaluator& ss,
       //string xx; delta.Encode(&xx); cerr << xx << endl;
       prev_trans.swap(trans);
       prev_score = score;
-      if ((!minimize_segments) || (!delta.IsAdditiveIdentity())) {
+      if ((!minimize_segments) || i == 0 || (!delta.IsAdditiveIdentity())) {
         ErrorSegment& out = (*env)[j];
         out.delta = delta;
         out.x = seg.x;
-- 
2.43.0


From 6b91dde30f7547acdee6afd6e34609ae50ffa5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 50/98] fix: optimizer input has no starting point when all
 weights are zero

---
 training/dpmert/mr_dpmert_generate_mapper_input.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/training/dpmert/mr_dpmert_generate_mapper_input.cc b/training/dpmert/mr_dpmert_generate_mapper_input.cc
index 3fa2f47..e451536 100644
--- a/training/dpmert/mr_dpmert_generate_mapper_input.cc
+++ b/training/dpmert/mr_dpmert_generate_mapper_input.cc
@@ -51,6 +51,9 @@ int main(int argc, char** argv) {
   vector<weight_t> w;
   Weights::InitFromFile(conf["weights"].as<string>(), &w, &features);
   Weights::InitSparseVector(w, &origin);
+  // the starting point is a field of every line and must not be empty
+  if (origin.empty() && !features.empty())
+    origin.set_value(FD::Convert(features.front()), 0);
   const string forest_repository = conf["forest_repository"].as<string>();
   if (!DirectoryExists(forest_repository)) {
     cerr << "Forest repository directory " << forest_repository << " not found!\n";
-- 
2.43.0


From 072cad73e21893eef7a01fcfd65d467abd7b860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:16 +0000
Subject: [PATCH 51/98] fix: error surfaces with long statistics are cut off
 when written

---
 training/dpmert/error_surface.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/training/dpmert/error_surface.cc b/training/dpmert/error_surface.cc
index 515b67f..2836437 100644
--- a/training/dpmert/error_surface.cc
+++ b/training/dpmert/error_surface.cc
@@ -15,8 +15,7 @@ void ErrorSurface::Serialize(std::string* out) const {
     const ErrorSegment& cur = (*this)[i];
     string senc;
     cur.delta.Encode(&senc);
-    assert(senc.size() < 1024);
-    unsigned char len = senc.size();
+    unsigned len = senc.size();
     os.write((const char*)&cur.x, sizeof(cur.x));
     os.write((const char*)&len, sizeof(len));
     os.write((const char*)&senc[0], len);
@@ -31,7 +30,7 @@ void ErrorSurface::Deserialize(const std::string& in) {
   this->resize(segments);
   for (int i = 0; i < segments; ++i) {
     ErrorSegment& cur = (*this)[i];
-    unsigned char len;
+    unsigned len;
     is.read((char*)&cur.x, sizeof(cur.x));
     is.read((char*)&len, sizeof(len));
     string senc(len, '\0'); assert(senc.size() == len);
-- 
2.43.0


From e3c5ca05049a3ba5600e78798f2590559aeebd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:10 +0000
Subject: [PATCH 52/98] fix: sampling lists more translations than were drawn

---
 decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/decoder.cc b/decoder/decoder.cc
index 1e6c319..79ffd4e 100644
--- a/decoder/decoder.cc
+++ b/decoder/decoder.cc
@@ -248,7 +248,7 @@ struct DecoderImpl {
     }
     sort(dist.begin(), dist.end(), SampleSort());
     if (k) {
-      for (int i = 0; i < k; ++i)
+      for (int i = 0; i < k && i < static_cast<int>(dist.size()); ++i)
         cout << dist[i].first << " ||| " << dist[i].second << endl;
     } else {
       cout << dist[0].second << endl;
-- 
2.43.0


From da00a6f9a028f1d109bd6f0a1f31f65a2a7df0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 53/98] fix: variables of cyclic reorderings are permuted in
 the printed search space

---
 decoder/hg_io.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/hg_io.cc b/decoder/hg_io.cc
index 71f50a2..1207f19 100644
--- a/decoder/hg_io.cc
+++ b/decoder/hg_io.cc
@@ -355,7 +355,7 @@ void HypergraphIO::WriteAsCFG(const Hypergraph& hg) {
       if (cur > 0) {
         f[j] = cur;
       } else {
-        tn[ntc++] = cur;
+        tn[-cur] = -(ntc++);  // where the parser will find this variable
         f[j] = cats[edge.tail_nodes_[-cur]];
       }
     }
-- 
2.43.0


From c658bdba6e7fd5ab8b0b2ae8f4a347827bb3e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 54/98] fix: get() reports the end of the file when the last
 block of it is mapped

---
 klm/util/file_piece.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/util/file_piece.hh b/klm/util/file_piece.hh
index 5495ddc..9b25f5b 100644
--- a/klm/util/file_piece.hh
+++ b/klm/util/file_piece.hh
@@ -45,7 +45,7 @@ class FilePiece {
     char get() {
       if (position_ == position_end_) {
         Shift();
-        if (at_end_) throw EndOfFileException();
+        if (position_ == position_end_) throw EndOfFileException();
       }
       return *(position_++);
     }
-- 
2.43.0


From 02937c92a589ecd355f574f89ae6d88ad0bfb0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 55/98] fix: Offset() forgets bytes dropped from the buffer of
 a file that is read

---
 klm/util/file_piece.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klm/util/file_piece.cc b/klm/util/file_piece.cc
index 4aaa250..fd32473 100644
--- a/klm/util/file_piece.cc
+++ b/klm/util/file_piece.cc
@@ -302,6 +302,7 @@ void FilePiece::ReadShift() {
       position_end_ = position_ + valid_length;
     } else {
       std::size_t moving = position_end_ - position_;
+      mapped_offset_ += position_ - data_.begin();
       memmove(data_.get(), position_, moving);
       position_ = data_.begin();
       position_end_ = position_ + moving;
-- 
2.43.0


From e0c459c328797c5cbb3384c8168edf6889278fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 56/98] fix: reading a bzip2 file that was cut off never ends

---
 klm/util/read_compressed.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/klm/util/read_compressed.cc b/klm/util/read_compressed.cc
index cee9804..8c7029d 100644
--- a/klm/util/read_compressed.cc
+++ b/klm/util/read_compressed.cc
@@ -225,9 +225,11 @@ class BZip {
     }
 
     bool Process() {
+      const unsigned int in = stream_.avail_in, out = stream_.avail_out;
       int ret = BZ2_bzDecompress(&stream_);
       if (ret == BZ_STREAM_END) return false;
       HandleError(ret);
+      UTIL_THROW_IF(in == stream_.avail_in && out == stream_.avail_out, BZException, "bzip2 says unexpected end of input");
       return true;
     }
 
-- 
2.43.0


From b23bfbe9cacec3384db81c1ba9181f2760a814ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 57/98] fix: writing a string as long as the output buffer
 aborts

---
 klm/util/fake_ofstream.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/util/fake_ofstream.hh b/klm/util/fake_ofstream.hh
index eefb1ed..f31c2b0 100644
--- a/klm/util/fake_ofstream.hh
+++ b/klm/util/fake_ofstream.hh
@@ -51,7 +51,7 @@ class FakeOFStream {
     }
 
     FakeOFStream &operator<<(StringPiece str) {
-      if (str.size() > kOutBuf) {
+      if (str.size() >= kOutBuf) {
         Flush();
         util::WriteOrThrow(fd_, str.data(), str.size());
       } else {
-- 
2.43.0


From 82c4eb85b5a74b50859de278c38c199de9da4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:18 +0000
Subject: [PATCH 58/98] fix: a growing hash table does not count what Insert
 adds and never grows

---
 klm/util/probing_hash_table.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klm/util/probing_hash_table.hh b/klm/util/probing_hash_table.hh
index ea228dd..f3432fb 100644
--- a/klm/util/probing_hash_table.hh
+++ b/klm/util/probing_hash_table.hh
@@ -278,7 +278,7 @@ template <class EntryT, class HashT, class EqualT = std::equal_to<typename Entry
     // Assumes that the key is unique.  Multiple insertions won't cause a failure, just inconsistent lookup.
     template <class T> MutableIterator Insert(const T &t) {
       DoubleIfNeeded();
-      return backend_.UncheckedInsert(t);
+      return backend_.Insert(t);
     }
 
     template <class T> bool FindOrInsert(const T &t, MutableIterator &out) {
-- 
2.43.0


From ae1682f1fbb5272eaed511c80df1f7798e658483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 59/98] fix: a candidate without features cannot be read back
 from a k-best repository

---
 training/utils/candidate_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 36f5b27..7721dd1 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -136,7 +136,7 @@ void CandidateSet::ReadFromFile(const string& file) {
     assert(in);
     cs.push_back(Candidate());
     TD::ConvertSentence(cand, &cs.back().ewords);
-    ParseSparseVector(feats, 0, &cs.back().fmap);
+    if (!feats.empty()) ParseSparseVector(feats, 0, &cs.back().fmap);
     cs.back().eval_feats = SufficientStats(ss);
   }
   if(!SILENT) cerr << "  read " << cs.size() << " candidates\n";
-- 
2.43.0


From 3c15e3c400d33c775f7350a35cd52b6d09130fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 60/98] fix: equal candidates are kept twice when their
 features are visited in another order or differ by rounding

---
 training/utils/candidate_set.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/training/utils/candidate_set.cc b/training/utils/candidate_set.cc
index 7721dd1..dcc87b6 100644
--- a/training/utils/candidate_set.cc
+++ b/training/utils/candidate_set.cc
@@ -35,18 +35,21 @@ struct ApproxVectorHasher {
     if ((r << 1) > MASK)
       t.i += MASK - r + 1;
     else
-      t.i &= (1ull - MASK);
+      t.i &= ~MASK;
     return t.f;
   }
+  // the order in which the features of a vector are visited is not fixed
   size_t operator()(const SparseVector<double>& x) const {
     size_t h = 0x573915839;
     for (SparseVector<double>::const_iterator it = x.begin(); it != x.end(); ++it) {
       UType t;
-      t.f = it->second;
+      t.f = round(it->second);
       if (t.f) {
         size_t z = (t.i >> 32);
-        boost::hash_combine(h, it->first);
-        boost::hash_combine(h, z);
+        size_t fh = 0;
+        boost::hash_combine(fh, it->first);
+        boost::hash_combine(fh, z);
+        h += fh;
       }
     }
     return h;
@@ -55,15 +58,12 @@ struct ApproxVectorHasher {
 
 struct ApproxVectorEquals {
   bool operator()(const SparseVector<double>& a, const SparseVector<double>& b) const {
-    SparseVector<double>::const_iterator bit = b.begin();
-    for (SparseVector<double>::const_iterator ait = a.begin(); ait != a.end(); ++ait) {
-      if (bit == b.end() ||
-          ait->first != bit->first ||
-          ApproxVectorHasher::round(ait->second) != ApproxVectorHasher::round(bit->second))
+    for (SparseVector<double>::const_iterator it = a.begin(); it != a.end(); ++it)
+      if (ApproxVectorHasher::round(it->second) != ApproxVectorHasher::round(b.value(it->first)))
+        return false;
+    for (SparseVector<double>::const_iterator it = b.begin(); it != b.end(); ++it)
+      if (ApproxVectorHasher::round(it->second) != ApproxVectorHasher::round(a.value(it->first)))
         return false;
-      ++bit;
-    }
-    if (bit != b.end()) return false;
     return true;
   }
 };
-- 
2.43.0


From a9c5737189b17a4411ed52887eaba713c7ecd88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 61/98] fix: minrisk and rampion use the k-best repository of
 another sentence

---
 training/minrisk/minrisk_optimize.cc | 2 +-
 training/rampion/rampion_cccp.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/minrisk/minrisk_optimize.cc b/training/minrisk/minrisk_optimize.cc
index f90c711..9a925a1 100644
--- a/training/minrisk/minrisk_optimize.cc
+++ b/training/minrisk/minrisk_optimize.cc
@@ -164,6 +164,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id = 0;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -174,7 +175,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
diff --git a/training/rampion/rampion_cccp.cc b/training/rampion/rampion_cccp.cc
index 1c45bac..dd67bef 100644
--- a/training/rampion/rampion_cccp.cc
+++ b/training/rampion/rampion_cccp.cc
@@ -122,6 +122,7 @@ int main(int argc, char** argv) {
   while(getline(in, line)) {
     istringstream is(line);
     int sent_id;
+    is >> file >> sent_id;
     kis.resize(kis.size() + 1);
     training::CandidateSet& curkbest = kis.back();
     string kbest_file;
@@ -132,7 +133,6 @@ int main(int argc, char** argv) {
       if (FileExists(kbest_file))
         curkbest.ReadFromFile(kbest_file);
     }
-    is >> file >> sent_id;
     ReadFile rf(file);
     if (kis.size() % 5 == 0) { cerr << '.'; }
     if (kis.size() % 200 == 0) { cerr << " [" << kis.size() << "]\n"; }
-- 
2.43.0


From b57e77531a3ea1dd1b3f6b7b7894014bba113a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 62/98] fix: the line search of L-BFGS steps back to its last
 point and ends in NaN

---
 training/liblbfgs/lbfgs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/liblbfgs/lbfgs.c b/training/liblbfgs/lbfgs.c
index 0add48f..0908cd5 100644
--- a/training/liblbfgs/lbfgs.c
+++ b/training/liblbfgs/lbfgs.c
@@ -1062,7 +1062,7 @@ static int line_search_morethuente(
     r = p / q; \
     if (r < 0. && gamma != 0.) { \
         (cm) = (v) - r * d; \
-    } else if (a < 0) { \
+    } else if (0 < d) { \
         (cm) = (xmax); \
     } else { \
         (cm) = (xmin); \
-- 
2.43.0


From 5c3a4d69c91d3d61f8db044fefbb5f3c1e58d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 63/98] fix: RProp moves parameters whose gradient is zero

---
 training/utils/optimize.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/utils/optimize.cc b/training/utils/optimize.cc
index 41ac90d..54b9456 100644
--- a/training/utils/optimize.cc
+++ b/training/utils/optimize.cc
@@ -44,7 +44,7 @@ void RPropOptimizer::OptimizeImpl(const double& obj,
                               vector<double>* x) {
   for (int i = 0; i < g.size(); ++i) {
     const double g_i = g[i];
-    const double sign_i = (signbit(g_i) ? -1.0 : 1.0);
+    const double sign_i = (g_i == 0.0 ? 0.0 : signbit(g_i) ? -1.0 : 1.0);
     const double prod = g_i * prev_g_[i];
     if (prod > 0.0) {
       const double dij = min(delta_ij_[i] * eta_plus_, delta_max_);
-- 
2.43.0


From 72bda60ccf6b475d7cc09a8a7595f66d17a51114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 64/98] fix: batch optimizers take another step after they have
 converged

---
 training/crf/mpi_batch_optimize.cc | 2 +-
 training/utils/optimize.h          | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index da1845b..bc163c0 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -339,7 +339,7 @@ int main(int argc, char** argv) {
       cerr << "  GNORM=" << sqrt(gnorm) << endl;
       vector<weight_t> old = lambdas;
       int c = 0;
-      while (old == lambdas) {
+      while (old == lambdas && !o->HasConverged()) {
         ++c;
         if (c > 1) { cerr << "Same lambdas, repeating optimization\n"; }
         o->Optimize(objective, gradient, &lambdas);
diff --git a/training/utils/optimize.h b/training/utils/optimize.h
index 07943b4..f2427df 100644
--- a/training/utils/optimize.h
+++ b/training/utils/optimize.h
@@ -23,9 +23,10 @@ class BatchOptimizer {
                 std::vector<double>* x) {
     assert(g.size() == x->size());
     ++eval_;
-    OptimizeImpl(obj, g, x);
+    // g is the gradient at x before the step
     scitbx::lbfgs::traditional_convergence_test<double> converged(g.size());
     has_converged_ = converged(&(*x)[0], &g[0]);
+    if (!has_converged_) OptimizeImpl(obj, g, x);
   }
 
   void Save(std::ostream* out) const;
-- 
2.43.0


From d7cd0e882112cf14bd3b5e5fafd55cfde430aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 65/98] fix: PRO trains on its held-out test set

---
 training/pro/mr_pro_reduce.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/pro/mr_pro_reduce.cc b/training/pro/mr_pro_reduce.cc
index a61a3a5..7df9b38 100644
--- a/training/pro/mr_pro_reduce.cc
+++ b/training/pro/mr_pro_reduce.cc
@@ -163,7 +163,7 @@ struct ProLoss {
     double cll = TrainingInference(x, training, g);
     tppl = 0;
     if (testing.size())
-      tppl = pow(2.0, TrainingInference(x, testing, g) / (log(2) * testing.size()));
+      tppl = pow(2.0, TrainingInference(x, testing) / (log(2) * testing.size()));
     double ppl = cll / log(2);
     ppl /= training.size();
     ppl = pow(2.0, ppl);
-- 
2.43.0


From 13cf13878a4aacee4861eeb2fab2d9996a333687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 66/98] fix: PRO samples pairs of a single candidate forever

---
 training/pro/mr_pro_map.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/pro/mr_pro_map.cc b/training/pro/mr_pro_map.cc
index b142fd0..e42cd0b 100644
--- a/training/pro/mr_pro_map.cc
+++ b/training/pro/mr_pro_map.cc
@@ -106,6 +106,7 @@ void Sample(const int gamma,
             const training::CandidateSet& J_i,
             const EvaluationMetric* metric,
             vector<TrainingInstance>* pv) {
+  if (J_i.size() < 2) return;  // there are no pairs
   const double len_stddev = LengthDifferenceStdDev(J_i, 5000);
   const bool invert_score = metric->IsErrorMetric();
   vector<TrainingInstance> v1, v2;
-- 
2.43.0


From be387d4fc07453f7ef8d2e17b3afb2ce9f34ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 67/98] fix: the adaptive trainer starts from the weights it is
 given

---
 training/crf/mpi_adagrad_optimize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/crf/mpi_adagrad_optimize.cc b/training/crf/mpi_adagrad_optimize.cc
index bac5732..5713b4b 100644
--- a/training/crf/mpi_adagrad_optimize.cc
+++ b/training/crf/mpi_adagrad_optimize.cc
@@ -298,8 +298,8 @@ int main(int argc, char** argv) {
 
   // load initial weights
   vector<weight_t> init_weights;
-  if (conf.count("input_weights"))
-    Weights::InitFromFile(conf["input_weights"].as<string>(), &init_weights);
+  if (conf.count("weights"))
+    Weights::InitFromFile(conf["weights"].as<string>(), &init_weights);
 
   vector<string> corpus, test_corpus;
   vector<int> ids;
-- 
2.43.0


From 8a6b4be6b9f4fb0a0735be3c5b47111c64ac2923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 68/98] fix: the adaptive trainer does not train on its test
 data

---
 training/crf/mpi_adagrad_optimize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/training/crf/mpi_adagrad_optimize.cc b/training/crf/mpi_adagrad_optimize.cc
index 5713b4b..05a3aec 100644
--- a/training/crf/mpi_adagrad_optimize.cc
+++ b/training/crf/mpi_adagrad_optimize.cc
@@ -302,11 +302,11 @@ int main(int argc, char** argv) {
     Weights::InitFromFile(conf["weights"].as<string>(), &init_weights);
 
   vector<string> corpus, test_corpus;
-  vector<int> ids;
+  vector<int> ids, test_ids;
   ReadTrainingCorpus(conf["training_data"].as<string>(), rank, size, &corpus, &ids);
   assert(corpus.size() > 0);
   if (conf.count("test_data"))
-    ReadTrainingCorpus(conf["test_data"].as<string>(), rank, size, &corpus, &ids);
+    ReadTrainingCorpus(conf["test_data"].as<string>(), rank, size, &test_corpus, &test_ids);
 
   const unsigned size_per_proc = conf["minibatch_size_per_proc"].as<unsigned>();
   if (size_per_proc > corpus.size()) {
-- 
2.43.0


From a00a3a3501b7e14f910759721cba739ffa38a9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 69/98] fix: features outside the frozen set have no weight

---
 training/crf/mpi_batch_optimize.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index bc163c0..236d49b 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -94,7 +94,8 @@ struct TrainingObserver : public DecoderObserver {
   void SetLocalGradientAndObjective(vector<double>* g, double* o) const {
     *o = acc_obj;
     for (SparseVector<prob_t>::const_iterator it = acc_grad.begin(); it != acc_grad.end(); ++it)
-      (*g)[it->first] = it->second.as_float();
+      if (it->first)  // 0 stands for all features outside the frozen set
+        (*g)[it->first] = it->second.as_float();
   }
 
   virtual void NotifyDecodingStart(const SentenceMetadata&) {
-- 
2.43.0


From ade57cb656990788dab7e5e05f2d5e1dfce1e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 70/98] fix: the Gaussian prior applies to weights that are
 zero

---
 training/crf/mpi_batch_optimize.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/training/crf/mpi_batch_optimize.cc b/training/crf/mpi_batch_optimize.cc
index 236d49b..d7062c8 100644
--- a/training/crf/mpi_batch_optimize.cc
+++ b/training/crf/mpi_batch_optimize.cc
@@ -322,12 +322,9 @@ int main(int argc, char** argv) {
         const double sigsq = conf["sigma_squared"].as<double>();
         double norm = 0;
         for (int k = 1; k < lambdas.size(); ++k) {
-          const double& lambda_k = lambdas[k];
-          if (lambda_k) {
-            const double param = (lambda_k - means[k]);
-            norm += param * param;
-            gradient[k] += param / sigsq;
-          }
+          const double param = (lambdas[k] - means[k]);
+          norm += param * param;
+          gradient[k] += param / sigsq;
         }
         const double reg = norm / (2.0 * sigsq);
         cerr << "REGULARIZATION TERM: " << reg << endl;
-- 
2.43.0


From 18af38817ccd6000a472d293134ac1332cd77002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 71/98] fix: dtrain does not split the end of a bitext

---
 training/dtrain/dtrain.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/dtrain/dtrain.cc b/training/dtrain/dtrain.cc
index ccb50af..5cc2ecf 100644
--- a/training/dtrain/dtrain.cc
+++ b/training/dtrain/dtrain.cc
@@ -315,7 +315,7 @@ main(int argc, char** argv)
     bool next = false, stop = false; // next iteration or premature stop
     if (t == 0) {
       if(!getline(*input, in)) next = true;
-      if(read_bitext) {
+      if(read_bitext && !next) {
         vector<string> strs;
         boost::algorithm::split_regex(strs, in, boost::regex(" \\|\\|\\| "));
         in = strs[0];
-- 
2.43.0


From ed7432b84ed90f09f15c241aec8efb5ee75ee6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 72/98] fix: dtrain learns nothing from a sentence without
 translations

---
 training/dtrain/dtrain.cc      | 4 ++--
 training/dtrain/kbestget.h     | 7 +++++++
 training/dtrain/ksampler.h     | 7 +++++++
 training/dtrain/pairsampling.h | 4 ++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/training/dtrain/dtrain.cc b/training/dtrain/dtrain.cc
index 5cc2ecf..ac0e41e 100644
--- a/training/dtrain/dtrain.cc
+++ b/training/dtrain/dtrain.cc
@@ -391,7 +391,7 @@ main(int argc, char** argv)
       }
     }
 
-    if (repeat == 1) {
+    if (repeat == 1 && !samples->empty()) {
       score_sum += (*samples)[0].score; // stats for 1best
       model_sum += (*samples)[0].model;
     }
@@ -539,7 +539,7 @@ main(int argc, char** argv)
 
       if (ki==repeat-1) { // done
         kbest_loss_last = kbest_loss;
-        if (repeat > 1) {
+        if (repeat > 1 && !samples->empty()) {
           score_t best_model = -std::numeric_limits<score_t>::max();
           unsigned best_idx = 0;
           for (unsigned i=0; i < samples->size(); i++) {
diff --git a/training/dtrain/kbestget.h b/training/dtrain/kbestget.h
index 85252db..c14970f 100644
--- a/training/dtrain/kbestget.h
+++ b/training/dtrain/kbestget.h
@@ -17,6 +17,13 @@ struct KBestGetter : public HypSampler
   KBestGetter(const unsigned k, const string filter_type) :
     k_(k), filter_type_(filter_type) {}
 
+  virtual void
+  NotifyDecodingStart(const SentenceMetadata& smeta)
+  {
+    // nothing to learn from if this sentence has no translation
+    s_.clear(); sz_ = f_count_ = 0;
+  }
+
   virtual void
   NotifyTranslationForest(const SentenceMetadata& smeta, Hypergraph* hg)
   {
diff --git a/training/dtrain/ksampler.h b/training/dtrain/ksampler.h
index 29dab66..404a211 100644
--- a/training/dtrain/ksampler.h
+++ b/training/dtrain/ksampler.h
@@ -24,6 +24,13 @@ struct KSampler : public HypSampler
   explicit KSampler(const unsigned k, MT19937* prng) :
     k_(k), prng_(prng) {}
 
+  virtual void
+  NotifyDecodingStart(const SentenceMetadata& smeta)
+  {
+    // nothing to learn from if this sentence has no translation
+    s_.clear(); sz_ = f_count_ = 0;
+  }
+
   virtual void
   NotifyTranslationForest(const SentenceMetadata& smeta, Hypergraph* hg)
   {
diff --git a/training/dtrain/pairsampling.h b/training/dtrain/pairsampling.h
index 1a3c498..f504ed5 100644
--- a/training/dtrain/pairsampling.h
+++ b/training/dtrain/pairsampling.h
@@ -25,7 +25,7 @@ all_pairs(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, sc
   unsigned sz = s->size();
   bool b = false;
   unsigned count = 0;
-  for (unsigned i = 0; i < sz-1; i++) {
+  for (unsigned i = 0; i+1 < sz; i++) {
     for (unsigned j = i+1; j < sz; j++) {
       if (misranked_only && !((*s)[i].model <= (*s)[j].model)) continue;
       if (threshold > 0) {
@@ -115,7 +115,7 @@ PROsampling(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training,
   sort(s->begin(), s->end(), cmp_hyp_by_score_d);
   unsigned max_count = 5000, count = 0, sz = s->size();
   bool b = false;
-  for (unsigned i = 0; i < sz-1; i++) {
+  for (unsigned i = 0; i+1 < sz; i++) {
     for (unsigned j = i+1; j < sz; j++) {
       if (accept_pair((*s)[i].score, (*s)[j].score, threshold)) {
         training.push_back(make_pair((*s)[i], (*s)[j]));
-- 
2.43.0


From f0ea886793de0d7f6399300d9504fbb589abeb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 73/98] fix: dtrain compares the middle of a k-best list with
 its end

---
 training/dtrain/pairsampling.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/dtrain/pairsampling.h b/training/dtrain/pairsampling.h
index f504ed5..0f4d110 100644
--- a/training/dtrain/pairsampling.h
+++ b/training/dtrain/pairsampling.h
@@ -58,6 +58,7 @@ partXYX(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, scor
   if (sz < 2) return;
   sort(s->begin(), s->end(), cmp_hyp_by_score_d);
   unsigned sep = round(sz*hi_lo);
+  if (!sep) sep = 1;
   unsigned sep_hi = sep;
   if (sz > 4) while (sep_hi < sz && (*s)[sep_hi-1].score == (*s)[sep_hi].score) ++sep_hi;
   else sep_hi = 1;
@@ -82,8 +83,8 @@ partXYX(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, scor
   }
   unsigned sep_lo = sz-sep;
   while (sep_lo > 0 && (*s)[sep_lo-1].score == (*s)[sep_lo].score) --sep_lo;
-  for (unsigned i = sep_hi; i < sz-sep_lo; i++) {
-    for (unsigned j = sz-sep_lo; j < sz; j++) {
+  for (unsigned i = sep_hi; i < sep_lo; i++) {
+    for (unsigned j = sep_lo; j < sz; j++) {
       if (misranked_only && !((*s)[i].model <= (*s)[j].model)) continue;
       if (threshold > 0) {
         if (accept_pair((*s)[i].score, (*s)[j].score, threshold))
-- 
2.43.0


From 0fba824e6528d4a73d41d03b4f393b97fe6b1faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:45 +0000
Subject: [PATCH 74/98] fix: the fast perceptron of dtrain skips correctly
 ranked pairs of PRO samples

---
 training/dtrain/dtrain.cc      | 2 +-
 training/dtrain/pairsampling.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/training/dtrain/dtrain.cc b/training/dtrain/dtrain.cc
index ac0e41e..e4c8dd6 100644
--- a/training/dtrain/dtrain.cc
+++ b/training/dtrain/dtrain.cc
@@ -408,7 +408,7 @@ main(int argc, char** argv)
       if (pair_sampling == "XYX")
         partXYX(samples, pairs, pair_threshold, max_pairs, faster_perceptron, hi_lo);
       if (pair_sampling == "PRO")
-        PROsampling(samples, pairs, pair_threshold, max_pairs);
+        PROsampling(samples, pairs, pair_threshold, max_pairs, faster_perceptron);
       int cur_npairs = pairs.size();
       npairs += cur_npairs;
 
diff --git a/training/dtrain/pairsampling.h b/training/dtrain/pairsampling.h
index 0f4d110..b1ff9d0 100644
--- a/training/dtrain/pairsampling.h
+++ b/training/dtrain/pairsampling.h
@@ -111,13 +111,14 @@ _PRO_cmp_pair_by_diff_d(pair<ScoredHyp,ScoredHyp> a, pair<ScoredHyp,ScoredHyp> b
   return (fabs(a.first.score - a.second.score)) > (fabs(b.first.score - b.second.score));
 }
 inline void
-PROsampling(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, score_t threshold, unsigned max, bool _unused=false, float _also_unused=0)
+PROsampling(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, score_t threshold, unsigned max, bool misranked_only=false, float _also_unused=0)
 {
   sort(s->begin(), s->end(), cmp_hyp_by_score_d);
   unsigned max_count = 5000, count = 0, sz = s->size();
   bool b = false;
   for (unsigned i = 0; i+1 < sz; i++) {
     for (unsigned j = i+1; j < sz; j++) {
+      if (misranked_only && !((*s)[i].model <= (*s)[j].model)) continue;
       if (accept_pair((*s)[i].score, (*s)[j].score, threshold)) {
         training.push_back(make_pair((*s)[i], (*s)[j]));
         if (++count == max_count) {
-- 
2.43.0


From 30073ed1f5970214567887731d2c0c0d3dab9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 75/98] fix: the source length of the pseudo document starts at
 zero

---
 training/mira/kbest_cut_mira.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 5d8385c..8a91dc4 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -344,7 +344,7 @@ struct TrainingObserver : public DecoderObserver {
   TrainingObserver(const int k,
                    const DocScorer& d,
                    vector<GoodBadOracle>* o,
-                   vector<ScoreP>* cbs) : ds(d), oracles(*o), corpus_bleu_sent_stats(*cbs), kbest_size(k) {
+                   vector<ScoreP>* cbs) : ds(d), oracles(*o), corpus_bleu_sent_stats(*cbs), kbest_size(k), corpus_src_length(0), curr_src_length(0) {
     if(!pseudo_doc && !sent_approx) {
       if(cur_pass > 0) {    //calculate corpus bleu score from previous iterations 1-best for BLEU gain
         ScoreP acc;
-- 
2.43.0


From 6d4a361fc948524e9abd68e5e18bf54b922f9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 76/98] fix: mira learns nothing from a sentence without
 translations

---
 training/mira/kbest_cut_mira.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index 8a91dc4..cd22730 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -327,14 +327,18 @@ struct BasicObserver: public DecoderObserver {
     ~BasicObserver() {
         if(hypergraph != NULL) delete hypergraph;
     }
-    void NotifyDecodingStart(const SentenceMetadata& smeta) {}
+    void NotifyDecodingStart(const SentenceMetadata& smeta) {
+        delete hypergraph;
+        hypergraph = NULL;
+    }
     void NotifySourceParseFailure(const SentenceMetadata& smeta) {}
     void NotifyTranslationForest(const SentenceMetadata& smeta, Hypergraph* hg) {
         if(hypergraph != NULL) delete hypergraph;
         hypergraph = new Hypergraph(*hg);
     }
     void NotifyAlignmentFailure(const SentenceMetadata& semta) {
-        if(hypergraph != NULL) delete hypergraph;
+        delete hypergraph;
+        hypergraph = NULL;
     }
     void NotifyAlignmentForest(const SentenceMetadata& smeta, Hypergraph* hg) {}
     void NotifyDecodingComplete(const SentenceMetadata& smeta) {}
@@ -392,6 +396,10 @@ struct TrainingObserver : public DecoderObserver {
   }
   
 
+  virtual void NotifyDecodingStart(const SentenceMetadata&) {
+    cur_best.clear();
+  }
+
   virtual void NotifyTranslationForest(const SentenceMetadata& smeta, Hypergraph* hg) {
     cur_sent = stream ? 0 : smeta.GetSentenceID();
     curr_src_length = (float) smeta.GetSourceLength();
@@ -718,7 +726,7 @@ int main(int argc, char** argv) {
     		  decoder.SetId(cur_sent);
     		  decoder.Decode(buf, &bobs);
     		  vector<WordID> trans;
-    		  ViterbiESentence(bobs.hypergraph[0], &trans);
+    		  if (bobs.hypergraph) ViterbiESentence(*bobs.hypergraph, &trans);
     		  cout << TD::GetString(trans) << endl;
     		  continue;
           // Special command:
@@ -755,6 +763,12 @@ int main(int argc, char** argv) {
       decoder.SetId(cur_sent);
       decoder.Decode(buf, &observer);  // decode the sentence, calling Notify to get the hope,fear, and model best hyps. 
 
+      if (observer.GetCurrentBest().empty()) {  // no translation, nothing to learn from
+        cout << " |||  ||| " << endl;
+        cur_sent++;
+        continue;
+      }
+
       cur_sent = observer.GetCurrentSent();
       cerr << "SENT: " << cur_sent << endl;
       const HypothesisInfo& cur_hyp = observer.GetCurrentBestHypothesis();
-- 
2.43.0


From fdd25f965f4c93546d96ed61e5c16f4691fee9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 77/98] fix: mira keeps the weights it is given while streaming
 and uses those it learns

---
 training/mira/kbest_cut_mira.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/training/mira/kbest_cut_mira.cc b/training/mira/kbest_cut_mira.cc
index cd22730..be541f8 100644
--- a/training/mira/kbest_cut_mira.cc
+++ b/training/mira/kbest_cut_mira.cc
@@ -747,6 +747,7 @@ int main(int argc, char** argv) {
                   // WEIGHTS ||| f1=w1 f2=w2 ...
                   } else {
                       Weights::UpdateFromString(buf, dense_weights);
+                      Weights::InitSparseVector(dense_weights, &lambdas);
                   }
                   continue;
               } else {
@@ -992,6 +993,7 @@ int main(int argc, char** argv) {
       
     
       if ((cur_sent * 40 / ds->size()) > dots) { ++dots; cerr << '.'; }
+      lambdas.init_vector(&dense_weights);
       tot += lambdas;
       ++lcount;
       cur_sent++;
-- 
2.43.0


From f335e25ad2023477d933867c200297f4c827f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 78/98] fix: weights of new features can be set from a string

---
 utils/weights.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/weights.cc b/utils/weights.cc
index ff433bb..66deb3c 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -180,6 +180,7 @@ void Weights::UpdateFromString(string& w_string,
     for (vector<string>::iterator i = tok.begin(); i != tok.end(); i++) {
         int delim = i->find('=');
         int fid = FD::Convert(i->substr(0, delim));
+        if (static_cast<int>(w.size()) <= fid) w.resize(fid + 1, 0.0);
         w[fid] = strtod(i->substr(delim + 1).c_str(), NULL);
     }
 }
-- 
2.43.0


From 19708f7256bb1580ef32474174d2770090bdc086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:53 +0000
Subject: [PATCH 79/98] fix: writing no weights to a string

---
 utils/weights.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/weights.cc b/utils/weights.cc
index 66deb3c..5631f2e 100644
--- a/utils/weights.cc
+++ b/utils/weights.cc
@@ -171,7 +171,8 @@ string Weights::GetString(const vector<weight_t>& w,
         }
         os << ' ' << FD::Convert(i) << '=' << val;
     }
-    return os.str().substr(1);
+    const string res = os.str();
+    return res.empty() ? res : res.substr(1);
 }
 
 void Weights::UpdateFromString(string& w_string,
-- 
2.43.0


From bfbe977c24180b08889d345bc55608edf3fce48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 80/98] fix: the length filter handles corpora without long
 pairs or with one ratio only

---
 corpus/filter-length.pl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/corpus/filter-length.pl b/corpus/filter-length.pl
index f878a54..0049525 100755
--- a/corpus/filter-length.pl
+++ b/corpus/filter-length.pl
@@ -88,17 +88,17 @@ while(<F>) {
 close F;
 
 print STDERR "\nComputing statistics...\n";
-my $lmean = $lrm / scalar @lograts;
+my $lmean = @lograts ? $lrm / scalar @lograts : 0;
 
 my $lsd = 0;
 for my $lr (@lograts) {
   $lsd += ($lr - $lmean)**2;
 }
-$lsd = sqrt($lsd / scalar @lograts);
+$lsd = sqrt($lsd / scalar @lograts) if @lograts;
 @lograts = ();
 
 my $pass1_discard = $zerof + $zeroe + $absbadrat + $overlene + $overlenf + $bad_format;
-my $discard_rate = int(10000 * $pass1_discard / $lines) / 100;
+my $discard_rate = $lines ? int(10000 * $pass1_discard / $lines) / 100 : 0;
 print STDERR "      Total lines: $lines\n";
 print STDERR " Already discared: $pass1_discard\t(discard rate = $discard_rate%)\n";
 print STDERR "   Mean F:E ratio: " . exp($lmean) . "\n";
@@ -132,7 +132,7 @@ while(<F>) {
       $absbadrat++;
       next;
     }
-    my $zscore = abs($lograt - $lmean) / $lsd;
+    my $zscore = $lsd > 0 ? abs($lograt - $lmean) / $lsd : 0;
     if ($elen > $AUTOMATIC_INCLUDE_IF_SHORTER_THAN &&
         $flen > $AUTOMATIC_INCLUDE_IF_SHORTER_THAN && $zscore > $worstz) { $worstz = $zscore; $worst = $_; }
     if ($zscore > $MAX_ZSCORE) {
@@ -145,7 +145,8 @@ while(<F>) {
   }
   $to++;
 }
-my $discard_rate2 = int(10000 * $zviol / ($lines - $pass1_discard)) / 100;
+my $pass1_kept = $lines - $pass1_discard;
+my $discard_rate2 = $pass1_kept ? int(10000 * $zviol / $pass1_kept) / 100 : 0;
 print STDERR "\n    Lines printed: $to\n Ratio violations: $zviol\t(discard rate = $discard_rate2%)\n";
 print STDERR "    Worst z-score: $worstz\n         sentence: $worst";
 exit 0;
-- 
2.43.0


From 7ceb0afc0125f0472cc11c3a6c4dcbede88d19a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 81/98] fix: the length filter leaves out lines that are not
 pairs

---
 corpus/filter-length.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corpus/filter-length.pl b/corpus/filter-length.pl
index 0049525..f83018d 100755
--- a/corpus/filter-length.pl
+++ b/corpus/filter-length.pl
@@ -116,7 +116,7 @@ while(<F>) {
   if ($lines % 100000 == 0) { print STDERR " [$lines]\n"; }
   elsif ($lines % 2500 == 0) { print STDERR "."; }
   my ($sf, $se, @d) = split /\s*\|\|\|\s*| *\t */;
-  if (!defined $se) { next; }
+  if (scalar @d != 0 or !defined $se) { next; }
   my @fs = split /\s+/, $sf;
   my @es = split /\s+/, $se;
   my $flen = scalar @fs;
-- 
2.43.0


From 55e1593e428db5e0a5a0c53e3514539a19206137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 82/98] fix: conll2cdec converts the last sequence without a
 blank line after it

---
 corpus/conll2cdec.pl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/corpus/conll2cdec.pl b/corpus/conll2cdec.pl
index ee4e07d..813be0d 100755
--- a/corpus/conll2cdec.pl
+++ b/corpus/conll2cdec.pl
@@ -9,9 +9,10 @@ my @yy;
 my @os;
 my $sec = undef;
 my $i = 0;
-while(<F>) {
-  chomp;
-  if (/^\s*$/) {
+while(1) {
+  $_ = <F>;
+  last if !defined $_ && !@xx;
+  if (!defined $_ || /^\s*$/) {
     print "<seg id=\"$i\"";
     $i++;
     for (my $j = 0; $j < $sec; $j++) {
@@ -30,6 +31,7 @@ while(<F>) {
     @yy = ();
     @os = ();
   } else {
+    chomp;
     my ($x, @fs) = split /\s+/;
     my $y = pop @fs;
     if (!defined $sec) { $sec = scalar @fs; }
-- 
2.43.0


From cd1ed18691ab7f0f93c3bce79ff3867ec7b201b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 83/98] fix: entities that are no Unicode characters do not
 stop the tokenizer

---
 corpus/support/quote-norm.pl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/corpus/support/quote-norm.pl b/corpus/support/quote-norm.pl
index 6f50098..3909b5d 100755
--- a/corpus/support/quote-norm.pl
+++ b/corpus/support/quote-norm.pl
@@ -4,6 +4,13 @@ use strict;
 use utf8;
 binmode(STDIN,"utf8");
 binmode(STDOUT,"utf8");
+
+sub entity {
+  my ($text, $code) = @_;
+  return $text if $code > 0x10FFFF || ($code >= 0xD800 && $code <= 0xDFFF);
+  return pack("U", $code);
+}
+
 while(<STDIN>) {
   chomp;
   $_ = " $_ ";
@@ -35,8 +42,9 @@ while(<STDIN>) {
   s/&\s*#45\s*;/--/g;               # hyphen-minus
 
   # Convert arbitrary hex or decimal HTML entities to actual characters:
-  s/&\#x([0-9A-Fa-f]+);/pack("U", hex($1))/ge;
-  s/&\#([0-9]+);/pack("U", $1)/ge;
+  # (numbers that do not denote a Unicode character are left as they are)
+  s/(&\#x0*([0-9A-Fa-f]{1,6});)/entity($1, hex($2))/ge;
+  s/(&\#0*([0-9]{1,7});)/entity($1, $2)/ge;
 
   # Regularlize spaces:
   s/\x{ad}//g;        # soft hyphen
-- 
2.43.0


From 3c71f67981766fd582d8f55c9419ab47e34f7758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 84/98] fix: adjacent number ranges are all separated

---
 corpus/support/fix-contract.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corpus/support/fix-contract.pl b/corpus/support/fix-contract.pl
index 7bdfc03..0f5b273 100755
--- a/corpus/support/fix-contract.pl
+++ b/corpus/support/fix-contract.pl
@@ -7,7 +7,7 @@ while(<>) {
   #s/ - (year) - (old)/ -$1-$2/ig;
   s/ ' (s|m|ll|re|d|ve) / '$1 /ig;
   s/n ' t / n't /ig;
-  s/( |^)(\d+)-(\d+)( |$)/$1$2 - $3$4/g;
+  s/( |^)(\d+)-(\d+)(?= |$)/$1$2 - $3/g;
   s/ "$/ ”/;
   print;
 }
-- 
2.43.0


From c2fbe8072ab8532d608543449a16ec01f731a8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 85/98] fix: minimum Bayes risk gives up candidates early only
 when losses are not negative

---
 mteval/mbr_kbest.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mteval/mbr_kbest.cc b/mteval/mbr_kbest.cc
index e2aa916..7483ecd 100644
--- a/mteval/mbr_kbest.cc
+++ b/mteval/mbr_kbest.cc
@@ -113,6 +113,9 @@ int main(int argc, char** argv) {
 
   const bool is_loss = metric->IsErrorMetric();
   const bool output_list = conf.count("output_list") > 0;
+  // a candidate can be given up early only if the other losses cannot lower its
+  // expected loss, the loss of a weighted combination of metrics can be negative
+  const bool can_stop_early = !output_list && metric->MetricId().find("COMB:") != 0;
   vector<string> file;
   if (conf.count("input") == 0)
     file.push_back("-");
@@ -167,7 +170,7 @@ int main(int argc, char** argv) {
           if (is_loss) loss = 1.0 - loss;
           double weighted_loss = loss * (joints[j] / marginal).as_float();
           wl_acc += weighted_loss;
-          if ((!output_list) && wl_acc > mbr_loss) break;
+          if (can_stop_early && wl_acc > mbr_loss) break;
         }
       }
       if (output_list) mbr_scores[i] = wl_acc;
-- 
2.43.0


From 92f4b7530cbcb737e7cd511f6dfc983f0086bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 86/98] fix: the adaptive optimizer takes error metrics as
 losses

---
 training/mira/ada_opt_sm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/mira/ada_opt_sm.cc b/training/mira/ada_opt_sm.cc
index e5d2540..97b1cf4 100644
--- a/training/mira/ada_opt_sm.cc
+++ b/training/mira/ada_opt_sm.cc
@@ -94,7 +94,7 @@ struct TrainingObserver : public DecoderObserver {
     for (unsigned i = 0; i < cs.size(); ++i) {
       double s = cs[i].fmap.dot(w);
       if (alpha)
-        s += alpha * metric.ComputeScore(cs[i].eval_feats + pdoc);
+        s += alpha * (metric.IsErrorMetric() ? -1.0 : 1.0) * metric.ComputeScore(cs[i].eval_feats + pdoc);
       if (s > best) {
         best = s;
         best_i = i;
-- 
2.43.0


From 6767c8423ae900e174655c5749703e45bd6baaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 87/98] fix: the adaptive optimizer writes the weights after
 its last update

---
 training/mira/ada_opt_sm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/mira/ada_opt_sm.cc b/training/mira/ada_opt_sm.cc
index 97b1cf4..33ad2f3 100644
--- a/training/mira/ada_opt_sm.cc
+++ b/training/mira/ada_opt_sm.cc
@@ -190,6 +190,7 @@ int main(int argc, char** argv) {
       }
     }
   }
+  lambdas.init_vector(&dense_weights);
   cerr << "Optimization complete.\n";
   Weights::WriteToFile("-", dense_weights, true);
   return 0;
-- 
2.43.0


From 39b35065bc2e4c2c2ebd0b2e69ef224dee001abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 88/98] fix: the k-best MIRA trainer writes and keeps the
 weights of its passes

---
 training/mira/kbest_mira.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/training/mira/kbest_mira.cc b/training/mira/kbest_mira.cc
index 2868de0..f8f0347 100644
--- a/training/mira/kbest_mira.cc
+++ b/training/mira/kbest_mira.cc
@@ -260,13 +260,16 @@ int main(int argc, char** argv) {
       dots = 0;
       ostringstream os;
       os << "weights.mira-pass" << (cur_pass < 10 ? "0" : "") << cur_pass << ".gz";
+      Weights::WriteToFile(os.str(), dense_weights, true, &msg);
       SparseVector<double> x = tot;
       x /= normalizer;
       ostringstream sa;
       sa << "weights.mira-pass" << (cur_pass < 10 ? "0" : "") << cur_pass << "-avg.gz";
-      x.init_vector(&dense_weights);
-      Weights::WriteToFile(os.str(), dense_weights, true, &msg);
+      vector<weight_t> average;
+      x.init_vector(&average);
+      Weights::WriteToFile(sa.str(), average, true, &msga);
       ++cur_pass;
+      if (lcount == max_iteration) break;
       RandomPermutation(corpus.size(), &order);
     }
     if (cur_sent == 0) {
-- 
2.43.0


From e6434dde766aaec49a809a7d85dc5b1ee3a9a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 89/98] fix: the k-best MIRA trainer scores the best of sampled
 hypotheses by the sign of the metric

---
 training/mira/kbest_mira.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/training/mira/kbest_mira.cc b/training/mira/kbest_mira.cc
index f8f0347..cf0add5 100644
--- a/training/mira/kbest_mira.cc
+++ b/training/mira/kbest_mira.cc
@@ -127,6 +127,7 @@ struct TrainingObserver : public DecoderObserver {
       SufficientStats sstats;
       ds[sent_id]->Evaluate(cur_prediction, &sstats);
       float sentscore = metric.ComputeScore(sstats);
+      if (invert_score) sentscore *= -1.0;
       cur_best = MakeHypothesisInfo(ViterbiFeatures(forest), sentscore);
 
       vector<HypergraphSampler::Hypothesis> samples;
-- 
2.43.0


From f96534b8d49ffe7ced98fa3570102d984d8e9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 90/98] fix: coarse-to-fine search keeps the arc features of
 lattices

---
 decoder/scfg_translator.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/decoder/scfg_translator.cc b/decoder/scfg_translator.cc
index 9831a3c..14f543d 100644
--- a/decoder/scfg_translator.cc
+++ b/decoder/scfg_translator.cc
@@ -310,8 +310,11 @@ struct SCFGTranslatorImpl {
             new_edge->i_ = edge.i_;
             new_edge->j_ = edge.j_;
             new_edge->feature_values_ = fine_rule_ptr->GetFeatureValues();
-            new_edge->feature_values_.set_value(FD::Convert("LatticeCost"),
-              edge.feature_values_.value(FD::Convert("LatticeCost")));
+            // what the coarse edge has beyond its rule comes from the input lattice
+            SparseVector<double> arcs = edge.feature_values_;
+            arcs -= coarse_rule_ptr->GetFeatureValues();
+            for (SparseVector<double>::iterator fi = arcs.begin(); fi != arcs.end(); ++fi)
+              if (fi->second) new_edge->feature_values_.add_value(fi->first, fi->second);
             Hypergraph::Node* head_node;
             Split2Node::iterator it = s2n.find(StateSplit(node.id_, cat));
             if (it == s2n.end()){
-- 
2.43.0


From 9c1c1dd30283ce1dd6718ae728f6406382584a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:48 +0000
Subject: [PATCH 91/98] fix: maximum entropy training survives steps on which
 the gradient does not change

---
 utils/maxent.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/utils/maxent.cpp b/utils/maxent.cpp
index fd772e0..ad16ef0 100644
--- a/utils/maxent.cpp
+++ b/utils/maxent.cpp
@@ -682,6 +682,17 @@ Vec approximate_Hg(const int iter, const Vec& grad, const Vec s[],
   return q;
 }
 
+// a step without curvature tells nothing about the Hessian
+static void store_pair(const Vec& dx, const Vec& dgrad, Vec s[], Vec y[],
+                       double z[], int& n) {
+  const double curvature = dot_product(dgrad, dx);
+  if (!(curvature > 1e-12 * dot_product(dx, dx))) return;
+  s[n % M] = dx;
+  y[n % M] = dgrad;
+  z[n % M] = 1.0 / curvature;
+  n++;
+}
+
 vector<double> ME_Model::perform_LBFGS(const vector<double>& x0) {
   const size_t dim = x0.size();
   Vec x = x0;
@@ -691,6 +702,7 @@ vector<double> ME_Model::perform_LBFGS(const vector<double>& x0) {
 
   Vec s[M], y[M];
   double z[M];  // rho
+  int npairs = 0;
 
   for (int iter = 0; iter < LBFGS_MAX_ITER; iter++) {
 
@@ -704,14 +716,12 @@ vector<double> ME_Model::perform_LBFGS(const vector<double>& x0) {
 
     if (sqrt(dot_product(grad, grad)) < MIN_GRAD_NORM) break;
 
-    dx = -1 * approximate_Hg(iter, grad, s, y, z);
+    dx = -1 * approximate_Hg(npairs, grad, s, y, z);
 
     Vec x1(dim), grad1(dim);
     f = backtracking_line_search(x, grad, f, dx, x1, grad1);
 
-    s[iter % M] = x1 - x;
-    y[iter % M] = grad1 - grad;
-    z[iter % M] = 1.0 / dot_product(y[iter % M], s[iter % M]);
+    store_pair(x1 - x, grad1 - grad, s, y, z, npairs);
     x = x1;
     grad = grad1;
   }
@@ -803,6 +813,7 @@ vector<double> ME_Model::perform_OWLQN(const vector<double>& x0,
 
   Vec s[M], y[M];
   double z[M];  // rho
+  int npairs = 0;
 
   for (int iter = 0; iter < OWLQN_MAX_ITER; iter++) {
     Vec pg = pseudo_gradient(x, grad, C);
@@ -817,15 +828,13 @@ vector<double> ME_Model::perform_OWLQN(const vector<double>& x0,
 
     if (sqrt(dot_product(pg, pg)) < MIN_GRAD_NORM) break;
 
-    dx = -1 * approximate_Hg(iter, pg, s, y, z);
+    dx = -1 * approximate_Hg(npairs, pg, s, y, z);
     if (dot_product(dx, pg) >= 0) dx.Project(-1 * pg);
 
     Vec x1(dim), grad1(dim);
     f = constrained_line_search(C, x, pg, f, dx, x1, grad1);
 
-    s[iter % M] = x1 - x;
-    y[iter % M] = grad1 - grad;
-    z[iter % M] = 1.0 / dot_product(y[iter % M], s[iter % M]);
+    store_pair(x1 - x, grad1 - grad, s, y, z, npairs);
 
     x = x1;
     grad = grad1;
-- 
2.43.0


From 94562ad1a903f7f8fc14e34af588148245a27404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 92/98] fix: maximum entropy models accept classes of
 negligible probability

---
 utils/maxent.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils/maxent.cpp b/utils/maxent.cpp
index ad16ef0..96a4f41 100644
--- a/utils/maxent.cpp
+++ b/utils/maxent.cpp
@@ -122,14 +122,13 @@ int ME_Model::conditional_probability(const Sample& s,
 
   std::vector<double>::const_iterator pmax =
       max_element(powv.begin(), powv.end());
-  double offset = max(0.0, *pmax - 700);  // to avoid overflow
+  const double offset = *pmax;  // to avoid overflow
   for (int label = 0; label < _num_classes; label++) {
     double pow = powv[label] - offset;
     double prod = exp(pow);
     //      cout << pow << " " << prod << ", ";
     //      if (_ref_modelp != NULL) prod *= _train_refpd[n][label];
     if (_ref_modelp != NULL) prod *= s.ref_pd[label];
-    assert(prod != 0);
     membp[label] = prod;
     sum += prod;
   }
-- 
2.43.0


From daaddf3dce0b740adde179bca65b9d8718cd2ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:49 +0000
Subject: [PATCH 93/98] fix: maximum entropy models loaded from an array forget
 what they were before

---
 utils/maxent.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/maxent.cpp b/utils/maxent.cpp
index 96a4f41..4c0b3cc 100644
--- a/utils/maxent.cpp
+++ b/utils/maxent.cpp
@@ -501,6 +501,9 @@ void ME_Model::init_feature2mef() {
 
 bool ME_Model::load_from_array(const ME_Model_Data data[]) {
   _vl.clear();
+  _label_bag.Clear();
+  _featurename_bag.Clear();
+  _fb.Clear();
   for (int i = 0;; i++) {
     if (string(data[i].label) == "///") break;
     int label = _label_bag.Put(data[i].label);
-- 
2.43.0


From eef35142dc80ecdbf66a64377f7cd063d6007898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 94/98] fix: ParseMatchFeatures relative score used an integer
 division

---
 decoder/ff_parse_match.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder/ff_parse_match.cc b/decoder/ff_parse_match.cc
index 5802697..1f7a0b8 100644
--- a/decoder/ff_parse_match.cc
+++ b/decoder/ff_parse_match.cc
@@ -172,7 +172,7 @@ struct ParseMatchFeaturesImpl {
         break;
       case 3:
         // relative scoring
-        feats->set_value(fid_ef, (j-i)/((j-i) + min_dist));
+        feats->set_value(fid_ef, static_cast<double>(j-i)/((j-i) + min_dist));
         break;
       default:
         // binary scoring in case nothing is defined
-- 
2.43.0


From 2e2e79e330fb5c0497241fe31923723993d86bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 95/98] fix: RuleContextFeatures: replace every label macro,
 accept locations like 10

---
 decoder/ff_context.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/decoder/ff_context.cc b/decoder/ff_context.cc
index e56f6f1..6f51ea4 100644
--- a/decoder/ff_context.cc
+++ b/decoder/ff_context.cc
@@ -18,7 +18,7 @@ RuleContextFeatures::RuleContextFeatures(const string& param) {
   //  cerr << "initializing RuleContextFeatures with parameters: " << param;
   kSOS = TD::Convert("<s>");
   kEOS = TD::Convert("</s>");
-  macro_regex = sregex::compile("%([xy])\\[(-[1-9][0-9]*|0|[1-9][1-9]*)]");
+  macro_regex = sregex::compile("%([xy])\\[(-[1-9][0-9]*|0|[1-9][0-9]*)]");
   ParseArgs(param);
 }
 
@@ -218,7 +218,8 @@ void RuleContextFeatures::TraversalFeaturesImpl(
     ReplaceTokenMacroWithString(feature_instance, loc, x_str);
   }
     
-  ReplaceLabelMacroWithString(feature_instance, 0, y0_str);
+  for (unsigned i = 0; i < label_relative_locations.size(); ++i)
+    ReplaceLabelMacroWithString(feature_instance, 0, y0_str);
 
   // pick a real value for this feature
   double fval = 1.0; 
-- 
2.43.0


From 7c990f8de771206f4a90ed2fe64b3f4c29c29bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 96/98] fix: source syntax and span size features depend on the
 antecedents

---
 decoder/ff_source_syntax.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder/ff_source_syntax.cc b/decoder/ff_source_syntax.cc
index f6f673d..aecdd3e 100644
--- a/decoder/ff_source_syntax.cc
+++ b/decoder/ff_source_syntax.cc
@@ -101,7 +101,7 @@ struct SourceSyntaxFeaturesImpl {
     const WordID lhs = src_tree(i,j);
     //int& fid_cat = fids_cat(i,j);
     int& fid_ef = fids_ef(i,j)[&rule];
-    if (fid_ef <= 0) {
+    {  // the name depends on the antecedents, not just on rule and span
       ostringstream os;
       //ostringstream os2;
       os << "SSYN:" << TD::Convert(lhs);
@@ -190,7 +190,7 @@ struct SourceSpanSizeFeaturesImpl {
   int FireFeatures(const TRule& rule, const int i, const int j, const WordID* ants, SparseVector<double>* feats) {
     if (rule.Arity() > 0) {
       int& fid = fids(i,j)[&rule];
-      if (fid <= 0) {
+      {  // the name depends on the antecedents, not just on rule and span
         ostringstream os;
         os << "SSS:";
         unsigned ntc = 0;
-- 
2.43.0


From 5df68d2bf20f88b3220a2e644609b0f2ca8e8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:45 +0000
Subject: [PATCH 97/98] fix: ReadAll: do not drop the last character of a file
 without final newline

---
 utils/filelib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/filelib.h b/utils/filelib.h
index 90620d0..2927fc9 100644
--- a/utils/filelib.h
+++ b/utils/filelib.h
@@ -77,7 +77,7 @@ class ReadFile : public BaseFile<std::istream> {
   }
   void ReadAll(std::string& s) {
     getline(*stream(), s, (char) EOF);
-    if (s.size() > 0) s.resize(s.size()-1);
+    if (s.size() > 0 && s[s.size()-1] == '\n') s.resize(s.size()-1);
   }
 };
 
-- 
2.43.0


From ebebd8b80b77ef0f2a4c1b1bfc9077704d23ef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:56 +0000
Subject: [PATCH 98/98] fix: dtrain stops at the maximum number of pairs when
 comparing parts of a k-best list

---
 training/dtrain/pairsampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/training/dtrain/pairsampling.h b/training/dtrain/pairsampling.h
index b1ff9d0..2037e0e 100644
--- a/training/dtrain/pairsampling.h
+++ b/training/dtrain/pairsampling.h
@@ -79,7 +79,7 @@ partXYX(vector<ScoredHyp>* s, vector<pair<ScoredHyp,ScoredHyp> >& training, scor
         break;
       }
     }
-    if (b) break;
+    if (b) return;
   }
   unsigned sep_lo = sz-sep;
   while (sep_lo > 0 && (*s)[sep_lo-1].score == (*s)[sep_lo].score) --sep_lo;
-- 
2.43.0

