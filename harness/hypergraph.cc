// Forest algorithms against the enumeration of all derivations.
#include "hgen.hpp"
#include <sstream>
#include "hg_io.h"
#include "hg_sampler.h"
#include "hg_union.h"
#include "inside_outside.h"
#include "kbest.h"
#include "sampler.h"
#include "viterbi.h"
#include "weights.h"
#include "verbose.h"
using namespace hgen;
using pbt::Near;
typedef std::vector<WordID> VW;

static const size_t kCap = 1500;

static void Note(Ctx& c, const Hypergraph& hg, const std::vector<Deriv>& ds) {
  if (c.want()) c.desc() << hg.nodes_.size() << " nodes, " << hg.edges_.size() << " edges, " << ds.size() << " derivations\n" << Dump(hg);
  if (ds.size() >= 3) c.nontrivial();
  bool reentrant = false;
  for (size_t i = 0; i < ds.size() && !reentrant; ++i) {
    std::vector<int> e = ds[i].edges;
    std::sort(e.begin(), e.end());
    reentrant = std::adjacent_find(e.begin(), e.end()) != e.end();
  }
  if (reentrant) c.count("a derivation uses an edge twice");
}

static bool SameFeats(const SparseVector<double>& a, const std::map<int, double>& b) {
  std::set<int> ks;
  for (SparseVector<double>::const_iterator i = a.begin(); i != a.end(); ++i) ks.insert(i->first);
  for (auto& kv : b) ks.insert(kv.first);
  for (int k : ks) {
    auto it = b.find(k);
    if (!Near(a.value(k), it == b.end() ? 0.0 : it->second, 1e-9)) return false;
  }
  return true;
}
static std::string Show(const VW& v) { return TD::GetString(v); }
static double L(const prob_t& p) { return p == prob_t::Zero() ? -INFINITY : log(p); }

static void InsideOutsideSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  o.unreachable = g.chance(1, 5);
  o.ties = g.flip();
  Make(g, o, &hg);
  std::vector<Deriv> ds;
  if (!Derivations(hg, kCap, &ds)) return;
  Note(c, hg, ds);
  const double scale = g.chance(1, 2) ? 1.0 : 0.25 * (1 + g.draw(8));
  const size_t N = hg.nodes_.size(), E = hg.edges_.size();
  PBT_CHECK(hg.NumberOfPaths() == (double)ds.size(), "NumberOfPaths is " << hg.NumberOfPaths() << ", there are " << ds.size());
  double z = -INFINITY, zs = -INFINITY, best = -INFINITY;
  std::vector<double> node(N, -INFINITY), edge(E, -INFINITY), edges(E, -INFINITY), top(E, -INFINITY);
  std::vector<double> fexp(2000, 0.0);
  std::map<int, double> ef;
  for (const Deriv& d : ds) {
    z = LogAdd(z, d.logp);
    zs = LogAdd(zs, d.logp * scale);
    best = std::max(best, d.logp);
    for (int e : d.edges) {
      node[hg.edges_[e].head_node_] = LogAdd(node[hg.edges_[e].head_node_], d.logp);
      edge[e] = LogAdd(edge[e], d.logp);
      edges[e] = LogAdd(edges[e], d.logp * scale);
      top[e] = std::max(top[e], d.logp);
    }
    for (auto& kv : d.feats) ef[kv.first] += kv.second * exp(d.logp);
  }
  std::vector<prob_t> in, out;
  prob_t zz = Inside<prob_t, EdgeProb>(hg, &in, EdgeProb());
  PBT_CHECK(Near(L(zz), z), "Inside gives " << L(zz) << ", the sum over derivations is " << z);
  std::vector<prob_t> in2(in);
  Outside<prob_t, EdgeProb>(hg, in2, &out, EdgeProb());
  for (size_t v = 0; v < N; ++v) {
    std::vector<Deriv> dv;
    if (!Derivations(hg, 20 * kCap, &dv, v)) continue;
    double s = -INFINITY, b = -INFINITY;
    for (const Deriv& d : dv) { s = LogAdd(s, d.logp); b = std::max(b, d.logp); }
    PBT_CHECK(Near(L(in[v]), s), "inside score of node " << v << " is " << L(in[v]) << ", not " << s);
    double io = L(in[v]) + L(out[v]);
    PBT_CHECK((std::isinf(io) && std::isinf(node[v])) || Near(io, node[v]),
              "inside times outside of node " << v << " is " << io << ", not " << node[v]);
  }
  std::vector<prob_t> posts;
  prob_t pz = hg.ComputeEdgePosteriors(scale, &posts);
  PBT_CHECK(Near(L(pz), zs), "ComputeEdgePosteriors returns " << L(pz) << ", not " << zs);
  std::vector<prob_t> bp;
  prob_t vz = hg.ComputeBestPathThroughEdges(&bp);
  PBT_CHECK(Near(L(vz), best), "ComputeBestPathThroughEdges returns " << L(vz) << ", not " << best);
  PBT_CHECK(posts.size() == E && bp.size() == E, "wrong sizes");
  for (size_t e = 0; e < E; ++e) {
    PBT_CHECK((std::isinf(edges[e]) && posts[e] == prob_t::Zero()) || Near(L(posts[e]), edges[e]),
              "posterior of edge " << e << " at scale " << scale << " is " << L(posts[e]) << ", not " << edges[e]);
    PBT_CHECK((std::isinf(top[e]) && bp[e] == prob_t::Zero()) || Near(L(bp[e]), top[e]),
              "best path through edge " << e << " is " << L(bp[e]) << ", not " << top[e]);
  }
  std::vector<prob_t> nv, ev;
  prob_t r = hg.ComputeNodeViterbi(&nv);
  PBT_CHECK(Near(L(r), best), "ComputeNodeViterbi returns " << L(r) << ", not " << best);
  hg.ComputeEdgeViterbi(&ev);
  for (size_t v = 0; v < N; ++v) {
    std::vector<Deriv> dv;
    if (!Derivations(hg, 20 * kCap, &dv, v)) continue;
    std::map<int, double> be;
    double b = -INFINITY;
    for (const Deriv& d : dv) {
      b = std::max(b, d.logp);
      auto it = be.insert(std::make_pair(d.edges[0], -INFINITY)).first;
      it->second = std::max(it->second, d.logp);
    }
    PBT_CHECK(Near(L(nv[v]), b), "Viterbi score of node " << v << " is " << L(nv[v]) << ", not " << b);
    for (auto& kv : be) PBT_CHECK(Near(L(ev[kv.first]), kv.second), "Viterbi score of edge " << kv.first << " is " << L(ev[kv.first]) << ", not " << kv.second);
  }
  SparseVector<prob_t> fx;
  prob_t iz = InsideOutside<prob_t, EdgeProb, SparseVector<prob_t>, EdgeFeaturesAndProbWeightFunction>(hg, &fx);
  PBT_CHECK(Near(L(iz), z), "InsideOutside returns " << L(iz));
  for (int f = 0; f < (int)FD::NumFeats(); ++f) {
    double want = ef.count(f) ? ef[f] : 0.0, got = fx.value(f).as_float(), sc = exp(z) * 64;
    PBT_CHECK(std::fabs(want - got) <= 1e-9 * sc + 1e-7 * std::fabs(want), "expected value of " << FD::Convert(f) << " is " << got << ", not " << want);
  }
  {
    // expected number of target words and of steps, in the expectation semiring
    struct Len { double operator()(const HG::Edge& e) const { return e.rule_->EWords(); } };
    struct P { double operator()(const HG::Edge& e) const { return e.edge_prob_.as_float(); } };
    typedef PRPair<double, double> PR;
    PR x = Inside<PR, PRWeightFunction<double, P, double, Len> >(hg);
    double want = 0;
    for (const Deriv& d : ds) want += d.e.size() * exp(d.logp);
    PBT_CHECK(Near(x.p, exp(z)) && Near(x.r, want), "expected length is " << x.r << "/" << x.p << ", not " << want << "/" << exp(z));
  }
  if (!o.unreachable) {
    Hypergraph h2 = hg;
    prob_t w = h2.PushWeightsToGoal(scale);
    PBT_CHECK(Near(L(w), zs), "PushWeightsToGoal returns " << L(w) << ", not " << zs);
    for (size_t v = 0; v < N; ++v) {
      double s = 0;
      for (int ei : h2.nodes_[v].in_edges_) s += h2.edges_[ei].edge_prob_.as_float();
      PBT_CHECK(Near(s, 1.0), "after pushing, the incoming edges of node " << v << " sum to " << s);
    }
    std::vector<Deriv> d2;
    Derivations(h2, kCap, &d2);
    PBT_CHECK(d2.size() == ds.size(), "pushing changed the forest");
    for (size_t i = 0; i < ds.size(); ++i)
      PBT_CHECK(Near(d2[i].logp, ds[i].logp * scale - zs), "after pushing, derivation " << ds[i].key << " has log probability "
                << d2[i].logp << ", not " << ds[i].logp * scale - zs);
  }
  c.evals(N + 2 * E);
}

static void ViterbiSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  o.ties = g.chance(1, 3);
  Make(g, o, &hg);
  std::vector<double> wv;
  std::vector<weight_t> weights;
  const bool dot = g.flip();
  if (dot) {
    // score the edges with the features, as the decoder does
    weights.resize(FD::NumFeats() + 8);
    for (size_t i = 1; i < FD::NumFeats(); ++i) weights[i] = g.grid(16);
    hg.Reweight(weights);
    for (size_t i = 0; i < hg.edges_.size(); ++i) {
      double want = 0;
      for (auto it = hg.edges_[i].feature_values_.begin(); it != hg.edges_[i].feature_values_.end(); ++it)
        want += it->second * weights[it->first];
      PBT_CHECK(Near(LogP(hg.edges_[i]), want), "Reweight gives edge " << i << " " << LogP(hg.edges_[i]) << ", not " << want);
    }
  }
  std::vector<Deriv> ds;
  if (!Derivations(hg, kCap, &ds)) return;
  Note(c, hg, ds);
  double best = -INFINITY;
  for (const Deriv& d : ds) best = std::max(best, d.logp);
  std::vector<const Deriv*> top;
  for (const Deriv& d : ds) if (d.logp >= best - 1e-9) top.push_back(&d);
  if (top.size() > 1) c.count("tied best derivations");
  VW e, f;
  prob_t p = ViterbiESentence(hg, &e);
  PBT_CHECK(Near(L(p), best), "the best derivation scores " << L(p) << ", not " << best);
  ViterbiFSentence(hg, &f);
  std::string et = ViterbiETree(hg), ft = ViterbiFTree(hg);
  const int el = ViterbiELength(hg), pl = ViterbiPathLength(hg);
  WeightVector sw;
  for (size_t i = 1; i < weights.size(); ++i) if (weights[i]) sw.set_value(i, weights[i]);
  // throws when the score is not the dot product of features and weights (when the score is not next to zero)
  SparseVector<double> fv = dot && std::fabs(best) > 1e-3 ? ViterbiFeatures(hg, &sw, true) : ViterbiFeatures(hg);
  // all of them describe one and the same best derivation
  bool ok = false;
  for (const Deriv* d : top)
    ok |= d->e == e && d->f == f && d->etree == et && d->ftree == ft && (int)d->e.size() == el && d->steps == pl && SameFeats(fv, d->feats);
  PBT_CHECK(ok, "no best derivation has target '" << Show(e) << "', source '" << Show(f) << "', trees '" << et << "' '" << ft << "', length "
            << el << ", steps " << pl << ", features " << fv << "; one has '" << Show(top[0]->e) << "', '" << Show(top[0]->f) << "', '"
            << top[0]->etree << "' '" << top[0]->ftree << "' " << top[0]->steps);
  HypergraphP v = hg.CreateViterbiHypergraph();
  std::vector<Deriv> vd;
  PBT_CHECK(Derivations(*v, kCap, &vd) && vd.size() == 1, "the forest of the best derivation has " << vd.size() << " derivations");
  ok = false;
  for (const Deriv* d : top) ok |= d->e == vd[0].e && d->etree == vd[0].etree && d->ftree == vd[0].ftree && Near(d->logp, vd[0].logp);
  PBT_CHECK(ok, "CreateViterbiHypergraph keeps '" << vd[0].etree << "' with score " << vd[0].logp << ", the best is '" << top[0]->etree << "' " << best);
  Integrity(*v, "CreateViterbiHypergraph");
  // sorting the incoming edges by their best derivation changes their order only
  Hypergraph h2 = hg;
  h2.ViterbiSortInEdges();
  Integrity(h2, "ViterbiSortInEdges");
  std::vector<Deriv> d2;
  Derivations(h2, kCap, &d2);
  PBT_CHECK(d2.size() == ds.size(), "ViterbiSortInEdges changed the forest");
  for (size_t n = 0; n < h2.nodes_.size(); ++n) {
    double last = INFINITY;
    for (int ei : h2.nodes_[n].in_edges_) {
      Hypergraph sub = hg;
      double s = -INFINITY;
      std::vector<Deriv> dn;
      if (!Derivations(hg, 20 * kCap, &dn, n)) { last = -INFINITY; break; }
      for (const Deriv& d : dn) if (d.edges[0] == ei) s = std::max(s, d.logp);
      PBT_CHECK(s <= last + 1e-9, "incoming edges of node " << n << " are out of order after ViterbiSortInEdges");
      last = s;
    }
  }
}

template <class K>
static void CheckKBest(const Hypergraph& hg, const std::vector<Deriv>& ds, bool unique, size_t k, Gen& g, Ctx& c, K& kb) {
  const int goal = hg.nodes_.size() - 1;
  std::vector<double> want;
  std::vector<Deriv> sorted(ds);
  std::stable_sort(sorted.begin(), sorted.end(), [](const Deriv& a, const Deriv& b) { return a.logp > b.logp; });
  std::set<VW> seen;
  for (const Deriv& d : sorted)
    if (!unique || seen.insert(d.e).second) want.push_back(d.logp);
  // ask for entries in a random order first
  if (g.chance(1, 3)) {
    c.count("random access");
    for (int i = 0; i < 3; ++i) kb.LazyKthBest(goal, g.draw(k));
  }
  std::set<VW> got;
  std::multiset<std::string> trees;
  for (size_t i = 0; i < k; ++i) {
    typename K::Derivation* d = kb.LazyKthBest(goal, i);
    if (i >= want.size()) {
      PBT_CHECK(!d, "entry " << i << " exists, but there are only " << want.size());
      c.count("k beyond the end");
      break;
    }
    PBT_CHECK(d, "entry " << i << " is missing, there are " << want.size());
    PBT_CHECK(Near(L(d->score), want[i]), "entry " << i << " scores " << L(d->score) << ", should be " << want[i]);
    if (unique) PBT_CHECK(got.insert(d->yield).second, "entry " << i << " repeats '" << Show(d->yield) << "'");
    bool found = false;
    for (const Deriv& x : sorted)
      if (Near(x.logp, want[i]) && x.e == d->yield && SameFeats(d->feature_values, x.feats)) { found = true; break; }
    PBT_CHECK(found, "entry " << i << " '" << Show(d->yield) << "' with score " << L(d->score) << " and features " << d->feature_values << " is no derivation");
    if (!unique) trees.insert(kb.derivation_tree(*d, false, Hypergraph::ALL));
  }
}

static void KBestSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  o.ties = g.chance(1, 3);
  Make(g, o, &hg);
  std::vector<Deriv> ds;
  if (!Derivations(hg, kCap, &ds)) return;
  Note(c, hg, ds);
  size_t k = g.chance(1, 3) ? ds.size() + 1 + g.draw(5) : 1 + g.draw(std::min<size_t>(ds.size() + 3, 60));
  const bool unique = g.flip();
  if (c.want()) c.desc() << "k=" << k << (unique ? " unique" : "") << "\n";
  if (unique) {
    KBest::KBestDerivations<VW, ESentenceTraversal, KBest::FilterUnique> kb(hg, k);
    CheckKBest(hg, ds, true, k, g, c, kb);
  } else {
    KBest::KBestDerivations<VW, ESentenceTraversal> kb(hg, k);
    CheckKBest(hg, ds, false, k, g, c, kb);
    // all derivations, each exactly once
    if (k >= ds.size()) {
      KBest::KBestDerivations<std::vector<const HG::Edge*>, ViterbiPathTraversal> kp(hg, k);
      std::set<std::vector<const HG::Edge*> > paths;
      // the bottom-up list of edges identifies the derivation (up to the shape the rules fix)
      for (size_t i = 0; i < ds.size(); ++i) {
        auto* d = kp.LazyKthBest(hg.nodes_.size() - 1, i);
        PBT_CHECK(d, "derivation " << i << " of " << ds.size() << " is missing");
        PBT_CHECK(paths.insert(d->yield).second, "derivation " << i << " occurs twice");
      }
    }
    KBest::KBestDerivations<VW, ETreeTraversal> kt(hg, k);
    KBest::KBestDerivations<VW, FTreeTraversal> kf(hg, k);
    for (size_t i = 0; i < std::min<size_t>(k, 5); ++i) {
      auto* d = kt.LazyKthBest(hg.nodes_.size() - 1, i);
      auto* d2 = kf.LazyKthBest(hg.nodes_.size() - 1, i);
      if (!d) break;
      bool f1 = false, f2 = false;
      for (const Deriv& x : ds) {
        f1 |= x.etree == Show(d->yield) && Near(x.logp, L(d->score));
        f2 |= x.ftree == Show(d2->yield) && Near(x.logp, L(d2->score));
      }
      PBT_CHECK(f1 && f2, "entry " << i << " has trees '" << Show(d->yield) << "' and '" << Show(d2->yield) << "'");
    }
  }
}

static std::multiset<std::string> Sigs(const Hypergraph& hg) {
  std::multiset<std::string> s;
  PBT_CHECK(Signatures(hg, 40 * kCap, &s), "too many derivations after a reduction");
  return s;
}

// signatures of the derivations of hg for which keep holds
template <class F>
static bool Filtered(const Hypergraph& hg, F keep, std::multiset<std::string>* out) {
  std::vector<std::vector<TreeP> > memo(hg.nodes_.size());
  std::vector<char> done(hg.nodes_.size(), 0);
  if (!Enumerate(hg, hg.nodes_.size() - 1, kCap, &memo, &done)) return false;
  for (const TreeP& t : memo.back()) {
    Deriv d = Describe(hg, t);
    if (keep(d)) out->insert(Signature(hg, *t));
  }
  return true;
}

static void PruneSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  o.ties = g.chance(1, 3);
  o.unreachable = g.chance(1, 6);
  Make(g, o, &hg);
  std::vector<Deriv> ds;
  if (!Derivations(hg, kCap, &ds)) return;
  Note(c, hg, ds);
  const size_t E = hg.edges_.size();
  const int kind = g.draw(4);
  if (kind == 0) {  // explicit mask
    std::vector<bool> mask(E);
    const unsigned den = 2 + g.draw(6);
    for (size_t i = 0; i < E; ++i) mask[i] = g.chance(1, den);
    std::multiset<std::string> want;
    Filtered(hg, [&](const Deriv& d) { for (int e : d.edges) if (mask[e]) return false; return true; }, &want);
    Hypergraph h2 = hg;
    h2.PruneEdges(mask, true);
    if (want.empty()) {
      c.count("everything pruned");
      PBT_CHECK(h2.edges_.empty() && h2.nodes_.size() == 1, "an empty forest has " << h2.edges_.size() << " edges, " << h2.nodes_.size() << " nodes");
    } else {
      PBT_CHECK(Sigs(h2) == want, "PruneEdges leaves " << Sigs(h2).size() << " derivations, " << want.size() << " avoid the pruned edges");
      Integrity(h2, "PruneEdges");
    }
    // the same through a subset
    std::vector<bool> keep(E);
    for (size_t i = 0; i < E; ++i) keep[i] = !mask[i];
    HypergraphP sub = hg.CreateEdgeSubset(keep);
    if (!want.empty()) {
      PBT_CHECK(Sigs(*sub) == want, "CreateEdgeSubset leaves " << Sigs(*sub).size() << " derivations, " << want.size() << " expected");
      Integrity(*sub, "CreateEdgeSubset", false);
      if (!o.unreachable) c.count("edge subset");
    }
    return;
  }
  if (kind == 1) {  // shuffled, then sorted again
    std::vector<int> perm(hg.nodes_.size()), eperm(E);
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
    for (size_t i = 0; i < E; ++i) eperm[i] = i;
    for (size_t i = 0; i + 1 < perm.size(); ++i) std::swap(perm[i], perm[i + g.draw(perm.size() - i)]);
    for (size_t i = 0; i + 1 < E; ++i) std::swap(eperm[i], eperm[i + g.draw(E - i)]);
    Hypergraph h2;
    h2.is_linear_chain_ = false;
    h2.edges_topo_ = true;
    h2.nodes_.resize(perm.size());
    h2.edges_.resize(E);
    for (size_t i = 0; i < perm.size(); ++i) {
      h2.nodes_[perm[i]] = hg.nodes_[i];
      h2.nodes_[perm[i]].id_ = perm[i];
      for (int& x : h2.nodes_[perm[i]].in_edges_) x = eperm[x];
      for (int& x : h2.nodes_[perm[i]].out_edges_) x = eperm[x];
    }
    for (size_t i = 0; i < E; ++i) {
      HG::Edge& e = h2.edges_[eperm[i]];
      e = hg.edges_[i];
      e.id_ = eperm[i];
      e.head_node_ = perm[e.head_node_];
      for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) e.tail_nodes_[k] = perm[e.tail_nodes_[k]];
    }
    std::multiset<std::string> want = Sigs(hg);
    h2.TopologicallySortNodesAndEdges(perm.back());
    PBT_CHECK(Sigs(h2) == want, "sorting changed the derivations");
    Integrity(h2, "TopologicallySortNodesAndEdges");
    std::vector<Deriv> d2;
    Derivations(h2, kCap, &d2);
    double z = -INFINITY, z2 = -INFINITY;
    for (auto& d : ds) z = LogAdd(z, d.logp);
    for (auto& d : d2) z2 = LogAdd(z2, d.logp);
    PBT_CHECK(Near(z, z2), "sorting changed the edge probabilities: " << z << " " << z2);
    c.count("sort");
    return;
  }
  // marginal pruning
  const bool sum = g.chance(1, 3);
  const double scale = sum && g.chance(1, 3) ? 0.25 * (1 + g.draw(8)) : 1.0;
  double alpha = g.chance(3, 4) ? g.real(0.01, 8) : 0, density = alpha == 0 || g.chance(1, 4) ? 1 + g.real(0, 2) : 0;
  std::vector<bool> preserve(E);
  const bool use_mask = g.chance(1, 4);
  if (use_mask) for (size_t i = 0; i < E; ++i) preserve[i] = g.chance(1, 4);
  double best = -INFINITY, z = -INFINITY;
  int plen = 0;
  std::vector<double> mm(E, -INFINITY);
  for (auto& d : ds) {
    if (d.logp > best) { best = d.logp; plen = d.steps; }
    z = LogAdd(z, d.logp * scale);
    for (int e : d.edges) mm[e] = sum ? LogAdd(mm[e], d.logp * scale) : std::max(mm[e], d.logp);
  }
  double top = -INFINITY;
  for (size_t e = 0; e < E; ++e) { mm[e] -= sum ? z : best; top = std::max(top, mm[e]); }
  // a re-entrant edge counts twice in the sum; ties make the length of the best derivation ambiguous
  size_t nbest = 0;
  bool lens = true;
  for (auto& d : ds) if (d.logp > best - 1e-9) { ++nbest; lens &= d.steps == plen; }
  if (density && !lens) return;
  if (sum && top > 1e-9) { c.count("edge with expected count above one"); return; }
  Hypergraph h2 = hg;
  if (c.want()) c.desc() << "alpha " << alpha << " density " << density  << " sum " << sum << " scale " << scale << " preserve " << use_mask << "\n";
  h2.PruneInsideOutside(alpha, density, use_mask ? &preserve : NULL, sum, scale, use_mask || g.flip());
  double cut = -INFINITY;
  if (alpha) cut = (sum ? std::max(top, 0.0) : 0.0) - alpha;
  if (density) {
    size_t rnum = std::min(E, (size_t)(unsigned)(density * plen));
    if (rnum < E) {
      std::vector<double> s(mm);
      std::sort(s.rbegin(), s.rend());
      cut = std::max(cut, s[rnum]);
      c.count("density");
    }
  }
  // every derivation all of whose edges are clearly inside survives; nothing clearly outside survives
  std::multiset<std::string> must, may;
  const double eps = 1e-5 * (1 + std::fabs(cut));
  Filtered(hg, [&](const Deriv& d) { for (int e : d.edges) if (mm[e] < cut + eps && !(use_mask && preserve[e])) return false; return true; }, &must);
  Filtered(hg, [&](const Deriv& d) { for (int e : d.edges) if (mm[e] < cut - eps && !(use_mask && preserve[e])) return false; return true; }, &may);
  std::multiset<std::string> got = Sigs(h2);
  PBT_CHECK(std::includes(got.begin(), got.end(), must.begin(), must.end()),
            "pruning keeps " << got.size() << " of " << ds.size() << " derivations, " << must.size() << " are inside the limit");
  PBT_CHECK(std::includes(may.begin(), may.end(), got.begin(), got.end()),
            "pruning keeps " << got.size() << " of " << ds.size() << " derivations, only " << may.size() << " are inside the limit");
  if (got.size() < ds.size()) c.count("something pruned");
  if (!got.empty()) Integrity(h2, "PruneInsideOutside", !o.unreachable);
}

static void IoSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  Make(g, o, &hg);
  std::vector<Deriv> ds;
  if (!Derivations(hg, kCap, &ds)) return;
  Note(c, hg, ds);
  hg.is_linear_chain_ = g.flip();
  std::ostringstream os;
  HypergraphIO::WriteToBinary(hg, &os);
  std::istringstream is(os.str());
  Hypergraph h2;
  if (g.flip()) {  // read over an old forest
    Make(g, o, &h2);
    c.count("overwrites a forest");
  }
  HypergraphIO::ReadFromBinary(&is, &h2);
  PBT_CHECK(h2.nodes_.size() == hg.nodes_.size() && h2.edges_.size() == hg.edges_.size(), "sizes differ after reading back");
  PBT_CHECK(h2.is_linear_chain_ == hg.is_linear_chain_, "the linear chain flag is lost");
  for (size_t i = 0; i < hg.nodes_.size(); ++i) {
    const HG::Node &a = hg.nodes_[i], &b = h2.nodes_[i];
    PBT_CHECK(a.node_hash == b.node_hash && a.id_ == b.id_ && a.cat_ == b.cat_ && a.in_edges_ == b.in_edges_ && a.out_edges_ == b.out_edges_,
              "node " << i << " differs after reading back");
  }
  for (size_t i = 0; i < hg.edges_.size(); ++i) {
    const HG::Edge &a = hg.edges_[i], &b = h2.edges_[i];
    PBT_CHECK(a.head_node_ == b.head_node_ && a.tail_nodes_ == b.tail_nodes_ && a.i_ == b.i_ && a.j_ == b.j_ && a.prev_i_ == b.prev_i_ &&
              a.prev_j_ == b.prev_j_ && a.id_ == b.id_ && a.feature_values_ == b.feature_values_, "edge " << i << " differs after reading back");
    PBT_CHECK(a.rule_->f_ == b.rule_->f_ && a.rule_->e_ == b.rule_->e_ && a.rule_->lhs_ == b.rule_->lhs_ && a.rule_->arity_ == b.rule_->arity_ &&
              a.rule_->scores_ == b.rule_->scores_, "the rule of edge " << i << " differs: " << b.rule_->AsString() << " was " << a.rule_->AsString());
  }
}

// two subforests of one forest, joined
static void UnionSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  o.ties = false;
  Make(g, o, &hg);
  std::vector<Deriv> ds;
  if (!Derivations(hg, kCap / 4, &ds)) return;
  Note(c, hg, ds);
  const size_t E = hg.edges_.size();
  if (g.flip()) {
    // equal edges (same rule, tails and features) of one node would be merged: keep them apart
    const double step = g.pick(std::vector<double>{1.0, -1.0, 0.001, -0.001});
    for (size_t i = 0; i < E; ++i) hg.edges_[i].feature_values_.set_value(FD::Convert("HgId"), step * (1.0 + i));
  } else {
    // edges that differ in their tails, their source side or some feature only
    std::set<std::string> seen;
    for (size_t i = 0; i < E; ++i) {
      HG::Edge& e = hg.edges_[i];
      std::vector<size_t> like;
      for (size_t j = 0; j < i; ++j)
        if (hg.edges_[j].head_node_ == e.head_node_ && hg.edges_[j].tail_nodes_.size() == e.tail_nodes_.size()) like.push_back(j);
      if (!like.empty() && g.chance(2, 3)) {
        const HG::Edge& m = hg.edges_[g.pick(like)];
        e.feature_values_ = m.feature_values_;
        e.rule_.reset(new TRule(*m.rule_));
        if (g.chance(1, 4)) e.rule_->f_.push_back(TD::Convert("extra"));
        if (g.chance(1, 4)) e.feature_values_.add_value(FD::Convert("HgMore"), g.pick(std::vector<double>{1.0, -0.001}));
        c.count("similar edges");
      }
      const auto key = [&]() {
        std::ostringstream o;
        o << e.head_node_ << " " << e.rule_->AsString(false);
        for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) o << " " << e.tail_nodes_[k];
        std::map<int, double> fs;
        for (auto& kv : e.feature_values_) if (kv.second) fs[kv.first] = kv.second;
        for (auto& kv : fs) o << " " << kv.first << "=" << kv.second;
        return o.str();
      };
      if (seen.count(key())) e.feature_values_.set_value(FD::Convert("HgId"), 1.0 + i);
      seen.insert(key());
    }
  }
  if (c.want()) c.desc() << "with edges\n" << Dump(hg);
  std::map<size_t, int> cats;
  for (auto& n : hg.nodes_) cats[n.node_hash] = n.cat_;
  Hypergraph part[2];
  std::vector<bool> mask[2];
  for (int k = 0; k < 2; ++k) {
    mask[k].resize(E);
    for (size_t i = 0; i < E; ++i) mask[k][i] = g.chance(1, 4);
    part[k] = hg;
    std::multiset<std::string> w;
    Filtered(hg, [&](const Deriv& d) { for (int e : d.edges) if (mask[k][e]) return false; return true; }, &w);
    if (w.empty()) { mask[k].assign(E, false); }
    part[k].PruneEdges(mask[k], true);
  }
  // edges that survive in a part: those on a derivation that avoids the mask
  std::vector<bool> alive(E);
  std::multiset<std::string> both;
  for (int k = 0; k < 2; ++k)
    for (auto& d : ds) {
      bool ok = true;
      for (int e : d.edges) ok &= !mask[k][e];
      if (ok) for (int e : d.edges) alive[e] = true;
    }
  std::multiset<std::string> want;
  Filtered(hg, [&](const Deriv& d) { for (int e : d.edges) if (!alive[e]) return false; return true; }, &want);
  Hypergraph u = part[1];
  HG::Union(part[0], &u);
  Integrity(u, "Union");
  PBT_CHECK(Sigs(u) == want, "the union of forests with " << Sigs(part[0]).size() << " and " << Sigs(part[1]).size() << " derivations has "
            << Sigs(u).size() << ", expected " << want.size());
  for (auto& n : u.nodes_) PBT_CHECK(cats.count(n.node_hash) && cats[n.node_hash] == n.cat_, "node " << n.id_ << " has another category in the union");
  HG::Union(part[0], &u);
  PBT_CHECK(Sigs(u) == want, "joining the same forest again changed the union");
  Hypergraph e;
  HG::Union(part[0], &e);
  PBT_CHECK(Sigs(e) == Sigs(part[0]), "the union with an empty forest differs");
}

// joined at the goal only
static void GoalUnionSuite(Gen& g, Ctx& c) {
  Hypergraph a, b;
  Options o;
  o.max_nodes = 6;
  Make(g, o, &a);
  Make(g, o, &b);
  std::vector<Deriv> da, db;
  if (!Derivations(a, kCap / 4, &da) || !Derivations(b, kCap / 4, &db)) return;
  Note(c, a, da);
  if (c.want()) c.desc() << "with\n" << Dump(b);
  std::multiset<std::string> want;
  // spans and probabilities are not part of this operation's contract
  for (HG::Edge& e : a.edges_) e.i_ = e.j_ = e.prev_i_ = e.prev_j_ = -1;
  for (HG::Edge& e : b.edges_) e.i_ = e.j_ = e.prev_i_ = e.prev_j_ = -1;
  want = Sigs(a);
  std::multiset<std::string> sb = Sigs(b);
  want.insert(sb.begin(), sb.end());
  a.Union(b);
  PBT_CHECK(Sigs(a) == want, "the union has " << Sigs(a).size() << " derivations, expected " << want.size());
  Integrity(a, "Hypergraph::Union");
}

static void SampleSuite(Gen& g, Ctx& c) {
  Hypergraph hg;
  Options o;
  o.distinct = true;
  o.max_nodes = 6;
  Make(g, o, &hg);
  std::vector<Deriv> ds;
  if (!Derivations(hg, 200, &ds)) return;
  Note(c, hg, ds);
  double z = -INFINITY;
  for (auto& d : ds) z = LogAdd(z, d.logp);
  const unsigned n = 2000;
  MT19937 rng(1 + g.draw(1000000));
  std::vector<HypergraphSampler::Hypothesis> hs;
  HypergraphSampler::sample_hypotheses(hg, n, &rng, &hs);
  PBT_CHECK(hs.size() == n, "asked for " << n << " samples, got " << hs.size());
  // group derivations by what a sample shows
  auto key = [](const VW& e, double s, const std::map<int, double>& f) {
    std::ostringstream k;
    k << Show(e) << " | " << std::lround(s * 1e6);
    for (auto& kv : f) if (std::fabs(kv.second) > 1e-9) k << " " << kv.first << ":" << std::lround(kv.second * 1e6);
    return k.str();
  };
  std::map<std::string, double> prob;
  std::map<std::string, unsigned> cnt;
  std::map<std::string, double> tprob;
  std::map<std::string, unsigned> tcnt;
  for (auto& d : ds) { prob[key(d.e, d.logp + 0.0, d.feats)] += exp(d.logp - z); tprob[d.etree] += exp(d.logp - z); }
  for (const auto& h : hs) {
    std::map<int, double> f;
    for (SparseVector<double>::const_iterator i = h.fmap.begin(); i != h.fmap.end(); ++i) f[i->first] = i->second;
    std::string k = key(h.words, L(h.model_score), f);
    PBT_CHECK(prob.count(k), "sample " << k << " is no derivation of the forest");
    ++cnt[k];
  }
  std::vector<std::string> trees;
  HypergraphSampler::sample_trees(hg, n, &rng, &trees);
  for (auto& t : trees) {
    PBT_CHECK(tprob.count(t), "sampled tree " << t << " is no derivation of the forest");
    ++tcnt[t];
  }
  // a deviation of 7 standard errors (and 8 counts) does not happen by chance
  for (auto& kv : prob) {
    double m = n * kv.second, s = sqrt(n * kv.second * (1 - std::min(1.0, kv.second)));
    PBT_CHECK(std::fabs(cnt[kv.first] - m) <= 7 * s + 8, kv.first << " was sampled " << cnt[kv.first] << " times of " << n << ", expected " << m);
  }
  for (auto& kv : tprob) {
    double m = n * kv.second, s = sqrt(n * kv.second * (1 - std::min(1.0, kv.second)));
    PBT_CHECK(std::fabs(tcnt[kv.first] - m) <= 7 * s + 8, "tree " << kv.first << " was sampled " << tcnt[kv.first] << " times of " << n << ", expected " << m);
  }
}

static void Freq(const std::vector<double>& p, const std::vector<unsigned>& cnt, unsigned n, const char* what) {
  double z = 0;
  for (double x : p) z += x;
  for (size_t i = 0; i < p.size(); ++i) {
    double q = p[i] / z, m = n * q, s = sqrt(n * q * (1 - q) + 1e-9);
    PBT_CHECK(std::fabs(cnt[i] - m) <= 7 * s + 8, what << ": choice " << i << " of weight " << p[i] << " was drawn " << cnt[i] << " times of " << n << ", expected " << m);
  }
}
static void ChoiceSuite(Gen& g, Ctx& c) {
  MT19937 rng(1 + g.draw(1000000));
  const unsigned n = 3000, k = 1 + g.count(1, 10);
  std::vector<double> w(k);
  for (double& x : w) x = g.chance(1, 8) ? 0.0 : g.chance(1, 3) ? exp(g.real(-3, 3)) : g.real(0.01, 1);
  if (w[0] == 0) w[0] = 1;  // the first weight of a set decides ties at zero
  const double T = g.chance(1, 2) ? 1.0 : 0.25 * (1 + g.draw(12));
  if (c.want()) { c.desc() << "T=" << T << " weights"; for (double x : w) c.desc() << " " << x; }
  if (k > 1) c.nontrivial();
  std::vector<double> p(k);
  for (unsigned i = 0; i < k; ++i) p[i] = w[i] ? pow(w[i], 1 / T) : 0;
  {
    SampleSet<double> ss;
    for (double x : w) ss.add(x);
    std::vector<unsigned> cnt(k);
    for (unsigned i = 0; i < n; ++i) {
      size_t x = rng.SelectSample(ss, T);
      PBT_CHECK(x < k, "choice " << x << " of " << k);
      ++cnt[x];
    }
    Freq(p, cnt, n, "numbers");
  }
  {
    SampleSet<prob_t> ss;
    const double shift = g.real(-2000, 2000);  // logarithmic weights far outside the range of double
    for (double x : w) ss.add(x ? prob_t::exp(log(x) + shift) : prob_t::Zero());
    std::vector<unsigned> cnt(k);
    for (unsigned i = 0; i < n; ++i) ++cnt[rng.SelectSample(ss, T)];
    Freq(p, cnt, n, "log weights");
  }
  if (k >= 2) {
    std::vector<unsigned> cnt(2), acc(2);
    std::vector<double> q(w.begin(), w.begin() + 2);
    for (unsigned i = 0; i < n; ++i) ++cnt[rng.SelectSample(w[0], w[1])];
    Freq(q, cnt, n, "pair");
    double qa = exp(g.real(-2, 2)), qb = exp(g.real(-2, 2)), pa = exp(g.real(-2, 2)), pb = exp(g.real(-2, 2));
    double a = std::min(1.0, pa / pb * qb / qa);
    for (unsigned i = 0; i < n; ++i) ++acc[rng.AcceptMetropolisHastings(prob_t(pa), prob_t(pb), prob_t(qa), prob_t(qb))];
    Freq(std::vector<double>{1 - a + 1e-12, a}, acc, n, "Metropolis-Hastings");
  }
  {
    int lo = (int)g.draw(20) - 10, hi = lo + g.draw(6);
    std::vector<unsigned> cnt(hi - lo + 1);
    auto r = rng.inclusive(lo, hi);
    for (unsigned i = 0; i < n; ++i) {
      int x = r();
      PBT_CHECK(x >= lo && x <= hi, x << " is outside of " << lo << ".." << hi);
      ++cnt[x - lo];
    }
    Freq(std::vector<double>(hi - lo + 1, 1.0), cnt, n, "range");
  }
}

static struct Quiet { Quiet() { SetSilent(true); } } quiet;

PBT_MAIN({"insideoutside", InsideOutsideSuite, 3}, {"viterbi", ViterbiSuite, 2}, {"kbest", KBestSuite, 3}, {"prune", PruneSuite, 3},
         {"io", IoSuite, 1}, {"union", UnionSuite, 1.5}, {"goalunion", GoalUnionSuite, 0.7}, {"sample", SampleSuite, 1.5}, {"choice", ChoiceSuite, 0.7})
