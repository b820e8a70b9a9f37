// Random hypergraphs and their exhaustive enumeration.
#pragma once
#include <algorithm>
#include <memory>
#include "pbt.hpp"
#include "hg.h"
#include "trule.h"
#include "tdict.h"
#include "fdict.h"

namespace hgen {
using pbt::Ctx;
using pbt::Gen;

struct Tree {
  int edge;
  std::vector<std::shared_ptr<const Tree> > kids;
};
typedef std::shared_ptr<const Tree> TreeP;

struct Deriv {
  std::vector<int> edges;   // in preorder, with repetitions
  double logp;              // sum of log edge probabilities
  std::map<int, double> feats;
  std::vector<WordID> e, f;
  std::string etree, ftree, key;
  int steps;
};

static inline double LogP(const HG::Edge& e) { return log(e.edge_prob_); }

static inline void Yield(const Hypergraph& hg, const Tree& t, std::vector<WordID>* f, std::vector<WordID>* e) {
  const HG::Edge& ed = hg.edges_[t.edge];
  std::vector<std::vector<WordID> > kf(t.kids.size()), ke(t.kids.size());
  for (size_t i = 0; i < t.kids.size(); ++i) Yield(hg, *t.kids[i], &kf[i], &ke[i]);
  size_t v = 0;
  for (WordID w : ed.rule_->f_) {
    if (w > 0) f->push_back(w);
    else { f->insert(f->end(), kf[v].begin(), kf[v].end()); ++v; }
  }
  for (WordID w : ed.rule_->e_) {
    if (w > 0) e->push_back(w);
    else e->insert(e->end(), ke[-w].begin(), ke[-w].end());
  }
}

static inline std::string TreeString(const Hypergraph& hg, const Tree& t, bool src) {
  const HG::Edge& ed = hg.edges_[t.edge];
  std::vector<std::string> parts;
  size_t v = 0;
  for (WordID w : src ? ed.rule_->f_ : ed.rule_->e_) {
    if (w > 0) parts.push_back(TD::Convert(w));
    else { parts.push_back(TreeString(hg, *t.kids[src ? v : (size_t)-w], src)); ++v; }
  }
  std::string cat = TD::Convert(-ed.rule_->lhs_), s;
  for (size_t i = 0; i < parts.size(); ++i) {
    if (parts[i].empty()) continue;
    if (!s.empty()) s += " ";
    s += parts[i];
  }
  if (cat == "Goal") return s;
  return s.empty() ? "(" + cat + " )" : "(" + cat + " " + s + ")";
}

static inline void Walk(const Hypergraph& hg, const Tree& t, Deriv* d) {
  const HG::Edge& ed = hg.edges_[t.edge];
  d->edges.push_back(t.edge);
  d->logp += LogP(ed);
  for (SparseVector<double>::const_iterator i = ed.feature_values_.begin(); i != ed.feature_values_.end(); ++i)
    d->feats[i->first] += i->second;
  std::ostringstream k;
  k << t.edge << "(";
  d->key += k.str();
  for (size_t i = 0; i < t.kids.size(); ++i) Walk(hg, *t.kids[i], d);
  d->key += ")";
}

// all derivations of a node; false if there are more than cap
static inline bool Enumerate(const Hypergraph& hg, int node, size_t cap, std::vector<std::vector<TreeP> >* memo, std::vector<char>* done) {
  if ((*done)[node]) return true;
  std::vector<TreeP> res;
  for (int ei : hg.nodes_[node].in_edges_) {
    const HG::Edge& ed = hg.edges_[ei];
    std::vector<std::vector<TreeP> > combos(1);
    for (size_t k = 0; k < ed.tail_nodes_.size(); ++k) {
      if (!Enumerate(hg, ed.tail_nodes_[k], cap, memo, done)) return false;
      std::vector<std::vector<TreeP> > next;
      for (size_t a = 0; a < combos.size(); ++a)
        for (const TreeP& b : (*memo)[ed.tail_nodes_[k]]) {
          next.push_back(combos[a]);
          next.back().push_back(b);
          if (next.size() > cap) return false;
        }
      combos.swap(next);
    }
    for (size_t a = 0; a < combos.size(); ++a) {
      std::shared_ptr<Tree> t(new Tree);
      t->edge = ei;
      t->kids = combos[a];
      res.push_back(t);
      if (res.size() > cap) return false;
    }
  }
  (*memo)[node].swap(res);
  (*done)[node] = 1;
  return true;
}

static inline Deriv Describe(const Hypergraph& hg, const TreeP& t) {
  Deriv d;
  d.logp = 0;
  Walk(hg, *t, &d);
  Yield(hg, *t, &d.f, &d.e);
  d.etree = TreeString(hg, *t, false);
  d.ftree = TreeString(hg, *t, true);
  d.steps = d.edges.size();
  return d;
}

// derivations of the goal (of node n); false when there are too many
static inline bool Derivations(const Hypergraph& hg, size_t cap, std::vector<Deriv>* out, int n = -1) {
  out->clear();
  if (hg.nodes_.empty()) return true;
  std::vector<std::vector<TreeP> > memo(hg.nodes_.size());
  std::vector<char> done(hg.nodes_.size(), 0);
  if (n < 0) n = hg.nodes_.size() - 1;
  if (!Enumerate(hg, n, cap, &memo, &done)) return false;
  for (const TreeP& t : memo[n]) out->push_back(Describe(hg, t));
  return true;
}

// what identifies a derivation independently of node and edge numbers
static inline std::string Signature(const Hypergraph& hg, const Tree& t) {
  const HG::Edge& e = hg.edges_[t.edge];
  std::ostringstream o;
  o.precision(12);
  o << "{" << e.rule_->AsString(false) << " LHS" << TD::Convert(-e.rule_->lhs_) << " ";
  std::map<std::string, double> fs;
  for (SparseVector<double>::const_iterator i = e.feature_values_.begin(); i != e.feature_values_.end(); ++i)
    if (i->second) fs[FD::Convert(i->first)] = i->second;
  for (auto& kv : fs) o << kv.first << "=" << kv.second << ";";
  o << " " << e.i_ << "," << e.j_ << "," << e.prev_i_ << "," << e.prev_j_;
  for (size_t i = 0; i < t.kids.size(); ++i) o << Signature(hg, *t.kids[i]);
  o << "}";
  return o.str();
}
static inline bool Signatures(const Hypergraph& hg, size_t cap, std::multiset<std::string>* out) {
  out->clear();
  if (hg.nodes_.empty()) return true;
  std::vector<std::vector<TreeP> > memo(hg.nodes_.size());
  std::vector<char> done(hg.nodes_.size(), 0);
  if (!Enumerate(hg, hg.nodes_.size() - 1, cap, &memo, &done)) return false;
  for (const TreeP& t : memo.back()) out->insert(Signature(hg, *t));
  return true;
}

static inline std::string Dump(const Hypergraph& hg) {
  std::ostringstream o;
  for (size_t n = 0; n < hg.nodes_.size(); ++n) {
    o << "node " << n << ":\n";
    for (int ei : hg.nodes_[n].in_edges_) {
      const HG::Edge& e = hg.edges_[ei];
      o << "   edge " << ei << " <-";
      for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) o << " " << e.tail_nodes_[k];
      o << "  " << e.rule_->AsString(false) << "  logp=" << LogP(e) << " |" << e.feature_values_ << "\n";
    }
  }
  return o.str();
}

// positions, heads, tails and adjacency lists agree, nodes are in topological order, the goal comes last
static inline void Integrity(const Hypergraph& hg, const char* what, bool connected = true) {
  std::vector<std::multiset<int> > in(hg.nodes_.size()), out(hg.nodes_.size());
  for (size_t i = 0; i < hg.edges_.size(); ++i) {
    const HG::Edge& e = hg.edges_[i];
    PBT_CHECK(e.id_ == (int)i, what << ": edge " << i << " has id " << e.id_);
    PBT_CHECK(e.head_node_ >= 0 && e.head_node_ < (int)hg.nodes_.size(), what << ": edge " << i << " has head " << e.head_node_);
    in[e.head_node_].insert(i);
    for (unsigned k = 0; k < e.tail_nodes_.size(); ++k) {
      PBT_CHECK((int)e.tail_nodes_[k] >= 0 && (int)e.tail_nodes_[k] < e.head_node_,
                what << ": edge " << i << " with head " << e.head_node_ << " has tail " << e.tail_nodes_[k]);
      out[e.tail_nodes_[k]].insert(i);
    }
  }
  for (size_t n = 0; n < hg.nodes_.size(); ++n) {
    const HG::Node& v = hg.nodes_[n];
    PBT_CHECK(v.id_ == (int)n, what << ": node " << n << " has id " << v.id_);
    PBT_CHECK(std::multiset<int>(v.in_edges_.begin(), v.in_edges_.end()) == in[n], what << ": incoming edges of node " << n << " are wrong");
    PBT_CHECK(std::multiset<int>(v.out_edges_.begin(), v.out_edges_.end()) == out[n], what << ": outgoing edges of node " << n << " are wrong");
    if (connected) PBT_CHECK(n + 1 == hg.nodes_.size() || !v.out_edges_.empty(), what << ": node " << n << " leads nowhere");
  }
}

struct Options {
  int max_nodes, max_edges, arity;
  bool distinct;      // a node occurs at most once in a derivation
  bool unreachable;   // allow nodes the goal does not need
  bool ties;
  Options() : max_nodes(9), max_edges(4), arity(3), distinct(false), unreachable(false), ties(true) {}
};

static inline TRulePtr MakeRule(Gen& g, const std::string& lhs, const std::vector<std::string>& nts, bool allow_empty_e = true) {
  static const char* W[] = {"a", "b", "c", "d"};
  static const char* X[] = {"x", "y", "z"};
  std::string f, e;
  size_t nf = nts.empty() ? 1 + g.draw(2) : g.draw(3) ? g.draw(2) : g.draw(3);
  std::vector<std::string> fs, es;
  for (size_t i = 0; i < nts.size(); ++i) {
    std::ostringstream o;
    o << "[" << nts[i] << "," << i + 1 << "]";
    fs.push_back(o.str());
    es.push_back("[" + std::to_string(i + 1) + "]");
  }
  for (size_t i = 0; i < nf; ++i) fs.insert(fs.begin() + g.draw(fs.size() + 1), W[g.draw(4)]);
  for (size_t i = 0; i + 1 < es.size(); ++i) std::swap(es[i], es[i + g.draw(es.size() - i)]);
  size_t ne = g.draw(3);
  if (!ne && es.empty() && !allow_empty_e) ne = 1;
  for (size_t i = 0; i < ne; ++i) es.insert(es.begin() + g.draw(es.size() + 1), X[g.draw(3)]);
  for (size_t i = 0; i < fs.size(); ++i) f += (i ? " " : "") + fs[i];
  for (size_t i = 0; i < es.size(); ++i) e += (i ? " " : "") + es[i];
  TRulePtr r(new TRule);
  // built by hand: the rule reader is not under test here
  r->lhs_ = -TD::Convert(lhs);
  r->arity_ = nts.size();
  size_t v = 0;
  for (size_t i = 0; i < fs.size(); ++i) {
    if (fs[i][0] == '[') r->f_.push_back(-TD::Convert(nts[v++]));
    else r->f_.push_back(TD::Convert(fs[i]));
  }
  for (size_t i = 0; i < es.size(); ++i) {
    if (es[i][0] == '[') r->e_.push_back(1 - atoi(es[i].c_str() + 1));
    else r->e_.push_back(TD::Convert(es[i]));
  }
  return r;
}

static inline void RandomFeatures(Gen& g, SparseVector<double>* v) {
  static const char* F[] = {"HgF0", "HgF1", "HgF2", "HgF3", "HgF4"};
  size_t n = g.draw(4);
  for (size_t i = 0; i < n; ++i) {
    double x = g.grid(16);
    if (x) v->set_value(FD::Convert(F[g.draw(5)]), x);
  }
}

struct Made {
  std::vector<double> weights;
};

// A hypergraph in topological order in which every node has a derivation.
static inline void Make(Gen& g, const Options& o, Hypergraph* hg) {
  static const char* C[] = {"X", "S", "NP", "VP", "Goal"};
  hg->clear();
  hg->is_linear_chain_ = false;
  hg->edges_topo_ = true;
  const int n = 1 + g.count(0, o.max_nodes - 1);
  const int most = o.arity == 3 && g.chance(1, 6) ? 6 : o.arity;
  std::vector<std::set<int> > below(n);  // nodes that may occur in a derivation of the node
  std::vector<double> w(16, 0.0);
  for (int v = 0; v < n; ++v) {
    const bool goal = v + 1 == n;
    std::string cat = goal && g.chance(2, 3) ? "Goal" : C[g.draw(4)];
    hg->AddNode(-TD::Convert(cat));
    hg->nodes_.back().node_hash = 1000 + v * 17;
    below[v].insert(v);
    const int ne = 1 + g.draw(o.max_edges);
    for (int k = 0; k < ne; ++k) {
      TailNodeVector tails;
      std::vector<std::string> nts;
      std::set<int> used;
      const int ar = v == 0 ? 0 : (goal && k == 0) ? 1 + g.draw(most) : g.draw(most + 1);
      std::vector<int> chosen;
      for (int t = 0; t < ar; ++t) {
        // prefer recent nodes
        int c = v - 1 - (int)g.draw(std::min(v, 1 + (int)g.draw(v)));
        bool clash = false;
        if (o.distinct) { for (int b : below[c]) clash |= used.count(b) > 0; }
        else clash = std::find(chosen.begin(), chosen.end(), c) != chosen.end();
        if (clash) continue;
        chosen.push_back(c);
        used.insert(below[c].begin(), below[c].end());
      }
      for (int c : chosen) {
        tails.push_back(c);
        nts.push_back(TD::Convert(-hg->nodes_[c].cat_));
        below[v].insert(below[c].begin(), below[c].end());
      }
      HG::Edge* e = hg->AddEdge(MakeRule(g, cat, nts), tails);
      e->i_ = g.draw(4); e->j_ = e->i_ + g.draw(4);
      e->prev_i_ = (int)g.draw(4) - 1; e->prev_j_ = (int)g.draw(5) - 1;
      RandomFeatures(g, &e->feature_values_);
      double lp = o.ties ? g.grid(32) : g.real(-4, 4);
      e->edge_prob_.logeq(lp);
      hg->ConnectEdgeToHeadNode(e->id_, v);
    }
  }
  if (!o.unreachable) {
    // make sure that the goal needs everything: give it unary edges to the orphans
    for (int v = 0; v + 1 < n; ++v)
      if (hg->nodes_[v].out_edges_.empty()) {
        TailNodeVector t(1, v);
        std::vector<std::string> nts(1, TD::Convert(-hg->nodes_[v].cat_));
        HG::Edge* e = hg->AddEdge(MakeRule(g, TD::Convert(-hg->nodes_.back().cat_), nts), t);
        e->i_ = 0; e->j_ = 1;
        RandomFeatures(g, &e->feature_values_);
        e->edge_prob_.logeq(o.ties ? g.grid(32) : g.real(-4, 4));
        hg->ConnectEdgeToHeadNode(e->id_, n - 1);
      }
  }
}

static inline double LogAdd(double a, double b) {
  if (a == -INFINITY) return b;
  if (b == -INFINITY) return a;
  return a > b ? a + log1p(exp(b - a)) : b + log1p(exp(a - b));
}
}  // namespace hgen
