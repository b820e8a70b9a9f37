// Lattices in their text form, and the forests read from it.
#include "pbt.hpp"
#include <queue>
#include <sstream>
#include "fdict.h"
#include "filelib.h"
#include "hg.h"
#include "hg_io.h"
#include "inside_outside.h"
#include "kbest.h"
#include "lattice.h"
#include "tdict.h"
#include "verbose.h"
#include "viterbi.h"

using namespace std;
using pbt::Ctx;
using pbt::Gen;
using pbt::Near;

struct Arc {
  string label;
  map<string, double> feats;
  int dist;
};
typedef vector<vector<Arc> > Lat;

static string Quote(const string& s) {
  string r = "'";
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '\'' || s[i] == '\\') r += '\\';
    r += s[i];
  }
  return r + "'";
}

static string Sp(Gen& g, bool spaces) { return spaces ? string(g.draw(3) ? 0 : 1 + g.draw(2), ' ') : ""; }

static string Number(Gen& g, double* v) {
  char b[64];
  switch (g.draw(5)) {
    case 0: snprintf(b, sizeof(b), "%d", (int)g.draw(9) - 4); break;
    case 1: snprintf(b, sizeof(b), "%.3f", g.real(-5, 5)); break;
    case 2: snprintf(b, sizeof(b), "%.*g", (int)(1 + g.draw(12)), g.real(-1, 1) * pow(10, (int)g.draw(12) - 6)); break;
    case 3: snprintf(b, sizeof(b), "%.2e", g.real(-1, 1)); break;
    default: snprintf(b, sizeof(b), ".%d", (int)g.draw(100)); break;
  }
  *v = (float)atof(b);
  return b;
}

static string Label(Gen& g) {
  static const vector<string> odd = {"'", "\\", "it's", "a\\b", "\\'", "(", ")", "),(", "{", "}", ",", ", 1)", "two words", "\xc3\xa9t\xc3\xa9", "\xe4\xb8\xad\xe6\x96\x87", "*EPS*", "[X]", "1", ":", "\"", "'a'", "''", "\\\\", "x'", "|||", "a|b"};
  if (g.chance(1, 3)) return g.pick(odd);
  return string(1, 'a' + g.draw(5));
}

// a lattice of n nodes before the last; with_dead allows nodes without arcs
static Lat Make(Gen& g, bool dead, bool sparse_ok, string* text) {
  Lat lat;
  size_t n = 1 + g.count(0, 7);
  bool spaces = g.flip(), commas = g.flip();
  lat.resize(n);
  *text = "(";
  for (size_t i = 0; i < n; ++i) {
    if (i) *text += "," + Sp(g, spaces);
    *text += "(";
    if (i) *text += Sp(g, spaces);
    size_t arcs = (dead && i && i + 1 < n && g.chance(1, 6)) ? 0 : 1 + g.count(0, 3);
    bool into_last = i + 1 == n;
    for (size_t k = 0; k < arcs; ++k) {
      Arc a;
      a.label = Label(g);
      a.dist = into_last ? 1 : (g.draw(3) ? 1 : 1 + g.draw(n - i));
      if (a.label.empty()) a.label = "a";
      if (k) *text += "," + Sp(g, spaces);
      *text += string("(") + (i || k ? Sp(g, spaces) : "") + Quote(a.label) + Sp(g, spaces) + "," + Sp(g, spaces);
      if (sparse_ok && g.flip()) {
        *text += "{" + Sp(g, spaces);
        size_t m = g.draw(4);
        for (size_t f = 0; f < m; ++f) {
          string name = g.pick(vector<string>{"F", "LatticeCost_0", "Word:x", "it's", "a b", "x\\y", "G"});
          double v;
          string num = Number(g, &v);
          if (f) *text += "," + Sp(g, spaces);
          *text += Quote(name) + Sp(g, spaces) + ":" + Sp(g, spaces) + num + Sp(g, spaces);
          a.feats[name] = v;
        }
        if (m && commas && g.chance(1, 4)) *text += ",";
        *text += "}" + Sp(g, spaces) + "," + Sp(g, spaces);
      } else {
        size_t m = g.draw(4) ? 1 : g.draw(4);
        if (g.chance(1, 12)) m = 10 + g.draw(4);
        for (size_t f = 0; f < m; ++f) {
          double v;
          *text += Number(g, &v) + Sp(g, spaces) + "," + Sp(g, spaces);
          ostringstream o;
          o << "LatticeCost_" << f;
          a.feats[o.str()] = v;
        }
      }
      ostringstream o;
      o << a.dist;
      *text += o.str() + Sp(g, spaces) + ")" + Sp(g, spaces);
      lat[i].push_back(a);
    }
    if (commas && arcs) *text += ",";
    *text += ")" + Sp(g, spaces);
  }
  if (commas) *text += ",";
  *text += ")" + Sp(g, spaces);
  return lat;
}

static void CheckFeats(const SparseVector<double>& got, const map<string, double>& want, const string& what) {
  set<string> names;
  for (SparseVector<double>::const_iterator i = got.begin(); i != got.end(); ++i) names.insert(FD::Convert(i->first));
  for (map<string, double>::const_iterator i = want.begin(); i != want.end(); ++i) names.insert(i->first);
  for (set<string>::iterator i = names.begin(); i != names.end(); ++i) {
    double w = want.count(*i) ? want.find(*i)->second : 0, h = got.value(FD::Convert(*i));
    PBT_CHECK(w == h, what << ": feature " << *i << " is " << h << ", expected " << w);
  }
}

static void CheckLattice(const Lattice& l, const Lat& m, const string& text) {
  PBT_CHECK(l.size() == m.size(), "the lattice has " << l.size() << " nodes, expected " << m.size() << ": " << text);
  for (size_t i = 0; i < m.size(); ++i) {
    PBT_CHECK(l[i].size() == m[i].size(), "node " << i << " has " << l[i].size() << " arcs, expected " << m[i].size() << ": " << text);
    for (size_t k = 0; k < m[i].size(); ++k) {
      ostringstream o;
      o << "arc " << k << " of node " << i << " of " << text;
      PBT_CHECK(TD::Convert(l[i][k].label) == m[i][k].label, o.str() << ": the label is '" << TD::Convert(l[i][k].label) << "'");
      PBT_CHECK(l[i][k].dist2next == m[i][k].dist, o.str() << ": the length is " << l[i][k].dist2next);
      CheckFeats(l[i][k].features, m[i][k].feats, o.str());
    }
  }
}

static void Reading(Gen& g, Ctx& c) {
  string text;
  Lattice l;
  if (g.chance(1, 5)) {  // plain text
    Lat m;
    size_t n = g.count(0, 12);
    for (size_t i = 0; i < n; ++i) {
      Arc a;
      do a.label = Label(g); while (a.label.find(' ') != string::npos);
      a.dist = 1;
      m.push_back(vector<Arc>(1, a));
      text += (i ? string(1 + (g.chance(1, 6)), ' ') : g.chance(1, 6) ? " " : "") + a.label;
    }
    if (LatticeTools::LooksLikePLF(text)) return;
    LatticeTools::ConvertTextOrPLF(text, &l);
    CheckLattice(l, m, text);
    for (size_t i = 0; i <= n; ++i)
      for (size_t j = i + 1; j <= n; ++j) PBT_CHECK(l.Distance(i, j) == (int)(j - i), "distance from " << i << " to " << j << " of " << n << " words: " << l.Distance(i, j));
    PBT_CHECK(IsSentence(l), "a sentence is not taken for one");
    if (n > 2) c.nontrivial();
    if (c.want()) c.desc() << text;
    return;
  }
  Lat m = Make(g, true, true, &text);
  if (!LatticeTools::LooksLikePLF(text)) PBT_FAIL("not taken for a lattice: " << text);
  LatticeTools::ConvertTextOrPLF(text, &l);
  CheckLattice(l, m, text);
  const int n = m.size();
  for (int i = 0; i < n; ++i) {  // fewest arcs
    vector<int> d(n + 1, -1);
    d[i] = 0;
    for (int j = i; j < n; ++j) {
      if (d[j] < 0) continue;
      for (size_t k = 0; k < m[j].size(); ++k) {
        int to = j + m[j][k].dist;
        if (d[to] < 0 || d[to] > d[j] + 1) d[to] = d[j] + 1;
      }
    }
    for (int j = i + 1; j <= n; ++j)
      if (d[j] > 0) PBT_CHECK(l.Distance(i, j) == d[j], "distance from " << i << " to " << j << " is " << l.Distance(i, j) << ", expected " << d[j] << ": " << text);
  }
  bool multi = false;
  size_t arcs = 0;
  for (int i = 0; i < n; ++i) { multi |= m[i].size() > 1; arcs += m[i].size(); }
  PBT_CHECK(IsSentence(l) == !multi, "IsSentence is " << IsSentence(l) << ": " << text);
  // written and read back: labels and lengths stay
  string out = HypergraphIO::AsPLF(l, true);
  Lattice back;
  bool empty = false;
  for (int i = 0; i < n; ++i) empty |= m[i].empty();
  HypergraphIO::PLFtoLattice(out, &back);
  PBT_CHECK(back.size() == l.size(), "written as " << out << " and read back: " << back.size() << " nodes");
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(back[i].size() == l[i].size(), "written as " << out << " and read back: node " << i << " has " << back[i].size() << " arcs");
    for (size_t k = 0; k < l[i].size(); ++k) PBT_CHECK(back[i][k].label == l[i][k].label && back[i][k].dist2next == l[i][k].dist2next, "written as " << out << " and read back: arc " << k << " of node " << i);
  }
  if (empty) c.count("dead ends");
  if (multi && arcs > 3) c.nontrivial();
  if (c.want()) c.desc() << text;
}

struct Path {
  string words;
  double logp;
  bool operator<(const Path& o) const { return words != o.words ? words < o.words : logp < o.logp; }
};

static bool Paths(const Hypergraph& hg, vector<Path>* out) {
  const int goal = hg.nodes_.size() - 1;
  vector<vector<Path> > at(goal + 1);
  at[0].push_back(Path{"", 0});
  for (int i = 0; i < goal; ++i)
    for (size_t k = 0; k < hg.nodes_[i].out_edges_.size(); ++k) {
      const Hypergraph::Edge& e = hg.edges_[hg.nodes_[i].out_edges_[k]];
      PBT_CHECK(e.tail_nodes_.size() == 1 && e.tail_nodes_[0] == i && e.head_node_ > i, "an arc of node " << i << " goes from " << e.tail_nodes_[0] << " to " << e.head_node_);
      for (size_t p = 0; p < at[i].size(); ++p) {
        at[e.head_node_].push_back(Path{at[i][p].words + (at[i][p].words.empty() ? "" : " ") + TD::Convert(e.rule_->e_[1]), at[i][p].logp + log(e.edge_prob_)});
        if (at[e.head_node_].size() > 600) return false;
      }
    }
  *out = at[goal];
  sort(out->begin(), out->end());
  return true;
}

static void SamePaths(const vector<Path>& got, const vector<Path>& want, double tol, const string& what, double big = 0) {
  PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " paths, expected " << want.size());
  map<string, multiset<double> > a, b;
  for (size_t i = 0; i < got.size(); ++i) { a[got[i].words].insert(got[i].logp); b[want[i].words].insert(want[i].logp); }
  PBT_CHECK(a.size() == b.size(), what << ": other words on the paths");
  for (map<string, multiset<double> >::iterator i = a.begin(); i != a.end(); ++i) {
    const multiset<double>& w = b[i->first];
    PBT_CHECK(w.size() == i->second.size(), what << ": " << i->second.size() << " paths of '" << i->first << "', expected " << w.size());
    for (multiset<double>::const_iterator p = i->second.begin(), q = w.begin(); q != w.end(); ++p, ++q)
      PBT_CHECK(fabs(*p - *q) <= tol * (1 + max(big, fabs(*q))), what << ": the path '" << i->first << "' weighs " << *p << ", expected " << *q);
  }
}

static void Forests(Gen& g, Ctx& c) {
  string text;
  Lat m = Make(g, false, true, &text);
  Hypergraph hg;
  HypergraphIO::ReadFromPLF(text, &hg);
  PBT_CHECK(hg.nodes_.size() == m.size() + 1, hg.nodes_.size() << " nodes for " << text);
  map<string, double> w;
  SparseVector<double> wv;
  const char* names[] = {"LatticeCost_0", "LatticeCost_1", "F", "G", "it's"};
  for (size_t i = 0; i < 5; ++i) {
    if (!g.draw(3)) continue;
    double x = g.real(-1, 1);
    w[names[i]] = x;
    wv.set_value(FD::Convert(names[i]), x);
  }
  hg.Reweight(wv);
  // the paths of the notation
  vector<vector<Path> > at(m.size() + 1);
  at[0].push_back(Path{"", 0});
  size_t total = 0;
  for (size_t i = 0; i < m.size(); ++i)
    for (size_t k = 0; k < m[i].size(); ++k) {
      double s = 0;
      for (map<string, double>::const_iterator f = m[i][k].feats.begin(); f != m[i][k].feats.end(); ++f)
        if (w.count(f->first)) s += w[f->first] * f->second;
      for (size_t p = 0; p < at[i].size(); ++p) {
        at[i + m[i][k].dist].push_back(Path{at[i][p].words + (at[i][p].words.empty() ? "" : " ") + m[i][k].label, at[i][p].logp + s});
        if (++total > 500) return;
      }
    }
  vector<Path> want = at.back(), got;
  sort(want.begin(), want.end());
  PBT_CHECK(!want.empty(), "no path");
  PBT_CHECK(Paths(hg, &got), "more paths than there are: " << text);
  SamePaths(got, want, 1e-6, text);
  if (want.size() > 2) c.nontrivial();
  if (c.want()) c.desc() << want.size() << " paths: " << text;
  // written and read back
  string out = HypergraphIO::AsPLF(hg);
  Hypergraph back;
  HypergraphIO::ReadFromPLF(out, &back);
  SparseVector<double> one;
  one.set_value(FD::Convert("LatticeCost_0"), 1);
  back.Reweight(one);
  got.clear();
  PBT_CHECK(Paths(back, &got), "more paths after writing: " << out);
  double big = 0;
  for (size_t i = 0; i < hg.edges_.size(); ++i) big += fabs(log(hg.edges_[i].edge_prob_));
  SamePaths(got, want, 3e-5, text + " written as " + out, big);
  // an arc that cannot be taken stays one
  if (g.chance(1, 3)) {
    const size_t e = g.draw(hg.edges_.size());
    const int from = hg.edges_[e].tail_nodes_[0];
    size_t k = 0;
    while (hg.nodes_[from].out_edges_[k] != (int)e) ++k;
    hg.edges_[e].edge_prob_ = prob_t::Zero();
    out = HypergraphIO::AsPLF(hg);
    HypergraphIO::ReadFromPLF(out, &back);
    const double v = back.edges_[back.nodes_[from].out_edges_[k]].feature_values_.get(FD::Convert("LatticeCost_0"));
    PBT_CHECK(v <= -1e10, "an arc of probability 0 is written with log probability " << v << ": " << out);
    c.count("probability 0");
  }
}

static struct Quiet { Quiet() { SetSilent(true); } } quiet;

PBT_MAIN({"reading", Reading, 1}, {"paths", Forests, 1})
