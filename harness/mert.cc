// Minimum error rate training: upper envelopes of forests, error surfaces, line search.
#include "hgen.hpp"
#include <set>
#include "ces.h"
#include "error_surface.h"
#include "inside_outside.h"
#include "line_optimizer.h"
#include "mert_geometry.h"
#include "ns.h"
#include "sampler.h"
#include "viterbi.h"

using namespace std;
using namespace hgen;
using pbt::Gen;
using pbt::Ctx;

static const char* kF[] = {"HgF0", "HgF1", "HgF2", "HgF3", "HgF4"};

static SparseVector<double> RandomVector(Gen& g, int m, int den) {
  SparseVector<double> v;
  for (auto f : kF) {
    if (g.chance(1, 3)) continue;
    const double x = g.grid(m) * 8 / den;
    if (x) v.set_value(FD::Convert(f), x);
  }
  return v;
}

static double Dot(const SparseVector<double>& w, const map<int, double>& f) {
  double s = 0;
  for (auto& x : f) s += w.value(x.first) * x.second;
  return s;
}

struct Line {
  double m, b;
  bool operator<(const Line& o) const { return m != o.m ? m < o.m : b < o.b; }
};

// The lines that are above all others somewhere, by slope; exact for small multiples of 1/64.
static vector<Line> Upper(const set<Line>& all) {
  vector<Line> best, r;
  for (auto& l : all) {
    if (best.size() && best.back().m == l.m) best.pop_back();
    best.push_back(l);
  }
  for (auto& l : best) {
    while (r.size() >= 2) {
      const Line& p = r[r.size() - 2];
      const Line& q = r.back();
      // q is nowhere above both p and l
      if ((p.b - l.b) * (q.m - p.m) <= (p.b - q.b) * (l.m - p.m)) r.pop_back();
      else break;
    }
    r.push_back(l);
  }
  return r;
}

static string Str(const vector<WordID>& v) { return TD::GetString(v); }

static void Hull(Gen& g, Ctx& c) {
  Options o;
  o.max_nodes = g.pick(vector<int>({3, 6, 9}));
  o.max_edges = g.range(1, 5);
  Hypergraph hg;
  Make(g, o, &hg);
  vector<Deriv> ds;
  if (!Derivations(hg, 1500, &ds)) { c.count("too many"); return; }
  const SparseVector<double> origin = RandomVector(g, 16, 8), dir = RandomVector(g, 16, 8);
  ConvexHullWeightFunction wf(origin, dir);
  const ConvexHull hull = Inside<ConvexHull, ConvexHullWeightFunction>(hg, NULL, wf);
  const vector<boost::shared_ptr<MERTPoint> >& segs = hull.GetSortedSegs();
  set<Line> all;
  for (auto& d : ds) { Line l = {Dot(dir, d.feats), Dot(origin, d.feats)}; all.insert(l); }
  const vector<Line> want = Upper(all);
  PBT_CHECK(segs.size() > 0 && segs[0]->x == -INFINITY, "the envelope does not begin at minus infinity");
  size_t k = 0;
  for (size_t i = 0; i < segs.size(); ++i) {
    const MERTPoint& s = *segs[i];
    const Line l = {s.m, s.b};
    PBT_CHECK(all.count(l), "no derivation has slope " << s.m << " and value " << s.b << " at the origin");
    PBT_CHECK(!i || s.x >= segs[i - 1]->x, "segments out of order");
    // a derivation that is what the segment says
    vector<WordID> y;
    s.ConstructTranslation(&y);
    vector<bool> used(hg.edges_.size(), false);
    s.CollectEdgesUsed(&used);
    bool found = false;
    for (auto& d : ds) {
      if (found || d.e != y || Dot(dir, d.feats) != s.m || Dot(origin, d.feats) != s.b) continue;
      vector<bool> u(hg.edges_.size(), false);
      for (int e : d.edges) u[e] = true;
      found = u == used;
    }
    PBT_CHECK(found, "segment " << i << ": no derivation with its slope " << s.m << ", value " << s.b << ", edges and translation '" << Str(y) << "'");
    if (k < want.size() && want[k].m == l.m && want[k].b == l.b) {
      const double x = k ? (want[k - 1].b - want[k].b) / (want[k].m - want[k - 1].m) : -INFINITY;
      PBT_CHECK(x == s.x || fabs(x - s.x) <= 1e-9 * (1 + fabs(x)), "segment with slope " << s.m << " begins at " << s.x << ", expected " << x);
      ++k;
    } else {
      const double end = i + 1 < segs.size() ? segs[i + 1]->x : INFINITY;
      PBT_CHECK(end - s.x <= 1e-9 * (1 + fabs(s.x)), "between " << s.x << " and " << end << " the line " << s.m << " x + " << s.b << " is not the highest");
    }
  }
  PBT_CHECK(k == want.size(), k << " of the " << want.size() << " highest lines found");
  if (want.size() > 1) c.nontrivial();
  c.count("segments<=" + to_string(want.size() <= 1 ? 1 : want.size() <= 3 ? 3 : want.size() <= 8 ? 8 : 99));
  if (c.want()) c.desc() << ds.size() << " derivations, " << want.size() << " segments along " << dir << " from " << origin;
}

static const char* kMetrics[] = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "TER", "WER", "CER", "CBLEU", "COMB:IBM_BLEU=0.25;NIST_BLEU=0.25;KOEHN_BLEU=0.25;QCRI_BLEU=0.25;TER=-0.25;WER=-0.25;SSK=0.125;CER=-0.125", "COMB:IBM_BLEU=0.5;TER=-0.5", "SSK"};

static bool Same(const SufficientStats& a, const SufficientStats& b) {
  for (size_t i = 0; i < max(a.size(), b.size()); ++i)
    if (fabs(a[i] - b[i]) > 1e-4 * (1 + fabs(a[i]) + fabs(b[i]))) return false;
  return true;
}

static vector<WordID> RandomWords(Gen& g, size_t lo) {
  static const char* X[] = {"x", "y", "z", "w"};
  vector<WordID> r;
  for (size_t i = g.count(lo, 7); i > 0; --i) r.push_back(TD::Convert(X[g.draw(4)]));
  return r;
}

static void Surface(Gen& g, Ctx& c) {
  const string name = kMetrics[g.draw(sizeof(kMetrics) / sizeof(*kMetrics))];
  EvaluationMetric* metric = EvaluationMetric::Instance(name);
  const bool error = metric->IsErrorMetric();
  PBT_CHECK(error == (name == "TER" || name == "WER" || name == "CER"), "direction of " << name);
  const SparseVector<double> origin = RandomVector(g, 8, 8), dir = RandomVector(g, 8, 8);
  const size_t n = g.range(1, 5);
  vector<boost::shared_ptr<Hypergraph> > hgs(n);
  vector<ConvexHull> hulls(n);
  vector<ErrorSurface> es(n);
  vector<vector<pair<double, SufficientStats> > > truth(n);
  vector<double> xs;
  for (size_t s = 0; s < n; ++s) {
    Options o;
    o.max_nodes = g.pick(vector<int>({2, 4, 7}));
    o.max_edges = g.range(1, 5);
    hgs[s].reset(new Hypergraph);
    Make(g, o, hgs[s].get());
    if (hgs[s]->NumberOfPaths() > 3000) { c.count("too many"); return; }
    vector<vector<WordID> > refs;
    vector<Deriv> ds;
    // a reference that the forest may contain
    if (g.flip() && Derivations(*hgs[s], 1500, &ds)) refs.push_back(ds[g.draw(ds.size())].e);
    else refs.push_back(RandomWords(g, 1));
    if (refs[0].empty()) refs[0].push_back(TD::Convert("x"));
    while (g.chance(1, 3) && refs.size() < 4) refs.push_back(RandomWords(g, 1));
    ConvexHullWeightFunction wf(origin, dir);
    hulls[s] = Inside<ConvexHull, ConvexHullWeightFunction>(*hgs[s], NULL, wf);
    const boost::shared_ptr<SegmentEvaluator> ev = metric->CreateSegmentEvaluator(refs);
    ComputeErrorSurface(*ev, hulls[s], &es[s], metric, *hgs[s]);
    for (auto& seg : hulls[s].GetSortedSegs()) {
      vector<WordID> y;
      seg->ConstructTranslation(&y);
      SufficientStats st;
      ev->Evaluate(y, &st);
      truth[s].push_back(make_pair(seg->x, st));
      if (seg->x > -INFINITY) xs.push_back(seg->x);
      if (y.empty()) c.count("empty translation");
    }
    // written and read
    string code;
    es[s].Serialize(&code);
    ErrorSurface back;
    back.Deserialize(code);
    PBT_CHECK(back.size() == es[s].size(), "an error surface of " << es[s].size() << " segments reads as " << back.size());
    for (size_t i = 0; i < back.size(); ++i)
      PBT_CHECK(back[i].x == es[s][i].x && Same(back[i].delta, es[s][i].delta) && (back[i].delta.id_ == es[s][i].delta.id_), "segment " << i << " of an error surface after writing and reading");
    if (g.flip()) es[s] = back;
  }
  sort(xs.begin(), xs.end());
  // where to look: inside every interval
  vector<double> at;
  vector<bool> wide;
  if (xs.empty()) { at.push_back(g.grid(80)); wide.push_back(true); }
  else {
    at.push_back(xs.front() - 1);
    wide.push_back(true);
    for (size_t i = 0; i + 1 < xs.size(); ++i) {
      if (xs[i + 1] - xs[i] < 1e-9 * (1 + fabs(xs[i]))) continue;
      at.push_back((xs[i] + xs[i + 1]) / 2);
      wide.push_back(xs[i + 1] - xs[i] > 4.0 / 65536);
    }
    at.push_back(xs.back() + 1);
    wide.push_back(true);
  }
  auto stats = [&](size_t s, double x) {
    SufficientStats st = truth[s][0].second;
    for (auto& t : truth[s]) if (t.first <= x) st = t.second;
    return st;
  };
  auto total = [&](double x) {
    SufficientStats st;
    for (size_t s = 0; s < n; ++s) st += stats(s, x);
    return metric->ComputeScore(st);
  };
  const double sign = error ? -1 : 1;
  double best = -1e30, bound = -1e30;
  for (size_t i = 0; i < at.size(); ++i) {
    for (size_t s = 0; s < n; ++s) {
      SufficientStats acc;
      for (auto& seg : es[s]) if (seg.x <= at[i]) acc += seg.delta;
      PBT_CHECK(Same(acc, stats(s, at[i])), name << ": at " << at[i] << " the error surface of sentence " << s << " does not have the statistics of the best translation there");
    }
    const double v = sign * total(at[i]);
    bound = max(bound, v);
    if (wide[i]) best = max(best, v);
  }
  float score = 12345;
  const double pos = LineOptimizer::LineOptimize(metric, es, error ? LineOptimizer::MINIMIZE_SCORE : LineOptimizer::MAXIMIZE_SCORE, &score);
  PBT_CHECK(pos == pos && fabs(pos) < 1e30, "line search returned " << pos);
  const double tol = 1e-4;
  PBT_CHECK(sign * score >= best - tol && sign * score <= bound + tol, name << ": line search found " << score << ", the best score along the line is " << sign * best);
  bool clear = true;
  for (double x : xs) clear &= fabs(x - pos) > 1e-4;
  // a position on a lone boundary promises nothing unless both sides are as good
  for (double x : xs) {
    if (fabs(x - pos) > 1e-9 * (1 + fabs(x))) continue;
    bool lone = true;
    for (double y : xs) lone &= y == x || fabs(y - x) > 1e-3;
    if (lone) PBT_CHECK(fabs(total(x - 5e-4) - score) <= tol && fabs(total(x + 5e-4) - score) <= tol, name << ": line search promised " << score << " at the boundary " << x << " of two translations");
  }
  if (clear) {
    c.count("position checked");
    PBT_CHECK(fabs(total(pos) - score) <= tol, name << ": line search promised " << score << " at " << pos << ", the score there is " << total(pos));
    // and it is what decoding with those weights gives
    SparseVector<double> w = dir;
    w *= pos;
    w += origin;
    SufficientStats st;
    bool ties = false;
    for (size_t s = 0; s < n; ++s) {
      hgs[s]->Reweight(w);
      vector<Deriv> ds;
      if (!Derivations(*hgs[s], 1500, &ds)) { ties = true; break; }
      double top = -1e30;
      for (auto& d : ds) top = max(top, Dot(w, d.feats));
      set<vector<WordID> > ys;
      for (auto& d : ds) if (Dot(w, d.feats) > top - 1e-7 * (1 + fabs(top))) ys.insert(d.e);
      ties |= ys.size() > 1;
      vector<WordID> y;
      ViterbiESentence(*hgs[s], &y);
      SufficientStats a = stats(s, pos);
      if (ys.size() == 1) PBT_CHECK(*ys.begin() == y, "translation with the weights found");
    }
    if (!ties) c.count("decoded");
  }
  if (xs.size() > 1) c.nontrivial();
  c.count(name);
  if (c.want()) c.desc() << name << ", " << n << " sentences, " << xs.size() << " boundaries: " << score << " at " << pos;
}

static void Directions(Gen& g, Ctx& c) {
  vector<int> fs;
  const size_t n = g.range(1, 12), k = g.range(0, 6);
  for (size_t i = 0; i < n; ++i) fs.push_back(FD::Convert("Dir" + to_string(g.draw(30))));
  sort(fs.begin(), fs.end());
  fs.erase(unique(fs.begin(), fs.end()), fs.end());
  for (size_t i = fs.size(); i > 1; --i) swap(fs[i - 1], fs[g.draw(i)]);
  boost::shared_ptr<RandomNumberGenerator<boost::mt19937> > rng(new RandomNumberGenerator<boost::mt19937>(1 + g.draw(1000)));
  const bool axes = g.chance(3, 4);
  vector<SparseVector<double> > dirs;
  struct Quiet { streambuf* b; Quiet() : b(cerr.rdbuf(NULL)) {} ~Quiet() { cerr.rdbuf(b); cerr.clear(); } } quiet;
  LineOptimizer::CreateOptimizationDirections(fs, k, rng.get(), &dirs, axes);
  PBT_CHECK(dirs.size() == (axes ? fs.size() : 0) + k, dirs.size() << " directions for " << fs.size() << " features and " << k << " random ones");
  set<string> seen;
  for (size_t i = 0; i < dirs.size(); ++i) {
    double norm = 0;
    for (auto& x : dirs[i]) {
      norm += x.second * x.second;
      PBT_CHECK(find(fs.begin(), fs.end(), (int)x.first) != fs.end(), "direction " << i << " has a feature that is not optimized");
    }
    PBT_CHECK(fabs(norm - 1) < 1e-9, "direction " << i << " has length " << sqrt(norm));
    if (axes && i < fs.size()) PBT_CHECK(dirs[i].value(fs[i]) == 1, "axis " << i);
    ostringstream o;
    o.precision(17);
    for (auto f : fs) o << dirs[i].value(f) << " ";
    PBT_CHECK(seen.insert(o.str()).second || fs.size() == 1, "direction " << i << " occurs twice");
  }
  if (dirs.size() > 2) c.nontrivial();
  if (c.want()) c.desc() << dirs.size() << " directions in " << fs.size() << " features";
}

PBT_MAIN({"hull", Hull, 3}, {"surface", Surface, 4}, {"directions", Directions, 0.3})
