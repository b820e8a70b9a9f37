// Pools of translation candidates, and the objectives computed on them.
#include "hgen.hpp"
#include <iomanip>
#include <unistd.h>
#include "ns.h"
#include "candidate_set.h"
#include "entropy.h"
#include "risk.h"
#include "verbose.h"

using namespace std;
using namespace hgen;
using training::CandidateSet;

static string Scratch(const string& name) {
  static string dir;
  if (dir.empty()) {
    const char* t = getenv("TMPDIR");
    string s = string(t ? t : "/tmp") + "/cand.XXXXXX";
    if (!mkdtemp(&s[0])) abort();
    dir = s;
  }
  return dir + "/" + name;
}

struct Hush {
  streambuf* old;
  ostringstream os;
  Hush() : old(cerr.rdbuf(os.rdbuf())) {}
  ~Hush() { cerr.rdbuf(old); }
};

static const int kNum = 12;
static int Feat(int i) { return FD::Convert("CandF" + to_string(i)); }

// what a candidate is: its words and its features, in units of unit/8
typedef pair<vector<WordID>, vector<long> > Key;

static Key MakeKey(const vector<WordID>& e, const function<double(int)>& f, double unit) {
  Key k;
  k.first = e;
  for (int i = 0; i < kNum; ++i) k.second.push_back(lrint(f(Feat(i)) / unit * 8));
  return k;
}

static string Show(const Key& k) {
  ostringstream o;
  o << "'" << TD::GetString(k.first) << "' |";
  for (int i = 0; i < kNum; ++i) if (k.second[i]) o << " F" << i << "=" << k.second[i];
  return o.str();
}

static vector<WordID> RandomWords(Gen& g, size_t lo) {
  static const char* X[] = {"x", "y", "z", "w"};
  vector<WordID> r;
  for (size_t i = g.count(lo, 7); i > 0; --i) r.push_back(TD::Convert(X[g.draw(4)]));
  return r;
}

struct Drawn {
  Hypergraph hg;
  vector<Deriv> ds;
  double unit;  // feature values are multiples of unit/8
};

static bool Draw(Gen& g, Ctx& c, Drawn* d) {
  for (int i = 0; i < kNum; ++i) Feat(i);
  Options o;
  o.max_nodes = g.pick(vector<int>({2, 4, 6}));
  o.max_edges = g.range(1, 4);
  Make(g, o, &d->hg);
  d->unit = g.pick(vector<double>({1, 0.8, 0.008, 8e6}));
  const int nf = g.pick(vector<int>({2, 5, kNum}));
  const bool dense = g.flip();
  for (size_t i = 0; i < d->hg.edges_.size(); ++i) {
    SparseVector<double>& v = d->hg.edges_[i].feature_values_;
    v.clear();
    vector<int> order;
    for (int k = 0; k < nf; ++k) order.push_back(k);
    for (int k = 0; k + 1 < nf; ++k) swap(order[k], order[k + g.draw(nf - k)]);
    for (int k : order) {
      if (!dense && g.draw(3)) continue;
      double x = g.grid(8) * d->unit;
      if (d->unit != 1) x = fabs(x);  // no cancellation where it is not exact
      if (x || g.draw(8) == 7) v.set_value(Feat(k), x);
    }
  }
  if (!Derivations(d->hg, 400, &d->ds)) { c.count("too many"); return false; }
  return true;
}

static map<Key, double> Best(const Drawn& d, const vector<double>& w, vector<double>* all) {
  map<Key, double> r;
  for (auto& x : d.ds) {
    double s = 0;
    for (auto& f : x.feats) s += f.second * w[f.first];
    all->push_back(s);
    const Key k = MakeKey(x.e, [&](int id) { auto it = x.feats.find(id); return it == x.feats.end() ? 0.0 : it->second; }, d.unit);
    if (!r.count(k) || r[k] < s) r[k] = s;
  }
  sort(all->rbegin(), all->rend());
  return r;
}

static Key KeyOf(const training::Candidate& x, double unit) {
  return MakeKey(x.ewords, [&](int id) { return x.fmap.value(id); }, unit);
}

static EvaluationMetric* Metric(const string& n) {
  static map<string, EvaluationMetric*> m;
  if (!m[n]) m[n] = EvaluationMetric::Instance(n);
  return m[n];
}

static void CheckScores(const CandidateSet& cs, const SegmentEvaluator& ev, const EvaluationMetric& m, const char* what) {
  for (size_t i = 0; i < cs.size(); ++i) {
    SufficientStats st;
    ev.Evaluate(cs[i].ewords, &st);
    const double a = m.ComputeScore(st), b = m.ComputeScore(cs[i].eval_feats);
    PBT_CHECK(fabs(a - b) <= 1e-5 * (1 + fabs(a)), what << ": candidate '" << TD::GetString(cs[i].ewords) << "' is scored " << b << ", its score is " << a);
  }
}

static void Pool(Gen& g, Ctx& c) {
  SetSilent(true);
  Drawn d;
  if (!Draw(g, c, &d)) return;
  const string mname = g.pick(vector<string>({"IBM_BLEU", "TER", "NIST_BLEU", "WER"}));
  EvaluationMetric* m = Metric(mname);
  vector<vector<WordID> > refs(1 + g.draw(2));
  for (auto& r : refs) r = RandomWords(g, 1);
  boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs);
  CandidateSet* cs = new CandidateSet;
  const string file = Scratch(g.flip() ? "kbest.gz" : "kbest");
  set<Key> must, may;
  const size_t rounds = 1 + g.draw(4);
  size_t files = 0;
  for (size_t t = 0; t < rounds; ++t) {
    vector<double> w(FD::NumFeats() + 1, 0.0);
    for (int i = 0; i < kNum; ++i) w[Feat(i)] = g.grid(16) / d.unit;
    d.hg.Reweight(w);
    const size_t k = g.pick(vector<size_t>({1, 2, 5, 10, 50, 1000}));
    const bool unique = g.chance(1, 4);
    vector<double> all;
    const map<Key, double> best = Best(d, w, &all);
    if (unique) {
      map<vector<WordID>, double> top;
      for (auto& kv : best) { auto it = top.find(kv.first.first); if (it == top.end() || it->second < kv.second) top[kv.first.first] = kv.second; }
      vector<double> s;
      for (auto& kv : top) s.push_back(kv.second);
      sort(s.rbegin(), s.rend());
      const double cut = k < s.size() ? s[k - 1] : -INFINITY, next = k < s.size() ? s[k] : -INFINITY;
      for (auto& kv : best) {
        const double mine = kv.second, b = top[kv.first.first];
        if (mine < b - 1e-7 * (1 + fabs(b))) continue;
        if (b < cut - 1e-7 * (1 + fabs(cut))) continue;
        may.insert(kv.first);
        size_t same = 0;
        for (auto& o : best) if (o.first.first == kv.first.first && o.second >= b - 1e-7 * (1 + fabs(b))) ++same;
        if (same == 1 && b > next + 1e-7 * (1 + fabs(next))) must.insert(kv.first);
      }
      c.count("unique");
    } else {
      const double cut = k < all.size() ? all[k - 1] : -INFINITY, next = k < all.size() ? all[k] : -INFINITY;
      for (auto& kv : best) {
        if (kv.second >= cut - 1e-7 * (1 + fabs(cut)) || cut == -INFINITY) may.insert(kv.first);
        if (next == -INFINITY || kv.second > next + 1e-7 * (1 + fabs(next))) must.insert(kv.first);
      }
    }
    Hush h;
    if (unique) cs->AddUniqueKBestCandidates(d.hg, k, ev.get());
    else cs->AddKBestCandidates(d.hg, k, ev.get());
    CheckScores(*cs, *ev, *m, "fresh");
    set<Key> have;
    for (size_t i = 0; i < cs->size(); ++i) {
      const Key key = KeyOf((*cs)[i], d.unit);
      PBT_CHECK(have.insert(key).second, "round " << t << ": candidate " << Show(key) << " is in the pool twice" << (files ? " (after reading it)" : ""));
      PBT_CHECK(may.count(key), "round " << t << ": candidate " << Show(key) << " is not among the " << k << " best");
    }
    for (auto& key : must) PBT_CHECK(have.count(key), "round " << t << ": candidate " << Show(key) << " is missing from the " << k << " best");
    // what was added once stays
    for (auto& key : have) must.insert(key);
    if (g.flip()) {
      cs->WriteToFile(file);
      CandidateSet* n = new CandidateSet;
      n->ReadFromFile(file);
      PBT_CHECK(n->size() == cs->size(), cs->size() << " candidates written, " << n->size() << " read");
      for (size_t i = 0; i < cs->size(); ++i) {
        const Key a = KeyOf((*cs)[i], d.unit), b = KeyOf((*n)[i], d.unit);
        PBT_CHECK(a == b, "candidate " << Show(a) << " comes back as " << Show(b));
      }
      CheckScores(*n, *ev, *m, "read");
      delete cs;
      cs = n;
      ++files;
    }
  }
  c.count("pool<=" + to_string(cs->size() <= 1 ? 1 : cs->size() <= 10 ? 10 : 999));
  if (files) c.count("through a file");
  if (cs->size() > 1 && rounds > 1) c.nontrivial();
  if (c.want()) c.desc() << d.ds.size() << " derivations, " << rounds << " rounds, " << files << " files, pool of " << cs->size();
  delete cs;
}

static void Objectives(Gen& g, Ctx& c) {
  SetSilent(true);
  Drawn d;
  if (!Draw(g, c, &d)) return;
  d.unit = 1;
  const string mname = g.pick(vector<string>({"IBM_BLEU", "TER", "NIST_BLEU", "WER"}));
  EvaluationMetric* m = Metric(mname);
  vector<vector<WordID> > refs(1, RandomWords(g, 1));
  boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs);
  CandidateSet cs;
  vector<double> w(FD::NumFeats() + 1, 0.0);
  { Hush h; d.hg.Reweight(w); cs.AddKBestCandidates(d.hg, 200, ev.get()); }
  double mag = 0;
  for (size_t i = 0; i < cs.size(); ++i) for (int k = 0; k < kNum; ++k) mag = max(mag, fabs(cs[i].fmap.value(Feat(k))));
  if (mag == 0) mag = 1;
  const double scale = g.pick(vector<double>({0.1, 1, 5, 300}));
  for (int i = 0; i < kNum; ++i) w[Feat(i)] = g.real(-scale, scale) / mag;
  vector<long double> s, p, cost;
  long double mx = -INFINITY, z = 0;
  for (size_t i = 0; i < cs.size(); ++i) {
    long double x = 0;
    for (int k = 0; k < kNum; ++k) x += (long double)cs[i].fmap.value(Feat(k)) * w[Feat(k)];
    s.push_back(x);
    mx = max(mx, x);
    const double sc = m->ComputeScore(cs[i].eval_feats);
    cost.push_back(mname == "TER" || mname == "WER" ? sc : 1 - sc);
  }
  for (auto x : s) z += expl(x - mx);
  long double risk = 0, H = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    p.push_back(expl(s[i] - mx) / z);
    risk += p[i] * cost[i];
    H -= p[i] * (s[i] - mx - logl(z));
  }
  training::CandidateSetRisk R(cs, *m);
  training::CandidateSetEntropy E(cs);
  SparseVector<double> gr, ge;
  const double r = R(w, &gr), h = E(w, &ge);
  const double tol = 1e-7;
  PBT_CHECK(fabs(r - risk) <= tol * (1 + fabs((double)risk)), "the risk is " << r << ", expected " << (double)risk);
  PBT_CHECK(R(w) == r && E(w) == h, "the value depends on whether the gradient is wanted");
  PBT_CHECK(fabs(h - H) <= tol * (1 + scale), "the entropy is " << h << ", expected " << (double)H);
  bool plus = true, minus = true;
  double hg = 0;
  for (int k = 0; k < kNum; ++k) {
    long double ef = 0, dr = 0, dh = 0;
    for (size_t i = 0; i < s.size(); ++i) ef += p[i] * cs[i].fmap.value(Feat(k));
    for (size_t i = 0; i < s.size(); ++i) {
      dr += p[i] * (cost[i] - risk) * cs[i].fmap.value(Feat(k));
      dh -= p[i] * (s[i] - mx - logl(z) + H) * cs[i].fmap.value(Feat(k));
    }
    PBT_CHECK(fabs(gr.value(Feat(k)) - dr) <= tol * mag, "the gradient of the risk is " << gr.value(Feat(k)) << " for feature " << k << ", expected " << (double)dr);
    if (fabs(ge.value(Feat(k)) - dh) > tol * mag * (1 + scale)) plus = false;
    if (fabs(ge.value(Feat(k)) + dh) > tol * mag * (1 + scale)) minus = false;
    hg = dh;
  }
  // the sign is settled by what the optimizer makes of it
  PBT_CHECK(plus || minus, "the gradient of the entropy is " << ge.value(Feat(kNum - 1)) << " for the last feature, expected " << hg);
  for (auto it = gr.begin(); it != gr.end(); ++it) {
    bool known = it->second == 0;
    for (int k = 0; k < kNum; ++k) known |= (int)it->first == Feat(k);
    PBT_CHECK(known, "gradient for another feature");
  }
  if (cs.size() > 2) c.nontrivial();
  c.count(mname);
  if (c.want()) c.desc() << cs.size() << " candidates, scale " << scale << ", risk " << r << ", entropy " << h;
}

// pools written with any feature values keep (nearly) all of their digits
static void Written(Gen& g, Ctx& c) {
  SetSilent(true);
  Drawn d;
  if (!Draw(g, c, &d)) return;
  size_t precise = 0;
  for (auto& e : d.hg.edges_) {
    SparseVector<double> v;
    for (auto it = e.feature_values_.begin(); it != e.feature_values_.end(); ++it) {
      const double x = g.chance(1, 4) ? it->second : g.real(-1, 1) * pow(10.0, g.range(-12, 12));
      if (x != it->second) ++precise;
      v.set_value(it->first, x);
    }
    e.feature_values_ = v;
  }
  EvaluationMetric* m = Metric(g.flip() ? "IBM_BLEU" : "TER");
  vector<vector<WordID> > refs(1, RandomWords(g, 1));
  boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(refs);
  CandidateSet cs, n;
  vector<double> w(FD::NumFeats() + 1, 0.0);
  const string file = Scratch(g.flip() ? "exact.gz" : "exact");
  { Hush h; d.hg.Reweight(w); cs.AddKBestCandidates(d.hg, g.range(1, 60), ev.get()); cs.WriteToFile(file); n.ReadFromFile(file); }
  PBT_CHECK(n.size() == cs.size(), cs.size() << " candidates written, " << n.size() << " read");
  for (size_t i = 0; i < cs.size(); ++i) {
    PBT_CHECK(n[i].ewords == cs[i].ewords, "candidate " << i << " '" << TD::GetString(cs[i].ewords) << "' read as '" << TD::GetString(n[i].ewords) << "'");
    for (int k = 0; k < kNum; ++k) {
      const double a = cs[i].fmap.value(Feat(k)), b = n[i].fmap.value(Feat(k));
      PBT_CHECK(fabs(a - b) <= 1e-9 * fabs(a), "feature " << k << " of candidate " << i << ": " << setprecision(17) << a << " written, " << setprecision(17) << b << " read");
    }
    for (auto it = n[i].fmap.begin(); it != n[i].fmap.end(); ++it) {
      bool known = it->second == 0;
      for (int k = 0; k < kNum; ++k) known |= (int)it->first == Feat(k);
      PBT_CHECK(known, "another feature was read");
    }
  }
  CheckScores(n, *ev, *m, "read");
  if (cs.size() > 1 && precise) c.nontrivial();
  if (c.want()) c.desc() << cs.size() << " candidates, " << precise << " feature values with all digits";
}

PBT_MAIN({"pool", Pool, 2}, {"objectives", Objectives, 1}, {"written", Written, 1})
