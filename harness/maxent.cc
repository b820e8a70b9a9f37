// U06: maximum entropy models
#include "pbt.hpp"
#include "utils/maxent.h"
#include <algorithm>
#include <fstream>
#include <list>

using namespace std;
using namespace pbt;
using namespace maxent;

namespace {

// what training reports on its progress goes nowhere
struct Quiet {
  int saved;
  Quiet() {
    fflush(stderr);
    saved = dup(2);
    int n = open(getenv("MAXENT_LOG") ? getenv("MAXENT_LOG") : "/dev/null", O_WRONLY | O_CREAT, 0644);
    dup2(n, 2);
    close(n);
  }
  ~Quiet() {
    fflush(stderr);
    dup2(saved, 2);
    close(saved);
  }
};

typedef pair<string, string> LF;  // label, feature
typedef map<LF, double> WMap;

const char* kLabels[] = {"A", "B", "NN", "x y", "L4", "L5"};
const char* kFeats[] = {"f", "g", "word=a b", "h", "aa", "w+1=", "p\tq", "z"};

ME_Sample RandSample(Gen& g, unsigned nl, unsigned nf, bool rv) {
  ME_Sample s(kLabels[g.draw(nl)]);
  const unsigned n = g.draw(4);
  for (unsigned i = 0; i < n; ++i) s.add_feature(kFeats[g.draw(nf)]);
  if (rv) {
    const unsigned m = g.draw(3);
    for (unsigned i = 0; i < m; ++i) s.add_feature(kFeats[g.draw(nf)], g.grid(16));
  }
  return s;
}

string Show(const ME_Sample& s) {
  ostringstream os;
  os << s.label << " <-";
  for (auto& f : s.features) os << " [" << f << "]";
  for (auto& f : s.rvfeatures) os << " [" << f.first << "]=" << f.second;
  return os.str();
}

string Show(const vector<ME_Sample>& v) {
  string r;
  for (auto& s : v) r += Show(s) + "; ";
  return r;
}

vector<LF> SampleLF(const ME_Sample& s) {
  vector<LF> r;
  for (auto& f : s.features) r.push_back(LF(s.label, f));
  for (auto& f : s.rvfeatures) r.push_back(LF(s.label, f.first));
  return r;
}

// the distribution over labels of a log-linear model
vector<double> Dist(const WMap& w, const vector<string>& labels, const ME_Sample& s, const vector<double>* ref) {
  vector<double> p(labels.size());
  double top = -1e300;
  for (size_t i = 0; i < labels.size(); ++i) {
    double x = 0;
    for (auto& f : s.features) {
      auto it = w.find(LF(labels[i], f));
      if (it != w.end()) x += it->second;
    }
    for (auto& f : s.rvfeatures) {
      auto it = w.find(LF(labels[i], f.first));
      if (it != w.end()) x += it->second * f.second;
    }
    if (ref) x += log((*ref)[i]);
    p[i] = x;
    top = max(top, x);
  }
  double z = 0;
  for (auto& x : p) z += (x = exp(x - top));
  for (auto& x : p) x /= z;
  return p;
}

// what a reference model says about the labels of another model
vector<double> RefDist(const WMap& rw, const vector<string>& rlabels, const vector<string>& labels, const ME_Sample& s) {
  const vector<double> d = Dist(rw, rlabels, s, NULL);
  vector<double> r;
  for (auto& l : labels) {
    double v = 0;
    for (size_t i = 0; i < rlabels.size(); ++i)
      if (rlabels[i] == l) v = d[i];
    r.push_back(v == 0 ? 0.001 : v);
  }
  return r;
}

WMap Features(ME_Model& m) {
  list<pair<LF, double> > fl;
  m.get_features(fl);
  WMap r;
  for (auto& f : fl) {
    PBT_CHECK(r.find(f.first) == r.end(), "the pair (" << f.first.first << ", " << f.first.second << ") is listed twice");
    r[f.first] = f.second;
  }
  return r;
}

void CheckSame(const vector<double>& a, const vector<double>& b, const string& what, double tol = 1e-8) {
  PBT_CHECK(a.size() == b.size(), what << ": " << a.size() << " classes, expected " << b.size());
  for (size_t i = 0; i < a.size(); ++i)
    PBT_CHECK(fabs(a[i] - b[i]) <= tol, what << ": probability " << a[i] << " of class " << i << ", expected " << b[i]);
}

// a model with random weights
struct Rand {
  WMap w;
  vector<string> labels, keep;
  vector<ME_Model_Data> data;
};
void MakeArray(Gen& g, unsigned nl, unsigned nf, Rand* r) {
  vector<pair<LF, double> > es;
  for (unsigned i = 0; i < nl; ++i)
    for (unsigned j = 0; j < nf; ++j)
      if (g.chance(2, 3)) es.push_back(make_pair(LF(kLabels[i], kFeats[j]), g.flip() ? g.grid(24) : g.real(-4, 4)));
  if (es.empty()) es.push_back(make_pair(LF(kLabels[0], kFeats[0]), 0.5));
  for (size_t i = es.size(); i > 1; --i) swap(es[i - 1], es[g.draw(i)]);
  r->keep.reserve(2 * es.size() + 2);
  for (auto& e : es) {
    r->w[e.first] = e.second;
    if (find(r->labels.begin(), r->labels.end(), e.first.first) == r->labels.end()) r->labels.push_back(e.first.first);
    ME_Model_Data d;
    r->keep.push_back(e.first.first);
    d.label = const_cast<char*>(r->keep.back().c_str());
    r->keep.push_back(e.first.second);
    d.feature = const_cast<char*>(r->keep.back().c_str());
    d.weight = e.second;
    r->data.push_back(d);
  }
  ME_Model_Data end;
  r->keep.push_back("///");
  end.label = const_cast<char*>(r->keep.back().c_str());
  end.feature = end.label;
  end.weight = 0;
  r->data.push_back(end);
}

void CheckLabels(const ME_Model& m, const vector<string>& labels) {
  PBT_CHECK(m.num_classes() == (int)labels.size(), m.num_classes() << " classes, expected " << labels.size());
  for (size_t i = 0; i < labels.size(); ++i) {
    PBT_CHECK(m.get_class_label(i) == labels[i], "class " << i << " is " << m.get_class_label(i) << ", expected " << labels[i]);
    PBT_CHECK(m.get_class_id(labels[i]) == (int)i, "label " << labels[i] << " has number " << m.get_class_id(labels[i]));
  }
  PBT_CHECK(m.get_class_id("no such label") == -1, "a number for an unknown label");
}

void CheckClassify(const ME_Model& m, const WMap& w, const vector<string>& labels, ME_Sample s, const Rand* ref,
                   double tol = 1e-8) {
  const string shown = Show(s);
  vector<double> rd;
  if (ref) rd = RefDist(ref->w, ref->labels, labels, s);
  const vector<double> exp = Dist(w, labels, s, ref ? &rd : NULL);
  const ME_Sample before = s;
  const vector<double> got = m.classify(s);
  CheckSame(got, exp, "classification of " + shown, tol);
  size_t best = 0;
  for (size_t i = 1; i < got.size(); ++i)
    if (got[i] > got[best]) best = i;
  PBT_CHECK(s.label == labels[best], "label " << s.label << " is chosen for " << shown << ", the most probable one is "
                                              << labels[best]);
  PBT_CHECK(s.features == before.features && s.rvfeatures == before.rvfeatures, "classification changes the features of " << shown);
}

vector<ME_Sample> MakeData(Gen& g, unsigned* nl, unsigned* nf, bool* rv, unsigned most) {
  *nl = 1 + g.draw(4);
  *nf = 1 + g.draw(8);
  *rv = g.chance(1, 3);
  vector<ME_Sample> d;
  const unsigned n = 1 + g.draw(most);
  for (unsigned i = 0; i < n; ++i) {
    if (i && g.chance(1, 4)) {
      d.push_back(d[g.draw(i)]);
      if (g.flip()) d.back().label = kLabels[g.draw(*nl)];
    } else {
      d.push_back(RandSample(g, *nl, *nf, *rv));
    }
  }
  return d;
}

vector<string> LabelsOf(const vector<ME_Sample>& d, const Rand* ref) {
  vector<string> r;
  for (auto& s : d)
    if (find(r.begin(), r.end(), s.label) == r.end()) r.push_back(s.label);
  if (ref)
    for (auto& l : ref->labels)
      if (find(r.begin(), r.end(), l) == r.end()) r.push_back(l);
  return r;
}

// the negative regularised log likelihood
struct Objective {
  vector<ME_Sample> tr;
  vector<string> labels;
  vector<vector<double> > rd;
  bool ref;
  double l1, l2;

  // of the smooth part
  double Eval(const WMap& w, WMap* grad) const {
    double f = 0;
    for (auto& x : w) {
      f += l2 * x.second * x.second;
      if (grad) (*grad)[x.first] = 2 * l2 * x.second;
    }
    for (size_t n = 0; n < tr.size(); ++n) {
      const ME_Sample& s = tr[n];
      const vector<double> p = Dist(w, labels, s, ref ? &rd[n] : NULL);
      for (size_t i = 0; i < labels.size(); ++i) {
        if (labels[i] == s.label) f -= log(p[i]) / tr.size();
        if (!grad) continue;
        const double d = (p[i] - (labels[i] == s.label)) / tr.size();
        for (auto& x : s.features) {
          auto it = grad->find(LF(labels[i], x));
          if (it != grad->end()) it->second += d;
        }
        for (auto& x : s.rvfeatures) {
          auto it = grad->find(LF(labels[i], x.first));
          if (it != grad->end()) it->second += d * x.second;
        }
      }
    }
    return f;
  }
  double Value(const WMap& w) const {
    double f = Eval(w, NULL);
    for (auto& x : w) f += l1 * fabs(x.second);
    return f;
  }
  // of the smallest (sub)gradient
  double Norm(const WMap& w) const {
    WMap g;
    Eval(w, &g);
    double r = 0;
    for (auto& x : w) {
      double d = g[x.first];
      if (x.second > 0) d += l1;
      else if (x.second < 0) d -= l1;
      else d = d > l1 ? d - l1 : d < -l1 ? d + l1 : 0;
      r += d * d;
    }
    return sqrt(r);
  }
  // accelerated proximal gradient steps
  double Improve(const WMap& w) const {
    WMap x = w, y = w;
    double best = Value(w), t = 1, step = 1;
    for (int it = 0; it < 400; ++it) {
      WMap g, n;
      const double fy = Eval(y, &g);
      for (int k = 0;; ++k) {
        double dot = 0, sq = 0;
        for (auto& e : y) {
          double v = e.second - step * g[e.first];
          const double c = step * l1;
          v = v > c ? v - c : v < -c ? v + c : 0;
          n[e.first] = v;
          dot += g[e.first] * (v - e.second);
          sq += (v - e.second) * (v - e.second);
        }
        if (k > 60 || Eval(n, NULL) <= fy + dot + sq / (2 * step) + 1e-14) break;
        step /= 2;
      }
      const double t1 = (1 + sqrt(1 + 4 * t * t)) / 2;
      for (auto& e : n) y[e.first] = e.second + (t - 1) / t1 * (e.second - x[e.first]);
      t = t1;
      x = n;
      step *= 1.1;
      best = min(best, Value(x));
    }
    return best;
  }
};

// batch training ends where the (sub)gradient of the regularised log likelihood vanishes
void Train(Gen& g, Ctx& c) {
  unsigned nl, nf;
  bool rv;
  vector<ME_Sample> data = MakeData(g, &nl, &nf, &rv, 24);
  const unsigned mode = g.draw(3);
  static const double kC[] = {1, 0.1, 0.5, 3, 0.01};
  const double C = mode ? kC[g.draw(5)] : 0;
  const bool useref = g.chance(1, 4);
  Rand ref;
  ME_Model refm;
  if (useref) {
    MakeArray(g, 1 + g.draw(5), 1 + g.draw(8), &ref);
    refm.load_from_array(ref.data.data());
  }
  const unsigned held = data.size() > 1 && g.chance(1, 4) ? 1 + g.draw(data.size() - 1) : 0;
  c.desc() << (mode == 0 ? "plain" : mode == 1 ? "l1" : "l2") << " C=" << C << " held=" << held << " ref=" << useref << " " << Show(data);
  ME_Model m;
  if (useref) m.set_reference_model(refm);
  if (mode == 1) m.use_l1_regularizer(C);
  if (mode == 2) m.use_l2_regularizer(C);
  m.set_heldout(held);
  {
    Quiet q;
    if (g.flip()) {
      m.train(data);
    } else {
      for (auto& s : data) m.add_training_sample(s);
      m.train();
    }
  }
  const vector<string> labels = LabelsOf(data, useref ? &ref : NULL);
  CheckLabels(m, labels);
  const WMap w = Features(m);
  const vector<ME_Sample> tr(data.begin(), data.end() - held);
  const double N = tr.size();
  set<LF> seen;
  for (auto& s : tr)
    for (auto& lf : SampleLF(s)) seen.insert(lf);
  for (auto& f : w) {
    PBT_CHECK(seen.count(f.first), "weight of (" << f.first.first << ", " << f.first.second << ") that training data does not have");
    PBT_CHECK(std::isfinite(f.second), "weight " << f.second << " of (" << f.first.first << ", " << f.first.second << ")");
  }
  PBT_CHECK(seen.size() == w.size(), w.size() << " features, the training data have " << seen.size());
  Objective ob;
  ob.tr = tr;
  ob.labels = labels;
  ob.ref = useref;
  for (auto& x : tr)
    if (useref) ob.rd.push_back(RefDist(ref.w, ref.labels, labels, x));
  ob.l1 = mode == 1 ? C / N : 0;
  ob.l2 = mode == 2 ? C / N : 0;
  unsigned nonzero = 0;
  for (auto& f : w) nonzero += f.second != 0;
  const double norm = ob.Norm(w);
  if (nonzero > 1) c.nontrivial();
  c.count(mode == 0 ? "plain" : mode == 1 ? "l1" : "l2");
  if (useref) c.count("with a reference model");
  if (held) c.count("with held-out samples");
  if (w.size() > nonzero) c.count("zero weights");
  if (norm >= 1.01e-4) {
    // it stops after 300 steps: not far from what more steps reach
    c.count("stopped by the number of steps");
    const double f0 = ob.Value(w), f1 = ob.Improve(w);
    PBT_CHECK(f0 - f1 < (useref ? 0.1 : 2e-3) * (1 + fabs(f1)), "training ends where the gradient has norm " << norm << ", at " << f0 << ", " << f1 << " is possible");
  }
  for (int i = 0; i < 3; ++i) CheckClassify(m, w, labels, RandSample(g, 6, 8, true), useref ? &ref : NULL);
}

// stochastic training: one step per sample, the samples of every pass in some order
struct Sgd {
  vector<ME_Sample> data;
  vector<string> labels;
  vector<vector<double> > rd;
  bool ref;
  double l1, eta0, alpha;
  int passes;
  WMap target;
  double best;

  struct State {
    WMap w, q;
    double u;
    int k;
  };
  void Step(State* st, size_t n) const {
    const ME_Sample& s = data[n];
    const vector<double> p = Dist(st->w, labels, s, ref ? &rd[n] : NULL);
    const double eta = eta0 * pow(alpha, (double)st->k / data.size());
    ++st->k;
    st->u += eta * l1;
    for (size_t j = 0; j < s.features.size() + s.rvfeatures.size(); ++j) {
      const bool bin = j < s.features.size();
      const string& f = bin ? s.features[j] : s.rvfeatures[j - s.features.size()].first;
      const double v = bin ? 1 : s.rvfeatures[j - s.features.size()].second;
      for (size_t i = 0; i < labels.size(); ++i) {
        auto it = st->w.find(LF(labels[i], f));
        if (it == st->w.end()) continue;
        double& x = it->second;
        x -= eta * (p[i] - (labels[i] == s.label)) * v;
        double& q = st->q[it->first];
        const double z = x;
        if (x > 0) x = max(0.0, x - (st->u + q));
        else if (x < 0) x = min(0.0, x + (st->u - q));
        q += x - z;
      }
    }
  }
  bool Search(const State& st, int pass, vector<bool>* used, size_t done) {
    if (done == data.size()) {
      fill(used->begin(), used->end(), false);
      vector<bool> fresh(data.size(), false);
      if (pass + 1 == passes) {
        double d = 0;
        for (auto& f : st.w) d = max(d, fabs(f.second - target[f.first]));
        best = min(best, d);
        return d < 1e-7;
      }
      return Search(st, pass + 1, &fresh, 0);
    }
    for (size_t i = 0; i < data.size(); ++i) {
      if ((*used)[i]) continue;
      State t = st;
      Step(&t, i);
      vector<bool> u = *used;
      u[i] = true;
      if (Search(t, pass, &u, done + 1)) return true;
    }
    return false;
  }
};

void SgdSuite(Gen& g, Ctx& c) {
  unsigned nl, nf;
  bool rv;
  Sgd x;
  x.data = MakeData(g, &nl, &nf, &rv, 4);
  static const int kPasses[] = {0, 30, 6, 4, 2};
  x.passes = 1 + g.draw(kPasses[x.data.size()]);
  x.l1 = g.flip() ? 0 : g.real(0.01, 0.6);
  x.eta0 = g.flip() ? 1 : g.real(0.1, 1.5);
  x.alpha = g.flip() ? 0.85 : g.real(0.3, 1);
  x.ref = g.chance(1, 4);
  Rand ref;
  ME_Model refm, m;
  if (x.ref) {
    MakeArray(g, 1 + g.draw(5), 1 + g.draw(8), &ref);
    refm.load_from_array(ref.data.data());
    m.set_reference_model(refm);
  }
  c.desc() << "passes=" << x.passes << " l1=" << x.l1 << " eta0=" << x.eta0 << " alpha=" << x.alpha << " ref=" << x.ref << " " << Show(x.data);
  const bool defaults = g.chance(1, 3) && x.data.size() == 1;
  if (x.l1 > 0) m.use_l1_regularizer(x.l1);
  if (defaults) {
    x.passes = 30;
    x.eta0 = 1;
    x.alpha = 0.85;
    m.use_SGD();
  } else {
    m.use_SGD(x.passes, x.eta0, x.alpha);
  }
  srand(g.draw(1000));
  {
    Quiet q;
    m.train(x.data);
  }
  x.l1 /= x.data.size();
  x.labels = LabelsOf(x.data, x.ref ? &ref : NULL);
  CheckLabels(m, x.labels);
  x.target = Features(m);
  Sgd::State st;
  st.u = 0;
  st.k = 0;
  for (auto& s : x.data) {
    for (auto& lf : SampleLF(s)) st.w[lf] = 0;
    if (x.ref) x.rd.push_back(RefDist(ref.w, ref.labels, x.labels, s));
  }
  PBT_CHECK(st.w.size() == x.target.size(), x.target.size() << " features, the training data have " << st.w.size());
  for (auto& f : st.w) PBT_CHECK(x.target.count(f.first), "(" << f.first.first << ", " << f.first.second << ") has no weight");
  unsigned nonzero = 0;
  for (auto& f : x.target) nonzero += f.second != 0;
  if (nonzero > 1) c.nontrivial();
  if (x.l1 > 0) c.count("with a penalty");
  if (nonzero < x.target.size()) c.count("zero weights");
  vector<bool> used(x.data.size(), false);
  x.best = 1e300;
  PBT_CHECK(x.Search(st, 0, &used, 0),
            "no order of the samples leads to these weights (the closest differ by " << x.best << ")");
  for (int i = 0; i < 3; ++i) CheckClassify(m, x.target, x.labels, RandSample(g, 6, 8, true), x.ref ? &ref : NULL);
}

// a model that is loaded afterwards: what it had before must be gone
void Earlier(Gen& g, ME_Model* m, Ctx* c) {
  unsigned nl, nf;
  bool rv;
  const vector<ME_Sample> d = MakeData(g, &nl, &nf, &rv, 3);
  Quiet q;
  m->use_SGD(1);
  m->train(d);
  c->count("loaded over another model");
}

// models in memory and in files
void ModelSuite(Gen& g, Ctx& c) {
  Rand a, ref;
  MakeArray(g, 1 + g.draw(6), 1 + g.draw(8), &a);
  const bool useref = g.chance(1, 3);
  ME_Model m, refm;
  if (useref) {
    MakeArray(g, 1 + g.draw(6), 1 + g.draw(8), &ref);
    refm.load_from_array(ref.data.data());
    m.set_reference_model(refm);
  }
  if (g.chance(1, 3)) Earlier(g, &m, &c);
  m.load_from_array(a.data.data());
  c.desc() << "weights";
  for (auto& f : a.w) c.desc() << " (" << f.first.first << "," << f.first.second << ")=" << f.second;
  CheckLabels(m, a.labels);
  PBT_CHECK(Features(m) == a.w, "the features of the model are not those it was given");
  for (int i = 0; i < 4; ++i) CheckClassify(m, a.w, a.labels, RandSample(g, 6, 8, true), useref ? &ref : NULL);
  if (a.w.size() > 1) c.nontrivial();

  // files
  const double th = g.flip() ? 0 : g.real(0, 3);
  char name[] = "/tmp/maxentXXXXXX";
  const int fd = mkstemp(name);
  close(fd);
  const bool ok = m.save_to_file(name, th);
  ME_Model l;
  if (g.flip()) Earlier(g, &l, &c);
  const bool ok2 = l.load_from_file(name);
  vector<string> labels;
  WMap w;
  {
    ifstream in(name);
    string line;
    while (getline(in, line)) {
      const size_t t1 = line.find('\t'), t2 = line.rfind('\t');
      PBT_CHECK(t1 != string::npos && t1 < t2, "no model line: " << line);
      const LF lf(line.substr(0, t1), line.substr(t1 + 1, t2 - t1 - 1));
      PBT_CHECK(a.w.count(lf), "the file has a pair the model has not: " << line);
      PBT_CHECK(!w.count(lf), "the file has a pair twice: " << line);
      w[lf] = atof(line.substr(t2 + 1).c_str());
      PBT_CHECK(fabs(w[lf] - a.w[lf]) <= 1e-6, "weight " << line << " in the file, " << a.w[lf] << " in the model");
      if (find(labels.begin(), labels.end(), lf.first) == labels.end()) labels.push_back(lf.first);
    }
  }
  unlink(name);
  PBT_CHECK(ok && ok2, "writing or reading a model failed");
  for (auto& f : a.w)
    PBT_CHECK((f.second != 0 && fabs(f.second) >= th) == (w.count(f.first) > 0),
              "pair (" << f.first.first << ", " << f.first.second << ") of weight " << f.second << (w.count(f.first) ? " is" : " is not")
                       << " in the file, the threshold is " << th);
  if (th > 0 && w.size() < a.w.size()) c.count("weights below the threshold");
  if (labels.empty()) return;
  CheckLabels(l, labels);
  const WMap lw = Features(l);
  PBT_CHECK(lw.size() == w.size(), lw.size() << " features are read from a file of " << w.size());
  for (auto& f : w) {
    auto it = lw.find(f.first);
    PBT_CHECK(it != lw.end() && fabs(it->second - f.second) < 1e-6, "pair (" << f.first.first << ", " << f.first.second << ") of weight "
                                                                             << f.second << " is not read back");
  }
  for (int i = 0; i < 4; ++i) CheckClassify(l, w, labels, RandSample(g, 6, 8, true), NULL, 1e-5);

  // large weights do not overflow
  if (g.chance(1, 4)) {
    Rand b = Rand();
    MakeArray(g, 1 + g.draw(4), 1 + g.draw(4), &b);
    const double up = g.real(0, 2000);
    for (unsigned i = 0; i + 1 < b.data.size(); ++i) {
      // the same for every label, so that the distribution stays as it is
      if (string(b.data[i].feature) == kFeats[0]) b.w[LF(b.data[i].label, b.data[i].feature)] = b.data[i].weight += up;
    }
    bool all = true;
    for (auto& lb : b.labels) all = all && b.w.count(LF(lb, kFeats[0]));
    if (!all) return;
    ME_Model h;
    h.load_from_array(b.data.data());
    ME_Sample s("?");
    s.add_feature(kFeats[0]);
    if (g.flip()) s.add_feature(kFeats[1]);
    CheckClassify(h, b.w, b.labels, s, NULL);
    c.count("large weights");
  }
}

}  // namespace

PBT_MAIN({"train", Train, 3}, {"sgd", SgdSuite, 2}, {"model", ModelSuite, 2})
