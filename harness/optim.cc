// Numerical optimizers on random convex functions.
#include "pbt.hpp"
#include <boost/make_shared.hpp>
#include <sstream>
#include "liblbfgs/lbfgs++.h"
#include "online_optimizer.h"
#include "optimize.h"
#include "fdict.h"

using namespace std;
using pbt::Ctx;
using pbt::Gen;
using pbt::Near;
typedef vector<double> V;

// 1/2 sum (a.x - b)^2 + sum log(1 + exp(c.x - d)) + l/2 |x|^2
struct F {
  size_t n;
  double l;
  vector<V> a, c;
  V b, d;
  mutable size_t evals;
  double Value(const V& x, V* g) const {
    double f = 0;
    g->assign(n, 0.0);
    for (size_t i = 0; i < n; ++i) { f += l / 2 * x[i] * x[i]; (*g)[i] += l * x[i]; }
    for (size_t k = 0; k < a.size(); ++k) {
      double r = -b[k];
      for (size_t i = 0; i < n; ++i) r += a[k][i] * x[i];
      f += r * r / 2;
      for (size_t i = 0; i < n; ++i) (*g)[i] += r * a[k][i];
    }
    for (size_t k = 0; k < c.size(); ++k) {
      double r = -d[k];
      for (size_t i = 0; i < n; ++i) r += c[k][i] * x[i];
      f += r > 0 ? r + log1p(exp(-r)) : log1p(exp(r));
      double p = 1 / (1 + exp(-r));
      for (size_t i = 0; i < n; ++i) (*g)[i] += p * c[k][i];
    }
    return f;
  }
  double operator()(const V& x, double* g) const {
    V v;
    double f = Value(x, &v);
    copy(v.begin(), v.end(), g);
    ++evals;
    return f;
  }
};

static F Make(Gen& g, bool separable) {
  F f;
  f.evals = 0;
  f.n = 1 + g.count(0, 9);
  f.l = g.pick(vector<double>{0.01, 0.1, 1, 10});
  size_t na = g.count(0, 6), nc = g.count(0, 8);
  for (size_t k = 0; k < na + nc; ++k) {
    V v(f.n);
    if (separable) v[g.draw(f.n)] = g.real(-2, 2);
    else for (size_t i = 0; i < f.n; ++i) v[i] = g.draw(3) ? g.real(-2, 2) : 0;
    (k < na ? f.a : f.c).push_back(v);
    (k < na ? f.b : f.d).push_back(g.real(-3, 3));
  }
  return f;
}

static double Norm(const V& v) {
  double s = 0;
  for (size_t i = 0; i < v.size(); ++i) s += v[i] * v[i];
  return sqrt(s);
}

static string Show(const V& v) {
  ostringstream o;
  o.precision(12);
  for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
  return o.str();
}

struct Hush {
  streambuf* old;
  ostringstream os;
  Hush() : old(cerr.rdbuf(os.rdbuf())) {}
  ~Hush() { cerr.rdbuf(old); }
};

static void Lbfgs(Gen& g, Ctx& c) {
  F f = Make(g, g.chance(1, 4));
  double l1 = g.draw(3) ? 0 : g.pick(vector<double>{0.01, 0.3, 2, 20});
  unsigned start = l1 > 0 && g.draw(3) == 0 ? g.draw(f.n) : 0;
  size_t m = 1 + g.draw(12);
  V x(f.n);
  for (size_t i = 0; i < f.n; ++i) x[i] = g.draw(3) ? g.real(-4, 4) : 0;
  V x0 = x, gr;
  double f0 = f.Value(x, &gr);
  for (size_t i = start; i < f.n; ++i) f0 += l1 * fabs(x[i]);
  int ret;
  bool owned = g.draw(3) == 0;
  {
    Hush h;
    if (owned) {
      LBFGS<F> o(f.n, f, m, l1, start);
      PBT_CHECK(o.size() == f.n, "the optimizer has " << o.size() << " variables");
      for (size_t i = 0; i < f.n; ++i) o[i] = x0[i];
      ret = o.MinimizeFunction(g.flip());
      for (size_t i = 0; i < f.n; ++i) x[i] = o[i];
    } else {
      LBFGS<F> o(&x, f, m, l1, start);
      ret = o.MinimizeFunction(g.flip());
    }
  }
  double f1 = f.Value(x, &gr);
  for (size_t i = start; i < f.n; ++i) f1 += l1 * fabs(x[i]);
  PBT_CHECK(f1 <= f0 + 1e-9 * (1 + fabs(f0)), "the minimum " << f1 << " is above the starting point's " << f0 << " (status " << ret << ")");
  // the subgradient of least norm
  V s = gr;
  if (l1 > 0)
    for (size_t i = start; i < f.n; ++i) {
      if (x[i] > 0) s[i] += l1;
      else if (x[i] < 0) s[i] -= l1;
      else if (s[i] > l1) s[i] -= l1;
      else if (s[i] < -l1) s[i] += l1;
      else s[i] = 0;
    }
  PBT_CHECK(Norm(s) <= 1e-3 * max(1.0, Norm(x)), "status " << ret << " after " << f.evals << " evaluations, but the gradient at " << Show(x) << " is " << Show(s) << " (l1 " << l1 << ")");
  PBT_CHECK(ret >= 0, "status " << ret);
  c.count(l1 > 0 ? "l1" : "smooth");
  if (f.evals > 3) c.nontrivial();
  if (c.want()) c.desc() << f.n << " variables, l1 " << l1 << " from " << start << ", memory " << m << ", " << f.evals << " evaluations";
}

static void Batch(Gen& g, Ctx& c) {
  bool rprop = g.flip();
  F f = Make(g, rprop);
  V x(f.n), gr;
  for (size_t i = 0; i < f.n; ++i) x[i] = g.draw(3) ? g.real(-4, 4) : 0;
  V y = x;
  size_t m = 1 + g.draw(10);
  BatchOptimizer* a = rprop ? (BatchOptimizer*)new RPropOptimizer(f.n) : new LBFGSOptimizer(f.n, m);
  string state;
  bool persist = g.flip();
  size_t rounds = 0, cap = rprop ? 600 : 3000;
  Hush h;
  bool done = false;
  double best = INFINITY;
  try {
    for (; rounds < cap && !done; ++rounds) {
      double v = f.Value(x, &gr);
      best = min(best, v);
      a->Optimize(v, gr, &x);
      done = a->HasConverged();
      PBT_CHECK(a->EvaluationCount() == (int)rounds + 2, "evaluation count " << a->EvaluationCount() << " after " << rounds + 1);
      if (persist) {  // a run that is saved and loaded at every step
        BatchOptimizer* b = rprop ? (BatchOptimizer*)new RPropOptimizer(f.n) : new LBFGSOptimizer(f.n, m);
        if (rounds) { istringstream is(state); b->Load(&is); }
        b->Optimize(v, gr, &y);
        PBT_CHECK(b->HasConverged() == done, "the loaded optimizer converges at another time");
        ostringstream os;
        b->Save(&os);
        state = os.str();
        delete b;
        PBT_CHECK(x == y, "round " << rounds << ": a loaded optimizer goes to " << Show(y) << ", one that goes on to " << Show(x));
      }
    }
  } catch (const pbt::Violation&) {
    delete a;
    throw;
  } catch (const exception& e) {
    delete a;
    PBT_FAIL((rprop ? "rprop: " : "lbfgs: ") << e.what());
  }
  delete a;
  double v = f.Value(x, &gr);
  // the steps of RProp do not get smaller than 1e-6, so that it may never see a gradient small enough
  PBT_CHECK(done || (rprop && Norm(gr) < 1e-3), (rprop ? "rprop" : "lbfgs") << " does not converge in " << cap << " steps: gradient " << Show(gr) << " at " << Show(x));
  PBT_CHECK(Norm(gr) <= 1e-2 * max(1.0, Norm(x)), (rprop ? "rprop" : "lbfgs") << " has converged, but the gradient at " << Show(x) << " is " << Show(gr));
  // a point with a gradient that small is no further than that from the optimum
  PBT_CHECK(v <= best + Norm(gr) * Norm(gr) / (2 * f.l) + 1e-9 * (1 + fabs(best)), "a better point was left");
  c.count(rprop ? "rprop" : "lbfgs");
  if (rounds > 3) c.nontrivial();
  if (c.want()) c.desc() << (rprop ? "rprop " : "lbfgs ") << f.n << " variables, " << rounds << " rounds";
}

static void Online(Gen& g, Ctx& c) {
  static vector<int> ids;
  if (ids.empty())
    for (int i = 0; i < 8; ++i) { ostringstream o; o << "f" << i; ids.push_back(FD::Convert(o.str())); }
  const int max_feat = ids.back() + 1;
  size_t batch = 1 + g.draw(20);
  double eta0 = g.real(0.01, 1), C = g.draw(4) ? g.real(0, 3) : 0, alpha = g.real(0.05, 0.95);
  bool ex = g.flip();
  boost::shared_ptr<LearningRateSchedule> s;
  if (ex) s.reset(new ExponentialDecayLearningRate(batch, eta0, alpha));
  else s.reset(new StandardLearningRate(batch, eta0));
  vector<int> frozen;
  for (size_t i = 0; i < ids.size(); ++i) if (g.chance(1, 6)) frozen.push_back(ids[i]);
  CumulativeL1OnlineOptimizer o(s, batch, C, frozen);
  SparseVector<double> w;
  map<int, double> ref, q;  // weights and what each has been penalized so far
  for (size_t i = 0; i < ids.size(); ++i) {
    double v = g.flip() ? 0 : g.real(-1, 1);
    if (v) w.set_value(ids[i], v);
    ref[ids[i]] = v;
  }
  double u = 0;
  int k = 0;
  size_t steps = 1 + g.count(0, 30);
  for (size_t t = 0; t < steps; ++t) {
    if (g.chance(1, 10)) { o.ResetEpoch(); k = 0; u = 0; }
    SparseVector<double> gr;
    map<int, double> gm;
    for (size_t i = 0; i < ids.size(); ++i)
      if (g.flip()) { double v = g.real(-1, 1); gr.set_value(ids[i], v); gm[ids[i]] = v; }
    o.UpdateWeights(gr, max_feat, &w);
    ++k;
    double e = ex ? eta0 * pow(alpha, (double)k / batch) : eta0 / (1 + (double)k / batch);
    PBT_CHECK(Near(e, s->eta(k), 1e-9), "learning rate " << s->eta(k) << " at " << k << ", expected " << e);
    u += e * C / batch;
    for (size_t i = 0; i < ids.size(); ++i) {
      int id = ids[i];
      if (find(frozen.begin(), frozen.end(), id) != frozen.end()) continue;
      double z = ref[id] + e * gm[id], x = z;
      if (z > 0) x = max(0.0, z - (u + q[id]));
      else if (z < 0) x = min(0.0, z + (u - q[id]));
      q[id] += x - z;
      ref[id] = x;
    }
    for (size_t i = 0; i < ids.size(); ++i)
      PBT_CHECK(fabs(w.value(ids[i]) - ref[ids[i]]) < 1e-9, "step " << t << ": weight " << i << " is " << w.value(ids[i]) << ", expected " << ref[ids[i]]);
  }
  if (steps > 3) c.nontrivial();
  if (c.want()) c.desc() << steps << " steps, C " << C << (ex ? ", exponential" : ", standard") << ", " << frozen.size() << " frozen";
}

PBT_MAIN({"lbfgs", Lbfgs, 1}, {"batch", Batch, 1}, {"online", Online, 0.5})
