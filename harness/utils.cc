// The building blocks under everything else: vectors, log-space numbers,
// dictionaries, weights and their serializations, files and text helpers.
#include "pbt.hpp"
#include <zlib.h>
#include <algorithm>
#include <fstream>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include "b64featvector.h"
#include "b64tools.h"
#include "corpus_tools.h"
#include "dict.h"
#include "exp_semiring.h"
#include "fdict.h"
#include "filelib.h"
#include "m.h"
#include "prob.h"
#include "small_vector.h"
#include "sparse_vector.h"
#include "stringlib.h"
#include "tdict.h"
#include "verbose.h"
#include "weights.h"

using namespace std;
using pbt::Gen;
using pbt::Ctx;

static string Tmp(const char* suffix) {
  const char* t = getenv("TMPDIR");
  ostringstream o;
  o << (t ? t : "/tmp") << "/u" << getpid() << suffix;
  return o.str();
}
struct Unlink {
  string f;
  explicit Unlink(const string& n) : f(n) {}
  ~Unlink() { unlink(f.c_str()); }
};

// ---------------------------------------------------------------- sparse vectors
template <class T>
struct Model {
  FastSparseVector<T>* v;
  map<unsigned, T> m;
};

template <class T>
static void Same(const FastSparseVector<T>& v, const map<unsigned, T>& m, const char* what) {
  PBT_CHECK(v.size() == m.size(), what << ": " << v.size() << " elements, expected " << m.size());
  PBT_CHECK(v.empty() == m.empty(), what << ": empty()");
  map<unsigned, T> seen;
  for (typename FastSparseVector<T>::const_iterator i = v.begin(); i != v.end(); ++i)
    PBT_CHECK(seen.insert(make_pair((unsigned)i->first, i->second)).second, what << ": key " << i->first << " visited twice");
  PBT_CHECK(seen == m, what << ": the elements visited are not those expected");
  size_t nz = 0;
  for (typename map<unsigned, T>::const_iterator i = m.begin(); i != m.end(); ++i) {
    PBT_CHECK(v.value(i->first) == i->second && v.get(i->first) == i->second,
              what << ": value of " << i->first << " is " << v.value(i->first) << ", expected " << i->second);
    typename FastSparseVector<T>::const_iterator f = v.find(i->first);
    PBT_CHECK(f != v.end() && f->first == i->first && f->second == i->second, what << ": find " << i->first);
    PBT_CHECK(v.nonzero(i->first) == (i->second != 0), what << ": nonzero " << i->first);
    nz += i->second != 0;
  }
  PBT_CHECK(v.num_nonzero() == nz, what << ": num_nonzero");
}

template <class T>
static void SparseHistory(Gen& g, Ctx& c) {
  const unsigned nkeys = g.pick(vector<unsigned>{4, 10, 12, 20, 40});
  const unsigned scale = g.pick(vector<unsigned>{1, 1, 97, 1u << 20});
  vector<FastSparseVector<T>*> v;
  vector<map<unsigned, T> > m(3);
  for (int i = 0; i < 3; ++i) v.push_back(new FastSparseVector<T>());
  size_t steps = g.count(1, 60), maxsize = 0;
  if (g.chance(1, 3)) steps += 20;
  bool was_remote_then_small = false;
  for (size_t s = 0; s < steps; ++s) {
    const size_t a = g.draw(3), b = g.draw(3);
    const unsigned k = g.draw(nkeys) * scale;
    const T x = g.grid(64);
    switch (g.draw(24)) {
      case 0: case 1: case 2: v[a]->set_value(k, x); m[a][k] = x; break;
      case 3: case 4: { T& r = v[a]->add_value(k, x); m[a][k] += x; PBT_CHECK(r == m[a][k], "add_value returned " << r); break; }
      case 5: (*v[a])[k] = x; m[a][k] = x; break;
      case 6: (*v[a])[k]; m[a][k]; break;
      case 7: case 8: if (m[a].count(k)) { v[a]->erase(k); m[a].erase(k); c.count("erased"); }
              else { v[a]->erase(k); c.count("erased absent"); } break;
      case 9: *v[a] += *v[b]; { map<unsigned, T> o = m[b]; for (auto& p : o) m[a][p.first] += p.second; } break;
      case 10: if (a != b) { *v[a] -= *v[b]; for (auto& p : m[b]) m[a][p.first] -= p.second; } break;
      case 11: { const T f = g.grid(16); *v[a] *= f; for (auto& p : m[a]) p.second *= f; break; }
      case 12: { const T f = g.pick(vector<T>{(T)2, (T)-4, (T)0.5}); *v[a] /= f; for (auto& p : m[a]) p.second /= f; break; }
      case 13: *v[a] = *v[b]; m[a] = m[b]; break;
      case 14: v[a]->swap(*v[b]); if (a != b) m[a].swap(m[b]); break;
      case 15: v[a]->clear(); m[a].clear(); break;
      case 16: { FastSparseVector<T>* n = new FastSparseVector<T>(*v[b]); delete v[a]; v[a] = n; if (a != b) m[a] = m[b]; break; }
      case 17: {
        FastSparseVector<T> d = *v[a] + *v[b];
        map<unsigned, T> e = m[a];
        for (auto& p : m[b]) e[p.first] += p.second;
        Same(d, e, "sum");
        FastSparseVector<T> h = *v[a] - *v[b];
        e = m[a];
        for (auto& p : m[b]) e[p.first] -= p.second;
        Same(h, e, "difference");
        if (g.flip()) { *v[a] = h; m[a] = e; }
        break;
      }
      case 18: {
        const T f = g.grid(16);
        if (a == b) break;
        v[a]->plus_eq_v_times_s(*v[b], f);
        for (auto& p : m[b]) m[a][p.first] += p.second * f;
        break;
      }
      case 19: {
        T d = 0, n2 = 0;
        for (auto& p : m[a]) { n2 += p.second * p.second; auto q = m[b].find(p.first); if (q != m[b].end()) d += p.second * q->second; }
        PBT_CHECK(pbt::Near(v[a]->dot(*v[b]), d, 1e-5), "dot product " << v[a]->dot(*v[b]) << ", expected " << d);
        PBT_CHECK(pbt::Near(v[a]->l2norm_sq(), n2, 1e-5), "squared norm " << v[a]->l2norm_sq() << ", expected " << n2);
        PBT_CHECK(pbt::Near(v[a]->l2norm(), sqrt(n2), 1e-5), "norm");
        T l1 = 0;
        for (auto& p : m[a]) l1 += fabs(p.second);
        PBT_CHECK(pbt::Near(v[a]->pnorm(1), l1, 1e-5), "1-norm");
        break;
      }
      case 20: {
        // repeated addition: the same key again and again until it is stored differently
        const unsigned n = g.range(1, 20);
        for (unsigned i = 0; i < n; ++i) { v[a]->add_value((g.draw(nkeys)) * scale, 0); }
        for (typename FastSparseVector<T>::iterator i = v[a]->begin(); i != v[a]->end(); ++i)
          if (!m[a].count(i->first)) m[a][i->first] = 0;
        break;
      }
      case 21: {
        FastSparseVector<T> z = v[a]->erase_zeros((T)0.5);
        map<unsigned, T> e;
        for (auto& p : m[a]) if (fabs(p.second) > 0.5) e.insert(p);
        Same(z, e, "erase_zeros");
        if (g.flip()) { *v[a] = z; m[a] = e; }
        break;
      }
      case 22: {
        vector<pair<unsigned, T> > r(m[b].begin(), m[b].end());
        if (r.empty()) break;
        FastSparseVector<T> z(&r[0], &r[0] + r.size());
        Same(z, m[b], "built from a range");
        if (g.flip()) { *v[a] = z; map<unsigned, T> e = m[b]; m[a] = e; }
        break;
      }
      default: {
        PBT_CHECK((*v[a] == *v[b]) == (m[a] == m[b]) || m[a].size() == m[b].size(), "equality of " << a << " and " << b);
        bool eq = m[a].size() == m[b].size();
        if (eq) for (auto& p : m[a]) { auto q = m[b].find(p.first); if ((q == m[b].end() ? T() : q->second) != p.second) eq = false; }
        PBT_CHECK((*v[a] == *v[b]) == eq, "equality of " << a << " and " << b << ", expected " << eq);
        vector<T> dense;
        if (scale == 1) {
          v[a]->init_vector(dense);
          for (size_t i = 0; i < nkeys; ++i) {
            T e = m[a].count(i) ? m[a][i] : T();
            PBT_CHECK((i < dense.size() ? dense[i] : T()) == e, "dense copy at " << i);
          }
          T d = 0;
          for (auto& p : m[b]) if (p.first < dense.size()) d += p.second * dense[p.first];
          PBT_CHECK(pbt::Near(v[b]->dot(dense), d, 1e-5), "dot product with a dense vector");
        }
      }
    }
    for (int i = 0; i < 3; ++i) {
      Same(*v[i], m[i], "vector");
      if (m[i].size() > maxsize) maxsize = m[i].size();
      else if (m[i].size() < 7 && maxsize > 15) was_remote_then_small = true;
    }
  }
  for (int i = 0; i < 3; ++i) delete v[i];
  if (maxsize > 7) c.count("more than 7 elements");
  if (maxsize > 15) c.count("more than 15 elements");
  if (was_remote_then_small) c.count("grew and shrank");
  if (maxsize > 3) c.nontrivial();
  if (c.want()) c.desc() << steps << " operations on 3 vectors, up to " << maxsize << " elements";
}
static void SparseDouble(Gen& g, Ctx& c) { SparseHistory<double>(g, c); }
static void SparseFloat(Gen& g, Ctx& c) { SparseHistory<float>(g, c); }

// ---------------------------------------------------------------- small vectors
template <int N>
static void SmallHistory(Gen& g, Ctx& c) {
  typedef SmallVector<int, N> V;
  vector<V*> v;
  vector<vector<int> > m(3);
  for (int i = 0; i < 3; ++i) v.push_back(new V());
  const size_t steps = g.count(1, 80) + (g.chance(1, 3) ? 20 : 0);
  size_t maxsize = 0, shrunk = 0;
  for (size_t s = 0; s < steps; ++s) {
    const size_t a = g.draw(3), b = g.draw(3);
    const int x = (int)g.draw(9) - 4;
    const size_t before = m[a].size();
    switch (g.draw(18)) {
      case 0: case 1: case 2: case 3: v[a]->push_back(x); m[a].push_back(x); break;
      case 4: case 5: if (!m[a].empty()) { v[a]->pop_back(); m[a].pop_back(); } break;
      case 6: { size_t n = g.chance(1, 8) ? g.draw(400) : g.draw(12); v[a]->resize(n, x); m[a].resize(n, x); break; }
      case 7: if (!m[a].empty()) {
                size_t i = g.draw(m[a].size());
                int* r = v[a]->erase(v[a]->begin() + i);
                m[a].erase(m[a].begin() + i);
                PBT_CHECK(r == v[a]->begin() + i, "erase returned another position");
              } break;
      case 8: { size_t i = g.draw(m[a].size() + 1), j = i + g.draw(m[a].size() - i + 1);
                int* r = v[a]->erase(v[a]->begin() + i, v[a]->begin() + j);
                m[a].erase(m[a].begin() + i, m[a].begin() + j);
                PBT_CHECK(r == v[a]->begin() + i, "erase of a range returned another position"); break; }
      case 9: *v[a] = *v[b]; m[a] = m[b]; break;
      case 10: { V* n = new V(*v[b]); delete v[a]; v[a] = n; if (a != b) m[a] = m[b]; break; }
      case 11: v[a]->swap(*v[b]); if (a != b) m[a].swap(m[b]); break;
      case 12: v[a]->clear(); m[a].clear(); break;
      case 13: { size_t n = g.draw(m[a].size() + 1); v[a]->compact(n); m[a].resize(n); break; }
      case 14: { size_t n = g.draw(10); delete v[a]; v[a] = new V(n, x); m[a].assign(n, x); break; }
      case 15: { delete v[a]; const int* p = m[b].empty() ? NULL : &m[b][0];
                 v[a] = new V(p, p + m[b].size()); if (a != b) m[a] = m[b];
                 break; }
      case 16: if (!m[a].empty()) { size_t i = g.draw(m[a].size()); (*v[a])[i] = x; m[a][i] = x; } break;
      default: {
        ostringstream o;
        { boost::archive::text_oarchive ar(o); const V& cv = *v[a]; ar << cv; }
        istringstream in(o.str());
        V n;
        { boost::archive::text_iarchive ar(in); ar >> n; }
        PBT_CHECK(n == *v[a], "a vector read back differs from the one written");
        *v[b] = n;
        m[b] = m[a];
      }
    }
    if (m[a].size() < before && before > N && m[a].size() <= N) ++shrunk;
    for (int i = 0; i < 3; ++i) {
      const V& cv = *v[i];
      PBT_CHECK(cv.size() == m[i].size() && cv.empty() == m[i].empty(), "size " << cv.size() << ", expected " << m[i].size());
      PBT_CHECK((size_t)(cv.end() - cv.begin()) == m[i].size(), "begin() and end() enclose " << (cv.end() - cv.begin()));
      for (size_t k = 0; k < m[i].size(); ++k)
        PBT_CHECK(cv[k] == m[i][k] && cv.begin()[k] == m[i][k], "element " << k << " is " << cv[k] << ", expected " << m[i][k]);
      if (!m[i].empty()) PBT_CHECK(cv.back() == m[i].back() && cv.front() == m[i].front(), "front or back");
      maxsize = max(maxsize, m[i].size());
      for (int j = 0; j < 3; ++j) {
        PBT_CHECK((*v[i] == *v[j]) == (m[i] == m[j]) && (*v[i] != *v[j]) == (m[i] != m[j]), "equality of " << i << " and " << j);
        if (m[i] == m[j]) PBT_CHECK(hash_value(*v[i]) == hash_value(*v[j]), "equal vectors with different hashes");
      }
    }
  }
  for (int i = 0; i < 3; ++i) delete v[i];
  if (maxsize > N) c.nontrivial();
  if (shrunk) c.count("went back to inline storage");
  if (c.want()) c.desc() << steps << " operations, up to " << maxsize << " elements, shrunk to inline " << shrunk << " times";
}
static void Small2(Gen& g, Ctx& c) { SmallHistory<2>(g, c); }
static void Small4(Gen& g, Ctx& c) { SmallHistory<4>(g, c); }
static void Small1(Gen& g, Ctx& c) { SmallHistory<1>(g, c); }

// ---------------------------------------------------------------- log-space numbers
static bool Close(long double a, double b, long double scale) {
  return fabsl(a - b) <= 1e-9L * (scale + fabsl(a) + fabsl(b));
}
static double Signed(Gen& g) {
  switch (g.draw(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return -1;
    case 3: return g.grid(80);
    case 4: return -exp(g.real(-30, 30));
    case 5: return exp(g.real(-30, 30));
    default: return g.real(-10, 10);
  }
}

static void LogValues(Gen& g, Ctx& c) {
  const bool nonneg = g.chance(1, 3);
  const size_t n = g.range(1, 12);
  long double ref = Signed(g), scale;
  if (nonneg) ref = fabsl(ref);
  prob_t x((double)ref);
  bool cancelled = false;
  if (c.want()) c.desc() << (double)ref;
  for (size_t i = 0; i < n; ++i) {
    double d = Signed(g);
    if (nonneg) d = fabs(d);
    if (g.chance(1, 8)) d = -(double)ref;
    if (nonneg && d < 0) d = -d;
    prob_t y(d);
    scale = fabsl(ref) + fabsl((long double)d);
    long double r;
    const char* op;
    prob_t z;
    switch (g.draw(nonneg ? 2 : 4)) {
      case 0: r = ref + d; z = x + y; op = "+"; { prob_t w = x; w += y; PBT_CHECK(w == z, "+= and + differ"); } break;
      case 1: r = ref * d; scale = 0; z = x * y; op = "*"; break;
      case 2: r = ref - d; z = x - y; op = "-"; { prob_t w = x; w -= y; PBT_CHECK(w == z, "-= and - differ"); } break;
      default: if (d == 0) continue; r = ref / d; scale = 0; z = x / y; op = "/"; break;
    }
    if (c.want()) c.desc() << ' ' << op << ' ' << d;
    PBT_CHECK(Close(r, z.as_float(), scale), "in log space " << (double)ref << ' ' << op << ' ' << d << " gives " << z.as_float());
    if (fabsl(r) < 1e-6L * scale) cancelled = true;
    // continue from the rounded value: errors of the number itself, not of the operation, do not pile up
    x = z;
    ref = z.as_float();
    if (fabsl(ref) > 1e100L || (ref != 0 && fabsl(ref) < 1e-100L)) break;
  }
  if (cancelled) c.count("cancellation");
  // order, equality, sign, powers
  double a = Signed(g), b = g.chance(1, 4) ? a : Signed(g);
  prob_t A(a), B(b);
  PBT_CHECK((A < B) == (a < b), "order: " << a << " < " << b << " is " << (A < B));
  PBT_CHECK((A > B) == (a > b), "order: " << a << " > " << b << " is " << (A > B));
  PBT_CHECK((A <= B) == (a <= b) && (A >= B) == (a >= b), "order with equality of " << a << " and " << b);
  PBT_CHECK((A == B) == (a == b) && (A != B) == (a != b), "equality of " << a << " and " << b);
  PBT_CHECK(Close(-(long double)a, (-A).as_float(), 0), "negation of " << a);
  PBT_CHECK(Close(fabsl((long double)a), abs(A).as_float(), 0), "absolute value of " << a);
  if (a > 0) {
    PBT_CHECK(Close(logl(a), log(A), 0), "logarithm of " << a);
    double e = g.real(-3, 3);
    PBT_CHECK(pbt::Near(powl(a, e), pow(A, e).as_float(), 1e-9), "power " << e << " of " << a);
  }
  if (a != 0) PBT_CHECK(Close(1.0L / a, A.inverse().as_float(), 0), "inverse of " << a);
  PBT_CHECK(prob_t::One().as_float() == 1 && prob_t::Zero().as_float() == 0 && prob_t::Zero().is_0() && prob_t::One().is_1(),
            "the constants");
  // far outside the range of doubles
  const double u = g.real(-5000, 5000), w = g.real(-5000, 5000);
  prob_t U = prob_t::exp(u), W = prob_t::exp(w);
  const double m = max(u, w), l = m + log1p(exp(-fabs(u - w)));
  PBT_CHECK(pbt::Near(log(U * W), u + w, 1e-12) && pbt::Near(log(U / W), u - w, 1e-12), "product of exp(" << u << ") and exp(" << w << ")");
  PBT_CHECK(pbt::Near(log(U + W), l, 1e-12), "sum of exp(" << u << ") and exp(" << w << "): " << log(U + W) << ", expected " << l);
  // with signs: the larger one decides the sign, the magnitudes add up or cancel
  {
    const bool su = g.flip(), sw = g.flip();
    const double w2 = g.chance(1, 3) ? u + g.real(-2, 2) : w;
    const prob_t P = su ? -prob_t::exp(u) : prob_t::exp(u), Q = sw ? -prob_t::exp(w2) : prob_t::exp(w2);
    const bool minus = g.flip(), sq = minus ? !sw : sw;
    const prob_t R = minus ? P - Q : P + Q;
    const double mm = max(u, w2), dd = fabs(u - w2);
    if (u != w2 || su == sq) {
      const double mag = mm + (su == sq ? log1p(exp(-dd)) : log1p(-exp(-dd)));
      PBT_CHECK(signbit(R) == (u > w2 ? su : sq), "sign of a sum of exp(" << u << ") and exp(" << w2 << "), negative: " << su << ' ' << sq);
      PBT_CHECK(fabs(log(abs(R)) - mag) <= 1e-9 * (1 + fabs(mag)) + (dd < 1e-3 ? 1e-3 : 0), "magnitude of a sum of exp(" << u << ") and exp(" << w2 << "), negative: " << su << ' ' << sq << ": " << log(abs(R)) << ", expected " << mag);
    }
    const prob_t X = P * Q, Y = P / Q;
    PBT_CHECK(signbit(X) == (su != sw) && signbit(Y) == (su != sw), "sign of a product or quotient");
    PBT_CHECK(pbt::Near(log(abs(X)), u + w2, 1e-12) && pbt::Near(log(abs(Y)), u - w2, 1e-12), "magnitude of a product or quotient");
    const bool less = su != sw ? su : su ? w2 < u : u < w2;
    PBT_CHECK((P < Q) == less && P.lt(Q) == less, "order of exp(" << u << ") and exp(" << w2 << "), negative: " << su << ' ' << sw);
    const bool more = su != sw ? sw : su ? u < w2 : w2 < u;
    PBT_CHECK((P > Q) == more && P.gt(Q) == more, "reverse order of exp(" << u << ") and exp(" << w2 << "), negative: " << su << ' ' << sw);
    PBT_CHECK(signbit(P.inverse()) == su && log(abs(P.inverse())) == -u, "inverse of a signed number");
    const double e = g.real(0.5, 6);
    PBT_CHECK(pbt::Near(log(prob_t::exp(u).root(e)), u / e, 1e-12), "root " << e << " of exp(" << u << ")");
  }
  c.nontrivial();
}

// (p, r) pairs: first-order expectation semiring, checked as value and derivative
typedef PRPair<prob_t, prob_t> PR;
static void Expectation(Gen& g, Ctx& c) {
  // a random product of sums over weighted items with a value each
  const size_t n = g.range(1, 8);
  PR total(1.0);
  double deriv = 0, value = 1;
  for (size_t i = 0; i < n; ++i) {
    PR s(0.0);
    double p = 0, r = 0;
    for (size_t j = g.range(1, 4); j > 0; --j) {
      const double pj = g.real(0.01, 2), x = g.grid(16);
      const PR item(prob_t(pj), prob_t(pj * x));
      if (g.flip()) s += item; else s = item + s;
      p += pj;
      r += pj * x;
    }
    deriv = deriv * p + value * r;
    value *= p;
    if (g.flip()) total *= s; else total = s * total;
  }
  PBT_CHECK(pbt::Near(total.p.as_float(), value), "total weight " << total.p.as_float() << ", expected " << value);
  PBT_CHECK(pbt::Near(total.r.as_float(), deriv, 1e-8), "expected value " << total.r.as_float() << ", reference " << deriv);
  if (n > 1) c.nontrivial();
  if (c.want()) c.desc() << n << " factors, total " << value << ", expected value " << deriv;
}

// distributions add up to one and agree with their definitions
static void Densities(Gen& g, Ctx& c) {
  long double s = 0;
  switch (g.draw(6)) {
    case 0: { double l = g.real(0.05, 20); for (unsigned i = 0; i < 300; ++i) s += expl(Md::log_poisson(i, l)); break; }
    case 1: { double p = g.real(0.05, 0.95); for (unsigned i = 0; i < 2000; ++i) s += expl(Md::log_geometric(i, p)); break; }
    case 2: { double p = g.real(0.05, 0.9); unsigned r = g.range(1, 9); for (unsigned i = 0; i < 2000; ++i) s += expl(Md::log_negative_binom(i, r, p)); break; }
    case 3: {
      unsigned n = g.draw(30);
      long double b = 1;
      for (unsigned k = 0; k <= n; ++k) {
        PBT_CHECK(pbt::Near(expl(Md::log_binom_coeff(n, k)), b, 1e-8), "binomial coefficient " << n << " over " << k);
        b = b * (n - k) / (k + 1);
      }
      s = 1;
      break;
    }
    case 4: {
      double x = g.real(0.1, 20), y = g.pick(vector<double>{0, 0.5, 1, 2});
      unsigned n = g.range(1, 12);
      long double p = 1;
      for (unsigned i = 0; i < n; ++i) p *= x + i * y;
      PBT_CHECK(pbt::Near(Md::log_generalized_factorial(x, n, y), logl(p), 1e-8), "rising factorial of " << x << ", " << n << " steps of " << y);
      s = 1;
      break;
    }
    default: {
      double x = g.real(0.2, 30), h = 1e-5;
      PBT_CHECK(pbt::Near(Md::digamma(x), (lgamma(x + h) - lgamma(x - h)) / (2 * h), 1e-5), "derivative of the log gamma function at " << x);
      s = 1;
    }
  }
  PBT_CHECK(fabsl(s - 1) < 1e-6L, "probabilities add up to " << (double)s);
  c.nontrivial();
  if (c.want()) c.desc() << "total " << (double)s;
}

// ---------------------------------------------------------------- dictionaries and tokens
static string Word(Gen& g, bool plain) {
  static const char* kW[] = {"a", "b", "the", "x", "|||", "[X,1]", "\xc3\xa9t\xc3\xa9", "=", "a=b", "#", "<s>", "1.5", "%41", "+", "\"", "Z_", "a:b;c", "\r", "_"};
  string w = g.chance(2, 3) ? kW[g.draw(plain ? 5 : sizeof kW / sizeof *kW)] : "";
  for (size_t k = g.count(w.empty() ? 1 : 0, 6); k > 0; --k) w += plain ? (char)('a' + g.draw(26)) : (char)(33 + g.draw(94));
  if (g.chance(1, 40)) w += string(g.range(100, 300), 'q');
  return w;
}

static void Dictionary(Gen& g, Ctx& c) {
  Dict d;
  vector<string> order;
  map<string, int> ids;
  const size_t n = g.count(1, 80);
  for (size_t i = 0; i < n; ++i) {
    const string w = (!order.empty() && g.chance(1, 3)) ? order[g.draw(order.size())] : Word(g, g.flip());
    const bool frozen = g.chance(1, 6);
    const int id = d.Convert(w, frozen);
    if (ids.count(w)) PBT_CHECK(id == ids[w], "word " << w << " was " << ids[w] << ", now " << id);
    else if (frozen) PBT_CHECK(id == 0, "unknown word got id " << id << " from a frozen dictionary");
    else {
      order.push_back(w);
      ids[w] = order.size();
      PBT_CHECK(id == (int)order.size(), "new word got id " << id << ", expected " << order.size());
    }
    PBT_CHECK(d.max() == (int)order.size(), "size of the dictionary");
  }
  for (size_t i = 0; i < order.size(); ++i)
    PBT_CHECK(d.Convert((WordID)(i + 1)) == order[i] && d.Convert(order[i]) == (int)i + 1, "word " << order[i] << " is not found again");
  // lines
  string line;
  vector<string> toks;
  const size_t k = g.count(0, 12);
  static const char* kSep[] = {" ", "\t", "  ", " \t "};
  if (g.flip()) line += kSep[g.draw(4)];
  for (size_t i = 0; i < k; ++i) {
    toks.push_back(Word(g, g.flip()));
    line += toks.back();
    if (i + 1 < k || g.flip()) line += kSep[g.draw(4)];
  }
  vector<int> out(3, 7);
  d.ConvertWhitespaceDelimitedLine(line, &out);
  PBT_CHECK(out.size() == toks.size(), "line of " << toks.size() << " words split into " << out.size());
  for (size_t i = 0; i < toks.size(); ++i) PBT_CHECK(d.Convert(out[i]) == toks[i], "word " << i << " of a line is " << d.Convert(out[i]));
  vector<WordID> td(2, 5);
  TD::ConvertSentence(line, &td);
  PBT_CHECK(td.size() == toks.size(), "sentence of " << toks.size() << " words split into " << td.size());
  string joined;
  for (size_t i = 0; i < toks.size(); ++i) {
    PBT_CHECK(TD::Convert(td[i]) == toks[i], "word " << i << " of a sentence is " << TD::Convert(td[i]));
    joined += (i ? " " : "") + toks[i];
  }
  PBT_CHECK(TD::GetString(td) == joined, "sentence printed as " << TD::GetString(td));
  if (!td.empty()) PBT_CHECK(TD::GetString(&td[0], &td[0] + td.size()) == joined, "range of words printed differently");
  vector<WordID> td2;
  TD::GetWordIDs(toks, &td2);
  PBT_CHECK(td2 == td, "ids of words differ from ids of the sentence");
  PBT_CHECK(SplitOnWhitespace(line) == toks, "splitting on white space");
  vector<string> t2;
  Tokenize(joined, ' ', &t2);
  PBT_CHECK(t2 == toks, "splitting at a delimiter");
  PBT_CHECK(NTokens(joined, ' ') == toks.size(), "number of tokens");
  {
    unsigned start = g.draw(line.size() + 1);
    if (!line.empty() && start < line.size()) {
      vector<WordID> td3;
      TD::ConvertSentence(line, &td3, start);
      PBT_CHECK(TD::GetString(td3) == TD::GetString([&] { vector<WordID> r; for (auto& s : SplitOnWhitespace(line.substr(start))) r.push_back(TD::Convert(s)); return r; }()),
                "a sentence read from position " << start);
    }
  }
  // joined entries
  vector<string> parts;
  for (size_t i = g.range(1, 4); i > 0; --i) { string w = Word(g, true); if (w.find("|||") == string::npos) parts.push_back(w); }
  if (!parts.empty()) {
    vector<string> back;
    d.AsVector(d.Convert(parts), &back);
    PBT_CHECK(back == parts, "parts of an entry");
  }
  string cmd, param;
  SplitCommandAndParam(line, &cmd, &param);
  string ep;
  for (size_t i = 1; i < toks.size(); ++i) ep += (i > 1 ? " " : "") + toks[i];
  PBT_CHECK(cmd == (toks.empty() ? "" : toks[0]) && param == ep, "command and parameters");
  if (k > 1) c.nontrivial();
  if (c.want()) c.desc() << order.size() << " words; line '" << line.substr(0, 100) << "'";
}

// ---------------------------------------------------------------- weights
static string FeatName(Gen& g) {
  static const char* kF[] = {"LanguageModel", "WordPenalty", "PhraseModel_0", "PhraseModel_1", "Glue", "F:a:b", "Id:\xc3\xa9", "A", "B_1", "x#y", "|||", "1", "-3.5", "R%20", "_PHW", "_ph"};
  string f = g.chance(3, 4) ? kF[g.draw(16)] : "";
  for (size_t k = g.count(f.empty() ? 1 : 0, 5); k > 0; --k) f += (char)('A' + g.draw(26));
  if (g.chance(1, 12)) f += string(g.range(20, 254 - (int)f.size()), 'L');
  if (f[0] == '#') f[0] = 'H';
  return f;
}
static double WVal(Gen& g) {
  switch (g.draw(6)) {
    case 0: return 0;
    case 1: return g.grid(40);
    case 2: return g.real(-1, 1) * 1e-300;
    case 3: return g.real(-1, 1) * 1e300;
    case 4: return -0.0001234567890123456789;
    default: return g.real(-10, 10);
  }
}

static void WeightsFile(Gen& g, Ctx& c) {
  SetSilent(true);
  FD::dict_.clear();
  vector<double> w(1, 0.0);
  const size_t n = g.count(1, 30);
  map<string, double> m;
  for (size_t i = 0; i < n; ++i) {
    const string f = FeatName(g);
    const int id = FD::Convert(f);
    const double v = WVal(g);
    if ((int)w.size() <= id) w.resize(id + 1);
    w[id] = v;
    m[f] = v;
  }
  if (g.chance(1, 4)) FD::Convert(FeatName(g));  // a feature without a weight
  const bool hide = g.flip(), gz = g.chance(1, 3);
  const string file = Tmp(gz ? ".w.gz" : ".w");
  Unlink ul(file);
  string extra = "comment a=b";
  Weights::WriteToFile(file, w, hide, g.flip() ? &extra : NULL);
  vector<string> names(FD::NumFeats());
  for (int i = 1; i < FD::NumFeats(); ++i) names[i] = FD::Convert(i);
  string str = FD::NumFeats() > 1 ? "" : "";
  bool any = false;
  for (int i = 1; i < FD::NumFeats(); ++i) any = any || !hide || (i < (int)w.size() && w[i] != 0);
  if (any) str = Weights::GetString(w, hide);
  // read into another dictionary
  const bool fresh = g.flip();
  if (fresh) FD::dict_.clear();
  if (fresh && g.flip()) FD::Convert("Another");
  vector<double> r;
  vector<string> list;
  Weights::InitFromFile(file, &r, &list);
  size_t expected = 0;
  for (size_t i = 1; i < names.size(); ++i) {
    const double v = i < w.size() ? w[i] : 0;
    const int id = FD::Convert(names[i]);
    const double got = id < (int)r.size() ? r[id] : 0;
    PBT_CHECK(got == v, "weight of " << names[i] << " written as " << v << ", read as " << got);
    if (!hide || v != 0) ++expected;
  }
  PBT_CHECK(list.size() == expected, "list of " << list.size() << " features, expected " << expected);
  SparseVector<double> sv;
  Weights::InitSparseVector(w, &sv);
  for (size_t i = 1; i < w.size(); ++i) PBT_CHECK(sv.value(i) == w[i], "sparse copy of the weights");
  for (SparseVector<double>::iterator i = sv.begin(); i != sv.end(); ++i) PBT_CHECK(i->second != 0, "zero in the sparse copy");
  // the one-line form
  if (any) {
    bool eq = false;
    for (size_t i = 1; i < names.size(); ++i) eq = eq || names[i].find('=') != string::npos;
    // weights there before stay unless the line names them, and the vector grows as needed
    vector<double> u(g.flip() ? FD::NumFeats() + names.size() : g.count(0, FD::NumFeats()), 0.25);
    const size_t before = u.size();
    Weights::UpdateFromString(str, u);
    PBT_CHECK(u.size() >= before, "updating the weights shrank them");
    if (u.size() < FD::NumFeats() + names.size()) u.resize(FD::NumFeats() + names.size(), before ? 0.25 : 0.0);
    if (!eq)
      for (size_t i = 1; i < names.size(); ++i) {
        const double v = i < w.size() ? w[i] : 0;
        const size_t id = FD::Convert(names[i]);
        if (hide && v == 0 && id >= before) continue;  // not named, not there before
        PBT_CHECK(u[id] == (hide && v == 0 ? 0.25 : v), "weight of " << names[i] << " in one line");
      }
  }
  if (n > 1) c.nontrivial();
  if (c.want()) c.desc() << n << " weights, hide=" << hide << " gz=" << gz;
}

// weights files as people write them
static void WeightsText(Gen& g, Ctx& c) {
  SetSilent(true);
  FD::dict_.clear();
  map<string, double> m;
  string text;
  const size_t n = g.count(0, 12);
  size_t lines = 0;
  for (size_t i = 0; i < n; ++i) {
    switch (g.draw(8)) {
      case 0: text += "# " + FeatName(g) + " 3\n"; break;
      case 1: text += "\n"; break;
      default: {
        const string f = FeatName(g);
        const double v = g.grid(80);
        static const char* kSep[] = {" ", "=", "\t", "  ", " = "};
        const size_t s = g.draw(4);
        ostringstream o;
        o.precision(17);
        o << f << kSep[s] << v;
        if (g.chance(1, 4)) o << ' ';
        text += o.str();
        if (i + 1 < n || g.flip()) text += "\n";
        m[f] = v;
        ++lines;
      }
    }
  }
  const string file = Tmp(".wt");
  Unlink ul(file);
  { ofstream o(file.c_str()); o << text; }
  vector<double> r;
  vector<string> list;
  Weights::InitFromFile(file, &r, g.flip() ? &list : NULL);
  for (auto& p : m) {
    const int id = FD::Convert(p.first);
    PBT_CHECK(id < (int)r.size() && r[id] == p.second, "weight of " << p.first << " is " << (id < (int)r.size() ? r[id] : NAN) << ", the file says " << p.second);
  }
  size_t nz = 0;
  for (size_t i = 0; i < r.size(); ++i) if (r[i] != 0) ++nz;
  size_t ez = 0;
  for (auto& p : m) if (p.second != 0) ++ez;
  PBT_CHECK(nz == ez, "weights for " << nz << " features, the file has " << ez);
  if (lines > 1) c.nontrivial();
  if (c.want()) c.desc() << text.substr(0, 200);
}

static void VectorCodecs(Gen& g, Ctx& c) {
  FD::dict_.clear();
  SparseVector<double> v;
  map<string, double> m;
  size_t longest = 0;
  for (size_t k = g.count(0, 30); k > 0; --k) {
    const string f = FeatName(g);
    const double x = WVal(g);
    v.set_value(FD::Convert(f), x);
    m[f] = x;
    longest = max(longest, f.size());
  }
  const double obj = g.real(-1000, 1000);
  ostringstream o;
  B64::Encode(obj, v, &o);
  const string s = o.str();
  ostringstream o2;
  { boost::archive::binary_oarchive ar(o2); const SparseVector<double>& cv = v; ar << cv; }
  const string f2 = EncodeFeatureVector(v);
  const bool fresh = g.flip();
  if (fresh) { FD::dict_.clear(); FD::Convert("Other"); }
  double obj2 = 0;
  SparseVector<double> r;
  r.set_value(FD::Convert("Stale"), 3);
  PBT_CHECK(B64::Decode(&obj2, &r, s.data(), s.size()), "an encoded vector was refused");
  PBT_CHECK(obj2 == obj, "objective " << obj << " read as " << obj2);
  PBT_CHECK(r.size() == m.size(), "vector of " << m.size() << " features read with " << r.size());
  for (auto& p : m) PBT_CHECK(r.value(FD::Convert(p.first)) == p.second, "feature " << p.first << " read as " << r.value(FD::Convert(p.first)));
  SparseVector<double> b;
  { istringstream in(o2.str()); boost::archive::binary_iarchive ar(in); ar >> b; }
  PBT_CHECK(b.size() == m.size(), "archived vector of " << m.size() << " features read with " << b.size());
  for (auto& p : m) PBT_CHECK(b.value(FD::Convert(p.first)) == p.second, "archived feature " << p.first);
  SparseVector<double> d;
  DecodeFeatureVector(f2, &d);
  size_t nz = 0;
  for (auto& p : m) {
    PBT_CHECK(d.value(FD::Convert(p.first)) == p.second, "feature " << p.first << " of an update read as " << d.value(FD::Convert(p.first)));
    nz += p.second != 0;
  }
  PBT_CHECK(d.size() == nz, "update with " << nz << " features read with " << d.size());
  // bytes
  string raw(g.count(0, 60), 0);
  for (size_t i = 0; i < raw.size(); ++i) raw[i] = (char)g.draw(256);
  ostringstream ob;
  B64::b64encode(raw.data(), raw.size(), &ob);
  string enc = ob.str();
  PBT_CHECK(enc.size() % 4 == 0 && enc.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=") == string::npos,
            "encoded as " << enc);
  string dec(enc.size() / 4 * 3 + 1, 'x');
  PBT_CHECK(enc.empty() || B64::b64decode((const unsigned char*)enc.data(), enc.size(), &dec[0], dec.size()), "encoded bytes refused");
  PBT_CHECK(dec.compare(0, raw.size(), raw) == 0, "bytes read back differ");
  // damage: a wrong length or a character outside the alphabet is refused
  if (g.flip() && s.size() > 8) {
    string bad = s;
    if (g.flip()) bad.resize(bad.size() - g.range(1, 3));
    else bad[g.draw(bad.size())] = g.pick(vector<char>{'*', ' ', '\n', '~', '\x80'});
    double ob2;
    SparseVector<double> rb;
    streambuf* old = cerr.rdbuf(NULL);
    bool ok = B64::Decode(&ob2, &rb, bad.data(), bad.size());
    cerr.rdbuf(old);
    PBT_CHECK(!ok, "a damaged vector was accepted");
    c.count("damaged");
  }
  if (longest > 127) c.count("name longer than 127 bytes");
  if (m.size() > 1) c.nontrivial();
  if (c.want()) c.desc() << m.size() << " features, longest name " << longest;
}

// ---------------------------------------------------------------- files
static string Content(Gen& g, bool text) {
  string s;
  if (g.chance(1, 6)) {
    // around the size of the compressed stream's buffer
    const size_t n = 262144 + 47 + g.range(-60, 60) - (g.flip() ? 0 : 47);
    s.resize(n * g.range(1, 2));
    uint64_t x = g.draw(0);
    const unsigned alpha = g.pick(vector<unsigned>{2, 30, 200});
    for (size_t i = 0; i < s.size(); ++i) { x = pbt::Mix(x); s[i] = text ? (char)(x % 40 == 0 ? '\n' : 'a' + x % min(alpha, 26u)) : (char)(x % alpha); }
  } else {
    s.resize(g.count(0, 200));
    for (size_t i = 0; i < s.size(); ++i) s[i] = text ? (g.chance(1, 10) ? '\n' : (char)('a' + g.draw(5))) : (char)g.draw(255);
  }
  return s;
}

static string Slurp(const string& f) {
  ifstream in(f.c_str(), ios::binary);
  ostringstream o;
  if (in.peek() != EOF) o << in.rdbuf();
  return o.str();
}

static void Files(Gen& g, Ctx& c) {
  const bool gz = g.chance(2, 3);
  const string file = Tmp(gz ? ".f.gz" : ".f"), copy = Tmp(".c");
  Unlink u1(file), u2(copy);
  const string s = Content(g, true);
  {
    WriteFile w(file);
    size_t at = 0;
    while (at < s.size()) {
      size_t n = min(s.size() - at, (size_t)(g.chance(1, 3) ? g.range(1, 400000) : g.range(1, 5000)));
      if (g.flip()) w->write(s.data() + at, n);
      else *w << s.substr(at, n);
      at += n;
      if (g.chance(1, 8)) *w << flush;
    }
  }
  if (gz) {
    gzFile z = gzopen(file.c_str(), "rb");
    string r;
    char buf[8192];
    int n;
    while ((n = gzread(z, buf, sizeof buf)) > 0) r.append(buf, n);
    gzclose(z);
    PBT_CHECK(r == s, "compressed file of " << s.size() << " bytes unpacks to " << r.size() << " bytes or others");
  } else {
    PBT_CHECK(Slurp(file) == s, "file of " << s.size() << " bytes written differently");
  }
  // read: by lines, by blocks, byte by byte, mixed
  if (gz && g.flip()) {
    // written by someone else, in several members
    gzFile z = gzopen(file.c_str(), "wb");
    const size_t cut = g.draw(s.size() + 1);
    gzwrite(z, s.data(), cut);
    gzclose(z);
    z = gzopen(file.c_str(), "ab");
    gzwrite(z, s.data() + cut, s.size() - cut);
    gzclose(z);
    c.count("several members");
  }
  ReadFile rf(file);
  istream& in = *rf.stream();
  string r;
  switch (g.draw(4)) {
    case 0: {
      string line;
      while (getline(in, line)) { r += line; if (!in.eof()) r += '\n'; }
      break;
    }
    case 1: {
      vector<char> buf(300000);
      for (;;) {
        size_t n = g.chance(1, 4) ? g.range(1, 300000) : g.range(1, 3000);
        in.read(&buf[0], n);
        r.append(&buf[0], in.gcount());
        if (!in) break;
      }
      break;
    }
    case 2: {
      int ch;
      while ((ch = in.get()) != EOF) {
        r += (char)ch;
        if (r.size() % 777 == 1) { in.putback((char)ch); r.resize(r.size() - 1); ch = in.get(); r += (char)ch; }
      }
      break;
    }
    default: { ostringstream o; if (in.peek() != EOF) o << in.rdbuf(); r = o.str(); }
  }
  PBT_CHECK(r == s, (gz ? "compressed" : "plain") << " file of " << s.size() << " bytes read back with " << r.size() << " bytes or others");
  PBT_CHECK(FileExists(file) && !FileExists(file + "x"), "existence of files");
  { ofstream of(copy.c_str(), ios::binary); if (!s.empty()) CopyFile(file, of); }
  PBT_CHECK(Slurp(copy) == s, "copy of a file differs");
  if (s.size() > 10) c.nontrivial();
  if (s.size() > 200000) c.count("larger than the buffer");
  if (c.want()) c.desc() << s.size() << " bytes, gz=" << gz;
}

// ---------------------------------------------------------------- text
// an MD5 of our own, from RFC 1321: constants are computed from their definition
static string Md5(const string& in) {
  static uint32_t K[64];
  static const int S[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}};
  if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = (uint32_t)floorl(fabsl(sinl(i + 1)) * 4294967296.0L);
  string m = in + '\x80';
  while (m.size() % 64 != 56) m += '\0';
  uint64_t bits = (uint64_t)in.size() * 8;
  for (int i = 0; i < 8; ++i) m += (char)(bits >> (8 * i));
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[16], A = h[0], B = h[1], C = h[2], D = h[3];
    for (int i = 0; i < 16; ++i) { w[i] = 0; for (int j = 0; j < 4; ++j) w[i] |= (uint32_t)(unsigned char)m[o + 4 * i + j] << (8 * j); }
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int k;
      if (i < 16) { f = (B & C) | (~B & D); k = i; }
      else if (i < 32) { f = (D & B) | (~D & C); k = (5 * i + 1) % 16; }
      else if (i < 48) { f = B ^ C ^ D; k = (3 * i + 5) % 16; }
      else { f = C ^ (B | ~D); k = (7 * i) % 16; }
      uint32_t t = A + f + K[i] + w[k], s = S[i / 16][i % 4];
      A = D; D = C; C = B;
      B += (t << s) | (t >> (32 - s));
    }
    h[0] += A; h[1] += B; h[2] += C; h[3] += D;
  }
  string r;
  char b[3];
  for (int i = 0; i < 16; ++i) { snprintf(b, 3, "%02x", (h[i / 4] >> (8 * (i % 4))) & 255); r += b; }
  return r;
}

static void Text(Gen& g, Ctx& c) {
  string s(g.chance(1, 3) ? g.range(50, 70) + 64 * g.draw(3) : g.count(0, 40), 0);
  for (size_t i = 0; i < s.size(); ++i) s[i] = (char)g.draw(256);
  PBT_CHECK(md5(s) == Md5(s), "digest of " << s.size() << " bytes");
  // <seg> lines
  map<string, string> meta, out;
  static const char* kN[] = {"id", "grammar", "g0", "genre", "x"};
  string line = "<seg";
  bool quoted = false;
  for (size_t k = g.range(0, 3); k > 0; --k) {
    const string n = kN[g.draw(5)];
    if (meta.count(n)) continue;
    string v;
    for (size_t j = g.range(1, 8); j > 0; --j) v += g.pick(vector<char>{'a', '1', '/', '.', '-', 'Z', '_'});
    if (g.flip()) { if (g.chance(1, 3)) v.insert(v.size() / 2, " "); v = v; line += " " + n + (g.chance(1, 4) ? " = " : "=") + "\"" + v + "\""; quoted = true; }
    else line += " " + n + "=" + v;
    meta[n] = v;
  }
  line += g.chance(1, 6) ? " >" : ">";
  string text;
  for (size_t k = g.range(0, 5); k > 0; --k) text += (text.empty() ? "" : " ") + Word(g, true);
  if (text.find('<') != string::npos) text = "a";
  const string pad = g.flip() ? " " : "";
  line += pad + text + pad + "</seg>";
  if (g.chance(1, 6)) line += " ";
  string l2 = line;
  ProcessAndStripSGML(&l2, &out);
  PBT_CHECK(l2 == text, "text of " << line << " is '" << l2 << "'");
  for (auto& p : meta) PBT_CHECK(out.count(p.first) && out[p.first] == p.second, "attribute " << p.first << " of " << line << " is '" << out[p.first] << "'");
  PBT_CHECK(out.size() == meta.size(), "attributes of " << line);
  string plain = text, p2 = text;
  map<string, string> none;
  ProcessAndStripSGML(&p2, &none);
  PBT_CHECK(p2 == plain && none.empty(), "a line without markup was changed");
  map<string, string> again;
  string l3 = SGMLOpenSegTag(meta) + text + "</seg>";
  ProcessAndStripSGML(&l3, &again);
  PBT_CHECK(l3 == text && again == meta, "a written tag is read differently: " << SGMLOpenSegTag(meta));
  // input ||| reference
  string in, ref = "?";
  string a = "one two", b = g.flip() ? "un deux" : "((('x',0,1),),)";
  if (text.find("|||") == string::npos && !text.empty()) a = text;
  ParseTranslatorInput(a + " ||| " + b, &in, &ref);
  PBT_CHECK(in == a && ref == b, "input and reference are '" << in << "' and '" << ref << "'");
  ref = "";
  ParseTranslatorInput(a, &in, &ref);
  PBT_CHECK(in == a && ref.empty(), "input without a reference");
  // separators of several characters, UTF-8
  vector<string> parts;
  string joined;
  for (size_t k = g.range(1, 4); k > 0; --k) parts.push_back(string(g.range(1, 3), g.flip() ? 'a' : ' '));
  for (size_t i = 0; i < parts.size(); ++i) joined += (i ? "|||" : "") + parts[i];
  vector<StringPiece> pieces = TokenizeMultisep(joined, "|||");
  PBT_CHECK(pieces.size() == parts.size(), "pieces of " << joined);
  for (size_t i = 0; i < parts.size(); ++i) PBT_CHECK(pieces[i].as_string() == parts[i], "piece " << i << " of " << joined);
  string u;
  unsigned n = 0;
  static const char* kU[] = {"a", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80"};
  for (size_t k = g.range(0, 8); k > 0; --k, ++n) u += kU[g.draw(4)];
  PBT_CHECK(UTF8StringLen(u) == n, "length of a UTF-8 string");
  PBT_CHECK(Trim(" \t" + a + "\t ") == a, "trimming");
  if (!meta.empty()) c.nontrivial();
  if (quoted) c.count("quoted attributes");
  if (c.want()) c.desc() << line;
}

static void Corpus(Gen& g, Ctx& c) {
  SetSilent(true);
  const size_t n = g.count(0, 12);
  const bool par = g.flip();
  vector<vector<string> > src, trg;
  string text;
  for (size_t i = 0; i < n; ++i) {
    vector<string> s, t;
    for (size_t k = g.range(0, 5); k > 0; --k) { string w = Word(g, true); if (w != "|||") s.push_back(w); }
    for (size_t k = g.range(0, 5); k > 0; --k) { string w = Word(g, true); if (w != "|||") t.push_back(w); }
    string line;
    for (auto& w : s) line += w + (g.chance(1, 5) ? "  " : " ");
    if (par) { line += "|||"; for (auto& w : t) line += " " + w; }
    text += line + "\n";
    src.push_back(s);
    trg.push_back(t);
    if (par) {
      vector<WordID> a, b;
      CorpusTools::ReadLine(line, &a, &b);
      PBT_CHECK(a.size() == s.size() && b.size() == t.size(), "line '" << line << "' read with " << a.size() << " and " << b.size() << " words");
    }
  }
  const bool gz = g.chance(1, 4);
  const string file = Tmp(gz ? ".t.gz" : ".t");
  Unlink u(file);
  { WriteFile w(file); *w << text; }
  const int size = g.range(1, 4);
  size_t total = 0;
  for (int rank = 0; rank < size; ++rank) {
    vector<vector<WordID> > a, b;
    set<WordID> va, vb;
    CorpusTools::ReadFromFile(file, &a, &va, par ? &b : NULL, par ? &vb : NULL, rank, size);
    size_t k = 0;
    set<string> ws, wt;
    for (size_t i = 0; i < n; ++i) {
      ws.insert(src[i].begin(), src[i].end());
      wt.insert(trg[i].begin(), trg[i].end());
      if ((int)(i % size) != rank) continue;
      PBT_CHECK(k < a.size(), "part " << rank << " of " << size << " has " << a.size() << " sentences");
      PBT_CHECK(a[k].size() == src[i].size(), "sentence " << i << " has " << a[k].size() << " words");
      for (size_t j = 0; j < src[i].size(); ++j) PBT_CHECK(TD::Convert(a[k][j]) == src[i][j], "word " << j << " of sentence " << i);
      if (par) {
        PBT_CHECK(b[k].size() == trg[i].size(), "target sentence " << i << " has " << b[k].size() << " words");
        for (size_t j = 0; j < trg[i].size(); ++j) PBT_CHECK(TD::Convert(b[k][j]) == trg[i][j], "word " << j << " of target sentence " << i);
      }
      ++k;
    }
    PBT_CHECK(a.size() == k, "part " << rank << " of " << size << " has " << a.size() << " sentences, expected " << k);
    PBT_CHECK(va.size() == ws.size() && (!par || vb.size() == wt.size()), "vocabulary");
    total += k;
  }
  PBT_CHECK(total == n, "parts hold " << total << " sentences");
  if (n > 1) c.nontrivial();
  if (c.want()) c.desc() << n << " lines, " << size << " parts, parallel=" << par;
}

PBT_MAIN({"sparse", SparseDouble, 3}, {"sparse_float", SparseFloat, 1}, {"small", Small2, 1.5}, {"small4", Small4, 0.7}, {"small1", Small1, 0.5},
         {"logval", LogValues, 2}, {"expectation", Expectation, 1}, {"densities", Densities, 0.5},
         {"dictionary", Dictionary, 2}, {"corpus", Corpus, 1},
         {"weights", WeightsFile, 1.5}, {"weights_text", WeightsText, 1}, {"codecs", VectorCodecs, 1.5},
         {"files", Files, 1.5}, {"text", Text, 1})
