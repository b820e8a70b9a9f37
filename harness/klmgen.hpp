// Random back-off models, their text form, and a reference scorer.
#pragma once
#include "pbt.hpp"
#include <fstream>

namespace klm {

typedef std::vector<int> Gram;  // word numbers; 0 <unk>, 1 <s>, 2 </s>
struct W { double p, b; bool hasb; };

struct Arpa {
  int order;
  std::vector<std::string> words;  // in the vocabulary: the first nvocab
  int nvocab;
  bool unk;  // <unk> is listed
  std::vector<std::map<Gram, W> > ng;  // by length - 1
  std::vector<Gram> listing;
  std::set<Gram> closure;  // every suffix of an n-gram
  double unkp;

  const W* find(const Gram& g) const {
    if (g.empty() || (int)g.size() > order) return 0;
    std::map<Gram, W>::const_iterator i = ng[g.size() - 1].find(g);
    return i == ng[g.size() - 1].end() ? 0 : &i->second;
  }
  int norm(int w) const { return w >= nvocab ? 0 : w; }
  // log10 p(w | ctx), ctx in text order; *len: length of the match counting blanks
  double score(const Gram& ctx, int w, int* len = 0) const {
    Gram k;
    for (size_t i = ctx.size() > (size_t)order - 1 ? ctx.size() - (order - 1) : 0; i < ctx.size(); ++i) k.push_back(norm(ctx[i]));
    w = norm(w);
    if (len) {
      *len = 1;
      for (size_t n = 1; n <= k.size(); ++n) {
        Gram g(k.end() - n, k.end());
        g.push_back(w);
        if (closure.count(g)) *len = n + 1;
      }
    }
    double bo = 0;
    while (true) {
      Gram g(k);
      g.push_back(w);
      const W* f = find(g);
      if (f) return bo + f->p;
      if (k.empty()) return bo + unkp;  // only an unlisted <unk>
      f = find(k);
      if (f) bo += f->b;
      k.erase(k.begin());
    }
  }
  std::string text(const Gram& g) const {
    std::string r;
    for (size_t i = 0; i < g.size(); ++i) r += (i ? " " : "") + words[g[i]];
    return r;
  }
  std::string arpa() const {
    std::ostringstream o;
    o.precision(9);
    o << "\\data\\\n";
    std::vector<std::ostringstream> sec(order);
    std::vector<int> cnt(order);
    for (size_t i = 0; i < listing.size(); ++i) {
      const Gram& g = listing[i];
      const W& w = *find(g);
      std::ostringstream& s = sec[g.size() - 1];
      s.precision(9);
      s << w.p << '\t' << text(g);
      if (w.hasb) s << '\t' << w.b;
      s << '\n';
      ++cnt[g.size() - 1];
    }
    for (int n = 0; n < order; ++n) o << "ngram " << n + 1 << "=" << cnt[n] << "\n";
    for (int n = 0; n < order; ++n) o << "\n\\" << n + 1 << "-grams:\n" << sec[n].str();
    o << "\n\\end\\\n";
    return o.str();
  }
};

struct GenOpt {
  int min_order, max_order, max_ngrams;
  bool closed_only;  // every suffix of an n-gram is listed
  bool stray;  // back-off weights of n-grams without a continuation
  GenOpt() : min_order(2), max_order(5), max_ngrams(24), closed_only(false), stray(false) {}
};

inline Arpa GenArpa(pbt::Gen& g, const GenOpt& o = GenOpt()) {
  static const char* kW[] = {"a", "b", "c", "d", "e", "f", "the", "\xc3\xa9t\xc3\xa9", "x|y", "<tag>", "10.5", "aa", "ab", "ba", ",", "w15"};
  Arpa m;
  m.order = g.range(o.min_order, o.max_order);
  m.ng.resize(m.order);
  m.words.push_back("<unk>");
  m.words.push_back("<s>");
  m.words.push_back("</s>");
  const int nv = g.range(1, 8);
  for (int i = 0; i < nv; ++i) m.words.push_back(kW[i]);
  if (g.chance(1, 8))
    for (int i = 0, n = g.range(1, 40); i < n; ++i) m.words.push_back("v" + std::to_string(i));
  m.nvocab = m.words.size();
  m.words.push_back("oov");
  m.unk = !g.chance(1, 5);
  m.unkp = -100;
  const bool nobo = g.chance(1, 4), closed = o.closed_only || g.chance(2, 3);
  auto val = [&](const Gram& k) {
    W w;
    w.p = -(double)g.draw(60) / 8;
    if (k.back() == 1) w.p = -99;
    w.b = k.back() == 2 || (int)k.size() == m.order || (nobo && g.flip()) ? 0 : g.grid(24);
    w.hasb = (int)k.size() < m.order && k.back() != 2 && (w.b != 0 || g.flip());
    return w;
  };
  for (int w = 0; w < m.nvocab; ++w) {
    Gram k(1, w);
    if (w == 0 && !m.unk) continue;
    m.ng[0][k] = val(k);
    m.listing.push_back(k);
  }
  if (m.unk) m.unkp = m.ng[0][Gram(1, 0)].p;
  for (int n = 2; n <= m.order; ++n) {
    std::vector<Gram> prev;
    for (std::map<Gram, W>::iterator i = m.ng[n - 2].begin(); i != m.ng[n - 2].end(); ++i)
      if (i->first.back() != 2 && !(i->first.back() == 0 && !g.chance(1, 10))) prev.push_back(i->first);
    if (prev.empty()) { m.order = n - 1; break; }
    const int want = g.count(1, o.max_ngrams);
    std::vector<Gram> added;
    for (int t = 0; t < want || (added.empty() && t < 3 * want + 20); ++t) {
      Gram k = g.pick(prev);
      // often the extension of a shorter n-gram
      int w;
      do {
        w = g.range(2, m.nvocab - 1);
        if (g.flip() && n > 2) {
          Gram suf(k.begin() + 1, k.end());
          std::vector<int> ext;
          suf.push_back(0);
          for (std::map<Gram, W>::iterator i = m.ng[n - 2].lower_bound(suf); i != m.ng[n - 2].end() && std::equal(suf.begin(), suf.end() - 1, i->first.begin()); ++i) ext.push_back(i->first.back());
          if (!ext.empty()) w = g.pick(ext);
        }
      } while (w == 1);
      k.push_back(w);
      if (closed && n > 2 && !m.find(Gram(k.begin() + 1, k.end()))) continue;
      if (m.ng[n - 1].count(k)) continue;
      m.ng[n - 1][k] = val(k);
      added.push_back(k);
    }
    if (added.empty()) { m.order = n - 1; break; }
    m.listing.insert(m.listing.end(), added.begin(), added.end());
  }
  if (m.order < 2) {
    m.order = 2;
    m.ng.resize(2);
    Gram k;
    k.push_back(1);
    k.push_back(2);
    m.ng[1][k] = val(k);
    m.listing.push_back(k);
  }
  m.ng.resize(m.order);
  for (std::map<Gram, W>::iterator i = m.ng[m.order - 1].begin(); i != m.ng[m.order - 1].end(); ++i) { i->second.b = 0; i->second.hasb = false; }
  if (!o.stray) {
    std::set<Gram> ctx;
    for (int n = 1; n < m.order; ++n)
      for (std::map<Gram, W>::iterator i = m.ng[n].begin(); i != m.ng[n].end(); ++i) ctx.insert(Gram(i->first.begin(), i->first.end() - 1));
    for (int n = 0; n < m.order; ++n)
      for (std::map<Gram, W>::iterator i = m.ng[n].begin(); i != m.ng[n].end(); ++i)
        if (!ctx.count(i->first)) i->second.b = 0;
  }
  for (int n = 0; n < m.order; ++n)
    for (std::map<Gram, W>::iterator i = m.ng[n].begin(); i != m.ng[n].end(); ++i)
      for (size_t s = 0; s < i->first.size(); ++s) m.closure.insert(Gram(i->first.begin() + s, i->first.end()));
  // probabilities, also those that backing off implies, do not exceed one
  bool over = false;
  for (std::set<Gram>::iterator i = m.closure.begin(); i != m.closure.end(); ++i)
    if (!m.find(*i) && m.score(Gram(i->begin(), i->end() - 1), i->back()) > 0) over = true;
  if (over)
    for (int n = 0; n < m.order; ++n)
      for (std::map<Gram, W>::iterator i = m.ng[n].begin(); i != m.ng[n].end(); ++i)
        if (i->second.b > 0) i->second.b = -i->second.b;
  return m;
}

inline Gram GenWords(pbt::Gen& g, const Arpa& m, size_t n, bool unk = true) {
  Gram r;
  for (size_t i = 0; i < n; ++i) {
    // often continue with a listed n-gram
    std::vector<int> ext;
    if (!r.empty() && g.chance(2, 3)) {
      for (int len = std::min<int>(r.size(), m.order - 1); len > 0 && ext.empty(); --len) {
        Gram k(r.end() - len, r.end());
        k.push_back(0);
        for (std::map<Gram, W>::const_iterator i = m.ng[len].lower_bound(k); i != m.ng[len].end() && std::equal(k.begin(), k.end() - 1, i->first.begin()); ++i)
          if (i->first.back() > 2) ext.push_back(i->first.back());
        if (g.flip()) break;
      }
    }
    if (!ext.empty()) r.push_back(g.pick(ext));
    else if (unk && g.chance(1, 8)) r.push_back(g.flip() ? 0 : m.nvocab);
    else r.push_back(m.nvocab > 3 ? g.range(3, m.nvocab - 1) : 0);
  }
  return r;
}

inline std::string TmpDir() {
  const char* t = getenv("TMPDIR");
  return t ? t : "/tmp";
}

inline void Spit(const std::string& name, const std::string& text) {
  std::ofstream o(name.c_str(), std::ios::binary);
  o << text;
}

}  // namespace klm
