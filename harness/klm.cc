// Language model queries through every data structure, and fragments with left state.
#include "klmgen.hpp"
#include "lm/left.hh"
#include "lm/model.hh"
#include "lm/partial.hh"
#include "lm/enumerate_vocab.hh"
#include <memory>

using namespace std;
using pbt::Gen;
using pbt::Ctx;
using namespace klm;
using lm::WordIndex;
using lm::FullScoreReturn;
using lm::ngram::State;
using lm::ngram::ChartState;
using lm::ngram::Config;

static const double kTol = 2e-4;

struct Words : public lm::EnumerateVocab {
  map<WordIndex, string> w;
  void Add(WordIndex i, const StringPiece& s) {
    if (w.count(i)) PBT_FAIL("word " << i << " was enumerated twice");
    w[i] = s.as_string();
  }
};

static bool HasBlank(const Arpa& m) {
  size_t n = 0;
  for (int i = 0; i < m.order; ++i) n += m.ng[i].size();
  return m.closure.size() != n + (m.closure.count(Gram(1, 0)) && !m.unk ? 1 : 0);
}

static Config Quiet(Gen& g, const Arpa& a) {
  Config c;
  c.messages = NULL;
  c.show_progress = false;
  c.unknown_missing = lm::SILENT;
  c.arpa_complain = Config::NONE;
  static const float mult[] = {1.5f, 1.1f, 1.01f, 2.0f, 4.0f};
  c.probing_multiplier = mult[g.draw(5)];
  // blanks are not in the counts of the file: the table has to be told to be larger
  if (HasBlank(a)) c.probing_multiplier = 2 + a.closure.size();
  c.prob_bits = g.range(10, 20);
  c.backoff_bits = g.range(10, 20);
  c.pointer_bhiksha_bits = g.range(0, 30);
  c.building_memory = 1 << 20;
  return c;
}

template <class M> vector<WordIndex> Index(const M& m, const Arpa& a, const Gram& g) {
  vector<WordIndex> r;
  for (size_t i = 0; i < g.size(); ++i) r.push_back(m.GetVocabulary().Index(a.words[g[i]]));
  return r;
}

// the length of the match; entries that only pruning left out may be counted
static bool MatchOk(const Arpa& a, const Gram& ctx, int w, int got, int len) {
  if (got == len) return true;
  if (got > len || got < 1) return false;
  Gram k;
  for (size_t i = 0; i < ctx.size(); ++i) k.push_back(a.norm(ctx[i]));
  for (int n = len; n > got; --n) {
    Gram g(k.end() - (n - 1), k.end());
    g.push_back(a.norm(w));
    if (a.find(g)) return false;
  }
  return true;
}

// the same state; with pruned suffixes, states with the same continuations
template <class M> bool Same(Gen& g, const M& m, const Arpa& a, const State& x, const State& y) {
  if (x == y) return true;
  if (!HasBlank(a)) return false;
  for (int t = 0; t < 6; ++t) {
    Gram w = GenWords(g, a, 4);
    if (t == 0) w.assign(1, 2);
    State p(x), q(y), o;
    double dp = 0, dq = 0;
    for (size_t i = 0; i < w.size(); ++i) {
      WordIndex ix = m.GetVocabulary().Index(a.words[w[i]]);
      dp += m.FullScore(p, ix, o).prob;
      p = o;
      dq += m.FullScore(q, ix, o).prob;
      q = o;
    }
    if (fabs(dp - dq) > kTol) return false;
  }
  return true;
}

template <class M> void Query(Gen& g, Ctx& c, const M& model, const Arpa& a, const string& name) {
  typedef lm::base::Model Base;
  const Base& base = model;
  PBT_CHECK(model.Order() == a.order, name << ": order " << (int)model.Order() << ", the file has " << a.order);
  const bool blank = HasBlank(a);
  set<WordIndex> ids;
  for (int w = 0; w < a.nvocab; ++w) {
    WordIndex i = model.GetVocabulary().Index(a.words[w]);
    PBT_CHECK(w == 0 ? i == 0 : i != 0, name << ": " << a.words[w] << " has index " << i);
    PBT_CHECK(i < (WordIndex)a.nvocab, name << ": index " << i << " of " << a.words[w]);
    PBT_CHECK(ids.insert(i).second, name << ": index " << i << " is used twice");
  }
  PBT_CHECK(model.GetVocabulary().Index("oov") == 0 && model.GetVocabulary().Index("") == 0, name << ": an unknown word is known");
  PBT_CHECK(model.GetVocabulary().BeginSentence() == model.GetVocabulary().Index("<s>") && model.GetVocabulary().EndSentence() == model.GetVocabulary().Index("</s>"), name << ": sentence markers");
  vector<pair<State, Gram> > states;
  for (int r = 0; r < 4; ++r) {
    const bool bos = g.flip();
    Gram h;
    State s = bos ? model.BeginSentenceState() : model.NullContextState();
    if (bos) h.push_back(1);
    Gram ws = GenWords(g, a, g.range(1, 9));
    if (g.flip()) ws.push_back(2);
    vector<WordIndex> ix = Index(model, a, ws);
    for (size_t i = 0; i < ws.size(); ++i) {
      State out, out2, out3, out4;
      FullScoreReturn ret = model.FullScore(s, ix[i], out);
      int len;
      const double want = a.score(h, ws[i], &len);
      if (len > 1 || h.size() > 1) c.nontrivial();
      PBT_CHECK(fabs(ret.prob - want) < kTol, name << ": p(" << a.words[ws[i]] << " | " << a.text(h) << ") = " << ret.prob << ", the file says " << want);
      PBT_CHECK(MatchOk(a, h, ws[i], ret.ngram_length, len), name << ": p(" << a.words[ws[i]] << " | " << a.text(h) << ") matched " << (int)ret.ngram_length << " words, the file has " << len);
      c.count("order " + to_string((int)ret.ngram_length));
      // the same without a state, with any longer history
      vector<WordIndex> rev = Index(model, a, Gram(h.rbegin(), h.rend()));
      FullScoreReturn f = model.FullScoreForgotState(rev.data(), rev.data() + rev.size(), ix[i], out2);
      PBT_CHECK(fabs(f.prob - want) < kTol && MatchOk(a, h, ws[i], f.ngram_length, len), name << ": p(" << a.words[ws[i]] << " | " << a.text(h) << ") without a state is " << f.prob << " (" << (int)f.ngram_length << " words), the file says " << want << " (" << len << ")");
      // GetState keeps words that FullScore may drop when nothing follows a blank
      PBT_CHECK(Same(g, model, a, out2, out), name << ": states with and without memory differ after " << a.text(h) << " " << a.words[ws[i]]);
      vector<WordIndex> rev2(1, ix[i]);
      rev2.insert(rev2.end(), rev.begin(), rev.end());
      model.GetState(rev2.data(), rev2.data() + rev2.size(), out3);
      PBT_CHECK(Same(g, model, a, out3, out), name << ": the state of the context " << a.text(h) << " " << a.words[ws[i]] << " has " << (int)out3.length << " words, scoring left " << (int)out.length);
      PBT_CHECK(base.BaseScore(&s, ix[i], &out4) == ret.prob && out4 == out, name << ": the virtual interface differs");
      PBT_CHECK(out.length <= a.order - 1 && out.length <= h.size() + 1, name << ": state of length " << (int)out.length);
      PBT_CHECK(!(out3 == out) || (out3.Compare(out) == 0 && hash_value(out) == hash_value(out3)), name << ": equal states compare or hash differently");
      // the backoff charged later is that of the context
      for (int k = 0; k < out.length && out == out3; ++k) PBT_CHECK(fabs(out.backoff[k] - out3.backoff[k]) < 1e-6, name << ": backoff " << k << " of the state after " << a.text(h));
      h.push_back(ws[i]);
      s = out;
      if (ws[i] != 2) states.push_back(make_pair(s, h));
    }
  }
  // equal states: equal futures
  for (size_t i = 0; i < states.size(); ++i) {
    size_t j = g.draw(states.size());
    if (!(states[i].first == states[j].first)) {
      PBT_CHECK(states[i].first.Compare(states[j].first) != 0 && states[i].first.Compare(states[j].first) < 0 == states[j].first.Compare(states[i].first) > 0 && (states[i].first < states[j].first) != (states[j].first < states[i].first), name << ": order of states");
      continue;
    }
    Gram w = GenWords(g, a, 2);
    double x = 0, y = 0;
    Gram hx = states[i].second, hy = states[j].second;
    for (size_t k = 0; k < w.size(); ++k) {
      x += a.score(hx, w[k]);
      y += a.score(hy, w[k]);
      hx.push_back(w[k]);
      hy.push_back(w[k]);
    }
    if (states[i].second != states[j].second) c.count("equal states");
    PBT_CHECK(fabs(x - y) < kTol, name << ": " << a.text(states[i].second) << " and " << a.text(states[j].second) << " leave the same state but " << a.text(w) << " follows with " << x << " and " << y);
  }
  (void)blank;
}

static string g_dir;
static string Dir() {
  if (g_dir.empty()) g_dir = TmpDir() + "/k" + to_string(getpid());
  return g_dir;
}

static const char* kTypes[] = {"probing", "rest", "trie", "quant", "array", "quantarray"};

template <class M> void Both(Gen& g, Ctx& c, const Arpa& a, const string& arpa, const string& name) {
  const string bin = Dir() + ".bin", tmp = Dir() + ".t";
  Config cfg = Quiet(g, a);
  cfg.temporary_directory_prefix = tmp.c_str();
  const bool write = g.flip();
  const bool vocab = g.flip();
  const bool after = g.flip();
  Words words;
  if (write) {
    cfg.write_mmap = bin.c_str();
    cfg.write_method = after ? Config::WRITE_AFTER : Config::WRITE_MMAP;
    cfg.include_vocab = vocab;
  }
  cfg.enumerate_vocab = &words;
  {
    M m(arpa.c_str(), cfg);
    Query(g, c, m, a, name + " from text");
    PBT_CHECK((int)words.w.size() == a.nvocab, name << ": " << words.w.size() << " words were enumerated of " << a.nvocab);
    for (map<WordIndex, string>::iterator i = words.w.begin(); i != words.w.end(); ++i)
      PBT_CHECK(m.GetVocabulary().Index(i->second) == i->first, name << ": " << i->second << " was enumerated as " << i->first);
  }
  if (!write) return;
  c.count("binary " + name);
  lm::ngram::ModelType t;
  PBT_CHECK(lm::ngram::RecognizeBinary(bin.c_str(), t) && t == M::kModelType, name << ": the binary file is not recognized");
  lm::ngram::ModelType t2;
  PBT_CHECK(!lm::ngram::RecognizeBinary(arpa.c_str(), t2), "the text file is taken for a binary file");
  Config rd;
  rd.messages = NULL;
  rd.show_progress = false;
  static const util::LoadMethod lms[] = {util::LAZY, util::POPULATE_OR_LAZY, util::POPULATE_OR_READ, util::READ, util::PARALLEL_READ};
  rd.load_method = lms[g.draw(5)];
  Words w2;
  if (vocab) rd.enumerate_vocab = &w2;
  {
    M m(bin.c_str(), rd);
    Query(g, c, m, a, name + " from binary");
    if (vocab) PBT_CHECK(w2.w == words.w, name << ": the binary file enumerates other words");
  }
  {
    Config v;
    v.messages = NULL;
    unique_ptr<lm::base::Model> vm(lm::ngram::LoadVirtual(bin.c_str(), v));
    PBT_CHECK(vm->Order() == a.order, "LoadVirtual");
    State x;
    vm->BeginSentenceWrite(&x);
    Gram h(1, 1);
    Gram ws = GenWords(g, a, 4);
    for (size_t i = 0; i < ws.size(); ++i) {
      State y;
      FullScoreReturn r = vm->BaseFullScore(&x, vm->BaseVocabulary().Index(a.words[ws[i]]), &y);
      PBT_CHECK(fabs(r.prob - a.score(h, ws[i])) < kTol, name << ": through LoadVirtual p(" << a.words[ws[i]] << " | " << a.text(h) << ") = " << r.prob << ", the file says " << a.score(h, ws[i]));
      x = y;
      h.push_back(ws[i]);
    }
  }
  unlink(bin.c_str());
}

static void QuerySuite(Gen& g, Ctx& c) {
  GenOpt o;
  o.stray = g.chance(1, 4);
  Arpa a = GenArpa(g, o);
  const string text = a.arpa(), file = Dir() + ".arpa";
  if (c.want()) c.desc() << text;
  Spit(file, text);
  if (HasBlank(a)) c.count("pruned suffixes");
  switch (g.draw(6)) {
    case 0: Both<lm::ngram::ProbingModel>(g, c, a, file, "probing"); break;
    case 1: Both<lm::ngram::RestProbingModel>(g, c, a, file, "rest"); break;
    case 2: Both<lm::ngram::TrieModel>(g, c, a, file, "trie"); break;
    case 3: Both<lm::ngram::QuantTrieModel>(g, c, a, file, "quant"); break;
    case 4: Both<lm::ngram::ArrayTrieModel>(g, c, a, file, "array"); break;
    default: Both<lm::ngram::QuantArrayTrieModel>(g, c, a, file, "quantarray");
  }
}

// ---- fragments ------------------------------------------------------------
struct Frag {
  Gram w;
  ChartState s;
  double score;
  string tree;
};

template <class M> double Sequential(const M& m, const vector<WordIndex>& ix, const State& start) {
  State s(start), o;
  double t = 0;
  for (size_t i = 0; i < ix.size(); ++i) {
    t += m.FullScore(s, ix[i], o).prob;
    s = o;
  }
  return t;
}

template <class M> Frag Build(Gen& g, const M& m, const Arpa& a, const Gram& w, size_t b, size_t e, bool bos, int depth) {
  Frag f;
  f.w.assign(w.begin() + b, w.begin() + e);
  lm::ngram::RuleScore<M> rs(m, f.s);
  f.tree = "(";
  if (bos) {
    rs.BeginSentence();
    f.tree += "<s> ";
  }
  size_t i = b;
  bool first = !bos;
  while (i < e || g.chance(1, 20)) {
    size_t j = i;
    if (i < e && (depth <= 0 || !g.flip())) {
      rs.Terminal(m.GetVocabulary().Index(a.words[w[i]]));
      f.tree += a.words[w[i]] + " ";
      j = i + 1;
    } else {
      j = i < e && !g.chance(1, 12) ? g.range(i + 1, e) : g.range(i, e);
      if (j == b && e == b && depth <= 0) break;
      Frag sub = Build(g, m, a, w, i, j, false, depth - 1);
      if (first && g.flip()) rs.BeginNonTerminal(sub.s, sub.score);
      else rs.NonTerminal(sub.s, sub.score);
      f.tree += sub.tree + " ";
    }
    first = false;
    i = j;
  }
  f.tree += ")";
  f.score = rs.Finish();
  return f;
}

template <class M> double Join(const M& m, const Arpa& a, const Frag* l, const Frag& f, const Frag* r, bool bos, ChartState& out) {
  lm::ngram::RuleScore<M> rs(m, out);
  if (bos) rs.BeginSentence();
  if (l) rs.NonTerminal(l->s, l->score);
  rs.NonTerminal(f.s, f.score);
  if (r) rs.NonTerminal(r->s, r->score);
  return rs.Finish();
}

template <class M> void Left(Gen& g, Ctx& c, const M& m, const Arpa& a, const string& name) {
  // any bracketing of a sentence scores the same
  for (int t = 0; t < 3; ++t) {
    Gram w = GenWords(g, a, g.range(1, 10));
    if (g.flip()) w.push_back(2);
    Frag f = Build(g, m, a, w, 0, w.size(), true, 3);
    double want = Sequential(m, Index(m, a, w), m.BeginSentenceState());
    PBT_CHECK(fabs(f.score - want) < kTol, name << ": " << f.tree << " scores " << f.score << ", word by word " << want);
    Gram h(1, 1);
    double ref = 0;
    for (size_t i = 0; i < w.size(); ++i) {
      ref += a.score(h, w[i]);
      h.push_back(w[i]);
    }
    PBT_CHECK(fabs(want - ref) < kTol, name << ": " << a.text(w) << " scores " << want << ", the file says " << ref);
    State s, o;
    s = m.BeginSentenceState();
    vector<WordIndex> ix = Index(m, a, w);
    for (size_t i = 0; i < ix.size(); ++i) {
      m.FullScore(s, ix[i], o);
      s = o;
    }
    PBT_CHECK(Same(g, m, a, s, f.s.right), name << ": " << f.tree << " leaves another right state than word by word scoring");
    if (w.size() > 3) c.nontrivial();
  }
  // fragments with equal states are interchangeable
  vector<Frag> fr;
  for (int t = 0; t < 12; ++t) {
    Gram w = GenWords(g, a, g.range(1, 5));
    if (fr.size() && g.flip()) {  // vary the middle of an earlier one
      w = fr[g.draw(fr.size())].w;
      w[g.draw(w.size())] = GenWords(g, a, 1)[0];
    }
    fr.push_back(Build(g, m, a, w, 0, w.size(), false, 2));
    ChartState flat;
    lm::ngram::RuleScore<M> rs(m, flat);
    vector<WordIndex> ix = Index(m, a, w);
    for (size_t i = 0; i < ix.size(); ++i) rs.Terminal(ix[i]);
    double sc = rs.Finish();
    PBT_CHECK(fabs(sc - fr.back().score) < kTol, name << ": " << fr.back().tree << " scores " << fr.back().score << ", flat " << sc);
    PBT_CHECK(HasBlank(a) || (flat == fr.back().s && flat.Compare(fr.back().s) == 0 && hash_value(flat) == hash_value(fr.back().s)), name << ": " << fr.back().tree << " has another state than the flat fragment");
    if (!(flat == fr.back().s)) continue;
    ChartState z(flat), y(fr.back().s);
    z.ZeroRemaining();
    y.ZeroRemaining();
    PBT_CHECK(z == flat && z == y, name << ": clearing the unused part of a state changed it");
  }
  for (size_t i = 0; i < fr.size(); ++i)
    for (size_t j = 0; j < i; ++j) {
      const Frag &p = fr[i], &q = fr[j];
      if (!(p.s == q.s)) continue;
      if (p.w != q.w) c.count("equal fragments");
      Gram lw = GenWords(g, a, g.range(1, 4)), rw = GenWords(g, a, g.range(1, 4));
      Frag l = Build(g, m, a, lw, 0, lw.size(), false, 1), r = Build(g, m, a, rw, 0, rw.size(), false, 1);
      ChartState o1, o2;
      const bool ul = g.flip(), ur = g.flip(), bos = g.flip();
      double s1 = Join(m, a, ul ? &l : 0, p, ur ? &r : 0, bos, o1) - p.score, s2 = Join(m, a, ul ? &l : 0, q, ur ? &r : 0, bos, o2) - q.score;
      PBT_CHECK(fabs(s1 - s2) < kTol, name << ": " << a.text(p.w) << " and " << a.text(q.w) << " have equal states but combine with " << s1 << " and " << s2);
      PBT_CHECK(o1 == o2, name << ": " << a.text(p.w) << " and " << a.text(q.w) << " have equal states but their combinations differ");
    }
}

// revealing context word by word (partial.hh) adds up to the whole
template <class M> void Partial(Gen& g, Ctx& c, const M& m, const Arpa& a, const string& name) {
  for (int t = 0; t < 4; ++t) {
    Gram w = GenWords(g, a, g.range(1, 9));
    if (g.chance(1, 3)) w.push_back(2);
    size_t x = g.range(0, w.size()), y = g.range(x, w.size());
    if (y == w.size() && w.back() == 2 && y > x) --y;
    if (x > y) x = y;
    auto flat = [&](size_t b, size_t e, ChartState& s) {
      lm::ngram::RuleScore<M> rs(m, s);
      Gram sub(w.begin() + b, w.begin() + e);
      vector<WordIndex> ix = Index(m, a, sub);
      for (size_t i = 0; i < ix.size(); ++i) rs.Terminal(ix[i]);
      return (double)rs.Finish();
    };
    ChartState full, before, between, after;
    const double sf = flat(0, w.size(), full), sb = flat(0, x, before), sm = flat(x, y, between), sa = flat(y, w.size(), after);
    const double want = sf - sb - sm - sa;
    if (x > 0 && y < w.size() && y > x) c.nontrivial();
    // in any interleaving of the two sides
    lm::ngram::Right bi(before.right);
    lm::ngram::Left ai(after.left);
    ChartState cur(between);
    unsigned char bs = 0, as = 0;
    bool bf = false, af = false;
    ai.full = false;
    double got = 0;
    string trace;
    while (true) {
      const bool moreb = bs < before.right.length || (!bf && before.left.full), morea = as < after.left.length || (!af && after.left.full);
      if (!moreb && !morea) break;
      if (moreb && (!morea || g.flip())) {
        if (bs < before.right.length) {
          unsigned char n = g.range(bs + 1, before.right.length);
          bi.length = n;
          got += RevealBefore(m, bi, bs, false, cur.left, cur.right);
          bs = n;
          trace += "B";
        } else {
          bi.length = before.right.length;
          got += RevealBefore(m, bi, bs, true, cur.left, cur.right);
          bf = true;
          trace += "b";
        }
      } else if (as < after.left.length) {
        unsigned char n = g.range(as + 1, after.left.length);
        ai.length = n;
        got += RevealAfter(m, cur.left, cur.right, ai, as);
        as = n;
        trace += "A";
      } else {
        ai.length = after.left.length;
        ai.full = true;
        got += RevealAfter(m, cur.left, cur.right, ai, as);
        af = true;
        trace += "a";
      }
    }
    PBT_CHECK(fabs(got - want) < kTol, name << ": [" << a.text(Gram(w.begin(), w.begin() + x)) << "] [" << a.text(Gram(w.begin() + x, w.begin() + y)) << "] ["
              << a.text(Gram(w.begin() + y, w.end())) << "] revealed in the order " << trace << ": adjustment " << got << ", expected " << want);
  }
}

template <class M> void Fragments(Gen& g, Ctx& c, const Arpa& a, const string& file, const string& name, bool partial) {
  Config cfg = Quiet(g, a);
  const string tmp = Dir() + ".t";
  cfg.temporary_directory_prefix = tmp.c_str();
  M m(file.c_str(), cfg);
  c.count(name);
  if (partial) Partial(g, c, m, a, name);
  else Left(g, c, m, a, name);
}

static void Dispatch(Gen& g, Ctx& c, bool partial) {
  Arpa a = GenArpa(g);
  const string text = a.arpa(), file = Dir() + ".arpa";
  if (c.want()) c.desc() << text;
  Spit(file, text);
  switch (g.draw(6)) {
    case 0: Fragments<lm::ngram::ProbingModel>(g, c, a, file, "probing", partial); break;
    case 1: Fragments<lm::ngram::RestProbingModel>(g, c, a, file, "rest", partial); break;
    case 2: Fragments<lm::ngram::TrieModel>(g, c, a, file, "trie", partial); break;
    case 3: Fragments<lm::ngram::QuantTrieModel>(g, c, a, file, "quant", partial); break;
    case 4: Fragments<lm::ngram::ArrayTrieModel>(g, c, a, file, "array", partial); break;
    default: Fragments<lm::ngram::QuantArrayTrieModel>(g, c, a, file, "quantarray", partial);
  }
}
static void LeftSuite(Gen& g, Ctx& c) { Dispatch(g, c, false); }
static void PartialSuite(Gen& g, Ctx& c) { Dispatch(g, c, true); }

int main(int argc, char** argv) {
  vector<pbt::Suite> s = {{"query", QuerySuite, 3}, {"left", LeftSuite, 2}, {"partial", PartialSuite, 1}};
  return pbt::Main(argc, argv, s);
}
