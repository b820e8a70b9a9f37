// Sufficient statistics: additive, serializable, independent of evaluation
// order; the older scoring interface agrees with the newer.
#include "pbt.hpp"
#include "ns.h"
#include "scorer.h"
#include "ns_docscorer.h"
#include "tdict.h"
#include "stringlib.h"

using namespace std;
using pbt::Gen;
using pbt::Ctx;
typedef vector<WordID> Sent;

static const char* kMetrics[] = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "QCRI_BLEU", "CBLEU", "TER", "WER", "CER", "SSK",
                                 "COMB:IBM_BLEU=0.5;TER=-0.5", "COMB:WER=-1;CBLEU=0.25;SSK=2", "COMB:TER=-0.25;CER=-0.5;KOEHN_BLEU=1"};
static const char* kWords[] = {"a", "b", "c", "ab", "d", "\xc3\xa9", "x-y", "e", "f", "10", "g", "h"};

static Sent GenSent(Gen& g, size_t lo, size_t voc) {
  Sent s(g.count(lo, 14));
  for (size_t i = 0; i < s.size(); ++i) s[i] = TD::Convert(kWords[g.draw(voc)]);
  return s;
}

static Sent Perturb(Gen& g, Sent s, size_t voc) {
  for (size_t k = g.count(0, 4); k > 0; --k) {
    size_t i = g.draw(s.size() + 1);
    switch (g.draw(4)) {
      case 0: if (i < s.size()) s.erase(s.begin() + i); break;
      case 1: s.insert(s.begin() + i, TD::Convert(kWords[g.draw(voc)])); break;
      case 2: if (i < s.size()) s[i] = TD::Convert(kWords[g.draw(voc)]); break;
      default: std::rotate(s.begin(), s.begin() + i, s.end());
    }
  }
  return s;
}

struct Seg {
  vector<Sent> refs;
  vector<Sent> hyps;
};

static Seg GenSeg(Gen& g, size_t voc, size_t minhyp) {
  Seg r;
  r.refs.push_back(GenSent(g, 1, voc));
  for (size_t k = g.count(0, 3); k > 0; --k) r.refs.push_back(g.flip() ? Perturb(g, r.refs[0], voc) : GenSent(g, 1, voc));
  for (size_t i = 1; i < r.refs.size(); ++i)
    if (r.refs[i].empty()) r.refs[i] = r.refs[0];
  for (size_t k = g.range(1, 4); k > 0; --k) {
    Sent h = g.flip() ? Perturb(g, r.refs[g.draw(r.refs.size())], voc) : GenSent(g, 0, voc);
    while (h.size() < minhyp) h.push_back(TD::Convert(kWords[g.draw(voc)]));
    r.hyps.push_back(h);
  }
  return r;
}

static string Str(const SufficientStats& s) {
  string r;
  s.Encode(&r);
  return r;
}

static bool Same(const SufficientStats& a, const SufficientStats& b) {
  size_t n = max(a.size(), b.size());
  for (size_t i = 0; i < n; ++i)
    if (fabs(a[i] - b[i]) > 1e-5 * max(1.0f, fabs(a[i]))) return false;
  return true;
}

static bool SameScore(float a, float b) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return fabs(a - b) <= 2e-5 * max(1.0f, fabs(a));
}

static void Describe(Ctx& c, const string& m, const vector<Seg>& segs) {
  if (!c.want()) return;
  c.desc() << m;
  for (size_t i = 0; i < segs.size(); ++i) {
    c.desc() << "\n refs:";
    for (size_t j = 0; j < segs[i].refs.size(); ++j) c.desc() << " [" << TD::GetString(segs[i].refs[j]) << "]";
    c.desc() << " hyps:";
    for (size_t j = 0; j < segs[i].hyps.size(); ++j) c.desc() << " [" << TD::GetString(segs[i].hyps[j]) << "]";
  }
}

static void Stats(Gen& g, Ctx& c) {
  const string id = kMetrics[g.draw(sizeof(kMetrics) / sizeof(*kMetrics))];
  EvaluationMetric* m = EvaluationMetric::Instance(id);
  const size_t voc = g.range(1, 12);
  vector<Seg> segs(g.range(1, 4));
  for (size_t i = 0; i < segs.size(); ++i) segs[i] = GenSeg(g, voc, 0);
  Describe(c, id, segs);
  c.count(id);
  // evaluators made once and used for many hypotheses in any order
  vector<boost::shared_ptr<SegmentEvaluator> > ev;
  for (size_t i = 0; i < segs.size(); ++i) ev.push_back(m->CreateSegmentEvaluator(segs[i].refs));
  vector<vector<SufficientStats> > fresh(segs.size());
  for (size_t i = 0; i < segs.size(); ++i)
    for (size_t j = 0; j < segs[i].hyps.size(); ++j) {
      SufficientStats t;
      m->CreateSegmentEvaluator(segs[i].refs)->Evaluate(segs[i].hyps[j], &t);
      PBT_CHECK(t.id_ == m->MetricId(), "statistics of " << m->MetricId() << " are marked " << t.id_);
      PBT_CHECK(t.size() <= m->SufficientStatisticsVectorSize(), "more statistics than announced");
      fresh[i].push_back(t);
    }
  vector<pair<int, int> > ops;
  for (size_t n = g.range(1, 12); n > 0; --n) {
    int i = g.draw(segs.size());
    ops.push_back(make_pair(i, g.draw(segs[i].hyps.size())));
  }
  SufficientStats reused;  // also reused as an output argument
  for (size_t k = 0; k < ops.size(); ++k) {
    SufficientStats t;
    SufficientStats& o = g.flip() ? t : reused;
    ev[ops[k].first]->Evaluate(segs[ops[k].first].hyps[ops[k].second], &o);
    PBT_CHECK(o == fresh[ops[k].first][ops[k].second],
              id << ": evaluation " << k << " of hypothesis " << TD::GetString(segs[ops[k].first].hyps[ops[k].second]) << " gave " << Str(o)
                 << ", the first one " << Str(fresh[ops[k].first][ops[k].second]));
  }
  if (ops.size() > 2) c.nontrivial();
  // sums do not depend on order or grouping, and a swap of one segment is exact
  SufficientStats a, b, left, right;
  for (size_t k = 0; k < ops.size(); ++k) a += fresh[ops[k].first][ops[k].second];
  for (size_t k = ops.size(); k > 0; --k) {
    const SufficientStats& s = fresh[ops[k - 1].first][ops[k - 1].second];
    b += s;
    (g.flip() ? left : right) += s;
  }
  PBT_CHECK(Same(a, b), id << ": sum " << Str(a) << " in reverse order " << Str(b));
  PBT_CHECK(Same(a, left + right), id << ": sum " << Str(a) << " in two parts " << Str(left + right));
  PBT_CHECK(SameScore(m->ComputeScore(a), m->ComputeScore(b)), id << ": score " << m->ComputeScore(a) << " in reverse order " << m->ComputeScore(b));
  PBT_CHECK(a.id_ == m->MetricId(), "the sum is marked " << a.id_);
  const SufficientStats& x = fresh[ops[0].first][ops[0].second];
  int y = g.draw(segs[ops[0].first].hyps.size());
  SufficientStats sw = a - x + fresh[ops[0].first][y], direct;
  direct += fresh[ops[0].first][y];
  for (size_t k = 1; k < ops.size(); ++k) direct += fresh[ops[k].first][ops[k].second];
  PBT_CHECK(Same(sw, direct), id << ": after exchanging a segment " << Str(sw) << ", directly " << Str(direct));
  SufficientStats zero = x - x;
  PBT_CHECK(zero.IsAdditiveIdentity(), "x - x = " << Str(zero));
  PBT_CHECK(x + SufficientStats() == x && SufficientStats() + x == x, "the empty statistics are not neutral");
  SufficientStats sc = a;
  sc *= 4;
  sc /= 4;
  PBT_CHECK(sc == a, "scaling by 4 and back");
  bool diff = false;
  for (size_t k = 0; k < x.size(); ++k) diff |= x[k] != 0;
  PBT_CHECK(x.IsAdditiveIdentity() == !diff, "IsAdditiveIdentity of " << Str(x));
  // text form
  SufficientStats back(Str(a));
  PBT_CHECK(back.id_ == a.id_ && back.size() == a.size() && Same(back, a), id << ": " << Str(a) << " was read back as " << Str(back));
  bool whole = true;
  for (size_t k = 0; k < a.size(); ++k) whole &= a[k] == floor(a[k]) && fabs(a[k]) < 100000;
  if (whole) PBT_CHECK(back == a, id << ": counts changed in the text form " << Str(a));
  PBT_CHECK(SameScore(m->ComputeScore(back), m->ComputeScore(a)), id << ": score " << m->ComputeScore(a) << " after the text form " << m->ComputeScore(back));
  PBT_CHECK(EvaluationMetric::Instance(LowercaseString(id))->MetricId() == m->MetricId(), "metric names");
}

static string CorpusText(const vector<Seg>& segs, size_t file, size_t nfiles) {
  string r;
  for (size_t i = 0; i < segs.size(); ++i) {
    bool first = true;
    for (size_t j = file; j < segs[i].refs.size(); j += nfiles) {
      if (!first) r += " ||| ";
      first = false;
      r += TD::GetString(segs[i].refs[j]);
    }
    r += "\n";
  }
  return r;
}

// The deprecated interface (scorer.h) computes the same statistics.
static void OldNew(Gen& g, Ctx& c) {
  static const ScoreType types[] = {IBM_BLEU, NIST_BLEU, Koehn_BLEU, TER, WER, BLEU_minus_TER_over_2};
  static const char* names[] = {"IBM_BLEU", "NIST_BLEU", "KOEHN_BLEU", "TER", "WER", "COMB:IBM_BLEU=0.5;TER=-0.5"};
  const int t = g.draw(6);
  const bool huge = g.chance(1, 10);  // many segments: larger counts
  const size_t voc = g.range(1, 12);
  vector<Seg> segs(g.range(1, huge ? 30 : 4));
  // with fewer than four words the two interfaces average differently; the
  // word error rates choose references differently (edits or rate)
  for (size_t i = 0; i < segs.size(); ++i) {
    segs[i] = GenSeg(g, voc, t == 3 || t == 4 ? 0 : 4);
    if (types[t] == WER) segs[i].refs.resize(1);
    if (types[t] == Koehn_BLEU)  // the older one keeps an integer average
      for (size_t j = 1; j < segs[i].refs.size(); ++j) segs[i].refs[j].resize(segs[i].refs[0].size(), TD::Convert("a"));
  }
  Describe(c, names[t], segs);
  c.count(names[t]);
  EvaluationMetric* m = EvaluationMetric::Instance(names[t]);
  SufficientStats sum;
  vector<ScoreP> parts;
  ScoreP acc;
  vector<ScorerP> old;
  for (size_t i = 0; i < segs.size(); ++i) {
    old.push_back(SentenceScorer::CreateSentenceScorer(types[t], segs[i].refs));
    boost::shared_ptr<SegmentEvaluator> ev = m->CreateSegmentEvaluator(segs[i].refs);
    for (size_t j = 0; j < segs[i].hyps.size(); ++j) {
      SufficientStats s;
      ev->Evaluate(segs[i].hyps[j], &s);
      ScoreP p = old[i]->ScoreCandidate(segs[i].hyps[j]);
      PBT_CHECK(SameScore(p->ComputeScore(), m->ComputeScore(s)), names[t] << ": " << TD::GetString(segs[i].hyps[j]) << " scores " << p->ComputeScore() << " and " << m->ComputeScore(s));
      sum += s;
      if (!acc) acc = p->GetZero();
      acc->PlusEquals(*p);
      parts.push_back(p);
    }
  }
  if (parts.size() > 1) c.nontrivial();
  PBT_CHECK(SameScore(acc->ComputeScore(), m->ComputeScore(sum)), names[t] << ": corpus " << acc->ComputeScore() << " and " << m->ComputeScore(sum));
  // differences, encoding
  ScoreP d = acc->GetZero(), e = acc->GetZero();
  acc->Subtract(*parts[0], d.get());
  for (size_t i = 1; i < parts.size(); ++i) e->PlusEquals(*parts[i]);
  if (parts.size() > 1) PBT_CHECK(SameScore(d->ComputeScore(), e->ComputeScore()), names[t] << ": after subtraction " << d->ComputeScore() << ", summed " << e->ComputeScore());
  d->PlusEquals(*parts[0]);
  PBT_CHECK(SameScore(d->ComputeScore(), acc->ComputeScore()), names[t] << ": subtract and add");
  ScoreP twice = acc->GetZero(), scaled = acc->GetZero();
  const int by = types[t] == TER || types[t] == BLEU_minus_TER_over_2 ? 1 : g.range(1, 3), which = g.draw(parts.size());
  for (int k = 0; k < by; ++k) twice->PlusEquals(*parts[which]);
  twice->PlusEquals(*parts[0]);
  scaled->PlusEquals(*parts[which], by);
  scaled->PlusEquals(*parts[0]);
  PBT_CHECK(SameScore(twice->ComputeScore(), scaled->ComputeScore()), names[t] << ": added " << by << " times " << twice->ComputeScore() << ", scaled by it " << scaled->ComputeScore());
  PBT_CHECK(!acc->IsAdditiveIdentity(), names[t] << ": a corpus counts as empty");
  ScoreP z = acc->GetZero();
  PBT_CHECK(z->IsAdditiveIdentity(), names[t] << ": zero is not neutral");
  string enc;
  acc->Encode(&enc);
  if (types[t] != BLEU_minus_TER_over_2 || (unsigned char)enc[0] < 120) {
    ScoreP r = SentenceScorer::CreateScoreFromString(types[t], enc);
    PBT_CHECK(SameScore(r->ComputeScore(), acc->ComputeScore()), names[t] << ": " << enc << " encodes " << acc->ComputeScore() << ", was read back as " << r->ComputeScore());
  }
}

// Combined metrics and the sentence error rate of the older interface.
static void OldOnly(Gen& g, Ctx& c) {
  static const char* names[] = {"bleu_cbleu", "combi", "ser", "ibm_bleu_3", "cbleu"};
  const string name = names[g.draw(5)];
  const ScoreType type = ScoreTypeFromString(name);
  const size_t voc = g.range(1, 4);
  vector<Seg> segs(g.range(1, 4));
  for (size_t i = 0; i < segs.size(); ++i) segs[i] = GenSeg(g, voc, name == "ser" ? 0 : 4);
  Describe(c, name, segs);
  c.count(name);
  int right = 0, total = 0;
  ScoreP acc, a, b, d;
  EvaluationMetric* bleu = EvaluationMetric::Instance("IBM_BLEU");
  SufficientStats st;
  for (size_t i = 0; i < segs.size(); ++i) {
    ScorerP s = SentenceScorer::CreateSentenceScorer(type, segs[i].refs);
    ScorerP sb = SentenceScorer::CreateSentenceScorer(IBM_BLEU, segs[i].refs);
    ScorerP sc = SentenceScorer::CreateSentenceScorer(name == "combi" ? TER : CBLEU, segs[i].refs);
    for (size_t j = 0; j < segs[i].hyps.size(); ++j) {
      const Sent& h = segs[i].hyps[j];
      ScoreP p = s->ScoreCandidate(h), pb = sb->ScoreCandidate(h), pc = sc->ScoreCandidate(h);
      if (!acc) { acc = p->GetZero(); a = pb->GetZero(); b = pc->GetZero(); d = p->GetZero(); }
      acc->PlusEquals(*p);
      a->PlusEquals(*pb);
      b->PlusEquals(*pc);
      ++total;
      right += find(segs[i].refs.begin(), segs[i].refs.end(), h) != segs[i].refs.end();
      SufficientStats t;
      bleu->CreateSegmentEvaluator(segs[i].refs)->Evaluate(h, &t);
      st += t;
      if (i + j == 0) acc->Subtract(*p, d.get());
    }
  }
  PBT_CHECK(d->IsAdditiveIdentity(), name << ": x - x");
  if (total > 1) c.nontrivial();
  float want = 0;
  if (name == "ser") want = float(right) / total;
  else if (name == "bleu_cbleu") want = (a->ComputeScore() + b->ComputeScore()) / 2;
  else if (name == "combi") want = (a->ComputeScore() - b->ComputeScore()) / 2;
  else if (name == "cbleu") want = b->ComputeScore();
  else {
    // the geometric mean of the precisions up to three words
    float lp = 0;
    for (int k = 0; k < 3; ++k) lp += log(st[k] ? st[k] : 0.01) - log(st[4 + k]);
    lp /= 3;
    if (st[8] < st[9]) lp += 1 - st[9] / st[8];
    want = exp(lp);
  }
  PBT_CHECK(SameScore(acc->ComputeScore(), want), name << ": " << acc->ComputeScore() << ", by its definition " << want);
  string enc;
  if (name == "bleu_cbleu" || name == "combi") {
    acc->Encode(&enc);
    if ((unsigned char)enc[0] < 120)
      PBT_CHECK(SameScore(SentenceScorer::CreateScoreFromString(type, enc)->ComputeScore(), want), name << ": read back");
  }
}

// References from files, with either interface, or with their sources.
static void Files(Gen& g, Ctx& c) {
  const size_t voc = g.range(1, 12), nf = g.range(1, 3);
  vector<Seg> segs(g.range(1, 4));
  for (size_t i = 0; i < segs.size(); ++i) segs[i] = GenSeg(g, voc, 4);
  const string id = kMetrics[g.draw(9)];
  Describe(c, id, segs);
  EvaluationMetric* m = EvaluationMetric::Instance(id);
  vector<string> names;
  char base[] = "/tmp/mtevalXXXXXX";
  int fd = mkstemp(base);
  if (fd < 0) return;
  close(fd);
  const bool nl = g.flip();
  for (size_t f = 0; f < nf; ++f) {
    string t = CorpusText(segs, f, nf), n = string(base) + char('a' + f);
    if (!nl && t.size() > 1 && t[t.size() - 2] != '\n') t.resize(t.size() - 1);
    FILE* o = fopen(n.c_str(), "w");
    fwrite(t.data(), 1, t.size(), o);
    fclose(o);
    names.push_back(n);
  }
  const string sname = string(base) + "s";
  {
    FILE* o = fopen(sname.c_str(), "w");
    for (size_t i = 0; i < segs.size(); ++i) {
      fprintf(o, "src %d ||| ", (int)i);
      for (size_t j = 0; j < segs[i].refs.size(); ++j) fprintf(o, "%s%s", j ? " ||| " : "", TD::GetString(segs[i].refs[j]).c_str());
      fprintf(o, "\n");
    }
    fclose(o);
  }
  ostringstream sink;
  streambuf* keep = cerr.rdbuf(sink.rdbuf());
  DocumentScorer ds(m, names), dsrc(m, sname);
  cerr.rdbuf(keep);
  for (size_t f = 0; f < nf; ++f) unlink(names[f].c_str());
  unlink(sname.c_str());
  unlink(base);
  PBT_CHECK(ds.size() == segs.size(), segs.size() << " lines of references, " << ds.size() << " segments");
  PBT_CHECK(dsrc.size() == segs.size(), segs.size() << " lines of sources and references, " << dsrc.size() << " segments");
  c.nontrivial();
  for (size_t i = 0; i < segs.size(); ++i) {
    vector<Sent> refs;  // in the order of the files
    for (size_t f = 0; f < nf; ++f)
      for (size_t j = f; j < segs[i].refs.size(); j += nf) refs.push_back(segs[i].refs[j]);
    PBT_CHECK(dsrc[i]->src == "src " + string(1, '0' + i), "source " << i << " is " << dsrc[i]->src);
    for (size_t j = 0; j < segs[i].hyps.size(); ++j) {
      SufficientStats a, b, d, e;
      m->CreateSegmentEvaluator(refs)->Evaluate(segs[i].hyps[j], &a);
      ds[i]->Evaluate(segs[i].hyps[j], &b);
      m->CreateSegmentEvaluator(segs[i].refs)->Evaluate(segs[i].hyps[j], &d);
      dsrc[i]->Evaluate(segs[i].hyps[j], &e);
      PBT_CHECK(a == b, id << ": segment " << i << " from files " << Str(b) << ", directly " << Str(a));
      PBT_CHECK(d == e, id << ": segment " << i << " from a source file " << Str(e) << ", directly " << Str(d));
    }
  }
}

static string Pharaoh(const set<pair<int, int> >& a) {
  ostringstream os;
  for (set<pair<int, int> >::const_iterator i = a.begin(); i != a.end(); ++i) os << (i == a.begin() ? "" : " ") << i->first << '-' << i->second;
  return os.str();
}

static void Aer(Gen& g, Ctx& c) {
  int m = 0, p = 0, r = 0;
  ScoreP acc;
  for (size_t n = g.range(1, 3); n > 0; --n) {
    set<pair<int, int> > ref, hyp;
    const bool longer = g.chance(1, 4);
    const int I = g.range(1, longer ? 30 : 5), J = g.range(1, longer ? 30 : 5);
    for (size_t k = g.range(1, 8); k > 0; --k) ref.insert(make_pair((int)g.draw(I), (int)g.draw(J)));
    for (size_t k = g.range(1, 8); k > 0; --k) hyp.insert(make_pair((int)g.draw(I + 1), (int)g.draw(J + 1)));
    Sent rs, hs;
    TD::ConvertSentence(Pharaoh(ref), &rs);
    TD::ConvertSentence(Pharaoh(hyp), &hs);
    ScoreP s = SentenceScorer::CreateSentenceScorer(AER, vector<Sent>(1, rs), "")->ScoreCandidate(hs);
    if (!acc) acc = s->GetZero();
    acc->PlusEquals(*s);
    for (set<pair<int, int> >::iterator i = hyp.begin(); i != hyp.end(); ++i) m += ref.count(*i);
    p += hyp.size();
    r += ref.size();
    if (c.want()) c.desc() << Pharaoh(ref) << " / " << Pharaoh(hyp) << "\n";
  }
  if (m) c.nontrivial();
  // with all links sure, 1 - AER is the F measure
  const float want = 1.0f - 2.0f * m / (p + r);
  PBT_CHECK(SameScore(acc->ComputeScore(), want), "AER " << acc->ComputeScore() << ", " << m << " links of " << p << " and " << r << " agree: " << want);
  string enc;
  acc->Encode(&enc);
  PBT_CHECK(SameScore(SentenceScorer::CreateScoreFromString(AER, enc)->ComputeScore(), want), "AER read back");
  string details, again;
  acc->ScoreDetails(&details);
  float vals[4] = {0, 0, 0, 0};
  int counts[3] = {-1, -1, -1};
  const int got = sscanf(details.c_str(), "AER=%f F=%f P=%f R=%f [%d %d %d]", vals, vals + 1, vals + 2, vals + 3, counts, counts + 1, counts + 2);
  PBT_CHECK(got == 7, "details of AER: " << details);
  const float wants[4] = {100 * want, 100 - 100 * want, 100.0f * m / p, 100.0f * m / r};
  for (int i = 0; i < 4; ++i) PBT_CHECK(fabs(vals[i] - wants[i]) <= 2e-3, "details of AER: " << details << ", " << m << " of " << p << " and " << r);
  PBT_CHECK(counts[0] == m && counts[1] == p && counts[2] == r, "details of AER: " << details << ", " << m << " of " << p << " and " << r);
  SentenceScorer::CreateScoreFromString(AER, enc)->Encode(&again);
  PBT_CHECK(again == enc, "AER encoded again");
}

int main(int argc, char** argv) {
  std::ostringstream null;
  vector<pbt::Suite> s = {{"stats", Stats, 3}, {"oldnew", OldNew, 2}, {"oldonly", OldOnly, 1}, {"files", Files, 1}, {"aer", Aer, 0.3}};
  return pbt::Main(argc, argv, s);
}
