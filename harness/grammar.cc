// Grammars: rules as they are written, grammars as they are looked up, trees.
#include "pbt.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <algorithm>
#include "fdict.h"
#include "filelib.h"
#include "grammar.h"
#include "rule_lexer.h"
#include "tdict.h"
#include "tree_fragment.h"
#include "trule.h"
#include "verbose.h"

using namespace std;
using pbt::Gen;
using pbt::Ctx;

struct Sym {
  bool nt;
  string w;  // word or category
  int i;     // index in the target
};
struct Rule {
  string lhs;
  vector<Sym> f, e;
  vector<pair<string, double> > feats;
  vector<pair<int, int> > als;
  string tree;
  int level, parent;
  map<string, double> Feats() const {
    map<string, double> m;
    for (auto& x : feats) m[x.first] = x.second;
    for (auto i = m.begin(); i != m.end();) if (i->second == 0) m.erase(i++); else ++i;
    return m;
  }
  vector<WordID> F() const {
    vector<WordID> r;
    for (auto& s : f) r.push_back(s.nt ? -TD::Convert(s.w) : TD::Convert(s.w));
    return r;
  }
  vector<WordID> E() const {
    vector<WordID> r;
    for (auto& s : e) r.push_back(s.nt ? 1 - s.i : TD::Convert(s.w));
    return r;
  }
  int Arity() const {
    int n = 0;
    for (auto& s : f) n += s.nt;
    return n;
  }
};

static const vector<string> kCats = {"X", "S", "NP", "Goal", "X-1", "N=P", "PHRASE", "\xc3\xa9", "A|B", "X_2"};
static const vector<string> kWords = {"a", "b", "house", "[a", "b]", "x,1]", "a=b", "a;b", "||", "||||", "|||x", "x|||", "1-1", "0.5", "\\", "(", ")", "\xe4\xb8\xad",
                                      "#", "[]", "[,1]", "<s>", "1", "[[X]", "\"", "F0=1"};
static const vector<string> kNames = {"F0", "F1", "Lex(e|f)", "a:b", "PhraseModel_1", "LanguageModel", "\xc3\xb6", "1"};

static string Space(Gen& g, bool plain) { return plain || g.chance(7, 8) ? " " : g.pick(vector<string>({"  ", "\t", " \t "})); }

static double Num(Gen& g, string* text) {
  ostringstream o;
  switch (g.draw(6)) {
    case 0: o << g.range(0, 3); break;
    case 1: o << g.grid(80); break;
    case 2: o << (g.flip() ? "+" : "-") << g.range(0, 99) << "." << g.range(0, 999); break;
    case 3: o << g.range(0, 9) << "."; break;
    case 4: o << g.range(1, 9) << "." << g.range(0, 99) << (g.flip() ? "e" : "E") << (g.flip() ? "-" : g.flip() ? "+" : "") << g.range(0, 20); break;
    default: o.precision(17); o << g.real(-30, 30); break;
  }
  *text = o.str();
  return strtod(text->c_str(), NULL);
}

// Adds the text of a rule (everything after the indentation) to *line.
static string Write(Gen& g, Rule* r, bool plain) {
  string t = "[" + r->lhs + "]" + (plain || g.chance(9, 10) ? " " : g.flip() ? "" : "\t") + "|||";
  int n = 0;
  for (auto& s : r->f) {
    t += Space(g, plain);
    n += s.nt;
    t += !s.nt ? s.w : g.flip() ? "[" + s.w + "," + to_string(n) + "]" : "[" + s.w + "]";
  }
  t += Space(g, plain) + "|||";
  vector<string> cats;
  for (auto& s : r->f) if (s.nt) cats.push_back(s.w);
  for (auto& s : r->e) {
    t += Space(g, plain);
    t += !s.nt ? s.w : g.flip() ? "[" + cats[s.i - 1] + "," + to_string(s.i) + "]" : "[" + to_string(s.i) + "]";
  }
  const int fields = r->tree.size() ? 5 : r->als.size() ? 4 : r->feats.size() ? 3 : g.range(2, 4);
  if (fields > 2) {
    t += Space(g, plain) + "|||";
    const bool semi = !plain && g.chance(1, 6);
    for (size_t i = 0; i < r->feats.size(); ++i) {
      string num;
      r->feats[i].second = Num(g, &num);
      t += i && semi ? ";" : Space(g, plain);
      // without a name: numbered by the position in the list
      if (g.chance(1, 4)) { r->feats[i].first = "PhraseModel_" + to_string(i); t += num; }
      else t += r->feats[i].first + "=" + num;
    }
  }
  if (fields > 3) {
    t += Space(g, plain) + "|||";
    for (auto& a : r->als) t += Space(g, plain) + to_string(a.first) + "-" + to_string(a.second);
  }
  if (r->tree.size()) t += Space(g, plain) + "||| " + r->tree;
  if (!plain && g.chance(1, 10)) t += Space(g, false);
  return t;
}

static Rule RandomRule(Gen& g, bool longish) {
  Rule r;
  r.level = 0;
  r.parent = -1;
  r.lhs = g.pick(kCats);
  size_t n = longish ? g.range(1, g.pick(vector<int>({20, 150, 199, 400}))) : g.count(1, 6);
  int nts = 0;
  const unsigned rate = g.range(0, 3);
  for (size_t i = 0; i < n; ++i) {
    Sym s;
    s.nt = nts < 99 && g.draw(4) < rate;
    s.w = s.nt ? g.pick(kCats) : g.pick(kWords);
    nts += s.nt;
    s.i = 0;
    r.f.push_back(s);
  }
  vector<int> p;
  for (int i = 1; i <= nts; ++i) p.push_back(i);
  if (g.chance(2, 3)) for (size_t i = p.size(); i > 1; --i) swap(p[i - 1], p[g.draw(i)]);
  for (int i : p) { Sym s; s.nt = true; s.i = i; r.e.push_back(s); }
  n = g.count(nts ? 0 : 1, longish ? 250 : 5);
  for (size_t i = 0; i < n; ++i) { Sym s; s.nt = false; s.i = 0; s.w = g.pick(kWords); r.e.insert(r.e.begin() + g.draw(r.e.size() + 1), s); }
  for (size_t i = longish ? g.range(0, 100) : g.count(0, 4); i > 0; --i) r.feats.push_back(make_pair(g.pick(kNames), 0.0));
  if (g.chance(1, 4)) for (size_t i = g.count(1, 4); i > 0; --i) r.als.push_back(make_pair(g.range(0, r.f.size() - 1), g.range(0, r.e.size() - 1)));
  if (nts < 9 && !longish && g.chance(1, 8)) {
    string t = "(" + string("S");
    for (auto& s : r.f) if (s.nt && s.w.find('|') == string::npos) t += " (Y [" + s.w + "])"; else if (s.nt) t += " [X]";
    if (r.als.size()) r.tree = t + ")";
  }
  return r;
}

static string Show(const TRule& r) { return r.AsString(); }

static void Compare(const Rule& want, const TRule& got, const string& what) {
  PBT_CHECK(got.lhs_ == -TD::Convert(want.lhs), what << ": left-hand side of " << Show(got));
  PBT_CHECK(got.f_ == want.F(), what << ": source side of " << Show(got));
  PBT_CHECK(got.e_ == want.E(), what << ": target side of " << Show(got));
  PBT_CHECK(got.Arity() == want.Arity(), what << ": arity " << got.Arity() << " of " << Show(got));
  map<string, double> f, wf = want.Feats();
  for (auto& x : got.scores_) if (x.second) f[FD::Convert(x.first)] = x.second;
  PBT_CHECK(f == wf, what << ": features of " << Show(got));
  vector<pair<int, int> > a;
  for (auto& x : got.a_) a.push_back(make_pair(x.s_, x.t_));
  PBT_CHECK(a == want.als, what << ": alignment of " << Show(got));
  ostringstream t;
  if (got.tree_structure) t << *got.tree_structure;
  PBT_CHECK(t.str() == want.tree, what << ": tree " << t.str());
}

struct Read {
  TRulePtr rule, coarse;
  unsigned level;
};
static void Collect(const TRulePtr& r, unsigned level, const TRulePtr& coarse, void* out) {
  Read x = {r, coarse, level};
  static_cast<vector<Read>*>(out)->push_back(x);
}

// What is printed while f runs.
struct Stdout {
  int fd, old;
  Stdout() {
    fflush(stdout);
    fd = memfd_create("out", 0);
    old = dup(1);
    dup2(fd, 1);
  }
  off_t Size() {
    fflush(stdout);
    cout.flush();
    return lseek(fd, 0, SEEK_END);
  }
  ~Stdout() { fflush(stdout); cout.flush(); dup2(old, 1); close(old); close(fd); }
};

struct Text {
  vector<Rule> rules;
  string text;
};

static Text RandomGrammar(Gen& g, Ctx& c) {
  Text t;
  const bool bulk = g.chance(1, 20), plain = g.flip(), ctf = g.chance(1, 4), gaps = g.chance(1, 6);
  const size_t n = bulk ? g.range(50, 900) : g.count(0, 12);
  const size_t longs = g.chance(1, 6) ? g.range(1, 4) : 0;
  vector<int> stack;
  for (size_t i = 0; i < n; ++i) {
    if (gaps && g.chance(1, 3)) t.text += g.pick(vector<string>({"\n", "\n\n"}));
    Rule r;
    const int level = ctf && stack.size() ? g.draw(stack.size() + 1) : 0;
    if (level) {
      stack.resize(level);
      // the same but for categories
      r = t.rules[stack.back()];
      r.parent = stack.back();
      r.level = level;
      r.lhs = g.pick(kCats);
      for (auto& s : r.f) if (s.nt && g.flip()) s.w = g.pick(kCats);
      r.tree.clear();
      if (g.flip()) r.feats.clear();
      c.count("fine rule");
    } else {
      stack.clear();
      r = RandomRule(g, i < longs);
      if (t.rules.size() && g.chance(1, 4)) r.f = g.pick(t.rules).f;  // shares a source side
      if (r.Arity() != (int)count_if(r.e.begin(), r.e.end(), [](const Sym& s) { return s.nt; })) {
        r.e.erase(remove_if(r.e.begin(), r.e.end(), [](const Sym& s) { return s.nt; }), r.e.end());
        for (int k = 1; k <= r.Arity(); ++k) { Sym s; s.nt = true; s.i = k; r.e.push_back(s); }
        r.tree.clear();
        if (r.e.empty()) { Sym s; s.nt = false; s.i = 0; s.w = "a"; r.e.push_back(s); }
      }
    }
    t.text += string(level, g.flip() ? ' ' : '\t') + Write(g, &r, plain) + "\n";
    stack.push_back(t.rules.size());
    t.rules.push_back(r);
  }
  if (t.text.size() && g.chance(1, 5)) { t.text.erase(t.text.size() - 1); c.count("no newline at the end"); }
  if (gaps) c.count("empty lines");
  if (bulk) c.count("many rules");
  return t;
}

static string Brief(const string& s) { return s.size() > 600 ? s.substr(0, 600) + "..." : s; }

// Grammars, read one after the other, and single rules.
static void Reading(Gen& g, Ctx& c) {
  SetSilent(true);
  size_t total = 0;
  string all;
  for (size_t k = g.count(1, 4); k > 0; --k) {
    if (g.chance(1, 3)) {
      Rule r = RandomRule(g, g.chance(1, 10));
      const string line = Write(g, &r, g.flip());
      Stdout out;
      TRule got(line);
      PBT_CHECK(out.Size() == 0, "reading rule '" << line << "' prints on the standard output");
      Compare(r, got, "rule '" + line + "'");
      c.count("single rule");
      continue;
    }
    Text t = RandomGrammar(g, c);
    vector<Read> got;
    istringstream in(t.text);
    Stdout out;
    RuleLexer::ReadRules(&in, Collect, "g", &got);
    PBT_CHECK(out.Size() == 0, "reading a grammar prints on the standard output:\n" << Brief(t.text));
    PBT_CHECK(got.size() == t.rules.size(), got.size() << " rules read, " << t.rules.size() << " written:\n" << Brief(t.text));
    for (size_t i = 0; i < got.size(); ++i) {
      ostringstream what;
      what << "rule " << i;
      Compare(t.rules[i], *got[i].rule, what.str());
      PBT_CHECK((int)got[i].level == t.rules[i].level, what.str() << ": level " << got[i].level);
      const TRule* p = got[i].coarse.get();
      PBT_CHECK(p == (t.rules[i].parent < 0 ? NULL : got[t.rules[i].parent].rule.get()), what.str() << ": wrong coarse rule");
    }
    total += got.size();
    if (c.want()) all += t.text;
  }
  if (total > 1) c.nontrivial();
  if (c.want()) c.desc() << Brief(all);
}

// A rule printed and read again; the other constructors; substitution.
static void RoundTrip(Gen& g, Ctx& c) {
  Rule r = RandomRule(g, g.chance(1, 6));
  r.tree.clear();
  // the printed form has no room for these
  if (r.feats.empty()) r.als.clear();
  const string line = Write(g, &r, true);
  TRule a(line);
  bool zero = r.Feats().empty();
  if (zero) r.als.clear();
  const string s = a.AsString();
  TRule b(s);
  PBT_CHECK(b.lhs_ == a.lhs_ && b.f_ == a.f_ && b.e_ == a.e_ && b.Arity() == a.Arity(), "'" << s << "' reads as " << b.AsString());
  map<string, double> fb;
  for (auto& x : b.scores_) fb[FD::Convert(x.first)] = x.second;
  for (auto& x : a.scores_) {
    const double v = fb[FD::Convert(x.first)];
    PBT_CHECK(fabs(v - x.second) <= 1e-5 * fabs(x.second), "feature " << FD::Convert(x.first) << " of '" << line << "' printed and read as " << v);
  }
  PBT_CHECK(b.scores_.size() == a.scores_.size(), "features of '" << s << "'");
  if (!zero) {
    PBT_CHECK(b.a_.size() == r.als.size(), "alignment of '" << s << "'");
    for (size_t i = 0; i < r.als.size(); ++i) PBT_CHECK(b.a_[i].s_ == r.als[i].first && b.a_[i].t_ == r.als[i].second, "alignment of '" << s << "'");
  }
  // substitution
  vector<vector<WordID> > vals(a.Arity());
  vector<const vector<WordID>*> ptr;
  for (auto& v : vals) {
    for (size_t i = g.count(0, 3); i > 0; --i) v.push_back(TD::Convert(g.pick(kWords)));
    ptr.push_back(&v);
  }
  vector<WordID> e, f, we, wf;
  a.ESubstitute(ptr, &e);
  a.FSubstitute(ptr, &f);
  int n = 0;
  for (auto& x : r.e) if (x.nt) we.insert(we.end(), vals[x.i - 1].begin(), vals[x.i - 1].end()); else we.push_back(TD::Convert(x.w));
  for (auto& x : r.f) if (x.nt) { wf.insert(wf.end(), vals[n].begin(), vals[n].end()); ++n; } else wf.push_back(TD::Convert(x.w));
  PBT_CHECK(e == we, "target side of '" << line << "' with its variables filled");
  PBT_CHECK(f == wf, "source side of '" << line << "' with its variables filled");
  PBT_CHECK(a.EWords() == (int)r.e.size() - a.Arity() && a.FWords() == (int)r.f.size() - a.Arity(), "number of words of '" << line << "'");
  // a monolingual rule and a pair of phrases
  string mono = "[" + r.lhs + "] |||", ph;
  for (auto& x : r.f) mono += x.nt ? " [" + x.w + "]" : " " + x.w;
  if (g.flip()) mono += " ||| F0=1";
  TRule m(mono, true);
  PBT_CHECK(m.f_ == a.f_ && m.lhs_ == a.lhs_ && m.Arity() == a.Arity(), "'" << mono << "' reads as " << m.AsString());
  n = 0;
  for (size_t i = 0; i < r.f.size(); ++i)
    PBT_CHECK(m.e_.size() == r.f.size() && m.e_[i] == (r.f[i].nt ? -(n++) : TD::Convert(r.f[i].w)), "target side of the monolingual rule '" << mono << "'");
  if (!a.Arity()) {
    TRulePtr p(TRule::CreateRulePhrasetable(line.substr(line.find("|||") + 4)));
    PBT_CHECK(p && p->f_ == a.f_ && p->e_ == a.e_ && p->lhs_ == -TD::Convert("X") && p->scores_ == a.scores_, "phrase pair '" << line << "'");
  }
  if (r.f.size() > 1) c.nontrivial();
  if (c.want()) c.desc() << Brief(line);
}

// What a grammar finds is what was written.
static void Lookup(Gen& g, Ctx& c) {
  SetSilent(true);
  vector<Text> ts;
  TextGrammar gr;
  vector<Rule> rules;
  const int span = g.range(0, 12);
  gr.SetMaxSpan(span);
  for (size_t k = g.count(1, 3); k > 0; --k) {
    Text t = RandomGrammar(g, c);
    const int how = g.draw(3);
    if (how == 0) {
      istringstream in(t.text);
      gr.ReadFromStream(&in);
    } else {
      const char* d = getenv("TMPDIR");
      ostringstream n;
      n << (d ? d : "/tmp") << "/g" << getpid() << (how == 1 ? ".scfg" : ".scfg.gz");
      { WriteFile w(n.str()); *w << t.text; }
      gr.ReadFromFile(n.str());
      unlink(n.str().c_str());
    }
    const size_t before = rules.size();
    for (auto r : t.rules) { if (r.parent >= 0) r.parent += before; rules.push_back(r); }
  }
  map<vector<WordID>, vector<int> > bins;
  map<WordID, vector<int> > unary;
  vector<int> allun;
  vector<vector<int> > fine(rules.size());
  unsigned levels = 0;
  for (size_t i = 0; i < rules.size(); ++i) {
    const vector<WordID> f = rules[i].F();
    if (rules[i].level) { fine[rules[i].parent].push_back(i); levels = max<unsigned>(levels, rules[i].level); }
    else if (f.size() == 1 && f[0] < 0) { unary[f[0]].push_back(i); allun.push_back(i); }
    else bins[f].push_back(i);
  }
  PBT_CHECK(gr.GetCTFLevels() == levels, gr.GetCTFLevels() << " levels, " << levels << " expected");
  vector<pair<TRulePtr, int> > todo;
  auto same = [&](const vector<TRulePtr>& got, const vector<int>& want, const string& what) {
    PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " rules, " << want.size() << " expected");
    for (size_t i = 0; i < want.size(); ++i) { Compare(rules[want[i]], *got[i], what); todo.push_back(make_pair(got[i], want[i])); }
  };
  auto find = [&](const vector<WordID>& f) {
    const GrammarIter* it = gr.GetRoot();
    for (size_t i = 0; it && i < f.size(); ++i) it = it->Extend(f[i]);
    vector<TRulePtr> r;
    const RuleBin* b = it ? it->GetRules() : NULL;
    if (b) {
      for (int i = 0; i < b->GetNumRules(); ++i) r.push_back(b->GetIthRule(i));
      PBT_CHECK(r.size() && b->Arity() == r[0]->Arity(), "arity of rules with the same source side");
    }
    return r;
  };
  same(gr.GetAllUnaryRules(), allun, "unary rules");
  for (auto& cat : kCats) same(gr.GetUnaryRulesForRHS(-TD::Convert(cat)), unary[-TD::Convert(cat)], "unary rules for " + cat);
  for (auto& b : bins) same(find(b.first), b.second, "rules for the source side of rule " + to_string(b.second[0]));
  // nearby source sides that no rule has
  for (int k = 0; k < 10 && rules.size(); ++k) {
    vector<WordID> f = g.pick(rules).F();
    if (g.flip()) f.pop_back();
    else if (g.flip()) f.push_back(TD::Convert(g.pick(kWords)));
    else f[g.draw(f.size())] = g.flip() ? TD::Convert(g.pick(kWords)) : -TD::Convert(g.pick(kCats));
    if (f.size() == 1 && f[0] < 0) continue;
    same(find(f), bins.count(f) ? bins[f] : vector<int>(), "rules for a source side nearby");
  }
  for (size_t i = 0; i < todo.size(); ++i) {
    const TRulePtr p = todo[i].first;
    same(p->fine_rules_ ? *p->fine_rules_ : vector<TRulePtr>(), fine[todo[i].second], "projections of a rule");
    if (todo.size() > 20000) break;
  }
  for (int d = 0; d < 14; ++d) PBT_CHECK(gr.HasRuleForSpan(0, d, d) == (d <= span), "span of " << d << ", limit " << span);
  if (bins.size() > 1) c.nontrivial();
  if (c.want()) for (size_t i = 0; i < rules.size() && i < 5; ++i) c.desc() << "[" << rules[i].lhs << "] " << rules[i].f.size() << " -> " << rules[i].e.size() << "; ";
}

// ---------------------------------------------------------------- trees
struct Tree {
  string label;
  int kind;  // 0 word, 1 open node, 2 inner node
  vector<Tree> kids;
};
static Tree RandomTree(Gen& g, int depth, bool open) {
  static const vector<string> words = {"a", "b", "NP", "[a", "b]", "[]", "\xe4\xb8\xad", "x|y", "1"};
  static const vector<string> labels = {"S", "NP", "a", "VP-1", "\xc3\xa9", "$,"};
  Tree t;
  t.kind = 2;
  t.label = g.pick(labels);
  for (size_t n = g.count(0, 5); n > 0; --n) {
    Tree k;
    const int what = g.draw(4);
    if (what >= 2 && depth > 0) k = RandomTree(g, depth - 1, open);
    else { k.kind = open && what == 1; k.label = k.kind ? g.pick(labels) : g.pick(words); }
    t.kids.push_back(k);
  }
  return t;
}
static string TreeText(const Tree& t, Gen* g) {
  if (t.kind == 0) return t.label;
  if (t.kind == 1) return "[" + t.label + "]";
  string s = g && g->chance(1, 8) ? "( " : "(";
  s += t.label;
  for (auto& k : t.kids) {
    // brackets end a word
    s += g && k.kind == 2 && g->chance(1, 8) ? "" : g && g->chance(1, 8) ? "   " : " ";
    s += TreeText(k, g);
  }
  if (g && g->chance(1, 8)) s += " ";
  return s + ")";
}
static void Symbols(const Tree& t, vector<unsigned>* out) {
  const unsigned l = TD::Convert(t.label);
  out->push_back(l | cdec::LHS_BIT);
  for (auto& k : t.kids) {
    const unsigned w = TD::Convert(k.label);
    if (k.kind == 0) out->push_back(w);
    else if (k.kind == 1) out->push_back(w | cdec::FRONTIER_BIT);
    else { out->push_back(w | cdec::RHS_BIT); Symbols(k, out); }
  }
}
static void Count(const Tree& t, int* nodes, int* open, int* words) {
  ++*nodes;
  for (auto& k : t.kids)
    if (k.kind == 0) ++*words;
    else if (k.kind == 1) ++*open;
    else Count(k, nodes, open, words);
}
static int Spans(const Tree& t, int left, vector<pair<int, int> >* out) {
  int r = left;
  for (auto& k : t.kids) r = k.kind == 2 ? Spans(k, r, out) : r + 1;
  out->push_back(make_pair(left, r));
  return r;
}
static void Post(const Tree& t, vector<const Tree*>* out) {
  for (auto& k : t.kids) if (k.kind == 2) Post(k, out);
  out->push_back(&t);
}

static void Trees(Gen& g, Ctx& c) {
  const bool open = g.flip();
  const Tree t = RandomTree(g, g.range(0, 6), open);
  const string text = TreeText(t, &g);
  cdec::TreeFragment f(text, open);
  ostringstream o;
  o << f;
  PBT_CHECK(o.str() == TreeText(t, NULL), "'" << text << "' printed as " << o.str());
  int nodes = 0, fr = 0, words = 0;
  Count(t, &nodes, &fr, &words);
  PBT_CHECK((int)f.nodes.size() == nodes && f.terminals == words && f.frontier_sites == (fr & 255), "'" << text << "': " << f.nodes.size() << " nodes, " << f.terminals << " words, " << (int)f.frontier_sites << " open nodes");
  PBT_CHECK((f.root & cdec::ALL_MASK) == (unsigned)TD::Convert(t.label), "root of '" << text << "'");
  vector<unsigned> want, got;
  Symbols(t, &want);
  for (auto s : f) { got.push_back(s); if (got.size() > want.size()) break; }
  PBT_CHECK(got == want, "symbols of '" << text << "'");
  vector<int> w, wt = f.Terminals();
  for (auto s : want) if (cdec::IsTerminal(s)) w.push_back(s);
  PBT_CHECK(w == wt, "words of '" << text << "'");
  // from inner nodes, leaving out some of the parts
  vector<const Tree*> post;
  Post(t, &post);
  if (!open) {
    vector<pair<int, int> > sp;
    Spans(t, 0, &sp);
    for (size_t i = 0; i < sp.size(); ++i)
      PBT_CHECK(f.nodes[i].span.first == sp[i].first && f.nodes[i].span.second == sp[i].second, "span of node " << i << " of '" << text << "'");
  }
  for (int k = 0; k < 3; ++k) {
    const size_t n = g.draw(post.size());
    want.clear();
    got.clear();
    struct Walk {
      vector<unsigned>& out; Gen& g; vector<bool>& dec;
      void go(const Tree& t) {
        out.push_back(TD::Convert(t.label) | cdec::LHS_BIT);
        for (auto& k : t.kids) {
          const unsigned w = TD::Convert(k.label);
          if (k.kind == 0) { out.push_back(w); continue; }
          if (k.kind == 1) { out.push_back(w | cdec::FRONTIER_BIT); continue; }
          const bool c = g.chance(1, 3);
          dec.push_back(c);
          if (c) out.push_back(w | cdec::FRONTIER_BIT);
          else { out.push_back(w | cdec::RHS_BIT); go(k); }
        }
      }
    };
    vector<bool> dec;
    Walk walk = {want, g, dec};
    walk.go(*post[n]);
    size_t d = 0;
    for (auto it = f.begin(n); !it.at_end(); ++it) {
      if (cdec::IsRHS(*it)) {
        PBT_CHECK(it.child_node() < f.nodes.size() && (f.nodes[it.child_node()].lhs & cdec::ALL_MASK) == (*it & cdec::ALL_MASK), "node below in '" << text << "'");
        if (d < dec.size() && dec[d++]) it.truncate();
      }
      got.push_back(*it);
      if (got.size() > want.size()) break;
    }
    PBT_CHECK(got == want, "symbols of node " << n << " of '" << text << "' with some parts left out");
  }
  if (nodes > 2) c.nontrivial();
  if (c.want()) c.desc() << text;
}

PBT_MAIN({"reading", Reading, 3}, {"roundtrip", RoundTrip, 2}, {"lookup", Lookup, 2}, {"trees", Trees, 1})
