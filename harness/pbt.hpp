// Generated-input search over recorded choices.
//
// A suite is a function of a Gen (a stream of choices) and a Ctx.  It generates
// its case with the Gen, runs the code under test, and throws pbt::Violation
// when the oracle disagrees.  Every choice is recorded in a file that is mapped
// into memory, so a crash, an abort or a hang leaves the case that caused it.
// Searching, replaying and shrinking is driven from lib/vp.py.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <cmath>
#include <exception>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Violation {
  std::string msg;
  explicit Violation(const std::string& m) : msg(m) {}
};

#define PBT_FAIL(expr)                       \
  do {                                       \
    std::ostringstream pbt_os_;              \
    pbt_os_.precision(17);                   \
    pbt_os_ << expr;                         \
    throw pbt::Violation(pbt_os_.str());     \
  } while (0)
#define PBT_CHECK(cond, expr) \
  do {                        \
    if (!(cond)) PBT_FAIL(expr); \
  } while (0)

static const size_t kMaxChoices = 1 << 18;
struct Shared {
  uint64_t index;
  uint32_t suite;
  uint32_t n;
  uint64_t choice[kMaxChoices];
};

inline uint64_t Mix(uint64_t z) {
  z += 0x9E3779B97F4A7C15ULL;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

class Gen {
 public:
  Gen(uint64_t seed, Shared* sh) : s_(seed), sh_(sh), replay_(NULL) { sh_->n = 0; }
  Gen(const std::vector<uint64_t>* replay, Shared* sh) : s_(0), sh_(sh), replay_(replay) { sh_->n = 0; }
  // uniform in [0,n); n == 0 means any 64-bit value
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (replay_) {
      v = sh_->n < replay_->size() ? (*replay_)[sh_->n] : 0;
      if (n && v >= n) v %= n;
    } else {
      s_ += 0x9E3779B97F4A7C15ULL;
      v = Mix(s_);
      if (n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    if (sh_->n < kMaxChoices) sh_->choice[sh_->n++] = v;
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw(hi - lo + 1); }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool flip() { return draw(2) == 1; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }
  // a number of elements: geometric-ish, biased to small
  size_t count(size_t lo, size_t hi) {
    size_t n = lo;
    // decide the mean first so that large sizes do occur
    unsigned stop = 1 + draw(8);
    while (n < hi && draw(16) >= stop) ++n;
    return n;
  }
  // a multiple of 1/8 in [-m/8, m/8]
  double grid(int m) {
    int64_t v = draw(2 * m + 1);
    return ((v & 1) ? -(v + 1) / 2 : v / 2) / 8.0;
  }
  // a real number in (0,1)
  double unit() { return (draw(0) >> 11) * (1.0 / 9007199254740992.0) + 1e-17; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }

 private:
  uint64_t s_;
  Shared* sh_;
  const std::vector<uint64_t>* replay_;
};

class Ctx {
 public:
  Ctx() : nontrivial_(false), evals_(1), want_(false) {}
  void count(const std::string& label, uint64_t n = 1) { labels_[label] += n; }
  void nontrivial() { nontrivial_ = true; }
  void evals(uint64_t n) { evals_ += n; }
  bool want() const { return want_; }
  std::ostringstream& desc() { return desc_; }
  std::map<std::string, uint64_t> labels_;
  bool nontrivial_;
  uint64_t evals_;
  bool want_;
  std::ostringstream desc_;
};

typedef void (*Fn)(Gen&, Ctx&);
struct Suite {
  const char* name;
  Fn fn;
  double weight;
};

inline double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string Json(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

// CPU seconds a single case may take
static int g_case_cpu = 20;
inline void Arm(int secs) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, NULL);  // SIGPROF ends the process
}

inline bool RunCase(const Suite& s, Gen& g, Ctx& c, std::string* msg) {
  Arm(g_case_cpu);
  bool ok = true;
  try {
    s.fn(g, c);
  } catch (const Violation& v) {
    ok = false;
    *msg = v.msg;
  } catch (const std::exception& e) {
    ok = false;
    *msg = std::string("unexpected exception: ") + e.what();
  }
  Arm(0);
  return ok;
}

// harness run SEED WORKER SECS MAXCASES MAPFILE OUTFILE [SUITE,SUITE...]
// harness replay SUITE CHOICEFILE MAPFILE OUTFILE
inline int Main(int argc, char** argv, const std::vector<Suite>& suites) {
  if (argc < 2) {
    for (size_t i = 0; i < suites.size(); ++i) std::cout << suites[i].name << "\n";
    return 0;
  }
  const std::string mode = argv[1];
  const bool run = mode == "run";
  const char* mapfile = argv[run ? 6 : 4];
  const char* outfile = argv[run ? 7 : 5];
  int fd = open(mapfile, O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 2;
  Shared* sh = (Shared*)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (sh == MAP_FAILED) return 2;
  std::string msg;
  if (!run) {
    const Suite* s = NULL;
    for (size_t i = 0; i < suites.size(); ++i)
      if (suites[i].name == std::string(argv[2])) s = &suites[i];
    if (!s) return 2;
    std::vector<uint64_t> ch;
    FILE* f = fopen(argv[3], "r");
    if (!f) return 2;
    unsigned long long v;
    while (fscanf(f, "%llu", &v) == 1) ch.push_back(v);
    fclose(f);
    Gen g(&ch, sh);
    Ctx c;
    c.want_ = true;
    bool ok = RunCase(*s, g, c, &msg);
    FILE* o = fopen(outfile, "w");
    fprintf(o, "{\"ok\": %s, \"n\": %u, \"msg\": %s, \"desc\": %s}\n", ok ? "true" : "false", sh->n, Json(msg).c_str(),
            Json(c.desc_.str().substr(0, 8000)).c_str());
    fclose(o);
    fflush(NULL);
    _exit(ok ? 0 : 1);
  }
  const uint64_t seed = strtoull(argv[2], 0, 10), worker = strtoull(argv[3], 0, 10);
  const double secs = atof(argv[4]);
  const uint64_t maxcases = strtoull(argv[5], 0, 10);
  const std::string only = argc > 8 ? std::string(",") + argv[8] + "," : "";
  std::vector<double> used(suites.size(), 0);
  std::vector<uint64_t> idx(suites.size(), 0), evals(suites.size(), 0), nontriv(suites.size(), 0);
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  std::vector<int> nsamp(suites.size(), 0);
  const double t0 = Now();
  double t = t0;
  bool failed = false;
  std::string fsuite;
  for (uint64_t n = 0; n < maxcases && t - t0 < secs; ++n) {
    int b = -1;
    for (size_t i = 0; i < suites.size(); ++i) {
      if (!only.empty() && only.find("," + std::string(suites[i].name) + ",") == std::string::npos) continue;
      if (suites[i].weight <= 0 && only.empty()) continue;
      if (b < 0 || used[i] / suites[i].weight < used[b] / suites[b].weight) b = i;
    }
    if (b < 0) return 2;
    sh->suite = b;
    sh->index = idx[b];
    Gen g(Mix(Mix(Mix(seed) ^ (worker + 1) * 0x1000193) ^ Mix(b * 7919 + 13) ^ Mix(idx[b] + 77)), sh);
    ++idx[b];
    Ctx c;
    c.want_ = nsamp[b] < 3;
    bool ok = RunCase(suites[b], g, c, &msg);
    double t1 = Now();
    used[b] += (t1 - t) + 1e-7;
    t = t1;
    evals[b] += c.evals_;
    for (std::map<std::string, uint64_t>::iterator i = c.labels_.begin(); i != c.labels_.end(); ++i)
      labels[std::string(suites[b].name) + "/" + i->first] += i->second;
    if (!ok) {
      failed = true;
      fsuite = suites[b].name;
      break;
    }
    if (c.nontrivial_) {
      uint64_t h = b;
      for (uint32_t i = 0; i < sh->n; ++i) h = Mix(h ^ sh->choice[i]);
      if (distinct.size() < 400000 && distinct.insert(h).second) {
        ++nontriv[b];
        if (nsamp[b] < 3) {
          ++nsamp[b];
          samples.push_back(std::string(suites[b].name) + ": " + c.desc_.str().substr(0, 600));
        }
      }
    }
  }
  FILE* o = fopen(outfile, "w");
  if (!o) return 2;
  fprintf(o, "{\"failed\": %s, \"suite\": %s, \"msg\": %s, \"suites\": {", failed ? "true" : "false", Json(fsuite).c_str(),
          Json(msg).c_str());
  bool firsts = true;
  for (size_t i = 0; i < suites.size(); ++i) {
    if (!idx[i]) continue;
    fprintf(o, "%s%s: {\"cases\": %llu, \"evaluations\": %llu, \"nontrivial\": %llu, \"secs\": %.2f}", firsts ? "" : ", ",
            Json(suites[i].name).c_str(), (unsigned long long)idx[i], (unsigned long long)evals[i],
            (unsigned long long)nontriv[i], used[i]);
    firsts = false;
  }
  fprintf(o, "}, \"labels\": {");
  bool first = true;
  for (std::map<std::string, uint64_t>::iterator i = labels.begin(); i != labels.end(); ++i, first = false)
    fprintf(o, "%s%s: %llu", first ? "" : ", ", Json(i->first).c_str(), (unsigned long long)i->second);
  fprintf(o, "}, \"samples\": [");
  for (size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s%s", i ? ", " : "", Json(samples[i]).c_str());
  fprintf(o, "], \"hashes\": [");
  first = true;
  for (std::unordered_set<uint64_t>::iterator i = distinct.begin(); i != distinct.end(); ++i, first = false)
    fprintf(o, "%s%llu", first ? "" : ",", (unsigned long long)*i);
  fprintf(o, "]}\n");
  fclose(o);
  fflush(NULL);
  _exit(0);
}

inline bool Near(double a, double b, double tol = 1e-6) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}

}  // namespace pbt

#define PBT_MAIN(...)                                   \
  int main(int argc, char** argv) {                     \
    std::vector<pbt::Suite> s = {__VA_ARGS__};          \
    return pbt::Main(argc, argv, s);                    \
  }
