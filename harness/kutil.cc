// The utilities under the language model tools: reading text through buffers
// and compression, sorted streams in threads, and in-memory containers.
#include "pbt.hpp"
#include <bzlib.h>
#include <lzma.h>
#include <zlib.h>
#include <algorithm>
#include <fstream>
#include <sys/wait.h>
#include <boost/scoped_ptr.hpp>
#include <boost/thread.hpp>
#include "util/bit_packing.hh"
#include "util/fake_ofstream.hh"
#include "util/file.hh"
#include "util/file_piece.hh"
#include "util/joint_sort.hh"
#include "util/multi_intersection.hh"
#include "util/murmur_hash.hh"
#include "util/pcqueue.hh"
#include "util/pool.hh"
#include "util/probing_hash_table.hh"
#include "util/read_compressed.hh"
#include "util/sized_iterator.hh"
#include "util/sorted_uniform.hh"
#include "util/stream/chain.hh"
#include "util/stream/io.hh"
#include "util/stream/multi_stream.hh"
#include "util/stream/sort.hh"
#include "util/stream/stream.hh"
#include "util/thread_pool.hh"
#include "util/tokenize_piece.hh"

using namespace std;
using pbt::Gen;
using pbt::Ctx;

static string Tmp(const char* suffix) {
  const char* t = getenv("TMPDIR");
  ostringstream o;
  o << (t ? t : "/tmp") << "/k" << getpid() << suffix;
  return o.str();
}
struct Unlink {
  string f;
  explicit Unlink(const string& n) : f(n) {}
  ~Unlink() { unlink(f.c_str()); }
};
static void Save(const string& f, const string& s) {
  ofstream o(f.c_str(), ios::binary);
  o.write(s.data(), s.size());
}
static string Show(const string& s) {
  string r;
  for (size_t i = 0; i < s.size() && i < 200; ++i) {
    if (s[i] == '\n') r += "\\n";
    else if (s[i] == '\t') r += "\\t";
    else if ((unsigned char)s[i] < 32) r += "?";
    else r += s[i];
  }
  if (s.size() > 200) { ostringstream o; o << "...(" << s.size() << ")"; r += o.str(); }
  return r;
}

// A file descriptor fed by another thread in pieces of a given size.
class Pipe {
 public:
  Pipe(const string& data, size_t piece) : data_(data), piece_(piece) {
    int p[2];
    if (pipe(p)) abort();
    in_ = p[0];
    out_ = p[1];
    t_.reset(new boost::thread(boost::ref(*this)));
  }
  ~Pipe() { t_->join(); }
  int fd() const { return in_; }
  void operator()() {
    for (size_t i = 0; i < data_.size();) {
      ssize_t n = write(out_, data_.data() + i, min(piece_, data_.size() - i));
      if (n <= 0) break;  // the reader has gone
      i += n;
    }
    close(out_);
  }

 private:
  string data_;
  size_t piece_;
  int in_, out_;
  boost::scoped_ptr<boost::thread> t_;
};

// ---------------------------------------------------------------- compression
static string Gz(const string& s, int level) {
  z_stream z;
  memset(&z, 0, sizeof(z));
  deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  string r(deflateBound(&z, s.size()) + 32, 0);
  z.next_in = (Bytef*)s.data();
  z.avail_in = s.size();
  z.next_out = (Bytef*)&r[0];
  z.avail_out = r.size();
  deflate(&z, Z_FINISH);
  r.resize(z.total_out);
  deflateEnd(&z);
  return r;
}
static string Bz(const string& s) {
  unsigned n = s.size() * 2 + 1000;
  string r(n, 0);
  BZ2_bzBuffToBuffCompress(&r[0], &n, (char*)s.data(), s.size(), 1, 0, 0);
  r.resize(n);
  return r;
}
static string Xz(const string& s) {
  string r(lzma_stream_buffer_bound(s.size()) + 64, 0);
  size_t pos = 0;
  lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, NULL, (const uint8_t*)s.data(), s.size(), (uint8_t*)&r[0], &pos, r.size());
  r.resize(pos);
  return r;
}

// Text of words, numbers and spaces whose size may be near the sizes of buffers.
static string Text(Gen& g, size_t big, bool binary = false) {
  string s;
  static const size_t near[] = {1, 2, 5, 6, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 16384, 16383, 16385, 20000, 24576, 40000};
  size_t parts = g.count(0, 12);
  for (size_t i = 0; i < parts; ++i) {
    string p;
    switch (g.draw(9)) {
      case 0: { size_t n = 1 + g.draw(12); for (size_t k = 0; k < n; ++k) p += (char)('a' + g.draw(26)); break; }
      case 1: p.assign(g.draw(4) ? 1 : g.draw(5), ' '); break;
      case 2: p.assign(1 + g.draw(3), '\n'); break;
      case 3: {
        char b[128];
        if (g.chance(1, 4)) snprintf(b, sizeof(b), "%.*f", (int)(15 + g.draw(40)), g.real(-1, 1) * pow(10, (int)g.draw(24) - 12));
        else snprintf(b, sizeof(b), "%.*g", (int)(1 + g.draw(17)), g.real(-1, 1) * pow(10, (int)g.draw(24) - 12)); 
        p = b;
        p += g.draw(4) ? " " : "\n";
        break;
      }
      case 4: { ostringstream o; o << (int64_t)(g.draw(0) >> (1 + g.draw(60))) * (g.flip() ? 1 : -1) << (g.draw(3) ? "\t" : "x"); p = o.str(); break; }
      case 5: p = g.pick(vector<string>{"\t", "\r\n", "\v", "\f ", "word next\n", "inf ", "-inf\n", "NaN ", "+1.5\n", "1e5 ", "-0 ", "0.0625\tq\n"}); break;
      case 6: if (big) p.assign(min(big, near[g.draw(18)]), g.draw(3) ? 'x' : ' '); break;
      case 7: if (big && !s.empty()) {  // what there is, over again
          size_t n = min(big, near[g.draw(18)]);
          string t = s.substr(s.size() - min<size_t>(s.size(), 1 + g.draw(40)));
          while (p.size() < n) p += t;
        }
        break;
      case 8: if (binary) { size_t n = g.draw(30); for (size_t k = 0; k < n; ++k) p += (char)g.draw(256); } else p = "\n"; break;
    }
    s += p;
    if (s.size() > 3 * big + 1000) break;
  }
  if (g.chance(1, 4)) while (!s.empty() && (s[s.size() - 1] == ' ' || s[s.size() - 1] == '\n')) s.resize(s.size() - 1);
  return s;
}

static const unsigned char kBZ[3] = {'B', 'Z', 'h'};
static bool LooksCompressed(const string& s) {
  return (s.size() >= 2 && (unsigned char)s[0] == 0x1f && (unsigned char)s[1] == 0x8b) || (s.size() >= 3 && !memcmp(s.data(), kBZ, 3)) ||
         (s.size() >= 6 && !memcmp(s.data(), "\xFD" "7zXZ\0", 6));
}

// One to three members of the compression chosen, which together hold s.
static string Compress(Gen& g, const string& s, string* how) {
  size_t members = 1 + (g.chance(1, 3) ? g.draw(3) : 0), at = 0;
  string r;
  int kind = g.draw(3);
  for (size_t i = 0; i < members; ++i) {
    size_t n = i + 1 == members ? s.size() - at : g.draw(s.size() - at + 1);
    if (g.chance(1, 4)) kind = g.draw(3);
    string p = s.substr(at, n);
    at += n;
    r += kind == 0 ? Gz(p, g.flip() ? 6 : 0) : kind == 1 ? Bz(p) : Xz(p);
    *how += kind == 0 ? "gz " : kind == 1 ? "bz2 " : "xz ";
  }
  return r;
}

static const bool* Delims(int kind) {
  static bool tab[256], mixed[256];
  static bool init = false;
  if (!init) {
    init = true;
    tab[(int)'\t'] = tab[(int)'\n'] = true;
    mixed[(int)'\n'] = mixed[(int)' '] = mixed[(int)'x'] = true;
  }
  return kind == 0 ? util::kSpaces : kind == 1 ? tab : mixed;
}

static void Pieces(Gen& g, Ctx& c) {
  size_t big = g.draw(3) ? 20000 : 0;
  string s = Text(g, big);
  if (LooksCompressed(s)) s = "_" + s;
  string how, file = Tmp(".t");
  Unlink u(file);
  size_t buf = g.pick(vector<size_t>{1, 4096, 8192, 10000, 1048576});
  boost::scoped_ptr<Pipe> pipe;
  istringstream is(s);
  boost::scoped_ptr<util::FilePiece> f;
  string raw = s;
  bool zip = g.chance(1, 3);
  if (zip) raw = Compress(g, s, &how);
  bool is_pipe = false;
  switch (g.draw(5)) {
    case 0: case 1: Save(file, raw); f.reset(new util::FilePiece(file.c_str(), NULL, buf)); how += "file"; break;
    case 2: Save(file, raw); f.reset(new util::FilePiece(util::OpenReadOrThrow(file.c_str()), "name", NULL, buf)); how += "fd"; break;
    case 3: pipe.reset(new Pipe(raw, g.pick(vector<size_t>{65536, 1, 7, 4096, 1000}))); f.reset(new util::FilePiece(pipe->fd(), NULL, NULL, buf)); how += "pipe"; is_pipe = true; break;
    case 4: how = "istream"; zip = false; f.reset(new util::FilePiece(is, NULL, buf)); break;
  }
  c.count(how);
  size_t p = 0, n = s.size(), ops = 0;
  const bool check_offset = true;
  bool ended = false;
  size_t cross = 0;
  while (!ended && ops < 60000) {
    int op = g.draw(9);
    const int dk = g.draw(4) ? 0 : g.draw(3);
    const bool* d = Delims(dk);
    char delim = g.draw(4) ? '\n' : g.pick(vector<char>{' ', 'x', '\t', 'z', '\0'});
    size_t run = g.draw(3) == 0 ? 1 : g.draw(3) ? 1 + g.draw(10) : 1 + g.draw(3000);
    while (run--) {
      ++ops;
      size_t before = p;
      if (op == 0) {
        if (p == n) {
          bool thrown = false;
          try { f->get(); } catch (const util::EndOfFileException&) { thrown = true; }
          PBT_CHECK(thrown, how << ": get() at the end of the file");
          ended = true;
          break;
        }
        char x = f->get();
        PBT_CHECK(x == s[p], how << ": get() at " << p << " gives " << (int)x << ", the file has " << (int)s[p]);
        ++p;
      } else if (op == 1) {  // ReadDelimited
        while (p < n && d[(unsigned char)s[p]]) ++p;
        size_t e = p;
        while (e < n && !d[(unsigned char)s[e]]) ++e;
        StringPiece got;
        bool thrown = false;
        try { got = f->ReadDelimited(d); } catch (const util::EndOfFileException&) { thrown = true; }
        PBT_CHECK(thrown == (p == n), how << ": ReadDelimited at " << before << (thrown ? " reports the end of the file, there is more" : " gives something at the end of the file"));
        if (thrown) { ended = true; break; }
        PBT_CHECK(got == StringPiece(s.data() + p, e - p), how << ": ReadDelimited at " << before << " gives '" << Show(string(got.data(), got.size())) << "', expected '" << Show(s.substr(p, e - p)) << "'");
        p = e;
      } else if (op == 2) {  // ReadWordSameLine
        while (p < n && d[(unsigned char)s[p]] && s[p] != '\n') ++p;
        size_t e = p;
        while (e < n && !d[(unsigned char)s[e]]) ++e;
        bool want = p < n && s[p] != '\n';
        StringPiece got;
        bool ok = f->ReadWordSameLine(got, d);
        PBT_CHECK(ok == want, how << ": ReadWordSameLine at " << before << " of " << n << " gives " << ok << " '" << (ok ? Show(string(got.data(), got.size())) : "") << "'");
        if (ok) {
          PBT_CHECK(got == StringPiece(s.data() + p, e - p), how << ": ReadWordSameLine at " << before << " gives '" << Show(string(got.data(), got.size())) << "', expected '" << Show(s.substr(p, e - p)) << "'");
          p = e;
        } else if (p < n) {
          PBT_CHECK(f->get() == '\n', how << ": the end of the line at " << p << " is not left");
          ++p;
        } else {
          ended = true;
          break;
        }
      } else if (op <= 5) {  // lines
        size_t e = p;
        while (e < n && s[e] != delim) ++e;
        StringPiece got;
        bool ok = true;
        if (op == 5) ok = f->ReadLineOrEOF(got, delim);
        else {
          try { got = f->ReadLine(delim); } catch (const util::EndOfFileException&) { ok = false; }
        }
        PBT_CHECK(ok == (p < n), how << ": ReadLine at " << p << " of " << n << (ok ? " gives a line" : " reports the end of the file"));
        if (!ok) { ended = true; break; }
        PBT_CHECK(got == StringPiece(s.data() + p, e - p), how << ": ReadLine at " << p << " gives '" << Show(string(got.data(), got.size())) << "', expected '" << Show(s.substr(p, e - p)) << "'");
        p = min(n, e + 1);
      } else if (op <= 7) {  // numbers, where one follows
        size_t b = p;
        while (b < n && util::kSpaces[(unsigned char)s[b]]) ++b;
        size_t e = b;
        if (e < n && (s[e] == '-' || (s[e] == '+' && op == 6))) ++e;
        size_t dig = e;
        while (e < n && isdigit(s[e])) ++e;
        if (e == dig || e - dig > 18) break;
        bool real = op == 6;
        if (real) {
          if (e + 1 < n && s[e] == '.' && isdigit(s[e + 1])) { ++e; while (e < n && isdigit(s[e])) ++e; }
          if (e < n && (s[e] == 'e' || s[e] == 'E')) {
            size_t x = e + 1;
            if (x < n && (s[x] == '+' || s[x] == '-')) ++x;
            if (x < n && isdigit(s[x])) { while (x < n && isdigit(s[x])) ++x; e = x; }
            else break;  // junk that looks like an exponent
          }
          if (e < n && (s[e] == '.' || s[e] == 'x' || s[e] == 'X')) break;
          string t = s.substr(b, e - b);
          if (delim == '\n') {
            double got = f->ReadDouble();
            PBT_CHECK(got == strtod(t.c_str(), NULL), how << ": ReadDouble of '" << t << "' at " << p << " gives " << got);
          } else {
            float got = f->ReadFloat();
            PBT_CHECK(got == strtof(t.c_str(), NULL), how << ": ReadFloat of '" << t << "' at " << p << " gives " << got);
          }
        } else {
          string t = s.substr(b, e - b);
          if (s[b] == '-' || delim == '\n') {
            long got = f->ReadLong();
            PBT_CHECK(got == strtol(t.c_str(), NULL, 10), how << ": ReadLong of '" << t << "' at " << p << " gives " << got);
          } else {
            unsigned long got = f->ReadULong();
            PBT_CHECK(got == strtoul(t.c_str(), NULL, 10), how << ": ReadULong of '" << t << "' at " << p << " gives " << got);
          }
        }
        p = e;
        c.count("numbers");
      } else {  // SkipSpaces
        bool thrown = false;
        while (p < n && d[(unsigned char)s[p]]) ++p;
        try { f->SkipSpaces(d); } catch (const util::EndOfFileException&) { thrown = true; }
        PBT_CHECK(!thrown || p == n, how << ": SkipSpaces at " << before << " reports the end of the file");
        if (thrown) { ended = true; break; }
      }
      if (check_offset) PBT_CHECK(f->Offset() == p, how << ": the position is " << p << " after " << ops << " operations, Offset() says " << f->Offset());
      if (before / 8192 != p / 8192) ++cross;
    }
  }
  // whatever is left
  StringPiece line;
  while (!ended) {
    size_t e = p;
    while (e < n && s[e] != '\n') ++e;
    bool ok = f->ReadLineOrEOF(line);
    PBT_CHECK(ok == (p < n), how << ": ReadLineOrEOF at " << p << " of " << n << " gives " << ok);
    if (!ok) break;
    PBT_CHECK(line == StringPiece(s.data() + p, e - p), how << ": ReadLineOrEOF at " << p << " gives another line");
    p = min(n, e + 1);
  }
  if (ended || p == n) PBT_CHECK(!f->ReadLineOrEOF(line), how << ": a line after the end of the file");
  if (cross) { c.nontrivial(); c.count("buffers crossed"); }
  if (c.want()) c.desc() << how << ", " << n << " bytes, buffer " << buf << ", " << ops << " operations";
}

static void Compressed(Gen& g, Ctx& c) {
  string s = Text(g, g.draw(3) ? 40000 : 0, true), how;
  bool zip = !g.chance(1, 4);
  if (!zip && LooksCompressed(s)) s = "_" + s;
  string raw = zip ? Compress(g, s, &how) : s;
  // 0: whole; 1: cut off; 2: text after the end
  int damage = zip && g.chance(1, 3) ? 1 + g.draw(2) : 0;
  if (damage == 1) {
    size_t first = how.find(' ') + 1 == how.size() ? 0 : raw.size();  // a single member only
    if (first || raw.size() < 8) damage = 0;
    else raw.resize(6 + g.draw(raw.size() - 6));
  } else if (damage == 2) {
    raw += g.pick(vector<string>{"more", "x", "text after the end of it all", string(1, '\0') + "y"});
  }
  string file = Tmp(".z");
  Unlink u(file);
  boost::scoped_ptr<Pipe> pipe;
  int fd;
  if (g.flip()) {
    Save(file, raw);
    fd = util::OpenReadOrThrow(file.c_str());
  } else {
    pipe.reset(new Pipe(raw, g.pick(vector<size_t>{65536, 1, 5, 6, 100, 16384})));
    fd = pipe->fd();
    how += "pipe";
  }
  c.count(how.empty() ? "plain" : how);
  string got;
  bool failed = false;
  try {
    util::ReadCompressed r(fd);
    vector<char> b(70000);
    size_t want = g.pick(vector<size_t>{1, 3, 100, 4096, 70000});
    bool fill = g.flip();
    bool mix = g.flip();
    while (true) {
      if (mix) want = g.draw(4) ? 1 + g.draw(20) : 1 + g.draw(60000);
      size_t n = fill ? r.ReadOrEOF(&b[0], want) : r.Read(&b[0], want);
      PBT_CHECK(n <= want, "Read gives " << n << " bytes, " << want << " were asked for");
      got.append(&b[0], n);
      PBT_CHECK(got.size() <= s.size(), how << ": more than the " << s.size() << " bytes there are");
      if (fill && n < want) break;
      if (!n) break;
    }
    if (!damage) {
      PBT_CHECK(r.Read(&b[0], 1) == 0, how << ": something is read after the end");
      PBT_CHECK(r.RawAmount() == raw.size(), how << ": RawAmount is " << r.RawAmount() << ", the file has " << raw.size());
    }
  } catch (const util::Exception& e) {
    failed = true;
    PBT_CHECK(damage, how << ": " << e.what());
  }
  if (damage) {
    PBT_CHECK(failed, how << ": " << (damage == 1 ? "a file cut off" : "text after the end") << " is not noticed");
    PBT_CHECK(got == s.substr(0, got.size()), how << ": what was read before the damage differs");
    c.count(damage == 1 ? "cut off" : "trailing text");
  } else {
    PBT_CHECK(got == s, how << ": " << got.size() << " bytes read differ from the " << s.size() << " bytes written");
  }
  if (s.size() > 10) c.nontrivial();
  if (c.want()) c.desc() << how << ", " << s.size() << " bytes, damage " << damage;
}

template <class It> static vector<string> Collect(It i) {
  vector<string> r;
  for (; i; ++i) {
    r.push_back(string(i->data(), i->size()));
    if (r.size() > 100000) PBT_FAIL("tokens without end");
  }
  return r;
}

static void Tokens(Gen& g, Ctx& c) {
  string s;
  string alpha = g.pick(vector<string>{"a ", "ab| ", "|| ", "abc \t"});
  size_t n = g.count(0, 30);
  for (size_t i = 0; i < n; ++i) s += alpha[g.draw(alpha.size())];
  int kind = g.draw(4);
  bool skip = g.flip();
  string d;
  vector<size_t> at, len;
  if (kind == 0) d = g.pick(vector<string>{" ", "|"});
  else if (kind == 1) d = g.pick(vector<string>{"|||", "||", " |", "aa", " "});
  else d = g.pick(vector<string>{" ", " \t", "| ", "a|"});
  vector<string> want;
  string cur;
  for (size_t i = 0; i < s.size();) {
    bool hit = kind == 1 ? s.compare(i, d.size(), d) == 0 : d.find(s[i]) != string::npos;
    if (hit) {
      want.push_back(cur);
      cur.clear();
      i += kind == 1 ? d.size() : 1;
    } else {
      cur += s[i++];
    }
  }
  want.push_back(cur);
  if (skip) want.erase(remove(want.begin(), want.end(), string()), want.end());
  bool table[256];
  memset(table, 0, sizeof(table));
  for (size_t i = 0; i < d.size(); ++i) table[(unsigned char)d[i]] = true;
  const bool* ct = table;
  StringPiece p(s);
  vector<string> got;
  switch (kind) {
    case 0: got = skip ? Collect(util::TokenIter<util::SingleCharacter, true>(p, d[0])) : Collect(util::TokenIter<util::SingleCharacter>(p, d[0])); break;
    case 1: got = skip ? Collect(util::TokenIter<util::MultiCharacter, true>(p, StringPiece(d))) : Collect(util::TokenIter<util::MultiCharacter>(p, StringPiece(d))); break;
    case 2: got = skip ? Collect(util::TokenIter<util::AnyCharacter, true>(p, StringPiece(d))) : Collect(util::TokenIter<util::AnyCharacter>(p, StringPiece(d))); break;
    case 3: got = skip ? Collect(util::TokenIter<util::BoolCharacter, true>(p, ct)) : Collect(util::TokenIter<util::BoolCharacter>(p, ct)); break;
  }
  PBT_CHECK(got == want, "'" << s << "' split at '" << d << "' (" << kind << (skip ? ", skipping" : "") << ") gives " << got.size() << " tokens, expected " << want.size());
  if (want.size() > 2) c.nontrivial();
  if (c.want()) c.desc() << "'" << s << "' at '" << d << "' kind " << kind;
}

static void FileOps(Gen& g, Ctx& c) {
  string base = Tmp("d/");
  string dir = base.substr(0, base.size() - 1);
  mkdir(dir.c_str(), 0700);
  util::scoped_fd f(util::MakeTemp(base + "p"));
  PBT_CHECK(rmdir(dir.c_str()) == 0, "the temporary file has a name");
  string m;
  size_t pos = 0, ops = 1 + g.count(0, 20);
  ostringstream log;
  for (size_t i = 0; i < ops; ++i) {
    string d;
    size_t n = g.draw(4) ? g.draw(30) : g.draw(100000);
    size_t off = g.draw(3) ? g.draw(m.size() + 1) : g.draw(m.size() + 100);
    switch (g.draw(8)) {
      case 0: case 1: {
        for (size_t k = 0; k < n; ++k) d += (char)('a' + (k * 7 + i) % 26);
        bool at = g.flip();
        if (at) util::ErsatzPWrite(f.get(), d.data(), d.size(), off);
        else { off = pos; util::WriteOrThrow(f.get(), d.data(), d.size()); pos += d.size(); }
        if (d.empty()) break;
        if (m.size() < off + d.size()) m.resize(off + d.size());
        m.replace(off, d.size(), d);
        log << (at ? " pwrite " : " write ") << off << "+" << n;
        break;
      }
      case 2: {
        vector<char> b(n + 1);
        bool thrown = false;
        try { util::ErsatzPRead(f.get(), &b[0], n, off); } catch (const util::EndOfFileException&) { thrown = true; }
        PBT_CHECK(thrown == (n && off + n > m.size()), "reading " << n << " bytes at " << off << " of " << m.size() << (thrown ? " fails" : " succeeds") << log.str());
        if (!thrown) PBT_CHECK(n == 0 || m.compare(off, n, &b[0], n) == 0, "other bytes at " << off << "+" << n << log.str());
        break;
      }
      case 3: {
        vector<char> b(n + 1);
        size_t got = util::ReadOrEOF(f.get(), &b[0], n), want = min(n, m.size() - min(m.size(), pos));
        PBT_CHECK(got == want, "ReadOrEOF of " << n << " bytes at " << pos << " of " << m.size() << " gives " << got << log.str());
        PBT_CHECK(want == 0 || m.compare(pos, want, &b[0], want) == 0, "other bytes at " << pos << "+" << want << log.str());
        pos += got;
        break;
      }
      case 4: {
        vector<char> b(n + 1);
        bool thrown = false;
        try { util::ReadOrThrow(f.get(), &b[0], n); } catch (const util::EndOfFileException&) { thrown = true; }
        bool want = n > m.size() - min(m.size(), pos);
        PBT_CHECK(thrown == want, "ReadOrThrow of " << n << " bytes at " << pos << " of " << m.size() << log.str());
        if (thrown) pos = max(pos, m.size());
        else { PBT_CHECK(n == 0 || m.compare(pos, n, &b[0], n) == 0, "other bytes at " << pos << "+" << n << log.str()); pos += n; }
        break;
      }
      case 5: util::ResizeOrThrow(f.get(), off); m.resize(off); log << " resize " << off; break;
      case 6:
        switch (g.draw(3)) {
          case 0: util::SeekOrThrow(f.get(), off); pos = off; break;
          case 1: util::SeekEnd(f.get()); pos = m.size(); break;
          case 2: { int64_t a = (int64_t)off - (int64_t)pos; util::AdvanceOrThrow(f.get(), a); pos = off; break; }
        }
        log << " at " << pos;
        break;
      case 7: PBT_CHECK(util::SizeOrThrow(f.get()) == m.size(), "the size is given as " << util::SizeFile(f.get()) << ", it is " << m.size() << log.str()); break;
    }
  }
  if (m.size()) c.nontrivial();
  if (c.want()) c.desc() << log.str();
}

static void Output(Gen& g, Ctx& c) {
  string file = Tmp(".o"), want;
  Unlink u(file);
  vector<pair<size_t, pair<double, int> > > nums;  // where, value, kind
  string got;
  {
    util::scoped_fd f(util::CreateOrThrow(file.c_str()));
    util::FakeOFStream o(g.flip() ? f.get() : -1);
    o.SetFD(f.get());
    size_t ops = g.count(0, 30);
    bool huge = g.chance(1, 4);
    for (size_t i = 0; i < ops; ++i) {
      switch (g.draw(6)) {
        case 0: { size_t n = huge ? (size_t)g.pick(vector<size_t>{1048576, 1048575, 1048577, 524288, 3000000, 1048540}) - g.draw(3) : g.draw(20); string s(n, 'a' + i % 26); o << StringPiece(s); want += s; break; }
        case 1: o << (char)('A' + i); want += (char)('A' + i); break;
        case 2: { unsigned v = g.draw(1ULL << 32) >> g.draw(32); o << v; ostringstream s; s << v; want += s.str(); break; }
        case 3: { float v = g.draw(4) ? (float)(g.real(-1, 1) * pow(10, (int)g.draw(60) - 30)) : (float)(int)g.draw(100) - 50; o << v << ' '; nums.push_back(make_pair(want.size(), make_pair((double)v, 0))); want += "# "; break; }
        case 4: { double v = g.draw(4) ? g.real(-1, 1) * pow(10, (int)g.draw(400) - 200) : (int)g.draw(100) - 50; o << v << ' '; nums.push_back(make_pair(want.size(), make_pair(v, 1))); want += "# "; break; }
        case 5: if (g.flip()) o.Flush(); break;
      }
    }
    if (g.flip()) o.Finish();
  }
  ifstream in(file.c_str(), ios::binary);
  stringstream ss;
  ss << in.rdbuf();
  got = ss.str();
  size_t p = 0, q = 0;
  for (size_t i = 0; i <= nums.size(); ++i) {
    size_t to = i < nums.size() ? nums[i].first : want.size();
    PBT_CHECK(got.compare(p, to - q, want, q, to - q) == 0 && got.size() >= p + to - q, "output differs after byte " << p << " of " << got.size());
    p += to - q;
    q = to;
    if (i == nums.size()) break;
    size_t e = got.find(' ', p);
    PBT_CHECK(e != string::npos && e > p, "no number at byte " << p);
    string t = got.substr(p, e - p);
    double v = nums[i].second.first;
    if (nums[i].second.second) PBT_CHECK(strtod(t.c_str(), NULL) == v, "the double " << v << " is written as " << t);
    else PBT_CHECK(strtof(t.c_str(), NULL) == (float)v, "the float " << v << " is written as " << t);
    p = e;
    ++q;
  }
  PBT_CHECK(p == got.size(), "surplus output after byte " << p);
  if (want.size() > 10) c.nontrivial();
  if (c.want()) c.desc() << want.size() << " bytes, " << nums.size() << " numbers";
}

// ---------------------------------------------------------------- streams
struct Rec {
  uint32_t key;
  uint32_t val;
  bool operator<(const Rec& o) const { return key != o.key ? key < o.key : val < o.val; }
};
// records of any size: key (4 bytes), value (4 bytes), padding that repeats them
struct Layout {
  static size_t extra;
  static size_t Size() { return 8 + extra; }
  static void Put(void* to, const Rec& r) {
    memcpy(to, &r.key, 4);
    memcpy((char*)to + 4, &r.val, 4);
    for (size_t i = 0; i < extra; ++i) ((char*)to)[8 + i] = (char)(r.key + i);
  }
  static Rec Get(const void* from) {
    Rec r;
    memcpy(&r.key, from, 4);
    memcpy(&r.val, (const char*)from + 4, 4);
    for (size_t i = 0; i < extra; ++i)
      if (((const char*)from)[8 + i] != (char)(r.key + i)) r.val = 0xdeadbeef;
    return r;
  }
};
size_t Layout::extra = 0;

struct Cmp {
  bool operator()(const void* a, const void* b) const { return *(const uint32_t*)a < *(const uint32_t*)b; }
};
struct Add {
  bool operator()(void* into, const void* option, const Cmp& cmp) const {
    if (cmp(into, option)) return false;
    ((uint32_t*)into)[1] += ((const uint32_t*)option)[1];
    return true;
  }
};

class Source {  // through a Stream
 public:
  explicit Source(const vector<Rec>& r) : r_(&r) {}
  void Run(const util::stream::ChainPosition& p) {
    util::stream::Stream s(p);
    for (size_t i = 0; i < r_->size(); ++i, ++s) Layout::Put(s.Get(), (*r_)[i]);
    s.Poison();
  }

 private:
  const vector<Rec>* r_;
};
class BlockSource {  // through a Link, with blocks of sizes of its own
 public:
  BlockSource(const vector<Rec>& r, const vector<size_t>& sizes) : r_(&r), sizes_(&sizes) {}
  void Run(const util::stream::ChainPosition& p) {
    util::stream::Link l(p);
    size_t at = 0;
    for (size_t i = 0; i < sizes_->size(); ++i, ++l) {
      for (size_t k = 0; k < (*sizes_)[i]; ++k) Layout::Put((char*)l->Get() + k * Layout::Size(), (*r_)[at++]);
      l->SetValidSize((*sizes_)[i] * Layout::Size());
    }
    l.Poison();
  }

 private:
  const vector<Rec>* r_;
  const vector<size_t>* sizes_;
};
class Sink {
 public:
  explicit Sink(vector<Rec>* r) : r_(r) {}
  void Run(const util::stream::ChainPosition& p) {
    for (util::stream::Stream s(p); s; ++s) r_->push_back(Layout::Get(s.Get()));
  }

 private:
  vector<Rec>* r_;
};
class Change {  // in place
 public:
  explicit Change(uint32_t d) : d_(d) {}
  void Run(const util::stream::ChainPosition& p) {
    for (util::stream::Stream s(p); s; ++s) {
      Rec r = Layout::Get(s.Get());
      r.val += d_;
      Layout::Put(s.Get(), r);
    }
  }

 private:
  uint32_t d_;
};
class Drop {  // drops records within each block, as pruning does
 public:
  explicit Drop(uint32_t m) : m_(m) {}
  void Run(const util::stream::ChainPosition& p) {
    for (util::stream::Link l(p); l; ++l) {
      char* to = (char*)l->Get();
      for (char* i = to; i != (char*)l->Get() + l->ValidSize(); i += Layout::Size()) {
        if (Layout::Get(i).key % 5 == m_) continue;
        memmove(to, i, Layout::Size());
        to += Layout::Size();
      }
      l->SetValidSize(to - (char*)l->Get());
    }
  }

 private:
  uint32_t m_;
};

static vector<Rec> Records(Gen& g, size_t max) {
  vector<Rec> r;
  size_t n = g.draw(4) ? g.draw(max) : g.draw(12);
  uint64_t keys = g.pick(vector<uint64_t>{1000000, 3, 20, 100});
  uint64_t seed = g.draw(0);
  for (size_t i = 0; i < n; ++i) {
    Rec x;
    x.key = pbt::Mix(seed + i) % keys;
    x.val = i + 1;
    r.push_back(x);
  }
  if (g.chance(1, 5)) sort(r.begin(), r.end());
  if (g.chance(1, 8)) reverse(r.begin(), r.end());
  return r;
}

static util::stream::ChainConfig Config(Gen& g, size_t entries) {
  util::stream::ChainConfig cc;
  cc.entry_size = Layout::Size();
  cc.block_count = 1 + g.draw(4);
  cc.total_memory = cc.block_count * (1 + g.draw(entries)) * cc.entry_size + g.draw(cc.entry_size);
  return cc;
}

template <class Combine> static void SortCase(Gen& g, Ctx& c, bool combine) {
  Layout::extra = g.pick(vector<size_t>{0, 0, 3, 4, 13});
  vector<Rec> r = Records(g, 600);
  util::stream::ChainConfig cc = Config(g, g.draw(3) ? 12 : 200);
  size_t per = cc.total_memory / (cc.block_count * cc.entry_size);
  util::stream::SortConfig sc;
  string tmp = Tmp("s");
  sc.temp_prefix = tmp;
  sc.buffer_size = Layout::Size() * (1 + g.draw(6)) + g.draw(Layout::Size());
  sc.total_memory = sc.buffer_size * (4 + g.draw(6)) + g.draw(sc.buffer_size);
  size_t lazy = g.draw(4) ? g.draw(sc.total_memory + 1) : g.draw(20) * 1000;
  int source = g.draw(3), out = g.draw(4);
  vector<size_t> sizes;
  size_t blocks = (r.size() + per - 1) / per;
  if (source == 1) {
    blocks = 0;
    for (size_t at = 0; at < r.size() || g.chance(1, 3);) {
      size_t n = min(r.size() - at, (size_t)g.draw(per + 1));
      if (at < r.size() && sizes.size() > 2000) n = min(per, r.size() - at);
      sizes.push_back(n);
      if (n) ++blocks;
      at += n;
      if (sizes.size() > 2100) break;
    }
  }
  string file = Tmp(".in");
  Unlink u(file);
  vector<Rec> got;
  {
    util::stream::Chain chain(cc);
    util::scoped_fd in;
    if (source == 0) chain >> Source(r);
    else if (source == 1) chain >> BlockSource(r, sizes);
    else {
      string data;
      for (size_t i = 0; i < r.size(); ++i) {
        string b(Layout::Size(), 0);
        Layout::Put(&b[0], r[i]);
        data += b;
      }
      Save(file, data);
      in.reset(util::OpenReadOrThrow(file.c_str()));
      if (g.flip()) chain >> util::stream::Read(in.get());
      else chain >> util::stream::PRead(in.get());
    }
    util::stream::Sort<Cmp, Combine> sorter(chain, sc);
    chain.Wait(g.flip());
    PBT_CHECK(sorter.Size() == r.size() * Layout::Size(), "the sorter has " << sorter.Size() << " bytes for " << r.size() << " records of " << Layout::Size());
    if (out == 0) {
      sorter.Output(chain);
      chain >> Sink(&got) >> util::stream::kRecycle;
      chain.Wait();
    } else if (out == 1) {
      util::stream::ChainConfig oc = Config(g, 20);
      util::stream::Chain ochain(oc);
      size_t need = sorter.Merge(lazy);
      PBT_CHECK(need <= lazy, "merging for " << lazy << " bytes leaves a need for " << need);
      sorter.Output(ochain, lazy);
      ochain >> Sink(&got) >> util::stream::kRecycle;
      ochain.Wait();
    } else if (out == 2) {
      sorter.Output(chain, lazy);
      chain >> Sink(&got);
      chain.Wait();
    } else {
      util::scoped_fd f(sorter.StealCompleted());
      size_t n = util::SizeOrThrow(f.get()) / Layout::Size();
      string b(Layout::Size(), 0);
      for (size_t i = 0; i < n; ++i) {
        util::ReadOrThrow(f.get(), &b[0], b.size());
        got.push_back(Layout::Get(&b[0]));
      }
    }
  }
  vector<Rec> want = r;
  for (size_t i = 1; i < got.size(); ++i)
    PBT_CHECK(got[i - 1].key <= got[i].key, "record " << i << " (key " << got[i].key << ") after key " << got[i - 1].key << "; " << r.size() << " records in " << blocks << " blocks");
  if (combine && blocks > 1) {
    map<uint32_t, uint32_t> sum;
    for (size_t i = 0; i < r.size(); ++i) sum[r[i].key] += r[i].val;
    want.clear();
    for (map<uint32_t, uint32_t>::iterator i = sum.begin(); i != sum.end(); ++i) {
      Rec x = {i->first, i->second};
      want.push_back(x);
    }
    c.count("combined");
  }
  sort(want.begin(), want.end());
  sort(got.begin(), got.end());
  PBT_CHECK(got.size() == want.size(), got.size() << " records come out of the sort, expected " << want.size() << "; " << r.size() << " in " << blocks << " blocks, buffer " << sc.buffer_size << ", memory " << sc.total_memory << ", lazy " << lazy);
  for (size_t i = 0; i < got.size(); ++i)
    PBT_CHECK(got[i].key == want[i].key && got[i].val == want[i].val, "record " << got[i].key << "/" << got[i].val << " comes out, expected " << want[i].key << "/" << want[i].val);
  if (blocks > 1) c.nontrivial();
  c.count(blocks > 20 ? "more than 20 blocks" : blocks > 1 ? "2-20 blocks" : "one block");
  if (c.want()) c.desc() << r.size() << " records of " << Layout::Size() << " bytes, " << blocks << " blocks, buffer " << sc.buffer_size << ", memory " << sc.total_memory << ", lazy " << lazy << ", output " << out;
}

static void SortStream(Gen& g, Ctx& c) {
  if (g.flip()) SortCase<util::stream::NeverCombine>(g, c, false);
  else SortCase<Add>(g, c, true);
}

class Both {  // adds what it finds in both chains, position by position
 public:
  explicit Both(vector<Rec>* out) : out_(out) {}
  void Run(const util::stream::ChainPositions& ps) {
    util::stream::Streams s(ps);
    bool more = true;
    while (more) {
      more = false;
      for (util::stream::Stream* i = s.begin(); i != s.end(); ++i) {
        if (!*i) continue;
        Rec r = Layout::Get(i->Get());
        r.val += 1000000 * (i - s.begin());
        out_->push_back(r);
        ++*i;
        more = true;
      }
    }
  }

 private:
  vector<Rec>* out_;
};

static void ChainStream(Gen& g, Ctx& c) {
  Layout::extra = g.pick(vector<size_t>{0, 0, 5});
  if (g.chance(1, 4)) {  // several chains, one worker
    size_t n = 1 + g.draw(3);
    vector<vector<Rec> > rs(n);
    vector<Rec> got, want;
    size_t longest = 0;
    {
      util::stream::Chains chains(n);
      for (size_t i = 0; i < n; ++i) {
        rs[i] = Records(g, 100);
        longest = max(longest, rs[i].size());
        chains.push_back(Config(g, 10));
      }
      for (size_t i = 0; i < n; ++i) chains[i] >> Source(rs[i]);
      chains >> Both(&got) >> util::stream::kRecycle;
      chains.Wait();
    }
    for (size_t k = 0; k < longest; ++k)
      for (size_t i = 0; i < n; ++i)
        if (k < rs[i].size()) {
          want.push_back(rs[i][k]);
          want.back().val += 1000000 * i;
        }
    PBT_CHECK(got.size() == want.size(), n << " chains: " << got.size() << " records arrive, expected " << want.size());
    for (size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i].key == want[i].key && got[i].val == want[i].val, n << " chains: record " << i << " differs");
    if (n > 1) c.nontrivial();
    c.count("several chains");
    if (c.want()) c.desc() << n << " chains";
    return;
  }
  util::stream::Chain chain(Config(g, g.draw(2) ? 5 : 100));
  size_t rounds = 1 + g.draw(3);
  string file = Tmp(".c");
  Unlink u(file);
  for (size_t round = 0; round < rounds; ++round) {
    vector<Rec> r = Records(g, 400), got, mid;
    vector<Rec> want = r;
    size_t workers = g.draw(4);
    vector<int> ops;
    util::scoped_fd f(util::CreateOrThrow(file.c_str()));
    util::stream::FileBuffer buffer(util::DupOrThrow(f.get()));
    chain >> Source(r);
    for (size_t i = 0; i < workers; ++i) {
      if (g.chance(1, 3)) {
        uint32_t m = g.draw(5);
        chain >> Drop(m);
        vector<Rec> k;
        for (size_t j = 0; j < want.size(); ++j) if (want[j].key % 5 != m) k.push_back(want[j]);
        want.swap(k);
      } else {
        uint32_t d = 1 + g.draw(1000);
        chain >> Change(d);
        for (size_t j = 0; j < want.size(); ++j) want[j].val += d;
      }
    }
    int end = g.draw(4);
    if (end == 0) {
      chain >> Sink(&got) >> util::stream::kRecycle;
    } else if (end == 1) {
      chain >> Sink(&mid) >> util::stream::Write(f.get()) >> Sink(&got) >> util::stream::kRecycle;
    } else if (end == 2) {
      chain >> util::stream::WriteAndRecycle(f.get());
    } else {
      chain >> buffer.Sink();
    }
    chain.Wait(g.flip());
    if (end) {
      PBT_CHECK(util::SizeOrThrow(f.get()) == want.size() * Layout::Size(), "the file has " << util::SizeOrThrow(f.get()) << " bytes, expected " << want.size() << " records of " << Layout::Size());
      vector<Rec> back;
      if (end == 3) {
        PBT_CHECK(buffer.Size() == want.size() * Layout::Size(), "the buffer's size");
        chain >> buffer.Source() >> Sink(&back);
      } else {
        util::SeekOrThrow(f.get(), 0);
        chain >> util::stream::Read(f.get()) >> Sink(&back);
      }
      chain.Wait(g.flip());
      if (end == 1) PBT_CHECK(got.size() == back.size() && mid.size() == back.size(), "the file has " << back.size() << " records, " << mid.size() << " before and " << got.size() << " went on after it was written");
      got.swap(back);
    }
    PBT_CHECK(got.size() == want.size(), got.size() << " records arrive, expected " << want.size() << " (round " << round << ", " << workers << " workers, end " << end << ")");
    for (size_t i = 0; i < got.size(); ++i)
      PBT_CHECK(got[i].key == want[i].key && got[i].val == want[i].val, "record " << i << " is " << got[i].key << "/" << got[i].val << ", expected " << want[i].key << "/" << want[i].val << " (end " << end << ")");
    if (r.size() > 5) c.nontrivial();
    if (c.want()) c.desc() << r.size() << " records, " << workers << " workers, end " << end << "; ";
  }
}

struct Handler {
  typedef int Request;
  explicit Handler(vector<vector<int> >* seen) : seen_(seen) {
    boost::unique_lock<boost::mutex> l(m_);
    seen_->push_back(vector<int>());
    me_ = seen_->size() - 1;
  }
  void operator()(int r) {
    boost::unique_lock<boost::mutex> l(m_);
    (*seen_)[me_].push_back(r);
  }
  vector<vector<int> >* seen_;
  size_t me_;
  static boost::mutex m_;
};
boost::mutex Handler::m_;

struct Producer {
  util::PCQueue<int>* q;
  int id, n;
  void operator()() { for (int i = 0; i < n; ++i) q->Produce(id * 100000 + i); }
};
struct Consumer {
  util::PCQueue<int>* q;
  int n;
  vector<int>* out;
  void operator()() { for (int i = 0; i < n; ++i) { if (i & 1) out->push_back(q->Consume()); else { int x = -1; q->Consume(x); out->push_back(x); } } }
};

static void Queue(Gen& g, Ctx& c) {
  vector<vector<int> > seen;
  int producers = 1 + g.draw(3), each = g.draw(200), size = 1 + g.draw(g.draw(2) ? 3 : 20), consumers = 1 + g.draw(3);
  bool pool = g.flip();
  if (pool) {
    seen.reserve(16);
    util::ThreadPool<Handler> p(size, consumers, &seen, -1);
    boost::thread_group t;
    for (int i = 0; i < producers; ++i) {
      Producer x = {&p.In(), i, each};
      t.create_thread(x);
    }
    t.join_all();
  } else {
    util::PCQueue<int> q(size);
    seen.resize(consumers);
    boost::thread_group t;
    int total = producers * each;
    for (int i = 0; i < consumers; ++i) {
      Consumer x = {&q, total / consumers + (i < total % consumers), &seen[i]};
      t.create_thread(x);
    }
    for (int i = 0; i < producers; ++i) {
      Producer x = {&q, i, each};
      t.create_thread(x);
    }
    t.join_all();
  }
  vector<int> all;
  for (size_t i = 0; i < seen.size(); ++i) {
    map<int, int> last;
    for (size_t k = 0; k < seen[i].size(); ++k) {
      int id = seen[i][k] / 100000, x = seen[i][k] % 100000;
      // a pool's handlers may be overtaken between taking and handling, but not by themselves
      PBT_CHECK(!last.count(id) || last[id] < x, "consumer " << i << " gets item " << x << " of producer " << id << " after " << last[id]);
      last[id] = x;
      all.push_back(seen[i][k]);
    }
  }
  sort(all.begin(), all.end());
  PBT_CHECK((int)all.size() == producers * each, all.size() << " items arrive, " << producers * each << " were produced");
  for (int i = 0; i < producers; ++i)
    for (int k = 0; k < each; ++k) PBT_CHECK(all[i * each + k] == i * 100000 + k, "item " << k << " of producer " << i << " is lost or repeated");
  if (each > 1) c.nontrivial();
  c.count(pool ? "pool" : "queue");
  if (c.want()) c.desc() << producers << " producers of " << each << ", " << consumers << " consumers, size " << size << (pool ? ", pool" : "");
}

// ---------------------------------------------------------------- containers
struct HEntry {
  typedef uint64_t Key;
  uint64_t key, val;
  uint64_t GetKey() const { return key; }
  void SetKey(uint64_t k) { key = k; }
};
struct WeakHash {
  explicit WeakHash(int k = 0) : kind(k) {}
  int kind;
  uint64_t operator()(uint64_t k) const {
    switch (kind) {
      case 0: return k;
      case 1: return k % 4;
      case 2: return 0xFFFFFFFFFFFFFFFFULL - k % 3;
      default: return util::MurmurHashNative(&k, sizeof(k), 7);
    }
  }
};

static void Probing(Gen& g, Ctx& c) {
  typedef util::AutoProbing<HEntry, WeakHash> Auto;
  typedef util::ProbingHashTable<HEntry, WeakHash> Fixed;
  int kind = g.draw(4);
  uint64_t invalid = g.draw(3) ? 0 : g.draw(30), range = g.pick(vector<uint64_t>{40, 10, 1000});
  bool fixed = g.chance(1, 3);
  map<uint64_t, uint64_t> m;
  size_t ops = g.count(1, 30);
  if (g.flip()) ops *= 1 + g.draw(20);
  size_t cap = 1 + g.draw(12);
  float mult = g.pick(vector<float>{1.5, 1.0, 3.0});
  boost::scoped_ptr<Auto> a;
  boost::scoped_ptr<Fixed> f;
  vector<HEntry> mem;
  size_t buckets = 0;
  if (fixed) {
    mem.resize(Fixed::Size(cap, mult) / sizeof(HEntry));
    buckets = mem.size();
    PBT_CHECK(buckets > cap, "space for " << buckets << " entries is too small for " << cap);
    f.reset(new Fixed(&mem[0], mem.size() * sizeof(HEntry), invalid, WeakHash(kind)));
    f->Clear();
  } else {
    a.reset(new Auto(cap, invalid, WeakHash(kind)));
  }
  size_t doubled = 0;
  for (size_t i = 0; i < ops; ++i) {
    uint64_t k = g.draw(range);
    if (k == invalid) k = range + 5;
    HEntry e = {k, i + 1};
    HEntry* out = NULL;
    const HEntry* co = NULL;
    switch (g.draw(8)) {
      case 0: case 1: case 2: {
        bool found, thrown = false;
        try { found = fixed ? f->FindOrInsert(e, out) : a->FindOrInsert(e, out); } catch (const util::ProbingSizeException&) { thrown = true; }
        if (thrown) {
          PBT_CHECK(fixed && !m.count(k) && m.size() + 1 >= buckets, "a table of " << buckets << " with " << m.size() << " entries reports being full");
          i = ops;
          break;
        }
        PBT_CHECK(!fixed || m.count(k) || m.size() + 1 < buckets, "a table of " << buckets << " takes " << m.size() + 1 << " entries");
        PBT_CHECK(found == (m.count(k) > 0), "FindOrInsert of " << k << " finds it: " << found);
        PBT_CHECK(out->key == k && out->val == (found ? m[k] : e.val), "FindOrInsert of " << k << " gives the entry of " << out->key);
        m[k] = out->val;
        break;
      }
      case 3: {
        if (m.count(k)) break;
        bool thrown = false;
        try { out = fixed ? f->Insert(e) : a->Insert(e); } catch (const util::ProbingSizeException&) { thrown = true; }
        if (thrown) {
          PBT_CHECK(fixed && m.size() + 1 >= buckets, "a table of " << buckets << " with " << m.size() << " entries reports being full");
          i = ops;
          break;
        }
        PBT_CHECK(!fixed || m.size() + 1 < buckets, "a table of " << buckets << " takes " << m.size() + 1 << " entries");
        PBT_CHECK(out->key == k && out->val == e.val, "Insert of " << k);
        m[k] = e.val;
        break;
      }
      case 4: {
        bool found = fixed ? f->UnsafeMutableFind(k, out) : a->UnsafeMutableFind(k, out);
        PBT_CHECK(found == (m.count(k) > 0), "UnsafeMutableFind of " << k << " finds it: " << found);
        if (found) { PBT_CHECK(out->val == m[k], "value of " << k); out->val = m[k] = i + 1000; }
        break;
      }
      case 5: {
        bool found = fixed ? f->Find(k, co) : a->Find(k, co);
        PBT_CHECK(found == (m.count(k) > 0), "Find of " << k << " finds it: " << found);
        if (found) {
          PBT_CHECK(co->key == k && co->val == m[k], "value of " << k);
          PBT_CHECK((fixed ? f->MustFind(k) : a->MustFind(k)) == co, "MustFind of " << k);
          PBT_CHECK((fixed ? f->UnsafeMutableMustFind(k) : a->UnsafeMutableMustFind(k)) == co, "UnsafeMutableMustFind of " << k);
        }
        break;
      }
      case 6:
        if (fixed && g.chance(1, 3) && mem.size() < 2000) {
          bool clear = g.flip();
          HEntry none = {invalid, 0};
          PBT_CHECK(f->DoubleTo() == mem.size() * 2 * sizeof(HEntry), "DoubleTo");
          mem.resize(mem.size() * 2, none);
          if (clear) for (size_t j = buckets; j < mem.size(); ++j) mem[j].key = 12345678;
          f->Double(&mem[0], clear);
          buckets = mem.size();
          ++doubled;
        } else if (fixed && g.chance(1, 3)) {
          vector<HEntry> other = mem;
          mem.swap(other);
          f->Relocate(&mem[0]);
          HEntry junk = {99999, 1};
          fill(other.begin(), other.end(), junk);
        }
        break;
      case 7: if (g.chance(1, 20)) { if (fixed) f->Clear(); else a->Clear(); m.clear(); } break;
    }
    PBT_CHECK((fixed ? f->SizeNoSerialization() : a->Size()) == m.size() || i == ops, "size " << (fixed ? f->SizeNoSerialization() : a->Size()) << ", expected " << m.size());
  }
  for (map<uint64_t, uint64_t>::iterator i = m.begin(); i != m.end(); ++i) {
    const HEntry* co = NULL;
    PBT_CHECK((fixed ? f->Find(i->first, co) : a->Find(i->first, co)) && co->val == i->second, "key " << i->first << " has got lost or changed at the end");
  }
  if (fixed && m.size() + 1 < buckets) f->CheckConsistency();  // it takes a table with its first place free for full
  if (m.size() > 3) c.nontrivial();
  if (doubled) c.count("doubled");
  c.count(fixed ? "fixed" : "auto");
  if (c.want()) c.desc() << m.size() << " keys, hash " << kind << (fixed ? ", fixed" : ", growing");
}

static void Uniform(Gen& g, Ctx& c) {
  vector<uint64_t> v;
  int width = g.draw(3);  // 0: 64 bit, 1: 32 bit, 2: 16 bit
  uint64_t top = width == 0 ? ~0ULL : width == 1 ? 0xFFFFFFFFULL : 0xFFFFULL;
  size_t n = g.count(0, 60);
  int dist = g.draw(4);
  for (size_t i = 0; i < n; ++i) {
    uint64_t x = g.draw(0);
    if (dist == 0) x &= top;
    else if (dist == 1) x %= 40;
    else if (dist == 2) x = top - x % 40;
    else x = (x & top) >> g.draw(width == 0 ? 64 : width == 1 ? 32 : 16);
    v.push_back(x & top);
  }
  sort(v.begin(), v.end());
  if (g.flip()) v.erase(unique(v.begin(), v.end()), v.end());
  vector<uint32_t> v32(v.begin(), v.end());
  for (size_t q = 0; q < 12; ++q) {
    uint64_t k;
    switch (g.draw(3)) {
      case 0: k = v.empty() ? 3 : v[g.draw(v.size())]; break;
      case 1: k = (v.empty() ? 3 : v[g.draw(v.size())]) + (g.flip() ? 1 : -1); break;
      default: k = g.draw(0);
    }
    k &= top;
    bool want = binary_search(v.begin(), v.end(), k);
    c.evals(1);
    if (width == 0) {
      const uint64_t* out = NULL;
      util::IdentityAccessor<uint64_t> acc;
      const uint64_t* b = v.data();
      PBT_CHECK(util::BinaryFind(acc, b, b + v.size(), k, out) == want && (!want || *out == k), "BinaryFind of " << k << " among " << v.size());
      out = NULL;
      bool got = util::SortedUniformFind<const uint64_t*, util::IdentityAccessor<uint64_t>, util::Pivot64>(acc, b, b + v.size(), k, out);
      PBT_CHECK(got == want && (!want || *out == k), "SortedUniformFind of " << k << " among " << v.size() << " gives " << got);
      // with bounds outside of the range, as tries use them
      if (top > k) {
        got = util::BoundedSortedUniformFind<const uint64_t*, util::IdentityAccessor<uint64_t>, util::Pivot64>(acc, b - 1, 0, b + v.size(), top, k, out);
        PBT_CHECK(got == want && (!want || *out == k), "BoundedSortedUniformFind of " << k << " among " << v.size() << " gives " << got);
      }
    } else {
      const uint32_t* out = NULL;
      util::IdentityAccessor<uint32_t> acc;
      const uint32_t* b = v32.data();
      bool got = util::SortedUniformFind<const uint32_t*, util::IdentityAccessor<uint32_t>, util::Pivot32>(acc, b, b + v32.size(), (uint32_t)k, out);
      PBT_CHECK(got == want && (!want || *out == k), "SortedUniformFind (32) of " << k << " among " << v.size() << " gives " << got);
      got = util::BoundedSortedUniformFind<const uint32_t*, util::IdentityAccessor<uint32_t>, util::Pivot32>(acc, b - 1, 0, b + v32.size(), (uint32_t)top, (uint32_t)k, out);
      PBT_CHECK(got == want && (!want || *out == k), "BoundedSortedUniformFind (32) of " << k << " among " << v.size() << " gives " << got);
    }
  }
  if (v.size() > 3) c.nontrivial();
  if (c.want()) c.desc() << v.size() << " values, width " << width << ", distribution " << dist;
}

struct Collector {
  vector<int> v;
  void operator()(int x) { v.push_back(x); }
};

static void Intersections(Gen& g, Ctx& c) {
  size_t n = 1 + g.draw(4);
  vector<vector<int> > s(n);
  size_t range = 5 + g.draw(40);
  for (size_t i = 0; i < n; ++i) {
    unsigned den = 1 + g.draw(4);
    for (size_t x = 0; x < range; ++x)
      if (g.draw(4) >= den - 1) s[i].push_back(x);
  }
  vector<int> want;
  for (size_t x = 0; x < range; ++x) {
    size_t k = 0;
    for (size_t i = 0; i < n; ++i) k += binary_search(s[i].begin(), s[i].end(), (int)x);
    if (k == n) want.push_back(x);
  }
  typedef boost::iterator_range<vector<int>::const_iterator> R;
  vector<R> sets;
  for (size_t i = 0; i < n; ++i) sets.push_back(R(s[i].begin(), s[i].end()));
  vector<R> copy = sets;
  boost::optional<int> first = util::FirstIntersection(copy);
  PBT_CHECK((bool)first == !want.empty() && (want.empty() || *first == want[0]), "first element in common of " << n << " sets");
  Collector col;
  util::AllIntersection(sets, col);
  PBT_CHECK(col.v == want, n << " sets have " << want.size() << " elements in common, " << col.v.size() << " are found");
  if (want.size() && n > 1) c.nontrivial();
  if (c.want()) c.desc() << n << " sets in [0," << range << "), " << want.size() << " in common";
}

static void Sorting(Gen& g, Ctx& c) {
  size_t n = g.count(0, 15);
  if (g.flip()) n *= 1 + g.draw(8);
  uint64_t range = g.pick(vector<uint64_t>{1000, 3, 1ULL << 40});
  vector<uint64_t> k;
  vector<int> v;
  multimap<uint64_t, int> m;
  for (size_t i = 0; i < n; ++i) {
    k.push_back(g.draw(range));
    v.push_back(i);
  }
  vector<uint64_t> orig = k;
  if (g.flip()) util::JointSort(k.begin(), k.end(), v.begin());
  else {
    util::JointSort(k.begin(), k.end(), v.begin(), greater<uint64_t>());
    reverse(k.begin(), k.end());
    reverse(v.begin(), v.end());
  }
  set<int> seen;
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(!i || k[i - 1] <= k[i], "keys out of order at " << i);
    PBT_CHECK(v[i] >= 0 && (size_t)v[i] < n && orig[v[i]] == k[i], "value " << v[i] << " does not go with key " << k[i]);
    PBT_CHECK(seen.insert(v[i]).second, "value " << v[i] << " twice");
  }
  // entries of a size known at run time
  size_t size = 8 + g.draw(20);
  string mem(n * size, 0);
  for (size_t i = 0; i < n; ++i) {
    memcpy(&mem[i * size], &orig[i], 8);
    for (size_t j = 8; j < size; ++j) mem[i * size + j] = (char)(i + j);
  }
  multiset<string> before, after;
  for (size_t i = 0; i < n; ++i) before.insert(mem.substr(i * size, size));
  struct C { bool operator()(const void* a, const void* b) const { return *(const uint64_t*)a < *(const uint64_t*)b; } };
  if (n) sort(util::SizedIt(&mem[0], size), util::SizedIt(&mem[0] + n * size, size), util::SizedCompare<C>(C()));
  for (size_t i = 0; i < n; ++i) {
    after.insert(mem.substr(i * size, size));
    PBT_CHECK(!i || *(uint64_t*)&mem[(i - 1) * size] <= *(uint64_t*)&mem[i * size], "entries of " << size << " bytes out of order at " << i);
  }
  PBT_CHECK(before == after, "entries of " << size << " bytes change when they are sorted");
  if (n > 2) c.nontrivial();
  if (c.want()) c.desc() << n << " entries of " << size << " bytes";
}

static void Bits(Gen& g, Ctx& c) {
  size_t n = g.count(1, 40);
  struct F { uint64_t off; int kind; uint8_t len; uint64_t v; float f; };
  vector<F> fs;
  uint64_t off = g.draw(20);
  for (size_t i = 0; i < n; ++i) {
    F x;
    x.off = off;
    x.kind = g.draw(4);
    x.f = 0;
    x.v = 0;
    x.len = 0;
    if (x.kind == 0) x.len = g.draw(58);
    else if (x.kind == 1) x.len = g.draw(26);
    else if (x.kind == 2) x.len = 32;
    else x.len = 31;
    if (x.kind <= 1) {
      x.v = g.draw(0) & ((1ULL << x.len) - 1);
      if (g.chance(1, 4)) x.v = (1ULL << x.len) - 1;
      if (x.len) {
        uint64_t max = g.chance(1, 3) ? x.v : (1ULL << x.len) - 1;
        util::BitsMask bm = util::BitsMask::ByMax(max);
        PBT_CHECK((bm.bits == 0 ? max == 0 : (max >> (bm.bits - 1)) == 1) && bm.mask == (1ULL << bm.bits) - 1, "bits for numbers up to " << max << ": " << (int)bm.bits);
      }
    } else {
      x.f = g.draw(5) ? (float)(g.real(-1, 1) * pow(10, (int)g.draw(40) - 20)) : 0;
      if (x.kind == 3) x.f = -fabs(x.f);
      if (x.kind == 3) { float s = -x.f, t = x.f; util::SetSign(s); util::UnsetSign(t); PBT_CHECK(s == x.f && t == -x.f && !signbit(t) && signbit(s), "sign of " << x.f); }
    }
    fs.push_back(x);
    off += x.len + (g.draw(4) ? 0 : g.draw(10));
  }
  vector<uint8_t> mem(off / 8 + 9, 0);
  vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  for (size_t i = n; i > 1; --i) swap(order[i - 1], order[g.draw(i)]);
  for (size_t o = 0; o < n; ++o) {
    const F& x = fs[order[o]];
    switch (x.kind) {
      case 0: util::WriteInt57(&mem[0], x.off, x.len, x.v); break;
      case 1: util::WriteInt25(&mem[0], x.off, x.len, x.v); break;
      case 2: util::WriteFloat32(&mem[0], x.off, x.f); break;
      case 3: util::WriteNonPositiveFloat31(&mem[0], x.off, x.f); break;
    }
  }
  for (size_t i = 0; i < n; ++i) {
    const F& x = fs[i];
    switch (x.kind) {
      case 0: PBT_CHECK(util::ReadInt57(&mem[0], x.off, x.len, (1ULL << x.len) - 1) == x.v, x.v << " in " << (int)x.len << " bits at " << x.off << " reads " << util::ReadInt57(&mem[0], x.off, x.len, (1ULL << x.len) - 1)); break;
      case 1: PBT_CHECK(util::ReadInt25(&mem[0], x.off, x.len, (1U << x.len) - 1) == x.v, x.v << " in " << (int)x.len << " bits at " << x.off << " reads " << util::ReadInt25(&mem[0], x.off, x.len, (1U << x.len) - 1)); break;
      case 2: { float f = util::ReadFloat32(&mem[0], x.off); PBT_CHECK(!memcmp(&f, &x.f, 4), x.f << " at " << x.off << " reads " << f); break; }
      case 3: PBT_CHECK(util::ReadNonPositiveFloat31(&mem[0], x.off) == x.f, x.f << " at " << x.off << " reads " << util::ReadNonPositiveFloat31(&mem[0], x.off)); break;
    }
  }
  // nothing else was written
  vector<bool> used(mem.size() * 8);
  for (size_t i = 0; i < n; ++i)
    for (size_t b = 0; b < fs[i].len; ++b) used[fs[i].off + b] = true;
  for (size_t b = 0; b < used.size(); ++b) PBT_CHECK(used[b] || !(mem[b / 8] >> (b % 8) & 1), "bit " << b << " is set between the fields");
  if (n > 2) c.nontrivial();
  if (c.want()) c.desc() << n << " fields in " << off << " bits";
}

static uint64_t Murmur(const string& s, uint64_t seed) {  // MurmurHash64A
  const uint64_t m = 0xc6a4a7935bd1e995ULL;
  uint64_t h = seed ^ (s.size() * m);
  size_t i = 0;
  for (; i + 8 <= s.size(); i += 8) {
    uint64_t k = 0;
    for (int b = 7; b >= 0; --b) k = k << 8 | (unsigned char)s[i + b];
    k *= m;
    k ^= k >> 47;
    k *= m;
    h = (h ^ k) * m;
  }
  if (i < s.size()) {
    uint64_t k = 0;
    for (size_t b = s.size(); b > i; --b) k = k << 8 | (unsigned char)s[b - 1];
    h = (h ^ k) * m;
  }
  h ^= h >> 47;
  h *= m;
  h ^= h >> 47;
  return h;
}

static void Hashing(Gen& g, Ctx& c) {
  string s;
  size_t n = g.draw(40);
  for (size_t i = 0; i < n; ++i) s += (char)g.draw(256);
  uint64_t seed = g.flip() ? 0 : g.draw(0);
  size_t shift = g.draw(8);
  string buf = string(shift, 'x') + s + "tail";
  uint64_t got = util::MurmurHash64A(buf.data() + shift, s.size(), seed), want = Murmur(s, seed);
  PBT_CHECK(got == want, "hash of " << n << " bytes, offset " << shift << ": " << got << ", expected " << want);
  PBT_CHECK(util::MurmurHashNative(buf.data() + shift, s.size(), seed) == want, "native hash of " << n << " bytes");
  // memory from a pool does not overlap
  util::Pool pool;
  vector<pair<char*, size_t> > parts;
  size_t k = g.count(0, 40);
  for (size_t i = 0; i < k; ++i) {
    size_t sz = g.draw(5) ? 1 + g.draw(40) : 1 + g.draw(3000);
    char* p = (char*)pool.Allocate(sz);
    memset(p, (int)(i + 1), sz);
    parts.push_back(make_pair(p, sz));
    if (g.chance(1, 30)) { pool.FreeAll(); parts.clear(); }
  }
  for (size_t i = 0; i < parts.size(); ++i) {
    char want = parts[i].first[0];
    for (size_t j = 0; j < parts[i].second; ++j) PBT_CHECK(parts[i].first[j] == want, "parts of the pool overlap");
    for (size_t j = 0; j < i; ++j)
      PBT_CHECK(parts[i].first >= parts[j].first + parts[j].second || parts[j].first >= parts[i].first + parts[i].second, "parts of the pool overlap");
  }
  if (n > 8) c.nontrivial();
  if (c.want()) c.desc() << n << " bytes at offset " << shift << ", " << k << " allocations";
}

PBT_MAIN({"pieces", Pieces, 4}, {"compressed", Compressed, 2}, {"tokens", Tokens, 0.7}, {"fileops", FileOps, 0.7}, {"output", Output, 0.6},
         {"sort", SortStream, 4}, {"chain", ChainStream, 2}, {"queue", Queue, 1},
         {"probing", Probing, 2}, {"uniform", Uniform, 1}, {"intersections", Intersections, 1}, {"sorting", Sorting, 1}, {"bits", Bits, 1}, {"hashing", Hashing, 0.7})
