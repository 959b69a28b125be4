// Media: fragmenting / failing input, refusing / failing output, damaged stored images.
#pragma once
#include "model.hh"
#include <streambuf>
#include <istream>
#include <ostream>
#include <sstream>

namespace sim {

struct ReadError : std::runtime_error { ReadError() : std::runtime_error("simulated read error") {} };
struct WriteError : std::runtime_error { WriteError() : std::runtime_error("simulated write error") {} };

// Delivers `data` in fragments of simulator-chosen sizes; at offset `err` the medium fails (underflow raises).
class InMedium : public std::streambuf {
  string data; size_t pos = 0, err; int frag; bool seekable; char buf[256]; bool dead = false;
public:
  uint64_t reads = 0; bool failed = false;
  // frag: 0 whole blocks, 1 single bytes, 2 random fragments
  InMedium(string const& d, int frag_, size_t err_ = size_t(-1), bool seek = false) : data(d), err(err_), frag(frag_), seekable(seek) { setg(buf, buf, buf); }
protected:
  int_type underflow() override {
    Out out; reads++;
    if (dead || pos >= err) { dead = true; failed = true; fault(F_READ_ERROR); throw ReadError(); }
    if (pos >= data.size()) return traits_type::eof();
    size_t n = std::min(data.size() - pos, sizeof buf);
    if (frag && fragment_budget()) { if (frag == 1) n = 1; else n = std::min(n, size_t(1 + pick(pick(4) ? 7 : 64))); }
    if (pos + n > err) n = err - pos;
    if (n < std::min(data.size() - pos, sizeof buf)) fault(F_SHORT_READ);
    memcpy(buf, data.data() + pos, n); pos += n;
    setg(buf, buf, buf + n);
    return traits_type::to_int_type(buf[0]);
  }
  std::streamsize showmanyc() override { return 0; }
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    if (!seekable) return pos_type(off_type(-1));
    off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::end ? off_type(data.size()) : off_type(pos) - (egptr() - gptr());
    off_type t = base + off; if (t < 0 || t > off_type(data.size())) return pos_type(off_type(-1));
    pos = size_t(t); setg(buf, buf, buf); return pos_type(t);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

// Accepts `limit` bytes, then fails in manner `how`: 0 refuses (full disk), 1 raises, 2 accepts part of the write (short), then refuses,
// 3 refuses one write and then works again (transient error).
class OutMedium : public std::streambuf {
public:
  string got; size_t limit; int how; bool failed = false;
  OutMedium(size_t limit_ = size_t(-1), int how_ = 0) : limit(limit_), how(how_) {}
protected:
  void trip() { failed = true; fault(how == 1 ? F_WRITE_THROW : how == 2 ? F_SHORT_WRITE : how == 3 ? F_WRITE_ERROR : F_DISK_FULL); if (how == 3) limit = size_t(-1); if (how == 1) throw WriteError(); }
  int_type overflow(int_type c) override {
    Out out;
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    if (got.size() >= limit) { trip(); return traits_type::eof(); }
    got += char(c); return c;
  }
  std::streamsize xsputn(char const* s, std::streamsize n) override {
    Out out; size_t room = got.size() >= limit ? 0 : limit - got.size();
    size_t k = std::min(size_t(n), room);
    if (how == 0 && k < size_t(n)) k = pick(2) ? k : 0;        // a full disk takes part of the write or none of it
    if (how == 3 && k < size_t(n)) k = 0;
    got.append(s, k);
    if (k < size_t(n)) trip();
    return std::streamsize(k);
  }
  int sync() override { Out out; if (failed) { if (how == 1) throw WriteError(); return -1; } return 0; }
};

// A file the library opens by name. Reads of it come in fragments, are interrupted, or fail at offset `err`.
struct NamedFile {
  int fd = -1; string path; int frag; size_t err; bool failed = false;
  NamedFile(string const& data, int frag_, size_t err_ = size_t(-1));
  ~NamedFile();
  NamedFile(NamedFile const&) = delete;
};

// ---- stored images -------------------------------------------------------------------------------
// What survives on disk after a crash or with bad sectors. `old` is what the disk held before.
struct Damage { bool cut_only = false; bool any = false; string what; };
string damage_image(string const& img, string const& old, Damage& d);
}
