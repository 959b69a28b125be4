#include "io.hh"
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <cerrno>
namespace sim {
static NamedFile* g_file = nullptr;
NamedFile::NamedFile(string const& data, int frag_, size_t err_) : frag(frag_), err(err_) {
  fd = memfd_create("gcsim", 0);
  if (fd < 0) return;
  for (size_t k = 0; k < data.size();) { ssize_t n = write(fd, data.data() + k, data.size() - k); if (n <= 0) { close(fd); fd = -1; return; } k += size_t(n); }
  path = "/proc/self/fd/" + std::to_string(fd);
  if (access(path.c_str(), R_OK) != 0) { close(fd); fd = -1; return; }
  g_file = this;
}
NamedFile::~NamedFile() { if (g_file == this) g_file = nullptr; if (fd >= 0) close(fd); }
ssize_t sim_read(int fd, void* p, size_t n) {
  if (!g_file || !n) return syscall(SYS_read, fd, p, n);
  NamedFile& f = *g_file; Out out;
  off_t at = lseek(fd, 0, SEEK_CUR);
  bool const some = fragment_budget();
  if (some && chance(1, 16)) { fault(F_EINTR); errno = EINTR; return -1; }
  if (at >= 0 && size_t(at) >= f.err) { f.failed = true; fault(F_READ_ERROR); errno = EIO; return -1; }
  if (!some) {} else if (f.frag == 1) n = 1; else if (f.frag == 2) n = std::min(n, size_t(1 + pick(pick(4) ? 7 : 64)));
  if (at >= 0 && size_t(at) + n > f.err) n = f.err - size_t(at);
  if (f.frag) fault(F_SHORT_READ);
  return syscall(SYS_read, fd, p, n);
}
}
extern "C" ssize_t read(int fd, void* p, size_t n) { return sim::sim_read(fd, p, n); }
namespace sim {
string damage_image(string const& img, string const& old, Damage& d) {
  string o = img;
  uint32_t sect = 1u << (2 + pick(5));                        // 4..64 byte sectors
  uint32_t first = pick(10);
  unsigned n = 1 + (pick(3) == 2 ? pick(3) : 0);
  d.cut_only = false;
  for (unsigned k = 0; k < n; ++k) {
    uint32_t kind = k == 0 ? first : 2 + pick(8);
    size_t len = o.size(); if (!len) break;
    size_t ns = (len + sect - 1) / sect, s = pick(uint32_t(ns)) * sect, e = std::min(len, s + sect);
    d.any = true;
    switch (kind) {
    case 0: case 1: { size_t c = pick(uint32_t(len)); if (chance(1, 4)) c = c / sect * sect; o.resize(c); d.cut_only = n == 1; fault(F_CUT); d.what += " cut at " + std::to_string(c); break; }
    case 2: { size_t c = pick(uint32_t(len)); string t = o.substr(0, c); if (old.size() > c) t += old.substr(c); else t.resize(len, 0); o = t; fault(F_TORN); d.what += " torn at " + std::to_string(c); break; }
    case 3: for (size_t i = s; i < e; ++i) o[i] = 0; fault(F_LOST_SECTOR); d.what += " lost sector at " + std::to_string(s); break;
    case 4: for (size_t i = s; i < e; ++i) o[i] = i < old.size() ? old[i] : char(0xFF); fault(F_STALE_SECTOR); d.what += " stale sector at " + std::to_string(s); break;
    case 5: { string t = o.substr(s, e - s); size_t q = pick(uint32_t(ns)) * sect; for (size_t i = 0; i < t.size() && q + i < len; ++i) o[q + i] = t[i]; fault(F_DUP_SECTOR); d.what += " sector " + std::to_string(s) + " also at " + std::to_string(q); break; }
    case 6: case 7: { size_t b = pick(uint32_t(len)); o[b] = char(o[b] ^ (1 << pick(8))); fault(F_BITFLIP); d.what += " bit flip at " + std::to_string(b); break; }
    case 8: { size_t b = pick(uint32_t(len)); o[b] = char(pick(256)); fault(F_OVERWRITE); d.what += " byte overwritten at " + std::to_string(b); break; }
    default: { // a declared count or type code is replaced
      size_t b = pick(uint32_t(len)); if (chance(1, 2)) b = b / 4 * 4;
      static const uint32_t ks[] = {0xFFFFFFFFu, 0x7FFFFFFFu, 0x80000000u, 0x7FFFFFFEu, 0x10000000u, 0xFFFFFFF8u, 0x20000001u, 0x40000000u, 1u, 0u, 20u, 21u, 255u, 65536u};
      uint32_t v = pick(2) ? ks[pick(14)] : pick(24);
      for (size_t i = 0; i < 4 && b + i < len; ++i) o[b + i] = char(v >> (8 * i));
      fault(F_COUNT_LIE); d.what += " word at " + std::to_string(b) + " = " + std::to_string(v); break; }
    }
  }
  if (o == img) d.any = false;
  return o;
}
}
