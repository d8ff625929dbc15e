#include "disk.hpp"
#include <bzlib.h>
#include <cerrno>
#include <cstdarg>
#include <algorithm>
#include <climits>
#include <set>
#include <dlfcn.h>
#include <lzma.h>
#include <poll.h>
#include <stdio.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

namespace sim {
std::map<std::string, DiskFile> disk;
static constexpr int FD0 = 1000000;
struct Handle { DiskFile* f; size_t pos; FILE* file; bool open; };
static std::vector<Handle> handles;
static std::set<void*> streams; static size_t streams_lost = 0;

std::string disk_path(int k, const std::string& fmt) { return "/simdisk/f" + std::to_string(k) + (fmt == "xz" ? ".cnf.xz" : fmt == "bz2" ? ".cnf.bz2" : fmt == "bare" ? "" : ".cnf"); }
std::string escape(const std::string& s) {
  std::string o; for (unsigned char c : s) {
    if (c == ' ') o += "\\s"; else if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r"; else if (c == '\\') o += "\\\\";
    else if (c < 33 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char) c; }
  return o;
}
std::string unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] != '\\' || i + 1 >= s.size()) { o += s[i]; continue; }
    char c = s[++i];
    if (c == 's') o += ' '; else if (c == 'n') o += '\n'; else if (c == 't') o += '\t'; else if (c == 'r') o += '\r';
    else if (c == 'x' && i + 2 < s.size()) { o += (char) strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else o += c;
  }
  return o;
}
std::string compress(const std::string& fmt, const std::vector<std::string>& parts) {
  std::string o;
  for (auto& p : parts) {
    if (fmt == "xz") {
      std::string b(lzma_stream_buffer_bound(p.size()), 0); size_t n = 0;
      if (lzma_easy_buffer_encode(0, LZMA_CHECK_CRC32, nullptr, (const uint8_t*) p.data(), p.size(), (uint8_t*) &b[0], &n, b.size()) != LZMA_OK) abort();
      o += b.substr(0, n);
    } else if (fmt == "bz2") {
      unsigned n = (unsigned) (p.size() + p.size() / 50 + 700); std::string b(n, 0);
      if (BZ2_bzBuffToBuffCompress(&b[0], &n, (char*) p.data(), (unsigned) p.size(), 1, 0, 0) != BZ_OK) abort();
      o += b.substr(0, n);
    } else o += p;
  }
  return o;
}
bool decompress(const std::string& fmt, const std::string& in, std::string& out_) {
  out_.clear();
  if (fmt == "xz") {
    lzma_stream s = LZMA_STREAM_INIT; if (lzma_stream_decoder(&s, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK) abort();
    s.next_in = (const uint8_t*) in.data(); s.avail_in = in.size(); uint8_t buf[8192]; lzma_ret r;
    do { s.next_out = buf; s.avail_out = sizeof buf; r = lzma_code(&s, LZMA_FINISH); out_.append((char*) buf, sizeof buf - s.avail_out); } while (r == LZMA_OK);
    lzma_end(&s); return r == LZMA_STREAM_END;
  }
  if (fmt == "bz2") {
    size_t pos = 0; if (in.empty()) return false;
    while (pos < in.size()) {
      bz_stream s{}; if (BZ2_bzDecompressInit(&s, 0, 0) != BZ_OK) abort();
      s.next_in = (char*) in.data() + pos; s.avail_in = (unsigned) (in.size() - pos); char buf[8192]; int r;
      do { s.next_out = buf; s.avail_out = sizeof buf; unsigned before = s.avail_in; r = BZ2_bzDecompress(&s); out_.append(buf, sizeof buf - s.avail_out); if (r == BZ_OK && s.avail_in == before && s.avail_out == sizeof buf) { r = BZ_UNEXPECTED_EOF; } } while (r == BZ_OK);
      pos = in.size() - s.avail_in; BZ2_bzDecompressEnd(&s);
      if (r != BZ_STREAM_END) return false;
    }
    return true;
  }
  out_ = in; return true;
}

void disk_load(const Plan& p) {
  disk.clear(); handles.clear(); streams.clear(); streams_lost = 0; handles.reserve(4096);
  for (auto& h : p.head) {
    if (h[0] != "file" || h.size() < 3) continue;
    int k = atoi(h[1].c_str()); std::string fmt = h[2], content; std::vector<std::string> parts(1);
    for (auto& b : p.body) if (b[0] == "data" && b.size() > 2 && atoi(b[1].c_str()) == k) { if (b[2] == "|") parts.emplace_back(); else parts.back() += unescape(b[2]); }
    std::string stored_as = h.size() > 3 ? h[3] : fmt;      // a name that does not match the content
    DiskFile& f = disk[disk_path(k, fmt)];
    f.bytes = f.pristine = compress(stored_as, parts);
    for (auto& b : p.body) {
      if (b.size() < 4 || atoi(b[1].c_str()) != k) continue;
      u64 a = strtoull(b[3].c_str(), nullptr, 10); std::string arg = b.size() > 4 ? b[4] : "0";
      size_t n = f.bytes.size();
      if (b[0] == "disk") {
        if (b[2] == "truncate") { if (a < n) { f.bytes.resize(a); SIM_COUNT("fault_truncate"); } }
        else if (b[2] == "bitflip") { if (n) { f.bytes[a % n] = (char) (f.bytes[a % n] ^ (1 << (atoi(arg.c_str()) & 7))); SIM_COUNT("fault_bitflip"); } }
        else if (b[2] == "torn") { size_t blk = 64, s = n ? (a % n) / blk * blk : 0; for (size_t i = s; i < n && i < s + blk; i++) f.bytes[i] = (char) atoi(arg.c_str()); if (n) SIM_COUNT("fault_torn"); }   // one sector never written
        else if (b[2] == "lost_tail") { size_t s = n ? (a % n) / 64 * 64 : 0; f.bytes.resize(s); SIM_COUNT("fault_lost_tail"); }          // only whole sectors reached the medium
        else if (b[2] == "garbage") { for (u64 i = 0; i < a; i++) f.bytes += (char) (atoi(arg.c_str()) + (int) i * 37); SIM_COUNT("fault_concat"); }
        else if (b[2] == "stale") { int o = atoi(arg.c_str()); for (auto& g : p.head) if (g[0] == "file" && g.size() > 2 && atoi(g[1].c_str()) == o) { auto it = disk.find(disk_path(o, g[2])); if (it != disk.end() && a < n) { std::string t = it->second.pristine; f.bytes.resize(a); if (t.size() > a) f.bytes += t.substr(a); SIM_COUNT("fault_writer_crash"); } } }  // the writer crashed while overwriting an older file
        else if (b[2] == "dup") { size_t s = n ? a % n : 0; f.bytes = f.bytes.substr(0, s) + f.bytes.substr(s / 2, s - s / 2) + f.bytes.substr(s); SIM_COUNT("fault_concat"); }
      } else if (b[0] == "rd") f.read_faults[a ? a : 1] = {b[2], atol(arg.c_str())};
      else if (b[0] == "openfail") f.open_faults[a ? a : 1] = atoi(b[2].c_str());
    }
  }
}
void disk_heal(const std::string& path) { auto& f = disk[path]; f.bytes = f.pristine; f.read_faults.clear(); f.open_faults.clear(); }

// one read from the medium
static ssize_t disk_read(Handle& h, char* buf, size_t n) {
  DiskFile& f = *h.f; f.reads++;
  crossing(SEAM_IO);
  size_t left = h.pos < f.bytes.size() ? f.bytes.size() - h.pos : 0, k = n < left ? n : left;
  auto it = f.read_faults.find(f.reads);
  if (it != f.read_faults.end()) {
    const std::string& kind = it->second.kind;
    if (kind == "eintr") { SIM_COUNT("fault_eintr"); f.faults_fired++; errno = EINTR; return -1; }
    if (kind == "eio") { SIM_COUNT("fault_io_error"); f.faults_fired++; errno = EIO; return -1; }
    if (kind == "short" && k > 0) { size_t s = (size_t) (it->second.arg > 0 ? it->second.arg : 1); if (s < k) { k = s; SIM_COUNT("fault_short_read"); } }
    if (kind == "stall") { vclock.advance(it->second.arg); vclock.stalled_ns += (u64) it->second.arg; SIM_COUNT("fault_stall"); }
  }
  memcpy(buf, f.bytes.data() + h.pos, k); h.pos += k;
  return (ssize_t) k;
}
static ssize_t cookie_read(void* c, char* buf, size_t n) {
  bool saved = in_code; in_code = false;
  ssize_t r = disk_read(handles[(size_t) (intptr_t) c], buf, n);
  int e = errno; in_code = saved; errno = e; return r;
}
static int cookie_close(void* c) { handles[(size_t) (intptr_t) c].open = false; return 0; }
static int cookie_seek(void* c, off64_t* off, int whence) {
  Handle& h = handles[(size_t) (intptr_t) c]; off64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t) h.pos : (off64_t) h.f->bytes.size();
  if (b + *off < 0) { errno = EINVAL; return -1; }
  h.pos = (size_t) (b + *off); *off = (off64_t) h.pos; return 0;
}
static FILE* disk_open(const char* name) {
  bool saved = in_code; in_code = false;
  crossing(SEAM_IO);
  FILE* r = nullptr; int e = ENOENT;
  auto it = disk.find(name);
  if (it != disk.end()) {
    DiskFile& f = it->second; f.opens++;
    auto of = f.open_faults.find(f.opens);
    if (of != f.open_faults.end()) { SIM_COUNT("fault_open_error"); f.faults_fired++; e = of->second; }
    else {
      handles.push_back({&f, 0, nullptr, true});
      cookie_io_functions_t io{cookie_read, nullptr, cookie_seek, cookie_close};
      r = fopencookie((void*) (intptr_t) (handles.size() - 1), "rb", io);
      handles.back().file = r;
    }
  }
  in_code = saved; if (!r) errno = e;
  return r;
}
static Handle* by_fd(int fd) { return fd >= FD0 && (size_t) (fd - FD0) < handles.size() && handles[(size_t) (fd - FD0)].open ? &handles[(size_t) (fd - FD0)] : nullptr; }
template <class F> static F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
// decompression streams the code under test has open: their memory is the library's
size_t disk_handles() { size_t n = streams.size() + streams_lost; for (auto& h : handles) n += h.open; return n; }
}

extern "C" {
FILE* fopen(const char* name, const char* mode) {
  if (sim::in_code && strncmp(name, "/simdisk/", 9) == 0) return sim::disk_open(name);
  static auto f = sim::real<FILE* (*)(const char*, const char*)>("fopen"); return f(name, mode);
}
FILE* fopen64(const char* name, const char* mode) {
  if (sim::in_code && strncmp(name, "/simdisk/", 9) == 0) return sim::disk_open(name);
  static auto f = sim::real<FILE* (*)(const char*, const char*)>("fopen64"); return f(name, mode);
}
int fileno(FILE* file) noexcept {
  for (size_t i = 0; i < sim::handles.size(); i++) if (sim::handles[i].open && sim::handles[i].file == file) return sim::FD0 + (int) i;
  static auto f = sim::real<int (*)(FILE*)>("fileno"); return f(file);
}
ssize_t read(int fd, void* buf, size_t n) {
  if (fd >= sim::FD0) {
    sim::Handle* h = sim::by_fd(fd); if (!h) { errno = EBADF; return -1; }
    bool saved = sim::in_code; sim::in_code = false; ssize_t r = sim::disk_read(*h, (char*) buf, n); int e = errno; sim::in_code = saved; errno = e; return r;
  }
  static auto f = sim::real<ssize_t (*)(int, void*, size_t)>("read"); return f(fd, buf, n);
}
off_t lseek(int fd, off_t off, int whence) noexcept {
  if (fd >= sim::FD0) { sim::Handle* h = sim::by_fd(fd); if (!h) { errno = EBADF; return -1; } off64_t o = off; if (sim::cookie_seek((void*) (intptr_t) (fd - sim::FD0), &o, whence)) return -1; return o; }
  static auto f = sim::real<off_t (*)(int, off_t, int)>("lseek"); return f(fd, off, whence);
}
off64_t lseek64(int fd, off64_t off, int whence) noexcept { return lseek(fd, off, whence); }
int fstat(int fd, struct stat* st) noexcept {
  if (fd >= sim::FD0) { sim::Handle* h = sim::by_fd(fd); if (!h) { errno = EBADF; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t) h->f->bytes.size(); st->st_blksize = 4096; return 0; }
  static auto f = sim::real<int (*)(int, struct stat*)>("fstat"); return f(fd, st);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (fd >= sim::FD0) { errno = ENOTTY; return -1; }
  static auto f = sim::real<int (*)(int, unsigned long, ...)>("ioctl"); return f(fd, req, a);
}
lzma_ret lzma_stream_decoder(lzma_stream* st, uint64_t lim, uint32_t flags) {
  static auto f = sim::real<lzma_ret (*)(lzma_stream*, uint64_t, uint32_t)>("lzma_stream_decoder");
  if (!sim::in_code) return f(st, lim, flags);
  sim::Harness h; if (!st->internal && sim::streams.count(st)) sim::streams_lost++;
  lzma_ret r = f(st, lim, flags); if (st->internal) sim::streams.insert(st); return r;
}
void lzma_end(lzma_stream* st) {
  static auto f = sim::real<void (*)(lzma_stream*)>("lzma_end");
  sim::Harness h; sim::streams.erase(st); f(st);
}
BZFILE* BZ2_bzReadOpen(int* err, FILE* file, int verbosity, int small, void* unused, int n) {
  static auto f = sim::real<BZFILE* (*)(int*, FILE*, int, int, void*, int)>("BZ2_bzReadOpen");
  if (!sim::in_code) return f(err, file, verbosity, small, unused, n);
  BZFILE* b = f(err, file, verbosity, small, unused, n); if (b) { sim::Harness h; sim::streams.insert(b); } return b;
}
void BZ2_bzReadClose(int* err, BZFILE* b) {
  static auto f = sim::real<void (*)(int*, BZFILE*)>("BZ2_bzReadClose");
  f(err, b); sim::Harness h; sim::streams.erase(b);
}
int poll(struct pollfd* fds, nfds_t n, int timeout) {
  if (n == 1 && fds[0].fd >= sim::FD0) { fds[0].revents = POLLIN; return 1; }
  static auto f = sim::real<int (*)(struct pollfd*, nfds_t, int)>("poll"); return f(fds, n, timeout);
}
}

// ------------------------------------------------------- DIMACS, read again
namespace sim {
static bool space(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool whole_int(const std::string& t, i64& v) {
  size_t i = 0; bool neg = false;
  if (i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
  if (i >= t.size()) return false;
  v = 0;
  for (; i < t.size(); i++) { if (t[i] < '0' || t[i] > '9') return false; v = v * 10 + (t[i] - '0'); if (v > (i64) 1 << 40) return false; }
  if (neg) v = -v;
  return v > -((i64) 1 << 31) && v < ((i64) 1 << 31);
}
DimacsRef dimacs_read(const std::string& text, bool aliases) {
  DimacsRef r; std::vector<int> cur; bool seen_clause = false;
  auto words = [](const std::string& l, size_t from) { std::vector<std::string> w; std::string t; for (size_t i = from; i <= l.size(); i++) { if (i == l.size() || space((unsigned char) l[i])) { if (!t.empty()) w.push_back(t); t.clear(); } else t += l[i]; } return w; };
  size_t pos = 0;
  while (pos < text.size()) {
    size_t nl = text.find('\n', pos); std::string line = text.substr(pos, nl == std::string::npos ? std::string::npos : nl - pos); pos = nl == std::string::npos ? text.size() : nl + 1;
    size_t s = 0; while (s < line.size() && space((unsigned char) line[s])) s++; line = line.substr(s);
    if (line.empty()) continue;
    if (line[0] == 'c') {
      bool co = aliases && line.compare(0, 2, "co") == 0, cw = line.compare(0, 2, "cw") == 0;
      if (co || cw) {
        auto w = words(line, 2); i64 v;
        if (w.size() == 2 && whole_int(w[0], v) && v > 0) {
          bool ok = true;
          if (cw) { char* e; errno = 0; strtod(w[1].c_str(), &e); ok = *e == 0 && e != w[1].c_str() && errno == 0 && w[1].find('\0') == std::string::npos; }
          if (ok) { r.vars = std::max(r.vars, (unsigned) v); r.biggest = std::max(r.biggest, (u64) v); if (co) r.alias[(unsigned) v] = w[1]; }
        }
      }
      continue;
    }
    if (line[0] == '%') break;
    if (line.compare(0, 5, "p cnf") == 0) {
      if (!seen_clause) { unsigned n = 0, m = 0; sscanf(line.c_str(), "p cnf %u %u", &n, &m); r.biggest = std::max(r.biggest, (u64) n); r.vars = std::max(r.vars, n); }
      continue;
    }
    seen_clause = true;
    for (auto& t : words(line, 0)) {
      i64 v; if (!whole_int(t, v)) { r.ok = false; return r; }
      if (v) { cur.push_back((int) v); unsigned a = (unsigned) (v < 0 ? -v : v); r.vars = std::max(r.vars, a); r.biggest = std::max(r.biggest, (u64) a); }
      else { r.clauses.push_back(cur); cur.clear(); }
    }
  }
  if (!cur.empty()) r.clauses.push_back(cur);
  return r;
}
}
