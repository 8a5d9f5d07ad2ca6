#include "sysfault.h"
#include "../pbt/engine.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sysf {
static thread_local Watch* g_w = nullptr;
void Watch::arm() { g_w = this; }
void Watch::disarm() { if (g_w == this) g_w = nullptr; }

std::string errName(int e) {
  switch (e) {
#define N(x) case x: return #x;
  N(EIO) N(ENOSPC) N(EINTR) N(EINVAL) N(ENOMEM) N(EACCES) N(EMFILE) N(ENFILE) N(EDQUOT) N(EROFS) N(EOPNOTSUPP) N(ENOSYS) N(EFBIG) N(EPERM) N(ENODEV) N(EAGAIN) N(EBADF) N(ENOENT) N(EOVERFLOW) N(EBUSY) N(ELOOP) N(ETXTBSY) N(ESTALE) N(EISDIR)
#undef N
  }
  return std::to_string(e);
}
std::string Watch::text() const {
  std::string r;
  for (auto& c : calls) { r += r.empty() ? "" : " "; r += c.name + "(" + std::to_string(c.arg) + ")"; if (c.faulted) r += "=" + errName(c.err); else if (c.ret == -1) r += "=-1"; }
  return r;
}

static std::pair<dev_t, ino_t> idOf(int fd) { struct stat s; return fstat(fd, &s) ? std::pair<dev_t, ino_t>{0, 0} : std::pair<dev_t, ino_t>{s.st_dev, s.st_ino}; }
static std::string contents(int fd) {
  struct stat st; std::string r;
  if (fstat(fd, &st)) return r;
  int f2 = fd;
  bool own = false;
  if ((fcntl(fd, F_GETFL) & O_ACCMODE) == O_WRONLY) { f2 = ::open(("/proc/self/fd/" + std::to_string(fd)).c_str(), O_RDONLY); own = true; if (f2 < 0) return r; }
  r.resize(size_t(st.st_size));
  size_t n = 0;
  while (n < r.size()) { ssize_t k = pread(f2, &r[n], r.size() - n, off_t(n)); if (k <= 0) break; n += size_t(k); }
  r.resize(n);
  if (own) ::close(f2);
  return r;
}

std::string const* durableOf(Watch const& w, std::string const& path) {
  struct stat s;
  if (stat(path.c_str(), &s)) return nullptr;
  auto it = w.durable.find({s.st_dev, s.st_ino});
  return it == w.durable.end() ? nullptr : &it->second;
}
std::vector<int> openFds() {
  std::vector<int> r;
  DIR* d = opendir("/proc/self/fd");
  if (!d) return r;
  while (auto e = readdir(d)) { int f = atoi(e->d_name); if (e->d_name[0] != '.' && f != dirfd(d)) r.push_back(f); }
  closedir(d);
  std::sort(r.begin(), r.end());
  return r;
}
bool mappedAnywhere(std::string const& path) {
  if (path.empty()) return false;
  FILE* f = fopen("/proc/self/maps", "r");
  if (!f) return false;
  char line[8192]; bool hit = false;
  while (fgets(line, sizeof line, f)) if (strstr(line, path.c_str())) hit = true;
  fclose(f);
  return hit;
}

// --------------------------------------------------------------- the wrapped calls
struct Off { Watch* w; Off() : w(g_w) { g_w = nullptr; } ~Off() { g_w = w; } };   // no observation inside the observer

static int faultFor(Watch& w, char const* kind) {
  int pos = int(w.calls.size());
  for (auto& f : w.faults) {
    if (f.pos >= 0 ? f.pos == pos : f.kind == kind) {
      if (f.pos < 0) { if (f.times <= 0) continue; f.times--; }
      return f.err;
    }
  }
  return 0;
}
template <typename Real, typename After>
static auto call(char const* kind, int fd, long arg, bool stillDo, Real real, After after) -> decltype(real()) {
  using R = decltype(real());
  Watch* w = g_w;
  if (!w) return real();
  Off off;
  int e = faultFor(*w, kind);
  R r;
  if (e) {
    if (stillDo) { r = real(); if (r != R(-1)) after(*w, r, true); }
    w->calls.push_back({kind, fd, arg, true, e, -1});
    errno = e;
    return R(-1);
  }
  r = real();
  int keep = errno;
  if (r != R(-1)) after(*w, r, false);
  w->calls.push_back({kind, fd, arg, false, r == R(-1) ? keep : 0, long(intptr_t(r))});
  errno = keep;
  return r;
}
static void opened(Watch& w, int fd, int flags) {
  w.open[fd] = flags;
  if ((flags & O_ACCMODE) != O_RDONLY) w.writing = true;
}
static void synced(Watch& w, int fd) { w.durable[idOf(fd)] = contents(fd); }
struct MapInfo { std::pair<dev_t, ino_t> id; off_t off; bool shared; int fd; };
static std::map<std::pair<Watch*, uintptr_t>, MapInfo>& infos() { static std::map<std::pair<Watch*, uintptr_t>, MapInfo> m; return m; }
}  // namespace sysf
using namespace sysf;
static auto const nothing = [](Watch&, long, bool) {};

#define MODE(fl) mode_t mode = 0; if ((fl) & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, fl); mode = va_arg(ap, unsigned); va_end(ap); }
#define OPEN(N)                                                                                                    \
  extern "C" int __real_##N(char const*, int, ...);                                                                \
  extern "C" int __wrap_##N(char const* p, int fl, ...) { MODE(fl) return call("open", -1, fl, false, [&] { return __real_##N(p, fl, mode); }, [&](Watch& w, int fd, bool) { opened(w, fd, fl); }); }
OPEN(open) OPEN(open64)
#define OPENAT(N)                                                                                                  \
  extern "C" int __real_##N(int, char const*, int, ...);                                                           \
  extern "C" int __wrap_##N(int d, char const* p, int fl, ...) { MODE(fl) return call("open", -1, fl, false, [&] { return __real_##N(d, p, fl, mode); }, [&](Watch& w, int fd, bool) { opened(w, fd, fl); }); }
OPENAT(openat) OPENAT(openat64)
#define CREAT(N)                                                                                                   \
  extern "C" int __real_##N(char const*, mode_t);                                                                  \
  extern "C" int __wrap_##N(char const* p, mode_t m) { return call("open", -1, 0, false, [&] { return __real_##N(p, m); }, [&](Watch& w, int fd, bool) { opened(w, fd, O_WRONLY); }); }
CREAT(creat) CREAT(creat64)
extern "C" int __real_close(int);
extern "C" int __wrap_close(int fd) {
  Watch* w = g_w;
  if (!w) return __real_close(fd);
  bool before = false;
  for (auto& c : w->calls) if (c.name == "close" && c.faulted) before = true;
  int r = call("close", fd, fd, true, [&] { return __real_close(fd); }, [&](Watch& w2, int, bool) { w2.open.erase(fd); });
  if (r == -1 && errno == EBADF && fd >= 0 && !before && !w->calls.back().faulted) w->misuse = "close() of descriptor " + std::to_string(fd) + ", which is not open";
  return r;
}
#define FSTAT(N, S)                                                                                                \
  extern "C" int __real_##N(int, struct S*);                                                                       \
  extern "C" int __wrap_##N(int fd, struct S* s) { return call("stat", fd, fd, false, [&] { return __real_##N(fd, s); }, nothing); }
FSTAT(fstat, stat) FSTAT(fstat64, stat64)
#define STAT(N, S)                                                                                                 \
  extern "C" int __real_##N(char const*, struct S*);                                                               \
  extern "C" int __wrap_##N(char const* p, struct S* s) { return call("stat", -1, 0, false, [&] { return __real_##N(p, s); }, nothing); }
STAT(stat, stat) STAT(stat64, stat64)
#define LSEEK(N)                                                                                                   \
  extern "C" off_t __real_##N(int, off_t, int);                                                                    \
  extern "C" off_t __wrap_##N(int fd, off_t o, int wh) { return call("lseek", fd, o, false, [&] { return __real_##N(fd, o, wh); }, nothing); }
LSEEK(lseek) LSEEK(lseek64)
#define FALLOC(N)                                                                                                  \
  extern "C" int __real_##N(int, int, off_t, off_t);                                                               \
  extern "C" int __wrap_##N(int fd, int m, off_t o, off_t l) { return call("fallocate", fd, l, false, [&] { return __real_##N(fd, m, o, l); }, nothing); }
FALLOC(fallocate) FALLOC(fallocate64)
#define PFALLOC(N)                                                                                                 \
  extern "C" int __real_##N(int, off_t, off_t);                                                                    \
  extern "C" int __wrap_##N(int fd, off_t o, off_t l) {                                                            \
    Watch* w = g_w;                                                                                                \
    if (!w) return __real_##N(fd, o, l);                                                                           \
    int keep = errno, ret = 0;                                                                                     \
    int r = call("fallocate", fd, l, false, [&] { ret = __real_##N(fd, o, l); if (ret) errno = ret; return ret ? -1 : 0; }, nothing); \
    int e = errno; errno = keep; return r ? e : 0; }
PFALLOC(posix_fallocate) PFALLOC(posix_fallocate64)
#define FTRUNC(N)                                                                                                  \
  extern "C" int __real_##N(int, off_t);                                                                           \
  extern "C" int __wrap_##N(int fd, off_t l) { return call("ftruncate", fd, l, false, [&] { return __real_##N(fd, l); }, nothing); }
FTRUNC(ftruncate) FTRUNC(ftruncate64)
// Synchronising calls only check their arguments for real: waiting for the disk would cost time and show nothing here.
extern "C" int __real_fsync(int);
extern "C" int __wrap_fsync(int fd) { return g_w ? call("sync", fd, fd, false, [&] { return fcntl(fd, F_GETFD) == -1 ? -1 : 0; }, [&](Watch& w, int, bool) { synced(w, fd); }) : __real_fsync(fd); }
extern "C" int __real_fdatasync(int);
extern "C" int __wrap_fdatasync(int fd) { return g_w ? call("sync", fd, fd, false, [&] { return fcntl(fd, F_GETFD) == -1 ? -1 : 0; }, [&](Watch& w, int, bool) { synced(w, fd); }) : __real_fdatasync(fd); }
extern "C" int __real_msync(void*, size_t, int);
extern "C" int __wrap_msync(void* a, size_t n, int fl) {
  if (!g_w) return __real_msync(a, n, fl);
  return call("msync", -1, long(n), false, [&] { return __real_msync(a, n, (fl & ~MS_SYNC) | MS_ASYNC); }, [&](Watch& w, int, bool) {
    if (!(fl & MS_SYNC)) return;
    uintptr_t lo = uintptr_t(a), hi = (lo + n + 4095) & ~uintptr_t(4095);
    for (auto& m : w.maps) {
      uintptr_t mlo = m.first, mhi = m.first + ((m.second + 4095) & ~size_t(4095));
      auto& in = infos()[{&w, m.first}];
      if (!in.shared || hi <= mlo || lo >= mhi) continue;
      uintptr_t b = std::max(lo, mlo), e = std::min(hi, mhi);
      // the file's current length limits what the mapping holds of it
      struct stat st; size_t flen = 0;
      if (in.fd >= 0 && fstat(in.fd, &st) == 0 && st.st_ino == in.id.second) flen = size_t(st.st_size);
      else flen = size_t(in.off) + m.second;
      auto& img = w.durable[in.id];
      if (img.size() != flen) img.resize(flen, '\0');
      for (uintptr_t p = b; p < e; p++) { size_t o = size_t(in.off) + (p - mlo); if (o >= flen || (p - mlo) >= m.second) break; img[o] = *reinterpret_cast<char const*>(p); }
    }
  });
}
#define MMAP(N)                                                                                                    \
  extern "C" void* __real_##N(void*, size_t, int, int, int, off_t);                                                \
  extern "C" void* __wrap_##N(void* a, size_t n, int pr, int fl, int fd, off_t o) {                                \
    if (!g_w || fd < 0) return __real_##N(a, n, pr, fl, fd, o);                                                    \
    return call("mmap", fd, long(n), false, [&] { return __real_##N(a, n, pr, fl, fd, o); },                       \
                [&](Watch& w, void* p, bool) { w.maps[uintptr_t(p)] = n; infos()[{&w, uintptr_t(p)}] = {idOf(fd), o, (fl & MAP_SHARED) != 0, fd}; }); }
MMAP(mmap) MMAP(mmap64)
extern "C" int __real_munmap(void*, size_t);
extern "C" int __wrap_munmap(void* a, size_t n) {
  if (!g_w) return __real_munmap(a, n);
  return call("munmap", -1, long(n), true, [&] { return __real_munmap(a, n); }, [&](Watch& w, int, bool) {
    auto it = w.maps.find(uintptr_t(a));
    if (it != w.maps.end() && ((it->second + 4095) & ~size_t(4095)) <= ((n + 4095) & ~size_t(4095))) w.maps.erase(it);
  });
}
static void wrote(Watch& w, int fd) { auto it = w.open.find(fd); if (it != w.open.end() && (it->second & (O_SYNC | O_DSYNC))) synced(w, fd); }
extern "C" ssize_t __real_write(int, void const*, size_t);
extern "C" ssize_t __wrap_write(int fd, void const* p, size_t n) {
  if (!g_w || fd <= 2) return __real_write(fd, p, n);
  return call("write", fd, long(n), false, [&] { return __real_write(fd, p, n); }, [&](Watch& w, ssize_t, bool) { wrote(w, fd); });
}
#define PWRITE(N)                                                                                                  \
  extern "C" ssize_t __real_##N(int, void const*, size_t, off_t);                                                  \
  extern "C" ssize_t __wrap_##N(int fd, void const* p, size_t n, off_t o) { return call("write", fd, long(n), false, [&] { return __real_##N(fd, p, n, o); }, [&](Watch& w, ssize_t, bool) { wrote(w, fd); }); }
PWRITE(pwrite) PWRITE(pwrite64)
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" ssize_t __wrap_read(int fd, void* p, size_t n) {
  if (!g_w || fd <= 2) return __real_read(fd, p, n);
  return call("read", fd, long(n), false, [&] { return __real_read(fd, p, n); }, nothing);
}
#define PREAD(N)                                                                                                   \
  extern "C" ssize_t __real_##N(int, void*, size_t, off_t);                                                        \
  extern "C" ssize_t __wrap_##N(int fd, void* p, size_t n, off_t o) { return call("read", fd, long(n), false, [&] { return __real_##N(fd, p, n, o); }, nothing); }
PREAD(pread) PREAD(pread64)
extern "C" int __real_rename(char const*, char const*);
extern "C" int __wrap_rename(char const* a, char const* b) { return call("rename", -1, 0, false, [&] { return __real_rename(a, b); }, nothing); }
